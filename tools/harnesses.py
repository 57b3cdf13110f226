"""Which sources make the harness of each property, and which parts of /repo it needs."""

CORE = ["utility", "numeric", "algebra", "geometry/interval.cpp"]
FUNCTION = CORE + ["function", "symbolic", "geometry/box.cpp"]
KERNEL = ["utility", "numeric", "algebra", "function", "symbolic", "geometry", "solvers", "io"]
ALL = KERNEL + ["dynamics", "hybrid"]

HARNESSES = {
    "C01": {"sources": ["h_exact.cpp"], "modules": CORE},
    "C03": {"sources": ["h_float_arith.cpp"], "modules": CORE},
    "C04": {"sources": ["h_float_fn.cpp"], "modules": CORE},
    "C06": {"sources": ["h_bounds.cpp"], "modules": CORE},
    "C07": {"sources": ["h_ball.cpp"], "modules": CORE},
    "C08": {"sources": ["h_onesided.cpp"], "modules": CORE},
    "C05": {"sources": ["h_float_conv.cpp"], "modules": CORE},
    "C09": {"sources": ["h_logic.cpp"], "modules": CORE},
    "C14": {"sources": ["h_expansion.cpp"], "modules": CORE, "variant": "san"},
    "C13": {"sources": ["h_linalg.cpp"], "modules": CORE},
    "C15": {"sources": ["h_differential.cpp"], "modules": CORE},
    "C17": {"sources": ["h_polynomial.cpp"], "modules": CORE + ["function/polynomial.cpp", "function/chebyshev_polynomial.cpp"]},
    "C18": {"sources": ["h_taylor_model.cpp"], "modules": CORE + ["function/taylor_model.cpp"]},
    "C19": {"sources": ["h_function_patch.cpp"], "modules": FUNCTION},
    "C20": {"sources": ["h_function.cpp"], "modules": FUNCTION},
    "C21": {"sources": ["h_expression.cpp"], "modules": FUNCTION},
    "C22": {"sources": ["h_interval.cpp"], "modules": FUNCTION + ["geometry/point.cpp"]},
    "C23": {"sources": ["h_grid.cpp"], "modules": FUNCTION + ["geometry/point.cpp", "geometry/grid.cpp", "geometry/grid_paving.cpp", "geometry/binary_tree.cpp", "geometry/set.cpp", "geometry/geometry.cpp", "geometry/function_set.cpp", "geometry/affine_set.cpp"]},
    "C24": {"sources": ["h_solver.cpp"], "modules": FUNCTION + ["solvers/solver.cpp"]},
    "C25": {"sources": ["h_integrator.cpp"], "modules": FUNCTION + ["geometry/point.cpp", "solvers/bounder.cpp", "solvers/integrator.cpp", "solvers/runge_kutta_integrator.cpp"]},
    "C26": {"sources": ["h_constraint.cpp"], "modules": FUNCTION + ["geometry/point.cpp", "geometry/function_set.cpp", "geometry/affine_set.cpp", "geometry/geometry.cpp", "geometry/set.cpp", "geometry/curve.cpp", "solvers"]},
    "C10": {"sources": ["h_real.cpp"], "modules": CORE},
}
