"""The properties and how each is decided: the source of properties.jsonl and MANIFEST.json.

python3 tools/spec.py writes both."""

import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = []
NOT_APPLICABLE = []


def P(id, title, statement, text, why, files, mechanism, note, over=("inputs",), observe=(), oracle="", state=()):
    SPEC.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mechanism=mechanism,
                     note=note, over=list(over), observe=list(observe), oracle=oracle, state=list(state)))


N = "source/numeric/"

P("C01", "Exact number arithmetic is exact",
  "Integer, Dyadic, Rational and Decimal arithmetic (sums, products, quotients, powers, roundings, min/max, comparisons), "
  "and construction of these types from builtin numbers, text and each other, give the mathematically exact result. "
  "Values are not changed by copying, moving, self-assignment or aliasing of operands. "
  "What cannot be represented exactly is refused rather than rounded.",
  "all operands of any size and sign, and every sequence of operations and assignments on them",
  "The tests try a few dozen small constants; wrong results appear only for particular signs, word-size boundaries, "
  "zero denominators or aliased operands.",
  [N + f for f in ("integer.cpp", "integer.hpp", "dyadic.cpp", "dyadic.hpp", "rational.cpp", "rational.hpp", "decimal.cpp", "decimal.hpp")],
  [("GMP wrappers", N + "integer.cpp"), ("binary scaling and rounding", N + "dyadic.cpp"), ("canonical fractions", N + "rational.cpp"), ("decimal scaling", N + "decimal.cpp")],
  "Random operands biased to word-size boundaries, ties and aliasing, compared with GMP rationals read out of the representation.",
  oracle="GMP integers and rationals (gmpxx)", observe=["the value denoted by each result", "results of comparisons"])

P("C03", "Floating-point arithmetic is rounded in the requested direction",
  "For double and multiple precision, an arithmetic operation asked to round down, up or to nearest returns the representable number "
  "next to the exact result in that direction (the nearest one when so asked), including on underflow and overflow. "
  "An operation does this whatever rounding mode is current, and leaves that mode as it found it.",
  "all operands, precisions, rounding directions and current rounding modes",
  "A result on the wrong side by one unit in the last place shows only for operands whose exact result is not representable; tests check a handful of them.",
  [N + f for f in ("floatdp.cpp", "floatdp.hpp", "floatmp.cpp", "floatmp.hpp", "rounding.hpp", "rounded_float.hpp")],
  [("hardware rounding mode set around each double operation", N + "floatdp.cpp"), ("MPFR rounding argument", N + "floatmp.cpp"), ("arithmetic in the current mode", N + "rounded_float.hpp")],
  "Random and structured operands over the whole range; the result and its neighbours are compared with the exact rational result.",
  oracle="exact rational arithmetic (GMP)", observe=["the returned number", "the rounding mode after the call"])

P("C04", "Directed elementary functions lie on the requested side of the true value",
  "For double and multiple precision, the square root, exponential, logarithm, trigonometric and inverse trigonometric functions rounded down (up) "
  "never exceed (fall below) the true real value, and all variants stay within a few units in the last place of it. "
  "They terminate on all arguments in their domain.",
  "all arguments in the domain, precisions, rounding directions and current rounding modes",
  "The true values are irrational; tests compare few arguments with constants, and errors show only at special arguments (large, tiny, next to multiples of pi/2).",
  [N + f for f in ("floatdp.cpp", "floatmp.cpp", "rounding.hpp", "float_bounds.cpp")],
  [("double functions through MPFR", N + "floatdp.cpp"), ("MPFR functions", N + "floatmp.cpp")],
  "Random arguments biased to special points, compared with MPFR enclosures at 420 or more bits; only certain violations are reported.",
  oracle="MPFR interval enclosures at much higher precision", observe=["the returned number"])

P("C05", "Conversion between number types is exact, or rounded as asked",
  "Converting between builtin, exact and floating-point numbers gives the exact value, the correctly rounded one when a direction is given, "
  "an enclosure of it for validated types, or is refused; it is never silently inexact. "
  "Comparing a floating-point number with an exact number answers as the exact values compare.",
  "all values of the source type, target precisions, directions and current rounding modes",
  "Whether a conversion rounds depends on the value's bits and the current mode; tests convert a few short constants.",
  [N + f for f in ("floatdp.cpp", "floatmp.cpp", "builtin.hpp", "float_bounds.hpp", "float_ball.tpl.hpp", "float_error.hpp", "float_lower_bound.hpp", "float_upper_bound.hpp", "dyadic.cpp", "rational.cpp")],
  [("rounded constructors", N + "floatdp.cpp"), ("rounded constructors", N + "floatmp.cpp"), ("outward rounding", N + "float_bounds.hpp")],
  "Random sources biased to values next to representable numbers and to range limits, compared with exact rationals.",
  oracle="exact rational arithmetic (GMP)", observe=["the converted value", "whether the conversion was refused"])

P("C06", "Interval (bounds) arithmetic encloses every possible value",
  "Every arithmetic, lattice and elementary operation on lower and upper bounds, in double and multiple precision and with exact dyadic or rational endpoints, "
  "returns bounds on the result for every choice of real values within the argument bounds, also on overflow, underflow, aliasing and mixed precision, "
  "with builtin and exact numbers as the other operand, and whatever the current rounding mode. "
  "On bounded arguments the results of the field operations are within a few units in the last place of the exact image.",
  "all argument bounds, all values within them, precisions, rounding modes and sequences of operations",
  "An enclosure fails only for particular signs, magnitudes or positions relative to extrema; tests sample a few.",
  [N + f for f in ("float_bounds.hpp", "float_bounds.tpl.hpp", "float_bounds.inl.hpp", "dyadic.hpp", "rational.cpp", "float_operations.hpp")],
  [("outward rounding", N + "float_bounds.hpp"), ("trigonometric range reduction", N + "float_bounds.tpl.hpp"), ("exact bounds", N + "rational.cpp")],
  "Random bounds and points inside them; the exact or 420-bit result for the points has to lie in the returned bounds.",
  oracle="exact rational arithmetic (GMP) and MPFR enclosures of the value at sampled points", observe=["bounds returned by each operation"])

P("C07", "Ball arithmetic encloses every possible value",
  "Every arithmetic, lattice and elementary operation on balls (centre and error radius, in double, multiple and mixed precision) "
  "returns a ball containing the result for every choice of real values within the argument balls; "
  "making a ball from any number, from bounds, or with another precision encloses the original; "
  "consistency and refinement tests of balls never claim what does not hold.",
  "all argument balls, all values within them, precisions, rounding modes and sequences of operations",
  "Roundoff of the centre must be added to the radius in every operation; a forgotten or halved term shows only for inexact results.",
  [N + f for f in ("float_ball.hpp", "float_ball.tpl.hpp", "float_ball.cpp", "number_wrapper.hpp")],
  [("error terms of each operation", N + "float_ball.hpp"), ("conversions", N + "float_ball.tpl.hpp")],
  "Random balls and points inside them; the exact or 420-bit result for the points has to lie in the returned ball.",
  oracle="exact rational arithmetic (GMP) and MPFR enclosures of the value at sampled points", observe=["balls returned by each operation"])

P("C08", "Lower bounds, upper bounds and errors stay on their side of the value",
  "An operation on lower bounds, upper bounds or error bounds (signed and positive, in double and multiple precision, also mixed with exact "
  "numbers, two-sided bounds and integers) returns a lower bound not above, an upper bound not below, or an error not less than the result for the bounded "
  "values; conversions, changes of precision and generic upper and lower numbers keep the side; comparisons answer only what the bounds imply; "
  "a negative number is refused as an error.",
  "all one-sided bounds, bounded values, precisions and rounding modes",
  "Each operation needs the right rounding direction; a wrong one costs one unit in the last place for inexact results only.",
  [N + f for f in ("float_lower_bound.hpp", "float_upper_bound.hpp", "float_error.hpp", "float_lower_bound.tpl.hpp", "float_upper_bound.tpl.hpp", "float_error.tpl.hpp", "upper_number.hpp", "lower_number.hpp")],
  [("directed operations", N + "float_upper_bound.hpp"), ("positive semifield operations", N + "float_lower_bound.hpp"), ("error arithmetic", N + "float_error.hpp")],
  "Random values with one-sided bounds around them; the exact or 420-bit result for the values has to lie on the right side of the returned bound.",
  oracle="exact rational arithmetic (GMP) and MPFR enclosures of the bounded value", observe=["bounds returned by each operation"])

P("C09", "Logical values never claim more than is known, and decide what is robust",
  "The connectives of Booleans, Sierpinskians, Kleeneans and lower, upper and approximate Kleeneans, both checked values and effective predicates built from "
  "comparisons of reals, follow Kleene logic: a statement is definitely true or definitely false only if it is so; "
  "a definite answer stays when checked with more effort; every statement robustly true or false is decided with enough effort; lower Kleeneans are never definitely false, "
  "upper ones never definitely true; disjunctions and conjunctions of sequences find a witness within the effort; nondeterministic choice returns a true alternative.",
  "all logical expressions over constants and comparisons of reals, and all efforts",
  "Soundness of three-valued connectives concerns every combination of known and unknown operands at every effort.",
  [N + f for f in ("logical.hpp", "logical.cpp", "sequence.hpp", "real.cpp")],
  [("Kleene tables", N + "logical.hpp"), ("effective predicates", N + "logical.cpp")],
  "Random logical expressions checked with several efforts against classical truth and the strong Kleene value of robust atoms; all 25 pairs of logical values against the tables.",
  over=["inputs"], oracle="classical truth and strong Kleene evaluation", observe=["check, definitely, possibly, decide"])

P("C10", "Effective real numbers compute correct bounds of any accuracy",
  "A Real built by any composition of constants, elementary functions, limits, case distinctions and lattice operations yields, for every effort and precision, "
  "bounds containing its exact value; bounds get arbitrarily tight, compute(accuracy) meets the accuracy asked for; lower and upper reals stay on their side; comparisons, sgn, "
  "choose, when, round and nondeterministic_greater never contradict the exact value and are decided for different numbers.",
  "all real-number expressions (with function arguments inside the domain), efforts, precisions and accuracies",
  "The guarantee is about an infinite family of approximations of arbitrary nested expressions.",
  [N + f for f in ("real.hpp", "real.cpp", "lower_real.hpp", "upper_real.hpp", "validated_real.hpp", "accuracy.hpp", "sequence.hpp")],
  [("computation of bounds", N + "real.cpp")],
  "Random expressions of reals, among them limits and case distinctions, evaluated with random efforts and precisions and compared with 420-bit enclosures of the exact value.",
  oracle="MPFR enclosures at 420 bits of the same expression", observe=["bounds computed from a Real", "comparisons"])

A = "source/algebra/"
F = "source/function/"
P("C13", "Linear algebra is exact for exact numbers and encloses for bounds",
  "Vector, covector and matrix operations (sums, products, scalar multiples, transposes, joins, slices, row and column access, norms, diagonal, symmetric and pivot matrices) "
  "over Rational and Dyadic give the exact result of the textbook definition, also when operands alias. "
  "Over FloatDP/FloatMP Bounds, results of these operations and of inverse, solve, lu_solve, gs_solve and triangular and orthogonal decompositions contain the exact result for every choice of members of the operands; "
  "singular matrices are refused or give unbounded results, well-conditioned ones are not. "
  "Approximate versions reproduce the exact answer to rounding accuracy for well-conditioned matrices.",
  "all sizes, entries, members of interval entries and index ranges",
  "Wrong index, pivot or sign handling shows only for particular shapes, zero patterns and pivots; tests use one or two fixed matrices.",
  [A + f for f in ("vector.hpp", "covector.hpp", "matrix.hpp", "matrix.tpl.hpp", "matrix.cpp", "diagonal_matrix.hpp", "symmetric_matrix.hpp")],
  [("elimination and decompositions", A + "matrix.tpl.hpp"), ("vector operators", A + "vector.hpp"), ("matrix operators", A + "matrix.hpp")],
  "Random small matrices (with zeros, repeated rows, aliasing), compared with the harness's own rational linear algebra.",
  oracle="rational Gaussian elimination and textbook definitions in the harness", observe=["every element of the result", "refusal of singular matrices"])

P("C14", "Multi-indices and expansions behave as ordered containers of terms",
  "Arithmetic, comparison orders (graded, lexicographic, reverse lexicographic) and enumeration of multi-indices follow their definitions; incrementing runs through every index of each degree exactly once in graded order. "
  "Lists of multi-indices and (sorted) expansions hold exactly the terms put into them by any history of append, insert, set, erase, resize, sort, combine, remove_zeros, copy, move and embed, "
  "look-up returns the stored coefficient or zero, and no operation touches memory outside its container.",
  "all histories of container operations, including ones that reallocate or alias",
  "Container faults need particular sequences (growth across capacity, aliasing an element being appended, equal indices, trailing zeros).",
  [A + f for f in ("multi_index.hpp", "multi_index.inl.hpp", "multi_index.cpp", "expansion.hpp", "expansion.inl.hpp", "expansion.tpl.hpp")],
  [("index arrays and orders", A + "multi_index.inl.hpp"), ("growth and erasure", A + "multi_index.cpp"), ("terms, sorting and look-up", A + "expansion.tpl.hpp")],
  "Random operation histories replayed against standard containers, in a build with address and undefined-behaviour sanitizers.",
  over=("inputs", "histories"), oracle="std::vector / std::map models with the documented orders; AddressSanitizer", observe=["every stored term after each step", "look-up results", "memory errors"])

P("C15", "Differentials hold the Taylor coefficients of the functions they stand for",
  "For every number of arguments, degree and coefficients, arithmetic, powers, elementary functions, derivative, antiderivative, composition, implicit solution and flow of (univariate, multivariate and vector) differentials and of power series "
  "give coefficients which, for validated coefficients, contain the true Taylor coefficients for every choice of numbers in the arguments, and which for approximate coefficients are as close as the validated width allows; "
  "the result has the lower of the degrees, sorted terms, and the arguments are left unchanged. Accessors (value, gradient, Hessian, Jacobian) agree with the coefficients.",
  "all argument counts, degrees, sparsity patterns, coefficient enclosures and aliasing of arguments",
  "Coefficient recurrences go wrong only at particular degrees, sparsity patterns or index positions; tests use one or two fixed expansions.",
  [A + f for f in ("differential.hpp", "differential.tpl.hpp", "univariate_differential.hpp", "univariate_differential.tpl.hpp", "series.hpp", "graded.hpp")],
  [("multivariate coefficients, composition and flow", A + "differential.tpl.hpp"), ("univariate coefficients", A + "univariate_differential.tpl.hpp"), ("series of elementary functions", A + "series.hpp")],
  "Random operation sequences on differentials replayed in truncated power series with 420-bit interval coefficients; elementary functions by different recurrences.",
  oracle="own truncated power series over MPFR intervals", observe=["every coefficient of every result", "degree and order of terms", "arguments after the call"])

P("C17", "Polynomials stand for the functions their operations say",
  "Univariate and multivariate polynomials keep one term per index; construction from terms in any order, arithmetic, scalar and monomial products, derivative, antiderivative, truncation, partial evaluation, composition and evaluation (Horner and power form) "
  "give validated coefficients and values containing the exact ones for every choice in the arguments, and approximate ones as close as that width allows. Chebyshev polynomials (univariate and multivariate) evaluate to the sum of their basis functions, "
  "their ring operations commute with evaluation, and their sup norm bounds every value on [-1,1].",
  "all argument counts, degrees, sparsity patterns and validated coefficients",
  "Errors need missing constant or low-order terms, coefficients that may be zero, degree zero, or cancelling terms, which fixed tests do not meet.",
  ["source/function/" + f for f in ("polynomial.hpp", "polynomial.tpl.hpp", "chebyshev_polynomial.hpp", "chebyshev_polynomial.tpl.hpp")] + [A + "evaluate.tpl.hpp"],
  [("polynomial algebra and calculus", "source/function/polynomial.tpl.hpp"), ("Horner evaluation", A + "evaluate.tpl.hpp"), ("Chebyshev algebra", "source/function/chebyshev_polynomial.tpl.hpp")],
  "Random operation sequences replayed on exact sparse polynomials with 420-bit interval coefficients; coefficients and values at random points compared after every step.",
  oracle="own sparse polynomials and Chebyshev recurrence over MPFR intervals", observe=["every coefficient", "values at random points", "degree", "sup norm"])

P("C18", "Taylor models enclose every function built from members of their arguments",
  "A validated Taylor model (double or multiple precision, point or interval coefficients, any sweeper) denotes the functions within its error of its polynomial on the unit box. For all members of the arguments, the model resulting from arithmetic with models and numbers, powers, division, min, max, abs, "
  "exp, log, sqrt, rec, sin, cos, tan, composition, partial evaluation, embedding, splitting, unscaling, (anti)differentiation of polynomials, sweeping and simplification, error embedding and variable discarding has the corresponding function as a member, whatever terms the sweeper drops. Range, norm, evaluation and sign tests hold for every member; refines(m1,m2) implies "
  "that members of m1 are members of m2; refinement of models differing by a constant keeps common members; terms stay sorted and unique; arguments are unchanged; and arithmetic adds errors only of the order of rounding.",
  "all argument counts, polynomials, errors, members, sweepers, precisions and histories of operations",
  "Errors of ulp size, truncation terms and swept terms only show for particular coefficients, and a test compares with an expected model, not with all members.",
  ["source/function/taylor_model.hpp", "source/function/taylor_model.tpl.hpp", A + "sweeper.hpp", A + "algebra_operations.tpl.hpp"],
  [("Taylor model operations", "source/function/taylor_model.tpl.hpp"), ("analytic functions", A + "algebra_operations.tpl.hpp"), ("sweepers", A + "sweeper.hpp")],
  "Random histories of operations on a pool of models, each carrying one member function as a closure evaluated with 420-bit intervals (errors filled by bounded polynomials); after each operation values of the member at corners, centre and random points are compared with polynomial +/- error evaluated exactly.",
  oracle="member functions evaluated in MPFR interval arithmetic", observe=["values at points", "range", "norm", "error size", "order of terms", "refines/inconsistent/refinement"])

P("C19", "Function patches enclose their members over their physical domain",
  "A validated scalar or vector function patch (double or multiple precision) denotes the functions on its box domain within its error of its polynomial. For all members of the arguments, the patch resulting from construction of constants, coordinates and symbolic functions, arithmetic with patches, vectors, matrices and numbers, restriction, splitting, embedding, "
  "joining, combining, partial evaluation, composition with patches and with symbolic functions, derivatives of error-free patches, indefinite antiderivatives (vanishing at the midpoint) and antiderivatives from a given point has the correspondingly obtained function as a member, on exactly the expected domain. Evaluation (also through generic function and function-model handles), polynomial form, range, "
  "norm, distance, jacobian and element access hold for every member; points outside the domain are refused; refines and inconsistent agree with membership; arguments are unchanged.",
  "all domains, patches, members, sweepers, precisions and histories of operations",
  "A wrong scaling between physical and unit coordinates or a lost error only shows for domains and members other than the few in the tests.",
  [F + f for f in ("scaled_function_patch.hpp", "scaled_function_patch.tpl.hpp", "scaling.hpp", "taylor_function.hpp", "function_patch.hpp", "function_model.hpp", "taylor_model.tpl.hpp")],
  [("patch operations", F + "scaled_function_patch.hpp"), ("construction and evaluation", F + "scaled_function_patch.tpl.hpp")],
  "Random histories of operations on a pool of patches over a random box, each carrying one member, an exact polynomial in physical coordinates where possible; after each operation the domain is compared and the member's values at corners, centre and random points are compared with polynomial +/- error.",
  oracle="member functions in physical coordinates, exact rational polynomials or MPFR intervals", observe=["domain", "values at points", "range", "norm", "distance", "refusal outside the domain"])

P("C20", "Functions, formulae and procedures compute the real function they denote",
  "An Effective, Validated or Approximate scalar, vector or univariate function, a formula, or a procedure built by operators, named constructors, join, composition, element assignment and conversion denotes one real function. Evaluation in double and multiple precision, differentials, gradients, hessians, jacobians, derivative functions and ranges over boxes contain (or, for approximations of well-conditioned expressions, are close to) the values and derivatives of that real function, and are not absurdly wide. Simplification, substitution, symbolic derivatives and conversion to procedures preserve the function; identical, is_constant_in and is_affine_in only say yes when it is so; assignment to an element of a vector function leaves copies unchanged.",
  "all expressions, arguments and precisions",
  "A wrong derivative rule, simplification or sharing of nodes only shows for particular combinations of operators and arguments.",
  [F + f for f in ("function.hpp", "function.cpp", "symbolic_function.hpp", "formula.hpp", "formula.tpl.hpp", "procedure.hpp", "procedure.tpl.hpp", "function_mixin.tpl.hpp")] + ["source/symbolic/templates.tpl.hpp", "source/numeric/operators.hpp"],
  [("functions", F + "function.cpp"), ("formulae", F + "formula.tpl.hpp"), ("procedures", F + "procedure.tpl.hpp"), ("symbolic rules", "source/symbolic/templates.tpl.hpp")],
  "Random expression graphs (with shared nodes) over the polynomial, rational, elementary and nonsmooth operators are built as each kind of object and evaluated; MPFR interval evaluation and interval Taylor series of the same graph are the oracle. Functions are only evaluated where the expression is defined.",
  oracle="MPFR interval values and Taylor series of the expression graph", observe=["values", "derivatives", "ranges", "sizes", "structural predicates"])

P("C21", "Symbolic expressions denote a value, which every transformation preserves",
  "A real, Kleenean, integer, string, Boolean or vector expression built from variables, constants and operators evaluates under a valuation to the value of the expression. Simplification, elimination of common subexpressions, substitution of constants or expressions, conversion to formulae and functions over a space with the variables in any order (with auxiliary variables), conversion back and printing (read with the usual precedence) preserve the value; derivatives are the derivatives; arguments are the variables used; an indicator has the sign of its predicate; identical is an equivalence, before a compatible strict order; is_constant_in, is_affine_in, is_polynomial_in, is_additive_in and opposite only say yes when it is so.",
  "all expressions, valuations, substitutions and orders of variables",
  "A wrong rewriting rule, precedence or substitution only shows for particular nestings of operators.",
  ["source/symbolic/" + f for f in ("expression.hpp", "expression.cpp", "expression.tpl.hpp", "templates.tpl.hpp", "space.hpp", "valuation.hpp", "assignment.hpp")] + [F + "formula.tpl.hpp", "source/numeric/operators.hpp"],
  [("expressions", "source/symbolic/expression.cpp"), ("rewriting rules", "source/symbolic/templates.tpl.hpp")],
  "Random expression graphs are built, evaluated at random valuations and transformed; integer and Boolean expressions are compared with direct evaluation; printed text is read by a small independent parser.",
  oracle="MPFR interval values and Taylor series of the expression graph, direct evaluation of discrete expressions, an independent parser", observe=["values", "derivatives", "arguments", "structural predicates", "truth", "printed text"])

P("C22", "Intervals and boxes are the sets their endpoints denote",
  "An interval or box with exact, real, uncertain, outer, inner or approximate endpoints stands for every set its endpoints allow. Its predicates (empty, singleton, bounded, contains, element, subset, superset, disjoint, intersect, separated, overlap, inside, covers, equal, refines, same, and those of box sets) are exact for exact endpoints and otherwise definite only when right for all such sets; hull, intersection, refinement, split (lower, middle, upper part, pair; a box along its widest or a given side), centre, midpoint, radius, width, corners, vertices, semiperimeter, measure, product, join, projection and removal of sides are those of the sets; conversion, widening, narrowing and domains round outward (inner approximations inward); arithmetic and images under functions contain all values for points of the operands.",
  "all intervals, boxes, endpoint types, points, precisions and functions",
  "Errors show for touching, nested, empty, infinite or degenerate sets, one endpoint type or one corner of the box.",
  ["source/geometry/" + f for f in ("interval.hpp", "interval.inl.hpp", "interval.cpp", "box.hpp", "box.tpl.hpp", "box.cpp")],
  [("interval predicates", "source/geometry/interval.inl.hpp"), ("boxes", "source/geometry/box.tpl.hpp")],
  "Pairs of intervals and boxes on a grid, so that ends often touch, with true endpoints drawn among those the object allows.",
  oracle="exact rational endpoints of the sets the objects stand for, and MPFR interval values", observe=["truth", "endpoints", "sizes", "corners", "images"])

P("C23", "Grid pavings are the sets of lattice cells they describe",
  "A grid maps lattice to space coordinates exactly and gives the right indices; the primary cell of extent e is the lattice cube got from [0,1] by doubling alternately down (odd e) and up (even e); a grid cell is the part of it reached by its binary word, halving the dimensions in turn; splitting, neighbours, comparison, products, open cells (their splitting, closure, outer approximation, intersection as a list) and smallest primary cells agree with this. A grid paving is always the exact union of the cells adjoined minus those removed, through any history of adjoining, removing, restricting (cells, pavings, parts of pavings, primary cells), mincing, subdividing, recombining, clearing, copying and assignment; its cells never overlap, and size, measure, bounding box, root cell, depth, iterators, cursors and lists of boxes describe the same set; copies are independent; recombining gives the fewest cells and mincing the requested depth. Join, intersection, difference, product and projection are exact; subset, superset, intersects, overlaps, separated, disjoint, inside, covers and equality with cells, pavings or boxes are right, however the sets are rooted or subdivided. Outer approximations of a box are exactly the cells touching it, lower ones those overlapping it, inner ones those inside it, also when adjoined to other cells.",
  "all grids, cells, pavings, histories of operations and boxes",
  "Trees of different roots and depths must agree: errors need parts of pavings, odd depths, extents above 0, or boxes on cell boundaries.",
  ["source/geometry/" + f for f in ("grid.hpp", "grid.cpp", "grid_cell.hpp", "grid_paving.hpp", "grid_paving.cpp", "binary_tree.hpp", "binary_tree.cpp")] + ["source/utility/binary_word.hpp"],
  [("grid pavings", "source/geometry/grid_paving.cpp"), ("binary trees", "source/geometry/binary_tree.cpp")],
  "Histories of operations on pavings in one to three dimensions, random trees, parts of pavings, boxes placed relative to cells.",
  oracle="a bitmap of the finest lattice cells, with exact rational geometry", observe=["cells", "predicates", "measures", "approximations"])

P("C24", "Equation solvers: verified zeros and implicit functions are true and unique",
  "For IntervalNewtonSolver, KrawczykSolver and FactoredKrawczykSolver on a vector function f and a box: a step applied to a box contains every zero of f in the box, and if it is inside the box, there is exactly one zero. zero(f,box), when it returns, gives bounds on the unique zero in the box; when it throws NoSolutionException, there is none; for a box close enough to an isolated simple zero it returns, with bounds within the maximum error. fixed_point gives bounds containing a fixed point. Every member of solve_all contains a zero, and for simple zeros away from the box's boundary, it finds all of them, each once; solve returns one which is the only one. implicit(f,A,X) encloses h with f(a,h(a))=0 for all a in A, has domain A, finds it for equations linear in x when it exists, and the scalar form agrees with the vector form. Settings survive cloning.",
  "all functions, boxes and solver settings",
  "An unsound contractor yields bounds that miss a zero, or claim one that does not exist, only for some nonlinear functions and box sizes.",
  ["source/solvers/solver.hpp", "source/solvers/solver.cpp", "source/solvers/solver_interface.hpp"],
  [("solvers", "source/solvers/solver.cpp")],
  "Systems of up to three equations made from factors with known rational zeros, mixed by invertible matrices; implicit equations with known solution.",
  oracle="functions constructed from known exact zeros and implicit solutions", observe=["zeros", "implicit functions", "exceptions"])

P("C25", "Flow bounds and validated integrators enclose the solutions of ODEs",
  "For every vector field f (autonomous, depending on time and/or on parameters), box D of initial states and suggested step h: EulerBounder returns a step in ]0,h] and a box which contains every solution starting in D (and parameter in A) at all times of the step. The flow models of TaylorPicardIntegrator, GradedTaylorPicardIntegrator, TaylorSeriesIntegrator, TaylorSeriesBounderIntegrator and GradedTaylorSeriesIntegrator, by each form of flow_step (given bounds, a suggested step, an exact step, or nothing; or a time interval and parameters), terminate, have domain D x [t,t+h] x A, a positive step not above the suggestion, and enclose the solution at every state, time and parameter of the domain; the Picard and graded series integrators meet the maximum error. An IncompleteFlowException carries a valid model for a shorter step. RungeKutta4Integrator has fourth order accuracy at each time of the grid, with its own step size.",
  "all vector fields, initial boxes, step sizes and integrator settings",
  "Reachable sets and proofs of safety rest on these enclosures; an error which is underestimated shows only for some fields, domains and orders.",
  ["source/solvers/bounder.hpp", "source/solvers/bounder.cpp", "source/solvers/integrator.hpp", "source/solvers/integrator.cpp", "source/solvers/runge_kutta_integrator.cpp", "source/algebra/graded.hpp"],
  [("integrators", "source/solvers/integrator.cpp"), ("bounder", "source/solvers/bounder.cpp")],
  "Systems of up to three equations with known flow (linear, Riccati, logistic, rotation, exponential, powers and cosines of time, parameters), conjugated by triangular quadratic maps; domains of width up to 1/2.",
  oracle="closed-form solutions computed in interval arithmetic with MPFR", observe=["flow bounds", "flow models", "their domains and errors"])

P("C26", "Constraint propagation never removes a solution",
  "Reducing a box with simple_hull_reduce or with ConstraintSolver's hull_reduce (scalar, vector, procedure, constraint), box_reduce, monotone_reduce, lyapunov_reduce, reduce (codomain or list of constraints) never removes a point of the box at which every f(x) lies in its codomain, never enlarges the box, and returns true only if there is no such point. The codomain may be a point, a half-line or an interval, and the function may be built from any elementary operations and constants. Repeated reductions end. A linear function in which every variable occurs once is reduced by hull_reduce to the hull of its solutions, up to rounding, and an infeasible one to the empty box. check_feasibility(D,f,C,y) is true only if y is in D and f(y) in C, false only if not, and false for y outside D. feasible(D,f,C) is false only if there is no solution and when true gives a solution.",
  "all functions, boxes and codomains",
  "Inverse operations have several branches; one which is forgotten only shows up for operands of unusual sign or size, and only as a missing solution.",
  ["source/function/procedure.cpp", "source/function/procedure.tpl.hpp", "source/solvers/constraint_solver.hpp", "source/solvers/constraint_solver.cpp"],
  [("procedures", "source/function/procedure.cpp"), ("constraint solver", "source/solvers/constraint_solver.cpp")],
  "Systems of up to two random expressions of up to three variables with codomains around the value at a point of the box, and sequences of reductions.",
  oracle="points of the box at which MPFR certainly finds every constraint fulfilled, and exact hulls of linear constraints", observe=["solutions", "emptiness", "exceptions", "hangs"])

# MORE


def main():
    over_names = {"inputs", "histories", "schedules", "programs", "configurations", "crash_points", "fault_sequences"}
    ids = set()
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in SPEC:
            assert p["id"] not in ids and len(p["title"]) <= 80, p["id"]
            assert set(p["over"]) <= over_names
            ids.add(p["id"])
            anchors = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                       "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
            for x in p["files"]:
                assert os.path.exists(os.path.join("/repo", x)), x
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    checks = []
    na = {x for x, _ in NOT_APPLICABLE}
    for p in SPEC:
        if p["id"] in na:
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 tools/check.py %s" % p["id"],
                       "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": "property-based testing: generated inputs against " + p["oracle"],
                       "level": "exploration",
                       "level_note": p["note"] + " A search over finitely many cases, not a proof."})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
                   "not_applicable": [{"property": a, "reason": b} for a, b in NOT_APPLICABLE]}, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
    except ImportError:
        return
    jsonschema.validate(json.load(open(os.path.join(VERIF, "MANIFEST.json"))), json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(os.path.join(VERIF, "properties.jsonl")):
        jsonschema.validate(json.loads(line), s)
    print("valid:", len(SPEC), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
