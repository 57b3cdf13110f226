// What Ariadne's numbers denote, read from their representation.
#ifndef VERIF_ARIADNE_ORACLE_HPP
#define VERIF_ARIADNE_ORACLE_HPP
#include "oracle.hpp"
#include "numeric/numeric.hpp"
namespace oracle {
using namespace Ariadne;
inline Z zof(Integer const& z) { return Z(z.get_mpz()); }
inline Q qof(Integer const& z) { return Q(Z(z.get_mpz())); }
inline Q qof(Rational const& q) { return Q(q.get_mpq()); }
inline Q qof(Dyadic const& w) { return of_mpf(w.get_mpf()); }
inline Q qof(Decimal const& d) { Q r(zof(d._p)); Z t; mpz_ui_pow_ui(t.get_mpz_t(),10,d._q); r/=Q(t); return r; }
inline X xof(FloatDP const& x) { return xof(x.get_d()); }
inline X xof(FloatMP const& x) { return xof(x.get_mpfr()); }
inline X xof(Dyadic const& w) { if (is_nan(w)) return X::nan(); if (is_inf(w)) return X::inf(sgn(w)==Sign::POSITIVE?1:-1); return X(qof(w)); }
inline X xof(Rational const& q) { if (mpz_sgn(mpq_denref(q.get_mpq()))==0) { int s=mpz_sgn(mpq_numref(q.get_mpq())); return s==0?X::nan():X::inf(s); } return X(qof(q)); }
inline Integer to_integer(Z const& z) { return Integer(z.get_mpz_t()); }
inline Rational to_rational(Q const& q) { return Rational(q.get_mpq_t()); }
// q must be dyadic
inline Dyadic to_dyadic(Q const& q) { Z d=q.get_den(); return Dyadic(to_integer(q.get_num()),(Nat)(mpz_sizeinbase(d.get_mpz_t(),2)-1)); }
inline void reset_rounding() { std::fesetround(FE_TONEAREST); Ariadne::FloatDP::set_rounding_mode(FloatDP::ROUND_TO_NEAREST); }
}
#endif
