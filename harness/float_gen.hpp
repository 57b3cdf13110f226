// Generators and helpers for FloatDP and FloatMP.
#ifndef VERIF_FLOAT_GEN_HPP
#define VERIF_FLOAT_GEN_HPP
#include "ariadne_oracle.hpp"
#include "numeric/floatdp.hpp"
#include "numeric/floatmp.hpp"
namespace oracle {
inline FloatDP mkdp(double d) { return FloatDP(ExactDouble(d),dp); }
inline FloatMP mkmp(Q const& q, unsigned prec) { FloatMP r(MultiplePrecision((mpfr_prec_t)prec)); mpfr_set_q(r.get_mpfr(),q.get_mpq_t(),MPFR_RNDN); return r; }
template<class F> struct FT;
template<> struct FT<FloatDP> {
    typedef DoublePrecision PR; static char const* name() { return "dp"; }
    static PR gen_pr(PSrc&) { return dp; }
    static unsigned bits(PR) { return 53; }
    static FloatDP gen_full(PSrc& s, PR) { return mkdp(gen_double_full(s)); }
    static FloatDP gen(PSrc& s, PR, int e=20) { return mkdp(gen_double(s,e)); }
    static FloatDP of(Q const& q, PR) { return mkdp(q.get_d()); } // truncates
    static FloatDP above(FloatDP const& x) { return mkdp(std::nextafter(x.get_d(),std::numeric_limits<double>::infinity())); }
    static FloatDP below(FloatDP const& x) { return mkdp(std::nextafter(x.get_d(),-std::numeric_limits<double>::infinity())); }
    static Q eps(PR) { return two_exp(-52); } static Q tiny(PR) { return two_exp(-1074); } static Q huge(PR) { return two_exp(1024); }
};
template<> struct FT<FloatMP> {
    typedef MultiplePrecision PR; static char const* name() { return "mp"; }
    static PR gen_pr(PSrc& s) { return PR((mpfr_prec_t)s.pick<int>({53,64,24,128,72,8,192,100,32,256})); }
    static unsigned bits(PR pr) { return (unsigned)pr.bits(); }
    static FloatMP of(Q const& q, PR pr) { return mkmp(q,bits(pr)); }
    static FloatMP gen(PSrc& s, PR pr, int maxe=20) {
        unsigned b=bits(pr); 
        switch (s.weighted({5,5,4,3})) {
            case 0: return of(Q((long)s.range(-16,16)),pr);
            case 1: return of(Q((long)s.range(-4096,4096))*two_exp(-(long)s.range(0,12)),pr);
            case 2: { Z m(1); for (unsigned i=0;i<b;i+=32) { m<<=32; m+=(unsigned long)s.draw(1ull<<32); } Q q=Q(m)*two_exp(-(long)(mpz_sizeinbase(m.get_mpz_t(),2)-1)+s.range(-maxe,maxe)); if (s.boolean()) q=-q; return of(q,pr); }
            default: { Q q=1+Q((long)s.range(0,3))*two_exp(1-(long)b); if (s.boolean()) q=2-Q((long)s.range(1,3))*two_exp(1-(long)b); q*=two_exp(s.range(-maxe,maxe)); if (s.boolean()) q=-q; return of(q,pr); } } }
    static FloatMP gen_full(PSrc& s, PR pr) { return gen(s,pr,s.chance(1,6)?2000:60); }
    static FloatMP above(FloatMP const& x) { if (mpfr_zero_p(x.get_mpfr())) return of(two_exp(-200),x.precision()); FloatMP r(x); mpfr_nextabove(r.get_mpfr()); return r; }
    static FloatMP below(FloatMP const& x) { if (mpfr_zero_p(x.get_mpfr())) return of(-two_exp(-200),x.precision()); FloatMP r(x); mpfr_nextbelow(r.get_mpfr()); return r; }
    static Q eps(PR pr) { return two_exp(1-(long)bits(pr)); } static Q tiny(PR) { return Q(0); } static Q huge(PR) { return Q(0); }
};
inline std::string show(FloatDP const& x) { char b[64]; std::snprintf(b,64,"%.17g(%a)",x.get_d(),x.get_d()); return b; }
inline std::string show(FloatMP const& x) { char b[160]; mpfr_snprintf(b,160,"%.30Rg(mp%ld)",x.get_mpfr(),(long)mpfr_get_prec(x.get_mpfr())); return b; }

enum Dir { DOWN=0, UP=1, NEAR=2 };
inline char const* dirname(int d) { return d==DOWN?"down":d==UP?"up":"near"; }

// r is the result of rounding the exact value q in direction d
template<class F> void check_direction(std::string const& what, int d, F const& r, Q const& q) {
    X x=xof(r);
    if (d==DOWN) PBT_CHECK(le(x,X(q)),what,what << " rounded down gives " << show(r) << ", which is not below the exact value " << dec(q));
    if (d==UP) PBT_CHECK(le(X(q),x),what,what << " rounded up gives " << show(r) << ", which is not above the exact value " << dec(q));
    if (d==NEAR) PBT_CHECK(!x.is_nan(),what,what << " to nearest is nan");
}
template<class F> void check_correctly_rounded(std::string const& what, int d, F const& r, Q const& q) {
    check_direction(what,d,r,q); X x=xof(r);
    if (q==0) { PBT_CHECK(same(x,X(q)),what,what << " of exact value 0 gives " << show(r)); return; }
    if (x.finite()&&x.q==0&&FT<F>::tiny(r.precision())==0) PBT_FAIL(what+" tight",what << " gives 0 for " << dec(q));
    if (d==DOWN) PBT_CHECK(lt(X(q),xof(FT<F>::above(r))),what+" tight",what << " rounded down gives " << show(r) << ", but the next number is also at most the exact value " << dec(q));
    if (d==UP) PBT_CHECK(lt(xof(FT<F>::below(r)),X(q)),what+" tight",what << " rounded up gives " << show(r) << ", but the previous number is also at least the exact value " << dec(q));
    if (d==NEAR && x.finite()) { X a=xof(FT<F>::above(r)), b=xof(FT<F>::below(r)); Q e=abs(x.q-q);
        if (a.finite()) PBT_CHECK(e<=abs(a.q-q),what+" tight",what << " to nearest gives " << show(r) << " but the next number is nearer to " << dec(q));
        if (b.finite()) PBT_CHECK(e<=abs(b.q-q),what+" tight",what << " to nearest gives " << show(r) << " but the previous number is nearer to " << dec(q)); }
}
// the same for an enclosure of the exact value; rel: allowed relative error (0: none), abs_: allowed absolute error
template<class F> void check_direction(std::string const& what, int d, F const& r, Iv const& v) {
    X x=xof(r); PBT_CHECK(!x.is_nan(),what,what << " rounded " << dirname(d) << " is nan; the exact value is in " << show(v));
    if (d==DOWN) PBT_CHECK(!surely_less(v,x),what,what << " rounded down gives " << show(r) << ", which is above the exact value " << show(v));
    if (d==UP) PBT_CHECK(!surely_greater(v,x),what,what << " rounded up gives " << show(r) << ", which is below the exact value " << show(v));
}
template<class F> void check_accuracy(std::string const& what, int d, F const& r, Iv const& v, Q const& rel, Q const& abs_) {
    X x=xof(r); if (!x.finite() || !v.finite()) return; Q l=v.lower(), u=v.upper(); Q e=qmax(abs(x.q-l),abs(x.q-u)); Q m=qmax(abs(l),abs(u));
    PBT_CHECK(e<=rel*m+abs_,what+" accuracy",what << " rounded " << dirname(d) << " gives " << show(r) << ", too far from the exact value " << show(v));
}
// call f(tag) with the rounding tag
template<class FN> auto with_dir(int d, FN const& f) { switch (d) { case DOWN: return f(down); case UP: return f(up); default: return f(near); } }
inline void set_both_modes(int d) { switch (d) { case DOWN: FloatDP::set_rounding_downward(); FloatMP::set_rounding_downward(); break; case UP: FloatDP::set_rounding_upward(); FloatMP::set_rounding_upward(); break; default: FloatDP::set_rounding_to_nearest(); FloatMP::set_rounding_to_nearest(); } }
inline void reset_modes() { FloatDP::set_rounding_to_nearest(); FloatMP::set_rounding_to_nearest(); std::fesetround(FE_TONEAREST); }
}
#endif
