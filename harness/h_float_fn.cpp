// C04: directed rounding of the elementary functions.  Oracle: MPFR intervals of 420 bits.
#include "float_gen.hpp"
#include "numeric/rounded_float.hpp"
using namespace oracle;
namespace {
enum Fn { SQRT, EXP, LOG, SIN, COS, TAN, ASIN, ACOS, ATAN, NFN };
char const* fname[]={"sqrt","exp","log","sin","cos","tan","asin","acos","atan"};

template<class F> F gen_arg(PSrc& s, typename FT<F>::PR pr, int f) {
    typedef FT<F> T; 
    // multiples of pi/4 and their neighbours are the hard places of the trigonometric functions
    auto near_pi=[&](F const& x)->F { int k=(int)s.range(-40,40); if (k==0) k=1; Q q=iv_pi().lower()*k/4; F r=T::of(q,pr); int n=(int)s.range(-2,2); for (int i=0;i<n;++i) r=T::above(r); for (int i=0;i>n;--i) r=T::below(r); return r; };
    switch (f) {
        case SQRT: case LOG: { F x= s.chance(1,2) ? T::gen(s,pr) : T::gen_full(s,pr); F r=F(abs(x)); if (f==LOG && is_zero(r)) r=F(1,pr); return r; }
        case EXP: { if (s.chance(1,3)) return T::gen_full(s,pr); return T::gen(s,pr,9); }
        case ASIN: case ACOS: { F x=T::gen(s,pr,6); if (abs(xof(x).q)>1) x=F(rec(near,x)); return x; }
        case ATAN: return s.chance(1,3) ? T::gen_full(s,pr) : T::gen(s,pr,4);
        default: { if (s.chance(1,4)) { F z(pr); return near_pi(z); } if (s.chance(1,4)) return T::gen_full(s,pr); return T::gen(s,pr,5); } } }

template<class F, class RND> F apply(int f, RND rnd, F const& x) { switch (f) {
    case SQRT: return sqrt(rnd,x); case EXP: return exp(rnd,x); case LOG: return log(rnd,x); case SIN: return sin(rnd,x); case COS: return cos(rnd,x); case TAN: return tan(rnd,x); case ASIN: return asin(rnd,x); case ACOS: return acos(rnd,x); default: return atan(rnd,x); } }
template<class F> Rounded<F> apply_rounded(int f, Rounded<F> const& x) { switch (f) {
    case SQRT: return sqrt(x); case EXP: return exp(x); case LOG: return log(x); case SIN: return sin(x); case COS: return cos(x); case TAN: return tan(x); case ASIN: return asin(x); case ACOS: return acos(x); default: return atan(x); } }
template<class F> Bounds<F> apply_bounds(int f, F const& x) { switch (f) {
    case SQRT: return sqrt(x); case EXP: return exp(x); case LOG: return log(x); case SIN: return sin(x); case COS: return cos(x); case TAN: return tan(x); case ASIN: return asin(x); case ACOS: return acos(x); default: return atan(x); } }
Iv exact(int f, Q const& q) { Iv x(q); switch (f) {
    case SQRT: return sqrt(x); case EXP: return exp(x); case LOG: return log(x); case SIN: return sin(x); case COS: return cos(x); case TAN: return tan(x); case ASIN: return asin(x); case ACOS: return acos(x); default: return atan(x); } }

template<class F, int f> void t_fn(PSrc& s, PCase& c) {
    typedef FT<F> T; auto pr=T::gen_pr(s); int d=(int)s.draw(3), m=(int)s.draw(3); F x=gen_arg<F>(s,pr,f); 
    NOTE(c,T::name() << " " << fname[f] << " rounded " << dirname(d) << " at " << show(x) << "; current mode " << dirname(m)); Q q=xof(x).q; c.label(dirname(d));
    if (f==EXP && std::is_same_v<F,FloatMP> && abs(q)>100000000) PBT_DISCARD("exponent range"); Iv v=exact(f,q); if (v.bad()) PBT_DISCARD("undefined"); c.interesting(q!=0 && q!=1);
    std::string what=std::string(fname[f])+"_"+T::name(); Q rel=64*T::eps(pr), ab=T::tiny(pr)*64;
    if (f>=SIN && f<=TAN) { /* relative to the values of the function near its zeros: reduction modulo pi loses digits */ ab+=64*T::eps(pr)*(abs(q)<1?Q(abs(q)):Q(1)); }
    Iv va=abs(v); bool vfin=v.finite() && (T::huge(pr)==0 || (mpfr_cmp_q(va.u,T::huge(pr).get_mpq_t())<0 && mpfr_cmp_q(va.u,Q(two_exp(-5000)).get_mpq_t())>0));
    auto ok=[&](std::string const& w, F const& r) { check_direction(w,d,r,v); if (vfin) { if (d!=NEAR && !xof(r).finite()) PBT_FAIL(w+" accuracy",w << " rounded " << dirname(d) << " is infinite for the exact value " << show(v)); check_accuracy(w,d,r,v,rel,ab); } };
    set_both_modes(m); F r=with_dir(d,[&](auto rnd)->F{ return apply(f,rnd,x); }); reset_modes(); ok(what,r);
    set_both_modes(d); F r2=apply(f,CurrentRoundingMode(),x); F r3=apply_rounded(f,Rounded<F>(x)).raw(); reset_modes();
    ok(what+" in the current mode",r2); ok(what+" Rounded",r3);
    set_both_modes(m); Bounds<F> b=apply_bounds(f,x); reset_modes();
    PBT_CHECK(may_be_in(v,xof(b.lower_raw()),xof(b.upper_raw())),what+" bounds",what << " gives the bounds [" << show(b.lower_raw()) << ":" << show(b.upper_raw()) << "] for the exact value " << show(v));
}
#define REG(f) pbt::Register dp##f(std::string("dp_")+fname[f],30000,1e6,t_fn<FloatDP,f>,4), mp##f(std::string("mp_")+fname[f],8000,3e5,t_fn<FloatMP,f>,10);
REG(SQRT) REG(EXP) REG(LOG) REG(SIN) REG(COS) REG(TAN) REG(ASIN) REG(ACOS) REG(ATAN)
struct Init { Init() { pbt::set_rule("the argument is neither 0 nor 1 (where the values are often exact)"); pbt::set_reset(reset_modes);
    pbt::add_assumption("MPFR rounds its elementary functions correctly at 420 bits"); } } init;
}
