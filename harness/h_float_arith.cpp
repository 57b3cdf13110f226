// C03: directed rounding of floating-point arithmetic.  Oracle: exact rationals.
#include "float_gen.hpp"
#include "numeric/rounded_float.hpp"
using namespace oracle;
namespace {

template<class F> void t_arith(PSrc& s, PCase& c) {
    typedef FT<F> T; auto pr=T::gen_pr(s), pr2= s.chance(1,4) ? T::gen_pr(s) : pr;
    F x=T::gen_full(s,pr), y=T::gen_full(s,pr2), z=T::gen_full(s,pr); 
    if (s.chance(1,6)) y= F(x); if (s.chance(1,10)) y=-x; if (s.chance(1,10)) z=-x;
    int d=(int)s.draw(3), m=(int)s.draw(3); set_both_modes(m);
    NOTE(c,T::name() << " " << dirname(d) << " x=" << show(x) << " y=" << show(y) << " z=" << show(z) << " (current mode " << dirname(m) << ")");
    Q p=xof(x).q, q=xof(y).q, w=xof(z).q; c.label(dirname(d)); c.interesting(p!=0&&q!=0);
#define RND(name,expr,exact) { F r=with_dir(d,[&](auto rnd)->F{ return expr; }); reset_modes(); check_correctly_rounded(std::string(name),d,r,exact); set_both_modes(m); }
#define CUR(name,expr,exact) { set_both_modes(d); CurrentRoundingMode rnd; F r=expr; reset_modes(); check_correctly_rounded(std::string(name)+" in the current mode",d,r,exact); set_both_modes(m); }
#define BOTH(name,expr,exact) RND(name,expr,exact) CUR(name,expr,exact)
    BOTH("add",add(rnd,x,y),p+q) BOTH("sub",sub(rnd,x,y),p-q) BOTH("mul",mul(rnd,x,y),p*q) 
    if (q!=0) { BOTH("div",div(rnd,x,y),p/q) BOTH("rec",rec(rnd,y),1/q) }
    BOTH("sqr",sqr(rnd,x),p*p) BOTH("fma",fma(rnd,x,y,z),p*q+w)
    RND("hlf",hlf(rnd,x),p/2) RND("neg",neg(rnd,x),-p) RND("pos",pos(rnd,x),p) RND("nul",nul(rnd,x),Q(0)) RND("abs",abs(rnd,x),abs(p)) 
    RND("max",max(rnd,x,y),qmax(p,q)) RND("min",min(rnd,x,y),qmin(p,q))
    { F r=with_dir(d,[&](auto rnd)->F{ return med(rnd,x,y); }); reset_modes(); if (abs(p+q)<two_exp(1000)) check_direction("med",d,r,Q((p+q)/2)); set_both_modes(m); }
    { F r=with_dir(d,[&](auto rnd)->F{ return rad(rnd,x,y); }); reset_modes(); if (abs(q-p)<two_exp(1000)) check_direction("rad",d,r,Q((q-p)/2)); set_both_modes(m); }
    if constexpr (std::is_same_v<F,FloatMP>) { F t=x; with_dir(d,[&](auto rnd)->int{ iadd(rnd,t,y); return 0; }); check_direction("iadd",d,t,Q(p+q)); t=x; with_dir(d,[&](auto rnd)->int{ isub(rnd,t,y); return 0; }); check_direction("isub",d,t,Q(p-q)); t=x; with_dir(d,[&](auto rnd)->int{ imul(rnd,t,y); return 0; }); check_direction("imul",d,t,Q(p*q));
      if (q!=0) { t=x; with_dir(d,[&](auto rnd)->int{ idiv(rnd,t,y); return 0; }); check_direction("idiv",d,t,Q(p/q)); } }
    // rounded numbers compute in the current mode
    { set_both_modes(d); Rounded<F> a(x), b(y), e(z); F r1=(a+b).raw(), r2=(a-b).raw(), r3=(a*b).raw(), r5=sqr(a).raw(), r6=fma(a,b,e).raw(); F r4=r1, r7=r1; if (q!=0) { r4=(a/b).raw(); r7=rec(b).raw(); } reset_modes();
      check_correctly_rounded("Rounded +",d,r1,Q(p+q)); check_correctly_rounded("Rounded -",d,r2,Q(p-q)); check_correctly_rounded("Rounded *",d,r3,Q(p*q)); check_correctly_rounded("Rounded sqr",d,r5,Q(p*p)); check_correctly_rounded("Rounded fma",d,r6,Q(p*q+w)); if (q!=0) { check_correctly_rounded("Rounded /",d,r4,Q(p/q)); check_correctly_rounded("Rounded rec",d,r7,Q(1/q)); } }
    reset_modes();
}

template<class F> void t_power(PSrc& s, PCase& c) {
    typedef FT<F> T; auto pr=T::gen_pr(s); F x=T::gen(s,pr,s.chance(1,4)?60:6); int n=(int)s.range(-12,24); int d=(int)s.draw(3);
    if (s.chance(1,12)) n=(int)s.range(-70,70);
    Q p=xof(x).q; if (p==0&&n<0) n=-n; NOTE(c,T::name() << " " << dirname(d) << " x=" << show(x) << " n=" << n); c.interesting(p!=0&&n!=0&&n!=1); c.label(n<0?"negative power":"positive power"); if (p<0) c.label("negative base");
    Q e= n>=0 ? qpow(p,(unsigned)n) : 1/qpow(p,(unsigned)-n);
    F r=with_dir(d,[&](auto rnd)->F{ return pow(rnd,x,Int(n)); }); check_direction("pow",d,r,e);
    if (xof(r).finite() && d==NEAR) check_accuracy("pow",d,r,Iv(e),Q(abs(n)+4)*FT<F>::eps(pr)*4,FT<F>::tiny(pr)*4);
    if (n>=0) { F r2=with_dir(d,[&](auto rnd)->F{ return pow(rnd,x,Nat(n)); }); check_direction("pow(Nat)",d,r2,e); }
    set_both_modes(d); F r3=pow(CurrentRoundingMode(),x,Int(n)); F r4=pow(Rounded<F>(x),Int(n)).raw(); reset_modes(); check_direction("pow in the current mode",d,r3,e); check_direction("Rounded pow",d,r4,e);
}

template<class F> void t_exact(PSrc& s, PCase& c) {
    typedef FT<F> T; auto pr=T::gen_pr(s), pr2= s.chance(1,4) ? T::gen_pr(s) : pr; F x=T::gen_full(s,pr), y=T::gen_full(s,pr2); if (s.chance(1,6)) y=F(x); int k=(int)s.range(-40,40);
    int m=(int)s.draw(3); set_both_modes(m); NOTE(c,T::name() << " x=" << show(x) << " y=" << show(y) << " k=" << k << " mode " << dirname(m)); Q p=xof(x).q, q=xof(y).q; c.interesting(p!=0);
    auto eq=[&](char const* what, F const& r, Q const& e) { PBT_CHECK(same(xof(r),X(e)),what,what << " gives " << show(r) << " instead of " << dec(e)); };
    eq("-x",-x,-p); eq("+x",+x,p); eq("neg",neg(x),-p); eq("pos",pos(x),p); eq("nul",nul(x),Q(0)); eq("abs",F(abs(x)),abs(p));
    bool small=abs(p)<two_exp(900) && (p==0 || abs(p)>two_exp(-900));
    if (small) { eq("hlf",hlf(x),p/2); eq("shft",shft(x,k),p*two_exp(k)); eq("x*2^k",x*TwoExp(k),p*two_exp(k)); eq("2^k*x",TwoExp(k)*x,p*two_exp(k)); eq("x/2^k",x/TwoExp(k),p*two_exp(-k)); }
    if (T::bits(pr)==T::bits(pr2)) { eq("max",max(x,y),qmax(p,q)); eq("min",min(x,y),qmin(p,q)); }
    eq("floor",floor(x),Q(qfloor(p))); 
    { Q e(qceil(p)); eq("ceil",ceil(x),e); }
    { F r=round(x); Q e=xof(r).q; PBT_CHECK(e==Q(qfloor(e)) && abs(e-p)*2<=1,"round","round gives " << show(r)); }
    PBT_CHECK(bool(x==y)==(p==q) && bool(x!=y)==(p!=q) && bool(x<y)==(p<q) && bool(x>y)==(p>q) && bool(x<=y)==(p<=q) && bool(x>=y)==(p>=q),"comparison","a comparison of x and y is wrong");
    { Comparison r=cmp(x,y); int i=r==Comparison::LESS?-1:r==Comparison::EQUAL?0:1; int e=p<q?-1:p==q?0:1; PBT_CHECK(i==e,"cmp","cmp gives " << i); }
    PBT_CHECK(is_finite(x) && !is_nan(x) && !is_inf(x),"is_finite","not finite"); PBT_CHECK(is_zero(x)==(p==0),"is_zero","is_zero");
    // arithmetic without a rounding mode encloses
    auto in=[&](char const* what, Bounds<F> const& r, Q const& e) { PBT_CHECK(is_in(e,xof(r.lower_raw()),xof(r.upper_raw())),what,what << " gives [" << show(r.lower_raw()) << ":" << show(r.upper_raw()) << "], not containing " << dec(e)); };
    in("x+y",x+y,p+q); in("x-y",x-y,p-q); in("x*y",x*y,p*q); if (q!=0) { in("x/y",x/y,p/q); in("rec",rec(y),1/q); } in("sqr",sqr(x),p*p);
    in("add",add(x,y),p+q); in("sub",sub(x,y),p-q); in("mul",mul(x,y),p*q); if (q!=0) in("div",div(x,y),p/q);
    if (abs(p)<two_exp(40)) { int n=(int)s.range(-6,8); if (p==0) n=abs(n); Q e=n>=0?qpow(p,(unsigned)n):1/qpow(p,(unsigned)-n); in("pow",pow(x,Int(n)),e); if (n>=0) in("pow(Nat)",pow(x,Nat(n)),e); }
    reset_modes();
}

// operations mixing single, double and multiple precision
void t_mixed(PSrc& s, PCase& c) {
    auto pr=FT<FloatMP>::gen_pr(s); FloatMP x=FT<FloatMP>::gen_full(s,pr); FloatDP y=FT<FloatDP>::gen_full(s,dp); int d=(int)s.draw(3); int m=(int)s.draw(3); set_both_modes(m);
    NOTE(c,"x=" << show(x) << " y=" << show(y) << " " << dirname(d)); Q p=xof(x).q,q=xof(y).q; c.interesting(p!=0&&q!=0); ExactDouble e(y.get_d());
#define MIX(name,expr,exact) { FloatMP r=with_dir(d,[&](auto rnd)->FloatMP{ return expr; }); check_direction(std::string(name),d,r,Q(exact)); }
    MIX("add(mp,dp)",add(rnd,x,y),p+q) MIX("sub(mp,dp)",sub(rnd,x,y),p-q) MIX("mul(mp,dp)",mul(rnd,x,y),p*q) if (q!=0) MIX("div(mp,dp)",div(rnd,x,y),p/q)
    MIX("add(dp,mp)",add(rnd,y,x),p+q) MIX("sub(dp,mp)",sub(rnd,y,x),q-p) MIX("mul(dp,mp)",mul(rnd,y,x),p*q) if (p!=0) MIX("div(dp,mp)",div(rnd,y,x),q/p)
    MIX("add(mp,double)",add(rnd,x,e),p+q) MIX("sub(mp,double)",sub(rnd,x,e),p-q) MIX("mul(mp,double)",mul(rnd,x,e),p*q) if (q!=0) MIX("div(mp,double)",div(rnd,x,e),p/q)
    MIX("add(double,mp)",add(rnd,e,x),p+q) MIX("sub(double,mp)",sub(rnd,e,x),q-p) MIX("mul(double,mp)",mul(rnd,e,x),p*q) if (p!=0) MIX("div(double,mp)",div(rnd,e,x),q/p)
    { Comparison r=cmp(x,y); int i=r==Comparison::LESS?-1:r==Comparison::EQUAL?0:1; PBT_CHECK(i==(p<q?-1:p==q?0:1),"cmp(mp,dp)","cmp gives " << i); r=cmp(y,x); i=r==Comparison::LESS?-1:r==Comparison::EQUAL?0:1; PBT_CHECK(i==(q<p?-1:p==q?0:1),"cmp(dp,mp)","cmp gives " << i); }
    reset_modes();
}

template<class F> void t_limits(PSrc& s, PCase& c) {
    typedef FT<F> T; auto pr=T::gen_pr(s); F x=T::gen_full(s,pr); NOTE(c,T::name() << " x=" << show(x)); Q p=xof(x).q; c.interesting(p!=0);
    Q e=xof(F::eps(pr)).q; PBT_CHECK(e==T::eps(pr),"eps","eps is " << show(F::eps(pr)));
    F mx=F::max(pr); PBT_CHECK(is_finite(mx) && is_inf(T::above(mx)),"max","max is not the largest number");
    F i=F::inf(pr), j=F::inf(Sign::NEGATIVE,pr), n=F::nan(pr); PBT_CHECK(xof(i).kind==1 && xof(j).kind==-1 && xof(n).is_nan() && is_inf(i) && is_inf(j) && is_nan(n) && !is_finite(i) && !is_finite(n) && !is_nan(i),"special values","a special value is wrong");
    PBT_CHECK(j<x && x<i && !(n==x) && !(n<x) && !(n>x) && n!=x && x<=i && !(i<=x),"comparison with special values","a comparison with a special value is wrong");
    F a=next(up,x), b=next(down,x); PBT_CHECK(bool(x<a) && bool(b<x),"next","next does not move: " << show(b) << " " << show(x) << " " << show(a));
    if (abs(p)>two_exp(-900)) PBT_CHECK(bool(a==T::above(x)) && bool(b==T::below(x)),"next","next moves by more than one place: " << show(b) << " " << show(x) << " " << show(a));
    X inf=X::inf(1), ninf=X::inf(-1); 
    PBT_CHECK(same(xof(add(up,i,x)),inf) && same(xof(add(down,i,x)),inf) && same(xof(sub(up,x,i)),ninf),"infinite sum","a sum with an infinity is wrong");
    F lo=F::pi(down,pr), hi=F::pi(up,pr), nr=F::pi(near,pr); Iv v=iv_pi(); check_direction("pi",DOWN,lo,v); check_direction("pi",UP,hi,v); PBT_CHECK(same(xof(T::above(lo)),xof(hi)) && (same(xof(nr),xof(lo))||same(xof(nr),xof(hi))),"pi tight","pi is not tight");
}

pbt::Register r1("arith_dp",200000,6e6,t_arith<FloatDP>), r2("arith_mp",60000,2e6,t_arith<FloatMP>), r3("power_dp",60000,2e6,t_power<FloatDP>), r4("power_mp",30000,1e6,t_power<FloatMP>),
    r5("exact_dp",60000,2e6,t_exact<FloatDP>), r6("exact_mp",40000,1e6,t_exact<FloatMP>), r7("mixed",40000,1e6,t_mixed), r8("limits_dp",20000,3e5,t_limits<FloatDP>), r9("limits_mp",20000,3e5,t_limits<FloatMP>);
struct Init { Init() { pbt::set_rule("the operands are nonzero (so that the rounded result is not trivially exact)"); pbt::set_reset(reset_modes);
    pbt::add_assumption("exact rational arithmetic (GMP) and the next/previous representable number (C library, MPFR) are right"); } } init;
}
