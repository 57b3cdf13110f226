// C05: conversion between number types.  Oracle: exact rationals.
#include "float_gen.hpp"
#include "numeric/rounded_float.hpp"
#include "numeric/float_bounds.hpp"
#include "numeric/float_ball.hpp"
#include "numeric/float_error.hpp"
#include "numeric/float_lower_bound.hpp"
#include "numeric/float_upper_bound.hpp"
#include "numeric/float_approximation.hpp"
using namespace oracle;
namespace {

Q gen_any_q(PSrc& s) { switch (s.weighted({4,3,3,2,2,1})) { case 0: return gen_small_q(s,20); case 1: return gen_q(s,100); case 2: return gen_dyadic(s,120,200);
    case 3: { double d=gen_double_full(s); Q q=of_double(d); Q t=two_exp(-(long)s.range(0,1200)); return s.boolean()?q:Q(q*(1+t)); }  // next to a double
    case 4: { Q q=two_exp(s.range(1020,1030)); q-=two_exp(s.range(900,1019)); return s.boolean()?q:Q(-q); } // next to overflow
    default: { Q q=Q((long)s.range(1,100),(unsigned long)s.range(1,9))*two_exp(-(long)s.range(1000,1200)); q.canonicalize(); return s.boolean()?q:Q(-q); } } }
bool is_dyadic(Q const& q) { return mpz_popcount(q.get_den_mpz_t())==1; }

// the nearest conversion is allowed the faithful rounding its documentation promises, not more
template<class F> void ok(std::string const& what, int d, F const& r, Q const& q) { if (d!=NEAR) { check_correctly_rounded(what,d,r,q); return; } X x=xof(r); 
    PBT_CHECK(!x.is_nan(),what,what << " is nan"); X a=xof(FT<F>::above(r)), b=xof(FT<F>::below(r));
    if (x.finite()&&x.q==q) return; PBT_CHECK(le(b,X(q))&&le(X(q),a),what,what << " gives " << show(r) << ", which is not next to the exact value " << dec(q)); }

template<class F> void t_to_float(PSrc& s, PCase& c) {
    typedef FT<F> T; auto pr=T::gen_pr(s); Q q=gen_any_q(s); int d=(int)s.draw(3), m=(int)s.draw(3); 
    if (std::is_same_v<F,FloatMP> && q==0) q=1;
    NOTE(c,T::name() << " " << dirname(d) << " q=" << show(q) << "~" << dec(q) << " bits=" << T::bits(pr) << " current mode " << dirname(m)); c.label(dirname(d)); c.interesting(!is_dyadic(q)||mpz_sizeinbase(q.get_num_mpz_t(),2)>20);
    set_both_modes(m);
#define CONV(what,y) { F r=with_dir(d,[&](auto rnd)->F{ return F(y,rnd,pr); }); int mm=std::fegetround(); reset_modes(); ok(std::string(what),d,r,q); (void)mm; set_both_modes(m); }
    CONV("Rational",to_rational(q));
    if (is_dyadic(q)) { c.label("dyadic"); Dyadic w=to_dyadic(q); CONV("Dyadic",w); 
        // conversion without rounding: exact, or refused
        bool thrown=false; F r(pr); try { r=F(w,pr); } catch (std::exception const&) { thrown=true; } reset_modes(); if (!thrown) PBT_CHECK(same(xof(r),X(q)),"Float(Dyadic)","the conversion is inexact and silent: " << show(r)); else { F e(w,down,pr), u(w,up,pr); PBT_CHECK(!same(xof(e),xof(u)),"Float(Dyadic)","an exactly representable value is refused"); c.label("refused"); } set_both_modes(m); }
    if (q.get_den()==1) { Integer z=to_integer(q.get_num()); CONV("Integer",z); c.label("integer"); }
    { Z t=q.get_den(); unsigned e=0; while (t%10==0) { t/=10; ++e; } while (t%2==0) { t/=2; ++e; } while (t%5==0) { t/=5; ++e; } if (t==1 && e<60) { Q p=q; for (unsigned i=0;i<e;++i) p*=10; Decimal dd(to_integer(p.get_num()),(Nat)e); CONV("Decimal",dd); c.label("decimal"); } }
    // validated numbers made from exact ones enclose them
    { Bounds<F> b(to_rational(q),pr); reset_modes(); PBT_CHECK(is_in(q,xof(b.lower_raw()),xof(b.upper_raw())),"Bounds(Rational)","the bounds [" << show(b.lower_raw()) << ":" << show(b.upper_raw()) << "] do not contain it"); 
      PBT_CHECK(same(xof(b.lower_raw()),xof(b.upper_raw())) || le(xof(b.upper_raw()),xof(FT<F>::above(b.lower_raw()))),"Bounds(Rational) tight","the bounds [" << show(b.lower_raw()) << ":" << show(b.upper_raw()) << "] are not tight"); set_both_modes(m); }
    { LowerBound<F> l(to_rational(q),pr); UpperBound<F> u(to_rational(q),pr); reset_modes(); PBT_CHECK(le(xof(l.raw()),X(q)),"LowerBound(Rational)","the lower bound " << show(l.raw()) << " is above"); PBT_CHECK(le(X(q),xof(u.raw())),"UpperBound(Rational)","the upper bound " << show(u.raw()) << " is below"); set_both_modes(m); }
    if (abs(q)<two_exp(1000)) { Ball<F> b(to_rational(q),pr); reset_modes(); X v=xof(b.value_raw()), e=xof(b.error_raw()); PBT_CHECK(v.finite()&&e.finite()&&abs(v.q-q)<=e.q,"Ball(Rational)","the ball " << show(v) << "+/-" << show(e) << " does not contain it"); set_both_modes(m); }
    set_both_modes(d); { Rounded<F> r(to_rational(q),pr); F t=r.raw(); reset_modes(); ok("Rounded(Rational)",d,t,q); }
    reset_modes();
}

// double <-> multiple precision
void t_between(PSrc& s, PCase& c) {
    auto pr=FT<FloatMP>::gen_pr(s), pr2=FT<FloatMP>::gen_pr(s); int d=(int)s.draw(3), m=(int)s.draw(3); FloatMP x=FT<FloatMP>::gen_full(s,pr); FloatDP y=FT<FloatDP>::gen_full(s,dp); NOTE(c,"x=" << show(x) << " y=" << show(y) << " to " << pr2 << " " << dirname(d)); Q p=xof(x).q, q=xof(y).q; c.interesting(p!=0);
    set_both_modes(m);
    FloatDP a=with_dir(d,[&](auto rnd)->FloatDP{ return FloatDP(x,rnd,dp); }); FloatMP b=with_dir(d,[&](auto rnd)->FloatMP{ return FloatMP(x,rnd,pr2); }); FloatMP e=with_dir(d,[&](auto rnd)->FloatMP{ return FloatMP(y,rnd,pr2); }); FloatMP f=with_dir(d,[&](auto rnd)->FloatMP{ return FloatMP(ExactDouble(y.get_d()),rnd,pr2); }); FloatDP g=with_dir(d,[&](auto rnd)->FloatDP{ return FloatDP(y,rnd,dp); });
    Dyadic wx(x), wy(y); Rational qx(x), qy(y); reset_modes();
    check_correctly_rounded("FloatDP(FloatMP)",d,a,p); if (p!=0) check_correctly_rounded("FloatMP(FloatMP)",d,b,p); if (q!=0) { check_correctly_rounded("FloatMP(FloatDP)",d,e,q); check_correctly_rounded("FloatMP(double)",d,f,q); } PBT_CHECK(same(xof(g),X(q)),"FloatDP(FloatDP)","changed");
    PBT_CHECK(qof(wx)==p && qof(wy)==q,"Dyadic(Float)","Dyadic(x)=" << wx); PBT_CHECK(qof(qx)==p && qof(qy)==q,"Rational(Float)","Rational(x)=" << qx);
    // copies and moves keep the value and the precision
    { FloatMP t(x); PBT_CHECK(same(xof(t),X(p))&&t.precision()==x.precision(),"copy","a copy is " << show(t)); FloatMP u(std::move(t)); PBT_CHECK(same(xof(u),X(p))&&u.precision()==x.precision(),"move","a moved value is " << show(u)); FloatMP w(pr2); w=u; PBT_CHECK(same(xof(w),X(p)),"assignment","an assigned value is " << show(w)); w=w; PBT_CHECK(same(xof(w),X(p)),"assignment","self assignment gives " << show(w)); t=w; PBT_CHECK(same(xof(t),X(p)),"assignment","assignment to a moved-from object gives " << show(t)); }
    // integral casts
    Z zx=qfloor(p); if (Q(zx)==p && abs(p)<two_exp(200)) { PBT_CHECK(zof(cast_integer(x))==zx,"cast_integer","cast_integer gives " << cast_integer(x)); c.label("integral"); }
    Z zy=qfloor(q); if (Q(zy)==q && abs(q)<two_exp(200)) PBT_CHECK(zof(cast_integer(y))==zy,"cast_integer","cast_integer gives " << cast_integer(y));
}

// comparison of floats with exact numbers
template<class F> void t_compare(PSrc& s, PCase& c) {
    typedef FT<F> T; auto pr=T::gen_pr(s); F x=T::gen_full(s,pr); Q p=xof(x).q; Q q=gen_any_q(s); switch (s.draw(4)) { case 0: q=p; break; case 1: q=p*(1+two_exp(-(long)s.range(50,300))); break; default: ; }
    NOTE(c,"x=" << show(x) << " q=" << show(q)); c.interesting(p!=q); int e=p<q?-1:p==q?0:1;
    auto num=[](Comparison r) { return r==Comparison::LESS?-1:r==Comparison::EQUAL?0:r==Comparison::GREATER?1:9; };
#define CMP(name,y) { auto const& Y=y; PBT_CHECK(num(cmp(x,Y))==e,std::string("cmp ")+name,"cmp(x," << name << ") gives " << num(cmp(x,Y)) << ", not " << e); PBT_CHECK(num(cmp(Y,x))==-e,std::string("cmp ")+name,"cmp(" << name << ",x) gives " << num(cmp(Y,x))); \
    PBT_CHECK(bool(x<Y)==(e<0) && bool(x<=Y)==(e<=0) && bool(x>Y)==(e>0) && bool(x>=Y)==(e>=0) && bool(x==Y)==(e==0) && bool(x!=Y)==(e!=0),std::string("comparison ")+name,"a comparison of x with a " << name << " is wrong"); }
    CMP("Rational",to_rational(q));
    if (is_dyadic(q) && q.get_den()<Z(2)*Z(1)) {}
    { double f=q.get_d(); if (std::isfinite(f) && of_double(f)==q) { CMP("ExactDouble",ExactDouble(f)); c.label("double"); } }
    if (q.get_den()==1 && q.get_num().fits_sint_p()) { int n=(int)q.get_num().get_si(); CMP("Int",n); c.label("int"); if (n>=0) { CMP("Nat",Nat(n)); } }
}

// ExactDouble and decimal literals
void t_double(PSrc& s, PCase& c) {
    double v=gen_double_full(s); Q q=of_double(v); NOTE(c,"v=" << v); c.interesting(v!=0); ExactDouble e(v); PBT_CHECK(e.get_d()==v,"ExactDouble","changed"); PBT_CHECK(qof(Dyadic(e))==q,"Dyadic(ExactDouble)","Dyadic gives " << dec(qof(Dyadic(e)))); PBT_CHECK(qof(Rational(e))==q,"Rational(ExactDouble)","Rational gives " << dec(qof(Rational(e))));
    PBT_CHECK(same(xof(FloatDP(e,dp)),X(q)),"FloatDP(ExactDouble)","changed");
}

// builtin integers: exact, rounded as asked, or refused
template<class F, class N> void t_builtin(PSrc& s, PCase& c) {
    auto pr=FT<F>::gen_pr(s); N n=(N)s.draw(0); switch (s.draw(4)) { case 0: n=(N)s.range(0,1000); if (std::is_signed_v<N>&&s.boolean()) n=(N)-n; break; case 1: n=(N)(n>>s.draw(63)); break; case 2: n=(N)(((N)1<<s.range(50,62))+(N)s.range(0,4)); break; default: ; }
    Z z; if (std::is_signed_v<N>) z=(long)n; else z=(unsigned long)n; Q q(z); int d=(int)s.draw(3), m=(int)s.draw(3); NOTE(c,FT<F>::name() << " " << FT<F>::bits(pr) << " bits, n=" << z << " " << dirname(d) << ", current mode " << dirname(m)); c.interesting(abs(z)>Z(1)<<53); if (n==0) return;
    set_both_modes(m); F r=with_dir(d,[&](auto rnd)->F{ return F(n,rnd,pr); }); reset_modes(); check_correctly_rounded("Float(n,rnd,pr)",d,r,q);
    auto make=[&](std::string const& what, auto const& f, auto const& good) { set_both_modes(m); bool thrown=false; try { auto y=f(); reset_modes(); PBT_CHECK(good(y),what,what << " is wrong"); } catch (std::runtime_error const&) { thrown=true; } reset_modes(); if (thrown) { c.label("refused"); PBT_CHECK(abs(z)>Z(1)<<53 || mpz_sizeinbase(z.get_mpz_t(),2)-mpz_scan1(z.get_mpz_t(),0)>FT<F>::bits(pr),what,what << " refuses an exact value"); } };
    if (mpz_sizeinbase(z.get_mpz_t(),2)-mpz_scan1(z.get_mpz_t(),0)<=FT<F>::bits(pr)) make("Float(n,pr)",[&]{ return F(n,pr); },[&](F const& y){ return same(xof(y),X(q)); });
    make("Bounds(n,pr)",[&]{ return Bounds<F>(n,pr); },[&](Bounds<F> const& y){ return is_in(q,xof(y.lower_raw()),xof(y.upper_raw())); });
    make("LowerBound(n,pr)",[&]{ return LowerBound<F>(n,pr); },[&](LowerBound<F> const& y){ return le(xof(y.raw()),X(q)); });
    make("UpperBound(n,pr)",[&]{ return UpperBound<F>(n,pr); },[&](UpperBound<F> const& y){ return le(X(q),xof(y.raw())); });
    if (z>0) make("Error(n,pr)",[&]{ return Error<F>((Nat)(n&0xffffffffu),pr); },[&](Error<F> const& y){ return le(X(Q((unsigned long)(n&0xffffffffu))),xof(y.raw())); });
    make("ExactDouble(n)",[&]{ return ExactDouble(n); },[&](ExactDouble const& y){ return of_double(y.get_d())==q; });
}

pbt::Register b1("builtin_dp_long",20000,5e5,t_builtin<FloatDP,long>,20), b2("builtin_dp_ulong",20000,5e5,t_builtin<FloatDP,unsigned long>,20), b3("builtin_mp_long",20000,5e5,t_builtin<FloatMP,long>,20), b4("builtin_mp_ulong",20000,5e5,t_builtin<FloatMP,unsigned long>,20);
pbt::Register r1("to_float_dp",80000,3e6,t_to_float<FloatDP>,20), r2("to_float_mp",40000,1e6,t_to_float<FloatMP>,20), r3("between",40000,1e6,t_between,20), r4("compare_dp",60000,1e6,t_compare<FloatDP>,20), r5("compare_mp",40000,1e6,t_compare<FloatMP>,20), r6("double",40000,1e6,t_double,20);
struct Init { Init() { pbt::set_rule("the source value is not exactly representable in the target or has more than 20 bits; for comparisons, the two values differ"); pbt::set_reset(reset_modes); pbt::add_assumption("exact rational arithmetic (GMP) is right"); } } init;
}
