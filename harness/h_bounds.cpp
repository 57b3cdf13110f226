// C06: outward-rounded interval arithmetic.  Oracle: exact rationals, and MPFR enclosures at high precision.
#include "validated_tests.hpp"
using namespace oracle;
namespace {
// the plain functions of floats that return bounds
template<class F> void t_float_result(PSrc& s, PCase& c) {
    typedef Bounds<F> V; auto pr=FT<F>::gen_pr(s); int op=(int)s.draw(15); F x=gen_arg<F>(s,pr,op<4?0:op), y=FT<F>::gen(s,pr,12); Q p=xof(x).q, q=xof(y).q; int n=(int)s.range(-9,9), m=(int)s.draw(3); NOTE(c,"op " << op << " x=" << show(x) << " y=" << show(y) << " n=" << n); c.interesting(p!=0);
    if (op==3&&q==0) return; if ((op==4||(op==5&&n<0))&&p==0) return; if ((op==6||op==8)&&p<=0) return; if ((op==12||op==13)&&abs(p)>1) return;
    set_both_modes(m); V r=[&]()->V { switch (op) { case 0: return x+y; case 1: return x-y; case 2: return x*y; case 3: return x/y; case 4: return rec(x); case 5: return n>=0?pow(x,Nat(n)):pow(x,n); case 6: return sqrt(x); case 7: return exp(x); case 8: return log(x); case 9: return sin(x); case 10: return cos(x); case 11: return tan(x); case 12: return asin(x); case 13: return acos(x); default: return atan(x); } }(); reset_modes();
    static const char* nm[]={"+","-","*","/","rec","pow","sqrt","exp","log","sin","cos","tan","asin","acos","atan"}; c.label(nm[op]); std::string w=std::string("Float ")+nm[op];
    if (op<4) check_in(w,r,exact(op,p,q)); else if (op==4) check_in(w,r,Q(1/p)); else check_in(w,r,unary_exact(op,p,n)); }

// unbounded sets
template<class F> void t_unbounded(PSrc& s, PCase& c) {
    typedef Bounds<F> V; typedef VT<V> T; auto pr=FT<F>::gen_pr(s); F inf=F::inf(pr); auto g=[&](int k) { F a=FT<F>::gen(s,pr,8); return k==0?V(a,inf):k==1?V(F(neg(inf)),a):V(F(neg(inf)),inf); };
    V x=g((int)s.draw(3)), y=s.boolean()?g((int)s.draw(3)):gen_validated<V>(s,pr,8); if (s.boolean()) std::swap(x,y); int op=(int)s.draw(6); Q p=gen_in(s,x), q=gen_in(s,y); NOTE(c,bin_names[op] << " x=" << T::str(x) << " y=" << T::str(y) << " at " << dec(p) << "," << dec(q)); c.interesting(); if (op==3&&q==0) return;
    { V r=OpOf<V>::apply(op,x,y); if (!T::lo(r).is_nan()&&!T::hi(r).is_nan()) check_in(std::string("unbounded ")+bin_names[op],r,exact(op,p,q)); } // nan: no information
    check_in("unbounded neg",-x,Q(-p)); check_in("unbounded abs",V(abs(x)),Q(abs(p))); check_in("unbounded sqr",sqr(x),Q(p*p)); if (p!=0) check_in("unbounded rec",rec(x),Q(1/p)); check_in("unbounded exp",exp(x),exp(Iv(p))); check_in("unbounded atan",atan(x),atan(Iv(p))); check_in("unbounded hlf",hlf(x),Q(p/2)); }

// value and error, refinement, coarsening, information tests, change of precision, rounding to fewer bits
template<class F> void t_info(PSrc& s, PCase& c) {
    typedef Bounds<F> V; typedef VT<V> T; auto pr=FT<F>::gen_pr(s), pr2=FT<F>::gen_pr(s); V x=gen_validated<V>(s,pr,20), y=s.boolean()?gen_validated<V>(s,pr,20):gen_around<V>(s,x.lower_raw()); Q p=gen_in(s,x), q=gen_in(s,y); NOTE(c,"x=" << T::str(x) << " y=" << T::str(y)); Q xl=T::lo(x).q,xu=T::hi(x).q,yl=T::lo(y).q,yu=T::hi(y).q; c.interesting(xl!=xu);
    Q v=xof(x.value()).q, e=xof(x.error().raw()).q; PBT_CHECK(v-e<=xl&&xu<=v+e,"value and error","value " << dec(v) << " and error " << dec(e) << " do not cover"); PBT_CHECK(e<=(xu-xl)/2+3*FT<F>::eps(pr)*(abs(v)+(xu-xl))+FT<F>::tiny(pr)*2,"value and error tight","error " << dec(e) << " is too large");
    { Q a=xof(x.value_raw()).q, b=xof(x.error_raw()).q; PBT_CHECK(a-b<=xl&&xu<=a+b,"value_raw and error_raw","they do not cover"); }
    PBT_CHECK(same(xof(x.lower().raw()),T::lo(x))&&same(xof(x.upper().raw()),T::hi(x)),"lower and upper","changed");
    bool meet=xl<=yu&&yl<=xu; PBT_CHECK(consistent(x,y)==meet,"consistent","consistent says " << consistent(x,y)); PBT_CHECK(inconsistent(x,y)==!meet,"inconsistent","inconsistent says " << inconsistent(x,y)); PBT_CHECK(refines(x,y)==(xl>=yl&&xu<=yu),"refines","refines says " << refines(x,y)); PBT_CHECK(same(x,y)==(xl==yl&&xu==yu),"same","same says " << same(x,y)); c.label(meet?"meet":"apart");
    PBT_CHECK(models(x,y.lower_raw())==(xl<=yl&&yl<=xu),"models","models says " << models(x,y.lower_raw()));
    if (meet) { V r=refinement(x,y); PBT_CHECK(T::lo(r).q==qmax(xl,yl)&&T::hi(r).q==qmin(xu,yu),"refinement","refinement gives " << T::str(r)); } V h=coarsening(x,y); PBT_CHECK(T::lo(h).q==qmin(xl,yl)&&T::hi(h).q==qmax(xu,yu),"coarsening","coarsening gives " << T::str(h));
    V z(x,pr2); check_in("Bounds(x,pr)",z,p); if constexpr (std::is_same_v<F,FloatMP>) { Bounds<FloatDP> d(x,dp); check_in("FloatDPBounds(FloatMPBounds)",d,p); V b(d,pr2); check_in("FloatMPBounds(FloatDPBounds)",b,gen_in(s,d)); }
    { F er=FT<F>::of(abs(gen_small_q(s,3)),pr); V w=x.pm(Error<F>(er)); check_in("pm",w,Q(p+xof(er).q)); check_in("pm",w,Q(p-xof(er).q)); }
    PBT_CHECK(le(X(abs(p)),xof(mag(x).raw())),"mag","mag gives " << show(mag(x).raw())); PBT_CHECK(le(xof(mig(x).raw()),X(abs(p))),"mig","mig gives " << show(mig(x).raw()));
    { Ball<F> b(x); check_in("Ball(Bounds)",b,p); V w(b); check_in("Bounds(Ball)",w,p); } { ValidatedNumber n=x; V w(n,pr2); check_in("ValidatedNumber",w,p); }
    if (abs(xl)<Q(1000000)&&abs(xu)<Q(1000000)) { V t=trunc(x); check_in("trunc",t,p); }
    { Z fl=qfloor(v), ce=qceil(v); (void)fl; (void)ce; V r=round(x); Q a=Q(qfloor(p+Q(1,2))), b=Q(qceil(p-Q(1,2))); PBT_CHECK(is_in(a,T::lo(r),T::hi(r))||is_in(b,T::lo(r),T::hi(r)),"round","round gives " << T::str(r) << ", which excludes the nearest integer to " << dec(p)); } }

// intervals with exact endpoints
template<class W> struct EX; template<> struct EX<Dyadic> { static Q gen(PSrc& s) { return gen_dyadic(s,12,6); } static Dyadic of(Q const& q) { return to_dyadic(q); } static char const* name() { return "Dyadic"; } }; template<> struct EX<Rational> { static Q gen(PSrc& s) { return gen_small_q(s,6); } static Rational of(Q const& q) { return to_rational(q); } static char const* name() { return "Rational"; } };
template<class W> void t_exact_bounds(PSrc& s, PCase& c) {
    typedef Bounds<W> V; auto mk=[&](Q& l, Q& u) { l=EX<W>::gen(s); u=s.chance(1,4)?l:EX<W>::gen(s); if (l>u) std::swap(l,u); return V(EX<W>::of(l),EX<W>::of(u)); };
    Q xl,xu,yl,yu; V x=mk(xl,xu), y=mk(yl,yu); Q p=gen_in(s,X(xl),X(xu)), q=gen_in(s,X(yl),X(yu)); NOTE(c,EX<W>::name() << " x=[" << show(xl) << ":" << show(xu) << "] y=[" << show(yl) << ":" << show(yu) << "] at " << show(p) << ", " << show(q)); c.interesting(xl!=xu);
    auto in=[&](std::string const& n, V const& r, Q const& v) { Q l=qof(r.lower_raw()), u=qof(r.upper_raw()); PBT_CHECK(l<=v&&v<=u,n,n << " gives [" << show(l) << ":" << show(u) << "], which excludes " << show(v)); };
    in("+",x+y,p+q); in("-",x-y,p-q); in("*",x*y,p*q); in("neg",-x,-p); in("neg",neg(x),-p); in("sqr",sqr(x),p*p); in("hlf",hlf(x),p/2); in("max",max(x,y),qmax(p,q)); in("min",min(x,y),qmin(p,q)); in("abs",abs(x),abs(p)); Nat n=(Nat)s.range(0,5); in("pow",pow(x,n),qpow(p,n)); in("add",add(x,y),p+q); in("sub",sub(x,y),p-q); in("mul",mul(x,y),p*q); in("pos",+x,p);
    if constexpr (std::is_same_v<W,Rational>) { if (yl>0||yu<0) { in("/",x/y,p/q); in("rec",rec(y),1/q); c.label("division"); } }
    auto k=[&](ValidatedKleenean const& t, bool b, std::string const& n) { PBT_CHECK(b?possibly(t):not definitely(t),n,n << " says " << t << " but values " << show(p) << ", " << show(q) << " are allowed"); }; k(x<y,p<q,"<"); k(x<=y,p<=q,"<="); k(x>y,p>q,">"); k(x>=y,p>=q,">="); k(x==y,p==q,"=="); k(x!=y,p!=q,"!=");
}

#define REG(F,n) pbt::Register F##1("binary_" n,150000,5e6,t_binary<Bounds<F>>,20), F##2("mixed_" n,60000,2e6,t_mixed<Bounds<F>>,20), F##3("unary_" n,150000,4e6,t_unary<Bounds<F>>,20), F##4("float_result_" n,50000,1e6,t_float_result<F>,20), F##5("range_" n,40000,1e6,t_range<Bounds<F>>,20), F##6("unbounded_" n,20000,5e5,t_unbounded<F>,20), F##7("info_" n,30000,1e6,t_info<F>,20), F##8("expression_" n,40000,1e6,t_expression<Bounds<F>>,20);
REG(FloatDP,"dp") REG(FloatMP,"mp")
pbt::Register d1("exact_dyadic",20000,5e5,t_exact_bounds<Dyadic>,20), d2("exact_rational",20000,5e5,t_exact_bounds<Rational>,20);
struct Init { Init() { pbt::set_rule("at least one operand is not a single point (expressions: at least two operations)"); pbt::set_reset(reset_modes); pbt::add_assumption("exact rational arithmetic (GMP) and MPFR at 420 bits are right"); } } init;
}
