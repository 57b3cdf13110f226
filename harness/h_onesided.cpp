// C08: lower bounds, upper bounds and errors.  Oracle: exact rationals and MPFR enclosures.
#include "validated_tests.hpp"
#include "numeric/decimal.hpp"
#include "numeric/upper_number.hpp"
#include "numeric/lower_number.hpp"
using namespace oracle;
namespace {
bool infinite_operand=false; // 0*inf: not-a-number is no information
// r has to be on the right side of v
template<class F> void up_ok(std::string const& n, UpperBound<F> const& r, Q const& v) { X u=xof(r.raw()); PBT_CHECK(!u.is_nan()&&le(X(v),u),n,n << " gives the upper bound " << show(r.raw()) << " on the value " << dec(v)); }
template<class F> void lo_ok(std::string const& n, LowerBound<F> const& r, Q const& v) { X u=xof(r.raw()); PBT_CHECK(!u.is_nan()&&le(u,X(v)),n,n << " gives the lower bound " << show(r.raw()) << " on the value " << dec(v)); }
template<class F> void up_ok(std::string const& n, UpperBound<F> const& r, Iv const& v) { X u=xof(r.raw()); PBT_CHECK(!u.is_nan()&&!surely_greater(v,u),n,n << " gives the upper bound " << show(r.raw()) << " on the value " << show(v)); }
template<class F> void lo_ok(std::string const& n, LowerBound<F> const& r, Iv const& v) { X u=xof(r.raw()); PBT_CHECK(!u.is_nan()&&!surely_less(v,u),n,n << " gives the lower bound " << show(r.raw()) << " on the value " << show(v)); }
template<class F> void er_ok(std::string const& n, Error<F> const& r, Q const& v) { X u=xof(r.raw()); PBT_CHECK(!u.is_nan()?le(X(v),u):infinite_operand,n,n << " gives the error bound " << show(r.raw()) << " on the value " << dec(v)); }
template<class F> void er_ok(std::string const& n, Error<F> const& r, Iv const& v) { X u=xof(r.raw()); PBT_CHECK(!u.is_nan()?!surely_greater(v,u):infinite_operand,n,n << " gives the error bound " << show(r.raw()) << " on the value " << show(v)); }
// not absurdly far: the result for exact arguments is within a few units in the last place
template<class F> void near_ok(std::string const& n, F const& r, Q const& v) { X u=xof(r); Q tol=8*FT<F>::eps(r.precision())*abs(v)+8*FT<F>::tiny(r.precision()); PBT_CHECK(u.finite()&&abs(u.q-v)<=tol,n+" tight",n << " gives " << show(r) << ", too far from the exact value " << dec(v)); }

template<class F> struct One { F l; F u; Q v; }; // l<=v<=u
template<class F> One<F> gen_one(PSrc& s, typename F::PrecisionType pr, bool positive, bool full=false) {
    F a=full?FT<F>::gen_full(s,pr):FT<F>::gen(s,pr,12); if (positive) { if (xof(a).q<0) a=neg(a); if (xof(a).q==0) a=FT<F>::of(Q(1),pr); }
    F b=a; switch (s.weighted({2,3,2})) { case 0: break; case 1: b=FT<F>::above(a); break; default: b=FT<F>::of(xof(a).q+abs(gen_small_q(s,4)),pr); if (xof(b).q<xof(a).q) b=a; } if (!xof(b).finite()) b=a;
    Q v=gen_in(s,xof(a),xof(b)); return {a,b,v}; }
template<class F> std::string str(One<F> const& x) { return show(x.l)+"<="+dec(x.v)+"<="+show(x.u); }

template<class F> void t_directed(PSrc& s, PCase& c) {
    typedef LowerBound<F> L; typedef UpperBound<F> U; auto pr=FT<F>::gen_pr(s), pr2=s.chance(1,4)?FT<F>::gen_pr(s):pr; One<F> a=gen_one<F>(s,pr,false), b=gen_one<F>(s,pr2,false); int m=(int)s.draw(3); NOTE(c,"x: " << str(a) << "  y: " << str(b) << " mode " << dirname(m)); c.interesting(xof(a.l).q!=xof(a.u).q||xof(b.l).q!=xof(b.u).q);
    L xl(a.l), yl(b.l); U xu(a.u), yu(b.u); Q x=a.v,y=b.v; set_both_modes(m); struct R { ~R() { reset_modes(); } } r;
    up_ok("+",U(xu+yu),x+y); lo_ok("+",L(xl+yl),x+y); up_ok("-",U(xu-yl),x-y); lo_ok("-",L(xl-yu),x-y); up_ok("add",U(add(xu,yu)),x+y); lo_ok("add",L(add(xl,yl)),x+y); up_ok("sub",U(sub(xu,yl)),x-y); lo_ok("sub",L(sub(xl,yu)),x-y);
    near_ok<F>("+",U(xu+yu).raw(),xof(a.u).q+xof(b.u).q); near_ok<F>("-",L(xl-yu).raw(),xof(a.l).q-xof(b.u).q);
    up_ok("neg",U(-xl),Q(-x)); lo_ok("neg",L(-xu),Q(-x)); up_ok("neg",U(neg(xl)),Q(-x)); lo_ok("neg",L(neg(xu)),Q(-x)); up_ok("hlf",U(hlf(xu)),Q(x/2)); lo_ok("hlf",L(hlf(xl)),Q(x/2)); up_ok("pos",U(+xu),x); lo_ok("pos",L(+xl),x);
    up_ok("max",U(max(xu,yu)),qmax(x,y)); lo_ok("max",L(max(xl,yl)),qmax(x,y)); up_ok("min",U(min(xu,yu)),qmin(x,y)); lo_ok("min",L(min(xl,yl)),qmin(x,y));
    { U z=xu; z+=yu; up_ok("+=",z,x+y); z=xu; z-=yl; up_ok("-=",z,x-y); L w=xl; w+=yl; lo_ok("+=",w,x+y); w=xl; w-=yu; lo_ok("-=",w,x-y); }
    if (abs(x)<500) { up_ok("exp",U(exp(xu)),exp(Iv(x))); lo_ok("exp",L(exp(xl)),exp(Iv(x))); } up_ok("atan",U(atan(xu)),atan(Iv(x))); lo_ok("atan",L(atan(xl)),atan(Iv(x)));
    if (xof(a.l).q>0) { lo_ok("log",L(log(xl)),log(Iv(x))); lo_ok("sqrt",L(sqrt(xl)),sqrt(Iv(x))); }
    // change of precision and construction from the other types
    auto p3=FT<F>::gen_pr(s); up_ok("UpperBound(x,pr)",U(xu,p3),x); lo_ok("LowerBound(x,pr)",L(xl,p3),x); Bounds<F> bx(a.l,a.u); up_ok("UpperBound(Bounds,pr)",U(bx,p3),x); lo_ok("LowerBound(Bounds,pr)",L(bx,p3),x); up_ok("UpperBound(Bounds)",U(bx),x); lo_ok("LowerBound(Bounds)",L(bx),x); up_ok("UpperBound(Float,pr)",U(a.u,p3),x); lo_ok("LowerBound(Float,pr)",L(a.l,p3),x); Ball<F> ball(bx); up_ok("UpperBound(Ball)",U(ball),x); lo_ok("LowerBound(Ball)",L(ball),x);
    up_ok("UpperBound(Rational)",U(to_rational(x),p3),x); lo_ok("LowerBound(Rational)",L(to_rational(x),p3),x); { Bounds<F> w(xl,yu); (void)w; }
    { ValidatedUpperNumber n=xu; up_ok("ValidatedUpperNumber",U(n,p3),x); ValidatedLowerNumber k=xl; lo_ok("ValidatedLowerNumber",L(k,p3),x); U z(p3); z=n; up_ok("assignment",z,x); }
    if constexpr (std::is_same_v<F,FloatMP>) { up_ok("FloatDPUpperBound(FloatMPUpperBound)",UpperBound<FloatDP>(xu,dp),x); lo_ok("FloatDPLowerBound(FloatMPLowerBound)",LowerBound<FloatDP>(xl,dp),x); }
    PBT_CHECK(qof(cast_integer(xu))>=x,"cast_integer","cast_integer of an upper bound is below the value"); PBT_CHECK(qof(cast_integer(xl))<=x,"cast_integer","cast_integer of a lower bound is above the value");
    PBT_CHECK(refines(xu,yu)==(xof(a.u).q<=xof(b.u).q),"refines","refines of upper bounds"); PBT_CHECK(refines(xl,yl)==(xof(a.l).q>=xof(b.l).q),"refines","refines of lower bounds");
    // comparisons answer only what is certain
    if (definitely(xu<yl)) PBT_CHECK(x<y,"<","upper<lower is said to be true"); if (definitely(not (xl<yu))) PBT_CHECK(!(x<y),"<","lower<upper is said to be false"); if (definitely(xl>yu)) PBT_CHECK(x>y,">","lower>upper is said to be true"); if (definitely(not (xu>yl))) PBT_CHECK(!(x>y),">","upper>lower is said to be false"); if (definitely(xu<=yl)) PBT_CHECK(x<=y,"<=","upper<=lower is said to be true"); if (definitely(not (xl<=yu))) PBT_CHECK(!(x<=y),"<=","lower<=upper is said to be false"); if (definitely(xl>=yu)) PBT_CHECK(x>=y,">=","lower>=upper is said to be true"); if (definitely(not (xu>=yl))) PBT_CHECK(!(x>=y),">=","upper>=lower is said to be false");
    if (xof(a.u).q<xof(b.l).q) { PBT_CHECK(definitely(xu<yl),"<","certain upper<lower is not recognised"); c.label("ordered"); } }

template<class F> void t_positive(PSrc& s, PCase& c) {
    typedef Positive<LowerBound<F>> L; typedef Positive<UpperBound<F>> U; typedef Positive<Bounds<F>> B; typedef Positive<F> P; auto pr=FT<F>::gen_pr(s), pr2=s.chance(1,4)?FT<F>::gen_pr(s):pr; bool full=s.chance(1,5); One<F> a=gen_one<F>(s,pr,true,full), b=gen_one<F>(s,pr2,true,full); int m=(int)s.draw(3); NOTE(c,"x: " << str(a) << "  y: " << str(b) << " mode " << dirname(m)); c.interesting(xof(a.l).q!=xof(a.u).q||xof(b.l).q!=xof(b.u).q);
    L xl(a.l), yl(b.l); U xu(a.u), yu(b.u); B xb{Bounds<F>(a.l,a.u)}, yb{Bounds<F>(b.l,b.u)}; P yp(b.u), xp(a.l); Q x=a.v,y=b.v, yq=xof(b.u).q, xq=xof(a.l).q; Nat n=(Nat)s.range(0,6), k=(Nat)s.range(1,100); set_both_modes(m); struct R { ~R() { reset_modes(); } } r;
    up_ok("U+U",xu+yu,x+y); lo_ok("L+L",xl+yl,x+y); up_ok("U*U",xu*yu,x*y); lo_ok("L*L",xl*yl,x*y); up_ok("U/L",xu/yl,x/y); lo_ok("L/U",xl/yu,x/y); up_ok("mul",mul(xu,yu),x*y); lo_ok("mul",mul(xl,yl),x*y); up_ok("div",div(xu,yl),x/y); lo_ok("div",div(xl,yu),x/y); up_ok("add",add(xu,yu),x+y); lo_ok("add",add(xl,yl),x+y);
    up_ok("sqr",sqr(xu),x*x); lo_ok("sqr",sqr(xl),x*x); up_ok("rec",rec(xl),1/x); lo_ok("rec",rec(xu),1/x); if (abs(x)<two_exp(200)) { up_ok("pow",pow(xu,n),qpow(x,n)); lo_ok("pow",pow(xl,n),qpow(x,n)); }
    up_ok("B*U",xb*yu,x*y); up_ok("U*B",xu*yb,x*y); up_ok("U/B",xu/yb,x/y); lo_ok("B*L",xb*yl,x*y); lo_ok("L*B",xl*yb,x*y); lo_ok("L/B",xl/yb,x/y);
    up_ok("P*U",yp*xu,yq*x); up_ok("U*P",xu*yp,yq*x); up_ok("U/P",xu/yp,x/yq); up_ok("P/L",yp/xl,yq/x); lo_ok("P*L",yp*xl,yq*x); lo_ok("L*P",xl*yp,yq*x); lo_ok("L/P",xl/yp,x/yq); lo_ok("P/U",yp/xu,yq/x); up_ok("U/Nat",xu/k,x/k); lo_ok("L/Nat",xl/k,x/k);
    { U z=xu; z+=yu; up_ok("U+=U",z,x+y); z=xu; z*=yu; up_ok("U*=U",z,x*y); z=xu; z/=yl; up_ok("U/=L",z,x/y); L w=xl; w+=yl; lo_ok("L+=L",w,x+y); w=xl; w*=yl; lo_ok("L*=L",w,x*y); w=xl; w/=yu; lo_ok("L/=U",w,x/y); }
    up_ok("max",max(xu,yu),qmax(x,y)); lo_ok("max",max(xl,yl),qmax(x,y)); up_ok("min",min(xu,yu),qmin(x,y)); lo_ok("min",min(xl,yl),qmin(x,y)); up_ok("sqrt",sqrt(xu),sqrt(Iv(x))); up_ok("log",log(xu),log(Iv(x))); up_ok("atan",atan(xu),atan(Iv(x)));
    if (!full) { near_ok<F>("U*U",(xu*yu).raw(),xof(a.u).q*xof(b.u).q); near_ok<F>("L/U",(xl/yu).raw(),xof(a.l).q/xof(b.u).q); near_ok<F>("U/L",(xu/yl).raw(),xof(a.u).q/xof(b.l).q); near_ok<F>("L*L",(xl*yl).raw(),xof(a.l).q*xof(b.l).q); }
    // one-sided bounds of any sign times or over a positive number
    { One<F> z=gen_one<F>(s,pr,false); NOTE(c,"z: " << str(z)); UpperBound<F> zu(z.u); LowerBound<F> zl(z.l); up_ok("PB*Up",xb*zu,x*z.v); up_ok("Up*PB",zu*xb,x*z.v); up_ok("Up/PB",zu/xb,z.v/x); lo_ok("PB*Lo",xb*zl,x*z.v); lo_ok("Lo*PB",zl*xb,x*z.v); lo_ok("Lo/PB",zl/xb,z.v/x); up_ok("PF*Up",xp*zu,xq*z.v); up_ok("Up*PF",zu*xp,xq*z.v); up_ok("Up/PF",zu/xp,z.v/xq); lo_ok("PF*Lo",xp*zl,xq*z.v); lo_ok("Lo*PF",zl*xp,xq*z.v); lo_ok("Lo/PF",zl/xp,z.v/xq); }
    // positive bounds
    auto in=[&](std::string const& nm, Bounds<F> const& z, Q const& v) { check_in(nm,z,v); }; in("B+B",xb+yb,x+y); in("B*B",xb*yb,x*y); in("B/B",xb/yb,x/y); in("B sqr",sqr(xb),x*x); in("B rec",rec(xb),1/x); in("B max",max(xb,yb),qmax(x,y)); in("B min",min(xb,yb),qmin(x,y)); in("B hlf",hlf(xb),x/2); if (abs(x)<two_exp(200)) in("B pow",pow(xb,n),qpow(x,n)); check_in("B sqrt",Bounds<F>(sqrt(xb)),sqrt(Iv(x))); }

template<class F> void t_error(PSrc& s, PCase& c) {
    typedef Error<F> E; auto pr=FT<F>::gen_pr(s), pr2=s.chance(1,4)?FT<F>::gen_pr(s):pr; bool full=s.chance(1,5); auto g=[&](typename F::PrecisionType p) { if (s.chance(1,10)) { F z=FT<F>::of(Q(0),p); return One<F>{z,z,Q(0)}; } One<F> o=gen_one<F>(s,p,true,full); o.v=o.v*Q((long)s.range(0,16))/16; return o; };
    One<F> a=g(pr), b=g(pr2), d=g(pr); int m=(int)s.draw(3); NOTE(c,"x<=" << show(a.u) << " y<=" << show(b.u) << " z<=" << show(d.u) << " mode " << dirname(m)); c.interesting(xof(a.u).q!=0&&xof(b.u).q!=0); E x(a.u), y(b.u), z(d.u); infinite_operand=!xof(a.u).finite()||!xof(b.u).finite()||!xof(d.u).finite(); Q p=xof(a.u).q, q=xof(b.u).q, r3=xof(d.u).q; Nat n=(Nat)s.range(0,6), k=(Nat)s.range(1,1000); One<F> w=gen_one<F>(s,pr,true); Positive<F> pw(w.l); Q wq=xof(w.l).q; Positive<Bounds<F>> bw{Bounds<F>(w.l,w.u)}; Positive<UpperBound<F>> uw(w.u); Positive<LowerBound<F>> lw(w.l); F f=FT<F>::gen(s,pr,12); Q fq=xof(f).q;
    set_both_modes(m); struct R { ~R() { reset_modes(); } } rr;
    er_ok("+",x+y,p+q); er_ok("*",x*y,p*q); er_ok("add",add(x,y),p+q); er_ok("mul",mul(x,y),p*q); er_ok("sqr",sqr(x),p*p); if (p<two_exp(200)) er_ok("pow",pow(x,n),qpow(p,n)); er_ok("fma",fma(x,y,z),p*q+r3); er_ok("sqrt",sqrt(x),sqrt(Iv(p))); if (p<500) er_ok("exp",exp(x),exp(Iv(p))); if (p>0) { up_ok("log",log(x),log(Iv(p))); }
    er_ok("max",max(x,y),qmax(p,q)); er_ok("min",min(x,y),qmin(p,q)); er_ok("abs",abs(x),p); er_ok("nul",nul(x),Q(0)); er_ok("+P",x+pw,p+wq); er_ok("P+",pw+x,p+wq); er_ok("*P",x*pw,p*wq); er_ok("P*",pw*x,p*wq); er_ok("+B",x+bw,p+w.v); er_ok("B+",bw+x,p+w.v); er_ok("*B",x*bw,p*w.v); er_ok("B*",bw*x,p*w.v); er_ok("+U",x+uw,p+w.v); er_ok("U+",uw+x,p+w.v); er_ok("*U",x*uw,p*w.v); er_ok("U*",uw*x,p*w.v); er_ok("/L",x/lw,p/w.v);
    er_ok("+Nat",x+k,p+k); er_ok("Nat+",k+x,p+k); er_ok("*Nat",x*k,p*k); er_ok("Nat*",k*x,p*k); er_ok("/Nat",x/k,p/k); up_ok("Float+Error",f+x,fq+p); lo_ok("Float-Error",f-x,fq-p); lo_ok("neg",-x,Q(-p)); up_ok("pos",UpperBound<F>(+x),p); lo_ok("B-Error",bw-x,w.v-p);
    { E t=x; t+=y; er_ok("+=",t,p+q); t=x; t*=y; er_ok("*=",t,p*q); t=x; t+=uw; er_ok("+=U",t,p+w.v); t=x; t*=bw; er_ok("*=B",t,p*w.v); t=x; t+=pw; er_ok("+=P",t,p+wq); t=x; t+=t; er_ok("+= aliased",t,p+p); }
    if (!full) { near_ok<F>("error +",(x+y).raw(),p+q); near_ok<F>("error *",(x*y).raw(),p*q); }
    Bounds<F> pmx=pm(x); check_in("pm",pmx,p); check_in("pm",pmx,Q(-p)); { Bounds<F> t(f); check_in("Bounds pm",t.pm(x),Q(fq+p)); check_in("Bounds pm",t.pm(x),Q(fq-p)); Ball<F> bb=f.pm(x); check_in("Float pm",bb,Q(fq+p)); check_in("Float pm",bb,Q(fq-p)); }
    { Q e=abs(gen_q(s,40)); er_ok("Error(ValidatedUpperNumber)",E(ValidatedUpperNumber(to_rational(e)),pr),e); double dd=std::fabs(gen_double(s,12)); er_ok("Error(ExactDouble)",E(ExactDouble(dd),pr),of_double(dd)); unsigned u=(unsigned)s.draw(1u<<30); er_ok("Error(unsigned)",E(u,pr),Q(u)); }
    // a negative number is no error bound
    if (fq<0) { bool refused=false; try { E t(f); } catch (std::exception const&) { refused=true; } PBT_CHECK(refused,"negative error","an error bound was made from the negative number " << show(f)); } }
#define REG(F,n) pbt::Register F##1("directed_" n,60000,2e6,t_directed<F>,20), F##2("positive_" n,60000,2e6,t_positive<F>,20), F##3("error_" n,60000,2e6,t_error<F>,20);
REG(FloatDP,"dp") REG(FloatMP,"mp")
struct Init { Init() { pbt::set_rule("an operand's bound differs from the value bounded (errors: both operands non-zero)"); pbt::set_reset(reset_modes); pbt::add_assumption("exact rational arithmetic (GMP) and MPFR at 420 bits are right"); } } init;
}
