// C22: intervals and boxes are the sets their endpoints denote.
#include "fun_ast.hpp"
#include "geometry/interval.hpp"
#include "geometry/box.hpp"
#include "geometry/box.tpl.hpp"
#include "geometry/point.hpp"
#include "geometry/set.hpp"
#include "function/function.hpp"
namespace {
// A set known to lie between exact endpoints: tl,tu are the true endpoints of the set an interval stands for
struct E { X l,u; };                    // what the object holds
struct Tr { X l,u; };                   // what it stands for
std::string show(E const& e) { return "["+oracle::show(e.l)+":"+oracle::show(e.u)+"]"; }
std::string show(Tr const& e) { return "{"+oracle::show(e.l)+":"+oracle::show(e.u)+"}"; }
// enclosure of a number-like result
struct Rd { X l,u; bool approx=false; };
template<class F> requires (Same<F,FloatDP>||Same<F,FloatMP>||Same<F,Dyadic>||Same<F,Rational>) Rd rd(F const& x) { return {xof(x),xof(x)}; }
Rd rd(Real const& x) { FloatMPBounds b(x,MultiplePrecision(128)); return {xof(b.lower_raw()),xof(b.upper_raw())}; }
template<class F> Rd rd(Bounds<F> const& x) { return {xof(x.lower_raw()),xof(x.upper_raw())}; }
template<class F> Rd rd(Ball<F> const& x) { X v=xof(x.value_raw()), e=xof(x.error_raw()); if (!v.finite()||!e.finite()) return {X::inf(-1),X::inf(1)}; return {X(Q(v.q-e.q)),X(Q(v.q+e.q))}; }
template<class F> Rd rd(UpperBound<F> const& x) { return {X::inf(-1),xof(x.raw())}; }
template<class F> Rd rd(LowerBound<F> const& x) { return {xof(x.raw()),X::inf(1)}; }
template<class F> Rd rd(Error<F> const& x) { return {X::inf(-1),xof(x.raw())}; }
template<class F> Rd rd(Approximation<F> const& x) { return {xof(x.raw()),xof(x.raw()),true}; }
template<class A> void in(std::string const& k, A const& x, X const& v, bool tight=true) { if (v.is_nan()) return; Rd r=rd(x); PBT_CHECK(!r.l.is_nan()&&!r.u.is_nan()&&(r.approx||(le(r.l,v)&&le(v,r.u))),k,k << " is " << oracle::show(r.l) << ":" << oracle::show(r.u) << " instead of " << oracle::show(v)); if (!tight||!v.finite()) return; Q tol=(abs(v.q)+Q(1,1000000))/1000; if (r.l.kind!=-1||r.approx) PBT_CHECK(r.l.finite()&&r.l.q>=v.q-tol,k,k << " is " << oracle::show(r.l) << ":" << oracle::show(r.u) << " far from " << oracle::show(v)); if (r.u.kind!=1||r.approx) PBT_CHECK(r.u.finite()&&r.u.q<=v.q+tol,k,k << " is " << oracle::show(r.l) << ":" << oracle::show(r.u) << " far from " << oracle::show(v)); }
// kinds of interval: how the endpoints relate to the set
enum Kd { EXACT, OUTER, INNER, APPROX, FUZZY };
template<class U> struct IT;
template<class F> requires (Same<F,FloatDP>||Same<F,FloatMP>) F mkf(X const& x) { auto pr=[]{ if constexpr (Same<F,FloatDP>) return dp; else return MultiplePrecision(80); }(); if (x.kind>0) return F::inf(Sign::POSITIVE,pr); if (x.kind<0) return F::inf(Sign::NEGATIVE,pr); return FT<F>::of(x.q,pr); }
template<class F> struct ITF { static Interval<F> of(E const& e) { return Interval<F>(mkf<F>(e.l),mkf<F>(e.u)); } static const Kd kd=EXACT; static const bool infs=true; };
template<> struct IT<FloatDP> : ITF<FloatDP> { static char const* name() { return "dp"; } };
template<> struct IT<FloatMP> : ITF<FloatMP> { static char const* name() { return "mp"; } };
template<> struct IT<Dyadic> { static Interval<Dyadic> of(E const& e) { return Interval<Dyadic>(to_dyadic(e.l.q),to_dyadic(e.u.q)); } static const Kd kd=EXACT; static const bool infs=false; static char const* name() { return "dyadic"; } };
template<> struct IT<Rational> { static Interval<Rational> of(E const& e) { return Interval<Rational>(to_rational(e.l.q),to_rational(e.u.q)); } static const Kd kd=EXACT; static const bool infs=false; static char const* name() { return "rational"; } };
template<> struct IT<Real> { static Interval<Real> of(E const& e) { return Interval<Real>(Real(to_rational(e.l.q)),Real(to_rational(e.u.q))); } static const Kd kd=FUZZY; static const bool infs=false; static char const* name() { return "real"; } };
template<class F> struct IT<UpperBound<F>> { typedef UpperBound<F> U; static Interval<U> of(E const& e) { return Interval<U>(LowerBound<F>(mkf<F>(e.l)),UpperBound<F>(mkf<F>(e.u))); } static const Kd kd=OUTER; static const bool infs=true; static std::string name() { return std::string("upper_")+IT<F>::name(); } };
template<class F> struct IT<LowerBound<F>> { typedef LowerBound<F> U; static Interval<U> of(E const& e) { return Interval<U>(UpperBound<F>(mkf<F>(e.l)),LowerBound<F>(mkf<F>(e.u))); } static const Kd kd=INNER; static const bool infs=true; static std::string name() { return std::string("lower_")+IT<F>::name(); } };
template<class F> struct IT<Approximation<F>> { typedef Approximation<F> U; static Interval<U> of(E const& e) { return Interval<U>(Approximation<F>(mkf<F>(e.l)),Approximation<F>(mkf<F>(e.u))); } static const Kd kd=APPROX; static const bool infs=true; static std::string name() { return std::string("approximate_")+IT<F>::name(); } };
template<class F> struct IT<Bounds<F>> { typedef Bounds<F> U; static Interval<U> of(E const& e) { return Interval<U>(U(mkf<F>(e.l)),U(mkf<F>(e.u))); } static const Kd kd=FUZZY; static const bool infs=false; static std::string name() { return std::string("bounds_")+IT<F>::name(); } };
template<class F> struct IT<Ball<F>> { typedef Ball<F> U; static Interval<U> of(E const& e) { return Interval<U>(U(mkf<F>(e.l)),U(mkf<F>(e.u))); } static const Kd kd=FUZZY; static const bool infs=false; static std::string name() { return std::string("ball_")+IT<F>::name(); } };
// 1 true, -1 false, 0 unknown
template<class R> int tri(R const& r) { if constexpr (Same<R,bool>) return r?1:-1; else if constexpr (Same<R,Boolean>) return bool(r)?1:-1; else if constexpr (Same<R,ApproximateKleenean>) return probably(r)?1:-1; else if constexpr (requires { r.check(Effort(64)); }) return tri(r.check(Effort(64))); else if constexpr (requires { definitely(r); possibly(r); }) return definitely(r)?1:!possibly(r)?-1:0; else if constexpr (requires { definitely(r); }) return definitely(r)?1:0; else return probably(r)?1:-1; }
// truth, and whether it does not hang on an equality
struct T3 { bool t; bool strict; };
template<class R> void pchk(std::string const& k, R const& r, T3 t, Kd kd) { int w=tri(r); if (Same<R,ApproximateKleenean>&&kd!=APPROX) return; if (kd==APPROX) { PBT_CHECK((w>0)==t.t,k,k << " is " << w << " instead of " << t.t); return; } PBT_CHECK(!(w>0&&!t.t),k,k << " is true but does not hold"); PBT_CHECK(!(w<0&&t.t),k,k << " is false but holds"); bool lowerk=Same<R,ValidatedLowerKleenean>||Same<R,LowerKleenean>, upperk=Same<R,ValidatedUpperKleenean>||Same<R,UpperKleenean>; if ((kd==EXACT||(kd==FUZZY&&t.strict))&&!(lowerk&&!t.t)&&!(upperk&&t.t)) PBT_CHECK(w!=0,k,k << " is not decided"); }
T3 cle(X const& a, X const& b) { return {le(a,b),!(le(a,b)&&le(b,a))}; }
T3 clt(X const& a, X const& b) { return {lt(a,b),!(le(a,b)&&le(b,a))}; }
T3 ceq(X const& a, X const& b) { bool e=le(a,b)&&le(b,a); return {e,!e}; }
T3 operator&&(T3 a, T3 b) { bool t=a.t&&b.t; return {t,t?a.strict&&b.strict:(!a.t&&a.strict)||(!b.t&&b.strict)}; }
T3 operator||(T3 a, T3 b) { bool t=a.t||b.t; return {t,!t?a.strict&&b.strict:(a.t&&a.strict)||(b.t&&b.strict)}; }
T3 operator!(T3 a) { return {!a.t,a.strict}; }
X xadd(X const& a, Q const& d) { return a.finite()?X(Q(a.q+d)):a; }
Q gen_end(PSrc& s) { switch (s.weighted({5,3,2})) { case 0: return Q((long)s.range(-4,4)); case 1: return Q((long)s.range(-16,16))/8; default: return Q((long)s.range(-4096,4096))/1024; } }
E gen_ivl(PSrc& s, bool infs, bool empty) { Q a=gen_end(s), b=gen_end(s); if (s.chance(1,8)) b=a; if (a>b&&!(empty&&s.chance(1,4))) std::swap(a,b); E e{X(a),X(b)}; if (infs&&s.chance(1,10)) { switch (s.draw(empty?4:3)) { case 0: e.l=X::inf(-1); break; case 1: e.u=X::inf(1); break; case 2: e.l=X::inf(-1); e.u=X::inf(1); break; default: e.l=X::inf(1); e.u=X::inf(-1); } } return e; }
Tr gen_true(PSrc& s, E const& e, Kd kd) { Tr t{e.l,e.u}; if (kd==OUTER) { Q d1=s.boolean()?Q(0):Q((long)s.range(0,16))/16, d2=s.boolean()?Q(0):Q((long)s.range(0,16))/16; t.l=e.l.kind<0&&s.boolean()?X(Q(-5)):xadd(e.l,d1); t.u=e.u.kind>0&&s.boolean()?X(Q(5)):xadd(e.u,-d2); if (!le(t.l,t.u)&&le(e.l,e.u)) { t.l=e.l; t.u=e.u; } } if (kd==INNER) { t.l=xadd(e.l,s.boolean()?Q(0):Q((long)-s.range(0,16))/16); t.u=xadd(e.u,s.boolean()?Q(0):Q((long)s.range(0,16))/16); } return t; }
Kd comb(Kd a, Kd b) { if (a==APPROX||b==APPROX) return APPROX; if (a==OUTER||a==INNER||b==OUTER||b==INNER) return OUTER; return a==FUZZY||b==FUZZY?FUZZY:EXACT; }
#define TRY(NAME,EXPR,TRUTH,KD) if constexpr (requires { tri(EXPR); }) { c.label(NAME); pchk(pre+NAME,EXPR,TRUTH,KD); }
template<class U> void ivl_is(std::string const& k, Interval<U> const& r, Tr const& t, Kd kd, bool tight=true) { // r is allowed to stand for t
    Rd l=rd(r.lower_bound()), u=rd(r.upper_bound()); in(k+" lower bound",r.lower_bound(),t.l,tight); in(k+" upper bound",r.upper_bound(),t.u,tight); (void)l; (void)u; (void)kd; }
// generic lambdas delay the lookup, so that combinations the library does not provide are skipped
template<class U> void unary_checks(PSrc& s, PCase& c) { typedef IT<U> T; const Kd kd=T::kd; std::string pre=std::string(T::name())+" "; E e=gen_ivl(s,T::infs,true); Tr t=gen_true(s,e,kd); auto iv=T::of(e); NOTE(c,pre << show(e) << " standing for " << show(t)); bool ne=le(t.l,t.u); c.interesting(ne&&!le(t.u,t.l));
    ivl_is(pre+"bounds",iv,t,kd,false); ivl_is(pre+"bounds held",iv,Tr{e.l,e.u},kd); X held_l=rd(iv.lower_bound()).l.finite()?rd(iv.lower_bound()).l:e.l; (void)held_l;
    TRY("is_empty",iv.is_empty(),!cle(t.l,t.u),kd) TRY("is_empty function",is_empty(iv),!cle(t.l,t.u),kd) TRY("is_singleton",iv.is_singleton(),ceq(t.l,t.u),kd) TRY("is_singleton function",is_singleton(iv),ceq(t.l,t.u),kd)
    if constexpr (T::infs||Same<U,Real>) if (ne) { T3 bd{t.l.kind!=-1&&t.u.kind!=1,true}; TRY("is_bounded",iv.is_bounded(),bd,kd) TRY("is_bounded function",is_bounded(iv),bd,kd) }
    if (ne&&t.l.finite()&&t.u.finite()) { if constexpr (requires { rd(iv.width()); }) in(pre+"width",iv.width(),X(Q(t.u.q-t.l.q)),kd==EXACT||kd==APPROX); if constexpr (requires { rd(width(iv)); }) in(pre+"width function",width(iv),X(Q(t.u.q-t.l.q)),kd==EXACT||kd==APPROX); }
    if (le(e.l,e.u)&&e.l.finite()&&e.u.finite()) { if constexpr (requires { rd(iv.centre()); }) { in(pre+"centre",iv.centre(),X(Q((e.l.q+e.u.q)/2))); in(pre+"centre function",centre(iv),X(Q((e.l.q+e.u.q)/2))); }
        if constexpr (requires { rd(iv.midpoint()); }) { Rd m=rd(iv.midpoint()); Rd m2=rd(midpoint(iv)); PBT_CHECK(same(m.l,m2.l),pre+"midpoint","midpoint member and function differ"); if (m.l.finite()&&same(m.l,m.u)) { PBT_CHECK(le(e.l,m.l)&&le(m.u,e.u),pre+"midpoint","midpoint " << oracle::show(m.l) << " is outside the interval"); Q w=e.u.q-e.l.q; PBT_CHECK(abs(m.l.q-(e.l.q+e.u.q)/2)<=w/64+abs(e.l.q+e.u.q)*two_exp(-50),pre+"midpoint","midpoint " << oracle::show(m.l) << " is far from the centre"); if constexpr (requires { rd(iv.radius()); }) { Q rr=qmax(Q(e.u.q-m.l.q),Q(m.l.q-e.l.q)); Rd r=rd(iv.radius()), r2=rd(radius(iv)); PBT_CHECK(same(r.u,r2.u),pre+"radius","radius member and function differ"); if (r.u.finite()) PBT_CHECK(r.approx||(r.u.q>=rr&&r.u.q<=rr+rr/1000+Q(1,1000000)),pre+"radius","radius " << oracle::show(r.u) << " for an interval with midpoint " << oracle::show(m.l)); if (r.approx) PBT_CHECK(r.u.finite()&&abs(r.u.q-rr)<=rr/1000+Q(1,1000000),pre+"radius","approximate radius " << oracle::show(r.u)); } } else if constexpr (requires { iv.midpoint(); }) in(pre+"midpoint",iv.midpoint(),X(Q((e.l.q+e.u.q)/2))); }
        if constexpr (requires { split(iv); }) { auto p=split(iv); auto lo=split(iv,SplitPart::LOWER), up=split(iv,SplitPart::UPPER), mi=split(iv,SplitPart::MIDDLE); auto num=[&](auto const& v, int side){ Rd r=rd(v); (void)side; if (r.l.finite()&&r.u.finite()) return Q((r.l.q+r.u.q)/2); return r.l.finite()?r.l.q:r.u.q; }; Q l1=num(p.first.lower_bound(),0), u1=num(p.first.upper_bound(),1), l2=num(p.second.lower_bound(),0), u2=num(p.second.upper_bound(),1); Q w=e.u.q-e.l.q, tol=w/1000+two_exp(-40); PBT_CHECK(abs(l1-e.l.q)<=tol*0+two_exp(-90)&&abs(u2-e.u.q)<=two_exp(-90),pre+"split ends","split changes the ends"); PBT_CHECK(kd==FUZZY||u1==l2,pre+"split","the halves do not meet: " << oracle::dec(u1) << " and " << oracle::dec(l2)); PBT_CHECK(abs(u1-(e.l.q+e.u.q)/2)<=tol&&abs(l2-u1)<=tol,pre+"split","the halves are not equal"); PBT_CHECK(u1>=e.l.q&&u1<=e.u.q,pre+"split","the split point is outside");
            Q ll=num(lo.lower_bound(),0), lu=num(lo.upper_bound(),1), ul=num(up.lower_bound(),0), uu=num(up.upper_bound(),1), ml=num(mi.lower_bound(),0), mu=num(mi.upper_bound(),1); PBT_CHECK(ll==l1&&(kd==FUZZY||lu==u1)&&abs(lu-u1)<=tol,pre+"split lower","the lower part is " << oracle::dec(ll) << ":" << oracle::dec(lu)); PBT_CHECK(uu==u2&&(kd==FUZZY||ul==l2)&&abs(ul-l2)<=tol,pre+"split upper","the upper part is " << oracle::dec(ul) << ":" << oracle::dec(uu)); PBT_CHECK(abs(ml-(3*e.l.q+e.u.q)/4)<=tol&&abs(mu-(e.l.q+3*e.u.q)/4)<=tol,pre+"split middle","the middle part is " << oracle::dec(ml) << ":" << oracle::dec(mu)); c.label("split"); } }
    // points
    for (int i=0;i<2;++i) { Q q=s.boolean()&&e.l.finite()?e.l.q:s.boolean()&&e.u.finite()?e.u.q:gen_end(s); T3 ct=cle(t.l,X(q))&&cle(X(q),t.u); NOTE(c,pre << show(e) << " standing for " << show(t) << " and point " << oracle::dec(q)); auto pt=[&](auto const& x, Kd k2, std::string const& xn) { if (kd==APPROX&&k2!=EXACT&&k2!=APPROX) return; T3 ct=kd!=APPROX&&k2!=APPROX?cle(t.l,X(q))&&cle(X(q),t.u):cle(e.l,X(q))&&cle(X(q),e.u); if constexpr (requires { tri(contains(iv,x)); }) { c.label("contains "+xn); pchk(pre+"contains "+xn,contains(iv,x),ct,comb(kd,k2)); } if constexpr (requires { tri(element(x,iv)); }) { c.label("element "+xn); pchk(pre+"element "+xn,element(x,iv),ct,comb(kd,k2)); } };
        pt(mkf<FloatDP>(X(q)),EXACT,"dp"); pt(mkf<FloatMP>(X(q)),EXACT,"mp"); pt(to_dyadic(q),EXACT,"dyadic"); pt(to_rational(q),EXACT,"rational"); pt(Real(to_rational(q)),FUZZY,"real"); Q d=Q((long)s.range(0,3))/8; FloatDPBounds b(mkf<FloatDP>(X(Q(q-d))),mkf<FloatDP>(X(Q(q+(s.boolean()?Q(0):d))))); pt(b,d==0?FUZZY:OUTER,"bounds"); pt(FloatDPApproximation(mkf<FloatDP>(X(q))),APPROX,"approximation"); pt(FloatDPUpperBound(mkf<FloatDP>(X(Q(q+d)))),OUTER,"upper"); pt(FloatDPLowerBound(mkf<FloatDP>(X(Q(q-d)))),OUTER,"lower");
        auto hl=[&](auto const& x){ if constexpr (requires { hull(iv,x).lower_bound(); rd(hull(iv,x).lower_bound()); }) if (ne) { Tr h{le(X(q),t.l)?X(q):t.l,le(t.u,X(q))?X(q):t.u}; c.label("hull point"); Tr g{le(X(q),e.l)?X(q):e.l,le(e.u,X(q))?X(q):e.u}; ivl_is(pre+"hull with point",hull(iv,x),h,kd,false); ivl_is(pre+"hull of point and interval",hull(x,iv),h,kd,false); ivl_is(pre+"hull with point held",hull(iv,x),g,kd); ivl_is(pre+"hull of point and interval held",hull(x,iv),g,kd); } }; hl(mkf<FloatDP>(X(q))); hl(to_dyadic(q)); hl(to_rational(q)); }
    { auto z=iv.create_zero(); in(pre+"create_zero",z.lower_bound(),X(Q(0))); in(pre+"create_zero",z.upper_bound(),X(Q(0))); }
    if constexpr (requires { tri(equal(iv,iv)); }) { }
}
template<class U1, class U2> void binary_checks(PSrc& s, PCase& c, E const& e1, E const& e2, Tr t1, Tr t2) { typedef IT<U1> T1; typedef IT<U2> T2; Kd kd=comb(T1::kd,T2::kd); if (kd==APPROX) { t1=Tr{e1.l,e1.u}; t2=Tr{e2.l,e2.u}; } std::string pre=std::string(T1::name())+" "+T2::name()+" "; auto a=T1::of(e1); auto b=T2::of(e2); NOTE(c,pre << show(e1) << " standing for " << show(t1) << " and " << show(e2) << " standing for " << show(t2));
    bool ne=le(t1.l,t1.u)&&le(t2.l,t2.u);
    if (ne) { 
    TRY("subset",subset(a,b),cle(t2.l,t1.l)&&cle(t1.u,t2.u),kd) TRY("superset",superset(a,b),cle(t1.l,t2.l)&&cle(t2.u,t1.u),kd) TRY("disjoint",disjoint(a,b),clt(t2.u,t1.l)||clt(t1.u,t2.l),kd) TRY("intersect",intersect(a,b),cle(t1.l,t2.u)&&cle(t2.l,t1.u),kd) TRY("separated",separated(a,b),clt(t2.u,t1.l)||clt(t1.u,t2.l),kd) TRY("overlap",overlap(a,b),clt(t1.l,t2.u)&&clt(t2.l,t1.u),kd) TRY("inside",inside(a,b),clt(t2.l,t1.l)&&clt(t1.u,t2.u),kd) TRY("covers",covers(a,b),clt(t1.l,t2.l)&&clt(t2.u,t1.u),kd)
    if constexpr (!Same<U1,Real>) TRY("equal",equal(a,b),ceq(t1.l,t2.l)&&ceq(t1.u,t2.u),kd) }
    if constexpr (Same<U1,U2>&&(T1::kd==EXACT||T1::kd==FUZZY)) { TRY("==",a==b,ceq(t1.l,t2.l)&&ceq(t1.u,t2.u),kd) TRY("!=",a!=b,!(ceq(t1.l,t2.l)&&ceq(t1.u,t2.u)),kd) }
    auto mx=[](X const& p, X const& q){ return le(p,q)?q:p; }; auto mn=[](X const& p, X const& q){ return le(p,q)?p:q; };
    if constexpr (requires { intersection(a,b); rd(intersection(a,b).lower_bound()); }) { c.label("intersection"); ivl_is(pre+"intersection",intersection(a,b),Tr{mx(t1.l,t2.l),mn(t1.u,t2.u)},kd,false); if (kd==EXACT) ivl_is(pre+"intersection",intersection(a,b),Tr{mx(t1.l,t2.l),mn(t1.u,t2.u)},kd,true); if (T1::kd==T2::kd||kd==APPROX) ivl_is(pre+"intersection of held",intersection(a,b),Tr{mx(e1.l,e2.l),mn(e1.u,e2.u)},kd,true); }
    if constexpr (requires { hull(a,b); rd(hull(a,b).lower_bound()); }) if (ne) { c.label("hull"); ivl_is(pre+"hull",hull(a,b),Tr{mn(t1.l,t2.l),mx(t1.u,t2.u)},kd,false); ivl_is(pre+"hull of held",hull(a,b),Tr{mn(e1.l,e2.l),mx(e1.u,e2.u)},kd,true); }
    if constexpr (Same<U1,U2>&&T1::kd==OUTER) { auto r=refinement(a,b); ivl_is(pre+"refinement",r,Tr{mx(e1.l,e2.l),mn(e1.u,e2.u)},kd,true); PBT_CHECK(refines(a,b)==(le(e2.l,e1.l)&&le(e1.u,e2.u)),pre+"refines","refines is " << refines(a,b)); PBT_CHECK(Ariadne::same(a,b)==(oracle::same(e2.l,e1.l)&&oracle::same(e1.u,e2.u)),pre+"same","same is " << Ariadne::same(a,b)); PBT_CHECK(refines(r,a)&&refines(r,b),pre+"refinement","the refinement does not refine its arguments"); } }
template<class U1, class U2> void t_pair(PSrc& s, PCase& c) { E e1=gen_ivl(s,IT<U1>::infs&&IT<U2>::infs,true), e2=gen_ivl(s,IT<U1>::infs&&IT<U2>::infs,true); if (s.chance(1,6)&&e1.l.finite()&&e2.u.finite()) e2.u=e1.l; if (s.chance(1,6)&&e1.l.finite()&&e2.l.finite()) e2.l=e1.l; if (s.chance(1,6)&&e1.u.finite()&&e2.u.finite()) e2.u=e1.u; if (s.chance(1,6)&&e1.u.finite()&&e2.l.finite()) e2.l=e1.u; Tr t1=gen_true(s,e1,IT<U1>::kd), t2=gen_true(s,e2,IT<U2>::kd); c.interesting(le(e1.l,e1.u)&&le(e2.l,e2.u)&&le(e1.l,e2.u)&&le(e2.l,e1.u)); binary_checks<U1,U2>(s,c,e1,e2,t1,t2); binary_checks<U2,U1>(s,c,e2,e1,t2,t1); }
template<class U> void t_kind(PSrc& s, PCase& c) { unary_checks<U>(s,c); t_pair<U,U>(s,c); }
void t_exact(PSrc& s, PCase& c) { switch (s.draw(5)) { case 0: return t_kind<FloatDP>(s,c); case 1: return t_kind<FloatMP>(s,c); case 2: return t_kind<Dyadic>(s,c); case 3: return t_kind<Rational>(s,c); default: return t_kind<Real>(s,c); } }
template<class F> void t_float(PSrc& s, PCase& c) { switch (s.draw(5)) { case 0: return t_kind<UpperBound<F>>(s,c); case 1: return t_kind<LowerBound<F>>(s,c); case 2: return t_kind<Approximation<F>>(s,c); case 3: return t_kind<Bounds<F>>(s,c); default: return t_kind<Ball<F>>(s,c); } }
template<class F> void t_mixed(PSrc& s, PCase& c) { switch (s.draw(7)) { case 0: return t_pair<F,UpperBound<F>>(s,c); case 1: return t_pair<F,LowerBound<F>>(s,c); case 2: return t_pair<UpperBound<F>,LowerBound<F>>(s,c); case 3: return t_pair<F,Approximation<F>>(s,c); case 4: return t_pair<UpperBound<F>,Approximation<F>>(s,c); case 5: return t_pair<F,Dyadic>(s,c); default: return t_pair<Dyadic,Rational>(s,c); } }
// constructions and conversions
void outer(std::string const& k, X const& l, X const& u, X const& el, X const& eu, Q const& tol) { PBT_CHECK(le(l,el)&&le(eu,u),k,k << " gives [" << oracle::show(l) << ":" << oracle::show(u) << "], not containing [" << oracle::show(el) << ":" << oracle::show(eu) << "]"); if (el.finite()&&eu.finite()) PBT_CHECK(l.finite()&&u.finite()&&l.q>=el.q-tol&&u.q<=eu.q+tol,k+" wide",k << " gives [" << oracle::show(l) << ":" << oracle::show(u) << "] for [" << oracle::show(el) << ":" << oracle::show(eu) << "]"); }
template<class F> void t_convert(PSrc& s, PCase& c) { typedef typename F::PrecisionType PR; PR pr=FT<F>::gen_pr(s); Q a=gen_small_q(s,8), b=s.boolean()?a+abs(gen_small_q(s,2)):gen_small_q(s,8); if (a>b) std::swap(a,b); std::string n=FT<F>::name(); NOTE(c,n << " [" << oracle::dec(a) << ":" << oracle::dec(b) << "] bits " << FT<F>::bits(pr)); Q tol=(1+abs(a)+abs(b))*two_exp(-(long)FT<F>::bits(pr)+2); Interval<Rational> r(to_rational(a),to_rational(b)); c.interesting(a!=b);
    { Interval<UpperBound<F>> u(r,pr); outer(n+" upper interval",xof(u.lower_bound().raw()),xof(u.upper_bound().raw()),X(a),X(b),tol); Interval<UpperBound<F>> u2(to_rational(a),to_rational(b),pr); PBT_CHECK(Ariadne::same(u,u2),n+" upper interval","construction from endpoints differs"); Box<Interval<UpperBound<F>>> bx(Box<Interval<Rational>>(2,r),pr); PBT_CHECK(Ariadne::same(u,bx[0])&&Ariadne::same(u,bx[1]),n+" upper box","conversion of a box differs"); auto x=cast_singleton(u); PBT_CHECK(oracle::same(xof(x.lower_raw()),xof(u.lower_bound().raw()))&&oracle::same(xof(x.upper_raw()),xof(u.upper_bound().raw())),n+" cast_singleton","cast_singleton changes the bounds"); PBT_CHECK(Ariadne::same(make_interval(x),u),n+" make_interval","make_interval changes the bounds"); auto ce=cast_exact(u); PBT_CHECK(oracle::same(xof(ce.lower_bound()),xof(u.lower_bound().raw()))&&oracle::same(xof(ce.upper_bound()),xof(u.upper_bound().raw())),n+" cast_exact","cast_exact changes the bounds"); Interval<UpperBound<F>> bk(ce); PBT_CHECK(Ariadne::same(bk,u),n+" exact to upper","conversion of an exact interval changes the bounds"); auto cs=cast_singleton(r,pr); outer(n+" cast_singleton of rationals",xof(cs.lower_raw()),xof(cs.upper_raw()),X(a),X(b),tol);
        Interval<Approximation<F>> ap(u); PBT_CHECK(oracle::same(xof(ap.lower_bound().raw()),xof(u.lower_bound().raw()))&&oracle::same(xof(ap.upper_bound().raw()),xof(u.upper_bound().raw())),n+" upper to approximate","conversion changes the bounds"); auto ca=cast_exact(ap); auto ci=cast_exact_interval(ap); PBT_CHECK(oracle::same(xof(ca.lower_bound()),xof(ap.lower_bound().raw()))&&oracle::same(xof(ci.upper_bound()),xof(ap.upper_bound().raw()))&&oracle::same(xof(ci.lower_bound()),xof(ap.lower_bound().raw()))&&oracle::same(xof(ca.upper_bound()),xof(ap.upper_bound().raw())),n+" cast_exact of approximate","cast_exact changes the bounds");
        // widening and narrowing
        if (Same<F,FloatMP>&&(a==0||b==0)) return; // the smallest number of multiple precision is too small for exact arithmetic
        auto w=widen(u); PBT_CHECK(lt(xof(w.lower_bound().raw()),xof(u.lower_bound().raw()))&&lt(xof(u.upper_bound().raw()),xof(w.upper_bound().raw())),n+" widen","widening does not put the interval in the interior"); outer(n+" widen",xof(w.lower_bound().raw()),xof(w.upper_bound().raw()),X(a),X(b),2*tol); auto w2=widen(ce); PBT_CHECK(lt(xof(w2.lower_bound().raw()),xof(u.lower_bound().raw()))&&lt(xof(u.upper_bound().raw()),xof(w2.upper_bound().raw())),n+" widen exact","widening does not put the interval in the interior"); Q eq=abs(gen_small_q(s,2)); UpperBound<F> ep(FT<F>::of(eq,pr)); X ex=xof(ep.raw()); auto we=widen(u,ep); outer(n+" widen by",xof(we.lower_bound().raw()),xof(we.upper_bound().raw()),X(Q(xof(u.lower_bound().raw()).q-ex.q)),X(Q(xof(u.upper_bound().raw()).q+ex.q)),4*tol+Q(4)*two_exp(-(long)FT<F>::bits(pr)));
        Interval<LowerBound<F>> lo(ce); auto nr=narrow(lo); PBT_CHECK(lt(xof(lo.lower_bound().raw()),xof(nr.lower_bound().raw()))&&lt(xof(nr.upper_bound().raw()),xof(lo.upper_bound().raw())),n+" narrow","narrowing does not give a subset of the interior"); outer(n+" narrow",xof(lo.lower_bound().raw()),xof(lo.upper_bound().raw()),xof(nr.lower_bound().raw()),xof(nr.upper_bound().raw()),2*tol); auto n2=narrow(ce); PBT_CHECK(oracle::same(xof(n2.lower_bound().raw()),xof(nr.lower_bound().raw()))&&oracle::same(xof(n2.upper_bound().raw()),xof(nr.upper_bound().raw())),n+" narrow exact","narrowing an exact interval differs"); auto ne=narrow(lo,ep); outer(n+" narrow by",X(Q(xof(lo.lower_bound().raw()).q+ex.q)),X(Q(xof(lo.upper_bound().raw()).q-ex.q)),xof(ne.lower_bound().raw()),xof(ne.upper_bound().raw()),4*tol+Q(4)*two_exp(-(long)FT<F>::bits(pr)));
        if constexpr (Same<F,FloatDP>) { auto d=widen_domain(u); outer("widen_domain",xof(d.lower_bound()),xof(d.upper_bound()),xof(u.lower_bound().raw()),xof(u.upper_bound().raw()),(1+abs(a)+abs(b))*two_exp(-21)); auto ad=approximate_domain(u); PBT_CHECK(abs(xof(ad.lower_bound()).q-a)<=(1+abs(a))*two_exp(-21)&&abs(xof(ad.upper_bound()).q-b)<=(1+abs(b))*two_exp(-21),"approximate_domain","the domain is far from the interval"); if (a!=b&&b-a>Q(1,1000)) PBT_CHECK(lt(xof(ad.lower_bound()),xof(ad.upper_bound())),"approximate_domain","empty domain"); 
            FloatDPUpperBox ub(2,u); auto wb=widen(ub); PBT_CHECK(Ariadne::same(wb[0],w)&&Ariadne::same(wb[1],w),"widen box","widening a box differs from its sides"); auto wbe=widen(ub,ep); PBT_CHECK(Ariadne::same(wbe[1],we),"widen box by","widening a box differs from its sides"); auto wd=widen_domain(ub); PBT_CHECK(oracle::same(xof(wd[1].lower_bound()),xof(d.lower_bound()))&&oracle::same(xof(wd[0].upper_bound()),xof(d.upper_bound())),"widen_domain box","widening a box differs from its sides"); FloatDPExactBox eb(2,ce); auto web=widen(eb,ep.raw()); PBT_CHECK(Ariadne::same(web[1],we),"widen exact box by","widening a box differs from its sides"); FloatDPLowerBox lb(2,lo); auto nb=narrow(lb); PBT_CHECK(oracle::same(xof(nb[1].lower_bound().raw()),xof(nr.lower_bound().raw()))&&oracle::same(xof(nb[1].upper_bound().raw()),xof(nr.upper_bound().raw())),"narrow box","narrowing a box differs from its sides"); auto nbe=narrow(lb,ep); PBT_CHECK(oracle::same(xof(nbe[1].lower_bound().raw()),xof(ne.lower_bound().raw()))&&oracle::same(xof(nbe[0].upper_bound().raw()),xof(ne.upper_bound().raw())),"narrow box by","narrowing a box differs from its sides"); auto sv=cast_singleton(ub); PBT_CHECK(oracle::same(xof(sv[1].lower_raw()),xof(u.lower_bound().raw()))&&oracle::same(xof(sv[0].upper_raw()),xof(u.upper_bound().raw())),"cast_singleton box","cast_singleton changes the bounds"); } }
    { Interval<LowerBound<F>> l(to_rational(a),to_rational(b),pr); if (le(xof(l.lower_bound().raw()),xof(l.upper_bound().raw()))) outer(n+" lower interval",X(a),X(b),xof(l.lower_bound().raw()),xof(l.upper_bound().raw()),tol); PBT_CHECK(le(X(a),xof(l.lower_bound().raw()))&&le(xof(l.upper_bound().raw()),X(b)),n+" lower interval","under-approximation [" << oracle::show(xof(l.lower_bound().raw())) << ":" << oracle::show(xof(l.upper_bound().raw())) << "] is too big"); }
    { Interval<Approximation<F>> p(to_rational(a),to_rational(b),pr); PBT_CHECK(abs(xof(p.lower_bound().raw()).q-a)<=tol&&abs(xof(p.upper_bound().raw()).q-b)<=tol,n+" approximate interval","bounds are far off"); }
    { Interval<Bounds<F>> p(to_rational(a),to_rational(b),pr); in(n+" bounds interval",p.lower_bound(),X(a),false); in(n+" bounds interval",p.upper_bound(),X(b),false); }
    if constexpr (Same<F,FloatDP>) { auto em=FloatDPExactInterval::empty_interval(); PBT_CHECK(bool(em.is_empty()),"empty_interval","the empty interval is not empty"); auto un=FloatDPExactInterval::unit_interval(); PBT_CHECK(xof(un.lower_bound()).q==-1&&xof(un.upper_bound()).q==1,"unit_interval","wrong unit interval"); auto bi=FloatDPExactInterval::biinfinite_interval(); PBT_CHECK(xof(bi.lower_bound()).kind==-1&&xof(bi.upper_bound()).kind==1,"biinfinite_interval","wrong interval"); }
}
// arithmetic
template<class F> void t_arith(PSrc& s, PCase& c) { typedef typename F::PrecisionType PR; typedef Interval<UpperBound<F>> I; PR pr=FT<F>::gen_pr(s); std::string n=FT<F>::name(); auto g=[&]{ Q a=gen_small_q(s,4), b=s.chance(1,4)?a:gen_small_q(s,4); if (a>b) std::swap(a,b); F l=FT<F>::of(a,pr), u=FT<F>::of(b,pr); return I(LowerBound<F>(l),UpperBound<F>(u)); }; auto L=[](I const& i){ return xof(i.lower_bound().raw()); }; auto U=[](I const& i){ return xof(i.upper_bound().raw()); }; I a=g(), b=g(); Q p=gen_in(s,L(a),U(a)), q=gen_in(s,L(b),U(b)); NOTE(c,n << " bits " << FT<F>::bits(pr) << " [" << oracle::show(L(a)) << ":" << oracle::show(U(a)) << "] [" << oracle::show(L(b)) << ":" << oracle::show(U(b)) << "] at " << oracle::dec(p) << "," << oracle::dec(q)); c.interesting(lt(L(a),U(a))&&lt(L(b),U(b)));
    auto ck=[&](std::string const& k, I const& r, Iv const& v){ X l=L(r), u=U(r); PBT_CHECK(!l.is_nan()&&!u.is_nan()&&!surely_less(v,l)&&!surely_greater(v,u),n+" "+k,k << " gives [" << oracle::show(l) << ":" << oracle::show(u) << "] without " << oracle::show(v)); }; Iv P(p), R(q); Bounds<F> B(b.lower_bound(),b.upper_bound());
    Q wa=U(a).q-L(a).q, wb=U(b).q-L(b).q, mg=qmax(qmax(abs(L(a).q),abs(U(a).q)),qmax(abs(L(b).q),abs(U(b).q)))+1, tol=mg*mg*two_exp(-(long)FT<F>::bits(pr)+6); auto nw=[&](std::string const& k, I const& r, Q w){ PBT_CHECK(L(r).finite()&&U(r).finite()&&U(r).q-L(r).q<=w+tol,n+" "+k+" wide",k << " gives [" << oracle::show(L(r)) << ":" << oracle::show(U(r)) << "]"); };
    ck("add",a+b,P+R); ck("add function",add(a,b),P+R); nw("add",a+b,wa+wb); ck("sub",a-b,P-R); ck("sub function",sub(a,b),P-R); nw("sub",a-b,wa+wb); ck("mul",a*b,P*R); ck("mul function",mul(a,b),P*R); nw("mul",a*b,2*mg*(wa+wb)); ck("pos",+a,P); ck("neg",-a,-P); nw("neg",-a,wa); ck("pos function",pos(a),P); ck("neg function",neg(a),-P); ck("sqr",sqr(a),P*P); PBT_CHECK(L(sqr(a)).q>=0,n+" sqr","square has a negative lower bound"); ck("hlf",hlf(a),P*Iv(Q(1,2))); ck("nul",nul(a),Iv(0)); ck("max",max(a,b),max(P,R)); ck("min",min(a,b),min(P,R)); ck("abs",abs(a),abs(P)); nw("max",max(a,b),wa+wb); nw("abs",abs(a),wa); { int k=(int)s.range(0,5); ck("pow",pow(a,(Nat)k),ipow(P,k)); ck("pow int",pow(a,k),ipow(P,k)); }
    { I r=a; r+=b; ck("+=",r,P+R); r=a; r-=b; ck("-=",r,P-R); r=a; r*=b; ck("*=",r,P*R); } { I r=a; r=fma(a,b,a); ck("fma",r,P*R+P); } 
    bool bz=L(b).q<=0&&U(b).q>=0; if (q!=0) { ck("div",a/b,P/R); ck("div function",div(a,b),P/R); ck("rec",rec(b),Iv(1)/R); I r=a; r/=b; ck("/=",r,P/R); } if (!bz) { Q m=qmin(abs(L(b).q),abs(U(b).q)); if (m>Q(1,8)) nw("div",a/b,64*mg*(wa+wb)+tol*64); }
    ck("exp",exp(a),exp(P)); ck("sin",sin(a),sin(P)); ck("cos",cos(a),cos(P)); ck("atan",atan(a),atan(P)); if (L(a).q>Q(-3,2)&&U(a).q<Q(3,2)) ck("tan",tan(a),tan(P)); if (L(a).q>=-1&&U(a).q<=1&&!Same<F,FloatMP>) { }
    if (p>=0) { ck("sqrt",sqrt(a),sqrt(P)); ck("sqrt negative branch",sqrt(a),-sqrt(P)); } if (U(a).q<0) PBT_CHECK(lt(U(sqrt(a)),L(sqrt(a))),n+" sqrt","square root of a negative interval is not empty"); if (p>0) ck("log",log(a),log(P)); if (U(a).q<=0) PBT_CHECK(lt(U(log(a)),L(log(a))),n+" log","logarithm of a nonpositive interval is not empty");
    { X m=xof(mag(a).raw()); PBT_CHECK(m.finite()&&m.q>=abs(p)&&m.q==qmax(abs(L(a).q),abs(U(a).q)),n+" mag","magnitude is " << oracle::show(m)); X g2=xof(mig(a).raw()); PBT_CHECK(g2.finite()&&g2.q<=abs(p),n+" mig","mignitude is " << oracle::show(g2)); if (!(L(a).q<=0&&U(a).q>=0)) PBT_CHECK(g2.q==qmin(abs(L(a).q),abs(U(a).q)),n+" mig","mignitude is " << oracle::show(g2)); }
    // mixed operands
    F f=FT<F>::of(q,pr); Q fq=xof(f).q; Iv Fq(fq); ck("add float",a+f,P+Fq); ck("float add",f+a,P+Fq); ck("mul float",a*f,P*Fq); ck("float mul",f*a,P*Fq); ck("add bounds",a+B,P+R); ck("bounds add",B+a,P+R); ck("sub bounds",a-B,P-R); ck("bounds sub",B-a,R-P); ck("mul bounds",a*B,P*R); ck("bounds mul",B*a,P*R); if (q!=0&&!bz) ck("div bounds",a/B,P/R); if (p!=0&&!(L(a).q<=0&&U(a).q>=0)) ck("bounds div",B/a,R/P);
    ValidatedNumber y(to_rational(q)); if constexpr (requires { a+y; a*y; y-a; }) { c.label("number"); ck("add number",a+y,P+R); ck("number add",y+a,P+R); ck("sub number",a-y,P-R); ck("number sub",y-a,R-P); ck("mul number",a*y,P*R); ck("number mul",y*a,P*R); if (abs(q)>Q(1,100)) ck("div number",a/y,P/R); if (!(L(a).q<=0&&U(a).q>=0)) ck("number div",y/a,R/P); I r=factory(a).create(y); ck("factory",r,R); I z=a; z=z*0; (void)z; }
    // comparisons of the numbers the intervals may stand for
    auto cmp=[&](std::string const& k, auto const& r, bool t){ int w=tri(r); PBT_CHECK(!(w>0&&!t)&&!(w<0&&t),n+" "+k,k << " is " << w << " but may be " << t); }; cmp("<",a<b,p<q); cmp(">",a>b,p>q); cmp("<=",a<=b,p<=q); cmp(">=",a>=b,p>=q); if (U(a).q<L(b).q) PBT_CHECK(definitely(a<b)&&definitely(b>a),n+" <","order of disjoint intervals is not decided"); if constexpr (requires { a==B; }) { }
    // approximate intervals
    typedef Interval<Approximation<F>> A; A x(a), z(b); auto ca=[&](std::string const& k, A const& r, Q l, Q u){ PBT_CHECK(abs(xof(r.lower_bound().raw()).q-l)<=tol&&abs(xof(r.upper_bound().raw()).q-u)<=tol,n+" approximate "+k,k << " gives [" << oracle::show(xof(r.lower_bound().raw())) << ":" << oracle::show(xof(r.upper_bound().raw())) << "] instead of [" << oracle::dec(l) << ":" << oracle::dec(u) << "]"); }; Q al=L(a).q, au=U(a).q, bl=L(b).q, bu=U(b).q; ca("add",add(x,z),al+bl,au+bu); ca("sub",sub(x,z),al-bu,au-bl); ca("mul",mul(x,z),qmin(qmin(al*bl,al*bu),qmin(au*bl,au*bu)),qmax(qmax(al*bl,al*bu),qmax(au*bl,au*bu))); X m=xof(mag(x).raw()); PBT_CHECK(m.q==qmax(abs(al),abs(au)),n+" approximate mag","magnitude is " << oracle::show(m)); }
// boxes
template<class U> void t_box(PSrc& s, PCase& c) { typedef IT<U> T; typedef Interval<U> I; typedef Box<I> B; const Kd kd=T::kd; std::string pre=std::string(T::name())+" box "; size_t n=s.chance(1,12)?0:1+s.draw(4); std::vector<E> e1,e2; std::vector<Tr> t1,t2; std::vector<I> v1,v2; std::ostringstream lg; bool em1=s.chance(1,6), em2=s.chance(1,6), inf1=s.chance(1,4)&&T::infs; auto near=[&](E const& e){ E r=gen_ivl(s,inf1,em2); switch (s.draw(5)) { case 0: r=e; break; case 1: if (e.l.finite()&&r.u.finite()&&le(r.l,e.l)) r.u=e.l; break; case 2: if (e.l.finite()&&e.u.finite()) { r.l=X(Q(e.l.q-Q((long)s.range(-1,2))/8)); r.u=X(Q(e.u.q+Q((long)s.range(-1,2))/8)); if (lt(r.u,r.l)) r=e; } break; default: break; } return r; };
    for (size_t i=0;i<n;++i) { e1.push_back(gen_ivl(s,inf1,em1)); e2.push_back(near(e1[i])); t1.push_back(gen_true(s,e1[i],kd)); t2.push_back(gen_true(s,e2[i],kd)); lg << (i?"x":"") << show(e1[i]) << show(t1[i]); v1.push_back(T::of(e1[i])); v2.push_back(T::of(e2[i])); } lg << " and "; for (size_t i=0;i<n;++i) lg << (i?"x":"") << show(e2[i]) << show(t2[i]); NOTE(c,pre << lg.str()); c.interesting(n>1);
    auto mk=[&](std::vector<I> const& v){ return B(v.size(),[&](SizeType i){return v[i];}); }; B a=mk(v1), b=mk(v2); PBT_CHECK(a.dimension()==n&&a.size()==n,pre+"dimension","dimension is " << a.dimension()); bool ne=true; for (size_t i=0;i<n;++i) if (!le(t1[i].l,t1[i].u)||!le(t2[i].l,t2[i].u)) ne=false;
    auto all=[&](auto f){ T3 r{true,true}; for (size_t i=0;i<n;++i) r=r&&f(i); return r; }; auto any=[&](auto f){ T3 r{false,true}; for (size_t i=0;i<n;++i) r=r||f(i); return r; };
    TRY("is_empty",a.is_empty(),any([&](size_t i){return !cle(t1[i].l,t1[i].u);}),kd) TRY("is_empty function",is_empty(a),any([&](size_t i){return !cle(t1[i].l,t1[i].u);}),kd)
    bool eqq_strict=true; if (ne) { T3 bd=all([&](size_t i){return T3{t1[i].l.kind!=-1&&t1[i].u.kind!=1,true};}); TRY("is_bounded",a.is_bounded(),bd,kd) TRY("is_bounded function",is_bounded(a),bd,kd)
        auto sub_=[&](auto const& t1, auto const& t2){ return all([&](size_t i){return cle(t2[i].l,t1[i].l)&&cle(t1[i].u,t2[i].u);}); }; auto ins=[&](auto const& t1, auto const& t2){ return all([&](size_t i){return clt(t2[i].l,t1[i].l)&&clt(t1[i].u,t2[i].u);}); }; T3 dj=any([&](size_t i){return clt(t2[i].u,t1[i].l)||clt(t1[i].u,t2[i].l);}), is=!dj, ov=all([&](size_t i){return clt(t1[i].l,t2[i].u)&&clt(t2[i].l,t1[i].u);}); if (n==0) eqq_strict=false; T3 su=sub_(t1,t2), sp=sub_(t2,t1), in_=ins(t1,t2), co=ins(t2,t1), eqq=all([&](size_t i){return ceq(t1[i].l,t2[i].l)&&ceq(t1[i].u,t2[i].u);});
        eqq.strict=eqq.strict&&eqq_strict; TRY("subset",subset(a,b),su,kd) TRY("superset",superset(a,b),sp,kd) TRY("disjoint",disjoint(a,b),dj,kd) TRY("intersect",intersect(a,b),is,kd) TRY("separated",separated(a,b),dj,kd) TRY("overlap",overlap(a,b),ov,kd) TRY("inside",inside(a,b),in_,kd) TRY("covers",covers(a,b),co,kd) if constexpr (!Same<U,Real>) { TRY("equal",equal(a,b),eqq,kd) } TRY("subset member",a.subset(b),su,kd) TRY("superset member",a.superset(b),sp,kd) TRY("disjoint member",a.disjoint(b),dj,kd) TRY("intersects member",a.intersects(b),is,kd) TRY("separated member",a.separated(b),dj,kd) TRY("overlaps member",a.overlaps(b),ov,kd) TRY("inside member",a.inside(b),in_,kd) TRY("covers member",a.covers(b),co,kd) if constexpr (T::kd==EXACT||T::kd==FUZZY) { TRY("==",a==b,eqq,kd) TRY("!=",a!=b,!eqq,kd) } 
        if constexpr (T::kd==OUTER) { bool rf=true, sm=true; for (size_t i=0;i<n;++i) { if (!(le(e2[i].l,e1[i].l)&&le(e1[i].u,e2[i].u))) rf=false; if (!(oracle::same(e2[i].l,e1[i].l)&&oracle::same(e1[i].u,e2[i].u))) sm=false; } if constexpr (requires { refines(a,b); }) { c.label("refines"); PBT_CHECK(bool(refines(a,b))==rf,pre+"refines","refines is " << refines(a,b)); } PBT_CHECK(Ariadne::same(a,b)==sm,pre+"same","same is " << Ariadne::same(a,b)); }
        if constexpr (Same<U,FloatDP>) { BoxSet<ExactIntervalType> bs(a); auto ck=[&](std::string const& k, auto const& r, T3 t){ PBT_CHECK(definitely(r.check(Effort(8)))==t.t,pre+k,k << " of a box set is " << definitely(r.check(Effort(8)))); }; ck("set separated",bs.separated(b),dj); ck("set overlaps",bs.overlaps(b),ov); ck("set covers",bs.covers(b),co); ck("set inside",bs.inside(b),in_); auto bb=bs.bounding_box(); for (size_t i=0;i<n;++i) PBT_CHECK(oracle::same(xof(bb[i].lower_bound().raw()),e1[i].l)&&oracle::same(xof(bb[i].upper_bound().raw()),e1[i].u),pre+"set bounding_box","wrong bounding box"); }
        if constexpr (Same<U,Real>) { std::vector<FloatDPExactInterval> w; for (auto& e:e2) w.push_back(IT<FloatDP>::of(e)); ExactBoxType eb(n,[&](SizeType i){return w[i];}); BoxSet<RealInterval> bs(a); auto ck=[&](std::string const& k, auto const& r, T3 t){ bool d=definitely(r.check(Effort(64))); PBT_CHECK(!(d&&!t.t)&&(d||!t.t||!t.strict),pre+k,k << " of a real box set is " << d); }; ck("set separated",bs.separated(eb),dj); ck("set overlaps",bs.overlaps(eb),ov); ck("set covers",bs.covers(eb),co); ck("set inside",bs.inside(eb),in_); auto bb=bs.bounding_box(); for (size_t i=0;i<n;++i) PBT_CHECK(le(xof(bb[i].lower_bound().raw()),e1[i].l)&&le(e1[i].u,xof(bb[i].upper_bound().raw())),pre+"set bounding_box","wrong bounding box"); } }
    auto isv=[&](std::string const& k, I const& r, size_t i, bool second){ E const& e=second?e2[i]:e1[i]; ivl_is(pre+k,r,Tr{e.l,e.u},kd); };
    auto mx=[](X const& p, X const& q){ return le(p,q)?q:p; }; auto mn=[](X const& p, X const& q){ return le(p,q)?p:q; };
    if constexpr (requires { intersection(a,b); rd(intersection(a,b)[0].lower_bound()); }) if (n>0) { c.label("intersection"); auto r=intersection(a,b); PBT_CHECK(r.dimension()==n,pre+"intersection","wrong dimension"); for (size_t i=0;i<n;++i) ivl_is(pre+"intersection",r[i],Tr{mx(e1[i].l,e2[i].l),mn(e1[i].u,e2[i].u)},kd); }
    if constexpr (requires { hull(a,b); rd(hull(a,b)[0].lower_bound()); }) if (n>0&&ne) { c.label("hull"); auto r=hull(a,b); PBT_CHECK(r.dimension()==n,pre+"hull","wrong dimension"); for (size_t i=0;i<n;++i) ivl_is(pre+"hull",r[i],Tr{mn(e1[i].l,e2[i].l),mx(e1[i].u,e2[i].u)},kd); }
    // points
    { std::vector<Q> p; for (size_t i=0;i<n;++i) p.push_back(s.chance(1,4)&&e1[i].l.finite()?e1[i].l.q:s.chance(1,4)&&e1[i].u.finite()?e1[i].u.q:e1[i].l.finite()&&e1[i].u.finite()&&s.chance(3,4)?Q((e1[i].l.q+e1[i].u.q)/2):gen_end(s)); T3 ct=all([&](size_t i){return cle(t1[i].l,X(p[i]))&&cle(X(p[i]),t1[i].u);}); NOTE(c,pre << lg.str() << " point " << show(p)); Vector<FloatDP> fv(n,[&](SizeType i){return mkf<FloatDP>(X(p[i]));}); auto pt=[&](auto const& v, Kd k2, std::string const& xn){ if (kd!=APPROX&&k2==APPROX) return; if constexpr (requires { tri(contains(a,v)); }) { c.label("contains "+xn); pchk(pre+"contains "+xn,contains(a,v),ct,comb(kd,k2)); } if constexpr (requires { tri(a.contains(v)); }) { c.label("contains member "+xn); pchk(pre+"contains member "+xn,a.contains(v),ct,comb(kd,k2)); } if constexpr (requires { tri(element(v,a)); }) { c.label("element "+xn); pchk(pre+"element "+xn,element(v,a),ct,comb(kd,k2)); } };
        if (n>0) { pt(fv,EXACT,"vector"); pt(Vector<Rational>(n,[&](SizeType i){return to_rational(p[i]);}),EXACT,"rational vector"); pt(Vector<FloatDPBounds>(fv),FUZZY,"bounds vector"); pt(Vector<FloatDPApproximation>(fv),APPROX,"approximate vector"); pt(Point<FloatDP>(fv),EXACT,"point"); pt(Point<FloatDPBounds>(Vector<FloatDPBounds>(fv)),FUZZY,"bounds point"); 
            auto hp=[&](auto const& pp){ if constexpr (requires { hull(a,pp); hull(pp,a); }) { if (!ne) return; c.label("hull point"); auto r=hull(a,pp), r2=hull(pp,a); for (size_t i=0;i<n;++i) { ivl_is(pre+"hull with point",r[i],Tr{mn(e1[i].l,X(p[i])),mx(e1[i].u,X(p[i]))},kd); ivl_is(pre+"hull of point and box",r2[i],Tr{mn(e1[i].l,X(p[i])),mx(e1[i].u,X(p[i]))},kd); } } }; if constexpr (Same<U,FloatDP>) hp(Point<FloatDP>(fv)); } NOTE(c,pre << lg.str()); }
    // products, projections
    { auto r=product(a,b); PBT_CHECK(r.dimension()==2*n,pre+"product","wrong dimension"); for (size_t i=0;i<n;++i) { isv("product",r[i],i,false); isv("product",r[n+i],i,true); } auto r3=product(a,b,a); PBT_CHECK(r3.dimension()==3*n,pre+"product of three","wrong dimension"); for (size_t i=0;i<n;++i) { isv("product of three",r3[i],i,false); isv("product of three",r3[n+i],i,true); isv("product of three",r3[2*n+i],i,false); } auto j3=join(a,b,b); PBT_CHECK(j3.dimension()==3*n,pre+"join of three","wrong dimension"); for (size_t i=0;i<n;++i) { isv("join of three",j3[i],i,false); isv("join of three",j3[n+i],i,true); isv("join of three",j3[2*n+i],i,true); }
        if (n>0) { size_t k=s.draw(n); auto pi=product(a,v2[k]); PBT_CHECK(pi.dimension()==n+1,pre+"product with interval","wrong dimension"); for (size_t i=0;i<n;++i) isv("product with interval",pi[i],i,false); isv("product with interval",pi[n],k,true); auto pm=product(a,v2[k],b); PBT_CHECK(pm.dimension()==2*n+1,pre+"product with middle interval","wrong dimension"); isv("product with middle interval",pm[n],k,true); for (size_t i=0;i<n;++i) { isv("product with middle interval",pm[i],i,false); isv("product with middle interval",pm[n+1+i],i,true); } auto jm=join(a,v2[k],b); isv("join with middle interval",jm[n],k,true); isv("join with middle interval",jm[2*n],n-1,true); auto bp=B::_product(v2[k],a); isv("interval product",bp[0],k,true); for (size_t i=0;i<n;++i) isv("interval product",bp[i+1],i,false);
            auto rm=remove(a,k); PBT_CHECK(rm.dimension()==n-1,pre+"remove","wrong dimension"); for (size_t i=0;i<n;++i) if (i!=k) isv("remove",rm[i<k?i:i-1],i,false); size_t m=s.draw(n+2); Array<SizeType> ix(m); for (size_t i=0;i<m;++i) ix[i]=s.draw(n); auto pj=project(a,ix); PBT_CHECK(pj.dimension()==m,pre+"project","wrong dimension"); for (size_t i=0;i<m;++i) isv("project",pj[i],ix[i],false); size_t lo=s.draw(n+1), hi=lo+s.draw(n-lo+1); auto pr=project(a,Range(lo,hi)); PBT_CHECK(pr.dimension()==hi-lo,pre+"project range","wrong dimension"); for (size_t i=0;i<hi-lo;++i) isv("project range",pr[i],lo+i,false); auto ar=a[Range(lo,hi)]; PBT_CHECK(ar.dimension()==hi-lo,pre+"range","wrong dimension"); for (size_t i=0;i<hi-lo;++i) isv("range",ar[i],lo+i,false);
            auto lb=a.lower_bounds(), ub=a.upper_bounds(); auto lf=lower_bounds(a), uf=upper_bounds(a); PBT_CHECK(lb.dimension()==n&&ub.dimension()==n,pre+"lower_bounds","wrong dimension"); for (size_t i=0;i<n;++i) { in(pre+"lower_bounds",lb[i],e1[i].l); in(pre+"upper_bounds",ub[i],e1[i].u); in(pre+"lower_bounds function",lf[i],e1[i].l); in(pre+"upper_bounds function",uf[i],e1[i].u); }
            auto bb=a.bounding_box(); for (size_t i=0;i<n;++i) isv("bounding_box",bb[i],i,false); auto u=B::unit_box(n); PBT_CHECK(u.dimension()==n,pre+"unit_box","wrong dimension"); for (size_t i=0;i<n;++i) ivl_is(pre+"unit_box",u[i],Tr{X(Q(-1)),X(Q(1))},kd);
            bool fin=true; for (size_t i=0;i<n;++i) if (!e1[i].l.finite()||!e1[i].u.finite()||!le(e1[i].l,e1[i].u)) fin=false;
            if (fin&&kd!=INNER) { std::vector<Q> w; Q sum=0, prod=1, mw=0; for (auto& e:e1) { w.push_back(e.u.q-e.l.q); sum+=w.back(); prod*=w.back(); mw=qmax(mw,w.back()); } auto ws=a.widths(); auto rs=a.radii(); auto wf=widths(a); auto rf=radii(a); for (size_t i=0;i<n;++i) { in(pre+"widths",ws[i],X(w[i])); in(pre+"widths function",wf[i],X(w[i])); in(pre+"radii",rs[i],X(Q(w[i]/2)),false); in(pre+"radii function",rf[i],X(Q(w[i]/2)),false); Rd r=rd(rs[i]); if (r.u.finite()) PBT_CHECK(r.u.q<=w[i]/2*Q(1001,1000)+Q(1,1000000),pre+"radii","radius too large"); if (r.l.finite()) PBT_CHECK(r.l.q>=w[i]/2*Q(999,1000)-Q(1,1000000),pre+"radii","radius too small"); } in(pre+"semiperimeter",a.semiperimeter(),X(sum)); in(pre+"measure",a.measure(),X(prod)); in(pre+"volume",a.volume(),X(prod)); in(pre+"measure function",measure(a),X(prod)); in(pre+"volume function",volume(a),X(prod)); in(pre+"radius",a.radius(),X(Q(mw/2)),false); { Rd r=rd(a.radius()); if (r.u.finite()) PBT_CHECK(r.u.q<=mw/2*Q(1001,1000)+Q(1,1000000),pre+"radius","radius too large"); if (r.l.finite()) PBT_CHECK(r.l.q>=mw/2*Q(999,1000)-Q(1,1000000),pre+"radius","radius too small"); }
                auto cc=a.centre(); auto mm=a.midpoint(); PBT_CHECK(cc.dimension()==n&&mm.dimension()==n,pre+"centre","wrong dimension"); for (size_t i=0;i<n;++i) { in(pre+"centre",cc[i],X(Q((e1[i].l.q+e1[i].u.q)/2))); Rd m=rd(mm[i]); if (m.l.finite()) PBT_CHECK(abs(m.l.q-(e1[i].l.q+e1[i].u.q)/2)<=w[i]/64+two_exp(-40),pre+"midpoint","midpoint is far from the centre"); }
                if constexpr (!Same<U,Real>) { for (SplitPart sp:{SplitPart::LOWER,SplitPart::MIDDLE,SplitPart::UPPER}) { auto x=split(a,k,sp); auto y=split(v1[k],sp); auto eqi=[&](I const& p, I const& q){ Rd p1=rd(p.lower_bound()),p2=rd(p.upper_bound()),q1=rd(q.lower_bound()),q2=rd(q.upper_bound()); return oracle::same(p1.l,q1.l)&&oracle::same(p1.u,q1.u)&&oracle::same(p2.l,q2.l)&&oracle::same(p2.u,q2.u); }; for (size_t i=0;i<n;++i) PBT_CHECK(eqi(x[i],i==k?y:v1[i]),pre+"split part","part of the box differs from the part of the side"); auto z=split(a,sp); size_t ch=n; for (size_t i=0;i<n;++i) if (!eqi(z[i],v1[i])) { PBT_CHECK(ch==n,pre+"split","two sides are split"); ch=i; PBT_CHECK(w[i]>=mw*Q(999,1000),pre+"split","a shorter side is split"); PBT_CHECK(eqi(z[i],split(v1[i],sp)),pre+"split","part of the box differs from the part of the side"); } PBT_CHECK(ch<n||mw==0,pre+"split","nothing is split"); }
                    auto hv=[&](std::pair<B,B> const& p, size_t want){ size_t ch=n; auto lo=[&](I const& v){Rd r=rd(v.lower_bound()); return r.l.finite()?r.l.q:r.u.q;}; auto up=[&](I const& v){Rd r=rd(v.upper_bound()); return r.u.finite()?r.u.q:r.l.q;}; for (size_t i=0;i<n;++i) { PBT_CHECK(lo(p.first[i])==e1[i].l.q&&up(p.second[i])==e1[i].u.q&&up(p.first[i])>=lo(p.second[i]),pre+"halves","the halves do not cover the box"); if (up(p.first[i])!=e1[i].u.q||lo(p.second[i])!=e1[i].l.q) { PBT_CHECK(ch==n&&(want==n||want==i),pre+"halves","wrong side split"); ch=i; PBT_CHECK(up(p.first[i])==lo(p.second[i])&&abs(up(p.first[i])-(e1[i].l.q+e1[i].u.q)/2)<=w[i]/64+two_exp(-40),pre+"halves","the halves are not equal"); PBT_CHECK(want<n||w[i]>=mw*Q(999,1000),pre+"halves","a shorter side is split"); } } PBT_CHECK(ch<n||(want<n?w[want]:mw)==0,pre+"halves","nothing is split"); }; { auto p=split(a,k); hv({p.first,p.second},k); } { auto p=split(a); hv({p.first,p.second},n); } { auto p=a.split(k); hv({p.first,p.second},k); } } }
            if constexpr (Same<U,FloatDP>) if (!inf1&&!em1) { auto vs=a.vertices(); PBT_CHECK(vs.size()==(size_t(1)<<n),pre+"vertices","number of vertices is " << vs.size()); std::set<std::vector<bool>> seen; bool deg=false; for (auto& e:e1) if (e.l.q==e.u.q) deg=true; std::vector<Q> prev; for (auto const& v:vs) { std::vector<bool> w; int ch=0; std::vector<Q> cur; for (size_t i=0;i<n;++i) { Q x=xof(v[i]).q; cur.push_back(x); PBT_CHECK(x==e1[i].l.q||x==e1[i].u.q,pre+"vertices","vertex not at a corner"); w.push_back(x==e1[i].u.q); if (!prev.empty()&&prev[i]!=x) ++ch; } if (!deg) { PBT_CHECK(seen.insert(w).second,pre+"vertices","a vertex is listed twice"); } prev=cur; } }
        } }
}
// images
void t_image(PSrc& s, PCase& c) { std::ostringstream lg; size_t n=1+s.draw(3); Fu f=gen_fun(s,lg,n,(int)s.draw(4),3), g=gen_fun(s,lg,n,(int)s.draw(3),3); typedef EffectiveScalarMultivariateFunction SF; auto mkfn=[&](Ex const& e){ std::vector<SF> x; for (size_t i=0;i<n;++i) x.push_back(SF::coordinate(EuclideanDomain(n),i)); return build<SF>(e,x,[&](Q q){ return SF::constant(EuclideanDomain(n),EffectiveNumber(to_rational(q))); },[](Q q){ return EffectiveNumber(to_rational(q)); }); }; SF ef=mkfn(f.e), eg=mkfn(g.e); ValidatedScalarMultivariateFunction vf(ef); ValidatedVectorMultivariateFunction vv(EffectiveVectorMultivariateFunction(List<SF>({ef,eg}))); Pt p; UpperBoxType bx(n,UpperIntervalType(0,0)); for (size_t i=0;i<n;++i) { Q a=Q((long)s.range(-64,64))/32, w=s.boolean()?Q((long)s.range(0,16))/64:Q(0); bx[i]=IT<FloatDPUpperBound>::of(E{X(a),X(Q(a+w))}); p.push_back(s.boolean()?a:Q(a+w*Q((long)s.range(0,16))/16)); lg << " [" << oracle::dec(a) << ":" << oracle::dec(a+w) << "]"; } NOTE(c,lg.str() << " at " << show(p)); c.interesting(nodes(f.e)>3);
    // ranges over boxes with singularities are not defined
    std::vector<Iv> xs; for (size_t i=0;i<n;++i) { X l=xof(bx[i].lower_bound().raw()), u=xof(bx[i].upper_bound().raw()); xs.push_back(Iv(l.q,u.q)); } for (Ex const& e:{f.e,g.e}) { bool d=true,t=true; value(e,xs,d,t); if (!d||!t) PBT_DISCARD(); }
    auto ck=[&](std::string const& k, UpperIntervalType const& r, Ex const& e){ Val v=val(e,p); if (!v.d) return; X l=xof(r.lower_bound().raw()), u=xof(r.upper_bound().raw()); PBT_CHECK(!l.is_nan()&&!u.is_nan()&&!surely_less(v.v,l)&&!surely_greater(v.v,u),k,k << " gives [" << oracle::show(l) << ":" << oracle::show(u) << "] without " << oracle::show(v.v)); };
    ck("apply",apply(vf,bx),f.e); ck("image",image(bx,vf),f.e); auto r=apply(vv,bx); PBT_CHECK(r.dimension()==2,"apply vector","wrong dimension"); ck("apply vector",r[0],f.e); ck("apply vector",r[1],g.e); auto m=image(bx,vv); ck("image vector",m[0],f.e); ck("image vector",m[1],g.e);
    { UpperBoxType eb=bx; eb[s.draw(n)]=UpperIntervalType::empty_interval(); PBT_CHECK(definitely(apply(vf,eb).is_empty())&&definitely(image(eb,vf).is_empty())&&definitely(apply(vv,eb).is_empty())&&definitely(image(eb,vv).is_empty()),"image of empty","the image of the empty set is not empty"); } }
struct Init { Init() { pbt::set_rule("the intervals are nonempty and meet, the box has at least two dimensions, the conversion is of a proper interval, or the function has more than three nodes"); pbt::set_reset(reset_modes); } } init_;
// neighbouring and very different endpoints, where the midpoint is rounded
template<class U> void mid_check(Interval<U> const& iv, Q l, Q u, std::string const& k) { auto m=iv.midpoint(); Q mq=xof(m).q; PBT_CHECK(l<=mq&&mq<=u,k+" midpoint","midpoint " << mq.get_d() << " is outside the interval"); Q rr=qmax(Q(u-mq),Q(mq-l)); auto r=iv.radius(); Q rq=xof(r.raw()).q; PBT_CHECK(rq>=rr,k+" radius","radius " << rq.get_d() << " does not reach from the midpoint to both endpoints"); PBT_CHECK(rq<=rr*(1+two_exp(-20)),k+" radius","radius " << rq.get_d() << " is too large"); auto w=iv.width(); Q wq=xof(w.raw()).q; PBT_CHECK(wq>=u-l&&wq<=(u-l)*(1+two_exp(-20)),k+" width","width " << wq.get_d()); }
void t_mid(PSrc& s, PCase& c) { Q one=1, ulp=two_exp(-52); Q l=one+ulp*Q((long)s.draw(1000)); if (s.boolean()) l=one+ulp*qfloor(qpow(Q(2),52)*Q((long)s.draw(996))/997); Q u=l+ulp*Q((long)s.range(1,7)); if (s.chance(1,3)) u=l*two_exp((long)s.range(1,60)); if (s.chance(1,3)) l=-l*two_exp((long)s.range(-60,60)); if (s.boolean()) { Q t=-l; l=-u; u=t; } if (u<=l) std::swap(l,u); if (u==l) PBT_DISCARD(); NOTE(c,"[" << oracle::dec(l) << ":" << oracle::dec(u) << "]"); c.interesting(true); FloatDP L=FT<FloatDP>::of(l,dp), Up=FT<FloatDP>::of(u,dp); if (xof(L).q!=l||xof(Up).q!=u) PBT_DISCARD();
    mid_check(Interval<FloatDPUpperBound>(L,Up),l,u,"upper"); Interval<FloatDP> e(L,Up); Q mq=xof(e.midpoint()).q; PBT_CHECK(l<=mq&&mq<=u,"exact midpoint","outside"); Rd w=rd(e.width()), r=rd(e.radius()); Q rr=qmax(Q(u-mq),Q(mq-l)); PBT_CHECK(le(X(Q(u-l)),w.u),"exact width","width " << oracle::show(w.u)); PBT_CHECK(le(X(rr),r.u),"exact radius","radius " << oracle::show(r.u) << " is less than the distance to an endpoint"); }
pbt::Register r99("rounded midpoints",4000,60000,t_mid,30);
pbt::Register r1("exact",6000,120000,t_exact,30), r2("float_dp",6000,120000,t_float<FloatDP>,30), r3("float_mp",4000,80000,t_float<FloatMP>,30), r4("mixed_dp",6000,120000,t_mixed<FloatDP>,30), r5("mixed_mp",3000,60000,t_mixed<FloatMP>,30), r6("convert_dp",3000,60000,t_convert<FloatDP>,30), r7("convert_mp",3000,60000,t_convert<FloatMP>,30), r8("arithmetic_dp",4000,80000,t_arith<FloatDP>,30), r9("arithmetic_mp",4000,80000,t_arith<FloatMP>,30), r10("box_exact",5000,100000,t_box<FloatDP>,30), r11("box_upper",4000,80000,t_box<FloatDPUpperBound>,30), r12("box_lower",2000,40000,t_box<FloatDPLowerBound>,30), r13("box_approximate",2000,40000,t_box<FloatDPApproximation>,30), r14("box_real",600,12000,t_box<Real>,30), r15("image",3000,60000,t_image,60);
}
