// Checks shared by the validated number types: whatever real number an argument may stand for,
// the result of an operation must allow the result for that number.
#ifndef VERIF_VALIDATED_HPP
#define VERIF_VALIDATED_HPP
#include "float_gen.hpp"
#include "numeric/float_bounds.hpp"
#include "numeric/float_ball.hpp"
#include "numeric/float_error.hpp"
#include "numeric/float_lower_bound.hpp"
#include "numeric/float_upper_bound.hpp"
#include "numeric/float_approximation.hpp"
#include "numeric/number.hpp"
#include "numeric/real.hpp"
namespace oracle {
template<class T> struct VT; // validated type: F, gen(s,pr,...), lo, hi, str
template<class F> struct VT<Bounds<F>> { static const bool centred=false;
    typedef F Flt; typedef typename F::PrecisionType PR; static std::string name() { return std::string("bounds_")+FT<F>::name(); }
    static Bounds<F> of(F const& l, F const& u) { return Bounds<F>(l,u); }
    static Bounds<F> point(F const& v) { return Bounds<F>(v); }
    static X lo(Bounds<F> const& x) { return xof(x.lower_raw()); } static X hi(Bounds<F> const& x) { return xof(x.upper_raw()); }
    static std::string str(Bounds<F> const& x) { return "["+show(x.lower_raw())+":"+show(x.upper_raw())+"]"; }
};
template<class F, class FE> struct VT<Ball<F,FE>> { static const bool centred=true;
    typedef F Flt; typedef typename F::PrecisionType PR; static std::string name() { return std::string("ball_")+FT<F>::name()+FT<FE>::name(); }
    static FE err(Q const& e, F const& v) { typename FE::PrecisionType pre=[&]{ if constexpr (std::is_same_v<FE,F>) return v.precision(); else return typename FE::PrecisionType(); }(); return FE(to_rational(e),up,pre); }
    static Ball<F,FE> of(F const& l, F const& u) { Q ql=xof(l).q, qu=xof(u).q; F v=FT<F>::of((ql+qu)/2,l.precision()); Q e=qmax(abs(xof(v).q-ql),abs(qu-xof(v).q)); return Ball<F,FE>(v,err(e,v)); }
    static Ball<F,FE> point(F const& v) { return Ball<F,FE>(v,err(Q(0),v)); }
    static X lo(Ball<F,FE> const& x) { X v=xof(x.value_raw()), e=xof(x.error_raw()); if (v.is_nan()||e.is_nan()||e.kind==1) return X::inf(-1); if (v.kind!=0) return v; return X(v.q-e.q); }
    static X hi(Ball<F,FE> const& x) { X v=xof(x.value_raw()), e=xof(x.error_raw()); if (v.is_nan()||e.is_nan()||e.kind==1) return X::inf(1); if (v.kind!=0) return v; return X(v.q+e.q); }
    static std::string str(Ball<F,FE> const& x) { return show(x.value_raw())+"+/-"+show(x.error_raw()); }
};
// a set around v
template<class V> V gen_around(PSrc& s, typename VT<V>::Flt const& v) {
    typedef typename VT<V>::Flt F; typedef FT<F> T; auto pr=v.precision();
    switch (s.weighted({2,3,3,3,2})) {
        case 0: return VT<V>::point(v);
        case 1: { F l=v,u=v; for (int k=(int)s.draw(3);k>0;--k) l=T::below(l); for (int k=(int)s.draw(3);k>0;--k) u=T::above(u); return VT<V>::of(l,u); }
        case 2: { Q w=abs(xof(v).q)*two_exp(-(long)s.range(1,(int64_t)T::bits(pr))); F u=T::of(xof(v).q+w,pr); if (xof(u).q<xof(v).q) u=v; return VT<V>::of(v,u); }
        case 3: { F u=T::gen(s,pr,4); Q a=xof(v).q,b=xof(u).q; return a<=b?VT<V>::of(v,u):VT<V>::of(u,v); }
        default: { Q w=Q((long)s.range(0,64))/16; F u=T::of(xof(v).q+w,pr), l=T::of(xof(v).q-w,pr); if (xof(l).q>xof(u).q) return VT<V>::point(v); return VT<V>::of(l,u); } } }
template<class V> V gen_validated(PSrc& s, typename VT<V>::PR pr, int e=12) { return gen_around<V>(s,FT<typename VT<V>::Flt>::gen(s,pr,e)); }
// a real number the set allows (finite sets)
inline Q gen_in(PSrc& s, X const& l, X const& u) {
    if (!l.finite() && !u.finite()) return gen_small_q(s,100);
    if (!l.finite()) { Q a=abs(gen_small_q(s,100)); return Q(u.q-a); }
    if (!u.finite()) { Q a=abs(gen_small_q(s,100)); return Q(l.q+a); }
    switch (s.weighted({3,3,2,2})) { case 0: return l.q; case 1: return u.q; case 2: return Q((l.q+u.q)/2);
        default: { Q t=Q((long)s.range(0,1024))/1024; Q z=l.q+t*(u.q-l.q); if (l.q<0&&u.q>0&&s.chance(1,4)) z=0; return z; } } }
template<class V> Q gen_in(PSrc& s, V const& x) { return gen_in(s,VT<V>::lo(x),VT<V>::hi(x)); }
template<class V> void check_in(std::string const& what, V const& r, Q const& v) {
    X l=VT<V>::lo(r), u=VT<V>::hi(r);
    PBT_CHECK(!l.is_nan()&&!u.is_nan(),what,what << " gives a nan: " << VT<V>::str(r) << " for the value " << dec(v));
    PBT_CHECK(is_in(v,l,u),what,what << " gives " << VT<V>::str(r) << ", which excludes the value " << dec(v) << " (= " << (show(v).size()<200?show(v):std::string("...")) << ")"); }
template<class V> void check_in(std::string const& what, V const& r, Iv const& v) {
    X l=VT<V>::lo(r), u=VT<V>::hi(r);
    PBT_CHECK(!l.is_nan()&&!u.is_nan(),what,what << " gives a nan: " << VT<V>::str(r) << " for the value " << show(v));
    PBT_CHECK(may_be_in(v,l,u),what,what << " gives " << VT<V>::str(r) << ", which excludes the value " << show(v)); }
// not absurdly wide: width <= k*ulp(magnitude) + k*(width of the exact image)
template<class V> void check_tight(std::string const& what, V const& r, Q const& lo, Q const& hi, unsigned bits, int k, Q const& slack) {
    X l=VT<V>::lo(r), u=VT<V>::hi(r); Q m=qmax(abs(lo),abs(hi)); Q tol=k*(m*two_exp(-(long)bits+1)+slack);
    PBT_CHECK(l.finite()&&u.finite()&&l.q>=lo-tol&&u.q<=hi+tol,what+" tight",what << " gives " << VT<V>::str(r) << " for an exact image of [" << dec(lo) << ":" << dec(hi) << "]"); }
}
#endif
