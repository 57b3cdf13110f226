// Coefficients with a validated, an approximate and an exact side, and comparisons of the three.
#ifndef VERIF_COEF_HPP
#define VERIF_COEF_HPP
#include "validated.hpp"
#include "series_model.hpp"
#include "algebra/multi_index.hpp"
#include "geometry/interval.hpp"
namespace {
using namespace Ariadne; using namespace oracle;
MultiIndex mk(MI const& a) { MultiIndex r(a.size()); for (size_t i=0;i<a.size();++i) r[i]=(DegreeType)a[i]; return r; }
std::string show(MI const& a) { std::string r="("; for (int x:a) r+=std::to_string(x)+","; return r+")"; }
std::vector<MI> indices(size_t n,int d) { std::vector<MI> r; MI a(n,0); std::function<void(size_t,int)> rec=[&](size_t i,int left){ if (i==n) { r.push_back(a); return; } for (int x=0;x<=left;++x) { a[i]=x; rec(i+1,left-x); } a[i]=0; }; rec(0,d); return r; }
template<class F> struct TP; 
template<> struct TP<FloatDP> { typedef FloatDPBounds B; typedef FloatDPApproximation A; typedef FloatDPUpperInterval U; static U up(FloatDP l,FloatDP u) { return U(FloatDPUpperInterval(FloatDPLowerBound(l),FloatDPUpperBound(u))); } static bool has_u() { return true; } };
template<> struct TP<FloatMP> { typedef FloatMPBounds B; typedef FloatMPApproximation A; };
// tolerance for the approximate types: a multiple of the width of the validated result
template<class A, class B> void check_app(std::string const& k, A const& a, B const& b, Iv const& v) { X x=xof(a.raw()), l=xof(b.lower_raw()), u=xof(b.upper_raw()); if (!l.finite()||!u.finite()||!v.finite()) return; PBT_CHECK(x.finite(),k+" approximate",k << " approximately gives " << oracle::show(a.raw()) << " for " << oracle::show(v)); Q tol=8*(u.q-l.q)+(abs(l.q)+abs(u.q))*two_exp(-20-(long)0)*0+two_exp(-1000); Q m=x.q<v.lower()?v.lower():x.q>v.upper()?v.upper():x.q; PBT_CHECK(abs(x.q-m)<=tol+abs(m)*FT<std::decay_t<decltype(a.raw())>>::eps(a.precision())*4,k+" approximate",k << " approximately gives " << oracle::show(a.raw()) << ", too far from " << oracle::show(v)); }
template<class F> struct Num { typename TP<F>::B b; typename TP<F>::A a; F v; Q q; };
template<class F> Num<F> gen_num(PSrc& s, typename F::PrecisionType pr, int m=3) { F v=s.weighted({4,1})==0?FT<F>::of(gen_small_q(s,m),pr):FT<F>::gen(s,pr,1); if (xof(v).q>m||xof(v).q<-m) v=FT<F>::of(Q(m),pr); F l=v,u=v; switch (s.weighted({4,2,2})) { case 0: break; case 1: if (s.boolean()) l=FT<F>::below(l); if (s.boolean()) u=FT<F>::above(u); break; default: { Q w=two_exp(-(long)s.range(4,20)); if (s.boolean()) { F t=FT<F>::of(xof(v).q-w,pr); if (xof(t).q<=xof(v).q) l=t; } else { F t=FT<F>::of(xof(v).q+w,pr); if (xof(t).q>=xof(v).q) u=t; } } } return Num<F>{typename TP<F>::B(l,u),typename TP<F>::A(v),v,xof(v).q}; }
template<class F> std::string str(Num<F> const& x) { return VT<typename TP<F>::B>::str(x.b)+"~"+oracle::dec(x.q); }
inline bool in_domain(std::string const& f, X const& l, X const& u) { if (!l.finite()||!u.finite()) return false; if (f=="rec"||f=="abs") return l.q>Q(1,16)||u.q<Q(-1,16); if (f=="sqrt"||f=="log") return l.q>Q(1,16); if (f=="tan") return l.q>Q(-14,10)&&u.q<Q(14,10); if (f=="exp") return u.q<20; return abs(l.q)<1000000&&abs(u.q)<1000000; }
}
#endif
