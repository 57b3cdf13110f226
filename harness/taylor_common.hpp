// Taylor models together with a member function of the set they denote, evaluated exactly enough at any point of the unit box.
#ifndef VERIF_TAYLOR_COMMON_HPP
#define VERIF_TAYLOR_COMMON_HPP
#include "coef.hpp"
#include "function/taylor_model.hpp"
#include "algebra/sweeper.hpp"
namespace {
typedef std::vector<Q> Pt;
typedef std::function<Iv(Pt const&)> Fn;
template<class F> Iv civ(F const& c) requires requires { c.get_d(); } { X x=xof(c); return x.finite()?Iv(x.q):Iv(1)/Iv(0); }
template<class F> Iv civ(UpperInterval<F> const& c) { X l=xof(c.lower_bound().raw()), u=xof(c.upper_bound().raw()); if (!l.finite()||!u.finite()) return Iv(1)/Iv(0); return Iv(l.q,u.q); }
template<class F> struct TT { typedef F Flt; static bool const ivl=false; static F coef(F const& v) { return v; } };
template<class F> struct TT<UpperInterval<F>> { typedef F Flt; static bool const ivl=true; static UpperInterval<F> coef(F const& v) { return UpperInterval<F>(v,v); } };
template<class F> Sweeper<F> gen_sweeper(PSrc& s, typename F::PrecisionType pr, std::ostream& os) { Q th=two_exp(-(long)s.pick<int>({10,4,2,20,40,70})); switch (s.weighted({6,4,2,1,1,2,2})) { case 0: os << "trivial"; return TrivialSweeper<F>(pr); case 1: os << "threshold" << oracle::dec(th); return ThresholdSweeper<F>(pr,FT<F>::of(th,pr)); case 2: os << "relative" << oracle::dec(th); return RelativeThresholdSweeper<F>(pr,FT<F>::of(th,pr)); case 3: os << "null"; return NullSweeper<F>(pr); case 4: os << "affine"; return AffineSweeper<F>(pr); case 5: { int d=(int)s.draw(5); os << "graded" << d; return GradedSweeper<F>(pr,(DegreeType)d); } default: { int d=(int)s.draw(5); os << "gradedthreshold" << d << "," << oracle::dec(th); return GradedThresholdSweeper<F>(pr,(DegreeType)d,FT<F>::of(th,pr)); } } }
// a function with values in [-1,1] on the unit box
inline Fn gen_theta(PSrc& s, size_t n, std::ostream& os) { switch (s.draw(5)) { case 0: os << "+1"; return [](Pt const&){return Iv(1);}; case 1: os << "-1"; return [](Pt const&){return Iv(-1);}; case 2: if (n==0) return [](Pt const&){return Iv(1);}; { size_t j=s.draw(n); os << "x" << j; return [j](Pt const& p){return Iv(p[j]);}; } case 3: if (n==0) return [](Pt const&){return Iv(-1);}; { size_t j=s.draw(n); os << "T3(x" << j << ")"; return [j](Pt const& p){return Iv(Q(4*p[j]*p[j]*p[j]-3*p[j]));}; } default: if (n==0) return [](Pt const&){return Iv(0);}; { size_t j=s.draw(n); os << "1-2x" << j << "^2"; return [j](Pt const& p){return Iv(Q(1-2*p[j]*p[j]));}; } } }
inline Q gen_unit(PSrc& s) { switch (s.weighted({3,2,4})) { case 0: return s.boolean()?Q(1):Q(-1); case 1: return Q(0); default: return Q((long)s.range(-64,64))/64; } }
inline Pt gen_pt(PSrc& s, size_t n) { Pt p; for (size_t i=0;i<n;++i) p.push_back(gen_unit(s)); return p; }
inline std::string show(Pt const& p) { std::string r="("; for (auto& q:p) r+=oracle::dec(q)+","; return r+")"; }
template<class E> Iv eval_expansion(E const& e, Pt const& p) { Iv r(0); for (auto it=e.begin();it!=e.end();++it) { MultiIndex a=it->index(); Q m(1); for (size_t i=0;i<p.size();++i) m*=qpow(p[i],a[i]); auto cf=it->coefficient(); r=r+civ(cf)*Iv(m); } return r; }
// Multiplication by a number given by bounds may understate the error by an ulp of each coefficient (a listed finding, tested by itself): models it was used for get this slack
static Q g_slack;
template<class TM> void check_value(std::string const& k, TM const& tm, Iv const& v, Pt const& p) { if (!v.finite()) return; X e=xof(tm.error().raw()); if (e.is_nan()&&(k.substr(0,3)=="max"||k.substr(0,3)=="min"||k.substr(0,3)=="abs")) return; /* scaling by the reciprocal of a denormal number overflows */ PBT_CHECK(!e.is_nan(),k+" error",k << " has error nan: " << tm); if (e.kind==1) return; PBT_CHECK(e.finite()&&sgn(e.q)>=0,k+" error",k << " has negative error: " << tm); Iv q=eval_expansion(tm.expansion(),p); if (!q.finite()) return; e.q+=g_slack; PBT_CHECK(!surely_less(v,q-Iv(e.q))&&!surely_less(q+Iv(e.q),v),k,k << " gives " << oracle::show(q) << "+/-" << oracle::dec(e.q) << " at " << show(p) << ", but a member takes the value " << oracle::show(v)); }
template<class TM> void check_sorted(std::string const& k, TM const& tm) { bool first=true; MultiIndex pa; for (auto it=tm.expansion().begin();it!=tm.expansion().end();++it) { MultiIndex a=it->index(); if (!first) PBT_CHECK(reverse_lexicographic_less(pa,a),k+" order",k << " has unordered or repeated terms: " << tm); pa=a; first=false; } }
template<class TM> struct It { TM tm; Fn f; };
template<class TM> void check(PSrc& s, std::string const& k, It<TM> const& x, int np=3) { for (int i=0;i<np;++i) { Pt p=gen_pt(s,x.tm.argument_size()); check_value(k,x.tm,x.f(p),p); } check_sorted(k,x.tm); }
template<class FF> It<TaylorModel<ValidatedTag,FF>> gen_tm(PSrc& s, size_t n, typename TT<FF>::Flt::PrecisionType pr, Sweeper<typename TT<FF>::Flt> const& swp, int maxdeg, std::ostream& os) { typedef typename TT<FF>::Flt F; typedef TaylorModel<ValidatedTag,FF> TM; typedef typename TM::CoefficientType C; typedef typename TM::ErrorType E;
    int mode=(int)s.weighted({8,1,1}); if (mode==1&&n>0) { size_t j=s.draw(n); os << "{x" << j << "}"; return {TM::coordinate(n,j,swp),[j](Pt const& p){return Iv(p[j]);}}; }
    if (mode==2) { Num<F> z=gen_num<F>(s,pr); os << "{const" << str(z) << "}"; Q q=z.q; return {TM::constant(n,typename TM::NumericType(z.b),swp),[q](Pt const&){return Iv(q);}}; }
    std::map<MI,Iv> vals; Expansion<MultiIndex,C> e(n,C(FT<F>::of(Q(0),pr))); os << "{"; auto ix=indices(n,maxdeg); int nt=1+(int)s.draw(5); std::vector<std::pair<MI,Q>> terms; for (int t=0;t<nt;++t) { MI a=ix[s.draw(ix.size())]; bool dup=false; for (auto& p:terms) if (p.first==a) dup=true; if (dup) continue; Num<F> z=gen_num<F>(s,pr,2); if (s.chance(1,6)) { z=gen_num<F>(s,pr,2); F v=FT<F>::of(z.q*two_exp(-(long)s.range(5,60)),pr); z=Num<F>{typename TP<F>::B(v,v),typename TP<F>::A(v),v,xof(v).q}; } Q q=z.q; if constexpr (TT<FF>::ivl) { e.append(mk(a),UpperInterval<F>(z.b.lower_raw(),z.b.upper_raw())); } else e.append(mk(a),z.v); terms.push_back({a,q}); os << show(a) << ":" << (TT<FF>::ivl?str(z):oracle::dec(q)) << " "; }
    F err=FT<F>::of(Q(0),pr); if (s.chance(1,2)) { err=FT<F>::of(two_exp(-(long)s.range(0,40))*Q((long)s.range(1,7)),pr); } os << "+/-" << oracle::dec(xof(err).q) << "*"; Fn th=gen_theta(s,n,os); os << "}"; Q eq=xof(err).q; TM tm(e,E(err),swp);
    return {tm,[terms,th,eq](Pt const& p){ Iv r=th(p)*Iv(eq); for (auto& t:terms) { Q m=t.second; for (size_t i=0;i<p.size();++i) m*=qpow(p[i],t.first[i]); r=r+Iv(m); } return r; }}; }
}
#endif
