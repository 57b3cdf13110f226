// C19: function patches enclose every function obtained from members of their arguments, on their physical domain.
#include "taylor_common.hpp"
#include "algebra/algebra.hpp"
#include "function/taylor_function.hpp"
#include "function/function.hpp"
#include "function/function_model.hpp"
#include "function/function_patch.hpp"
#include "function/polynomial.hpp"
#include "function/scaling.hpp"
#include "function/function_mixin.hpp"
#include "function/taylor_model.tpl.hpp"
#include "function/scaled_function_patch.tpl.hpp"
#include "function/function_mixin.tpl.hpp"
#include "geometry/box.hpp"
namespace {
typedef std::map<MI,Q> Po; // exact polynomial in physical coordinates
Po padd(Po a, Po const& b, Q s=Q(1)) { for (auto& t:b) a[t.first]+=s*t.second; return a; }
Po pmul(Po const& a, Po const& b) { Po r; for (auto& x:a) for (auto& y:b) { MI m=x.first; for (size_t i=0;i<m.size();++i) m[i]+=y.first[i]; r[m]+=x.second*y.second; } return r; }
Po pconst(size_t n, Q q) { Po r; r[MI(n,0)]=q; return r; }
Po pcoord(size_t n, size_t j) { Po r; MI m(n,0); m[j]=1; r[m]=1; return r; }
Q peval(Po const& p, Pt const& x) { Q r(0); for (auto& t:p) { Q m=t.second; for (size_t i=0;i<x.size();++i) m*=qpow(x[i],t.first[i]); r+=m; } return r; }
Po pder(Po const& p, size_t k) { Po r; for (auto& t:p) if (t.first[k]>0) { MI m=t.first; m[k]--; r[m]+=t.second*Q((long)t.first[k]); } return r; }
Po pint(Po const& p, size_t k, Q c) { Po r; for (auto& t:p) { MI m=t.first; m[k]++; Q v=t.second/Q((long)m[k]); r[m]+=v; MI m0=m; Q cv=v*qpow(c,m[k]); m0[k]=0; r[m0]-=cv; } return r; }
struct Dom { std::vector<Q> l,u; size_t n() const { return l.size(); } Q mid(size_t j) const { return (l[j]+u[j])/2; } Q rad(size_t j) const { return (u[j]-l[j])/2; } Pt phys(Pt z) const { for (size_t j=0;j<z.size();++j) z[j]=mid(j)+rad(j)*z[j]; return z; } };
BoxDomainType box(Dom const& d) { return BoxDomainType(d.n(),[&](SizeType i){return IntervalDomainType(FT<FloatDP>::of(d.l[i],dp),FT<FloatDP>::of(d.u[i],dp));}); }
std::string show(Dom const& d) { std::string r; for (size_t i=0;i<d.n();++i) r+="["+oracle::dec(d.l[i])+":"+oracle::dec(d.u[i])+"]"; return r; }
// exact: centres short dyadics, radii powers of two, so that scaling is without rounding
void gen_ivl(PSrc& s, bool exact, Q& l, Q& u) { if (exact) { Q r=two_exp((long)s.range(-3,2)), m=Q((long)s.range(-8,8))/4; l=m-r; u=m+r; } else { l=Q((long)s.range(-12,12))/4; Q w=Q((long)s.range(1,12))/4; u=l+w; if (s.chance(1,4)) { FloatDP a=FT<FloatDP>::of(l+Q(1,3),dp), b=FT<FloatDP>::of(u+Q(1,7),dp); l=xof(a).q; u=xof(b).q; } } }
Dom gen_dom(PSrc& s, size_t n, bool exact) { Dom d; for (size_t i=0;i<n;++i) { Q l,u; gen_ivl(s,exact,l,u); d.l.push_back(l); d.u.push_back(u); } return d; }
void sub_ivl(PSrc& s, bool exact, Q& l, Q& u) { if (exact) { int k=(int)s.draw(3); Q w=(u-l)/qpow(Q(2),k); long p=(long)s.draw(1<<k); l=l+w*p; u=l+w; } else { Q w=u-l; long a=(long)s.range(0,7), b=(long)s.range(a+1,8); Q nl=xof(FT<FloatDP>::of(l+w*a/8,dp)).q, nu=xof(FT<FloatDP>::of(l+w*b/8,dp)).q; nl=qmax(nl,l); nu=qmin(nu,u); l=nl; u=nu; } }
template<class FF> struct Tp { typedef ValidatedTaylorModelDP M; };
template<> struct Tp<FloatMP> { typedef ValidatedTaylorModelMP M; };
typedef std::function<Iv(Pt const&)> PFn;
template<class S> struct Pa { S sf; PFn f; std::shared_ptr<Po> po; };
PFn pfn(Po const& p) { return [p](Pt const& x){return Iv(peval(p,x));}; }
template<class S> void check_p(std::string const& k, S const& sf, Dom const& d, PFn const& f, PSrc& s, int np=3) { { BoxDomainType b=sf.domain(); PBT_CHECK(b.size()==d.n(),k+" size",k << " has " << b.size() << " arguments, not " << d.n()); for (size_t i=0;i<d.n();++i) PBT_CHECK(xof(b[i].lower_bound()).q==d.l[i]&&xof(b[i].upper_bound()).q==d.u[i],k+" domain",k << " has domain " << b << ", not " << show(d)); }
    for (int i=0;i<np;++i) { Pt z=gen_pt(s,d.n()); check_value(k,sf.model(),f(d.phys(z)),z); } check_sorted(k,sf.model()); }
template<class F> Q nrm(TaylorModel<ValidatedTag,F> const& m) { X x=xof(m.norm().raw()); return x.finite()?x.q:Q(0); }
// a symbolic function with its interpretation
struct Sy { EffectiveScalarMultivariateFunction f; PFn v; std::shared_ptr<Po> po; };
Sy gen_sy(PSrc& s, size_t n, int depth, std::ostream& os) { typedef EffectiveScalarMultivariateFunction E; int w=depth<=0?(int)s.draw(2):(int)s.weighted({1,2,3,2,4,2,2,1,1}); switch (w) {
    case 0: { Q q=Q((long)s.range(-6,6))/4; os << oracle::dec(q); return {E::constant(n,EffectiveNumber(to_rational(q))),[q](Pt const&){return Iv(q);},std::make_shared<Po>(pconst(n,q))}; }
    case 1: { size_t j=s.draw(n); os << "x" << j; return {E::coordinate(n,j),[j](Pt const& p){return Iv(p[j]);},std::make_shared<Po>(pcoord(n,j))}; }
    case 2: case 3: case 4: { os << "("; Sy a=gen_sy(s,n,depth-1,os); os << "+-*"[w-2]; Sy b=gen_sy(s,n,depth-1,os); os << ")"; PFn f=a.v,g=b.v; std::shared_ptr<Po> po; if (a.po&&b.po) po=std::make_shared<Po>(w==4?pmul(*a.po,*b.po):padd(*a.po,*b.po,w==2?Q(1):Q(-1))); if (w==2) return {a.f+b.f,[f,g](Pt const& p){return f(p)+g(p);},po}; if (w==3) return {a.f-b.f,[f,g](Pt const& p){return f(p)-g(p);},po}; return {a.f*b.f,[f,g](Pt const& p){return f(p)*g(p);},po}; }
    case 5: { os << "sqr("; Sy a=gen_sy(s,n,depth-1,os); os << ")"; PFn f=a.v; return {sqr(a.f),[f](Pt const& p){Iv v=f(p); return v*v;},a.po?std::make_shared<Po>(pmul(*a.po,*a.po)):nullptr}; }
    case 6: { os << "neg("; Sy a=gen_sy(s,n,depth-1,os); os << ")"; PFn f=a.v; return {-a.f,[f](Pt const& p){return -f(p);},a.po?std::make_shared<Po>(padd(Po(),*a.po,Q(-1))):nullptr}; }
    case 7: { os << "sin("; Sy a=gen_sy(s,n,0,os); os << ")"; PFn f=a.v; return {sin(a.f),[f](Pt const& p){return sin(f(p));},nullptr}; }
    default: { os << "cos("; Sy a=gen_sy(s,n,0,os); os << ")"; PFn f=a.v; return {cos(a.f),[f](Pt const& p){return cos(f(p));},nullptr}; } } }
template<class F> Pa<ScaledFunctionPatch<typename Tp<F>::M>> gen_pa(PSrc& s, Dom const& d, typename F::PrecisionType pr, Sweeper<F> const& swp, std::ostream& os) { typedef typename Tp<F>::M M; typedef ScaledFunctionPatch<M> S; size_t n=d.n(); BoxDomainType bd=box(d);
    switch (s.weighted({6,2,1,3,1})) {
    case 1: { size_t j=s.draw(n); os << "{x" << j << "}"; return {s.boolean()?S::coordinate(bd,j,swp):S::projection(bd,j,swp),[j](Pt const& p){return Iv(p[j]);},std::make_shared<Po>(pcoord(n,j))}; }
    case 2: { Num<F> z=gen_num<F>(s,pr,2); Q q=z.q; os << "{const" << str(z) << "}"; return {S::constant(bd,typename M::NumericType(z.b),swp),[q](Pt const&){return Iv(q);},std::make_shared<Po>(pconst(n,q))}; }
    case 3: { os << "{"; Sy f=gen_sy(s,n,2,os); os << "}"; return {S(bd,ValidatedScalarMultivariateFunction(f.f),swp),f.v,f.po}; }
    case 4: { os << "{ball}"; std::ostringstream t; Q q=Q((long)s.range(-4,4))/4; return {S::unit_ball(bd,swp),[q](Pt const&){return Iv(q);},std::make_shared<Po>(pconst(n,q))}; }
    default: { // an expansion in the scaled coordinates with error times a polynomial
        typedef typename M::CoefficientType C; typedef typename M::ErrorType E; Expansion<MultiIndex,C> e(n,C(FT<F>::of(Q(0),pr))); os << "{"; auto ix=indices(n,3); int nt=1+(int)s.draw(4); Po po; std::vector<Po> zc; for (size_t j=0;j<n;++j) { Po z=pcoord(n,j); z=padd(z,pconst(n,d.mid(j)),Q(-1)); for (auto& t:z) t.second/=d.rad(j); zc.push_back(z); }
        auto mono=[&](MI const& a, Q v) { Po m=pconst(n,v); for (size_t j=0;j<n;++j) for (int q=0;q<a[j];++q) m=pmul(m,zc[j]); return m; }; std::set<MI> used; for (int t=0;t<nt;++t) { MI a=ix[s.draw(ix.size())]; if (!used.insert(a).second) continue; Num<F> z=gen_num<F>(s,pr,2); e.append(mk(a),z.v); Q q=xof(z.v).q; os << ::show(a) << ":" << oracle::dec(q) << " "; po=padd(po,mono(a,q)); }
        F err=FT<F>::of(Q(0),pr); if (s.chance(1,2)) err=FT<F>::of(two_exp(-(long)s.range(0,20))*Q((long)s.range(1,7)),pr); Q eq=xof(err).q; MI z0(n,0); switch (s.draw(4)) { case 0: po=padd(po,pconst(n,eq)); os << "+" << oracle::dec(eq); break; case 1: po=padd(po,pconst(n,-eq)); os << "-" << oracle::dec(eq); break; case 2: { size_t j=s.draw(n); MI a=z0; a[j]=1; po=padd(po,mono(a,eq)); os << "+" << oracle::dec(eq) << "z" << j; break; } default: { size_t j=s.draw(n); MI a=z0; a[j]=2; po=padd(po,mono(a,-2*eq)); po=padd(po,pconst(n,eq)); os << "+" << oracle::dec(eq) << "(1-2z" << j << "^2)"; } } os << "}"; return {S(bd,e,E(err),swp),pfn(po),std::make_shared<Po>(po)}; } } }
template<class F> void t_patch(PSrc& s, PCase& c) { typedef typename Tp<F>::M M; typedef ScaledFunctionPatch<M> S; typedef VectorScaledFunctionPatch<M> V; typedef Pa<S> I; typedef typename M::NumericType NT; typedef typename TP<F>::A A; 
    bool exact=s.chance(2,3); auto pr=FT<F>::gen_pr(s); if constexpr (std::is_same_v<F,FloatMP>) { if (!exact) pr=MultiplePrecision(s.pick<int>({64,100,160})); else if (pr.bits()<16) pr=MultiplePrecision(16); } size_t n=1+s.draw(3); std::ostringstream lg; auto swp=gen_sweeper<F>(s,pr,lg); lg << " "; Dom d=gen_dom(s,n,exact); lg << show(d) << " "; std::vector<I> pool; Q eps=FT<F>::eps(pr); g_slack=0; bool loose=!exact; Q scale(1);
    auto slack=[&](Q m) { scale=qmax(scale,m+1); if (loose) g_slack=qmax(g_slack,scale*scale*eps*4096); };
    NOTE(c,lg.str()); for (int i=0;i<2;++i) { pool.push_back(gen_pa<F>(s,d,pr,swp,lg)); NOTE(c,lg.str()); if (lg.str().find("const")!=std::string::npos) loose=true; if (!pool.back().po) loose=true; /* symbolic: constants have bounds */ if (lg.str().find(".")!=std::string::npos||true) {} slack(nrm(pool.back().sf.model())); for (size_t j=0;j<n;++j) slack(abs(d.mid(j))+d.rad(j)+1/d.rad(j)); check_p("construct",pool.back().sf,d,pool.back().f,s); }
    int steps=1+(int)s.draw(4); c.interesting(steps>1);
    for (int t=0;t<steps;++t) { size_t i=s.draw(pool.size()), j=s.draw(pool.size()); I x=pool[i]; I const& y=pool[j]; PFn f=x.f, g=y.f; std::string k; Num<F> z=gen_num<F>(s,pr,2); Q zq=z.q; NT zn(z.b); int w=(int)s.weighted({3,3,4,2,3,3,4,4,3,3,4,5,4,4,3,3,3}); lg << " #" << t << ":" << w << "(" << i << "," << j << ") "; NOTE(c,lg.str()); auto px=pool[i].po, py=pool[j].po; auto P=[](Po p){return std::make_shared<Po>(p);};
        switch (w) {
        case 0: { k="+"; x.sf=pool[i].sf+y.sf; x.f=[f,g](Pt const& p){return f(p)+g(p);}; x.po=px&&py?P(padd(*px,*py)):nullptr; break; }
        case 1: { k="-"; x.sf=pool[i].sf-y.sf; x.f=[f,g](Pt const& p){return f(p)-g(p);}; x.po=px&&py?P(padd(*px,*py,Q(-1))):nullptr; break; }
        case 2: { if (x.sf.degree()+y.sf.degree()>8) continue; k="*"; x.sf=pool[i].sf*y.sf; x.f=[f,g](Pt const& p){return f(p)*g(p);}; x.po=px&&py?P(pmul(*px,*py)):nullptr; break; }
        case 3: { switch (s.draw(3)) { case 0: k="neg"; x.sf=-x.sf; x.f=[f](Pt const& p){return -f(p);}; x.po=px?P(padd(Po(),*px,Q(-1))):nullptr; break; case 1: if (x.sf.degree()>4) continue; k="sqr"; x.sf=sqr(x.sf); x.f=[f](Pt const& p){Iv v=f(p);return v*v;}; x.po=px?P(pmul(*px,*px)):nullptr; break; default: if (x.sf.degree()>3) continue; k="pow"; x.sf=pow(x.sf,3); x.f=[f](Pt const& p){Iv v=f(p);return v*v*v;}; x.po=px?P(pmul(*px,pmul(*px,*px))):nullptr; } break; }
        case 4: { loose=true; lg << str(z); int q=(int)s.draw(4); k=q==0?"+c":q==1?"c+":q==2?"-c":"c-"; if (q==0) x.sf=x.sf+zn; else if (q==1) x.sf=zn+x.sf; else if (q==2) x.sf=x.sf-zn; else x.sf=zn-x.sf; x.f=[f,zq,q](Pt const& p){return q<2?f(p)+Iv(zq):q==2?f(p)-Iv(zq):Iv(zq)-f(p);}; x.po=px?(q<2?P(padd(*px,pconst(n,zq))):q==2?P(padd(*px,pconst(n,-zq))):P(padd(pconst(n,zq),*px,Q(-1)))):nullptr; break; }
        case 5: { loose=true; lg << str(z); int q=(int)s.draw(3); if (q==2&&(abs(zq)<Q(1,8)||!definitely(z.b!=typename TP<F>::B(0,pr)))) q=0; k=q==0?"*c":q==1?"c*":"/c"; if (q==0) x.sf=x.sf*zn; else if (q==1) x.sf=zn*x.sf; else x.sf=x.sf/zn; Q m=q==2?Q(1/zq):zq; slack(abs(m)); x.f=[f,m](Pt const& p){return f(p)*Iv(m);}; x.po=px?P(pmul(*px,pconst(n,m))):nullptr; break; }
        case 6: { // restriction
            Dom e=d; size_t q=s.draw(n); bool all=s.boolean(); for (size_t v=0;v<n;++v) if (all||v==q) sub_ivl(s,exact,e.l[v],e.u[v]); bool bad=false; for (size_t v=0;v<n;++v) if (!(e.l[v]<e.u[v])) bad=true; if (bad) continue; lg << "restrict" << show(e); NOTE(c,lg.str()); S r=x.sf; k="restriction"; switch (s.draw(3)) { case 0: r=restriction(x.sf,box(e)); break; case 1: r.restrict(box(e)); break; default: if (all) { V rv=restriction(V(2,x.sf),box(e)); r=rv[s.draw(2)]; } else r=partial_restriction(x.sf,q,box(e)[q]); } slack(nrm(r.model())); check_p(k,r,e,f,s); check_p(k+" changes its argument",pool[i].sf,d,pool[i].f,s,1); continue; }
        case 7: { if (x.sf.degree()>=16) continue; size_t q=s.draw(n); lg << "split" << q; NOTE(c,lg.str()); auto pp=split(x.sf,q); Dom a=d,b=d; FloatDP mf=FT<FloatDP>::of(d.mid(q),dp); Q m=xof(mf).q; if (m!=d.mid(q)) { /* the endpoints of the parts are rounded, the model is split at the exact midpoint */ m=xof(pp.first.domain()[q].upper_bound()).q; } a.u[q]=m; b.l[q]=m; if (!exact) g_slack=qmax(g_slack,(nrm(x.sf.model())+1)*eps*4096*(1+(abs(d.l[q])+abs(d.u[q]))/d.rad(q))); std::string sx=m!=d.mid(q)?" at inexact midpoint":""; check_p("split lower"+sx,pp.first,a,f,s); check_p("split upper"+sx,pp.second,b,f,s); continue; }
        case 8: { // embed
            Dom a=gen_dom(s,s.draw(3),exact), b=gen_dom(s,s.draw(3),exact); lg << "embed" << show(a) << "," << show(b); NOTE(c,lg.str()); S r=embed(box(a),x.sf,box(b)); Dom e=a; for (size_t v=0;v<n;++v) { e.l.push_back(d.l[v]); e.u.push_back(d.u[v]); } for (size_t v=0;v<b.n();++v) { e.l.push_back(b.l[v]); e.u.push_back(b.u[v]); } size_t o=a.n(); check_p("embed",r,e,[f,o,n](Pt const& p){return f(Pt(p.begin()+o,p.begin()+o+n));},s); V rv=embed(box(a),V(2,x.sf),box(b)); check_p("embed vector",S(rv[1]),e,[f,o,n](Pt const& p){return f(Pt(p.begin()+o,p.begin()+o+n));},s); continue; }
        case 9: { size_t q=s.draw(n); Q zc=Q((long)s.range(-8,8))/8; Q pc=d.mid(q)+d.rad(q)*zc; F pf=FT<F>::of(pc,pr); pc=xof(pf).q; if (pc<d.l[q]||pc>d.u[q]) continue; lg << "partial_evaluate" << q << "," << oracle::dec(pc); NOTE(c,lg.str()); NT pn(typename TP<F>::B(pf,pf)); Dom e; for (size_t v=0;v<n;++v) if (v!=q) { e.l.push_back(d.l[v]); e.u.push_back(d.u[v]); } bool lo=loose; loose=true; slack(nrm(x.sf.model())); loose=lo; auto fe=[f,q,pc](Pt p){p.insert(p.begin()+q,pc); return f(p);}; if (s.boolean()) { S r=partial_evaluate(x.sf,q,pn); check_p("partial_evaluate",r,e,fe,s); } else { V r=partial_evaluate(V(2,x.sf),q,pn); check_p("partial_evaluate vector",S(r[s.draw(2)]),e,fe,s); } continue; }
        case 10: { if (x.sf.error().raw()!=FT<F>::of(Q(0),pr)||!px||loose) continue; size_t q=s.draw(n); lg << "derivative" << q; NOTE(c,lg.str()); k="derivative"; if (s.boolean()) x.sf=derivative(x.sf,q); else { V r=derivative(V(2,x.sf),q); x.sf=S(r[1]); } x.po=P(pder(*px,q)); x.f=pfn(*x.po); break; }
        case 11: { if (!px) continue; if (x.sf.degree()>8) continue; size_t q=s.draw(n); int m=(int)s.draw(3); Q cc=d.mid(q); if (m>0) { cc=d.mid(q)+d.rad(q)*Q((long)s.range(-8,8))/8; cc=xof(FT<F>::of(cc,pr)).q; if (cc<d.l[q]||cc>d.u[q]) continue; } F cf=FT<F>::of(cc,pr); if (m==0&&false) continue; lg << "antiderivative" << q << " from " << oracle::dec(cc); NOTE(c,lg.str()); if (m>0) loose=true; k=m==0?"antiderivative":"antiderivative from c"; if (m==0) { if (s.boolean()) x.sf=antiderivative(x.sf,q); else { V r=antiderivative(V(2,x.sf),q); x.sf=S(r[1]); } } else if (m==1) x.sf=antiderivative(x.sf,q,NT(typename TP<F>::B(cf,cf))); else { V r=antiderivative(V(2,x.sf),q,NT(typename TP<F>::B(cf,cf))); x.sf=S(r[0]); } x.po=P(pint(*px,q,cc)); x.f=pfn(*x.po); break; }
        case 12: { [&]{ // compose with patches: outer on a domain containing the ranges
            size_t m=1+s.draw(2); std::vector<S> in; std::vector<PFn> fi; Dom e; int dg=1; for (size_t v=0;v<m;++v) { I const& a=pool[s.draw(pool.size())]; auto r=a.sf.range(); X l=xof(r.lower_bound().raw()),u=xof(r.upper_bound().raw()); if (!l.finite()||!u.finite()||qmax(abs(l.q),abs(u.q))>64) return; Q rad(1,8); Q mid=Q(qfloor((l.q+u.q)/2*4+Q(1,2)))/4; while (mid-rad>l.q||mid+rad<u.q) rad*=2; if (!exact) rad+=Q((long)s.range(0,3))/4; e.l.push_back(mid-rad); e.u.push_back(mid+rad); in.push_back(a.sf); fi.push_back(a.f); dg=std::max(dg,(int)a.sf.degree()); }
            lg << "compose on " << show(e); NOTE(c,lg.str()); I o=gen_pa<F>(s,e,pr,swp,lg); NOTE(c,lg.str()); if (o.sf.degree()*dg>12) return; Q sl=g_slack; loose=true; slack(nrm(o.sf.model())); for (size_t v=0;v<m;++v) slack(abs(e.l[v])+abs(e.u[v])+1/e.rad(v)); V vin(m,in[0]); for (size_t v=0;v<m;++v) vin[v]=in[v]; S r=x.sf; k="compose"; switch (s.draw(3)) { case 0: r=compose(o.sf,vin); break; case 1: r=unchecked_compose(o.sf,vin); break; default: { V rv=compose(V(2,o.sf),vin); r=S(rv[1]); } } { Q m2=nrm(r.model()); slack(m2); } (void)sl;
            PFn of=o.f; for (int q=0;q<3;++q) { Pt zz=gen_pt(s,n); Pt p=d.phys(zz), iv; bool ok=true; for (auto& h:fi) { Iv v=h(p); if (!v.finite()||v.lower()!=v.upper()) { ok=false; break; } iv.push_back(v.lower()); } if (!ok) continue; check_value(k,r.model(),of(iv),zz); } check_sorted(k,r.model()); }(); continue; }
        case 13: { // compose a symbolic function with patches
            size_t m=1+s.draw(2); lg << "f"; Sy o=gen_sy(s,m,2,lg); std::vector<PFn> fi; std::vector<S> in; int dg=1; Q mx(1); for (size_t v=0;v<m;++v) { I const& a=pool[s.draw(pool.size())]; in.push_back(a.sf); fi.push_back(a.f); dg=std::max(dg,(int)a.sf.degree()); mx=qmax(mx,nrm(a.sf.model())); } NOTE(c,lg.str()); if (dg>3||mx>6||(n>1&&!o.po)) continue; V vin(m,in[0]); for (size_t v=0;v<m;++v) vin[v]=in[v]; loose=true; S r=x.sf; if (s.boolean()) r=compose(ValidatedScalarMultivariateFunction(o.f),vin); else { EffectiveVectorMultivariateFunction vf={o.f,o.f}; V rv=compose(ValidatedVectorMultivariateFunction(vf),vin); PBT_CHECK(rv.size()==2,"compose function size","composition has " << rv.size() << " components"); r=S(rv[0]); } slack(nrm(r.model())); slack(mx); PFn of=o.v; for (int q=0;q<3;++q) { Pt zz=gen_pt(s,n); Pt p=d.phys(zz), iv; bool ok=true; for (auto& h:fi) { Iv v=h(p); if (!v.finite()||v.lower()!=v.upper()) { ok=false; break; } iv.push_back(v.lower()); } if (!ok) continue; check_value("compose function",r.model(),of(iv),zz); } continue; }
        case 14: { // join, combine
            lg << "join"; V a=V({pool[i].sf,y.sf}); V v3=join(a,pool[i].sf), v4=join(a,a), v2=join(pool[i].sf,y.sf), v3b=join(y.sf,a); PBT_CHECK(v3.size()==3&&v4.size()==4&&v2.size()==2&&v3b.size()==3,"join size","joins have sizes " << v3.size() << "," << v4.size() << "," << v2.size() << "," << v3b.size()); check_p("join",S(v3[2]),d,f,s,1); check_p("join",S(v3[1]),d,g,s,1); check_p("join",S(v4[3]),d,g,s,1); check_p("join",S(v4[2]),d,f,s,1); check_p("join",S(v2[0]),d,f,s,1); check_p("join",S(v2[1]),d,g,s,1); check_p("join",S(v3b[0]),d,g,s,1); check_p("join",S(v3b[1]),d,f,s,1); check_p("join",S(v3b[2]),d,g,s,1);
            Dom e=gen_dom(s,1+s.draw(2),exact); I o=gen_pa<F>(s,e,pr,swp,lg); if (o.po==nullptr||lg.str().find("const")!=std::string::npos) loose=true; slack(nrm(o.sf.model())); for (size_t v=0;v<e.n();++v) slack(abs(e.mid(v))+e.rad(v)); NOTE(c,lg.str()); Dom de=d; for (size_t v=0;v<e.n();++v) { de.l.push_back(e.l[v]); de.u.push_back(e.u[v]); } PFn h=o.f; auto f1=[f,n](Pt const& p){return f(Pt(p.begin(),p.begin()+n));}, g1=[g,n](Pt const& p){return g(Pt(p.begin(),p.begin()+n));}, h1=[h,n](Pt const& p){return h(Pt(p.begin()+n,p.end()));}; V r=combine(a,o.sf); PBT_CHECK(r.size()==3,"combine size","combine has " << r.size() << " components"); check_p("combine",S(r[0]),de,f1,s,1); check_p("combine",S(r[1]),de,g1,s,1); check_p("combine",S(r[2]),de,h1,s,1); V r2=combine(pool[i].sf,o.sf); check_p("combine",S(r2[0]),de,f1,s,1); check_p("combine",S(r2[1]),de,h1,s,1); V r3=combine(pool[i].sf,V({o.sf,o.sf})); check_p("combine",S(r3[0]),de,f1,s,1); check_p("combine",S(r3[2]),de,h1,s,1); V r4=combine(a,V(2,o.sf)); check_p("combine",S(r4[1]),de,g1,s,1); check_p("combine",S(r4[3]),de,h1,s,1); continue; }
        case 15: { // vector arithmetic
            loose=true; slack(abs(zq)*4+nrm(pool[i].sf.model())+nrm(y.sf.model())); lg << "vec" << str(z); NOTE(c,lg.str()); V a({pool[i].sf,y.sf}), b({y.sf,pool[i].sf}); check_p("v+v",S((a+b)[0]),d,[f,g](Pt const& p){return f(p)+g(p);},s,1); check_p("v-v",S((a-b)[1]),d,[f,g](Pt const& p){return g(p)-f(p);},s,1); check_p("-v",S((-a)[1]),d,[g](Pt const& p){return -g(p);},s,1); check_p("c*v",S((zn*a)[0]),d,[f,zq](Pt const& p){return f(p)*Iv(zq);},s,1); check_p("v*c",S((a*zn)[1]),d,[g,zq](Pt const& p){return g(p)*Iv(zq);},s,1); if (pool[i].sf.degree()+y.sf.degree()<9) { check_p("s*v",S((y.sf*a)[0]),d,[f,g](Pt const& p){return f(p)*g(p);},s,1); check_p("v*s",S((a*y.sf)[1]),d,[f,g](Pt const& p){return g(p)*g(p);},s,1); } Vector<NT> cv(2,zn); cv[1]=NT(-zn); check_p("v+cv",S((a+cv)[1]),d,[g,zq](Pt const& p){return g(p)-Iv(zq);},s,1); check_p("v-cv",S((a-cv)[1]),d,[g,zq](Pt const& p){return g(p)+Iv(zq);},s,1); V aa=a; aa+=b; check_p("v+=v",S(aa[1]),d,[f,g](Pt const& p){return f(p)+g(p);},s,1); aa=a; aa-=b; check_p("v-=v",S(aa[0]),d,[f,g](Pt const& p){return f(p)-g(p);},s,1); aa=a; aa+=cv; check_p("v+=cv",S(aa[0]),d,[f,zq](Pt const& p){return f(p)+Iv(zq);},s,1); aa=a; aa-=cv; check_p("v-=cv",S(aa[0]),d,[f,zq](Pt const& p){return f(p)-Iv(zq);},s,1); aa=a; aa*=zn; check_p("v*=c",S(aa[1]),d,[g,zq](Pt const& p){return g(p)*Iv(zq);},s,1);
            Matrix<NT> A2(2,2,NT(0,pr)); A2[0][0]=zn; A2[0][1]=NT(1,pr); A2[1][0]=NT(-2,pr); A2[1][1]=zn; V m=A2*a; check_p("A*v",S(m[0]),d,[f,g,zq](Pt const& p){return f(p)*Iv(zq)+g(p);},s,1); check_p("A*v",S(m[1]),d,[f,g,zq](Pt const& p){return f(p)*Iv(-2)+g(p)*Iv(zq);},s,1);
            aa=a; aa[0]=aa[1]*zn+pool[i].sf; check_p("element assignment",S(aa[0]),d,[f,g,zq](Pt const& p){return g(p)*Iv(zq)+f(p);},s,1); check_p("element unassigned",S(aa[1]),d,g,s,1); X nv=xof(norm(a).raw()), e1=xof(a.error().raw()); Pt zz=gen_pt(s,n); Iv v1=f(d.phys(zz)), v2=g(d.phys(zz)); if (nv.finite()) PBT_CHECK(!surely_greater(v1,X(nv.q+g_slack))&&!surely_greater(v2,X(nv.q+g_slack))&&!surely_less(v1,X(-nv.q-g_slack)),"vector norm","norm " << oracle::show(nv) << " is below the value " << oracle::show(v1) << " or " << oracle::show(v2)); PBT_CHECK(le(xof(pool[i].sf.error().raw()),e1)&&le(xof(y.sf.error().raw()),e1),"vector error","the error " << oracle::show(e1) << " is below that of a component"); continue; }
        default: { // evaluation, polynomial form, range, distance
            lg << "eval"; NOTE(c,lg.str()); bool lo=loose; loose=true; slack(nrm(x.sf.model())); loose=lo; Vector<typename TP<F>::B> xb(n,typename TP<F>::B(0,pr)); Vector<A> xa(n,A(0,pr)); Vector<F> xv(n,FT<F>::of(Q(0),pr)); Pt p; for (size_t v=0;v<n;++v) { Q q=d.mid(v)+d.rad(v)*gen_unit(s); F fl=FT<F>::of(q,pr); q=xof(fl).q; if (q<d.l[v]||q>d.u[v]) { fl=FT<F>::of(d.mid(v),pr); q=xof(fl).q; } xb[v]=typename TP<F>::B(fl,fl); if (s.chance(1,3)&&q-d.rad(v)/16>=d.l[v]) { F l2=FT<F>::of(q-d.rad(v)/16,pr); if (xof(l2).q>=d.l[v]&&xof(l2).q<=q) xb[v]=typename TP<F>::B(l2,fl); } xa[v]=A(fl); xv[v]=fl; p.push_back(q); } Iv v=f(p); if (!v.finite()) continue; bool ok=true; for (size_t u=0;u<n;++u) if (p[u]<d.l[u]||p[u]>d.u[u]) ok=false; if (!ok) continue; auto chk=[&](std::string const& kk, auto const& b) { X l=xof(b.lower_raw()), u=xof(b.upper_raw()); if (l.is_nan()||u.is_nan()) { PBT_CHECK(!xof(x.sf.error().raw()).finite(),kk,kk << " gives nan"); return; } if (l.finite()) PBT_CHECK(!surely_less(v,X(l.q-g_slack)),kk,kk << " gives [" << oracle::show(l) << ":" << oracle::show(u) << "], but a member has value " << oracle::show(v)); if (u.finite()) PBT_CHECK(!surely_greater(v,X(u.q+g_slack)),kk,kk << " gives [" << oracle::show(l) << ":" << oracle::show(u) << "], but a member has value " << oracle::show(v)); };
            chk("operator()",x.sf(xb)); chk("operator() exact",x.sf(xv)); chk("evaluate",evaluate(x.sf,xb)); chk("unchecked_evaluate",unchecked_evaluate(x.sf,xb)); V vv({x.sf,y.sf}); chk("vector operator()",vv(xb)[0]); chk("vector evaluate",evaluate(vv,xb)[0]); { auto q=polynomial(x.sf); bool inside=true; if (inside) chk("polynomial",evaluate(q,xb)); auto qs=polynomials(vv); chk("polynomials",evaluate(qs[0],xb)); } { auto ap=x.sf(xa); X av=xof(ap.raw()); X er=xof(x.sf.error().raw()); if (av.finite()&&er.finite()) PBT_CHECK(!surely_less(v,X(av.q-er.q-g_slack-scale*scale*eps*65536))&&!surely_greater(v,X(av.q+er.q+g_slack+scale*scale*eps*65536)),"approximate","approximate value " << oracle::dec(av.q) << " is far from a member's " << oracle::show(v) << " with error " << oracle::dec(er.q)); }
            auto rg=x.sf.range(); { X l=xof(rg.lower_bound().raw()),u=xof(rg.upper_bound().raw()); if (l.finite()) PBT_CHECK(!surely_less(v,X(l.q-g_slack)),"range","range from " << oracle::show(l) << " misses " << oracle::show(v)); if (u.finite()) PBT_CHECK(!surely_greater(v,X(u.q+g_slack)),"range","range to " << oracle::show(u) << " misses " << oracle::show(v)); } { auto cd=vv.range(); X l=xof(cd[1].lower_bound().raw()),u=xof(cd[1].upper_bound().raw()); Iv w2=g(p); if (w2.finite()&&l.finite()&&u.finite()) PBT_CHECK(!surely_less(w2,X(l.q-g_slack))&&!surely_greater(w2,X(u.q+g_slack)),"vector range","range misses " << oracle::show(w2)); } { auto di=distance(x.sf,y.sf); X dx=xof(di.raw()); Iv w2=g(p); if (w2.finite()&&dx.finite()) { Iv df=v-w2; PBT_CHECK(!surely_greater(df,X(dx.q+g_slack))&&!surely_less(df,X(-dx.q-g_slack)),"distance","distance " << oracle::show(dx) << " is less than a difference " << oracle::show(df)); } }
            { // domain guard: points outside are refused
              Vector<typename TP<F>::B> ob=xb; size_t u=s.draw(n); F out=FT<F>::of(d.u[u]+Q(1),pr); ob[u]=typename TP<F>::B(out,out); bool thrown=false; try { x.sf(ob); } catch (std::exception const&) { thrown=true; } PBT_CHECK(thrown,"outside","evaluation outside the domain " << show(d) << " is not refused"); }
            { // through generic handles
              ValidatedScalarMultivariateFunction gf=x.sf.function(); chk("generic function",gf(xb)); FunctionModel<ValidatedTag,Real(RealVector),typename F::PrecisionType> fm(x.sf); chk("function model",fm(xb)); auto fm2=fm+fm; { auto r=fm2(xb); Iv v0=v; v=v+v; chk("function model sum",r); v=v0; } ValidatedVectorMultivariateFunction gv=vv.function(); chk("generic vector function",gv(xb)[0]); if (px&&x.sf.error().raw()==FT<F>::of(Q(0),pr)&&!loose&&x.sf.degree()<6) { auto J=vv.jacobian(xb); Iv v0=v; for (size_t u=0;u<n;++u) { v=Iv(peval(pder(*px,u),p)); chk("jacobian",J[0][u]); } v=v0; } }
            continue; } }
        slack(nrm(x.sf.model())); check_p(k,x.sf,d,x.f,s); check_p(k+" changes its argument",pool[i].sf,d,pool[i].f,s,1); X nm=xof(x.sf.model().norm().raw()); if (nm.finite()&&nm.q<Q(1000000)&&x.sf.number_of_nonzeros()<80) pool.push_back(x); }
    NOTE(c,lg.str()); }
// set predicates on patches
template<class F> void t_rel(PSrc& s, PCase& c) { typedef typename Tp<F>::M M; typedef ScaledFunctionPatch<M> S; auto pr=FT<F>::gen_pr(s); size_t n=1+s.draw(2); std::ostringstream lg; auto swp=TrivialSweeper<F>(pr); Dom d=gen_dom(s,n,true); lg << show(d); Sweeper<F> sw(swp); auto x=gen_pa<F>(s,d,pr,sw,lg); auto y=x; g_slack=FT<F>::eps(pr)*4096*(1+nrm(x.sf.model())); Q sc=two_exp(-(long)s.range(0,8)); Q sh=sc*Q((long)s.range(-8,8))/8, er=sc*Q((long)s.range(0,16))/8; y.sf=y.sf+typename M::NumericType(typename TP<F>::B(FT<F>::of(sh,pr))); y.sf.set_error(typename M::ErrorType(FT<F>::of(er,pr))); lg << " second shifted " << oracle::dec(sh) << " error " << oracle::dec(er); NOTE(c,lg.str()); c.interesting(true); typedef VectorScaledFunctionPatch<M> V; V vx({x.sf,x.sf}), vy({x.sf,y.sf}); bool r=refines(x.sf,y.sf), rv=refines(vx,vy); for (int q=0;q<3;++q) { Pt z=gen_pt(s,n); if (r) check_value("refines",y.sf.model(),x.f(d.phys(z)),z); if (rv) check_value("refines vector",y.sf.model(),x.f(d.phys(z)),z); } bool i=inconsistent(x.sf,y.sf), iv=inconsistent(vx,vy); Q xe=xof(x.sf.error().raw()).q, ye=xof(y.sf.error().raw()).q; if (abs(sh)+g_slack<xe+ye) PBT_CHECK(!i&&!iv,"inconsistent","patches with common members are inconsistent"); if (abs(sh)>xe+ye+g_slack) PBT_CHECK(!r&&!rv,"refines far","disjoint patches refine each other"); PBT_CHECK(same(x.sf,x.sf)&&same(vx,vx),"same","a patch differs from itself");
    // over different domains: x on d against x plus a shift on a part of d
    Dom e=d; for (size_t v=0;v<n;++v) if (s.chance(2,3)) sub_ivl(s,true,e.l[v],e.u[v]); lg << " part " << show(e); NOTE(c,lg.str()); S yp=restriction(y.sf,box(e)); Q yme=xof(yp.error().raw()).q; V vye({restriction(x.sf,box(e)),yp}); bool eq=true; for (size_t v=0;v<n;++v) if (e.l[v]!=d.l[v]||e.u[v]!=d.u[v]) eq=false; r=refines(x.sf,yp); rv=refines(vx,vye); if (r||rv) c.label("refines on a part"); for (int q=0;q<3;++q) { Pt z=gen_pt(s,n); if (r||rv) check_value("refines on a part",yp.model(),x.f(e.phys(z)),z); } if (!eq) PBT_CHECK(!refines(yp,x.sf)&&!refines(vye,vx),"refines larger domain","a patch refines one on a larger domain"); i=inconsistent(x.sf,yp)||inconsistent(yp,x.sf); iv=inconsistent(vx,vye); if (abs(sh)+g_slack<xe+ye) PBT_CHECK(!i&&!iv,"inconsistent on a part","patches with common members are inconsistent"); if (abs(sh)>xe+yme+g_slack*16) PBT_CHECK(!r&&!rv,"refines far on a part","disjoint patches refine each other");
    S yq(box(e),y.sf.model()); V vyq({restriction(x.sf,box(e)),yq}); r=refines(x.sf,yq); rv=refines(vx,vyq); if (r||rv) c.label("refines a stretched one"); for (int q=0;q<4;++q) { Pt z=gen_pt(s,n); if (r||rv) check_value("refines a stretched patch",yq.model(),x.f(e.phys(z)),z); } }
struct Init { Init() { pbt::set_reset(reset_modes); pbt::set_rule("more than one operation was applied, or two different patches were compared"); } } init_;
pbt::Register r1("patch dp",20000,300000,t_patch<FloatDP>,60), r2("patch mp",8000,100000,t_patch<FloatMP>,60), r3("relations dp",3000,30000,t_rel<FloatDP>,30), r4("relations mp",1000,10000,t_rel<FloatMP>,30);
}
