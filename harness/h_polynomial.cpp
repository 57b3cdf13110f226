// Polynomials (power and Chebyshev basis) stand for the functions their operations say.
#include "validated.hpp"
#include "series_model.hpp"
#include "coef.hpp"
#include "algebra/algebra.hpp"
#include "function/polynomial.hpp"
#include "function/chebyshev_polynomial.hpp"
#include "algebra/evaluate.tpl.hpp"
#include "algebra/expansion.tpl.hpp"
#include "algebra/vector.hpp"
using namespace Ariadne; using namespace oracle;
namespace {
const int BIG=1000;
Iv ipow(Iv const& x, int n) { Iv r(1); for (int i=0;i<n;++i) r=r*x; return r; }
Iv seval(Ser const& m, std::vector<Q> const& x) { Iv r(0); for (auto& p:m.c) { Iv t=p.second; for (size_t j=0;j<m.n;++j) t=t*ipow(Iv(x[j]),p.first[j]); r=r+t; } return r; }
template<class F> struct PV { MultivariatePolynomial<typename TP<F>::B> b; MultivariatePolynomial<typename TP<F>::A> a; Ser m; };
template<class P> bool dup(P const& p) { for (auto it=p.begin();it!=p.end();++it) { auto jt=it; for (++jt;jt!=p.end();++jt) if (it->index()==jt->index()) return true; } return false; }
MI im(MultiIndex const& a) { MI r; for (SizeType i=0;i<a.size();++i) r.push_back((int)a[i]); return r; }
int sdeg(Ser const& m) { int d=0; for (auto& p:m.c) d=std::max(d,degree(p.first)); return d; }
template<class F> void check(std::string const& k, PV<F> const& v) { PBT_CHECK(v.b.argument_size()==v.m.n&&v.a.argument_size()==v.m.n,k+" size",k << " has " << v.b.argument_size() << " arguments"); PBT_CHECK(!dup(v.b)&&!dup(v.a),k+" terms",k << " has two terms with the same index: " << v.b); 
    std::map<MI,bool> all; for (auto& p:v.m.c) all[p.first]=true; for (auto it=v.b.begin();it!=v.b.end();++it) all[im(it->index())]=true; all[MI(v.m.n,0)]=true; int d=0;
    for (auto& p:all) { Iv e=v.m[p.first]; if (!e.finite()) continue; auto const& cb=v.b; auto const& ca=v.a; check_in(k,cb[mk(p.first)],e); check_app(k,ca[mk(p.first)],cb[mk(p.first)],e); auto f=cb.find(mk(p.first)); if (f!=cb.end()) d=std::max(d,degree(p.first)); } v.b.check(); PBT_CHECK((int)v.b.degree()==d,k+" degree",k << " has degree " << v.b.degree() << ", its terms " << d); }
template<class F> PV<F> gen_pv(PSrc& s, typename F::PrecisionType pr, size_t n, int d, std::ostream& os) { typedef typename TP<F>::B B; typedef typename TP<F>::A A; Expansion<MultiIndex,B> eb(n,B(0,pr)); Expansion<MultiIndex,A> ea(n,A(0,pr)); Ser m(n,BIG); os << "{"; auto idx=indices(n,d); for (size_t i=idx.size();i>1;--i) if (s.chance(1,3)) std::swap(idx[i-1],idx[s.draw(i)]); for (auto& i:idx) { if (s.chance(1,2)) continue; Num<F> x=gen_num<F>(s,pr); eb.append(mk(i),x.b); ea.append(mk(i),x.a); m.add(i,Iv(x.q)); os << " " << show(i) << str(x); } os << "}"; return PV<F>{MultivariatePolynomial<B>(eb),MultivariatePolynomial<A>(ea),m}; }
template<class F> void t_multi(PSrc& s, PCase& c) { typedef typename TP<F>::B B; typedef typename TP<F>::A A; auto pr=FT<F>::gen_pr(s); size_t n=1+s.draw(3); int d=(int)s.draw(n>2?3:4); std::ostringstream log; log << n << " args "; std::vector<PV<F>> pool; int k0=1+(int)s.draw(3); for (int i=0;i<k0;++i) { pool.push_back(gen_pv<F>(s,pr,n,d,log)); check<F>("construct",pool.back()); } c.interesting(d>=2); if (s.chance(1,3)) { size_t j=s.draw(n); log << "coordinate" << j; pool.push_back(PV<F>{MultivariatePolynomial<B>::coordinate(n,j,B(0,pr)),MultivariatePolynomial<A>::coordinate(n,j,A(0,pr)),svar(n,BIG,Iv(0),j)}); check<F>("coordinate",pool.back()); }
    int steps=1+(int)s.draw(4); for (int t=0;t<steps;++t) { size_t i=s.draw(pool.size()), j=s.draw(pool.size()); PV<F> x=pool[i]; PV<F> const& y=pool[j]; std::string k; switch (s.weighted({3,3,4,2,2,3,3,3,2,2,2,2,2,2})) {
        case 0: k="+"; log << " +" << i << "," << j; if (s.boolean()) { x.b+=y.b; x.a+=y.a; } else { x.b=x.b+y.b; x.a=x.a+y.a; } x.m=x.m+y.m; break;
        case 1: k="-"; log << " -" << i << "," << j; if (s.boolean()) { x.b-=y.b; x.a-=y.a; } else { x.b=x.b-y.b; x.a=x.a-y.a; } x.m=x.m-y.m; break;
        case 2: if (sdeg(x.m)+sdeg(y.m)>8) continue; k="*"; log << " *" << i << "," << j; if (s.boolean()) { x.b*=y.b; x.a*=y.a; } else { x.b=x.b*y.b; x.a=x.a*y.a; } x.m=x.m*y.m; break;
        case 3: k="neg"; log << " neg" << i; if (s.boolean()) { x.b=-x.b; x.a=-x.a; x.m=-x.m; } else { x.b=+x.b; x.a=+x.a; } break;
        case 4: { if (sdeg(x.m)>3) continue; int e=(int)s.range(0,3); k="pow"; log << " pow" << i << "," << e; auto pb=x.b, ob=MultivariatePolynomial<B>::constant(n,B(1,pr)); auto pa=x.a, oa=MultivariatePolynomial<A>::constant(n,A(1,pr)); for (int q=0;q<e;++q) { ob*=pb; oa*=pa; } x.b=ob; x.a=oa; Ser r=sconst(n,BIG,Iv(1)); for (int q=0;q<e;++q) r=r*x.m; x.m=r; break; }
        case 5: { Num<F> z=gen_num<F>(s,pr); int o=(int)s.draw(6); log << " scalar" << o << str(z) << "," << i; k="scalar "+std::to_string(o); Iv q(z.q); switch (o) { case 0: x.b=x.b+z.b; x.a=x.a+z.a; x.m=x.m+q; break; case 1: x.b=z.b-x.b; x.a=z.a-x.a; x.m=-x.m+q; break; case 2: x.b*=z.b; x.a*=z.a; x.m=x.m*q; break; case 3: x.b=x.b-z.b; x.a=x.a-z.a; x.m=x.m+(-q); break; case 4: if (!in_domain("rec",xof(z.b.lower_raw()),xof(z.b.upper_raw()))) continue; x.b=x.b/z.b; x.a=x.a/z.a; x.m=x.m*rec(q); break; default: x.b+=z.b; x.a+=z.a; x.m=x.m+q; } break; }
        case 6: { size_t v=s.draw(n); k="derivative"; log << " derivative" << i << "," << v; x.b=derivative(x.b,v); x.a=derivative(x.a,v); Ser r(n,BIG); r.c=sderiv(x.m,v).c; x.m=r; break; }
        case 7: { size_t v=s.draw(n); k="antiderivative"; log << " antiderivative" << i << "," << v; x.b=antiderivative(x.b,v); x.a=antiderivative(x.a,v); Ser r(n,BIG); r.c=santi(x.m,v).c; x.m=r; break; }
        case 8: { int nd=(int)s.draw(sdeg(x.m)+2); k="truncate"; log << " truncate" << i << "," << nd; x.b=truncate(x.b,(DegreeType)nd); x.a=truncate(x.a,(DegreeType)nd); Ser r(n,BIG); for (auto& p:x.m.c) if (degree(p.first)<=nd) r.add(p.first,p.second); x.m=r; break; }
        case 9: { k="monomial"; MI e(n,0); for (auto& q:e) q=(int)s.draw(3); Num<F> z=gen_num<F>(s,pr); log << " monomial" << i << show(e) << str(z); x.b=AlgebraOperations<MultivariatePolynomial<B>>::apply(Mul(),x.b,MultivariateMonomial<B>(mk(e),z.b)); x.a=AlgebraOperations<MultivariatePolynomial<A>>::apply(Mul(),x.a,MultivariateMonomial<A>(mk(e),z.a)); Ser r(n,BIG); for (auto& p:x.m.c) { MI q=p.first; for (size_t w=0;w<n;++w) q[w]+=e[w]; r.add(q,p.second*Iv(z.q)); } x.m=r; break; }
        case 10: { if (n<2) continue; size_t v=s.draw(n); Num<F> z=gen_num<F>(s,pr); if (s.chance(1,4)) z=Num<F>{B(1,pr),A(1,pr),FT<F>::of(Q(1),pr),Q(1)}; k="partial_evaluate"; log << " partial_evaluate" << i << "," << v << str(z); Ser r(n-1,BIG); for (auto& p:x.m.c) { MI q=p.first; int e=q[v]; q.erase(q.begin()+(long)v); r.add(q,p.second*ipow(Iv(z.q),e)); } check<F>(k,PV<F>{partial_evaluate(x.b,v,z.b),partial_evaluate(x.a,v,z.a),r}); continue; }
        case 11: { k="assign"; Num<F> z=gen_num<F>(s,pr); log << " assign" << str(z); x.b=z.b; x.a=z.a; x.m=sconst(n,BIG,Iv(z.q)); break; }
        case 12: { if (sdeg(x.m)>4) continue; size_t l=1+s.draw(2); k="compose"; log << " compose" << i << " with "; std::vector<PV<F>> g; for (size_t v=0;v<n;++v) g.push_back(gen_pv<F>(s,pr,l,1,log)); Ser r(l,BIG); for (auto& p:x.m.c) { Ser u=sconst(l,BIG,p.second); for (size_t v=0;v<n;++v) for (int e=0;e<p.first[v];++e) u=u*g[v].m; r=r+u; } check<F>(k,PV<F>{compose(x.b,Vector<MultivariatePolynomial<B>>(n,[&](SizeType v){return g[v].b;})),compose(x.a,Vector<MultivariatePolynomial<A>>(n,[&](SizeType v){return g[v].a;})),r}); continue; }
        default: { k="set"; MI e(n,0); for (auto& q:e) q=(int)s.draw(3); Num<F> z=gen_num<F>(s,pr); log << " set" << show(e) << str(z); x.b[mk(e)]=z.b; x.a[mk(e)]=z.a; x.m.c.erase(e); x.m.add(e,Iv(z.q)); } }
        check<F>(k,x); for (auto& p:pool) check<F>(k+" changes its argument",p);
        { std::vector<Q> pt; Vector<B> vb(n,B(0,pr)); Vector<A> va(n,A(0,pr)); for (size_t v=0;v<n;++v) { Num<F> z=gen_num<F>(s,pr,1); pt.push_back(z.q); vb[v]=z.b; va[v]=z.a; } Iv e=seval(x.m,pt); B r=evaluate(x.b,vb); check_in("evaluate after "+k,r,e); check_app("evaluate after "+k,evaluate(x.a,va),r,e); if (s.chance(1,3)) { check_in("power_evaluate",power_evaluate(x.b.expansion(),vb),e); check_in("horner_evaluate",horner_evaluate(x.b.expansion(),vb),e); } }
        bool sm=x.m.c.size()<60; for (auto& p:x.m.c) if (!p.second.finite()||abs(p.second.lower())>Q(1000000)) sm=false; if (sm) pool.push_back(x); }
    NOTE(c,log.str()); }
template<class F> struct PU { UnivariatePolynomial<typename TP<F>::B> b; UnivariatePolynomial<typename TP<F>::A> a; Ser m; };
template<class F> void check(std::string const& k, PU<F> const& v) { PBT_CHECK(!dup(v.b)&&!dup(v.a),k+" terms",k << " has two terms of the same degree: " << v.b); int d=0; int top=std::max(sdeg(v.m),(int)v.b.degree())+2; for (int i=0;i<=top;++i) { Iv e=v.m[MI(1,i)]; if (!e.finite()) continue; auto const& cb=v.b; auto const& ca=v.a; check_in(k,cb[UniIndex((DegreeType)i)],e); check_app(k,ca[UniIndex((DegreeType)i)],cb[UniIndex((DegreeType)i)],e); } for (auto it=v.b.begin();it!=v.b.end();++it) d=std::max(d,(int)(DegreeType)it->index()); PBT_CHECK((int)v.b.degree()==d,k+" degree",k << " has degree " << v.b.degree() << ", its terms " << d); }
template<class F> PU<F> gen_pu(PSrc& s, typename F::PrecisionType pr, int d, std::ostream& os) { typedef typename TP<F>::B B; typedef typename TP<F>::A A; Expansion<UniIndex,B> eb(SizeOne(),B(0,pr)); Expansion<UniIndex,A> ea(SizeOne(),A(0,pr)); Ser m(1,BIG); os << "{"; for (int i=0;i<=d;++i) { if (s.chance(1,3)) continue; Num<F> x=gen_num<F>(s,pr); eb.append(UniIndex((DegreeType)i),x.b); ea.append(UniIndex((DegreeType)i),x.a); m.add(MI(1,i),Iv(x.q)); os << " " << i << ":" << str(x); } os << "}"; return PU<F>{UnivariatePolynomial<B>(eb),UnivariatePolynomial<A>(ea),m}; }
template<class F> void t_uni(PSrc& s, PCase& c) { typedef typename TP<F>::B B; typedef typename TP<F>::A A; auto pr=FT<F>::gen_pr(s); int d=(int)s.draw(5); std::ostringstream log; std::vector<PU<F>> pool; int k0=1+(int)s.draw(2); for (int i=0;i<k0;++i) { pool.push_back(gen_pu<F>(s,pr,d,log)); check<F>("uconstruct",pool.back()); } c.interesting(d>=2); if (s.chance(1,4)) { pool.push_back(PU<F>{UnivariatePolynomial<B>::coordinate(B(0,pr)),UnivariatePolynomial<A>::coordinate(A(0,pr)),svar(1,BIG,Iv(0),0)}); check<F>("ucoordinate",pool.back()); }
    int steps=1+(int)s.draw(4); for (int t=0;t<steps;++t) { size_t i=s.draw(pool.size()), j=s.draw(pool.size()); PU<F> x=pool[i]; PU<F> const& y=pool[j]; std::string k; switch (s.weighted({3,3,4,2,3,3,2,2,3})) {
        case 0: k="u+"; log << " +" << i << "," << j; x.b=x.b+y.b; x.a=x.a+y.a; x.m=x.m+y.m; break;
        case 1: k="u-"; log << " -" << i << "," << j; x.b=x.b-y.b; x.a=x.a-y.a; x.m=x.m-y.m; break;
        case 2: if (sdeg(x.m)+sdeg(y.m)>12) continue; k="u*"; log << " *" << i << "," << j; x.b=x.b*y.b; x.a=x.a*y.a; x.m=x.m*y.m; break;
        case 3: { Num<F> z=gen_num<F>(s,pr); k="uscalar"; log << " scalar" << str(z) << i; if (s.boolean()) { x.b=x.b+z.b; x.a=x.a+z.a; x.m=x.m+Iv(z.q); } else { x.b=x.b*z.b; x.a=x.a*z.a; x.m=x.m*Iv(z.q); } break; }
        case 4: { k="uderivative"; log << " derivative" << i; x.b.differentiate(IndexZero()); x.a.differentiate(IndexZero()); Ser r(1,BIG); r.c=sderiv(x.m,0).c; x.m=r; break; }
        case 5: { k="uantiderivative"; log << " antiderivative" << i; x.b.antidifferentiate(IndexZero()); x.a.antidifferentiate(IndexZero()); Ser r(1,BIG); r.c=santi(x.m,0).c; x.m=r; break; }
        case 6: { int nd=(int)s.draw(sdeg(x.m)+2); k="utruncate"; log << " truncate" << i << "," << nd; x.b=truncate(x.b,(DegreeType)nd); x.a=truncate(x.a,(DegreeType)nd); Ser r(1,BIG); for (auto& p:x.m.c) if (degree(p.first)<=nd) r.add(p.first,p.second); x.m=r; break; }
        case 7: { k="uassign"; Num<F> z=gen_num<F>(s,pr); log << " assign" << str(z); x.b=z.b; x.a=z.a; x.m=sconst(1,BIG,Iv(z.q)); break; }
        default: { if (sdeg(x.m)*sdeg(y.m)>12) continue; k="ucompose"; log << " compose" << i << "," << j; Ser r(1,BIG); for (auto& p:x.m.c) { Ser u=sconst(1,BIG,p.second); for (int e=0;e<p.first[0];++e) u=u*y.m; r=r+u; } x.b=compose(x.b,y.b); x.a=compose(x.a,y.a); x.m=r; } }
        check<F>(k,x); for (auto& p:pool) check<F>(k+" changes its argument",p); { Num<F> z=gen_num<F>(s,pr,1); Iv e=seval(x.m,{z.q}); B r=evaluate(x.b,z.b); check_in("evaluate after "+k,r,e); check_app("evaluate after "+k,evaluate(x.a,z.a),r,e); }
        bool sm=true; for (auto& p:x.m.c) if (!p.second.finite()||abs(p.second.lower())>Q(1000000)) sm=false; if (sm) pool.push_back(x); }
    NOTE(c,log.str()); }
// Chebyshev: compare with evaluation of T_k by its definition on exact coefficients; all numbers dyadic and small, so a generous tolerance is exact enough
Iv cheb(int k, Iv const& x) { Iv a(1), b=x; if (k==0) return a; for (int i=1;i<k;++i) { Iv n=Iv(2)*x*b-a; a=b; b=n; } return b; }
template<class A> void near(std::string const& k, A const& r, Iv const& e, Q const& scale) { X x=xof(r.raw()); PBT_CHECK(x.finite(),k,k << " gives " << oracle::show(r.raw()) << ", expected " << oracle::show(e)); Q tol=scale*FT<std::decay_t<decltype(r.raw())>>::eps(r.precision())*256; PBT_CHECK(x.q>=e.lower()-tol&&x.q<=e.upper()+tol,k,k << " gives " << oracle::show(r.raw()) << ", expected " << oracle::show(e)); }
template<class F> void t_cheb(PSrc& s, PCase& c) { typedef Approximation<F> A; typedef UnivariateChebyshevPolynomial<A> P; auto pr=FT<F>::gen_pr(s); struct V { P p; std::map<int,Q> m; }; std::ostringstream log; auto gen=[&]{ int d=(int)s.draw(6); std::map<int,Q> m; std::vector<A> co; log << "{"; for (int i=0;i<=d;++i) { Q q=s.chance(1,3)?Q(0):Q((long)s.range(-8,8))/4; m[i]=q; co.push_back(A(FT<F>::of(q,pr))); log << oracle::show(q) << ","; } log << "}"; return V{P((DegreeType)d,[&](DegreeType i){return co[i];}),m}; };
    V x=gen(), y=gen(); if (s.chance(1,4)) { int k=(int)s.draw(7); log << "basis" << k; y=V{P::basis((SizeType)k,pr),{{k,Q(1)}}}; } if (s.chance(1,6)) { log << "coordinate"; y=V{P::coordinate(pr),{{1,Q(1)}}}; } int op=(int)s.draw(7); Q z=Q((long)s.range(-8,8))/4; std::vector<Q> pts; for (int i=0;i<3;++i) pts.push_back(Q((long)s.range(-16,16))/16); auto ev=[](std::map<int,Q> const& m, Q const& t) { Iv r(0); for (auto& p:m) r=r+Iv(p.second)*cheb(p.first,Iv(t)); return r; }; A za(FT<F>::of(z,pr)); P r=x.p; static char const* N[]={"cheb+","cheb-","cheb*","chebneg","cheb scalar+","cheb scalar*","chebsqr"}; log << N[op] << oracle::show(z); NOTE(c,log.str()); c.interesting(x.m.size()>1&&y.m.size()>1);
    switch (op) { case 0: r=x.p+y.p; break; case 1: r=x.p-y.p; break; case 2: r=x.p*y.p; break; case 3: r=-x.p; break; case 4: r=x.p+za; break; case 5: r=x.p*za; break; default: r=sqr(x.p); }
    for (auto& t:pts) { Iv a=ev(x.m,t), b=ev(y.m,t), e=a; switch (op) { case 0: e=a+b; break; case 1: e=a-b; break; case 2: e=a*b; break; case 3: e=-a; break; case 4: e=a+Iv(z); break; case 5: e=a*Iv(z); break; default: e=a*a; } A ta(FT<F>::of(t,pr)); near(std::string("evaluate of ")+N[op],r(ta),e,Q(4096)); near("evaluate",x.p(ta),a,Q(4096)); near("evaluate",evaluate(y.p,ta),b,Q(4096)); X nm=xof(sup_norm(r).raw()); if (e.finite()) PBT_CHECK(nm.kind==1||nm.q*(1+two_exp(-5))+two_exp(-5)>=qmax(e.lower(),-e.upper()),"sup_norm","sup_norm " << oracle::show(nm) << " is below the value " << oracle::show(e) << " at " << oracle::show(t)); } }
template<class F> void t_mcheb(PSrc& s, PCase& c) { typedef Approximation<F> A; typedef MultivariateChebyshevPolynomial<A> P; auto pr=FT<F>::gen_pr(s); size_t n=1+s.draw(3); std::ostringstream log; log << n << " args "; std::vector<Q> pt; Vector<A> va(n,A(0,pr)); for (size_t i=0;i<n;++i) { pt.push_back(Q((long)s.range(-16,16))/16); va[i]=A(FT<F>::of(pt[i],pr)); log << oracle::show(pt[i]) << " "; }
    std::vector<std::pair<P,Iv>> pool; Q scale(1); for (int i=0;i<2+(int)s.draw(2);++i) { size_t j=s.draw(n); switch (s.draw(3)) { case 0: { int k=(int)s.draw(5); log << "basis" << j << "^" << k << " "; pool.push_back({P::basis(n,j,(SizeType)k,pr),cheb(k,Iv(pt[j]))}); break; } case 1: log << "coordinate" << j << " "; pool.push_back({P::coordinate(n,j,pr),Iv(pt[j])}); break; default: { Q z=Q((long)s.range(-8,8))/4; log << "constant" << oracle::show(z) << " "; pool.push_back({P::constant(n,A(FT<F>::of(z,pr))),Iv(z)}); } } }
    int steps=1+(int)s.draw(5); c.interesting(steps>1); for (int t=0;t<steps;++t) { size_t i=s.draw(pool.size()), j=s.draw(pool.size()); P x=pool[i].first, y=pool[j].first; Iv a=pool[i].second,b=pool[j].second; std::string k; Q z=Q((long)s.range(-8,8))/4; A za(FT<F>::of(z,pr)); switch (s.draw(7)) { case 0: k="mcheb+"; x=x+y; a=a+b; break; case 1: k="mcheb-"; x=x-y; a=a-b; break; case 2: k="mcheb*"; x=x*y; a=a*b; break; case 3: k="mchebneg"; x=-x; a=-a; break; case 4: k="mcheb scalar+"; x=x+za; a=a+Iv(z); break; case 5: k="mcheb scalar*"; x=x*za; a=a*Iv(z); break; default: k="mchebsqr"; x=sqr(x); a=a*a; } log << k << i << "," << j << " " << oracle::show(z); if (!a.finite()||abs(a.lower())>4096||xof(sup_norm(x).raw()).q>Q(1000000)) break; scale=qmax(scale,xof(sup_norm(x).raw()).q); near(k,x(va),a,scale*16+64); near(k,evaluate(x,va),a,scale*16+64); X nm=xof(sup_norm(x).raw()); PBT_CHECK(nm.q*(1+two_exp(-4))+two_exp(-4)>=qmax(a.lower(),-a.upper()),"sup_norm","sup_norm " << oracle::show(nm) << " is below the value " << oracle::show(a)); pool.push_back({x,a}); } NOTE(c,log.str()); }
#define BOTH(nm,fn,q,t) pbt::Register nm##d(#nm "_dp",q,t,fn<FloatDP>,20), nm##m(#nm "_mp",q/2,t/2,fn<FloatMP>,20);
BOTH(multivariate,t_multi,30000,400000) BOTH(univariate,t_uni,30000,600000) BOTH(chebyshev,t_cheb,15000,300000) BOTH(multivariate_chebyshev,t_mcheb,10000,200000)
struct Init { Init() { pbt::set_rule("degree at least two, or more than one operation or term"); pbt::set_reset(reset_modes); } } init;
}
