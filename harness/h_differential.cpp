// Differentials hold the Taylor coefficients of the functions they stand for.
#include "validated.hpp"
#include "series_model.hpp"
#include "coef.hpp"
#include "algebra/differential.hpp"
#include "algebra/univariate_differential.hpp"
#include "algebra/series.hpp"
#include "algebra/matrix.hpp"
#include "algebra/covector.hpp"
#include "geometry/interval.hpp"
using namespace Ariadne; using namespace oracle;
namespace {
template<class F> struct Val { Differential<typename TP<F>::B> b; Differential<typename TP<F>::A> a; Ser m; };
template<class F> Val<F> gen_val(PSrc& s, typename F::PrecisionType pr, size_t n, int d, std::ostream& os, bool sparse=false) { typedef typename TP<F>::B B; typedef typename TP<F>::A A; Val<F> r{Differential<B>(n,(DegreeType)d,B(0,pr)),Differential<A>(n,(DegreeType)d,A(0,pr)),Ser(n,d)}; os << "{deg " << d; for (auto& i:indices(n,d)) { if (degree(i)>0?s.chance(sparse?3:1,sparse?4:2):s.chance(1,8)) continue; Num<F> x=gen_num<F>(s,pr); r.b[mk(i)]=x.b; r.a[mk(i)]=x.a; r.m.add(i,Iv(x.q)); os << " " << show(i) << str(x); } os << "}"; return r; }
template<class F> void check(std::string const& k, Val<F> const& v) { PBT_CHECK((int)v.b.degree()==v.m.d&&(int)v.a.degree()==v.m.d,k+" degree",k << " has degree " << v.b.degree() << ", expected " << v.m.d); PBT_CHECK(v.b.argument_size()==v.m.n,k+" size",k << " has " << v.b.argument_size() << " arguments");
    auto const& cb=v.b; auto const& ca=v.a; for (auto it=cb.begin();it!=cb.end();++it) PBT_CHECK(it->index().degree()<=cb.degree(),k+" degree",k << " has a term of degree " << it->index().degree() << " beyond its degree " << cb.degree()); cb.check();
    for (auto& i:indices(v.m.n,v.m.d)) { Iv e=v.m[i]; if (!e.finite()) continue; X l=VT<typename TP<F>::B>::lo(cb[mk(i)]); check_in(k,cb[mk(i)],e); check_app(k,ca[mk(i)],cb[mk(i)],e); } }
char const* UN[]={"neg","sqr","rec","sqrt","exp","log","sin","cos","tan","atan","abs","hlf","pos"};
template<class D> D unary(std::string const& f, D const& x) { if (f=="neg") return -x; if (f=="pos") return +x; if (f=="hlf") return hlf(x); if (f=="sqr") return sqr(x); if (f=="rec") return rec(x); if (f=="sqrt") return sqrt(x); if (f=="exp") return exp(x); if (f=="log") return log(x); if (f=="sin") return sin(x); if (f=="cos") return cos(x); if (f=="tan") return tan(x); if (f=="atan") return atan(x); if constexpr (requires { abs(x); }) return abs(x); else return x; }
inline Ser mabs(Ser const& m, bool neg) { return neg?-m:m; }
template<class F> bool small(Val<F> const& v) { for (auto& p:v.m.c) if (!p.second.finite()||abs(p.second.lower())>Q(1000000)) return false; return true; }
template<class F> void t_arith(PSrc& s, PCase& c) { typedef typename TP<F>::B B; typedef typename TP<F>::A A; auto pr=FT<F>::gen_pr(s); if (FT<F>::bits(pr)<24) pr=decltype(pr)(FT<F>::gen_pr(s)); size_t n=1+s.draw(3); int d=(int)s.draw(n>2?4:6); std::ostringstream log; std::vector<Val<F>> pool; log << n << " args "; int k=1+(int)s.draw(2); for (int i=0;i<k;++i) pool.push_back(gen_val<F>(s,pr,n,s.chance(1,6)?(int)s.draw(d+1):d,log)); if (s.chance(1,3)) { Num<F> x=gen_num<F>(s,pr); size_t j=s.draw(n); log << "var" << j << str(x); pool.push_back(Val<F>{Differential<B>::variable(n,(DegreeType)d,x.b,j),Differential<A>::variable(n,(DegreeType)d,x.a,j),svar(n,d,Iv(x.q),j)}); check<F>("variable",pool.back()); } if (s.chance(1,4)) { Num<F> x=gen_num<F>(s,pr); log << "const" << str(x); pool.push_back(Val<F>{Differential<B>::constant(n,(DegreeType)d,x.b),Differential<A>::constant(n,(DegreeType)d,x.a),sconst(n,d,Iv(x.q))}); check<F>("constant",pool.back()); }
    int steps=1+(int)s.draw(3); c.interesting(d>=2); for (int t=0;t<steps;++t) { size_t i=s.draw(pool.size()), j=s.draw(pool.size()); Val<F> x=pool[i]; Val<F> const& y=pool[j]; std::string k; 
        switch (s.weighted({3,3,4,3,8,2,2,2,2,2,2})) {
            case 0: k="+"; log << " +" << i << "," << j; if (s.boolean()) { x.b+=y.b; x.a+=y.a; } else { x.b=x.b+y.b; x.a=x.a+y.a; } x.m=x.m+y.m; break;
            case 1: k="-"; log << " -" << i << "," << j; if (s.boolean()) { x.b-=y.b; x.a-=y.a; } else { x.b=x.b-y.b; x.a=x.a-y.a; } x.m=x.m-y.m; break;
            case 2: k="*"; log << " *" << i << "," << j; if (s.boolean()) { x.b*=y.b; x.a*=y.a; } else { x.b=x.b*y.b; x.a=x.a*y.a; } x.m=x.m*y.m; break;
            case 3: { if (!in_domain("rec",xof(y.b.value().lower_raw()),xof(y.b.value().upper_raw()))) { log << " skip"; continue; } k="/"; log << " /" << i << "," << j; if (s.boolean()) { x.b/=y.b; x.a/=y.a; } else { x.b=x.b/y.b; x.a=x.a/y.a; } x.m=x.m*scompose(taylor("rec",y.m.value(),y.m.d),y.m); break; }
            case 4: { k=UN[s.draw(sizeof(UN)/sizeof(*UN))]; if (!in_domain(k,xof(x.b.value().lower_raw()),xof(x.b.value().upper_raw()))) { log << " skip"; continue; } log << " " << k << i; bool neg=surely_less(x.m.value(),X(Q(0))); x.b=unary(k,x.b); x.a=unary(k,x.a); x.m=k=="abs"?mabs(x.m,neg):scompose(taylor(k,x.m.value(),x.m.d),x.m); break; }
            case 5: { int e=(int)s.range(0,5); k="pow"; if (s.chance(1,4)) { if (!in_domain("rec",xof(x.b.value().lower_raw()),xof(x.b.value().upper_raw()))) { log << " skip"; continue; } e=-e; } log << " pow" << i << "," << e; x.b=pow(x.b,(Int)e); x.a=pow(x.a,(Int)e); Ser b=e<0?scompose(taylor("rec",x.m.value(),x.m.d),x.m):x.m; Ser r=sconst(n,x.m.d,Iv(1)); for (int q=0;q<std::abs(e);++q) r=r*b; x.m=r; break; }
            case 6: { Num<F> z=gen_num<F>(s,pr); int o=(int)s.draw(6); log << " scalar" << o << str(z) << "," << i; k="scalar "+std::to_string(o); Iv q(z.q); switch (o) { case 0: x.b=x.b+z.b; x.a=x.a+z.a; x.m=x.m+q; break; case 1: x.b=z.b-x.b; x.a=z.a-x.a; x.m=-x.m+q; break; case 2: x.b*=z.b; x.a*=z.a; x.m=x.m*q; break; case 3: x.b=x.b-z.b; x.a=x.a-z.a; x.m=x.m+(-q); break; case 4: if (!in_domain("rec",xof(z.b.lower_raw()),xof(z.b.upper_raw()))) continue; x.b=x.b/z.b; x.a=x.a/z.a; x.m=x.m*rec(q); break; default: if (!in_domain("rec",xof(x.b.value().lower_raw()),xof(x.b.value().upper_raw()))) continue; x.b=z.b/x.b; x.a=z.a/x.a; x.m=scompose(taylor("rec",x.m.value(),x.m.d),x.m)*q; } break; }
            case 7: { size_t v=s.draw(n); k="derivative"; log << " derivative" << i << "," << v; if (x.m.d==0) { x.b=derivative(x.b,v); continue; } x.b=derivative(x.b,v); x.a=derivative(x.a,v); x.m=sderiv(x.m,v); break; }
            case 8: { size_t v=s.draw(n); k="antiderivative"; if (x.m.d>6) continue; log << " antiderivative" << i << "," << v; x.b=antiderivative(x.b,v); x.a=antiderivative(x.a,v); x.m=santi(x.m,v); break; }
            case 9: { bool mx=s.boolean(); X xl=xof(x.b.value().lower_raw()), xu=xof(x.b.value().upper_raw()), yl=xof(y.b.value().lower_raw()), yu=xof(y.b.value().upper_raw()); if (!lt(xu,yl)&&!lt(yu,xl)) { log << " skip"; continue; } if (!xl.finite()||!xu.finite()||!yl.finite()||!yu.finite()) continue; k=mx?"max":"min"; log << " " << k << i << "," << j; bool first=lt(xu,yl)!=mx; x.b=mx?max(x.b,y.b):min(x.b,y.b); x.a=mx?max(x.a,y.a):min(x.a,y.a); if (!first) x.m=y.m; break; }
            default: { int nd=(int)s.draw(x.m.d+1); k="set_degree"; log << " set_degree" << i << "," << nd; x.b.set_degree((DegreeType)nd); x.a.set_degree((DegreeType)nd); Ser r(n,nd); for (auto& p:x.m.c) r.add(p.first,p.second); x.m=r; } }
        check<F>(k,x); for (auto& p:pool) check<F>(k+" changes its argument",p); if (small(x)) pool.push_back(x); }
    NOTE(c,log.str()); }
template<class F> void t_access(PSrc& s, PCase& c) { typedef typename TP<F>::B B; auto pr=FT<F>::gen_pr(s); size_t n=1+s.draw(3); int d=1+(int)s.draw(3); std::ostringstream log; Val<F> x=gen_val<F>(s,pr,n,d,log); NOTE(c,log.str()); c.interesting(n>1); auto const& b=x.b; auto same=[](B const& p,B const& q){ return oracle::same(VT<B>::lo(p),VT<B>::lo(q))&&oracle::same(VT<B>::hi(p),VT<B>::hi(q)); };
    check_in("value",b.value(),x.m.value()); auto g=b.gradient(); for (size_t j=0;j<n;++j) { MI u(n,0); u[j]=1; check_in("gradient",b.gradient(j),x.m[u]); check_in("gradient",g[j],x.m[u]); check_in("[]",b[j],x.m[u]); PBT_CHECK(same(g[j],b.gradient(j)),"gradient","gradient entries differ"); }
    if (d>=2) { auto H=b.hessian(), h=b.half_hessian(); for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) { MI u(n,0); ++u[i]; ++u[j]; Iv e=x.m[u]; if (i==j) e=e*Iv(2); check_in("hessian",H.get(i,j),e); check_in("half_hessian",h.get(i,j),e*Iv(Q(1,2))); } }
    Num<F> z=gen_num<F>(s,pr); size_t j=s.draw(n); Val<F> y=x; y.b.set_value(z.b); y.a.set_value(z.a); y.m.c.erase(MI(n,0)); y.m.add(MI(n,0),Iv(z.q)); check<F>("set_value",y); MI u(n,0); u[j]=1; y.b.set_gradient(j,z.b); y.a.set_gradient(j,z.a); y.m.c.erase(u); y.m.add(u,Iv(z.q)); check<F>("set_gradient",y); y.b=z.b; y.a=z.a; y.m=sconst(n,d,Iv(z.q)); check<F>("assign constant",y); check<F>("copy",x);
    { auto eqv=[&](Val<F> const& p, Val<F> const& q, std::string const& k){ bool apart=false; for (auto& ix:indices(n,d)) { X pl=xof(p.b[mk(ix)].lower_raw()),pu=xof(p.b[mk(ix)].upper_raw()),ql=xof(q.b[mk(ix)].lower_raw()),qu=xof(q.b[mk(ix)].upper_raw()); if (lt(pu,ql)||lt(qu,pl)) apart=true; } auto r=(p.b==q.b); if (apart) PBT_CHECK(definitely(!r),"==",k << ": different differentials are not found different"); else PBT_CHECK(!definitely(!r),"==",k << ": differentials which may be equal are found different"); if (definitely(r)) for (auto& ix:indices(n,d)) { X pl=xof(p.b[mk(ix)].lower_raw()),pu=xof(p.b[mk(ix)].upper_raw()),ql=xof(q.b[mk(ix)].lower_raw()),qu=xof(q.b[mk(ix)].upper_raw()); PBT_CHECK(oracle::same(pl,pu)&&oracle::same(pl,ql)&&oracle::same(ql,qu),"==",k << ": uncertain differentials are definitely equal"); } };
      eqv(x,x,"itself"); Val<F> w=x; auto all=indices(n,d); auto ix=all[s.draw(all.size())]; Num<F> h=gen_num<F>(s,pr); w.b[mk(ix)]=h.b; w.b.cleanup(); eqv(x,w,"one coefficient changed"); eqv(w,x,"one coefficient changed"); Val<F> o=gen_val<F>(s,pr,n,d,log); eqv(x,o,"another"); eqv(o,x,"another"); }
    { Vector<B> v(n,[&](SizeType){ return B(0,pr); }); std::vector<Q> q(n); for (size_t i=0;i<n;++i) { Num<F> w=gen_num<F>(s,pr); v[i]=w.b; q[i]=w.q; } auto V=Differential<B>::variables((DegreeType)d,v); PBT_CHECK(V.size()==n,"variables","size of variables"); for (size_t i=0;i<n;++i) { Ser m=svar(n,d,Iv(q[i]),i); Differential<B> const& D=V[i]; for (auto& k:indices(n,d)) { check_in("variables",D[mk(k)],m[k]); } } auto J=V.jacobian(); for (size_t i=0;i<n;++i) for (size_t k=0;k<n;++k) check_in("jacobian",J.get(i,k),Q(i==k?1:0)); auto val=V.value(); for (size_t i=0;i<n;++i) PBT_CHECK(same(val[i],v[i]),"value","value of variables");
      size_t l=1+s.draw(3); int da=(int)s.draw(3); Matrix<B> G(n,l,B(0,pr)); std::vector<std::vector<Q>> gq(n,std::vector<Q>(l)); for (size_t i=0;i<n;++i) for (size_t k=0;k<l;++k) { Num<F> w=gen_num<F>(s,pr,1); if (s.chance(1,4)) w=Num<F>{B(FT<F>::of(Q(-1,8),pr),FT<F>::of(Q(1,8),pr)),typename TP<F>::A(FT<F>::of(Q(1,16),pr)),FT<F>::of(Q(1,16),pr),Q(1,16)}; G.at(i,k)=w.b; gq[i][k]=w.q; } auto W=Differential<B>::affine((DegreeType)da,v,G); auto C=Differential<B>::constants(l,(DegreeType)da,v); PBT_CHECK(W.size()==n&&W.argument_size()==l&&C.size()==n&&C.argument_size()==l,"affine","size of affine"); for (size_t i=0;i<n;++i) { Ser m=sconst(l,da,Iv(q[i])), mc=m; for (size_t k=0;k<l;++k) { MI u(l,0); u[k]=1; m.add(u,Iv(gq[i][k])); } Covector<B> row(l,B(0,pr)); for (size_t k=0;k<l;++k) row[k]=G.get(i,k); Differential<B> D=W[i], R=Differential<B>::affine((DegreeType)da,v[i],row), K=C[i]; D.check(); R.check(); for (auto& k:indices(l,da)) { auto const& cD=D; auto const& cR=R; auto const& cK=K; check_in("vector affine",cD[mk(k)],m[k]); check_in("affine",cR[mk(k)],m[k]); check_in("constants",cK[mk(k)],mc[k]); } PBT_CHECK(D.degree()==da&&R.degree()==da,"affine","degree of affine"); } } }
template<class F> struct VV { std::vector<Val<F>> v; Vector<Differential<typename TP<F>::B>> b() const { return Vector<Differential<typename TP<F>::B>>(v.size(),[&](SizeType i){ return v[i].b; }); } Vector<Differential<typename TP<F>::A>> a() const { return Vector<Differential<typename TP<F>::A>>(v.size(),[&](SizeType i){ return v[i].a; }); } std::vector<Ser> m() const { std::vector<Ser> r; for (auto& x:v) r.push_back(x.m); return r; } };
template<class F> VV<F> gen_vv(PSrc& s, typename F::PrecisionType pr, size_t m, size_t n, int d, std::ostream& os) { VV<F> r; for (size_t i=0;i<m;++i) r.v.push_back(gen_val<F>(s,pr,n,d,os,true)); return r; }
template<class F> void check(std::string const& k, Vector<Differential<typename TP<F>::B>> const& b, Vector<Differential<typename TP<F>::A>> const& a, std::vector<Ser> const& m) { PBT_CHECK(b.size()==m.size()&&a.size()==m.size(),k,k << " has size " << b.size()); for (size_t i=0;i<m.size();++i) check<F>(k,Val<F>{b[i],a[i],m[i]}); }
template<class F> void t_vector(PSrc& s, PCase& c) { typedef typename TP<F>::B B; typedef typename TP<F>::A A; auto pr=FT<F>::gen_pr(s); size_t m=1+s.draw(2), n=1+s.draw(3), l=1+s.draw(2); int d=1+(int)s.draw(4); std::ostringstream log; VV<F> f=gen_vv<F>(s,pr,m,n,d,log); log << " o "; VV<F> g=gen_vv<F>(s,pr,n,l,s.chance(1,5)?1+(int)s.draw(4):d,log); NOTE(c,log.str()); c.interesting(d>=2); auto gb=g.b(); auto ga=g.a(); 
    std::vector<Ser> e; for (auto& x:f.v) e.push_back(scompose(x.m,g.m())); check<F>("compose",compose(f.b(),gb),compose(f.a(),ga),e); check<F>("compose changes its argument",gb,ga,g.m()); check<F>("compose",Val<F>{compose(f.v[0].b,gb),compose(f.v[0].a,ga),e[0]});
    size_t j=s.draw(n); e.clear(); for (auto& x:f.v) e.push_back(sderiv(x.m,j)); check<F>("vector derivative",derivative(f.b(),j),derivative(f.a(),j),e); e.clear(); for (auto& x:f.v) e.push_back(santi(x.m,j)); check<F>("vector antiderivative",antiderivative(f.b(),j),antiderivative(f.a(),j),e);
    auto J=jacobian(f.b()); for (size_t i=0;i<m;++i) for (size_t k=0;k<n;++k) { MI u(n,0); u[k]=1; check_in("jacobian",J.get(i,k),f.v[i].m[u]); } auto V=value(f.b()); for (size_t i=0;i<m;++i) check_in("value",V[i],f.v[i].m.value());
    if (s.chance(1,3)) { VV<F> h=gen_vv<F>(s,pr,n,n,d,log); auto hb=h.b(); auto ha=h.a(); e.clear(); for (auto& x:h.v) e.push_back(scompose(x.m,h.m())); check<F>("compose with itself",compose(hb,hb),compose(ha,ha),e); } }
// flows: the solution satisfies its differential equation as a formal power series
template<class F> void t_flow(PSrc& s, PCase& c) { typedef typename TP<F>::B B; typedef typename TP<F>::A A; auto pr=FT<F>::gen_pr(s); if (FT<F>::bits(pr)<50) pr=FT<F>::of(Q(1),FT<F>::gen_pr(s)).precision(); size_t n=1+s.draw(2); int d=1+(int)s.draw(3); int kind=(int)s.draw(4); size_t p=kind==2||kind==3?1+s.draw(2):0; bool time=kind==1||kind==3; size_t fa=n+(time?1:0)+p; std::ostringstream log; log << "kind " << kind << " "; VV<F> f=gen_vv<F>(s,pr,n,fa,d,log); std::vector<Num<F>> x0,a; for (size_t i=0;i<n;++i) x0.push_back(gen_num<F>(s,pr)); for (size_t i=0;i<p;++i) a.push_back(gen_num<F>(s,pr)); Num<F> t0=gen_num<F>(s,pr); for (auto& x:x0) log << " x" << str(x); for (auto& x:a) log << " a" << str(x); log << " t" << str(t0); NOTE(c,log.str()); c.interesting(d>=2);
    size_t na=n+1+p; std::vector<Ser> dx,extra; for (size_t i=0;i<n;++i) dx.push_back(svar(na,d+1,Iv(x0[i].q),i)); if (time) extra.push_back(svar(na,d+1,Iv(t0.q),n)); for (size_t i=0;i<p;++i) extra.push_back(svar(na,d+1,Iv(a[i].q),n+1+i));
    // Picard iteration gains one degree in time with each step
    std::vector<Ser> phi=dx; for (int k=0;k<=d+1;++k) { std::vector<Ser> args=phi; for (auto& x:extra) args.push_back(x); std::vector<Ser> next; for (size_t i=0;i<n;++i) { Ser t=santi(scompose(f.v[i].m,args),n); next.push_back(dx[i]+t); } phi=next; }
    Vector<B> xb(n,[&](SizeType i){return x0[i].b;}), ab(p,[&](SizeType i){return a[i].b;}); Vector<A> xa(n,[&](SizeType i){return x0[i].a;}), aa(p,[&](SizeType i){return a[i].a;}); auto fb=f.b(); auto fA=f.a();
    if (kind==0) check<F>("flow",flow(fb,xb),flow(fA,xa),phi); else if (kind==1) check<F>("flow with time",flow(fb,xb,t0.b),flow(fA,xa,t0.a),phi); else if (kind==2) check<F>("flow with parameters",flow(fb,xb,ab),flow(fA,xa,aa),phi); else check<F>("flow with time and parameters",flow(fb,xb,t0.b,ab),flow(fA,xa,t0.a,aa),phi); }
// implicit functions: h with f(x,h(x))=0; built from a chosen h
template<class F> void t_solve(PSrc& s, PCase& c) { typedef typename TP<F>::B B; typedef typename TP<F>::A A; auto pr=FT<F>::gen_pr(s); if (FT<F>::bits(pr)<50) PBT_DISCARD(); size_t m=1+s.draw(2), l=1+s.draw(2); int d=1+(int)s.draw(3); std::ostringstream log; VV<F> f=gen_vv<F>(s,pr,m,l+m,d,log); // dominant diagonal in y, value zero at the point
    for (size_t i=0;i<m;++i) { MI z(l+m,0); f.v[i].m.c.erase(z); f.v[i].b.set_value(B(0,pr)); f.v[i].a.set_value(A(0,pr)); MI u(l+m,0); u[l+i]=1; long k=8*(s.boolean()?1:-1); f.v[i].m.c.erase(u); f.v[i].m.add(u,Iv(k)); f.v[i].b[mk(u)]=B((Int)k,pr); f.v[i].a[mk(u)]=A((Int)k,pr); } std::vector<Num<F>> y0; for (size_t i=0;i<m;++i) y0.push_back(gen_num<F>(s,pr)); NOTE(c,log.str()); c.interesting(d>=2);
    // h by fixed point iteration h -> h - J^-1 f(x,h), J the derivative in y
    std::vector<std::vector<Iv>> J(m,std::vector<Iv>(m,Iv(0))); for (size_t i=0;i<m;++i) for (size_t j=0;j<m;++j) { MI u(l+m,0); u[l+j]=1; J[i][j]=f.v[i].m[u]; } std::vector<std::vector<Iv>> K=J; if (m==1) K[0][0]=rec(J[0][0]); else { Iv D=J[0][0]*J[1][1]-J[0][1]*J[1][0]; K[0][0]=J[1][1]/D; K[1][1]=J[0][0]/D; K[0][1]=-(J[0][1]/D); K[1][0]=-(J[1][0]/D); }
    std::vector<Ser> x,h; for (size_t i=0;i<l;++i) x.push_back(svar(l,d,Iv(0),i)); for (size_t i=0;i<m;++i) h.push_back(Ser(l,d)); for (int t=0;t<=d+1;++t) { std::vector<Ser> args=x; for (auto& y:h) args.push_back(y); std::vector<Ser> g; for (auto& v:f.v) g.push_back(scompose(v.m,args)); std::vector<Ser> nh; for (size_t i=0;i<m;++i) { Ser q=h[i]; for (size_t j=0;j<m;++j) q=q-g[j]*K[i][j]; q.c.erase(MI(l,0)); // degree <=t is now exact; drop the rest
            Ser r(l,d); for (auto& p:q.c) if (degree(p.first)<=t+1) r.add(p.first,p.second); nh.push_back(r); } h=nh; } for (size_t i=0;i<m;++i) h[i].add(MI(l,0),Iv(y0[i].q));
    check<F>("solve",solve(f.b(),Vector<B>(m,[&](SizeType i){return y0[i].b;})),solve(f.a(),Vector<A>(m,[&](SizeType i){return y0[i].a;})),h); }
// univariate
template<class F> struct UVal { UnivariateDifferential<typename TP<F>::B> b; UnivariateDifferential<typename TP<F>::A> a; Ser m; };
template<class F> void check(std::string const& k, UVal<F> const& v) { PBT_CHECK((int)v.b.degree()==v.m.d&&(int)v.a.degree()==v.m.d,k+" degree",k << " has degree " << v.b.degree() << ", expected " << v.m.d); auto const& cb=v.b; auto const& ca=v.a; for (int i=0;i<=v.m.d;++i) { Iv e=v.m[MI(1,i)]; if (!e.finite()) continue; check_in(k,cb[(SizeType)i],e); check_app(k,ca[(SizeType)i],cb[(SizeType)i],e); } }
template<class F> UVal<F> gen_uval(PSrc& s, typename F::PrecisionType pr, int d, std::ostream& os) { typedef typename TP<F>::B B; typedef typename TP<F>::A A; UVal<F> r{UnivariateDifferential<B>((DegreeType)d,B(0,pr)),UnivariateDifferential<A>((DegreeType)d,A(0,pr)),Ser(1,d)}; os << "{deg " << d; for (int i=0;i<=d;++i) { if (i>0&&s.chance(1,4)) continue; Num<F> x=gen_num<F>(s,pr); r.b[(SizeType)i]=x.b; r.a[(SizeType)i]=x.a; r.m.add(MI(1,i),Iv(x.q)); os << " " << i << ":" << str(x); } os << "}"; return r; }
template<class F> void t_univariate(PSrc& s, PCase& c) { typedef typename TP<F>::B B; typedef typename TP<F>::A A; auto pr=FT<F>::gen_pr(s); int d=(int)s.draw(7); std::ostringstream log; std::vector<UVal<F>> pool; int k0=1+(int)s.draw(2); for (int i=0;i<k0;++i) pool.push_back(gen_uval<F>(s,pr,s.chance(1,6)?(int)s.draw(d+1):d,log)); if (s.chance(1,3)) { Num<F> x=gen_num<F>(s,pr); log << "var" << str(x); pool.push_back(UVal<F>{UnivariateDifferential<B>::variable((DegreeType)d,x.b),UnivariateDifferential<A>::variable((DegreeType)d,x.a),svar(1,d,Iv(x.q),0)}); check<F>("uvariable",pool.back()); pool.push_back(UVal<F>{UnivariateDifferential<B>::constant((DegreeType)d,x.b),UnivariateDifferential<A>::constant((DegreeType)d,x.a),sconst(1,d,Iv(x.q))}); check<F>("uconstant",pool.back()); }
    int steps=1+(int)s.draw(3); c.interesting(d>=2); for (int t=0;t<steps;++t) { size_t i=s.draw(pool.size()), j=s.draw(pool.size()); UVal<F> x=pool[i]; UVal<F> const& y=pool[j]; std::string k; switch (s.weighted({3,3,4,3,8,2,2,2,2,3})) {
            case 0: k="u+"; log << " +" << i << "," << j; x.b=x.b+y.b; x.a=x.a+y.a; x.m=x.m+y.m; break;
            case 1: k="u-"; log << " -" << i << "," << j; x.b=x.b-y.b; x.a=x.a-y.a; x.m=x.m-y.m; break;
            case 2: k="u*"; log << " *" << i << "," << j; x.b=x.b*y.b; x.a=x.a*y.a; x.m=x.m*y.m; break;
            case 3: { if (!in_domain("rec",xof(y.b.value().lower_raw()),xof(y.b.value().upper_raw()))) continue; k="u/"; log << " /" << i << "," << j; x.b=x.b/y.b; x.a=x.a/y.a; x.m=x.m*scompose(taylor("rec",y.m.value(),y.m.d),y.m); break; }
            case 4: { k=UN[s.draw(10)]; if (!in_domain(k,xof(x.b.value().lower_raw()),xof(x.b.value().upper_raw()))) continue; log << " " << k << i; x.b=unary(k,x.b); x.a=unary(k,x.a); x.m=scompose(taylor(k,x.m.value(),x.m.d),x.m); k="u"+k; break; }
            case 5: { int e=(int)s.range(0,5); k="upow"; log << " pow" << i << "," << e; x.b=pow(x.b,(Int)e); x.a=pow(x.a,(Int)e); Ser r=sconst(1,x.m.d,Iv(1)); for (int q=0;q<e;++q) r=r*x.m; x.m=r; break; }
            case 6: { Num<F> z=gen_num<F>(s,pr); k="uscalar"; log << " scalar" << str(z) << i; if (s.boolean()) { x.b=x.b+z.b; x.a=x.a+z.a; x.m=x.m+Iv(z.q); } else { x.b=x.b*z.b; x.a=x.a*z.a; x.m=x.m*Iv(z.q); } break; }
            case 7: { k="uderivative"; log << " derivative" << i; if (x.m.d==0) { continue; } x.b=derivative(x.b); x.a=derivative(x.a); x.m=sderiv(x.m,0); break; }
            case 8: { k="uantiderivative"; log << " antiderivative" << i; if (s.boolean()) { x.b=antiderivative(x.b); x.a=antiderivative(x.a); x.m=santi(x.m,0); } else { Num<F> z=gen_num<F>(s,pr); x.b=antiderivative(x.b,z.b); x.a=antiderivative(x.a,z.a); x.m=santi(x.m,0)+Iv(z.q); } break; }
            default: { k="ucompose"; log << " compose" << i << "," << j; std::vector<Iv> f; int dm=std::min(x.m.d,y.m.d); for (int q=0;q<=dm;++q) f.push_back(x.m[MI(1,q)]); Ser w(1,dm); for (auto& p:y.m.c) w.add(p.first,p.second); if (i==j) { auto& z=pool[i]; x.b=compose(z.b,z.b); x.a=compose(z.a,z.a); } else { x.b=compose(x.b,y.b); x.a=compose(x.a,y.a); } x.m=scompose(f,w); } }
        check<F>(k,x); for (auto& p:pool) check<F>(k+" changes its argument",p); bool sm=true; for (auto& p:x.m.c) if (!p.second.finite()||abs(p.second.lower())>Q(1000000)) sm=false; if (sm) pool.push_back(x); }
    { auto const& x=pool[0]; check_in("uvalue",x.b.value(),x.m[MI(1,0)]); if (x.m.d>=1) check_in("ugradient",x.b.gradient(),x.m[MI(1,1)]); if (x.m.d>=2) { check_in("uhessian",x.b.hessian(),x.m[MI(1,2)]*Iv(2)); check_in("uhalf_hessian",x.b.half_hessian(),x.m[MI(1,2)]); } 
      size_t n=1+s.draw(2); Val<F> y=gen_val<F>(s,pr,n,x.m.d,log); std::vector<Iv> f; for (int q=0;q<=x.m.d;++q) f.push_back(x.m[MI(1,q)]); check<F>("compose univariate",Val<F>{compose(x.b,y.b),compose(x.a,y.a),scompose(f,y.m)}); check<F>("compose univariate changes its argument",y); }
    NOTE(c,log.str()); }
template<class F, class OP> void ser1(std::string const& f, OP op, Num<F> const& x, int d) { typedef typename TP<F>::B B; Series<B> S(op,x.b); Series<typename TP<F>::A> T(op,x.a); auto e=taylor(f,Iv(x.q),d); for (int k=d;k>=0;--k) { check_in("series "+f,S[(DegreeType)k],e[k]); check_app("series "+f,T[(DegreeType)k],S[(DegreeType)k],e[k]); } }
template<class F> void t_series(PSrc& s, PCase& c) { auto pr=FT<F>::gen_pr(s); Num<F> x=gen_num<F>(s,pr); std::string f=UN[s.draw(13)]; int d=(int)s.draw(14); NOTE(c,f << str(x) << " to " << d); if (f=="abs"||!in_domain(f,xof(x.b.lower_raw()),xof(x.b.upper_raw()))) PBT_DISCARD(); c.interesting(d>=2);
    if (f=="neg") ser1<F>(f,Neg(),x,d); if (f=="pos") ser1<F>(f,Pos(),x,d); if (f=="hlf") ser1<F>(f,Hlf(),x,d); if (f=="sqr") ser1<F>(f,Sqr(),x,d); if (f=="rec") ser1<F>(f,Rec(),x,d); if (f=="sqrt") ser1<F>(f,Sqrt(),x,d); if (f=="exp") ser1<F>(f,Exp(),x,d); if (f=="log") ser1<F>(f,Log(),x,d); if (f=="sin") ser1<F>(f,Sin(),x,d); if (f=="cos") ser1<F>(f,Cos(),x,d); if (f=="tan") ser1<F>(f,Tan(),x,d); if (f=="atan") ser1<F>(f,Atan(),x,d); }
#define BOTH(nm,fn,q,t) pbt::Register nm##d(#nm "_dp",q,t,fn<FloatDP>,20), nm##m(#nm "_mp",q/2,t/2,fn<FloatMP>,20);
BOTH(arith,t_arith,20000,400000) BOTH(access,t_access,8000,100000) BOTH(vector,t_vector,8000,100000) BOTH(flow,t_flow,4000,60000) BOTH(solve,t_solve,4000,60000) BOTH(univariate,t_univariate,30000,600000) BOTH(series,t_series,20000,400000)
struct Init { Init() { pbt::set_rule("degree at least two (or more than one argument for accessors)"); pbt::set_reset(reset_modes); } } init;
}
