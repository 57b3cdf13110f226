// C20: functions, formulae and procedures take the values and derivatives of the expression they were built from.
#include "fun_ast.hpp"
#include "algebra/algebra.hpp"
#include "algebra/differential.hpp"
#include "function/function.hpp"
#include "function/formula.hpp"
#include "function/procedure.hpp"
#include "function/procedure.tpl.hpp"
#include "function/function_mixin.hpp"
#include "function/function_mixin.tpl.hpp"
#include "geometry/box.hpp"
namespace {
template<class P> auto num(Q const& q) { return Number<P>(to_rational(q)); }
// numbers of the library's kinds to be combined with functions
template<class P> using SF=ScalarMultivariateFunction<P>;
template<class P> using VF=VectorMultivariateFunction<P>;
template<class P> SF<P> mkf(Ex const& e, size_t n) { typedef SF<P> T; std::vector<T> x; for (size_t i=0;i<n;++i) x.push_back(T::coordinate(n,i)); return build<T>(e,x,[n](Q q){return T::constant(n,num<P>(q));},[](Q q){return num<P>(q);}); }
template<class P,class F> void at(std::string const& k, SF<P> const& f, Ex const& e, Pt const& p, typename F::PrecisionType pr) { Val v=val(e,p); if (!v.d) return; if constexpr (!Same<P,ApproximateTag>) chk(k,f(bvec<F>(p,pr)),v.v,v.t); if constexpr (Same<P,ApproximateTag>||Same<P,EffectiveTag>) { chka(k+" approximate",f(avec<F>(p,pr)),v.v,v.t); } }
template<class P> void t_scalar(PSrc& s, PCase& c) { std::ostringstream lg; size_t n=1+s.draw(3); int level=(int)s.draw(4); Fu fu=gen_fun(s,lg,n,level); Ex e=fu.e; NOTE(c,lg.str()); if (nodes(e)>60) PBT_DISCARD(); c.interesting(nodes(e)>3); SF<P> f=mkf<P>(e,n); PBT_CHECK(f.argument_size()==n,"argument size","function has " << f.argument_size() << " arguments"); auto mp=MultiplePrecision(s.pick<int>({64,128,256}));
    for (int i=0;i<3;++i) { Pt p=gen_point(s,n); std::ostringstream l2; l2 << " at " << show(p); NOTE(c,lg.str()+l2.str()); at<P,FloatDP>("value dp",f,e,p,dp); at<P,FloatMP>("value mp",f,e,p,mp);
        Val v=val(e,p); if (!v.d||!smooth(e)) continue; int d=1+(int)s.draw(3); if (n>2) d=std::min(d,2); Ser sr=series(e,svars(p,d+1)); bool fin=true; for (auto& t:sr.c) if (!t.second.finite()||t.second.upper()>1000||t.second.lower()<-1000) fin=false; bool tm=v.t&&fin&&nodes(e)<12; 
        if constexpr (!Same<P,ApproximateTag>) { auto D=f.differential(bvec<FloatDP>(p,dp),d); for (auto& a:indices(n,d)) chk("differential",FloatDPBounds(D[mk(a)]),sr[a],tm); auto g=gradient(f,bvec<FloatDP>(p,dp)); for (size_t j=0;j<n;++j) { MI a(n,0); a[j]=1; chk("gradient",g[j],sr[a],tm); } if (d>=2) { auto H=hessian(f,bvec<FloatMP>(p,mp)); for (size_t j=0;j<n;++j) for (size_t k=0;k<n;++k) { MI a(n,0); a[j]++; a[k]++; chk("hessian",H[j][k],sr[a]*Iv(fact(a)),tm); } } }
        else { auto D=f.differential(avec<FloatDP>(p,dp),d); for (auto& a:indices(n,d)) chka("differential",D[mk(a)],sr[a],tm); }
        // derivative functions
        size_t j=s.draw(n), k=s.draw(n); SF<P> df=derivative(f,j); SF<P> ddf=derivative(df,k); MI a(n,0); a[j]=1; MI b=a; b[k]++; Iv v1=sr[a], v2=sr[b]*Iv(fact(b)); if constexpr (!Same<P,ApproximateTag>) { chk("derivative",df(bvec<FloatDP>(p,dp)),v1,tm); chk("second derivative",ddf(bvec<FloatDP>(p,dp)),v2,tm); chk("derivative mp",df(bvec<FloatMP>(p,mp)),v1,tm); } else { chka("derivative",df(avec<FloatDP>(p,dp)),v1,tm); chka("second derivative",ddf(avec<FloatDP>(p,dp)),v2,tm); } 
    } 
    if constexpr (!Same<P,ApproximateTag>) { // ranges over boxes
        Pt p=gen_point(s,n), q=p, m=p; for (size_t i=0;i<n;++i) { Q w=Q((long)s.range(0,32))/64; q[i]+=w; m[i]+=w*Q((long)s.range(0,4))/4; } Vector<FloatDPUpperInterval> bx(n,[&](SizeType i){return FloatDPUpperInterval(FT<FloatDP>::of(p[i],dp),FT<FloatDP>::of(q[i],dp));}); Val v=val(e,m); std::ostringstream l2; l2 << " box " << show(p) << show(q) << " point " << show(m); NOTE(c,lg.str()+l2.str()); bool bd=true,bt=true; { std::vector<Iv> b; for (size_t i=0;i<n;++i) b.push_back(Iv(p[i],q[i])); value(e,b,bd,bt); } if (v.d&&bd&&(bt||!sing(e))) { auto r=evaluate_range(ValidatedScalarMultivariateFunction(f),bx); X l=xof(r.lower_bound().raw()),u=xof(r.upper_bound().raw()); if (!l.is_nan()&&!u.is_nan()) PBT_CHECK(!surely_less(v.v,l)&&!surely_greater(v.v,u),"range","range [" << oracle::show(l) << ":" << oracle::show(u) << "] misses " << oracle::show(v.v)); 
            if (smooth(e)) { Ser sr=series(e,svars(m,1)); auto g=gradient_range(ValidatedScalarMultivariateFunction(f),bx); for (size_t j=0;j<n;++j) { MI a(n,0); a[j]=1; X l=xof(g[j].lower_bound().raw()),u=xof(g[j].upper_bound().raw()); if (!l.is_nan()&&!u.is_nan()&&sr[a].finite()) PBT_CHECK(!surely_less(sr[a],l)&&!surely_greater(sr[a],u),"gradient range","range [" << oracle::show(l) << ":" << oracle::show(u) << "] misses " << oracle::show(sr[a])); } } } }
    if constexpr (Same<P,EffectiveTag>) { ValidatedScalarMultivariateFunction vf(f); ApproximateScalarMultivariateFunction af(f); Pt p=gen_point(s,n); NOTE(c,lg.str()+" converted at "+show(p)); at<ValidatedTag,FloatDP>("converted to validated",vf,e,p,dp); at<ApproximateTag,FloatDP>("converted to approximate",af,e,p,dp); } }
template<class P> void vcheck(std::string const& k, VF<P> const& f, std::vector<Ex> const& es, size_t n, PSrc& s, PCase& c, std::string const& lg, std::vector<Ex> const& need={}) { PBT_CHECK(f.result_size()==es.size()&&f.argument_size()==n,k+" size",k << " has sizes " << f.result_size() << "," << f.argument_size()); Pt p=gen_point(s,n); NOTE(c,lg+" "+k+" at "+show(p)); bool all=true; for (auto& e:es) if (!val(e,p).d) all=false; for (auto& e:need) if (!val(e,p).d) all=false; if (!all) return; for (size_t i=0;i<es.size();++i) { Val v=val(es[i],p); if (!v.d) continue; if constexpr (!Same<P,ApproximateTag>) { auto r=f(bvec<FloatDP>(p,dp)); PBT_CHECK(r.size()==es.size(),k+" size",k << " gives " << r.size() << " values"); chk(k,r[i],v.v,v.t); VF<P> const& cf=f; chk(k+" component",cf[i](bvec<FloatDP>(p,dp)),v.v,v.t); if (all&&smooth(es[i])) { auto J=jacobian(f,bvec<FloatDP>(p,dp)); Ser sr=series(es[i],svars(p,1)); for (size_t j=0;j<n;++j) { MI a(n,0); a[j]=1; chk(k+" jacobian",J[i][j],sr[a],false); } } } else { auto r=f(avec<FloatDP>(p,dp)); chka(k,r[i],v.v,v.t); } } }
template<class P> void t_vector(PSrc& s, PCase& c) { std::ostringstream lg; size_t n=1+s.draw(3), m=1+s.draw(3); int level=(int)s.draw(3); std::vector<Ex> es; for (size_t i=0;i<m;++i) { lg << (i?",":"["); es.push_back(gen_fun(s,lg,n,level,3).e); } lg << "]"; NOTE(c,lg.str()); size_t tot=0; for (auto& e:es) tot+=nodes(e); if (tot>80) PBT_DISCARD(); c.interesting(tot>m+2); VF<P> f(m,EuclideanDomain(n)); for (size_t i=0;i<m;++i) f[i]=mkf<P>(es[i],n); List<SF<P>> lst; for (auto& e:es) lst.append(mkf<P>(e,n)); VF<P> f2(lst); vcheck<P>("element assignment",f,es,n,s,c,lg.str()); vcheck<P>("from list",f2,es,n,s,c,lg.str());
    Fu g=gen_fun(s,lg,n,level,2); NOTE(c,lg.str()); SF<P> gs=mkf<P>(g.e,n); auto cat=[&](std::vector<Ex> a, std::vector<Ex> const& b){ a.insert(a.end(),b.begin(),b.end()); return a; }; vcheck<P>("join(v,s)",join(f,gs),cat(es,{g.e}),n,s,c,lg.str()); vcheck<P>("join(s,v)",join(gs,f),cat({g.e},es),n,s,c,lg.str()); vcheck<P>("join(v,v)",join(f,f2),cat(es,es),n,s,c,lg.str()); vcheck<P>("join(s,s)",join(gs,mkf<P>(es[0],n)),{g.e,es[0]},n,s,c,lg.str());
    if constexpr (!Same<P,ApproximateTag>) { auto bin=[&](int o,std::vector<Ex> const& a,std::vector<Ex> const& b){ std::vector<Ex> r; for (size_t i=0;i<a.size();++i) r.push_back(std::make_shared<Nd const>(Nd{o,Q(0),0,0,a[i],b[i],false})); return r; }; vcheck<P>("v+v",f+f2,bin(ADD,es,es),n,s,c,lg.str()); std::vector<Ex> rep(m,g.e); VF<P> fr(m,EuclideanDomain(n)); for (size_t i=0;i<m;++i) fr[i]=gs; vcheck<P>("v-v",f-fr,bin(SUB,es,rep),n,s,c,lg.str()); vcheck<P>("s*v",gs*f,bin(MUL,rep,es),n,s,c,lg.str()); vcheck<P>("v*s",f*gs,bin(MUL,es,rep),n,s,c,lg.str()); Q q=Q((long)s.range(-8,8))/4; if constexpr (Same<P,EffectiveTag>) vcheck<P>("c*v",num<P>(q)*f,bin(MUL,std::vector<Ex>(m,mkc(q)),es),n,s,c,lg.str()); }
    // composition
    std::ostringstream l2; Fu h=gen_fun(s,l2,m,level,2); NOTE(c,lg.str()+" outer "+l2.str()); SF<P> hs=mkf<P>(h.e,m); Ex he=dsub(h.e,es); vcheck<P>("compose",join(compose(hs,f),compose(hs,f)),{he,he},n,s,c,lg.str()+" outer "+l2.str(),es); VF<P> hv(2,EuclideanDomain(m)); hv[0]=hs; hv[1]=SF<P>::coordinate(m,m-1); vcheck<P>("compose vector",compose(hv,f),{he,es[m-1]},n,s,c,lg.str()+" outer "+l2.str(),es); if (!Same<P,ApproximateTag>&&nodes(he)<40&&smooth(he)) { size_t j=s.draw(n); SF<P> d=derivative(compose(hs,f),j); Pt p=gen_point(s,n); Val v=val(he,p); bool ok=v.d; for (auto& e:es) if (!val(e,p).d) ok=false; if (ok) { Ser sr=series(he,svars(p,1)); MI a(n,0); a[j]=1; NOTE(c,lg.str()+" outer "+l2.str()+" derivative at "+show(p)); if constexpr (!Same<P,ApproximateTag>) chk("derivative of composition",d(bvec<FloatDP>(p,dp)),sr[a],false); } }
    vcheck<P>("identity",VF<P>::identity(n),[&]{std::vector<Ex> r; for (size_t i=0;i<n;++i) r.push_back(mkx(i)); return r;}(),n,s,c,lg.str()); vcheck<P>("zeros",VF<P>::zeros(2,n),{mkc(Q(0)),mkc(Q(0))},n,s,c,lg.str()); VF<P> f3=f; f3[0]=gs; std::vector<Ex> e3=es; e3[0]=g.e; vcheck<P>("copy then assignment",f3,e3,n,s,c,lg.str()); vcheck<P>("copied from",f,es,n,s,c,lg.str()); }
template<class P> void t_univariate(PSrc& s, PCase& c) { typedef ScalarUnivariateFunction<P> U; std::ostringstream lg; Fu f=gen_fun(s,lg,1,(int)s.draw(3),3); lg << " ; "; Fu g=gen_fun(s,lg,1,1,2); NOTE(c,lg.str()); if (nodes(f.e)>60||cbad(dsub(f.e,{g.e}))) PBT_DISCARD(); c.interesting(nodes(f.e)>2); auto mk_=[](Ex const& e){ std::vector<U> x{U::coordinate()}; return build<U>(e,x,[](Q q){return U::constant(num<P>(q));},[](Q q){return num<P>(q);}); }; U uf=mk_(f.e), ug=mk_(g.e); for (int i=0;i<3;++i) { Pt p=gen_point(s,1); NOTE(c,lg.str()+" at "+show(p)); auto x=bvec<FloatDP>(p,dp)[0]; auto xa=avec<FloatDP>(p,dp)[0]; Val v=val(f.e,p); Ex fe=f.e; auto one=[&](std::string const& k, U const& u, Ex const& e){ Val v=val(e,p); if (!v.d) return; if constexpr (Same<P,ApproximateTag>) chka(k,u(xa),v.v,v.t); else { chk(k,u(x),v.v,v.t); if (smooth(e)) { Ser sr=series(e,svars(p,3)); chk(k+" slope",slope(u,x),sr[MI{1}],false); U du=derivative(u); chk(k+" derivative",du(x),sr[MI{1}],false); U ddu=derivative(du); chk(k+" second derivative",ddu(x),sr[MI{2}]*Iv(2),false); auto D=u.differential(x,3); chk(k+" differential",FloatDPBounds(D[mk(MI{3})]),sr[MI{3}],false); } } }; one("univariate",uf,f.e); one("compose univariate",compose(uf,ug),dsub(f.e,{g.e})); }
    { size_t n=1+s.draw(2); Fu h=gen_fun(s,lg,n,1,2); NOTE(c,lg.str()); Pt p=gen_point(s,n); Ex e=dsub(f.e,{h.e}); if (cbad(e)) return; Val v=val(e,p); SF<P> r=compose(uf,mkf<P>(h.e,n)); if (v.d) { if constexpr (Same<P,ApproximateTag>) chka("univariate of multivariate",r(avec<FloatDP>(p,dp)),v.v,v.t); else chk("univariate of multivariate",r(bvec<FloatDP>(p,dp)),v.v,v.t); } } }
// formulae
typedef Formula<EffectiveNumber> EF;
template<class Y> Formula<Y> mkform(Ex const& e, size_t n) { typedef Formula<Y> T; std::vector<T> x; for (size_t i=0;i<n;++i) x.push_back(T::coordinate(i)); return build<T>(e,x,[](Q q){return T::constant(Y(to_rational(q)));},[](Q q){return Y(to_rational(q));}); }
template<class Y> void fat(std::string const& k, Formula<Y> const& f, Ex const& e, Pt const& p) { Val v=val(e,p); if (!v.d) return; if constexpr (Same<Y,ApproximateNumber>) { chka(k,evaluate(f,avec<FloatDP>(p,dp)),v.v,v.t); chka(k+" cached",cached_evaluate(f,avec<FloatDP>(p,dp)),v.v,v.t); } else { chk(k,evaluate(f,bvec<FloatDP>(p,dp)),v.v,v.t); chk(k+" cached",cached_evaluate(f,bvec<FloatDP>(p,dp)),v.v,v.t); chk(k+" direct",direct_evaluate(f,bvec<FloatDP>(p,dp)),v.v,v.t); } }
template<class Y> void t_formula(PSrc& s, PCase& c) { std::ostringstream lg; size_t n=1+s.draw(3); Fu fu=gen_fun(s,lg,n,(int)s.draw(4)); Ex e=fu.e; NOTE(c,lg.str()); if (nodes(e)>60) PBT_DISCARD(); c.interesting(nodes(e)>3); typedef Formula<Y> T; T f=mkform<Y>(e,n); Pt p=gen_point(s,n); NOTE(c,lg.str()+" at "+show(p)); Val v=val(e,p); if (!v.d) PBT_DISCARD(); fat("formula",f,e,p);
    if constexpr (!Same<Y,ApproximateNumber>) { if (dyc(e)) PBT_CHECK(identical(f,f),"identical","a formula is not identical with itself"); T sf=simplify(f); fat("simplified",sf,e,p); if (smooth(e)&&v.d) { size_t j=s.draw(n); Ser sr=series(e,svars(p,2)); MI a(n,0); a[j]=1; T d=derivative(f,j); chk("formula derivative",evaluate(d,bvec<FloatDP>(p,dp)),sr[a],false); a[j]=2; chk("formula second derivative",evaluate(derivative(d,j),bvec<FloatDP>(p,dp)),sr[a]*Iv(2),false); chk("simplified derivative",evaluate(simplify(d),bvec<FloatDP>(p,dp)),sr[unit_mi(n,j)],false); auto D=evaluate(f,Vector<Differential<FloatDPBounds>>(Differential<FloatDPBounds>::variables(2,bvec<FloatDP>(p,dp)))); for (auto& b:indices(n,2)) chk("formula of differentials",FloatDPBounds(D[mk(b)]),sr[b],false); }
        // substitution of a coordinate
        Nat j=(Nat)s.draw(n); std::ostringstream l2; Fu g=gen_fun(s,l2,n,1,2); std::vector<Ex> by; for (size_t i=0;i<n;++i) by.push_back(i==j?g.e:mkx(i)); NOTE(c,lg.str()+" at "+show(p)+" substitute x"+std::to_string(j)+"="+l2.str()); T gf=mkform<Y>(g.e,n); T sb=substitute(f,List<Pair<Nat,T>>({Pair<Nat,T>(j,gf)})); fat("substituted",sb,dsub(e,by),p); Q q=Q((long)s.range(-8,8))/4; by[j]=mkc(q); if (!cbad(dsub(e,by))) fat("constant substituted",substitute(f,j,Y(to_rational(q))),dsub(e,by),p);
       
        // structural predicates are sound
        Set<Nat> is; for (size_t i=0;i<n;++i) if (s.boolean()) is.insert((Nat)i); bool ci=is_constant_in(f,is), ai=is_affine_in(f,is); Pt q1=p; for (size_t i=0;i<n;++i) if (is.contains((Nat)i)) q1[i]+=Q((long)s.range(-64,64))/64; Pt q2=p; for (size_t i=0;i<n;++i) q2[i]=2*q1[i]-p[i]; Val v1=val(e,q1), v2=val(e,q2); if (v.d&&v1.d&&v2.d) { NOTE(c,lg.str()+" at "+show(p)+" to "+show(q1)); auto eq=[&](Iv a,Iv b){return !(a.upper()<b.lower())&&!(b.upper()<a.lower());}; if (ci) PBT_CHECK(eq(v.v,v1.v),"is_constant_in","formula said constant in variables changes from " << oracle::show(v.v) << " to " << oracle::show(v1.v)); if (ai) PBT_CHECK(eq(v1.v+v1.v,v.v+v2.v),"is_affine_in","formula said affine has values " << oracle::show(v.v) << "," << oracle::show(v1.v) << "," << oracle::show(v2.v)); } 
        bool dep=false; for (size_t i=0;i<n;++i) if (is.contains((Nat)i)&&uses(e,i)) dep=true; if (!dep) { PBT_CHECK(ci,"is_constant_in","formula without the variables is not said to be constant in them"); } 
        Fu h=gen_fun(s,l2,n,1,2); NOTE(c,lg.str()+" ; "+l2.str()); Vector<T> vf({f,mkform<Y>(h.e,n)}); if (!v.d||!val(h.e,p).d) return; auto r=evaluate(vf,bvec<FloatDP>(p,dp)); auto rc=cached_evaluate(vf,bvec<FloatDP>(p,dp)); Val vh=val(h.e,p); if (v.d) { chk("vector formula",r[0],v.v,v.t); chk("vector formula cached",rc[0],v.v,v.t); } if (vh.d) { chk("vector formula",r[1],vh.v,vh.t); chk("vector formula cached",rc[1],vh.v,vh.t); } if (identical(f,mkform<Y>(h.e,n))) { if (v.d&&vh.d) PBT_CHECK(eq2(v.v,vh.v),"identical","different formulae are identical"); } } }
// procedures
template<class Y> void t_procedure(PSrc& s, PCase& c) { std::ostringstream lg; typedef Paradigm<Y> P; size_t n=1+s.draw(3); Fu fu=gen_fun(s,lg,n,(int)s.draw(4)); Ex e=fu.e; NOTE(c,lg.str()); if (nodes(e)>60) PBT_DISCARD(); c.interesting(nodes(e)>3); Procedure<Y> pf(n,mkform<Y>(e,n)); Procedure<Y> pg(mkf<P>(e,n)); PBT_CHECK(pf.argument_size()==n,"argument size","procedure has " << pf.argument_size() << " arguments"); std::vector<Ex> es{e}; std::ostringstream l2; es.push_back(gen_fun(s,l2,n,1,2).e); es.push_back(es[0]); Vector<Formula<Y>> vf(3,mkform<Y>(es[1],n)); { std::map<Nd const*,Formula<Y>> memo; typedef Formula<Y> T; std::vector<T> x; for (size_t i=0;i<n;++i) x.push_back(T::coordinate(i)); auto k=[](Q q){return T::constant(Y(to_rational(q)));}; auto nm=[](Q q){return Y(to_rational(q));}; for (size_t i=0;i<3;++i) vf[i]=build<T>(es[i],x,k,nm,memo); } Vector<Procedure<Y>> pv(n,vf); PBT_CHECK(pv.result_size()==3&&pv.argument_size()==n,"vector sizes","vector procedure has sizes " << pv.result_size() << "," << pv.argument_size());
    for (int i=0;i<3;++i) { Pt p=gen_point(s,n); NOTE(c,lg.str()+" ; "+l2.str()+" at "+show(p)); bool alld=true; for (size_t j=0;j<3;++j) if (!val(es[j],p).d) alld=false; if (!alld) continue; for (size_t j=0;j<3;++j) { Val v=val(es[j],p); if constexpr (Same<Y,ApproximateNumber>) { auto r=evaluate(pv,avec<FloatDP>(p,dp)); chka("vector procedure",r[j],v.v,v.t); if (j==0) { chka("procedure",evaluate(pf,avec<FloatDP>(p,dp)),v.v,v.t); chka("procedure of function",evaluate(pg,avec<FloatDP>(p,dp)),v.v,v.t); } } else { auto r=evaluate(pv,bvec<FloatDP>(p,dp)); chk("vector procedure",r[j],v.v,v.t); if (j==0) { chk("procedure",evaluate(pf,bvec<FloatDP>(p,dp)),v.v,v.t); chk("procedure of function",evaluate(pg,bvec<FloatMP>(p,MultiplePrecision(128))),v.v,v.t); 
            if constexpr (requires { gradient(pf,bvec<FloatDP>(p,dp)); }) { if (smooth(e)) { Ser sr=series(e,svars(p,2)); auto g=gradient(pf,bvec<FloatDP>(p,dp)); for (size_t q=0;q<n;++q) { MI a(n,0); a[q]=1; chk("procedure gradient",g[q],sr[a],false); } } } } } } } }
struct Init { Init() { pbt::set_rule("the expression has more than three nodes"); pbt::set_reset(reset_modes); } } init_;
pbt::Register r1("effective_scalar",3000,60000,t_scalar<EffectiveTag>,60), r2("validated_scalar",3000,60000,t_scalar<ValidatedTag>,60), r3("approximate_scalar",1500,30000,t_scalar<ApproximateTag>,60), r4("effective_vector",2000,40000,t_vector<EffectiveTag>,60), r5("validated_vector",2000,40000,t_vector<ValidatedTag>,60), r6("approximate_vector",1000,20000,t_vector<ApproximateTag>,60), r7("effective_univariate",2000,40000,t_univariate<EffectiveTag>,60), r8("validated_univariate",2000,40000,t_univariate<ValidatedTag>,60), r9("approximate_univariate",1000,20000,t_univariate<ApproximateTag>,60), r10("formula",4000,80000,t_formula<EffectiveNumber>,60), r11("approximate_formula",2000,40000,t_formula<ApproximateNumber>,60), r12("validated_procedure",3000,60000,t_procedure<ValidatedNumber>,60), r13("approximate_procedure",1500,30000,t_procedure<ApproximateNumber>,60);
}
