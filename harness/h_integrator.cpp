// C25: flow bounds and validated integrators enclose the solutions of differential equations.
#include "fun_ast.hpp"
#include "algebra/algebra.hpp"
#include "solvers/bounder.hpp"
#include "solvers/integrator.hpp"
#include "solvers/runge_kutta_integrator.hpp"
#include "function/function_patch.hpp"
#include "function/taylor_function.hpp"
#include "geometry/box.hpp"
#include "utility/container.hpp"
namespace {
typedef EffectiveScalarMultivariateFunction SF; typedef EffectiveVectorMultivariateFunction VF;
inline Iv ivx(int (*f)(mpfr_ptr,mpfr_srcptr,mpfr_rnd_t), Iv const& a) { Iv r; f(r.l,a.l,MPFR_RNDD); f(r.u,a.u,MPFR_RNDU); return r; }
Iv iexp(Iv const& a) { return ivx(mpfr_exp,a); } Iv ilog(Iv const& a) { return ivx(mpfr_log,a); }
// blocks with known flow; kinds 4,6,7 need time, 5 needs a parameter
struct Blk { int kind; Q c,d; int m; };
struct Sys { std::vector<Blk> b; size_t n=0; std::vector<std::vector<Q>> L; std::vector<Q> k; size_t na=0; bool time=false; };
EffectiveNumber num(Q const& q) { return EffectiveNumber(to_rational(q)); }
std::string show(Sys const& y) { std::ostringstream o; for (auto& b:y.b) o << " " << std::vector<const char*>{"lin","riccati","logistic","rotation","t^m","param","x*t","cos t","exp(-x)"}[b.kind] << "(" << b.c << "," << b.d << "," << b.m << ")"; for (size_t i=1;i<y.n;++i) { o << " y" << i << "+="; for (size_t j=0;j<i;++j) o << y.L[i][j] << " "; o << "& " << y.k[i] << "y0^2"; } return o.str(); }
Sys gen_sys(PSrc& s, bool time, size_t na, size_t mx) { Sys y; y.na=na; y.time=time; size_t w=1+s.draw(mx); bool pu=false; while (y.n<w) { Blk b; b.kind=(int)s.weighted({4,2,2,2,time?3:0,na?6:0,time?2:0,time?2:0,1}); if (b.kind==3&&y.n+2>w) b.kind=0; if (b.kind==5) pu=true; b.c=Q((long)s.range(-12,12))/8; b.d=Q((long)s.range(-8,8))/8; if (s.chance(1,4)) b.d+=Q(1,3); b.m=1+(int)s.draw(3); if (b.kind==0&&s.chance(1,5)) b.c=0; if (b.kind==8&&b.c<=0) b.c=Q(1,2); y.b.push_back(b); y.n+=b.kind==3?2:1; } (void)pu; y.L.assign(y.n,std::vector<Q>(y.n,Q(0))); y.k.assign(y.n,Q(0)); bool mix=y.n>1&&s.chance(2,3); if (mix) for (size_t i=1;i<y.n;++i) { for (size_t j=0;j<i;++j) y.L[i][j]=Q((long)s.range(-4,4))/4; if (s.chance(1,3)) y.k[i]=Q((long)s.range(-2,2))/4; } return y; }
VF build(Sys const& y) { size_t N=y.n+(y.time?1:0)+y.na; std::vector<SF> v; for (size_t i=0;i<N;++i) v.push_back(SF::coordinate(N,i)); SF z=SF::zero(N), t=y.time?v[y.n]:z; std::vector<SF> x; for (size_t i=0;i<y.n;++i) { SF e=v[i]; for (size_t j=0;j<i;++j) if (y.L[i][j]!=0) e=e-num(y.L[i][j])*x[j]; if (i>0&&y.k[i]!=0) e=e-num(y.k[i])*x[0]*x[0]; x.push_back(e); }
    std::vector<SF> g; size_t p=0; for (auto& b:y.b) { size_t i=g.size(); SF X=x[i]; switch (b.kind) { case 0: g.push_back(z+num(b.c)*X+num(b.d)); break; case 1: g.push_back(num(b.c)*X*X); break; case 2: g.push_back(num(b.c)*X*(num(Q(1))-X)); break; case 3: g.push_back(num(b.c)*X-num(b.d)*x[i+1]); g.push_back(num(b.d)*X+num(b.c)*x[i+1]); break; case 4: g.push_back(z+num(b.c)*pow(t,b.m)); break; case 5: g.push_back(v[y.n+(y.time?1:0)+(p++)%y.na]*X+z); break; case 6: g.push_back(num(b.c)*X*t); break; case 7: g.push_back(num(b.c)*cos(t)); break; default: g.push_back(num(b.c)*exp(-X)); } }
    List<SF> r; for (size_t i=0;i<y.n;++i) { SF e=g[i]; for (size_t j=0;j<i;++j) if (y.L[i][j]!=0) e=e+num(y.L[i][j])*g[j]; if (i>0&&y.k[i]!=0) e=e+num(2*y.k[i])*x[0]*g[0]; r.append(e); } return VF(r); }
// the solution at time t starting at y0 at time t0; false if it does not exist up to t
bool sol(Sys const& y, std::vector<Q> const& y0, Q const& t0, Q const& t, std::vector<Q> const& a, std::vector<Iv>& r) { std::vector<Q> x; for (size_t i=0;i<y.n;++i) { Q e=y0[i]; for (size_t j=0;j<i;++j) e-=y.L[i][j]*x[j]; if (i>0) e-=y.k[i]*x[0]*x[0]; x.push_back(e); } Q h=t-t0; std::vector<Iv> z; size_t p=0; for (auto& b:y.b) { size_t i=z.size(); Q X0=x[i]; switch (b.kind) { case 0: if (b.c==0) z.push_back(Iv(Q(X0+b.d*h))); else z.push_back(iexp(Iv(Q(b.c*h)))*Iv(Q(X0+b.d/b.c))-Iv(Q(b.d/b.c))); break; case 1: { Q w=1-b.c*X0*h; if (w<=Q(1,100)) return false; z.push_back(Iv(Q(X0/w))); break; } case 2: { Iv e=iexp(Iv(Q(b.c*h))); Iv w=Iv(Q(1-X0))+Iv(X0)*e; if (!surely_less(Iv(Q(1,100)),w)) return false; z.push_back(Iv(X0)*e/w); break; } case 3: { Iv e=iexp(Iv(Q(b.c*h))), cs=cos(Iv(Q(b.d*h))), sn=sin(Iv(Q(b.d*h))); z.push_back(e*(cs*Iv(X0)-sn*Iv(x[i+1]))); z.push_back(e*(sn*Iv(X0)+cs*Iv(x[i+1]))); break; } case 4: { Q u(1),v(1); for (int k=0;k<=b.m;++k) { u*=t; v*=t0; } z.push_back(Iv(Q(X0+b.c*(u-v)/(b.m+1)))); break; } case 5: z.push_back(Iv(X0)*iexp(Iv(Q(a[(p++)%y.na]*h)))); break; case 6: z.push_back(Iv(X0)*iexp(Iv(Q(b.c*(t*t-t0*t0)/2)))); break; case 7: z.push_back(Iv(X0)+Iv(b.c)*(sin(Iv(t))-sin(Iv(t0)))); break; default: z.push_back(ilog(iexp(Iv(X0))+Iv(Q(b.c*h)))); } }
    r.clear(); for (size_t i=0;i<y.n;++i) { Iv e=z[i]; for (size_t j=0;j<i;++j) e=e+Iv(y.L[i][j])*z[j]; if (i>0) e=e+Iv(y.k[i])*sqr(z[0]); r.push_back(e); } return true; }
typedef std::vector<std::pair<Q,Q>> QB;
FloatDP fl(Q const& q) { return FT<FloatDP>::of(q,dp); }
ExactBoxType mk(QB const& b) { return ExactBoxType(b.size(),[&](SizeType i){return FloatDPExactInterval(fl(b[i].first),fl(b[i].second));}); }
std::string show(QB const& b) { std::ostringstream o; for (size_t i=0;i<b.size();++i) o << (i?"x":"") << "[" << b[i].first << ":" << b[i].second << "]"; return o.str(); }
QB gen_box(PSrc& s, size_t n, bool small) { QB b; for (size_t i=0;i<n;++i) { Q c=Q((long)s.range(-16,16))/16, w=small?Q((long)s.draw(5))/64:Q((long)s.draw(9))/16; b.push_back({c,c+w}); } return b; }
std::vector<Q> gen_in(PSrc& s, QB const& b) { std::vector<Q> r; for (auto& p:b) r.push_back(p.first+(p.second-p.first)*Q((long)s.draw(9))/8); return r; }
std::vector<Q> corner(QB const& b, unsigned m) { std::vector<Q> r; for (size_t i=0;i<b.size();++i) r.push_back((m>>i)&1?b[i].second:b[i].first); return r; }
Q qd(Dyadic const& d) { return qof(d); }
StepSizeType step(Q const& q) { return Dyadic(FloatDP(fl(q))); }
void check_bounds(std::string const& key, PCase& c, PSrc& s, Sys const& y, QB const& D, Q t0, QB const& A, Q h, UpperBoxType const& B) { (void)c; PBT_CHECK(B.size()==y.n,key+" size","dimension " << B.size()); for (int i=0;i<6;++i) { auto x=i<4?corner(D,(unsigned)s.draw(8)):gen_in(s,D); auto a=gen_in(s,A); Q t=t0+h*Q((long)s.draw(9))/8; if (i==0) t=t0; if (i==1) t=t0+h; std::vector<Iv> v; if (!sol(y,x,t0,t,a,v)) { continue; } for (size_t k=0;k<y.n;++k) { X l=xof(B[k].lower_bound().raw()), u=xof(B[k].upper_bound().raw()); PBT_CHECK(!l.is_nan()&&!u.is_nan()&&!surely_less(v[k],l)&&!surely_greater(v[k],u),key,"component " << k << " of the solution from " << show(x) << " at time " << t << " is " << oracle::show(v[k]) << " outside [" << oracle::show(l) << ":" << oracle::show(u) << "]"); } } }
template<class P> void check_flow(std::string const& key, PCase& c, PSrc& s, Sys const& y, QB const& D, Q t0, Q h, QB const& A, P const& phi, bool checkdom=true) { (void)c; auto d=phi.domain(); PBT_CHECK(d.size()==y.n+1+A.size()&&phi.result_size()==y.n,key+" size","sizes " << d.size() << " and " << phi.result_size()); for (size_t i=0;i<d.size()&&checkdom;++i) { Q l=i<y.n?D[i].first:i==y.n?t0:A[i-y.n-1].first, u=i<y.n?D[i].second:i==y.n?Q(t0+h):A[i-y.n-1].second; PBT_CHECK(xof(d[i].lower_bound()).q==l&&xof(d[i].upper_bound()).q==u,key+" domain","domain " << d << " is wrong in " << i); }
    for (int i=0;i<6;++i) { auto x=i<3?corner(D,(unsigned)s.draw(8)):gen_in(s,D); auto a=gen_in(s,A); Q t=t0+h*Q((long)s.draw(9))/8; if (i==0) t=t0+h; if (i==1) t=t0; std::vector<Iv> v; if (!sol(y,x,t0,t,a,v)) continue; Vector<FloatDPBounds> w(y.n+1+A.size(),[&](SizeType j){return FloatDPBounds(to_rational(j<y.n?x[j]:j==y.n?t:a[j-y.n-1]),dp);}); Vector<FloatDPBounds> r=phi(w); for (size_t k=0;k<y.n;++k) { X l=xof(r[k].lower_raw()), u=xof(r[k].upper_raw()); PBT_CHECK(!l.is_nan()&&!u.is_nan()&&!surely_less(v[k],l)&&!surely_greater(v[k],u),key,"component " << k << " of the solution from " << show(x) << " at time " << t << " with parameters " << show(a) << " is " << oracle::show(v[k]) << ", not in [" << oracle::show(l) << ":" << oracle::show(u) << "]"); } } }
Q err_of(ValidatedVectorMultivariateFunctionPatch const& phi) { X e=xof(FloatDPUpperBound(phi.error().get(dp)).raw()); return e.finite()?e.q:Q(1000); }
void t_bounds(PSrc& s, PCase& c) { bool time=s.chance(1,3); size_t na=s.chance(1,4)?1+s.draw(2):0; if (time&&na==1&&s.boolean()) na=2; Sys y=gen_sys(s,time,na,3); QB D=gen_box(s,y.n,s.boolean()), A=gen_box(s,na,true); Q t0=time?Q((long)s.range(-4,4))/4:Q(0); Q hs=s.pick<Q>({Q(1,4),Q(1),Q(2),Q(1,16),Q(3,8)}); double lt=s.pick<double>({0.5,0.25,1.0,4.0}); VF f=build(y); NOTE(c,show(y) << " from " << show(D) << " t0=" << t0 << " A=" << show(A) << " h=" << hs << " lipschitz " << lt); c.interesting(y.n>1||time||na>0); EulerBounder b{LipschitzTolerance{ExactDouble(lt)}};
    if (f.argument_size()!=y.n+(time?1:0)+na) PBT_FAIL("size","harness");
    std::pair<StepSizeType,UpperBoxType> r; int form=0; try { Suggestion<StepSizeType> sg(step(hs)); if (time) { if (na==0&&s.boolean()) { form=1; r=b.compute(f,mk(D),step(t0),sg); } else r=b.compute(f,mk(D),step(t0),mk(A),sg); } else { if (na==0&&s.boolean()) { form=1; BounderHandle hd(b); r=hd.compute(f,mk(D),sg); } else { std::unique_ptr<BounderInterface> cl(b.clone()); r=cl->compute(f,mk(D),mk(A),sg); } } } catch (BoundingNotFoundException const&) { c.label("not found"); return; } (void)form; Q h=qd(r.first); PBT_CHECK(h>0&&h<=hs,"step","step " << h); c.label(h==hs?"full step":"reduced step"); PBT_CHECK(h>=Q(1,1<<20),"step small","step is only " << h); check_bounds("bounds",c,s,y,D,t0,A,h,r.second); }
std::unique_ptr<IntegratorInterface> gen_integ(PSrc& s, std::ostream& lg, int& kind, Q& err) { static const std::vector<double> es={1e-4,1e-3,1e-6,1e-2}; double e=es[s.draw(4)]; err=0; kind=(int)s.draw(5); ThresholdSweeper<FloatDP> sw(dp,e*s.pick<double>({1e-3,1e-4,1e-6})); LipschitzTolerance lt{ExactDouble(s.pick<double>({0.5,0.25,1.0}))}; lg << " err=" << e; switch (kind) { case 0: err=Q(e); lg << " TaylorPicard"; if (s.boolean()) return std::make_unique<TaylorPicardIntegrator>(StepMaximumError(e)); return std::make_unique<TaylorPicardIntegrator>(StepMaximumError(e),sw,lt,MinimumTemporalOrder((DegreeType)s.draw(3)),MaximumTemporalOrder((DegreeType)(6+s.draw(8))));
    case 1: { err=Q(e); unsigned o=2+(unsigned)s.draw(5); lg << " GradedTaylorPicard " << o; return std::make_unique<GradedTaylorPicardIntegrator>(StepMaximumError(e),Order(o)); }
    case 2: { unsigned o=1+(unsigned)s.draw(6); lg << " TaylorSeries " << o; if (s.boolean()) return std::make_unique<TaylorSeriesIntegrator>(StepMaximumError(e),Order(o)); return std::make_unique<TaylorSeriesIntegrator>(sw,lt,Order(o)); }
    case 3: { unsigned o=3+(unsigned)s.draw(4); lg << " TaylorSeriesBounder " << o; return std::make_unique<TaylorSeriesBounderIntegrator>(StepMaximumError(e),sw,lt,Order(o)); }
    default: { err=Q(e); lg << " GradedTaylorSeries"; if (s.boolean()) return std::make_unique<GradedTaylorSeriesIntegrator>(StepMaximumError(e)); unsigned a=(unsigned)s.draw(3), b=1+(unsigned)s.draw(4), d=std::max(1u,a+(unsigned)s.draw(3)), g=b+2+(unsigned)s.draw(6); lg << " " << a << " " << b << " " << d << " " << g; return std::make_unique<GradedTaylorSeriesIntegrator>(StepMaximumError(e),sw,lt,MinimumSpacialOrder(a),MinimumTemporalOrder(b),MaximumSpacialOrder(d),MaximumTemporalOrder(g)); } } }
void t_auto(PSrc& s, PCase& c) { std::ostringstream lg; int kind; Q err; auto in=gen_integ(s,lg,kind,err); if (s.chance(1,4)) in.reset(in->clone()); Sys y=gen_sys(s,false,0,3); QB D=gen_box(s,y.n,true); VF f=build(y); Q hs=s.pick<Q>({Q(1,8),Q(1,4),Q(1,2),Q(1,32)}); int mode=(int)s.draw(4); const char* names[]={"bounded","suggested","exact step","default"}; lg << " " << names[mode]; NOTE(c,show(y) << " from " << show(D) << " h=" << hs << lg.str()); c.interesting(y.n>1); std::string key=names[mode]; c.label(key); ExactBoxType dx=mk(D); Q h=hs; FlowStepModelType phi; 
    try { if (mode==0) { auto p=EulerBounder().compute(f,dx,Suggestion<StepSizeType>(step(hs))); h=qd(p.first); phi=in->flow_step(f,dx,p.first,p.second); } else if (mode==1) { phi=in->flow_step(f,dx,Suggestion<StepSizeType>(step(hs))); } else if (mode==2) { try { phi=in->flow_step(f,dx,step(hs)); c.label("complete"); } catch (IncompleteFlowException const& e) { c.label("incomplete"); phi=e.computed_model(); h=xof(phi.domain()[y.n].upper_bound()).q; PBT_CHECK(h>0&&h<=hs,key+" incomplete","step " << h); } } else { phi=in->flow_step(f,dx); } } catch (FlowTimeStepException const&) { c.label("time step exception"); PBT_CHECK(mode==0||mode==2,key+" exception","FlowTimeStepException"); return; } catch (BoundingNotFoundException const&) { c.label("bounding not found"); return; }
    if (mode==1||mode==3) { h=xof(phi.domain()[y.n].upper_bound()).q; PBT_CHECK(h>0&&h<=(mode==1?hs:Q(1)),key+" step","step " << h); PBT_CHECK(h>=Q(1,1<<28),key+" step small","step is only " << h.get_d()); if (h==hs) c.label("full step"); } check_flow(key,c,s,y,D,Q(0),h,QB{},phi); if (err>0) { Q e=err_of(phi); if (kind!=4&&e>err&&e<=8*err) PBT_FAIL("Picard error swept","error " << e.get_d() << " is above the maximum, since terms are swept after it is compared"); PBT_CHECK(e<=err,key+" error","error " << err_of(phi).get_d() << " is above the maximum"); } c.label(kind==0?"TaylorPicard":kind==1?"GradedTaylorPicard":kind==2?"TaylorSeries":kind==3?"TaylorSeriesBounder":"GradedTaylorSeries"); }
void t_general(PSrc& s, PCase& c) { std::ostringstream lg; int kind; Q err; auto in=gen_integ(s,lg,kind,err); bool time=kind<=1||s.chance(2,3); size_t na=time?s.draw(3):1+s.draw(2); Sys y=gen_sys(s,time,na,2); QB D=gen_box(s,y.n,true), A=gen_box(s,na,true); Q t0=time?Q((long)s.range(-4,4))/4:Q(0); if (time&&s.chance(1,3)) t0+=Q(1,64); VF f=build(y); Q hs=s.pick<Q>({Q(1,8),Q(1,4),Q(1,2)}); NOTE(c,show(y) << " from " << show(D) << " t0=" << t0 << " A=" << show(A) << " h=" << hs << lg.str()); c.interesting(na>0||t0!=0);
    if (time&&na==1) { /* the number of arguments does not tell time from a parameter only if there is no time */ } try { auto p=time?EulerBounder().compute(f,mk(D),step(t0),mk(A),Suggestion<StepSizeType>(step(hs))):EulerBounder().compute(f,mk(D),mk(A),Suggestion<StepSizeType>(step(hs))); Q ht=qd(p.first); { mpz_class z; Q w=ht*1048576; mpz_fdiv_q(z.get_mpz_t(),w.get_num_mpz_t(),w.get_den_mpz_t()); ht=Q(z)/1048576; } StepSizeType h=step(ht); FlowStepModelType phi=in->flow_step(f,mk(D),Interval<StepSizeType>(step(t0),StepSizeType(step(t0)+h)),mk(A),p.second); check_flow("general",c,s,y,D,t0,ht,A,phi); if (err>0) { Q e=err_of(phi); if (kind!=4&&e>err&&e<=8*err) PBT_FAIL("Picard error swept","error " << e.get_d() << " is above the maximum, since terms are swept after it is compared"); PBT_CHECK(e<=err,"general error","error " << err_of(phi).get_d()); } c.label(time?na?"time and parameters":"time":"parameters"); } catch (FlowTimeStepException const&) { c.label("time step exception"); } catch (BoundingNotFoundException const&) { c.label("bounding not found"); } }
void t_rk(PSrc& s, PCase& c) { Sys y=gen_sys(s,false,0,3); std::vector<Q> x0; for (size_t i=0;i<y.n;++i) x0.push_back(Q((long)s.range(-8,8))/16); VF f=build(y); ApproximateVectorMultivariateFunction af(f); int lev=3+(int)s.draw(3); Q h=Q(1)/(1<<lev), T=h*(1+(long)s.draw(4)); NOTE(c,show(y) << " from " << show(x0) << " step " << h << " to " << T); c.interesting(y.n>1); RungeKutta4Integrator rk(ApproximateDouble(h.get_d())); Vector<FloatDPApproximation> x(y.n,[&](SizeType i){return FloatDPApproximation(to_rational(x0[i]),dp);}); auto l=rk.evolve(af,x,FloatDPApproximation(T.get_d(),dp)); long n=0; while (h*n<T) ++n; PBT_CHECK((long)l.size()==n+1,"rk steps",l.size() << " points"); Q t(0); 
    for (size_t k=0;k<l.size();++k,t+=h) { PBT_CHECK(xof(l[k].first.raw()).q==t,"rk time","wrong time"); std::vector<Iv> v; if (!sol(y,x0,Q(0),t,{},v)) return; for (size_t i=0;i<y.n;++i) { X r=xof(l[k].second[i].raw()); PBT_CHECK(r.finite(),"rk","not finite"); if (surely_greater(v[i],X(Q(2)))||surely_less(v[i],X(Q(-2)))) return; Q tol=Q(100)*h*h*h*h*t+Q(1,1000000000); for (int p=0;p<2;++p) { Iv e=Iv(r.q)-v[i]; PBT_CHECK(!surely_greater(e,X(tol))&&!surely_less(e,X(Q(-tol))),"rk accuracy","component " << i << " at " << t << " is " << r.q.get_d() << ", not " << oracle::show(v[i])); } } }
    auto one=rk.step(af,x,FloatDPApproximation(h.get_d(),dp)); for (size_t i=0;i<y.n;++i) PBT_CHECK(xof(one[i].raw()).q==xof(l[1].second[i].raw()).q,"rk step","a step differs from evolve"); }
pbt::Register rb("bounds",16000,160000,t_bounds,20), ra("autonomous",6000,60000,t_auto,30), rg("general",3200,40000,t_general,30), rr("runge kutta",8000,80000,t_rk,20);
struct Init { Init() { pbt::set_rule("the system is coupled, or depends on time or parameters"); pbt::set_reset(reset_modes); pbt::add_assumption("AffineIntegrator is excluded: its test says that it does not work correctly"); } } init_;
}
