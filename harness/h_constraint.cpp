// C26: constraint propagation.  Oracle: points which certainly satisfy the constraints (in MPFR) must never be removed.
#include "fun_ast.hpp"
#include "algebra/algebra.hpp"
#include "function/function_patch.hpp"
#include "function/taylor_function.hpp"
#include "function/procedure.hpp"
#include "function/constraint.hpp"
#include "geometry/box.hpp"
#include "geometry/point.hpp"
#include "solvers/constraint_solver.hpp"
namespace {
typedef ValidatedScalarMultivariateFunction SF; typedef ValidatedVectorMultivariateFunction VF;
SF mkf(Ex const& e, size_t n) { std::vector<SF> x; for (size_t i=0;i<n;++i) x.push_back(SF::coordinate(n,i)); return build<SF>(e,x,[n](Q q){return SF::constant(n,ValidatedNumber(to_rational(q)));},[](Q q){return ValidatedNumber(to_rational(q));}); }
VF mkv(std::vector<Ex> const& es, size_t n) { VF f(es.size(),EuclideanDomain(n)); for (size_t i=0;i<es.size();++i) f[i]=mkf(es[i],n); return f; }
FloatDP fl(Q const& q) { return FT<FloatDP>::of(q,dp); }
bool arc(Ex const& e) { if (!e) return false; return e->op==ATAN||arc(e->a)||arc(e->b); }
struct QI { X l,u; };                        // with infinite bounds
typedef std::vector<std::pair<Q,Q>> QB;
X xq(Q q) { return X(q); }
FloatDP flx(X const& x) { return x.finite()?fl(x.q):FloatDP(ExactDouble(x.kind>0?std::numeric_limits<double>::infinity():-std::numeric_limits<double>::infinity()),dp); }
ExactIntervalType mki(QI const& c) { return ExactIntervalType(flx(c.l),flx(c.u)); }
std::string sh(QI const& c) { return "["+oracle::show(c.l)+":"+oracle::show(c.u)+"]"; }
std::string sh(QB const& b) { std::ostringstream o; for (size_t i=0;i<b.size();++i) o << (i?"x":"") << "[" << b[i].first.get_d() << ":" << b[i].second.get_d() << "]"; return o.str(); }
std::string sh(UpperBoxType const& b) { std::ostringstream o; for (size_t i=0;i<b.size();++i) o << (i?"x":"") << "[" << b[i].lower_bound().raw().get_d() << ":" << b[i].upper_bound().raw().get_d() << "]"; return o.str(); }
Q qround(Q q, int bits, int dir) { Q t=q*two_exp(bits); Z z=qfloor(t); if (dir>0&&Q(z)!=t) z+=1; return Q(z)*two_exp(-bits); }
QB gen_qbox(PSrc& s, size_t n, int wmax) { QB b; for (size_t i=0;i<n;++i) { Q c=Q((long)s.range(-24,24))/8, w=s.chance(1,12)?Q(0):Q((long)s.range(1,wmax))/8; if (s.chance(1,5)) c=0; if (s.chance(1,5)) { c=-w/2; } b.push_back({c,c+w}); } return b; }
Pt gen_in(PSrc& s, QB const& b) { Pt p; for (auto& d:b) p.push_back(d.first+(d.second-d.first)*Q((long)s.draw(9))/8); return p; }
bool certainly(std::vector<Ex> const& es, std::vector<QI> const& C, Pt const& p) { for (size_t i=0;i<es.size();++i) { Val v=val(es[i],p); if (!v.d||!v.v.finite()) return false; if (!le(C[i].l,X(v.v.lower()))||!le(X(v.v.upper()),C[i].u)) return false; } return true; }
X const oo=X::inf(1), moo=X::inf(-1);
struct Prob { size_t n; std::vector<Ex> es; std::vector<QI> C; QB D; std::vector<Pt> sol; bool planted; };
// constraints which a point of the box (usually) fulfils
Prob gen_prob(PSrc& s, PCase& c, std::ostringstream& lg, int maxn, int maxm, int level, int depth, int wmax, int size) { Prob P; P.n=1+s.draw(maxn); size_t m=1+s.draw(maxm); P.D=gen_qbox(s,P.n,wmax); for (size_t i=0;i<m;++i) { lg << (i?" ; ":"f="); P.es.push_back(gen_fun(s,lg,P.n,level,1+(int)s.draw(depth)).e); } size_t k=0; for (auto& e:P.es) k+=nodes(e); NOTE(c,lg.str() << " on " << sh(P.D)); if (k>(size_t)size) PBT_DISCARD();
    Pt x=gen_in(s,P.D); P.planted=s.chance(3,4); for (size_t i=0;i<m;++i) { Val v=val(P.es[i],x); if (!v.d||!v.v.finite()||v.v.upper()-v.v.lower()>Q(1,1000)||abs(v.v.upper())>1000000) { if (P.planted) PBT_DISCARD(); v.v=Iv(0); } int bits=(int)s.pick<int>({2,10,30,45}); Q a=s.chance(1,3)?Q(0):s.boolean()?Q(Q((long)s.draw(8))/8):Q(abs(gen_small_q(s,1))/100), b=s.chance(1,3)?Q(0):s.boolean()?Q(Q((long)s.draw(8))/8):Q(abs(gen_small_q(s,1))/100); if (!P.planted) { Q sft=gen_small_q(s,4); v.v=v.v+Iv(sft); }
        QI q{X(qround(v.v.lower()-a,bits,-1)),X(qround(v.v.upper()+b,bits,1))}; if (s.chance(1,6)) q.l=moo; else if (s.chance(1,6)) q.u=oo; P.C.push_back(q); lg << (i?" x ":" in ") << sh(q); } lg << " on " << sh(P.D); NOTE(c,lg.str());
    if (P.planted) P.sol.push_back(x); for (int i=0;i<12;++i) { Pt y=gen_in(s,P.D); if (certainly(P.es,P.C,y)) P.sol.push_back(y); } return P; }
ExactBoxType mkb(QB const& b) { return ExactBoxType(b.size(),[&](SizeType i){return ExactIntervalType(fl(b[i].first),fl(b[i].second));}); }
ExactBoxType mkc(std::vector<QI> const& C) { return ExactBoxType(C.size(),[&](SizeType i){return mki(C[i]);}); }
void sound(std::string const& k, Prob const& P, UpperBoxType const& old, UpperBoxType const& d, bool empty) { PBT_CHECK(d.size()==P.n,k+" size",k << " changed the dimension"); for (size_t i=0;i<P.n;++i) { X l=xof(d[i].lower_bound().raw()),u=xof(d[i].upper_bound().raw()); PBT_CHECK(!l.is_nan()&&!u.is_nan(),k+" nan",k << " gives nan"); PBT_CHECK(le(xof(old[i].lower_bound().raw()),l)&&le(u,xof(old[i].upper_bound().raw())),k+" enlarges",k << " enlarges " << sh(old) << " to " << sh(d)); }
    for (auto& x:P.sol) { PBT_CHECK(!empty,k+" empty",k << " decides that there is no solution, but " << show(x) << " is one"); for (size_t i=0;i<P.n;++i) { X l=xof(d[i].lower_bound().raw()),u=xof(d[i].upper_bound().raw()); PBT_CHECK(le(l,X(x[i]))&&le(X(x[i]),u),k,k << " reduces " << sh(old) << " to " << sh(d) << " which excludes the solution " << show(x)); } }
    if (empty) { bool e=false; for (size_t i=0;i<P.n;++i) if (!le(xof(d[i].lower_bound().raw()),xof(d[i].upper_bound().raw()))) e=true; PBT_CHECK(e,k+" says empty",k << " says that the box is empty but leaves " << sh(d)); } }
void t_reduce(PSrc& s, PCase& c) { std::ostringstream lg; int level=(int)s.draw(4); Prob P=gen_prob(s,c,lg,3,2,level,3,40,24); ConstraintSolver cs; VF f=mkv(P.es,P.n); size_t m=P.es.size(); UpperBoxType d(mkb(P.D)); ExactBoxType C=mkc(P.C); bool done=false; c.label(P.sol.empty()?"no known solution":"solutions");
    std::string names; int k=1+(int)s.draw(3); for (int t=0;t<k&&!done;++t) { UpperBoxType old=d; size_t i=s.draw(m), j=s.draw(P.n); std::string nm; bool e=false; int op=(int)s.weighted({5,4,2,2,2,3,2,2}); static char const* nms[]={"hull_reduce","hull_reduce vector","hull_reduce procedure","hull_reduce procedures","box_reduce","monotone_reduce","reduce","reduce constraints"}; nm=nms[op]; names+=" "+nm; NOTE(c,lg.str() << " :" << names << " " << i << " " << j << " of " << sh(d)); SF fi=f[i]; try {
        switch (op) { case 0: if (s.boolean()) e=cs.hull_reduce(d,fi,C[i]); else e=cs.hull_reduce(d,ValidatedConstraint(ValidatedNumber(FloatDPBounds(C[i].lower_bound())),fi,ValidatedNumber(FloatDPBounds(C[i].upper_bound())))); break; case 1: e=cs.hull_reduce(d,f,C); break; case 2: e=cs.hull_reduce(d,ValidatedProcedure(fi),C[i]); break; case 3: { Vector<ValidatedProcedure> p(f); e=cs.hull_reduce(d,p,C); break; }
            case 4: e=cs.box_reduce(d,fi,C[i],j); break; case 5: if (!smooth(P.es[i])) continue; e=cs.monotone_reduce(d,fi,C[i],j); break; case 6: e=cs.reduce(d,f,C); break; default: { List<ValidatedConstraint> l; for (size_t q=0;q<m;++q) { SF fq=f[q]; l.append(ValidatedConstraint(ValidatedNumber(FloatDPBounds(C[q].lower_bound())),fq,ValidatedNumber(FloatDPBounds(C[q].upper_bound())))); } e=cs.reduce(d,l); } } } catch (std::exception const&) { bool si=false; for (auto& g:P.es) if (sing(g)) si=true; if (!si) throw; return; }
        c.label(nm); sound(nm,P,old,d,e); bool same=true; for (size_t q=0;q<P.n;++q) if (xof(d[q].lower_bound().raw()).q!=xof(old[q].lower_bound().raw()).q||xof(d[q].upper_bound().raw()).q!=xof(old[q].upper_bound().raw()).q) same=false; if (!same) { c.label("reduced"); c.interesting(!P.sol.empty()||e); } if (e) { c.label("empty"); done=true; } if (definitely(d.is_empty())) done=true; } }
// a linear constraint is reduced to the hull of its solutions
void t_sharp(PSrc& s, PCase& c) { size_t n=1+s.draw(3); QB D=gen_qbox(s,n,32); std::vector<Q> a; Ex e=mkc(Q((long)s.range(-8,8))/4); Q k=e->q; for (size_t i=0;i<n;++i) { Q q=Q(1+(long)s.draw(12))/4; if (s.boolean()) q=-q; a.push_back(q); Ex t=std::make_shared<Nd const>(Nd{MUL,Q(0),0,0,mkc(q),mkx(i),s.boolean()}); e=std::make_shared<Nd const>(Nd{s.boolean()?ADD:ADD,Q(0),0,0,e,t,s.boolean()}); } Q lo=k,hi=k; for (size_t i=0;i<n;++i) { lo+=qmin(a[i]*D[i].first,a[i]*D[i].second); hi+=qmax(a[i]*D[i].first,a[i]*D[i].second); }
    Q cl=qround(lo+(hi-lo)*Q((long)s.range(-2,9))/8,20,-1), cu=cl+qround((hi-lo)*Q((long)s.range(0,6))/8,20,1); NOTE(c,show(e) << " in [" << cl << ":" << cu << "] on " << sh(D)); c.interesting(n>1); ConstraintSolver cs; UpperBoxType d(mkb(D)); ExactIntervalType C(fl(cl),fl(cu)); bool em=cs.hull_reduce(d,mkf(e,n),C); bool none=hi<cl||lo>cu; Q gap=qmax(cl-hi,lo-cu); if (none) { if (gap>Q(1,1000)) PBT_CHECK(em&&definitely(d.is_empty()),"sharp empty","no solution, but reduced to " << sh(d)); return; } PBT_CHECK(!em,"sharp","there are solutions but hull_reduce finds none");
    for (size_t i=0;i<n;++i) { Q rl=lo-qmin(a[i]*D[i].first,a[i]*D[i].second), ru=hi-qmax(a[i]*D[i].first,a[i]*D[i].second); Q p=(cl-ru)/a[i], q=(cu-rl)/a[i]; if (a[i]<0) std::swap(p,q); Q l=qmax(p,D[i].first), u=qmin(q,D[i].second); X dl=xof(d[i].lower_bound().raw()),du=xof(d[i].upper_bound().raw()); PBT_CHECK(dl.finite()&&du.finite()&&dl.q<=l&&du.q>=u,"sharp lost","x" << i << " is reduced to " << sh(d) << " instead of [" << l.get_d() << ":" << u.get_d() << "]"); PBT_CHECK(dl.q>=l-Q(1,1000000)&&du.q<=u+Q(1,1000000),"sharp","x" << i << " is reduced to " << sh(d) << " instead of [" << l.get_d() << ":" << u.get_d() << "]"); } }
void t_lyapunov(PSrc& s, PCase& c) { std::ostringstream lg; Prob P=gen_prob(s,c,lg,2,2,(int)s.pick<int>({0,0,2}),2,8,16); for (auto& e:P.es) if (sing(e)||!smooth(e)||arc(e)) PBT_DISCARD(); for (auto& q:P.C) if (!q.l.finite()||!q.u.finite()) PBT_DISCARD(); for (auto& q:P.D) if (q.first==q.second) PBT_DISCARD(); ConstraintSolver cs; size_t m=P.es.size(); ExactBoxType D=mkb(P.D), C=mkc(P.C); ThresholdSweeper<FloatDP> sw(dp,s.pick<double>({1e-8,1e-3,1e-12})); ValidatedVectorMultivariateTaylorFunctionModelDP t(D,mkv(P.es,P.n),sw); UpperBoxType d(D); Pt x=gen_in(s,P.D); Vector<FloatDP> ctr(P.n,[&](SizeType i){return fl(x[i]);}); std::vector<Q> mu; for (size_t i=0;i<m;++i) mu.push_back(Q((long)s.range(-8,8))/4); Vector<FloatDP> lam(m,[&](SizeType i){return fl(mu[i]);});
    lg << " centre " << show(x) << " multipliers " << show(mu); NOTE(c,lg.str()); c.interesting(!P.sol.empty()); UpperBoxType old=d; bool e=cs.lyapunov_reduce(d,t,C,ctr,lam); sound("lyapunov_reduce",P,old,d,e); }
void t_feasible(PSrc& s, PCase& c) { std::ostringstream lg; Prob P=gen_prob(s,c,lg,2,2,(int)s.pick<int>({0,0,2}),2,16,12); for (auto& q:P.D) if (q.first==q.second) PBT_DISCARD(); for (auto& e:P.es) if (sing(e)||!smooth(e)||arc(e)) PBT_DISCARD(); ConstraintSolver cs; ExactBoxType D=mkb(P.D), C=mkc(P.C); VF f=mkv(P.es,P.n); c.interesting(P.sol.size()>0);
    { Pt x=gen_in(s,P.D); if (s.chance(1,4)) x[0]+=Q((long)s.range(-16,16))/8; ExactPointType y(P.n,dp); for (size_t i=0;i<P.n;++i) y[i]=fl(x[i]); ValidatedKleenean k=cs.check_feasibility(D,f,C,y); bool in=true; for (size_t i=0;i<P.n;++i) if (x[i]<P.D[i].first||x[i]>P.D[i].second) in=false; bool ok=in&&certainly(P.es,P.C,x), no=!in; for (size_t i=0;i<P.es.size()&&!no;++i) { Val v=val(P.es[i],x); if (v.d&&v.v.finite()&&(surely_less(v.v,P.C[i].l)||surely_greater(v.v,P.C[i].u))) no=true; } if (definitely(k)) PBT_CHECK(!no,"check_feasibility","says that " << show(x) << " is feasible"); if (definitely(!k)) PBT_CHECK(!ok,"check_feasibility","says that " << show(x) << " is not feasible"); if (!in) PBT_CHECK(definitely(!k),"check_feasibility","does not see that " << show(x) << " is outside"); }
    auto r=cs.feasible(D,f,C); c.label(definitely(r.first)?"feasible":definitely(!r.first)?"infeasible":"unknown"); if (definitely(!r.first)) PBT_CHECK(P.sol.empty(),"infeasible","claims infeasibility, but " << show(P.sol[0]) << " is feasible");
    if (definitely(r.first)&&r.second.size()==P.n) { Pt y; for (size_t i=0;i<P.n;++i) y.push_back(xof(r.second[i]).q); for (size_t i=0;i<P.n;++i) PBT_CHECK(y[i]>=P.D[i].first&&y[i]<=P.D[i].second,"feasible point","the point " << show(y) << " is not in the domain"); for (size_t i=0;i<P.es.size();++i) { Val v=val(P.es[i],y); PBT_CHECK(!v.d||!(surely_less(v.v,P.C[i].l)||surely_greater(v.v,P.C[i].u)),"feasible point","the point " << show(y) << " violates constraint " << i); } } }
pbt::Register r1("reduce",30000,600000,t_reduce,5), r2("sharp",10000,200000,t_sharp,5), r3("lyapunov",4000,80000,t_lyapunov,5), r4("feasible",3000,60000,t_feasible,10);
struct Init { Init() { pbt::set_rule("a contraction reduced the box while a solution is known, or the problem has a known solution or several variables"); pbt::set_reset(reset_modes); pbt::add_assumption("MPFR at 420 bits is right"); } } init;
}
