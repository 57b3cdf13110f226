// C24: equation solvers.
#include "fun_ast.hpp"
#include "algebra/algebra.hpp"
#include "solvers/solver.hpp"
#include "function/function_patch.hpp"
#include "function/taylor_function.hpp"
#include "geometry/box.hpp"
namespace {
typedef EffectiveScalarMultivariateFunction SF; typedef EffectiveVectorMultivariateFunction VF;
struct Fac { int kind; Q r; Q k; };              // 0: x-r  1: exp(x-r)-1  2: (x-r)^3  3: atan(x-r)  4: (x-r)^2+k (no root)
struct Un { Q c; std::vector<Fac> f; std::vector<Q> roots() const { std::set<Q> s; for (auto& x:f) if (x.kind!=4) s.insert(x.r); return {s.begin(),s.end()}; } bool simple() const { std::set<Q> s; for (auto& x:f) if (x.kind!=4) { if (x.kind==2||!s.insert(x.r).second) return false; } return true; } };
std::string show(Un const& u) { std::ostringstream o; o << u.c; for (auto& f:u.f) switch (f.kind) { case 0: o << "(x-" << f.r << ")"; break; case 1: o << "(exp(x-" << f.r << ")-1)"; break; case 2: o << "(x-" << f.r << ")^3"; break; case 3: o << "atan(x-" << f.r << ")"; break; default: o << "((x-" << f.r << ")^2+" << f.k << ")"; } return o.str(); }
SF build(Un const& u, SF const& x) { SF p=x*0+EffectiveNumber(to_rational(u.c)); for (auto& f:u.f) { SF y=x-EffectiveNumber(to_rational(f.r)); switch (f.kind) { case 0: p=p*y; break; case 1: p=p*(exp(y)-EffectiveNumber(1)); break; case 2: p=p*pow(y,3); break; case 3: p=p*atan(y); break; default: p=p*(y*y+EffectiveNumber(to_rational(f.k))); } } return p; }
Q gen_root(PSrc& s, bool awkward) { return awkward?Q(Q((long)s.range(-20,20))/8):Q(Q((long)s.range(-40,40))/13+Q(1,101)); }
Un gen_un(PSrc& s, bool awkward, int most) { Un u; u.c=s.pick<Q>({Q(1),Q(-1),Q(2),Q(1,3),Q(5,7)}); int n=(int)s.draw((uint64_t)most+1); for (int i=0;i<n;++i) { Fac f{(int)s.weighted({6,2,1,1,1}),gen_root(s,awkward),Q(1+(long)s.draw(4))/4}; if (f.kind==2&&!awkward) f.kind=0; u.f.push_back(f); } if (u.f.empty()) u.f.push_back(Fac{s.boolean()?0:4,gen_root(s,awkward),Q(1,2)}); return u; }
struct Sys { size_t n; std::vector<Un> u; std::vector<std::vector<Q>> A; std::vector<Q> cpl; };
Sys gen_sys(PSrc& s, std::ostream& lg, bool awkward, int most) { Sys y; y.n=1+s.draw(3); for (size_t i=0;i<y.n;++i) { y.u.push_back(gen_un(s,awkward,most)); lg << " p" << i << "=" << show(y.u[i]); }
    // a product of triangular matrices, so invertible
    std::vector<std::vector<Q>> L(y.n,std::vector<Q>(y.n,Q(0))),U=L; bool mix=y.n>1&&s.boolean(); for (size_t i=0;i<y.n;++i) { L[i][i]=1; U[i][i]=mix?s.pick<Q>({Q(1),Q(2),Q(-1),Q(1,2)}):Q(1); for (size_t j=0;j<i;++j) if (mix) { L[i][j]=Q((long)s.range(-2,2))/2; U[j][i]=Q((long)s.range(-2,2))/2; } } y.A=L; for (size_t i=0;i<y.n;++i) for (size_t j=0;j<y.n;++j) { y.A[i][j]=0; for (size_t k=0;k<y.n;++k) y.A[i][j]+=L[i][k]*U[k][j]; } if (mix) { lg << " A="; for (auto& r:y.A) { for (auto& q:r) lg << q << " "; lg << ";"; } } for (size_t i=0;i<y.n;++i) y.cpl.push_back(i>0&&s.chance(1,3)?Q((long)s.range(-2,2))/4:Q(0)); for (size_t i=0;i<y.n;++i) if (y.cpl[i]!=0) lg << " p" << i << "+=" << y.cpl[i] << "*p0*x" << i; return y; }
VF build(Sys const& y, bool plus_id=false) { std::vector<SF> p; for (size_t i=0;i<y.n;++i) { SF x=SF::coordinate(y.n,i); SF q=build(y.u[i],x); if (y.cpl[i]!=0) q=q+EffectiveNumber(to_rational(y.cpl[i]))*p[0]*x; p.push_back(q); } List<SF> r; for (size_t i=0;i<y.n;++i) { SF t=SF::zero(y.n); for (size_t j=0;j<y.n;++j) if (y.A[i][j]!=0) t=t+EffectiveNumber(to_rational(y.A[i][j]))*p[j]; if (plus_id) t=t+SF::coordinate(y.n,i); r.append(t); } return VF(r); }
typedef std::vector<std::pair<Q,Q>> QB;
FloatDP fl(Q const& q) { return FT<FloatDP>::of(q,dp); }
ExactBoxType mk(QB const& b) { return ExactBoxType(b.size(),[&](SizeType i){return FloatDPExactInterval(fl(b[i].first),fl(b[i].second));}); }
std::string show(QB const& b) { std::ostringstream o; for (size_t i=0;i<b.size();++i) o << (i?"x":"") << "[" << b[i].first.get_d() << ":" << b[i].second.get_d() << "]"; return o.str(); }
QB gen_box(PSrc& s, Sys const& y) { QB b; for (size_t i=0;i<y.n;++i) { Q l,u; auto r=y.u[i].roots(); if (!r.empty()&&s.chance(2,3)) { Q c=r[s.draw(r.size())]; Q w=Q(1)/(1<<s.draw(6)); mpz_class z; Q t=c*64; mpz_fdiv_q(z.get_mpz_t(),t.get_num_mpz_t(),t.get_den_mpz_t()); Q base=Q(z)/64; l=base-w*(long)s.draw(9)/8; u=base+w*(long)(1+s.draw(9))/8; } else { l=Q((long)s.range(-32,32))/8; u=l+Q(1+(long)s.draw(24))/8; } b.push_back({l,u}); } return b; }
std::vector<std::vector<Q>> zeros(Sys const& y, QB const& b) { std::vector<std::vector<Q>> z{{}}; for (size_t i=0;i<y.n;++i) { std::vector<std::vector<Q>> w; for (auto& q:y.u[i].roots()) if (b[i].first<=q&&q<=b[i].second) for (auto v:z) { v.push_back(q); w.push_back(v); } z=w; } return z; }
bool has(Vector<FloatDPBounds> const& r, std::vector<Q> const& z) { for (size_t i=0;i<z.size();++i) { X l=xof(r[i].lower_raw()), u=xof(r[i].upper_raw()); if (!l.finite()||!u.finite()||l.q>z[i]||u.q<z[i]) return false; } return true; }
std::string show(Vector<FloatDPBounds> const& r) { std::ostringstream o; for (size_t i=0;i<r.size();++i) o << (i?"x":"") << "[" << xof(r[i].lower_raw()).q.get_d() << ":" << xof(r[i].upper_raw()).q.get_d() << "]"; return o.str(); }
std::unique_ptr<SolverBase> gen_solver(PSrc& s, std::ostream& lg, double& e, unsigned& n) { e=s.pick<double>({1e-8,1e-4,1e-12}); n=s.pick<unsigned>({12,32,6}); lg << " e=" << e << " n=" << n; switch (s.draw(3)) { case 0: lg << " Newton"; return std::make_unique<IntervalNewtonSolver>(e,n); case 1: lg << " Krawczyk"; return std::make_unique<KrawczykSolver>(e,n); default: lg << " factored Krawczyk"; return std::make_unique<FactoredKrawczykSolver>(e,n); } }
// 0 result, 1 no solution, 2 not known
template<class Fn> int attempt(Fn f) { try { f(); return 0; } catch (NoSolutionException const&) { return 1; } catch (SolverException const&) { return 2; } catch (SingularMatrixException const&) { return 2; } catch (DivideByZeroException const&) { return 2; } }
void t_zero(PSrc& s, PCase& c) { std::ostringstream lg; double e; unsigned st; auto sv=gen_solver(s,lg,e,st); bool awk=s.chance(1,3); Sys y=gen_sys(s,lg,awk,2); VF f=build(y); QB b=gen_box(s,y); ExactBoxType bx=mk(b); auto z=zeros(y,b); NOTE(c,lg.str() << " in " << show(b) << " with " << z.size() << " zeros"); c.label("zeros "+std::to_string(std::min<size_t>(z.size(),3))); c.interesting(y.n>1&&!z.empty());
    PBT_CHECK(sv->maximum_error()==cast_exact(ApproximateDouble(e))&&sv->maximum_number_of_steps()==st,"settings","settings are lost"); std::unique_ptr<SolverInterface> cl(sv->clone()); PBT_CHECK(cl->maximum_error()==sv->maximum_error()&&cl->maximum_number_of_steps()==st,"clone","clone has other settings");
    // one contraction keeps every zero
    Vector<FloatDPBounds> x(y.n,[&](SizeType i){return FloatDPBounds(fl(b[i].first),fl(b[i].second));}); struct Acc : KrawczykSolver { }; Vector<FloatDPBounds> r(y.n,dp);
    int w=attempt([&]{ if (auto* p=dynamic_cast<IntervalNewtonSolver*>(sv.get())) r=p->step(f,x); else if (auto* p=dynamic_cast<FactoredKrawczykSolver*>(sv.get())) r=p->step(f,x); else r=dynamic_cast<KrawczykSolver*>(sv.get())->step(f,x); }); PBT_CHECK(w!=1,"step","a step decided that there is no solution"); if (w==0) { bool nan=false; for (size_t i=0;i<y.n;++i) if (xof(r[i].lower_raw()).is_nan()||xof(r[i].upper_raw()).is_nan()||!xof(r[i].lower_raw()).finite()||!xof(r[i].upper_raw()).finite()) nan=true; if (!nan) for (auto& q:z) PBT_CHECK(has(r,q),"step","a step to " << show(r) << " loses the zero " << show(q)); bool in=!nan; for (size_t i=0;i<y.n&&in;++i) if (!(xof(r[i].lower_raw()).q>b[i].first&&xof(r[i].upper_raw()).q<b[i].second)) in=false; if (in) { c.label("contracts"); PBT_CHECK(z.size()==1,"step existence","a step maps the box into itself, but there are " << z.size() << " zeros"); } }
    w=attempt([&]{ r=sv->zero(f,bx); }); c.label("zero "+std::to_string(w)); if (w==0) { PBT_CHECK(z.size()==1,"zero","a zero is found in " << show(r) << " but the box contains " << z.size() << " zeros"); PBT_CHECK(has(r,z[0]),"zero","result " << show(r) << " does not contain the zero " << show(z[0])); } else if (w==1) PBT_CHECK(z.empty(),"zero no solution","no zero is found, but " << show(z[0]) << " is one");
    if (s.boolean()) { bool sim=y.n==1; for (size_t i=0;i<y.n;++i) { if (!y.u[i].simple()) sim=false; auto rr=y.u[i].roots(); for (size_t j=1;j<rr.size();++j) if (rr[j]-rr[j-1]<Q(1,2)) sim=false; for (auto& q:rr) if (abs(q-b[i].first)<Q(1,64)||abs(q-b[i].second)<Q(1,64)) sim=false; } double e2=y.n==1?1e-6:0.125; sv->set_maximum_error(e2); Vector<FloatDPBounds> t(y.n,dp); VF g=build(y,true); int v=attempt([&]{ t=sv->fixed_point(g,bx); }); c.label("fixed point "+std::to_string(v)); if (v==0) { bool h=false; for (auto& q:z) h=h||has(t,q); PBT_CHECK(h,"fixed_point","result " << show(t) << " contains no fixed point"); } else if (v==1&&!awk&&sim) PBT_CHECK(z.empty(),"fixed_point no solution","no fixed point is found, but " << show(z[0]) << " is one"); }
    sv->set_maximum_error(e);
    // a box close to a simple zero
    bool sm=true; std::vector<Q> q; for (auto& u:y.u) { if (!u.simple()||u.roots().size()!=1||u.f.size()!=1) sm=false; else q.push_back(u.roots()[0]); } for (auto& k:y.cpl) if (k!=0) sm=false; if (sm) { c.label("well conditioned"); QB t; for (auto& k:q) { mpz_class zz; Q tt=k*4096; mpz_fdiv_q(zz.get_mpz_t(),tt.get_num_mpz_t(),tt.get_den_mpz_t()); t.push_back({Q(zz)/4096-Q((long)(1+s.draw(8)),512),Q(zz)/4096+Q((long)(1+s.draw(8)),512)}); } Vector<FloatDPBounds> v(y.n,dp); int k=attempt([&]{ v=sv->zero(f,mk(t)); }); PBT_CHECK(k==0,"zero converges",k << ": no zero is found in " << show(t)); for (size_t i=0;i<y.n;++i) PBT_CHECK(xof(v[i].upper_raw()).q-xof(v[i].lower_raw()).q<=Q(4*e),"zero accuracy","result " << show(v) << " is wide"); PBT_CHECK(has(v,q),"zero","result " << show(v) << " does not contain " << show(q)); Vector<FloatDPBounds> ipt(y.n,[&](SizeType i){return FloatDPBounds(fl(t[i].first),fl(t[i].second));}); k=attempt([&]{ v=sv->solve(f,ipt); }); PBT_CHECK(k==0&&has(v,q),"solve from point",k << ": result " << show(v)); }
}
void t_solve(PSrc& s, PCase& c) { std::ostringstream lg; double e; unsigned st; auto sv=gen_solver(s,lg,e,st); if (e<1e-8) { e=1e-8; sv->set_maximum_error(e); } if (s.boolean()) { e=1e-3; sv->set_maximum_error(e); st=16; sv->set_maximum_number_of_steps(st); lg << " e=" << e << " n=" << st; } bool awk=s.chance(1,4); Sys y=gen_sys(s,lg,awk,2); if (y.n==3) { e=1e-2; sv->set_maximum_error(e); } VF f=build(y); QB b; for (size_t i=0;i<y.n;++i) { Q l=Q((long)s.range(-24,24))/8, w=Q(1+(long)s.draw(y.n==3?8:24))/8; auto r=y.u[i].roots(); if (r.size()>1&&s.chance(4,5)) { mpz_class zz; Q t=r[0]*8; mpz_fdiv_q(zz.get_mpz_t(),t.get_num_mpz_t(),t.get_den_mpz_t()); l=Q(zz)/8-Q((long)s.draw(4),8); w=r.back()-l+Q((long)s.draw(4)+1,8); t=w*8; mpz_cdiv_q(zz.get_mpz_t(),t.get_num_mpz_t(),t.get_den_mpz_t()); w=Q(zz)/8; } b.push_back({l,l+w}); } ExactBoxType bx=mk(b); auto z=zeros(y,b); bool simple=true, border=false; for (size_t i=0;i<y.n;++i) if (!y.u[i].simple()&&y.n>1) { e=0.125; sv->set_maximum_error(e); } for (size_t i=0;i<y.n;++i) { if (!y.u[i].simple()) simple=false; auto r=y.u[i].roots(); for (size_t j=1;j<r.size();++j) if (r[j]-r[j-1]<Q(64*e)) simple=false; for (auto& q:r) if (abs(q-b[i].first)<Q(64*e)||abs(q-b[i].second)<Q(64*e)) border=true; } NOTE(c,lg.str() << " in " << show(b) << " with " << z.size() << " zeros"); c.label("zeros "+std::to_string(std::min<size_t>(z.size(),4))); c.interesting(z.size()>1);
    Set<Vector<FloatDPBounds>> r; int w=attempt([&]{ r=sv->solve_all(f,bx); }); PBT_CHECK(w!=1,"solve_all","throws NoSolutionException"); c.label("solve_all "+std::to_string(w)); if (w==0) { std::set<std::vector<Q>> fd; for (auto& v:r) { size_t n=0; for (auto& q:z) if (has(v,q)) { ++n; fd.insert(q); } PBT_CHECK(n>=1,"solve_all","the result " << show(v) << " contains no zero in the box"); } PBT_CHECK(fd.size()>=r.size()||!simple,"solve_all count","there are " << r.size() << " results for " << fd.size() << " zeros"); if (simple&&!border&&!awk) { c.label("complete"); PBT_CHECK(r.size()==z.size(),"solve_all misses","there are " << r.size() << " results, but " << z.size() << " zeros"); } }
    Vector<FloatDPBounds> v(y.n,dp); w=attempt([&]{ v=sv->solve(f,bx); }); c.label("solve "+std::to_string(w)); if (w==0) { bool h=false; for (auto& q:z) h=h||has(v,q); PBT_CHECK(h,"solve","the result " << show(v) << " contains no zero"); if (simple&&!border&&!awk) PBT_CHECK(z.size()==1,"solve unique","the result " << show(v) << " is not the only zero"); } else if (w==1&&simple&&!border&&!awk) PBT_CHECK(z.empty(),"solve no solution","no solution is found, but " << show(z[0]) << " is one");
}
// x=h(a) solves A(q(x)-q(h(a)))=0 uniquely
void t_implicit(PSrc& s, PCase& c) { std::ostringstream lg; double e=s.pick<double>({1e-6,1e-3,1e-10}); unsigned st=s.pick<unsigned>({12,6,20}); bool nw=s.boolean(); std::unique_ptr<SolverBase> sv; if (nw) sv=std::make_unique<IntervalNewtonSolver>(e,st); else sv=std::make_unique<KrawczykSolver>(e,st); lg << (nw?"Newton ":"Krawczyk ") << e << " " << st; size_t m=s.chance(1,8)?0:1+s.draw(2), n=1+s.draw(2); if (m==0) m=1; QB A,B; std::vector<std::vector<Q>> hc(n); std::vector<Q> k; 
    for (size_t j=0;j<m;++j) { Q l=Q((long)s.range(-8,8))/8; A.push_back({l,l+Q(1+(long)s.draw(4))/8}); } for (size_t i=0;i<n;++i) { hc[i]={Q((long)s.range(-8,8))/8}; for (size_t j=0;j<m;++j) hc[i].push_back(Q((long)s.range(-4,4))/16); hc[i].push_back(Q((long)s.range(-2,2))/16); k.push_back(s.pick<Q>({Q(0),Q(1,8),Q(1,3)})); }
    std::vector<std::vector<Q>> M(n,std::vector<Q>(n,Q(0))); for (size_t i=0;i<n;++i) { M[i][i]=s.pick<Q>({Q(1),Q(2),Q(-1)}); for (size_t j=0;j<i;++j) M[i][j]=Q((long)s.range(-2,2))/4; }
    auto hv=[&](std::vector<Q> const& a, size_t i){ Q v=hc[i][0]; for (size_t j=0;j<m;++j) v+=hc[i][1+j]*a[j]; v+=hc[i][m+1]*a[0]*a[m-1]; return v; }; std::vector<Q> mid; for (auto& a:A) mid.push_back((a.first+a.second)/2); bool in=true; for (size_t i=0;i<n;++i) { Q h=hv(mid,i); mpz_class z; Q t=h*64; mpz_fdiv_q(z.get_mpz_t(),t.get_num_mpz_t(),t.get_den_mpz_t()); Q bs=Q(z)/64; if (s.chance(1,10)) bs+=s.pick<Q>({Q(1),Q(-1)}); B.push_back({bs-Q((long)(2+s.draw(8)))/8,bs+Q((long)(2+s.draw(8)))/8}); }
    auto num=[&](Q const& q){ return EffectiveNumber(to_rational(q)); }; std::vector<SF> p; for (size_t i=0;i<n;++i) { SF x=SF::coordinate(m+n,m+i), h=SF::zero(m+n)+num(hc[i][0]); for (size_t j=0;j<m;++j) h=h+num(hc[i][1+j])*SF::coordinate(m+n,j); h=h+num(hc[i][m+1])*SF::coordinate(m+n,0)*SF::coordinate(m+n,m-1); SF q=x-h; if (k[i]!=0) q=q+num(k[i])*(x*x*x-h*h*h); p.push_back(q); } List<SF> l; for (size_t i=0;i<n;++i) { SF t=SF::zero(m+n); for (size_t j=0;j<n;++j) if (M[i][j]!=0) t=t+num(M[i][j])*p[j]; l.append(t); } VF f(l);
    lg << " A=" << show(A) << " X=" << show(B) << " f=" << f; NOTE(c,lg.str()); c.interesting(n>1); ExactBoxType ab=mk(A), xb=mk(B); std::vector<std::vector<Q>> pts{mid}; for (int t=0;t<6;++t) { std::vector<Q> a; for (auto& d:A) a.push_back(d.first+(d.second-d.first)*Q((long)s.draw(9))/8); pts.push_back(a); } for (auto& a:pts) for (size_t i=0;i<n;++i) { Q h=hv(a,i); if (h<=B[i].first||h>=B[i].second) in=false; }
    auto chk=[&](std::string const& key, auto const& r, size_t i){ auto d=r.domain(); for (size_t j=0;j<m;++j) PBT_CHECK(xof(d[j].lower_bound()).q==A[j].first&&xof(d[j].upper_bound()).q==A[j].second,key+" domain","wrong domain"); for (auto& a:pts) { Vector<FloatDPBounds> av(m,[&](SizeType j){return FloatDPBounds(to_rational(a[j]),dp);}); FloatDPBounds v=r(av); Q h=hv(a,i); X lo=xof(v.lower_raw()), up=xof(v.upper_raw()); PBT_CHECK(!lo.is_nan()&&!up.is_nan()&&!surely_less(Iv(h),lo)&&!surely_greater(Iv(h),up),key,"component " << i << " at " << show(a) << " is [" << oracle::show(lo) << ":" << oracle::show(up) << "] without " << h); } };
    auto tr=[&](auto fn){ try { fn(); return 0; } catch (SolverException const&) { return 1; } catch (SingularMatrixException const&) { return 2; } catch (DivideByZeroException const&) { return 2; } };
    ValidatedVectorMultivariateFunctionPatch r; int w=tr([&]{ r=sv->implicit(f,ab,xb); }); c.label("implicit "+std::to_string(w)); if (w==0) { PBT_CHECK(r.size()==n,"implicit size","wrong size"); for (size_t i=0;i<n;++i) { ValidatedScalarMultivariateFunctionPatch ri=r[i]; chk("implicit",ri,i); } } if (in) c.label("solution exists"); if (in&&w==0) c.label("found");
    if (n==1) { ValidatedScalarMultivariateFunctionPatch q; int v=tr([&]{ q=sv->implicit(f[0],ab,xb[0]); }); PBT_CHECK(v==w,"implicit scalar","scalar and vector solvers behave differently"); if (v==0) chk("implicit scalar",q,0); }
    // a good starting box
    bool easy=true; for (auto& x:k) if (x!=0) easy=false; if (easy&&in) { PBT_CHECK(w==0,"implicit converges","the solution of a linear equation is not found"); for (size_t i=0;i<n;++i) { ValidatedScalarMultivariateFunctionPatch ri=r[i]; Vector<FloatDPBounds> av(m,[&](SizeType j){return FloatDPBounds(to_rational(mid[j]),dp);}); FloatDPBounds v=ri(av); PBT_CHECK(xof(v.upper_raw()).q-xof(v.lower_raw()).q<=Q(4*e),"implicit accuracy","component " << i << " is wide"); } }
}
struct Init { Init() { pbt::set_rule("the system has several variables or several zeros"); pbt::set_reset(reset_modes); pbt::add_assumption("no solution being found is not checked for multiple zeros and zeros on the boundary of a box into which the search splits"); } } init_;
pbt::Register r1("zero",4000,80000,t_zero,60), r2("solve",1500,30000,t_solve,120), r3("implicit",600,12000,t_implicit,120);
}
