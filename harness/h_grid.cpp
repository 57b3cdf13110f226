// C23: grids, grid cells and grid pavings represent exactly the unions of dyadic lattice cells they describe.
#include "fun_ast.hpp"
#include "geometry/interval.hpp"
#include "geometry/box.hpp"
#include "geometry/point.hpp"
#include "geometry/set.hpp"
#include "geometry/grid.hpp"
#include "geometry/grid_paving.hpp"
#include "geometry/list_set.hpp"
#include "geometry/binary_tree.hpp"
#include "function/projection.hpp"
namespace {
typedef std::vector<bool> W;
struct LI { Q l,u; };
typedef std::vector<LI> LB;                       // box in lattice coordinates
void prim(int e, long& l, long& r) { l=0; r=1; for (int i=1;i<=e;++i) { if (i%2) l=2*l-r; else r=2*r-l; } }
LB lat(size_t d, int e, W const& w) { long l,r; prim(e,l,r); LB b(d,LI{Q(l),Q(r)}); for (size_t i=0;i<w.size();++i) { LI& x=b[i%d]; Q m=(x.l+x.u)/2; if (w[i]) x.l=m; else x.u=m; } return b; }
BinaryWord bw(W const& w) { BinaryWord r; for (bool b:w) r.push_back(b); return r; }
W wb(BinaryWord const& w) { W r; for (size_t i=0;i<w.size();++i) r.push_back(w[i]); return r; }
std::string show(W const& w) { std::string s; for (bool b:w) s+=b?'1':'0'; return s.empty()?"e":s; }
struct Gr { std::vector<Q> o,l; size_t d() const { return o.size(); } };
std::string show(Gr const& g) { std::ostringstream s; s << "grid("; for (size_t i=0;i<g.d();++i) s << (i?";":"") << g.o[i] << "," << g.l[i]; s << ")"; return s.str(); }
FloatDP fl(Q const& q) { return FT<FloatDP>::of(q,dp); }
Vector<FloatDP> fv(std::vector<Q> const& v) { return Vector<FloatDP>(v.size(),[&](SizeType i){return fl(v[i]);}); }
Grid mk(Gr const& g) { return Grid(fv(g.o),fv(g.l)); }
Gr gen_grid(PSrc& s, size_t d) { Gr g; bool triv=s.chance(2,3)?false:true; for (size_t i=0;i<d;++i) { g.o.push_back(triv?Q(0):Q((long)s.range(-12,12))/4); g.l.push_back(triv?Q(1):s.pick<Q>({Q(1),Q(1,2),Q(2),Q(3,4),Q(5,8),Q(3)})); } return g; }
ExactBoxType sbox(Gr const& g, LB const& b) { return ExactBoxType(g.d(),[&](SizeType i){return FloatDPExactInterval(fl(g.o[i]+g.l[i]*b[i].l),fl(g.o[i]+g.l[i]*b[i].u));}); }
LB back(Gr const& g, ExactBoxType const& x) { LB b; for (size_t i=0;i<g.d();++i) b.push_back(LI{(xof(x[i].lower_bound()).q-g.o[i])/g.l[i],(xof(x[i].upper_bound()).q-g.o[i])/g.l[i]}); return b; }
bool same(LB const& a, LB const& b) { for (size_t i=0;i<a.size();++i) if (a[i].l!=b[i].l||a[i].u!=b[i].u) return false; return a.size()==b.size(); }
std::string show(LB const& b) { std::ostringstream s; for (size_t i=0;i<b.size();++i) s << (i?"x":"") << "[" << b[i].l << ":" << b[i].u << "]"; return s.str(); }
struct Lat { size_t d; int K,E; long L,R,n; size_t total;
    Lat(size_t d_, int K_, int E_) : d(d_),K(K_),E(E_) { prim(E,L,R); n=(R-L)<<K; total=1; for (size_t i=0;i<d;++i) total*=(size_t)n; } };
typedef std::vector<char> M;
Lat lattice(size_t d, PSrc& s) { switch (d) { case 1: return Lat(1,3,4); case 2: return s.chance(1,4)?Lat(2,1,4):Lat(2,2,3); default: return Lat(3,1,2); } }
// indices of the fine cells in a lattice box with corners on the fine lattice
template<class Fn> void each(Lat const& la, LB const& b, Fn f) { size_t d=la.d; std::vector<long> lo(d),hi(d),x; for (size_t i=0;i<d;++i) { Q l=(b[i].l-la.L)*(1<<la.K), u=(b[i].u-la.L)*(1<<la.K); if (l.get_den()!=1||u.get_den()!=1) throw std::runtime_error("finer than the model"); lo[i]=std::max(0L,l.get_num().get_si()); hi[i]=std::min(la.n,u.get_num().get_si()); if (lo[i]>=hi[i]) return; }
    x=lo; while (true) { size_t k=0; for (size_t i=d;i-->0;) k=k*(size_t)la.n+(size_t)x[i]; f(k); size_t i=0; while (i<d&&++x[i]==hi[i]) { x[i]=lo[i]; ++i; } if (i==d) return; } }
LB fine(Lat const& la, size_t k) { LB b; for (size_t i=0;i<la.d;++i) { long x=(long)(k%(size_t)la.n); k/=(size_t)la.n; b.push_back(LI{Q(x)/(1<<la.K)+la.L,Q(x+1)/(1<<la.K)+la.L}); } return b; }
struct C { int e; W w; };
std::string show(C const& c) { return std::to_string(c.e)+":"+show(c.w); }
C gen_cell(Lat const& la, PSrc& s) { C c; c.e=(int)s.draw((uint64_t)la.E+1); size_t mx=(size_t)(c.e+la.K)*la.d, mn=0; if (s.chance(2,3)) mn=(size_t)c.e*la.d; size_t n=mn+s.draw(mx-mn+1); for (size_t i=0;i<n;++i) c.w.push_back(s.boolean()); return c; }
GridCell mk(Grid const& g, C const& c) { return GridCell(g,(Nat)c.e,bw(c.w)); }
void set(Lat const& la, M& m, C const& c, bool v) { each(la,lat(la.d,c.e,c.w),[&](size_t k){m[k]=v;}); }
// the set a paving denotes
M get(Lat const& la, Gr const& g, GridTreeSubpaving const& p, std::string const& k, size_t* cnt=nullptr) { M m(la.total,0); size_t n=0; for (auto const& c : p) { ++n; W w=wb(c.word()); LB b=lat(la.d,(int)c.root_extent(),w); PBT_CHECK(same(b,back(g,c.box())),k+" cell box",k << ": cell " << c.root_extent() << ":" << show(w) << " has box " << show(back(g,c.box())) << " instead of " << show(b)); bool out=false; for (auto& x:b) if (x.l<la.L||x.u>la.R) out=true; PBT_CHECK(!out,k+" outside",k << ": cell " << show(b) << " is outside the expected region"); try { each(la,b,[&](size_t i){PBT_CHECK(!m[i],k+" overlapping cells",k << ": cells of the paving overlap in " << show(fine(la,i))); m[i]=1;}); } catch (std::runtime_error const&) { PBT_FAIL(k+" too fine",k << ": cell " << show(b) << " is finer than any cell of its operands"); } PBT_CHECK(n<=la.total,k+" count","too many cells"); } if (cnt) *cnt=n; return m; }
void cmp(Lat const& la, M const& a, M const& want, std::string const& k) { for (size_t i=0;i<la.total;++i) if (a[i]!=want[i]) PBT_FAIL(k,k << ": the cell " << show(fine(la,i)) << " is " << (a[i]?"":"not ") << "in the result"); }
size_t count(M const& m) { size_t n=0; for (char c:m) n+=(size_t)c; return n; }
bool any(Lat const& la, M const& m, LB const& b) { bool r=false; each(la,b,[&](size_t i){ if (m[i]) r=true; }); return r; }
bool all(Lat const& la, M const& m, LB const& b) { bool r=true; each(la,b,[&](size_t i){ if (!m[i]) r=false; }); return r; }
// number of cells in the coarsest representation below the given cell
size_t coarsest(Lat const& la, M const& m, C const& c) { LB b=lat(la.d,c.e,c.w); bool a=any(la,m,b); if (!a) return 0; if (all(la,m,b)) return 1; C l=c,r=c; l.w.push_back(false); r.w.push_back(true); return coarsest(la,m,l)+coarsest(la,m,r); }
Q volume(Gr const& g, LB const& b) { Q v=1; for (size_t i=0;i<b.size();++i) v*=(b[i].u-b[i].l)*g.l[i]; return v; }
Q volume(Lat const& la, Gr const& g, M const& m) { Q v=1; for (size_t i=0;i<la.d;++i) v*=g.l[i]/(1<<la.K); return v*(long)count(m); }
bool hull(Lat const& la, M const& m, LB& h) { bool f=false; for (size_t i=0;i<la.total;++i) if (m[i]) { LB b=fine(la,i); if (!f) { h=b; f=true; } else for (size_t j=0;j<la.d;++j) { h[j].l=qmin(h[j].l,b[j].l); h[j].u=qmax(h[j].u,b[j].u); } } return f; }
void properties(Lat const& la, Gr const& g, GridTreeSubpaving const& p, M const& m, std::string const& k, bool exactm=true) {
    size_t n=0; cmp(la,get(la,g,p,k,&n),m,k); PBT_CHECK(p.size()==n,k+" size",k << ": size is " << p.size() << " but there are " << n << " cells"); PBT_CHECK(p.is_empty()==(count(m)==0),k+" is_empty",k << ": is_empty is " << p.is_empty()); PBT_CHECK(p.dimension()==la.d,k+" dimension","wrong dimension"); PBT_CHECK(p.grid()==mk(g),k+" grid","wrong grid");
    if (exactm) { Q v=xof(p.measure().raw()).q; PBT_CHECK(v==volume(la,g,m),k+" measure",k << ": measure is " << v << " instead of " << volume(la,g,m)); }
    LB h; if (hull(la,m,h)) { UpperBoxType bb=p.bounding_box(); LB x; for (size_t i=0;i<la.d;++i) x.push_back(LI{(xof(bb[i].lower_bound().raw()).q-g.o[i])/g.l[i],(xof(bb[i].upper_bound().raw()).q-g.o[i])/g.l[i]}); PBT_CHECK(same(x,h),k+" bounding_box",k << ": bounding box is " << show(x) << " instead of " << show(h)); }
    else { UpperBoxType bb=p.bounding_box(); PBT_CHECK(bb.dimension()==la.d,k+" bounding_box","wrong dimension"); }
    GridCell rc=p.root_cell(); LB r=lat(la.d,(int)rc.root_extent(),wb(rc.word())); Nat td=p.tree_depth(); size_t mxd=0; for (auto const& c : p) { LB b=lat(la.d,(int)c.root_extent(),wb(c.word())); for (size_t i=0;i<la.d;++i) PBT_CHECK(b[i].l>=r[i].l&&b[i].u<=r[i].u,k+" root_cell",k << ": a cell is outside the root cell"); PBT_CHECK(c.root_extent()==rc.root_extent()&&c.word().size()>=rc.word().size(),k+" root_cell","cell has another root"); mxd=std::max(mxd,c.word().size()-rc.word().size()); } PBT_CHECK(mxd<=td,k+" tree_depth",k << ": depth of the tree is " << td << " but there is a cell at depth " << mxd);
    ListSet<ExactBoxType> ls=p; PBT_CHECK(ls.size()==n,k+" boxes",k << ": number of boxes is " << ls.size()); size_t i=0; for (auto const& c : p) { PBT_CHECK(same(back(g,ls[i]),lat(la.d,(int)c.root_extent(),wb(c.word()))),k+" boxes",k << ": box " << i << " is not the cell"); ++i; }
}
// a paving built in a simple way
GridTreePaving gen_paving(Lat const& la, Gr const& g, PSrc& s, std::ostream& lg, M& m, int most=5) { m.assign(la.total,0); Grid gr=mk(g); GridTreePaving p(gr); int n=(int)s.draw((uint64_t)most+1); lg << "{"; for (int i=0;i<n;++i) { C c=gen_cell(la,s); bool rem=i>0&&s.chance(1,5); lg << (rem?" -":" ") << show(c); if (rem) p.remove(mk(gr,c)); else p.adjoin(mk(gr,c)); set(la,m,c,!rem); }
    switch (s.draw(4)) { case 1: { Nat k=(Nat)s.draw((uint64_t)la.K+1); lg << " mince" << k; p.mince(k); break; } case 2: lg << " rec"; p.recombine(); break; default: break; } lg << " }"; return p; }
// the grid and its cells
void t_cell(PSrc& s, PCase& c) { size_t d=1+s.draw(3); Gr g=gen_grid(s,d); Grid gr=mk(g); Lat la=lattice(d,s); C x=gen_cell(la,s), y=s.chance(1,3)?x:gen_cell(la,s); if (s.chance(1,4)) { y=x; if (s.boolean()&&!y.w.empty()) y.w.pop_back(); else y.w.push_back(s.boolean()); } NOTE(c,show(g) << " cells " << show(x) << " " << show(y)); c.interesting(!x.w.empty()&&g.l[0]!=1); c.label("dimension "+std::to_string(d));
    { PBT_CHECK(gr.dimension()==d,"grid dimension","wrong dimension"); for (size_t i=0;i<d;++i) PBT_CHECK(xof(gr.origin()[i]).q==g.o[i]&&xof(gr.lengths()[i]).q==g.l[i],"grid data","grid stores other data"); Grid g2=mk(g); PBT_CHECK(gr==g2&&!(gr!=g2),"grid ==","equal grids differ"); Gr h=g; size_t i=s.draw(d); if (s.boolean()) h.o[i]+=Q(1,4); else h.l[i]*=2; Grid g3=mk(h); PBT_CHECK(!(gr==g3)&&gr!=g3,"grid ==","different grids are equal"); Grid j=join(gr,g3); PBT_CHECK(j.dimension()==2*d,"grid join","wrong dimension"); for (size_t k=0;k<d;++k) PBT_CHECK(xof(j.origin()[k]).q==g.o[k]&&xof(j.lengths()[k]).q==g.l[k]&&xof(j.origin()[d+k]).q==h.o[k]&&xof(j.lengths()[d+k]).q==h.l[k],"grid join","wrong data"); g3=gr; PBT_CHECK(g3==gr,"grid assignment","assigned grid differs");
      Grid t(d); PBT_CHECK(t.dimension()==d&&xof(t.origin()[0]).q==0&&xof(t.lengths()[d-1]).q==1,"trivial grid","wrong data"); Grid u(d,fl(g.l[0])); PBT_CHECK(xof(u.origin()[d-1]).q==0&&xof(u.lengths()[d-1]).q==g.l[0],"uniform grid","wrong data"); Grid v(fv(g.l)); PBT_CHECK(xof(v.origin()[d-1]).q==0&&xof(v.lengths()[d-1]).q==g.l[d-1],"grid of lengths","wrong data"); }
    { size_t i=s.draw(d); Int n=(Int)s.range(-9,9); Q q=Q((long)s.range(-64,64))/8; double qd=q.get_d(); PBT_CHECK(xof(gr.subdivision_coordinate(i,n)).q==g.o[i]+g.l[i]*n,"subdivision_coordinate","wrong coordinate"); PBT_CHECK(xof(gr.subdivision_coordinate(i,qd)).q==g.o[i]+g.l[i]*q&&xof(gr.coordinate(i,qd)).q==g.o[i]+g.l[i]*q,"coordinate","wrong coordinate"); FloatDP z=fl(g.o[i]+g.l[i]*n); PBT_CHECK(gr.subdivision_index(i,z)==n,"subdivision_index","index of " << xof(z).q << " is " << gr.subdivision_index(i,z) << " instead of " << n);
      FloatDP v=fl(g.o[i]+g.l[i]*q); Int lo=gr.subdivision_lower_index(i,LowerBound<FloatDP>(v)), up=gr.subdivision_upper_index(i,UpperBound<FloatDP>(v)); mpz_class fq,cq; mpz_fdiv_q(fq.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); mpz_cdiv_q(cq.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); PBT_CHECK(fq==lo,"subdivision_lower_index","lower index of " << q << " is " << lo); PBT_CHECK(cq==up,"subdivision_upper_index","upper index of " << q << " is " << up); if (q.get_den()!=1) { bool th=false; try { gr.subdivision_index(i,v); } catch (...) { th=true; } PBT_CHECK(th,"subdivision_index","index of the position " << q << " is defined"); } }
    { Array<Int> a(d); Array<double> da(d), db(d); std::vector<Q> pt; LB b; for (size_t i=0;i<d;++i) { a[i]=(Int)s.range(-5,5); Q p=Q((long)s.range(-20,20))/4, w=Q((long)s.draw(12))/4; da[i]=p.get_d(); db[i]=Q(p+w).get_d(); b.push_back(LI{p,p+w}); pt.push_back(g.o[i]+g.l[i]*a[i]); } auto p=gr.point(a); auto p2=gr.point(da); for (size_t i=0;i<d;++i) PBT_CHECK(xof(p[i]).q==pt[i]&&xof(p2[i]).q==g.o[i]+g.l[i]*b[i].l,"grid point","wrong point"); auto ix=gr.index(p); for (size_t i=0;i<d;++i) PBT_CHECK(ix[i]==a[i],"grid index","wrong index"); auto bx=gr.box(da,db); PBT_CHECK(same(back(g,bx),b),"grid box","box is " << show(back(g,bx)) << " instead of " << show(b)); auto li=gr.lower_index(bx), ui=gr.upper_index(bx); for (size_t i=0;i<d;++i) PBT_CHECK(li[i]==std::floor(da[i])&&ui[i]==std::ceil(db[i]),"grid indices of box","indices are " << li[i] << "," << ui[i] << " for " << da[i] << "," << db[i]); }
    GridCell a=mk(gr,x), b=mk(gr,y); LB lx=lat(d,x.e,x.w), ly=lat(d,y.e,y.w); auto is=[&](std::string const& k, GridCell const& r, LB const& w){ LB v=back(g,r.box()), u=lat(d,(int)r.root_extent(),wb(r.word())); PBT_CHECK(same(v,w)&&same(u,w),k,k << " is " << r.root_extent() << ":" << show(wb(r.word())) << " with box " << show(v) << " instead of " << show(w)); PBT_CHECK(r.grid()==gr,k,"the grid changed"); };
    is("cell",a,lx); PBT_CHECK(a.dimension()==d&&a.root_extent()==(Nat)x.e&&wb(a.word())==x.w&&a.depth()==(int)x.w.size()-x.e*(int)d&&a.root_height()==(Nat)x.e*d,"cell data","wrong data"); for (size_t i=0;i<d;++i) PBT_CHECK(xof(a[(dimension_type)i].lower_bound()).q==g.o[i]+g.l[i]*lx[i].l,"cell side","wrong side");
    { auto pb=GridCell::primary_cell_lattice_box((Nat)x.e,(dimension_type)d); LB pl=lat(d,x.e,{}); for (size_t i=0;i<d;++i) PBT_CHECK(xof(pb[i].lower_bound()).q==pl[i].l&&xof(pb[i].upper_bound()).q==pl[i].u,"primary cell","wrong primary cell"); auto lb=GridCell::compute_lattice_box((DimensionType)d,(Nat)x.e,bw(x.w)); for (size_t i=0;i<d;++i) PBT_CHECK(xof(lb[i].lower_bound()).q==lx[i].l&&xof(lb[i].upper_bound()).q==lx[i].u,"lattice box","wrong lattice box"); PBT_CHECK(same(back(g,GridCell::compute_box(gr,(Nat)x.e,bw(x.w))),lx),"compute_box","wrong box"); int e2=x.e+(int)s.draw(3); W pw=wb(GridCell::primary_cell_path((DimensionType)d,(Nat)e2,(Nat)x.e)); PBT_CHECK(pw.size()==(size_t)(e2-x.e)*d&&same(lat(d,e2,pw),pl),"primary_cell_path","path is " << show(pw)); }
    { W l=x.w,r=x.w; l.push_back(false); r.push_back(true); is("split",a.split(false),lat(d,x.e,l)); is("split",a.split(true),lat(d,x.e,r)); auto pr=a.split(); is("split pair",pr.first,lat(d,x.e,l)); is("split pair",pr.second,lat(d,x.e,r)); }
    { bool eq=same(lx,ly); PBT_CHECK((a==b)==eq,"cell ==","== gives " << (a==b) << " for " << show(x) << " and " << show(y)); PBT_CHECK(!(a<a)&&!(b<b)&&!((a<b)&&(b<a))&&(eq?!(a<b)&&!(b<a):(a<b)||(b<a)),"cell <","not a strict order"); C z=gen_cell(la,s); GridCell e=mk(gr,z); PBT_CHECK(!((a<b)&&(b<e))||(a<e),"cell < transitive","not transitive"); GridCell k(a); PBT_CHECK(k==a,"cell copy","copy differs"); k=b; PBT_CHECK(k==b,"cell assignment","copy differs"); is("cell assignment",k,ly); }
    if (!x.w.empty()||true) { size_t i=s.draw(d); LB n=lx; Q w=n[i].u-n[i].l; n[i].l+=w; n[i].u+=w; if (x.w.size()>=d) { c.label("neighbour"); is("neighbouringCell",GridCell::neighboringCell(gr,(Nat)x.e,bw(x.w),(DimensionType)i),n); } }
    // smallest primary cell around a box
    { LB b; for (size_t i=0;i<d;++i) { Q p=Q((long)s.range(-20,20))/4, w=Q((long)s.draw(16))/4; b.push_back(LI{p,p+w}); } ExactBoxType bx=sbox(g,b); GridCell pc=GridCell::smallest_enclosing_primary_cell(bx,gr); int e=(int)pc.root_extent(); PBT_CHECK(pc.word().size()==0,"smallest_enclosing_primary_cell","not a primary cell"); auto sub=[&](int e, bool strict){ long l,r; prim(e,l,r); for (auto& i:b) if (strict?(i.l<=l||i.u>=r):(i.l<l||i.u>r)) return false; return true; }; PBT_CHECK(sub(e,false),"smallest_enclosing_primary_cell","extent " << e << " does not enclose " << show(b)); PBT_CHECK(e==0||!sub(e-1,true),"smallest_enclosing_primary_cell small","extent " << e << " is not the smallest for " << show(b)); GridTreePaving p(gr); PBT_CHECK(p.smallest_enclosing_primary_cell(bx)==pc,"smallest_enclosing_primary_cell of paving","differs from the one of the cell"); PBT_CHECK(GridCell::smallest_enclosing_primary_cell_extent(UpperBoxType(bx),gr)==(Nat)e,"smallest_enclosing_primary_cell_extent","differs"); }
}
// open cells
void t_open(PSrc& s, PCase& c) { size_t d=1+s.draw(3); Gr g=gen_grid(s,d); Grid gr=mk(g); Lat la=lattice(d,s); auto gen=[&]{ C x=gen_cell(la,s); while (x.w.size()<d) x.w.push_back(s.boolean()); return x; }; C x=gen(), y=gen(); if (s.boolean()) { y=x; for (size_t i=0;i<d;++i) { y.w.pop_back(); } size_t n=s.draw(d+d+1); for (size_t i=0;i<n;++i) y.w.push_back(s.boolean()); while (y.w.size()<d) y.w.push_back(s.boolean()); } NOTE(c,show(g) << " cells " << show(x) << " " << show(y)); c.label("dimension "+std::to_string(d));
    auto ob=[&](int e, W const& w){ LB b=lat(d,e,w); for (auto& i:b) i.u+=i.u-i.l; return b; }; LB ox=ob(x.e,x.w), oy=ob(y.e,y.w); GridOpenCell a(gr,(Nat)x.e,bw(x.w)), b(gr,(Nat)y.e,bw(y.w)); auto is=[&](std::string const& k, GridOpenCell const& r, LB const& w){ LB v=back(g,r.box()), u=ob((int)r.root_extent(),wb(r.word())); PBT_CHECK(same(v,w)&&same(u,w),k,k << " is " << r.root_extent() << ":" << show(wb(r.word())) << " with box " << show(v) << " instead of " << show(w)); };
    is("open cell",a,ox); is("open cell",b,oy); PBT_CHECK((a==b)==same(ox,oy),"open cell ==","wrong"); 
    { C z{x.e,W(x.w.begin(),x.w.end()-(long)d)}; is("interior",mk(gr,z).interior(),lat(d,z.e,z.w)); }
    { size_t i=x.w.size()%d; Q h=(ox[i].u-ox[i].l)/4; for (int k=0;k<3;++k) { LB w=ox; w[i].l+=h*k; w[i].u=w[i].l+2*h; is("open split",a.split(k==0?TernaryChild::LEFT:k==1?TernaryChild::MIDDLE:TernaryChild::RIGHT),w); } }
    auto ov=[](LB const& a, LB const& b){ for (size_t i=0;i<a.size();++i) if (!(a[i].l<b[i].u&&b[i].l<a[i].u)) return false; return true; }; bool meet=ov(ox,oy); c.interesting(meet&&!same(ox,oy)); PBT_CHECK(GridOpenCell::intersect(a,b)==meet,"open intersect","intersect is wrong");
    auto vol=[&](LB const& b){ Q v=1; for (auto& i:b) v*=i.u-i.l; return v; };
    { GridTreePaving cl=a.closure(); Q v=0; std::vector<LB> bs; for (auto const& k : cl) { LB b=lat(d,(int)k.root_extent(),wb(k.word())); PBT_CHECK(same(b,back(g,k.box())),"closure","cell has another box"); for (size_t i=0;i<d;++i) PBT_CHECK(b[i].l>=ox[i].l&&b[i].u<=ox[i].u,"closure","cell " << show(b) << " is not in the open cell " << show(ox)); for (auto& o:bs) PBT_CHECK(!ov(o,b),"closure","cells overlap"); bs.push_back(b); v+=vol(b); } PBT_CHECK(v==vol(ox),"closure","closure has measure " << v << " instead of " << vol(ox)); }
    { auto r=GridOpenCell::intersection(a,b); std::vector<LB> bs; for (auto const& o : r) { LB w=ob((int)o.root_extent(),wb(o.word())); PBT_CHECK(same(w,back(g,o.box())),"open intersection","open cell has another box"); bs.push_back(w); } if (!meet) PBT_CHECK(bs.empty(),"open intersection","intersection of disjoint open cells is not empty"); else { LB in=ox; for (size_t i=0;i<d;++i) { in[i].l=qmax(ox[i].l,oy[i].l); in[i].u=qmin(ox[i].u,oy[i].u); } for (auto& w:bs) for (size_t i=0;i<d;++i) PBT_CHECK(w[i].l>=in[i].l&&w[i].u<=in[i].u,"open intersection","open cell " << show(w) << " is not in the intersection " << show(in));
          // every point of the intersection lies in some open cell: try all points of the half lattice
          std::vector<Q> st; size_t tot=1; std::vector<size_t> n; for (size_t i=0;i<d;++i) { Q w=qmin(ox[i].u-ox[i].l,oy[i].u-oy[i].l)/4; st.push_back(w); Q k=(in[i].u-in[i].l)/w; n.push_back((size_t)k.get_num().get_ui()-1); tot*=n.back(); } if (tot<=4096) for (size_t k=0;k<tot;++k) { size_t t=k; std::vector<Q> p; for (size_t i=0;i<d;++i) { p.push_back(in[i].l+st[i]*(long)(1+t%n[i])); t/=n[i]; } bool f=false; for (auto& w:bs) { bool q=true; for (size_t i=0;i<d;++i) if (!(w[i].l<p[i]&&p[i]<w[i].u)) q=false; if (q) f=true; } std::ostringstream os; for (auto& z:p) os << z << " "; PBT_CHECK(f,"open intersection covers","the point " << os.str() << "of the intersection " << show(in) << " is in no open cell"); } } }
    { LB b; for (size_t i=0;i<d;++i) { Q p=Q((long)s.range(-40,40))/8, w=Q((long)s.draw(16))/(1<<s.draw(6)); if (w==0) w=Q(1,8); b.push_back(LI{p,p+w}); } GridOpenCell o=GridOpenCell::outer_approximation(sbox(g,b),gr); LB w=ob((int)o.root_extent(),wb(o.word())); PBT_CHECK(same(w,back(g,o.box()))||o.word().size()==d,"open outer_approximation","box does not match"); LB v=back(g,o.box()); for (size_t i=0;i<d;++i) PBT_CHECK(v[i].l<b[i].l&&b[i].u<v[i].u,"open outer_approximation","open cell " << show(v) << " does not contain " << show(b)); }
}
// histories of modifying operations
void t_history(PSrc& s, PCase& c) { size_t d=1+s.draw(3); Gr g=gen_grid(s,d); Grid gr=mk(g); Lat la=lattice(d,s); std::ostringstream lg; lg << show(g); M m(la.total,0); bool en=s.chance(1,6); GridTreePaving p(gr,en); if (en) set(la,m,C{0,{}},true); std::string how="construction"; 
    switch (s.draw(5)) { case 1: { C x=gen_cell(la,s); p=GridTreePaving(mk(gr,x)); lg << " cell " << show(x); m.assign(la.total,0); set(la,m,x,true); break; }
        case 2: { C x; x.e=(int)s.draw((uint64_t)la.E+1); lg << " tree " << x.e << ":"; std::vector<bool> tr,enb; size_t mx=(size_t)(x.e+la.K)*d; m.assign(la.total,0); std::function<void()> rec=[&]{ bool sp=x.w.size()<mx&&s.chance(1,2)&&tr.size()<200; tr.push_back(sp); lg << (sp?"(":""); if (sp) { for (bool b:{false,true}) { x.w.push_back(b); rec(); x.w.pop_back(); } lg << ")"; } else { bool e=s.boolean(); enb.push_back(e); lg << e; if (e) set(la,m,x,true); } }; rec(); BooleanArray ta(tr.size()), ea(enb.size()); for (size_t i=0;i<tr.size();++i) ta[i]=tr[i]; for (size_t i=0;i<enb.size();++i) ea[i]=enb[i]; p=GridTreePaving(gr,(Nat)x.e,ta,ea); break; }
        case 3: { bool triv=true; for (size_t i=0;i<d;++i) if (g.o[i]!=0||g.l[i]!=1) triv=false; if (triv) { bool e=s.boolean(); p=GridTreePaving((Nat)d,e); m.assign(la.total,0); if (e) set(la,m,C{0,{}},true); lg << " dimension"; } break; }
        case 4: { int e=(int)s.draw((uint64_t)la.E); long l,r; prim(e,l,r); p=GridTreePaving(gr,ExactBoxType(d,[&](SizeType){return FloatDPExactInterval(fl(Q(l)+Q(1,4)),fl(Q(r)-Q(1,4)));})); PBT_CHECK(p.root_cell().root_extent()==(Nat)e,"paving on a lattice box","root has extent " << p.root_cell().root_extent() << " instead of " << e); m.assign(la.total,0); lg << " lattice box " << e; break; } default: break; }
    properties(la,g,p,m,how); int n=1+(int)s.draw(8); size_t ops=0; for (int i=0;i<n;++i) { lg << ";"; switch (s.draw(14)) {
        case 0: { C x=gen_cell(la,s); lg << " adjoin " << show(x); how="adjoin cell"; p.adjoin(mk(gr,x)); set(la,m,x,true); break; }
        case 1: { C x=gen_cell(la,s); lg << " remove " << show(x); how="remove cell"; p.remove(mk(gr,x)); set(la,m,x,false); break; }
        case 2: { M o; lg << " adjoin "; GridTreePaving q=gen_paving(la,g,s,lg,o); how="adjoin paving"; if (s.boolean()) p.adjoin(q); else { how="adjoin abstract paving"; SubPavingInterface const& qi=q; p.adjoin(qi); } for (size_t k=0;k<la.total;++k) m[k]=m[k]||o[k]; properties(la,g,q,o,how+" operand"); break; }
        case 3: { M o; lg << " restrict "; GridTreePaving q=gen_paving(la,g,s,lg,o); how="restrict to paving"; if (s.boolean()) p.restrict(q); else { how="restrict to abstract paving"; SubPavingInterface const& qi=q; p.restrict(qi); } for (size_t k=0;k<la.total;++k) m[k]=m[k]&&o[k]; properties(la,g,q,o,how+" operand"); break; }
        case 4: { M o; lg << " remove "; GridTreePaving q=gen_paving(la,g,s,lg,o); how="remove paving"; if (s.boolean()) p.remove(q); else { how="remove abstract paving"; SubPavingInterface const& qi=q; p.remove(qi); } for (size_t k=0;k<la.total;++k) m[k]=m[k]&&!o[k]; properties(la,g,q,o,how+" operand"); break; }
        case 5: { Nat k=(Nat)s.draw((uint64_t)la.K+1); lg << " mince " << k; how="mince"; p.mince(k); for (auto const& z : p) PBT_CHECK(z.depth()>=(int)(k*d),"mince depth","after mincing to " << k << " there is a cell at depth " << z.depth()); break; }
        case 6: { lg << " recombine"; how="recombine"; p.recombine(); size_t w=coarsest(la,m,C{(int)p.root_cell().root_extent(),{}}); PBT_CHECK(p.size()==w,"recombine","there are " << p.size() << " cells instead of " << w); break; }
        case 7: { int e=(int)s.draw((uint64_t)la.E+1); lg << " restrict to extent " << e; how="restrict_to_extent"; p.restrict_to_extent((Nat)e); M o(la.total,0); set(la,o,C{e,{}},true); for (size_t k=0;k<la.total;++k) m[k]=m[k]&&o[k]; break; }
        case 8: { Nat k=(Nat)s.draw((uint64_t)la.K*d+1); lg << " mince to depth " << k; how="mince_to_depth"; p.mince_to_depth(k); for (auto const& z : p) PBT_CHECK(z.depth()>=(int)k,"mince_to_depth depth","there is a cell at depth " << z.depth()); break; }
        case 9: { int e=(int)p.root_cell().root_extent(); Nat k=(Nat)s.draw((uint64_t)(la.K+e)*d+1); lg << " mince to tree depth " << k; how="mince_to_tree_depth"; p.mince_to_tree_depth(k); for (auto const& z : p) PBT_CHECK(z.word().size()>=k,"mince_to_tree_depth depth","there is a cell at tree depth " << z.word().size()); break; }
        case 10: { Q mw=0; for (auto& l:g.l) mw=qmax(mw,l); Q w=mw/(1<<s.draw((uint64_t)la.K+1)); lg << " subdivide " << w; how="subdivide"; GridTreePaving q(p); q.subdivide(ApproximateDouble(w.get_d())); Lat lf(d,la.K+3,la.E); for (auto const& z : q) for (size_t k=0;k<d;++k) PBT_CHECK(xof(z[(dimension_type)k].upper_bound()).q-xof(z[(dimension_type)k].lower_bound()).q<=w,"subdivide width","a cell is wider than " << w); PBT_CHECK(xof(q.measure().raw()).q==volume(la,g,m),"subdivide measure","the measure changed"); break; }
        case 11: { lg << " copy"; how="copy"; GridTreePaving q(p); GridTreePaving r(gr); r=p; r=static_cast<GridTreePaving const&>(r); std::unique_ptr<GridTreePaving> u(p.clone()); C x=gen_cell(la,s); M o=m; if (s.boolean()) { set(la,o,x,true); p.adjoin(mk(gr,x)); } else { set(la,o,x,false); p.remove(mk(gr,x)); } lg << " then change " << show(x); properties(la,g,q,m,"copy is independent"); properties(la,g,r,m,"assignment is independent"); properties(la,g,*u,m,"clone is independent"); m=o; break; }
        case 12: { if (s.chance(1,3)) { lg << " clear"; how="clear"; p.clear(); m.assign(la.total,0); } else { bool b=s.boolean(); C x{(int)p.root_cell().root_extent(),{}}; if (p.tree_depth()==0) { lg << " set root " << b; how="set_root_cell"; p.set_root_cell(b); set(la,m,x,b); } } break; }
        default: { // the two halves of the paving refer to its tree
            if (p.tree_depth()>0) { bool b=s.boolean(); lg << " branch " << b; how="branch"; GridTreeSubpaving h=p.branch(b); M o(la.total,0), k=m; C x{(int)p.root_cell().root_extent(),{b}}; set(la,o,x,true); for (size_t j=0;j<la.total;++j) o[j]=o[j]&&m[j]; properties(la,g,h,o,"branch"); switch (s.draw(4)) { case 0: break; case 1: h.recombine(); properties(la,g,h,o,"branch recombined"); break; case 2: h.mince((Nat)la.K); properties(la,g,h,o,"branch minced"); break; default: { GridTreePaving q(gr); q.adjoin(h); properties(la,g,q,o,"adjoin branch"); GridTreePaving t(p); t.remove(h); M v=m; for (size_t j=0;j<la.total;++j) v[j]=m[j]&&!o[j]; properties(la,g,t,v,"remove branch"); GridTreePaving y(p); y.restrict(h); properties(la,g,y,o,"restrict to branch"); } } } break; } }
        ++ops; try { properties(la,g,p,m,how); } catch (...) { NOTE(c,lg.str()); throw; } }
    NOTE(c,lg.str()); c.label(how); c.interesting(count(m)>1&&ops>2);
}
// set operations and predicates
void t_sets(PSrc& s, PCase& c) { size_t d=1+s.draw(3); Gr g=gen_grid(s,d); Grid gr=mk(g); Lat la=lattice(d,s); std::ostringstream lg; lg << show(g) << " "; M m,o; GridTreePaving pa=gen_paving(la,g,s,lg,m); lg << " "; GridTreePaving qa(gr); if (s.chance(1,3)) { qa=pa; o=m; int n=(int)s.draw(3); for (int i=0;i<n;++i) { C x=gen_cell(la,s); bool r=s.boolean(); lg << (r?" +":" -") << show(x); if (r) qa.adjoin(mk(gr,x)); else qa.remove(mk(gr,x)); set(la,o,x,r); } if (s.boolean()) { qa.recombine(); lg << " rec"; } } else qa=gen_paving(la,g,s,lg,o);
    // whole pavings or parts of them
    GridTreeSubpaving p(pa), q(qa); auto part=[&](GridTreeSubpaving& h, M& v){ while (h.tree_depth()>0&&s.chance(1,4)) { bool b=s.boolean(); lg << " branch" << b; h=h.branch(b); M t(la.total,0); each(la,lat(d,(int)h.root_cell().root_extent(),wb(h.root_cell().word())),[&](size_t k){t[k]=v[k];}); v=t; } }; part(p,m); lg << " /"; part(q,o); NOTE(c,lg.str()); c.interesting(count(m)>0&&count(o)>0&&m!=o); c.label("dimension "+std::to_string(d));
    M jn=m,is=m,df=m; bool sub=true,meet=false; for (size_t i=0;i<la.total;++i) { jn[i]=m[i]||o[i]; is[i]=m[i]&&o[i]; df[i]=m[i]&&!o[i]; if (m[i]&&!o[i]) sub=false; if (m[i]&&o[i]) meet=true; } if (meet) c.label("meet"); if (sub) c.label("subset");
    properties(la,g,join(p,q),jn,"join"); properties(la,g,intersection(p,q),is,"intersection"); properties(la,g,difference(p,q),df,"difference"); properties(la,g,p,m,"first operand"); properties(la,g,q,o,"second operand");
    PBT_CHECK(subset(p,q)==sub,"subset","subset is " << !sub << " instead of " << sub); PBT_CHECK(intersect(p,q)==meet,"intersect","intersect is " << !meet << " instead of " << meet); SubPavingInterface const& qi=q; PBT_CHECK(p.subset(qi)==sub,"subset of abstract paving","wrong"); PBT_CHECK(p.intersects(qi)==meet,"intersects abstract paving","wrong"); bool eqs=m==o; PBT_CHECK(!(p==q)||eqs,"==","different pavings are equal"); PBT_CHECK(!p.equals(qi)||eqs,"equals","different pavings are equal"); { GridTreePaving x(pa), y(qa); x.recombine(); y.recombine(); if (x.root_cell()==y.root_cell()&&x.root_cell().root_extent()==y.root_cell().root_extent()) { M mx=get(la,g,x,"recombined"), my=get(la,g,y,"recombined"); c.label("same root"); PBT_CHECK((x==y)==(mx==my),"== recombined","== of recombined pavings is " << (x==y)); PBT_CHECK(x.equals(y)==(mx==my),"equals recombined","wrong"); } }
    { C x=gen_cell(la,s); if (s.boolean()&&p.size()>0) { size_t k=s.draw(p.size()); for (auto const& z : p) if (k--==0) { x.e=(int)z.root_extent(); x.w=wb(z.word()); } if (s.chance(1,3)&&!x.w.empty()) x.w.pop_back(); else if (s.chance(1,3)&&x.w.size()<(size_t)(x.e+la.K)*d) x.w.push_back(s.boolean()); } NOTE(c,"cell " << show(x)); LB b=lat(d,x.e,x.w); GridCell z=mk(gr,x); bool a=all(la,m,b), y=any(la,m,b); PBT_CHECK(subset(z,p)==a,"subset cell","subset is " << !a << " for the cell " << show(b)); PBT_CHECK(p.superset(z)==a,"superset cell","superset is " << !a << " for the cell " << show(b)); PBT_CHECK(intersect(z,p)==y,"intersect cell","intersect is " << !y << " for the cell " << show(b)); C y2=gen_cell(la,s); if (s.boolean()) { y2=x; if (s.boolean()) y2.w.push_back(s.boolean()); else if (!y2.w.empty()) y2.w.pop_back(); } LB b2=lat(d,y2.e,y2.w); bool cs=true; for (size_t i=0;i<d;++i) if (b[i].l<b2[i].l||b[i].u>b2[i].u) cs=false; (void)cs; }
    // boxes
    int nb=3; for (int i=0;i<nb;++i) { LB b; bool deg=false; int mode=(int)s.draw(3); std::vector<LB> cs; if (mode==1) for (auto const& z : p) cs.push_back(lat(d,(int)z.root_extent(),wb(z.word()))); LB base; if (!cs.empty()) base=cs[s.draw(cs.size())]; LB hl; bool hh=mode==2&&hull(la,m,hl); for (size_t j=0;j<d;++j) { Q l,u; if (!base.empty()||hh) { LI t=hh?hl[j]:base[j]; Q w=t.u-t.l; l=t.l+w*s.pick<Q>({Q(0),Q(0),Q(1,4),Q(-1,4),Q(1),Q(-1,2)}); u=t.u+w*s.pick<Q>({Q(0),Q(0),Q(1,4),Q(-1,4),Q(1),Q(-1,8)}); if (u<l) std::swap(l,u); } else { l=Q((long)s.range(-24,24))/8; u=l+Q((long)s.draw(24))/8; } if (u<=l) deg=true; b.push_back(LI{l,u}); } if (deg) { c.label("degenerate box"); }
        ExactBoxType bx=sbox(g,b); NOTE(c,"box " << show(b)); bool psub=true,pins=true,ov=false,tch=false; for (size_t k=0;k<la.total;++k) if (m[k]) { LB f=fine(la,k); bool su=true,in=true,oo=true,to=true; for (size_t j=0;j<d;++j) { if (f[j].l<b[j].l||f[j].u>b[j].u) su=false; if (f[j].l<=b[j].l||f[j].u>=b[j].u) in=false; if (!(f[j].l<b[j].u&&b[j].l<f[j].u)) oo=false; if (!(f[j].l<=b[j].u&&b[j].l<=f[j].u)) to=false; } psub=psub&&su; pins=pins&&in; ov=ov||oo; tch=tch||to; }
        // is the box covered by the closed set, and by its interior?
        bool cov=true,icov=true; { std::vector<std::vector<Q>> pt(d); for (size_t j=0;j<d;++j) { std::set<Q> v{b[j].l,b[j].u}; for (long t=0;t<=la.n;++t) { Q q=Q(t)/(1<<la.K)+la.L; if (q>b[j].l&&q<b[j].u) v.insert(q); } std::vector<Q> w(v.begin(),v.end()); for (size_t t=0;t+1<w.size();++t) v.insert((w[t]+w[t+1])/2); pt[j].assign(v.begin(),v.end()); } size_t tot=1; for (auto& v:pt) tot*=v.size(); auto cells=[&](Q x){ std::vector<long> r; Q f=(x-la.L)*(1<<la.K); mpz_class z; mpz_fdiv_q(z.get_mpz_t(),f.get_num_mpz_t(),f.get_den_mpz_t()); r.push_back(z.get_si()); if (f.get_den()==1) r.push_back(z.get_si()-1); return r; }; for (size_t k=0;k<tot&&(cov||icov);++k) { size_t t=k; std::vector<std::vector<long>> ch; for (size_t j=0;j<d;++j) { ch.push_back(cells(pt[j][t%pt[j].size()])); t/=pt[j].size(); } size_t cm=1; for (auto& v:ch) cm*=v.size(); bool one=false,every=true; for (size_t u=0;u<cm;++u) { size_t w=u; size_t ix=0; bool ok=true; std::vector<long> xs; for (size_t j=0;j<d;++j) { xs.push_back(ch[j][w%ch[j].size()]); w/=ch[j].size(); } for (size_t j=d;j-->0;) { if (xs[j]<0||xs[j]>=la.n) ok=false; else ix=ix*(size_t)la.n+(size_t)xs[j]; } bool v=ok&&m[ix]; one=one||v; every=every&&v; } cov=cov&&one; icov=icov&&every; } }
        auto ck=[&](std::string const& k, auto const& r, bool t, bool exact=true){ bool df_=definitely(r); PBT_CHECK(!df_||t,k,k << " is true for " << show(b) << " but does not hold"); if (exact) PBT_CHECK(df_==t,k,k << " is not true for " << show(b) << " but holds"); };
        ck("paving subset box",p.subset(bx),psub); ck("paving inside box",p.inside(bx),pins); if (!deg) { ck("paving disjoint box",p.disjoint(bx),!ov); ck("paving intersects box",p.intersects(bx),ov); } ck("paving overlaps box",p.overlaps(bx),deg?tch:ov,!deg); ck("paving separated box",p.separated(bx),!tch); { bool su=p.superset(bx); PBT_CHECK(!deg||cov||!su,"paving superset flat box not covered","superset is true for " << show(b) << " but does not hold"); if (!deg||cov) ck("paving superset box",su,cov); } ck("paving covers box",p.covers(bx),icov); if (cov) c.label("covered"); if (icov) c.label("strictly covered"); if (psub) c.label("subset of box"); }
    // cursor
    { GridTreeCursor cu(&p); PBT_CHECK(cu.is_root()&&cu.cell()==p.root_cell(),"cursor root","the cursor does not start at the root"); C x{(int)p.root_cell().root_extent(),wb(p.root_cell().word())}; for (int i=0;i<12;++i) { if (cu.is_leaf()) { LB b=lat(d,x.e,x.w); PBT_CHECK(cu.is_enabled()==any(la,m,b)&&cu.is_disabled()==!any(la,m,b)&&any(la,m,b)==all(la,m,b),"cursor leaf","leaf is " << cu.is_enabled()); if (cu.is_root()) break; PBT_CHECK(cu.is_left_child()==!x.w.back()&&cu.is_right_child()==x.w.back(),"cursor child","wrong child"); cu.move_up(); x.w.pop_back(); } else { size_t w=cu.is_root()?1+s.draw(2):s.draw(3); GridTreeCursor old(cu); if (w==0) { cu.move_up(); x.w.pop_back(); } else if (w==1) { cu.move_left(); x.w.push_back(false); } else { cu.move_right(); x.w.push_back(true); } PBT_CHECK(!(old==cu),"cursor ==","the cursor did not move"); } PBT_CHECK(same(lat(d,(int)cu.cell().root_extent(),wb(cu.cell().word())),lat(d,x.e,x.w))&&same(back(g,cu.cell().box()),lat(d,x.e,x.w)),"cursor cell","the cursor is at " << show(back(g,cu.cell().box()))); GridTreeSubpaving h=*cu; M t(la.total,0); each(la,lat(d,x.e,x.w),[&](size_t k){t[k]=m[k];}); properties(la,g,h,t,"cursor subpaving"); } }
}
// approximations of boxes
void t_approx(PSrc& s, PCase& c) { size_t d=1+s.draw(2); Gr g=gen_grid(s,d); Grid gr=mk(g); int fn=(int)s.draw(3); LB b; bool deg=false; for (size_t j=0;j<d;++j) { Q l=Q((long)s.range(-24,24))/8, u=l+Q((long)s.draw(24))/(s.boolean()?8:16); if (u==l) deg=true; b.push_back(LI{l,u}); } ExactBoxType bx=sbox(g,b); NOTE(c,show(g) << " box " << show(b) << " fineness " << fn); c.interesting(!deg&&d>1); c.label("dimension "+std::to_string(d)); if (deg) c.label("degenerate");
    int E=5; Lat la(d,fn,E); M tch(la.total,0),ov=tch,in=tch,ins=tch; for (size_t k=0;k<la.total;++k) { LB f=fine(la,k); bool t=true,o=true,i=true,ii=true; for (size_t j=0;j<d;++j) { if (!(f[j].l<=b[j].u&&b[j].l<=f[j].u)) t=false; if (!(f[j].l<b[j].u&&b[j].l<f[j].u)) o=false; if (!(b[j].l<=f[j].l&&f[j].u<=b[j].u)) i=false; if (!(b[j].l<f[j].l&&f[j].u<b[j].u)) ii=false; } tch[k]=t; ov[k]=o; in[k]=i; ins[k]=ii; }
    // cells further out than the model are not allowed: E is chosen above the extent of any box
    auto bet=[&](std::string const& k, GridTreePaving const& p, M const& lo, M const& hi){ M r=get(la,g,p,k); for (size_t i=0;i<la.total;++i) { PBT_CHECK(!lo[i]||r[i],k+" misses",k << " misses the cell " << show(fine(la,i))); PBT_CHECK(hi[i]||!r[i],k+" extra",k << " has the extra cell " << show(fine(la,i))); } };
    bet("outer_approximation",outer_approximation(bx,gr,(Nat)fn),tch,tch); ExactBoxSetType bs=bx; EffectiveEuclideanCompactSetInterface const& cs=bs; bet("outer_approximation set",outer_approximation(cs,gr,(Nat)fn),tch,tch); { bool triv=true; for (size_t i=0;i<d;++i) if (g.o[i]!=0||g.l[i]!=1) triv=false; if (triv) { bet("outer_approximation trivial grid",outer_approximation(bx,(Nat)fn),tch,tch); bet("outer_approximation set trivial grid",outer_approximation(cs,(Nat)fn),tch,tch); } }
    { GridTreePaving p(gr); p.adjoin_outer_approximation(UpperBoxType(bx),(Nat)fn); bet("adjoin_outer_approximation",p,tch,tch); } if (!deg) { GridTreePaving p(gr); p.adjoin_over_approximation(bx,(Nat)fn); bet("adjoin_over_approximation",p,ov,tch); }
    EffectiveEuclideanSetInterface const& es=bs; bet("inner_approximation",inner_approximation(es,gr,(Nat)fn),ins,in); { EffectiveEuclideanOpenSetInterface const& op=bs; bet("inner_approximation extent",inner_approximation(op,gr,(Nat)E,(Nat)fn),ins,in); bet("inner_approximation box",inner_approximation(op,gr,bx,(Nat)fn),ins,in); }
    { GridTreePaving p(gr); EffectiveEuclideanLocatedSetInterface const& ls=bs; p.adjoin_lower_approximation(ls,(Nat)fn); bet("adjoin_lower_approximation",p,deg?M(la.total,0):ov,ov); GridTreePaving q(gr); EffectiveEuclideanOvertSetInterface const& ot=bs; q.adjoin_lower_approximation(ot,(Nat)E,(Nat)fn); bet("adjoin_lower_approximation extent",q,deg?M(la.total,0):ov,ov); GridTreePaving r(gr); r.adjoin_lower_approximation(ot,bx,(Nat)fn); bet("adjoin_lower_approximation box",r,deg?M(la.total,0):ov,ov); }
    // adjoining to a set that is not empty
    { Lat lg=la; std::ostringstream o; M m(la.total,0); GridTreePaving p(gr); int n=1+(int)s.draw(3); for (int i=0;i<n;++i) { C x; x.e=(int)s.draw(4); size_t w=s.draw((uint64_t)(x.e+fn)*d+1); for (size_t k=0;k<w;++k) x.w.push_back(s.boolean()); o << " " << show(x); p.adjoin(mk(gr,x)); set(la,m,x,true); } NOTE(c,"cells" << o.str()); auto with=[&](M a){ for (size_t k=0;k<la.total;++k) a[k]=a[k]||m[k]; return a; }; GridTreePaving q(p); q.adjoin_outer_approximation(cs,(Nat)fn); bet("outer approximation adjoined",q,with(tch),with(tch)); q=p; EffectiveEuclideanOpenSetInterface const& op=bs; q.adjoin_inner_approximation(op,bx,(Nat)fn); bet("inner approximation adjoined",q,with(ins),with(in)); q=p; EffectiveEuclideanLocatedSetInterface const& ls=bs; q.adjoin_lower_approximation(ls,(Nat)fn); bet("lower approximation adjoined",q,deg?with(M(la.total,0)):with(ov),with(ov)); }
}
// products and projections
void t_product(PSrc& s, PCase& c) { size_t d1=1+s.draw(2), d2=1; Gr g1=gen_grid(s,d1), g2=gen_grid(s,d2); std::ostringstream lg; Lat l1=d1==1?Lat(1,1,3):Lat(2,1,2), l2=Lat(1,1,d1==1?3:2); M m1,m2; lg << show(g1) << show(g2); GridTreePaving p=gen_paving(l1,g1,s,lg,m1,3), q=gen_paving(l2,g2,s,lg,m2,3); NOTE(c,lg.str()); c.interesting(count(m1)>0&&count(m2)>0); Gr g=g1; g.o.push_back(g2.o[0]); g.l.push_back(g2.l[0]); Lat la(d1+d2,1,l1.E); M m(la.total,0); for (size_t k=0;k<la.total;++k) m[k]=m1[k%l1.total]&&m2[k/l1.total];
    bool pm=s.boolean(); if (pm) { p.mince(1); q.mince(1); NOTE(c,"minced"); c.label("minced"); } properties(la,g,product(p,q),m,"product"); properties(l1,g1,p,m1,"product first operand"); properties(l2,g2,q,m2,"product second operand");
    if (pm&&p.size()>0&&q.size()>0) { GridCell a=*p.begin(), b=*q.begin(); GridCell r=product(a,b); LB x=lat(d1,(int)a.root_extent(),wb(a.word())), y=lat(1,(int)b.root_extent(),wb(b.word())); x.push_back(y[0]); PBT_CHECK(same(back(g,r.box()),x)&&same(lat(d1+1,(int)r.root_extent(),wb(r.word())),x),"product of cells","product is " << show(back(g,r.box())) << " instead of " << show(x)); }
    // projection of a paving
    { size_t d=1+s.draw(3); Gr h=gen_grid(s,d); Lat lh=d==1?Lat(1,2,3):d==2?Lat(2,2,2):Lat(3,1,2); M mm; std::ostringstream l2; GridTreePaving r=gen_paving(lh,h,s,l2,mm,3); size_t n=1+s.draw(d); std::vector<size_t> all; for (size_t i=0;i<d;++i) all.push_back(i); for (size_t i=0;i<n;++i) std::swap(all[i],all[i+s.draw(d-i)]); Array<SizeType> ix(n); Gr k; l2 << " onto"; for (size_t i=0;i<n;++i) { ix[i]=all[i]; l2 << " " << all[i]; k.o.push_back(h.o[all[i]]); k.l.push_back(h.l[all[i]]); } NOTE(c,"image of " << show(h) << l2.str()); Lat lk(n,lh.K,lh.E); M w(lk.total,0); for (size_t t=0;t<lh.total;++t) if (mm[t]) { std::vector<size_t> x; size_t u=t; for (size_t i=0;i<d;++i) { x.push_back(u%(size_t)lh.n); u/=(size_t)lh.n; } size_t v=0; for (size_t i=n;i-->0;) v=v*(size_t)lk.n+x[all[i]]; w[v]=1; } if (s.boolean()) { r.mince((Nat)lh.K); c.label("image minced"); } GridTreePaving im=image(r,Projection(d,ix)); properties(lk,k,im,w,"image"); properties(lh,h,r,mm,"image operand"); }
}
struct Init { Init() { pbt::set_rule("the cell is not a primary cell of the trivial grid, the sets meet and differ, the history has more than two steps and a set of several cells, or the box has an interior"); pbt::set_reset(reset_modes); pbt::add_assumption("grids have exactly representable origins and lengths; cells at most three subdivisions deep in primary cells of extent at most four"); } } init_;
pbt::Register r1("cell",6000,120000,t_cell,30), r2("open_cell",3000,60000,t_open,30), r3("history",4000,80000,t_history,30), r4("sets",3000,60000,t_sets,30), r5("approximation",1500,30000,t_approx,30), r6("product",2500,50000,t_product,30);
}
