// C21: symbolic expressions evaluate to, and are transformed preserving, the value of the expression they were built from.
#include "fun_ast.hpp"
#include "algebra/algebra.hpp"
#include "algebra/differential.hpp"
#include "function/function.hpp"
#include "function/formula.hpp"
#include "function/taylor_model.hpp"
#include "function/formula.tpl.hpp"
#include "symbolic/expression.hpp"
#include "symbolic/space.hpp"
#include "symbolic/valuation.hpp"
#include "symbolic/assignment.hpp"
#include "symbolic/variable.hpp"
#include "symbolic/constant.hpp"
namespace Ariadne { template<class T, class Y> Expression<T> substitute(const Expression<T>& e, const Variable<Y>& v, const Expression<Y>& c); }
namespace {
typedef Expression<Real> RE; typedef Expression<Kleenean> KE; typedef Expression<RealVector> VE;
const char* NAMES[]={"x","y2","a","zz"};
RealVariable var(size_t i) { return RealVariable(NAMES[i]); }
Real real(Q const& q) { return Real(to_rational(q)); }
RE mke(Ex const& e, size_t n, std::map<Nd const*,RE>& memo, bool named=false) { std::vector<RE> x; for (size_t i=0;i<n;++i) x.push_back(RE(var(i))); return build<RE>(e,x,[named](Q q){ if (named) return RE(RealConstant("c"+std::to_string(std::hash<std::string>()(q.get_str())%100000),real(q))); return RE::constant(real(q));},[](Q q){return real(q);},memo); }
RE mke(Ex const& e, size_t n) { std::map<Nd const*,RE> memo; return mke(e,n,memo); }
Valuation<Real> valn(Pt const& p) { Valuation<Real> v; for (size_t i=0;i<p.size();++i) v.insert(var(i),real(p[i])); return v; }
void chkr(std::string const& k, Real const& r, Iv const& v, bool tame) { chk(k,FloatDPBounds(r,dp),v,tame); }
void eat(std::string const& k, RE const& e, Ex const& a, Pt const& p) { Val v=val(a,p); if (!v.d) return; chkr(k,evaluate(e,valn(p)),v.v,v.t); chkr(k+" with map",evaluate(e,valn(p).values()),v.v,v.t); }
size_t deg(Ex const& e, std::vector<bool> const& in) { const size_t INF=1000; switch (e->op) { case CST: return 0; case CRD: return in[e->i]?1:0; case ADD: case SUB: return std::max(deg(e->a,in),deg(e->b,in)); case MUL: return std::min(INF,deg(e->a,in)+deg(e->b,in)); case DIV: return deg(e->b,in)?INF:deg(e->a,in); case POW: { size_t d=deg(e->a,in); if (e->n==0||d==0) return 0; return e->n<0?INF:std::min(INF,d*e->n); } case NEG: case POS: case HLF: return deg(e->a,in); case SQR: return std::min(INF,2*deg(e->a,in)); case MAX: case MIN: return deg(e->a,in)||deg(e->b,in)?INF:0; default: return deg(e->a,in)?INF:0; } }
void t_expression(PSrc& s, PCase& c) { std::ostringstream lg; size_t n=1+s.draw(4); Fu fu=gen_fun(s,lg,n,(int)s.draw(4)); Ex a=fu.e; NOTE(c,lg.str()); if (nodes(a)>60) PBT_DISCARD(); c.interesting(nodes(a)>3); std::map<Nd const*,RE> memo; RE e=mke(a,n,memo); Pt p=gen_point(s,n); Val v=val(a,p); NOTE(c,lg.str()+" at "+show(p)); if (!v.d) PBT_DISCARD();
    eat("expression",e,a,p); { std::map<Nd const*,RE> m2; RE ec=mke(a,n,m2,true); eat("expression with named constants",ec,a,p); eat("simplified expression with named constants",simplify(ec),a,p); }
    { auto as=arguments(e); auto ua=e.arguments(); for (size_t i=0;i<n;++i) { PBT_CHECK(as.contains(var(i).name())==uses(a,i),"arguments","variable " << NAMES[i] << " is " << (uses(a,i)?"not ":"") << "an argument"); } size_t cnt=0; for (size_t i=0;i<n;++i) if (uses(a,i)) ++cnt; PBT_CHECK(ua.size()==cnt&&as.size()==cnt,"arguments","wrong number of arguments"); }
    RE se=simplify(e); eat("simplified",se,a,p); eat("simplified twice",simplify(se),a,p); PBT_CHECK(count_nodes(se)<=count_nodes(e)+nodes(a),"simplified size","simplification made the expression much larger");
    { RE ec=e; eliminate_common_subexpressions(ec); eat("common subexpressions eliminated",ec,a,p); if (dyc(a)) { PBT_CHECK(identical(ec,e),"common subexpressions identical","the expression changed"); PBT_CHECK(count_distinct_node_pointers(ec)<=count_distinct_node_pointers(e),"common subexpressions count","the number of nodes increased"); } PBT_CHECK(count_nodes(ec)==count_nodes(e),"count_nodes","elimination of common subexpressions changed the number of nodes"); PBT_CHECK(count_distinct_node_pointers(e)<=count_nodes(e),"count_nodes","more distinct nodes than nodes"); }
    size_t j=s.draw(n); if (smooth(a)) { Ser sr=series(a,svars(p,2)); MI m(n,0); m[j]=1; RE d=derivative(e,var(j)); chkr("derivative",evaluate(d,valn(p)),sr[m],false); chkr("simplified derivative",evaluate(simplify(d),valn(p)),sr[m],false); size_t k=s.draw(n); m[k]++; chkr("second derivative",evaluate(derivative(d,var(k)),valn(p)),sr[m]*Iv(j==k?2:1),false); }
    // substitution
    { std::ostringstream l2; Fu g=gen_fun(s,l2,n,1,2); std::vector<Ex> by; for (size_t i=0;i<n;++i) by.push_back(i==j?g.e:mkx(i)); Ex ae=dsub(a,by); NOTE(c,lg.str()+" at "+show(p)+" substitute "+NAMES[j]+"="+l2.str()); RE ge=mke(g.e,n); eat("substituted",substitute(e,var(j),ge),ae,p); List<Assignment<RealVariable,RE>> la; la.append(Assignment<RealVariable,RE>(var(j),ge)); RE e2=substitute(e,la); eat("substituted by a list",e2,ae,p); Q q=Q((long)s.range(-8,8))/4; by[j]=mkc(q); Ex ac=dsub(a,by); if (!cbad(ac)) { RE ec=substitute(e,var(j),real(q)); eat("constant substituted",ec,ac,p); eat("constant substituted and simplified",simplify(ec),ac,p); } 
        if (n>1) { size_t k=(j+1)%n; std::ostringstream l3; std::vector<Ex> b2; Ex g1=mkx((j+2)%n), g2=mkc(Q(3,2)); if ((j+2)%n==j) g1=mkc(q); std::vector<Ex> by2; for (size_t i=0;i<n;++i) by2.push_back(i==j?g1:i==k?g2:mkx(i)); List<Assignment<RealVariable,RE>> l; l.append(Assignment<RealVariable,RE>(var(j),mke(g1,n))); l.append(Assignment<RealVariable,RE>(var(k),mke(g2,n))); Ex as=dsub(a,by2); if (!cbad(as)) eat("two variables substituted",substitute(e,l),as,p); } }
    NOTE(c,lg.str()+" at "+show(p));
    // formulae and functions
    { std::vector<size_t> perm(n); for (size_t i=0;i<n;++i) perm[i]=i; for (size_t i=0;i+1<n;++i) std::swap(perm[i],perm[i+s.draw(n-i)]); List<RealVariable> vars; Pt pp; for (size_t i:perm) { vars.append(var(i)); pp.push_back(p[i]); } RealSpace spc(vars); std::ostringstream l3; for (size_t i:perm) l3 << NAMES[i] << ","; NOTE(c,lg.str()+" at "+show(p)+" order "+l3.str());
        auto x=bvec<FloatDP>(pp,dp); chk("make_formula",evaluate(make_formula(e,spc),x),v.v,v.t); chk("make_formula of list",evaluate(make_formula(e,vars),x),v.v,v.t); auto f=make_function(spc,e); PBT_CHECK(f.argument_size()==n,"make_function size","wrong argument size"); chk("make_function",f(x),v.v,v.t); chk("make_function mp",f(bvec<FloatMP>(pp,MultiplePrecision(128))),v.v,v.t); eat("make_expression",make_expression(f,spc),a,p);
        Vector<RE> ev({e,RE(var(j)),RE(var(j))*e}); auto vf=make_function(spc,ev); auto y=vf(x); PBT_CHECK(y.size()==3&&vf.result_size()==3,"make vector function size","wrong result size"); chk("make vector function",y[0],v.v,v.t); chk("make vector function coordinate",y[1],Iv(p[j]),v.t); chk("make vector function product",y[2],v.v*Iv(p[j]),v.t); auto fv=make_formula(ev,spc); chk("make vector formula",evaluate(fv,x)[2],v.v*Iv(p[j]),v.t);
        // auxiliary variables
        std::ostringstream l2; Fu g=gen_fun(s,l2,n,1,2); Val gv=val(g.e,p); std::vector<Ex> by; for (size_t i=0;i<n;++i) by.push_back(i==j?g.e:mkx(i)); Ex ae=dsub(a,by); Val av=val(ae,p); if (gv.d&&av.d&&n<4) { std::vector<RE> xs; for (size_t i=0;i<n;++i) xs.push_back(i==j?RE(RealVariable("aux")):RE(var(i))); RE eo=build<RE>(a,xs,[](Q q){return RE::constant(real(q));},[](Q q){return real(q);}); List<Assignment<RealVariable,RE>> la; la.append(Assignment<RealVariable,RE>(RealVariable("aux"),mke(g.e,n))); NOTE(c,lg.str()+" at "+show(p)+" order "+l3.str()+" aux for "+NAMES[j]+" is "+l2.str()); chk("make_formula with auxiliaries",evaluate(make_formula(eo,la,spc),x),av.v,av.t); }
        if (n==1) { auto uf=make_function(var(0),e); chk("make univariate function",uf(x[0]),v.v,v.t); auto uv=make_function(var(0),ev); chk("make univariate vector function",uv(x[0])[2],v.v*Iv(p[0]),v.t); } }
    NOTE(c,lg.str()+" at "+show(p));
    // structural predicates
    { std::vector<bool> in(n); Set<RealVariable> vs; bool dep=false; for (size_t i=0;i<n;++i) { in[i]=s.boolean(); if (in[i]) { vs.insert(var(i)); if (uses(a,i)) dep=true; } } bool ic=is_constant_in(e,vs), ia=is_affine_in(e,vs), ip=is_polynomial_in(e,vs); Pt q1=p,q2=p; for (size_t i=0;i<n;++i) if (in[i]) q1[i]+=Q((long)s.range(-64,64))/64; for (size_t i=0;i<n;++i) q2[i]=2*q1[i]-p[i]; Val v1=val(a,q1), v2=val(a,q2); NOTE(c,lg.str()+" at "+show(p)+" to "+show(q1)); if (v1.d&&v2.d) { if (ic) PBT_CHECK(eq2(v.v,v1.v),"is_constant_in","expression said to be constant changes from " << oracle::show(v.v) << " to " << oracle::show(v1.v)); if (ia) PBT_CHECK(eq2(v1.v+v1.v,v.v+v2.v),"is_affine_in","expression said to be affine has values " << oracle::show(v.v) << "," << oracle::show(v1.v) << "," << oracle::show(v2.v)); } if (!dep) { PBT_CHECK(ic,"is_constant_in","expression not using the variables is not said to be constant in them"); } PBT_CHECK(!ip||deg(a,in)<1000||smooth(a),"is_polynomial_in","nonsmooth expression said to be polynomial");
        if (ip&&deg(a,in)>=1000&&smooth(a)) { std::vector<Ser> x; for (size_t i=0;i<n;++i) { Ser b=sconst(1,10,Iv(p[i])); if (in[i]) b.c[MI{1}]=Iv(q1[i]-p[i]); x.push_back(b); } Ser sr=series(a,x); PBT_CHECK(!surely_less(sr[MI{10}],X(0.0))&&!surely_greater(sr[MI{10}],X(0.0)),"is_polynomial_in","non-polynomial expression said to be polynomial"); }
        if (is_additive_in(e,var(j))&&smooth(a)) { Ser sr=series(a,svars(p,1)); Iv d=sr[unit_mi(n,j)]; PBT_CHECK((d.lower()<=1&&d.upper()>=1)||(d.lower()<=0&&d.upper()>=0),"is_additive_in","expression said to be additive has derivative " << oracle::show(d)); }
        std::ostringstream l2; Fu g=gen_fun(s,l2,n,0,2); Vector<RE> ev({e,mke(g.e,n)}); NOTE(c,lg.str()+" ; "+l2.str()+" at "+show(p)); if (smooth(a)&&smooth(g.e)&&is_additive_in(ev,vs)) for (size_t i=0;i<n;++i) if (in[i]) { Iv d0=series(a,svars(p,1))[unit_mi(n,i)], d1=series(g.e,svars(p,1))[unit_mi(n,i)]; auto z=[](Iv d){return d.lower()<=0&&d.upper()>=0;}; auto one=[](Iv d){return d.lower()<=1&&d.upper()>=1;}; PBT_CHECK((z(d0)&&z(d1))||(z(d0)&&one(d1))||(one(d0)&&z(d1)),"is_additive_in vector","vector said to be additive has derivatives " << oracle::show(d0) << "," << oracle::show(d1)); } bool iv=is_affine_in(ev,vs); PBT_CHECK(iv==(is_affine_in(ev[0],vs)&&is_affine_in(ev[1],vs)),"is_affine_in vector","vector affine differs from elements"); PBT_CHECK(is_constant_in(ev,vs)==(is_constant_in(ev[0],vs)&&is_constant_in(ev[1],vs)),"is_constant_in vector","vector constant differs from elements"); PBT_CHECK(is_polynomial_in(ev,vs)==(is_polynomial_in(ev[0],vs)&&is_polynomial_in(ev[1],vs)),"is_polynomial_in vector","vector polynomial differs from elements"); }
}
// identical and the ordering
void t_order(PSrc& s, PCase& c) { std::ostringstream lg; size_t n=1+s.draw(2); std::vector<Ex> as; std::vector<RE> es; std::vector<Ex> pool; for (int i=0;i<3;++i) { Ex a; do { a=gen_ast(s,n,(int)s.draw(3),(int)s.draw(2),pool); } while (false); if (cbad(a)||!dyc(a)||nodes(a)>30) PBT_DISCARD(); lg << show(a) << " ; "; as.push_back(a); es.push_back(mke(a,n)); } NOTE(c,lg.str()); c.interesting(nodes(as[0])>2); Pt p=gen_point(s,n);
    for (size_t i=0;i<3;++i) { PBT_CHECK(identical(es[i],es[i]),"identical","an expression is not identical with itself"); PBT_CHECK(identical(es[i],mke(as[i],n)),"identical","an expression is not identical with its copy"); PBT_CHECK(!before(es[i],es[i]),"before","an expression is before itself"); for (size_t j=0;j<3;++j) { bool id=identical(es[i],es[j]), b=before(es[i],es[j]), b2=before(es[j],es[i]); PBT_CHECK(id==identical(es[j],es[i]),"identical symmetric","identical is not symmetric"); PBT_CHECK(!(b&&b2),"before","two expressions are before each other"); if (id) PBT_CHECK(!b&&!b2,"before","identical expressions are ordered"); else PBT_CHECK(b||b2,"before","different expressions " << i << "," << j << " are not ordered"); Val v=val(as[i],p), w=val(as[j],p); if (id&&v.d&&w.d) PBT_CHECK(eq2(v.v,w.v),"identical","expressions with different values are identical"); } }
    for (int i=0;i<3;++i) for (int j=0;j<3;++j) for (int k=0;k<3;++k) if (before(es[i],es[j])&&before(es[j],es[k])) PBT_CHECK(before(es[i],es[k]),"before transitive","the order is not transitive"); }
// predicates
struct Pr { int op; Ex a,b; std::shared_ptr<Pr> l,r; };
typedef std::shared_ptr<Pr> PP;
std::string pshow(PP p) { switch (p->op) { case 0: return "("+show(p->a)+"<="+show(p->b)+")"; case 1: return "("+show(p->a)+">="+show(p->b)+")"; case 2: return "("+show(p->a)+"<"+show(p->b)+")"; case 3: return "("+show(p->a)+">"+show(p->b)+")"; case 4: return "sgn("+show(p->a)+")"; case 5: return "!"+pshow(p->l); case 6: return "("+pshow(p->l)+"&&"+pshow(p->r)+")"; default: return "("+pshow(p->l)+"||"+pshow(p->r)+")"; } }
PP gen_pred(PSrc& s, size_t n, int depth) { PP p=std::make_shared<Pr>(); p->op=depth?(int)s.draw(8):(int)s.draw(5); std::vector<Ex> pool; if (p->op<=4) { p->a=gen_ast(s,n,2,(int)s.draw(2),pool); p->b=gen_ast(s,n,2,(int)s.draw(2),pool); if (cbad(p->a)||cbad(p->b)) PBT_DISCARD(); } else { p->l=gen_pred(s,n,depth-1); if (p->op>5) p->r=gen_pred(s,n,depth-1); } return p; }
KE mkp(PP p, size_t n) { switch (p->op) { case 0: return mke(p->a,n)<=mke(p->b,n); case 1: return mke(p->a,n)>=mke(p->b,n); case 2: return mke(p->a,n)<mke(p->b,n); case 3: return mke(p->a,n)>mke(p->b,n); case 4: return sgn(mke(p->a,n)); case 5: return !mkp(p->l,n); case 6: return mkp(p->l,n)&&mkp(p->r,n); default: return mkp(p->l,n)||mkp(p->r,n); } }
// -1 false, 0 unknown, 1 true; d: everything is defined
int ptruth(PP p, Pt const& x, bool& d) { if (p->op<=4) { Val a=val(p->a,x), b=p->op<4?val(p->b,x):Val{Iv(0),true,true}; if (!a.d||!b.d||!a.t||!b.t) { d=false; return 0; } Iv m=(p->op==0||p->op==2)?b.v-a.v:a.v-b.v; return m.lower()>two_exp(-30)?1:m.upper()<-two_exp(-30)?-1:0; } int l=ptruth(p->l,x,d); if (p->op==5) return -l; int r=ptruth(p->r,x,d); return p->op==6?std::min(l,r):std::max(l,r); }
PP psub(PP p, std::vector<Ex> const& by) { PP r=std::make_shared<Pr>(*p); if (p->a) r->a=dsub(p->a,by); if (p->b) r->b=dsub(p->b,by); if (p->l) r->l=psub(p->l,by); if (p->r) r->r=psub(p->r,by); return r; }
bool pbad(PP p) { return (p->a&&cbad(p->a))||(p->b&&cbad(p->b))||(p->l&&pbad(p->l))||(p->r&&pbad(p->r)); }
bool pnot(PP p) { return p->op==5||(p->l&&pnot(p->l))||(p->r&&pnot(p->r)); }
void ktruth(std::string const& k, KE const& e, PP pr, Pt const& x) { bool d=true; int t=ptruth(pr,x,d); if (!d) return; Kleenean r=evaluate(e,valn(x)); auto w=r.check(Effort(64)); if (t>0) PBT_CHECK(definitely(w),k,k << " of a true predicate is " << w); if (t<0) PBT_CHECK(definitely(!w),k,k << " of a false predicate is " << w); }
void t_predicate(PSrc& s, PCase& c) { size_t n=1+s.draw(3); PP pr=gen_pred(s,n,(int)s.draw(3)); std::ostringstream lg; lg << pshow(pr); NOTE(c,lg.str()); c.interesting(pr->op>4); KE e=mkp(pr,n); for (int i=0;i<2;++i) { Pt x=gen_point(s,n); NOTE(c,lg.str()+" at "+show(x)); bool d=true; int t=ptruth(pr,x,d); if (!d) continue; ktruth("predicate",e,pr,x); ktruth("simplified predicate",simplify(e),pr,x); 
        for (Sign sg:{Sign::POSITIVE,Sign::NEGATIVE}) { RE ind=indicator(e,sg); FloatDPBounds y(evaluate(ind,valn(x)),dp); X l=xof(y.lower_raw()), u=xof(y.upper_raw()); int want=sg==Sign::POSITIVE?t:-t; if (want>0) PBT_CHECK(!(u.finite()&&u.q<=0),"indicator",(t>0?"true":"false") << " predicate has indicator " << y << " for sign " << sg); if (want<0) PBT_CHECK(!(l.finite()&&l.q>=0),"indicator",(t>0?"true":"false") << " predicate has indicator " << y << " for sign " << sg); }
        size_t j=s.draw(n); Q q=Q((long)s.range(-8,8))/4; std::vector<Ex> by; for (size_t k=0;k<n;++k) by.push_back(k==j?mkc(q):mkx(k)); PP ps=psub(pr,by); if (!pbad(ps)) { KE es=substitute(e,var(j),real(q)); ktruth("substituted predicate",es,ps,x); } by[j]=mkx((j+1)%n); List<Assignment<RealVariable,RE>> la; la.append(Assignment<RealVariable,RE>(var(j),RE(var((j+1)%n)))); ps=psub(pr,by); if (!pbad(ps)) ktruth("predicate with expression substituted",substitute(e,la),ps,x); 
        PP p2=s.boolean()?gen_pred(s,n,0):std::make_shared<Pr>(*pr); if (p2->op<4&&s.boolean()) { p2->op^=1; if (s.boolean()) std::swap(p2->a,p2->b); } KE e2=mkp(p2,n); bool d2=true; int t2=ptruth(p2,x,d2); if (d2&&opposite(e,e2)) { NOTE(c,lg.str()+" and "+pshow(p2)+" at "+show(x)); PBT_CHECK(!(t!=0&&t==t2),"opposite","predicates said to be opposite are both " << (t>0?"true":"false")); } }
    if (pr->op<4) { PP o=std::make_shared<Pr>(*pr); o->op^=1; if (dyc(pr->a)&&dyc(pr->b)) { PBT_CHECK(opposite(e,mkp(o,n)),"opposite","mutual negations are not said to be opposite"); } } }
// printed text, read with the usual precedence of operators, denotes the expression
Ex mkn(int op, Ex a, Ex b=nullptr, int n=0) { return std::make_shared<Nd const>(Nd{op,Q(0),0,n,a,b,false}); }
struct Parser { std::string t; size_t i=0; void ws() { while (i<t.size()&&t[i]==' ') ++i; } bool eat(char c) { ws(); if (i<t.size()&&t[i]==c) { ++i; return true; } return false; } [[noreturn]] void bad() { PBT_FAIL("printed text","cannot read \"" << t << "\" at character " << i); abort(); }
    Ex expr() { Ex a=term(); for (;;) { if (eat('+')) a=mkn(ADD,a,term()); else if (eat('-')) a=mkn(SUB,a,term()); else return a; } }
    Ex term() { Ex a=unary(); for (;;) { if (eat('*')) a=mkn(MUL,a,unary()); else if (eat('/')) a=mkn(DIV,a,unary()); else return a; } }
    Ex unary() { if (eat('-')) return mkn(NEG,unary()); if (eat('+')) return unary(); return prim(); }
    Ex prim() { if (eat('(')) { Ex a=expr(); if (!eat(')')) bad(); return a; } ws(); size_t b=i; if (i<t.size()&&isdigit(t[i])) { while (i<t.size()&&(isdigit(t[i])||t[i]=='.')) ++i; std::string d=t.substr(b,i-b); size_t k=d.find('.'); if (k==std::string::npos) return mkc(Q(d)); std::string f=d.substr(k+1); return mkc(Q(d.substr(0,k)+f+"/1"+std::string(f.size(),'0'))); } while (i<t.size()&&(isalnum(t[i])||t[i]=='_')) ++i; std::string w=t.substr(b,i-b); if (w.empty()) bad(); if (!eat('(')) { for (size_t k=0;k<4;++k) if (w==NAMES[k]) return mkx(k); bad(); } Ex a=expr(), r; if (w=="pow") { if (!eat(',')) bad(); ws(); char* e; long n=strtol(t.c_str()+i,&e,10); i=e-t.c_str(); r=mkn(POW,a,nullptr,(int)n); } else if (w=="max"||w=="min") { if (!eat(',')) bad(); Ex c=expr(); r=mkn(w=="max"?MAX:MIN,a,c); } else { static std::map<std::string,int> f={{"neg",NEG},{"pos",POS},{"sqr",SQR},{"hlf",HLF},{"rec",REC},{"sqrt",SQRT},{"exp",EXP},{"log",LOG},{"sin",SIN},{"cos",COS},{"tan",TAN},{"atan",ATAN},{"abs",ABS}}; if (!f.count(w)) bad(); r=mkn(f[w],a); } if (!eat(')')) bad(); return r; } };
Ex natc(Ex const& e) { if (e->op==CST) return mkc(Q(mpz_class(abs(e->q.get_num())%8))); if (e->op==CRD) return e; return std::make_shared<Nd const>(Nd{e->op,e->q,e->i,e->n,natc(e->a),e->b?natc(e->b):nullptr,false}); }
void t_print(PSrc& s, PCase& c) { std::ostringstream lg; size_t n=1+s.draw(4); std::vector<Ex> pool; Ex a=natc(gen_ast(s,n,1+(int)s.draw(4),(int)s.draw(4),pool)); if (cbad(a)||nodes(a)>60) PBT_DISCARD(); lg << show(a); NOTE(c,lg.str()); c.interesting(nodes(a)>3); Pt p=gen_point(s,n); Val v=val(a,p); if (!v.d) PBT_DISCARD(); std::ostringstream o; o << mke(a,n); NOTE(c,lg.str()+" printed as "+o.str()); Parser q{o.str()}; Ex b=q.expr(); q.ws(); if (q.i!=q.t.size()) q.bad(); Val w=val(b,p); PBT_CHECK(w.d&&eq2(v.v,w.v),"printed expression","text " << o.str() << " has value " << oracle::show(w.v) << " instead of " << oracle::show(v.v)); 
    std::ostringstream o2; List<RealVariable> vars; for (size_t i=0;i<n;++i) vars.append(var(i)); o2 << make_formula(mke(a,n),RealSpace(vars)); std::string t=o2.str(); for (size_t i=0;i<n;++i) { std::string k="x["+std::to_string(i)+"]"; size_t z; while ((z=t.find(k))!=std::string::npos) t.replace(z,k.size(),NAMES[i]+std::string(" ")); } NOTE(c,lg.str()+" formula printed as "+o2.str()); Parser q2{t}; Ex b2=q2.expr(); q2.ws(); if (q2.i!=q2.t.size()) q2.bad(); Val w2=val(b2,p); PBT_CHECK(w2.d&&eq2(v.v,w2.v),"printed formula","text " << o2.str() << " has value " << oracle::show(w2.v) << " instead of " << oracle::show(v.v)); }
// vectors
void t_vector(PSrc& s, PCase& c) { size_t n=1+s.draw(3), m=1+s.draw(3); std::ostringstream lg; std::vector<Ex> as,bs; Vector<RE> av(m),bv(m); for (size_t i=0;i<m;++i) { as.push_back(gen_fun(s,lg,n,1,2).e); lg << ","; av[i]=mke(as[i],n); } lg << " ; "; for (size_t i=0;i<m;++i) { bs.push_back(gen_fun(s,lg,n,1,2).e); lg << ","; bv[i]=mke(bs[i],n); } Ex g=gen_fun(s,lg,n,1,2).e; NOTE(c,lg.str()); Pt p=gen_point(s,n); c.interesting(m>1); for (auto& e:as) if (!val(e,p).d) PBT_DISCARD(); for (auto& e:bs) if (!val(e,p).d) PBT_DISCARD(); Val gv=val(g,p); if (!gv.d||!gv.t) PBT_DISCARD(); VE a(av), b(bv); RE ge=mke(g,n); NOTE(c,lg.str()+" at "+show(p));
    PBT_CHECK(a.size()==m,"size","vector expression has size " << a.size());
    auto at=[&](std::string const& k, VE const& e, std::function<Iv(size_t)> f, size_t sz){ RealVector r=evaluate(e,valn(p)); PBT_CHECK(r.size()==sz,k+" size",k << " has size " << r.size()); PBT_CHECK(e.size()==sz,k+" size",k << " expression has size " << e.size()); for (size_t i=0;i<sz;++i) { chkr(k,r[i],f(i),false); } RealVector r2=evaluate(simplify(e),valn(p)); for (size_t i=0;i<sz;++i) chkr(k+" simplified",r2[i],f(i),false); };
    auto A=[&](size_t i){return val(as[i],p).v;}; auto B=[&](size_t i){return val(bs[i],p).v;};
    at("vector",a,A,m); at("neg",neg(a),[&](size_t i){return Iv(0)-A(i);},m); at("sum",a+b,[&](size_t i){return A(i)+B(i);},m); at("difference",a-b,[&](size_t i){return A(i)-B(i);},m); at("scalar times vector",ge*a,[&](size_t i){return gv.v*A(i);},m); at("vector times scalar",a*ge,[&](size_t i){return A(i)*gv.v;},m); if (gv.v.lower()>0||gv.v.upper()<0) at("quotient",a/ge,[&](size_t i){return A(i)/gv.v;},m);
    size_t j=s.draw(m); RE el=a[j]; chkr("element",evaluate(el,valn(p)),A(j),false); chkr("element of sum",evaluate((a+b)[j],valn(p)),A(j)+B(j),false); }
// discrete expressions
struct IN { int op; long c; size_t i; std::shared_ptr<IN> a,b; }; typedef std::shared_ptr<IN> IP;
IP gen_int(PSrc& s, int depth) { IP r=std::make_shared<IN>(); r->op=depth?(int)s.draw(7):(int)s.draw(2); if (r->op==0) r->c=s.range(-9,9); if (r->op==1) r->i=s.draw(3); if (r->op>1) { r->a=gen_int(s,depth-1); if (r->op<5) r->b=gen_int(s,depth-1); } return r; }
long ival(IP e, std::vector<long> const& x) { switch (e->op) { case 0: return e->c; case 1: return x[e->i]; case 2: return ival(e->a,x)+ival(e->b,x); case 3: return ival(e->a,x)-ival(e->b,x); case 4: return ival(e->a,x)*ival(e->b,x); case 5: return -ival(e->a,x); default: return ival(e->a,x); } }
Expression<Integer> mki(IP e) { switch (e->op) { case 0: return Expression<Integer>(Integer(e->c)); case 1: return Expression<Integer>(IntegerVariable(NAMES[e->i])); case 2: return mki(e->a)+mki(e->b); case 3: return mki(e->a)-mki(e->b); case 4: return mki(e->a)*mki(e->b); case 5: return -mki(e->a); default: return +mki(e->a); } }
std::string ishow(IP e) { switch (e->op) { case 0: return std::to_string(e->c); case 1: return NAMES[e->i]; case 2: return "("+ishow(e->a)+"+"+ishow(e->b)+")"; case 3: return "("+ishow(e->a)+"-"+ishow(e->b)+")"; case 4: return ishow(e->a)+"*"+ishow(e->b); case 5: return "-"+ishow(e->a); default: return "+"+ishow(e->a); } }
struct BN { int op; IP a,b; size_t i; std::string w; std::shared_ptr<BN> l,r; }; typedef std::shared_ptr<BN> BP;
BP gen_bool(PSrc& s, int depth, bool strings) { BP r=std::make_shared<BN>(); r->op=depth&&s.chance(2,3)?6+(int)s.draw(3):(int)s.draw(6); if (r->op<6) { if (strings) { r->op%=2; r->i=s.draw(3); r->w=std::string(1,(char)('a'+s.draw(3))); } else { r->a=gen_int(s,2); r->b=gen_int(s,1); } } else { r->l=gen_bool(s,depth-1,strings); if (r->op<8) r->r=gen_bool(s,depth-1,strings); } return r; }
bool bval(BP e, std::vector<long> const& x, std::vector<std::string> const& w, bool strings) { if (e->op<6) { if (strings) return (w[e->i]==e->w)==(e->op==0); long a=ival(e->a,x), b=ival(e->b,x); switch (e->op) { case 0: return a==b; case 1: return a!=b; case 2: return a<=b; case 3: return a>=b; case 4: return a<b; default: return a>b; } } bool l=bval(e->l,x,w,strings); if (e->op==8) return !l; bool r=bval(e->r,x,w,strings); return e->op==6?l&&r:l||r; }
Expression<Boolean> mkb(BP e, bool strings) { if (e->op<6) { if (strings) { StringVariable v(NAMES[e->i]); return e->op==0?v==String(e->w):v!=String(e->w); } auto a=mki(e->a), b=mki(e->b); switch (e->op) { case 0: return a==b; case 1: return a!=b; case 2: return a<=b; case 3: return a>=b; case 4: return a<b; default: return a>b; } } auto l=mkb(e->l,strings); if (e->op==8) return !l; auto r=mkb(e->r,strings); return e->op==6?l&&r:l||r; }
void t_discrete(PSrc& s, PCase& c) { std::vector<long> x; std::vector<std::string> w; Valuation<Integer> vi; Valuation<String> vs; std::ostringstream lg; for (int i=0;i<3;++i) { x.push_back(s.range(-9,9)); w.push_back(std::string(1,(char)('a'+s.draw(3)))); vi.insert(IntegerVariable(NAMES[i]),Integer(x[i])); vs.insert(StringVariable(NAMES[i]),String(w[i])); lg << NAMES[i] << "=" << x[i] << w[i] << " "; } IP e=gen_int(s,4); NOTE(c,lg.str()+ishow(e)); c.interesting(e->op>1); Integer r=evaluate(mki(e),vi); PBT_CHECK(r==Integer(ival(e,x)),"integer","integer expression gives " << r << " instead of " << ival(e,x));
    BP b=gen_bool(s,3,false); Boolean br=evaluate(mkb(b,false),vi); bool want=bval(b,x,w,false); PBT_CHECK(bool(br)==want,"boolean of integers","gives " << br); b=gen_bool(s,3,true); br=evaluate(mkb(b,true),vs); want=bval(b,x,w,true); PBT_CHECK(bool(br)==want,"boolean of strings","gives " << br); }
struct Init { Init() { pbt::set_rule("the expression has more than three nodes, the predicate has a logical connective, or the vector more than one element"); pbt::set_reset(reset_modes); } } init_;
pbt::Register r1("expression",4000,100000,t_expression,60), r2("order",6000,200000,t_order,60), r3("predicate",6000,200000,t_predicate,60), r4("vector_expression",3000,60000,t_vector,60), r5("discrete",6000,100000,t_discrete,60), r6("print",4000,100000,t_print,60);
}
