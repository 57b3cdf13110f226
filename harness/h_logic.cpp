// C09: logical types.  Oracle: classical truth of the atoms and the strong Kleene tables.
#include "validated.hpp"
#include "numeric/logical.hpp"
#include "numeric/sequence.hpp"
#include "numeric/real.hpp"
#include "utility/array.hpp"
using namespace oracle;
namespace {
typedef LogicalValue LV;
int num(LV v) { return (int)static_cast<ComparableEnumerationType>(v); }
LV lv(int n) { return static_cast<LV>(static_cast<ComparableEnumerationType>(n)); }
int m_and(int a,int b) { return std::min(a,b); } int m_or(int a,int b) { return std::max(a,b); } int m_eq(int a,int b) { int s=(a>0?1:a<0?-1:0)*(b>0?1:b<0?-1:0); return s*std::min(std::abs(a),std::abs(b)); }
int lower(int a) { return std::max(a,-1); } int upper(int a) { return std::min(a,1); }
template<class L> int val(L const& l) { return num(static_cast<LV const&>(l)); }
template<class L> void same_(char const* n, L const& r, int m) { PBT_CHECK(val(r)==m,n,n << " gives " << r << ", expected " << lv(m)); PBT_CHECK(definitely(r)==(m==2),n,n << ": definitely"); PBT_CHECK(possibly(r)==(m!=-2),n,n << ": possibly"); PBT_CHECK(decide(r)==(m>=1),n,n << ": decide"); PBT_CHECK(probably(r)==(m>=1),n,n << ": probably"); PBT_CHECK(is_determinate(r)==(m==2||m==-2),n,n << ": is_determinate"); PBT_CHECK(is_indeterminate(r)==!(m==2||m==-2),n,n << ": is_indeterminate"); }
void t_tables(PSrc& s, PCase& c) { int a=(int)s.range(-2,2), b=(int)s.range(-2,2); bool p=s.boolean(), q=s.boolean(); NOTE(c,"a=" << lv(a) << " b=" << lv(b) << " p=" << p << " q=" << q); c.interesting();
    { typedef ValidatedKleenean K; K x(lv(a)), y(lv(b)); same_("Kleenean",x,a); same_("not",!x,-a); same_("and",x&&y,m_and(a,b)); same_("or",x||y,m_or(a,b)); same_("xor",x^y,-m_eq(a,b)); same_("==",x==y,m_eq(a,b)); same_("!=",x!=y,-m_eq(a,b)); same_("bool",K(p),p?2:-2); same_("and bool",x&&K(p),m_and(a,p?2:-2)); }
    { typedef ValidatedLowerKleenean L; typedef ValidatedUpperKleenean U; L x{ValidatedKleenean(lv(a))}, y{lv(b)}; U u{ValidatedKleenean(lv(a))}, v{lv(b)}; int la=lower(a),lb=lower(b),ua=upper(a),ub=upper(b); same_("lower",x,la); same_("upper",u,ua); same_("lower and",x&&y,m_and(la,lb)); same_("lower or",x||y,m_or(la,lb)); same_("upper and",u&&v,m_and(ua,ub)); same_("upper or",u||v,m_or(ua,ub)); same_("not lower",!x,upper(-la)); same_("not upper",!u,lower(-ua)); same_("lower bool",L(p),p?2:-1); same_("upper bool",U(p),p?1:-2);
      PBT_CHECK(!definitely(U(true)),"upper","an upper Kleenean is definitely true"); PBT_CHECK(possibly(L(false)),"lower","a lower Kleenean is definitely false"); }
    { typedef ApproximateKleenean A; A x{ValidatedKleenean(lv(a))}, y{lv(b)}; int xa=lower(upper(a)), xb=lower(upper(b)); same_("approximate",x,xa); same_("approximate and",x&&y,m_and(xa,xb)); same_("approximate or",x||y,m_or(xa,xb)); same_("approximate not",!x,-xa); }
    { typedef ValidatedSierpinskian S; typedef ValidatedNegatedSierpinskian N; S x(lv(a)), y(lv(b)); N u(lv(a)), v(lv(b)); same_("sierpinskian",x,lower(a)); same_("negated sierpinskian",u,upper(a)); same_("sierpinskian and",x&&y,m_and(lower(a),lower(b))); same_("negated or",u||v,m_or(upper(a),upper(b))); same_("not sierpinskian",!x,upper(-lower(a))); same_("not negated",!u,lower(-upper(a))); same_("sierpinskian bool",S(p),p?2:-1); same_("negated bool",N(p),p?1:-2); }
    { Boolean x(p), y(q); PBT_CHECK(bool(x&&y)==(p&&q)&&bool(x||y)==(p||q)&&bool(!x)==!p&&bool(x^y)==(p!=q)&&bool(x==y)==(p==q)&&bool(x!=y)==(p!=q),"Boolean","Boolean connectives differ from bool"); PBT_CHECK(bool(x&&q)==(p&&q)&&bool(p||y)==(p||q),"Boolean","mixed Boolean connectives"); }
    { Kleenean x{lv(a)}, y{lv(b)}; Effort e((Nat)s.draw(5)); same_("effective",x.check(e),a); same_("effective not",(!x).check(e),-a); same_("effective and",(x&&y).check(e),m_and(a,b)); same_("effective or",(x||y).check(e),m_or(a,b)); same_("effective xor",(x^y).check(e),-m_eq(a,b)); same_("effective ==",(x==y).check(e),m_eq(a,b)); same_("effective !=",(x!=y).check(e),-m_eq(a,b)); same_("check",check(x,e),a); PBT_CHECK(definitely(x,e)==(a==2)&&possibly(x,e)==(a!=-2)&&decide(x,e)==(a>=1)&&probably(x,e)==(a>=1),"effective definitely","definitely/possibly/decide with effort"); PBT_CHECK(definitely(x)==(a==2)&&possibly(x)==(a!=-2)&&decide(x)==(a>=1),"effective definitely","definitely/possibly/decide");
      same_("Lower check",LowerKleenean(x).check(e),lower(a)); same_("Upper check",UpperKleenean(x).check(e),upper(a)); same_("Naive check",NaiveKleenean(x).check(e),lower(upper(a))); same_("Sierpinskian check",Sierpinskian(lv(a)).check(e),lower(a)); same_("NegatedSierpinskian check",NegatedSierpinskian(lv(a)).check(e),upper(a)); same_("Kleenean(Sierpinskian)",Kleenean(Sierpinskian(lv(a))).check(e),a); }
    same_("indeterminate",ValidatedKleenean(indeterminate),0); PBT_CHECK(!decide(indeterminate),"indeterminate","decide(indeterminate) is true"); }

// truth: of the atom; robust: 1 true, -1 false, 0 undecidable
struct Atom { bool truth; int robust; };
Rational gq(PSrc& s, Q& q) { q=gen_small_q(s,3); if (s.chance(1,3)) q+=Q((long)s.range(-1,1))*two_exp(-(long)s.range(1,100)); q.canonicalize(); return to_rational(q); }
template<class T> struct Node { T k; bool truth; int robust; std::string str; };
Real greal(PSrc& s, Q& q) { Rational r=gq(s,q); switch (s.draw(3)) { case 0: return Real(r); case 1: return Real(r)+Real(Rational(1,3))-Real(Rational(1,3)); default: return sqr(sqrt(Real(r)+Real(10)))-Real(10); } }
Node<Kleenean> atom(PSrc& s) { switch (s.weighted({1,1,1,6})) { case 0: return {Kleenean(true),true,1,"T"}; case 1: return {Kleenean(false),false,-1,"F"}; case 2: { bool t=s.boolean(); return {Kleenean(indeterminate),t,0,t?"?t":"?f"}; }
    default: { Q a,b; Real x=greal(s,a); Real y=s.chance(1,4)?(b=a,Real(to_rational(a))):greal(s,b); int o=(int)s.draw(4); std::string d="("+show(a)+(o==0?"<":o==1?"<=":o==2?">":">=")+show(b)+")"; int r=a<b?1:a>b?-1:0; if (o>=2) r=-r; bool t=o==0?a<b:o==1?a<=b:o==2?a>b:a>=b; return {o==0?x<y:o==1?x<=y:o==2?x>y:x>=y,t,r,d}; } } }
Node<Kleenean> tree(PSrc& s, int d) { if (d==0||s.chance(1,5)) return atom(s); int op=(int)s.draw(5); auto x=tree(s,d-1); if (op==0) return {!x.k,!x.truth,-x.robust,"!"+x.str}; auto y=tree(s,d-1); switch (op) { case 1: return {x.k&&y.k,x.truth&&y.truth,m_and(x.robust,y.robust),"("+x.str+"&"+y.str+")"}; case 2: return {x.k||y.k,x.truth||y.truth,m_or(x.robust,y.robust),"("+x.str+"|"+y.str+")"}; case 3: return {x.k==y.k,x.truth==y.truth,m_eq(x.robust,y.robust),"("+x.str+"=="+y.str+")"}; default: return {x.k^y.k,x.truth!=y.truth,-m_eq(x.robust,y.robust),"("+x.str+"^"+y.str+")"}; } }
void t_expr(PSrc& s, PCase& c) { auto x=tree(s,(int)s.range(1,4)); NOTE(c,x.str << " is " << x.truth << " robustly " << x.robust); c.interesting(x.str.size()>12); int before=0; for (Nat e : {0u,1u,2u,5u,14u}) { ValidatedKleenean v=x.k.check(Effort(e)); if (definitely(v)) PBT_CHECK(x.truth,"sound","checked with effort " << e << " a false statement is definitely true"); if (!possibly(v)) PBT_CHECK(!x.truth,"sound","checked with effort " << e << " a true statement is definitely false"); int now=definitely(v)?1:!possibly(v)?-1:0; if (before!=0) PBT_CHECK(now==before,"monotone","with effort " << e << " the answer " << before << " became " << now); before=now; PBT_CHECK(val(v)==val(x.k.check(Effort(e))),"repeatable","a second check gives another answer"); }
    if (x.robust!=0) PBT_CHECK(before==x.robust,"complete","the statement is robustly " << (x.robust>0?"true":"false") << " but is not decided with effort 14"); if (before!=0) c.label(before>0?"true":"false"); else c.label("undecided"); }
// lower and upper Kleeneans
Node<UpperKleenean> utree(PSrc&, int);
Node<LowerKleenean> ltree(PSrc& s, int d) { if (d==0||s.chance(1,5)) { auto x=atom(s); return {LowerKleenean(x.k),x.truth,x.robust>0?1:0,x.str}; } int op=(int)s.draw(3); if (op==0) { auto x=utree(s,d-1); return {!x.k,!x.truth,-x.robust,"!"+x.str}; } auto x=ltree(s,d-1), y=ltree(s,d-1); if (op==1) return {x.k&&y.k,x.truth&&y.truth,m_and(x.robust,y.robust),"("+x.str+"&"+y.str+")"}; return {x.k||y.k,x.truth||y.truth,m_or(x.robust,y.robust),"("+x.str+"|"+y.str+")"}; }
Node<UpperKleenean> utree(PSrc& s, int d) { if (d==0||s.chance(1,5)) { auto x=atom(s); return {UpperKleenean(x.k),x.truth,x.robust<0?-1:0,x.str}; } int op=(int)s.draw(3); if (op==0) { auto x=ltree(s,d-1); return {!x.k,!x.truth,-x.robust,"!"+x.str}; } auto x=utree(s,d-1), y=utree(s,d-1); if (op==1) return {x.k&&y.k,x.truth&&y.truth,m_and(x.robust,y.robust),"("+x.str+"&"+y.str+")"}; return {x.k||y.k,x.truth||y.truth,m_or(x.robust,y.robust),"("+x.str+"|"+y.str+")"}; }
void t_onesided(PSrc& s, PCase& c) { auto x=ltree(s,(int)s.range(1,4)); auto y=utree(s,(int)s.range(1,4)); NOTE(c,"lower " << x.str << "  upper " << y.str); c.interesting(x.str.size()>8); for (Nat e : {0u,1u,3u,14u}) { auto v=x.k.check(Effort(e)); auto w=y.k.check(Effort(e)); if (definitely(v)) PBT_CHECK(x.truth,"sound","a false statement is definitely true"); PBT_CHECK(possibly(v),"lower","a lower Kleenean is definitely false"); if (!possibly(w)) PBT_CHECK(!y.truth,"sound","a true statement is definitely false"); PBT_CHECK(!definitely(w),"upper","an upper Kleenean is definitely true"); if (e==14) { PBT_CHECK(x.robust<=0||definitely(v),"complete","a robustly true statement is not confirmed"); PBT_CHECK(y.robust>=0||!possibly(w),"complete","a robustly false statement is not refuted"); } } }
void t_sequence(PSrc& s, PCase& c) { long j=(long)s.range(-1,12); unsigned e=(unsigned)s.range(0,16); NOTE(c,"index " << j << " effort " << e); c.interesting(j>=0);
    auto idx=[](Natural const& n){ return n.get_si(); };
    Sequence<LowerKleenean> ls([=](Natural n){ return idx(n)==j?LowerKleenean(true):idx(n)%2?LowerKleenean(false):LowerKleenean(indeterminate); }); Sequence<UpperKleenean> us([=](Natural n){ return idx(n)==j?UpperKleenean(false):idx(n)%2?UpperKleenean(true):UpperKleenean(indeterminate); });
    bool found=j>=0&&j<(long)e; auto d=disjunction(ls).check(Effort(e)); auto k=conjunction(us).check(Effort(e)); PBT_CHECK(definitely(d)==found,"disjunction","disjunction of a sequence with the true entry " << j << " checked with effort " << e << " is " << d); PBT_CHECK((!possibly(k))==found,"conjunction","conjunction of a sequence with the false entry " << j << " checked with effort " << e << " is " << k); PBT_CHECK(possibly(d)&&!definitely(k),"sequence","impossible answer"); }
void t_choose(PSrc& s, PCase& c) { size_t n=1+s.draw(5); Array<LowerKleenean> p(n,LowerKleenean(false)); std::vector<bool> truth(n); std::string d; bool any=false; for (size_t i=0;i<n;++i) { auto x=ltree(s,1); if (i+1==n&&!any&&x.robust<=0) x={LowerKleenean(Real(1)<Real(2)),true,1,"1<2"}; p[i]=x.k; truth[i]=x.truth; any=any||x.robust>0; d+=x.str+" "; } NOTE(c,d); c.interesting(n>1);
    auto i=nondeterministic_choose_index(p); PBT_CHECK(i<n&&truth[i],"choose","the chosen statement " << i << " is false"); if (n>=2) { bool safe=false; for (size_t k=0;k<2;++k) { Array<LowerKleenean> one(1,p[k]); if (definitely(p[k].check(Effort(14)))) safe=true; } if (safe) { bool r=choose(p[0],p[1]); PBT_CHECK(truth[r?0:1],"choose","choose returned the false alternative"); } } }
pbt::Register r1("tables",20000,200000,t_tables,30), r2("expressions",200000,3e6,t_expr,60), r3("onesided",100000,2e6,t_onesided,60), r4("sequence",5000,50000,t_sequence,30), r5("choose",20000,400000,t_choose,60);
struct Init { Init() { pbt::set_rule("an expression with at least one connective or comparison of reals"); pbt::set_reset(reset_modes); } } init;
}
