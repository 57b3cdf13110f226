// Random expression graphs, their exact meaning, and builders for the library's representations of functions.
#ifndef VERIF_FUN_AST_HPP
#define VERIF_FUN_AST_HPP
#include "coef.hpp"
#include <memory>
namespace {
typedef std::vector<Q> Pt;
enum Op { CST, CRD, ADD, SUB, MUL, DIV, POW, NEG, SQR, HLF, POS, REC, SQRT, EXP, LOG, SIN, COS, TAN, ATAN, ABS, MAX, MIN };
inline char const* opname(int o) { static char const* n[]={"c","x","+","-","*","/","pow","neg","sqr","hlf","pos","rec","sqrt","exp","log","sin","cos","tan","atan","abs","max","min"}; return n[o]; }
struct Nd; typedef std::shared_ptr<Nd const> Ex;
struct Nd { int op; Q q; size_t i; int n; Ex a,b; bool mix; };
inline Ex mkc(Q q) { return std::make_shared<Nd const>(Nd{CST,q,0,0,nullptr,nullptr,false}); }
inline Ex mkx(size_t i) { return std::make_shared<Nd const>(Nd{CRD,Q(0),i,0,nullptr,nullptr,false}); }
inline std::string show(Ex const& e) { switch (e->op) { case CST: return e->q.get_str(); case CRD: return "x"+std::to_string(e->i); case ADD: case SUB: case MUL: case DIV: return "("+show(e->a)+opname(e->op)+show(e->b)+")"; case POW: return "pow("+show(e->a)+","+std::to_string(e->n)+")"; case MAX: case MIN: return std::string(opname(e->op))+"("+show(e->a)+","+show(e->b)+")"; default: return std::string(opname(e->op))+"("+show(e->a)+")"; } }
inline std::string show(Pt const& p) { std::string r="("; for (auto& q:p) r+=oracle::dec(q)+","; return r+")"; }
// level 0: polynomial; 1: and rational, 2: smooth; 3: and nonsmooth
inline Ex gen_ast(PSrc& s, size_t n, int depth, int level, std::vector<Ex>& pool) { Ex r; if (!pool.empty()&&s.chance(1,6)) return pool[s.draw(pool.size())]; if (depth<=0||s.chance(1,8)) { if (n==0||s.chance(1,4)) r=mkc(s.chance(1,6)?Q((long)s.range(-9,9),s.pick<long>({3,7,10})):Q((long)s.range(-8,8),(long)s.pick<long>({1,2,4}))); else r=mkx(s.draw(n)); if (r->op==CST) const_cast<Q&>(r->q).canonicalize(); return r; }
    int o; std::vector<int> ops={ADD,ADD,SUB,SUB,MUL,MUL,MUL,NEG,SQR,POW}; if (level>=1) for (int k:{DIV,DIV,REC,HLF,POS}) ops.push_back(k); if (level>=2) for (int k:{SQRT,EXP,LOG,SIN,COS,SIN,COS,TAN,ATAN}) ops.push_back(k); if (level>=3) for (int k:{ABS,MAX,MIN}) ops.push_back(k); o=ops[s.draw(ops.size())];
    Ex a=gen_ast(s,n,depth-1,level,pool); bool bin=o==ADD||o==SUB||o==MUL||o==DIV||o==MAX||o==MIN; Ex b=bin?gen_ast(s,n,depth-1,level,pool):nullptr; int k=o==POW?(int)s.range(level>=1&&s.chance(1,4)?-2:0,4):0; 
    // keep partial functions defined, usually
    if (s.chance(9,10)) { auto pos=[&](Ex e){ return std::make_shared<Nd const>(Nd{ADD,Q(0),0,0,mkc(Q(1)),std::make_shared<Nd const>(Nd{SQR,Q(0),0,0,e,nullptr,false}),true}); }; if (o==SQRT||o==LOG||o==REC) { if (!(a->op==CST&&a->q>0)) a=pos(a); } if (o==DIV&&!(b->op==CST&&b->q!=0)) b=pos(b); if (o==EXP) a=std::make_shared<Nd const>(Nd{SIN,Q(0),0,0,a,nullptr,false}); if (o==POW&&k<0) a=pos(a); if (o==TAN) a=std::make_shared<Nd const>(Nd{HLF,Q(0),0,0,std::make_shared<Nd const>(Nd{SIN,Q(0),0,0,a,nullptr,false}),nullptr,false}); }
    r=std::make_shared<Nd const>(Nd{o,Q(0),0,k,a,b,s.boolean()}); if (s.chance(1,3)) pool.push_back(r); return r; }
inline Iv un_iv(int o, Iv const& a) { switch (o) { case NEG: return -a; case SQR: return a*a; case HLF: return a*Iv(Q(1,2)); case POS: return a; case REC: return Iv(1)/a; case SQRT: return sqrt(a); case EXP: return exp(a); case LOG: return log(a); case SIN: return sin(a); case COS: return cos(a); case TAN: return tan(a); case ATAN: return atan(a); default: return abs(a); } }
inline Iv ipow(Iv a, int n) { Iv r(1); for (int i=0;i<std::abs(n);++i) r=r*a; return n<0?Iv(1)/r:r; }
// tame: all intermediate values are moderate and far from singularities
inline Iv value(Ex const& e, std::vector<Iv> const& x, bool& defined, bool& tame) { Iv r(0); switch (e->op) { case CST: r=Iv(e->q); break; case CRD: r=x[e->i]; break; default: { Iv a=value(e->a,x,defined,tame); if (!defined) return r; Iv b=e->b?value(e->b,x,defined,tame):Iv(0); if (!defined) return r; auto near0=[&](Iv const& v){ if (v.lower()<=0&&v.upper()>=0) { defined=false; return; } if (v.lower()<Q(1,8)&&v.upper()>Q(-1,8)) tame=false; }; auto posv=[&](Iv const& v){ if (v.lower()<=0) { defined=false; return; } if (v.lower()<Q(1,8)) tame=false; };
        if (e->op==DIV) near0(b); if (e->op==REC||(e->op==POW&&e->n<0)) near0(a); if (e->op==SQRT||e->op==LOG) posv(a); if (e->op==EXP&&(a.lower()<-200||a.upper()>200)) defined=false; if (e->op==TAN) { if (a.lower()<Q(-3,2)||a.upper()>Q(3,2)) defined=false; if (a.lower()<-1||a.upper()>1) tame=false; } if ((e->op==SIN||e->op==COS)&&(a.lower()<-1000||a.upper()>1000)) tame=false; if (!defined) return r;
        switch (e->op) { case ADD: r=a+b; break; case SUB: r=a-b; break; case MUL: r=a*b; break; case DIV: r=a/b; break; case MAX: r=max(a,b); break; case MIN: r=min(a,b); break; case POW: r=ipow(a,e->n); break; default: r=un_iv(e->op,a); } } } if (!r.finite()) { defined=false; return r; } if (r.lower()<-1000||r.upper()>1000) tame=false; if (abs(r.lower())>two_exp(300)||abs(r.upper())>two_exp(300)) defined=false; return r; }
inline std::vector<Iv> ivs(Pt const& p) { std::vector<Iv> r; for (auto& q:p) r.push_back(Iv(q)); return r; }
inline Ser pconst_(size_t n,int d,Q q) { return sconst(n,d,Iv(q)); }
inline Ser series(Ex const& e, std::vector<Ser> const& x) { size_t n=x[0].n; int d=x[0].d; switch (e->op) { case CST: return sconst(n,d,Iv(e->q)); case CRD: return x[e->i]; default: { Ser a=series(e->a,x); switch (e->op) { case ADD: return a+series(e->b,x); case SUB: return a-series(e->b,x); case MUL: return a*series(e->b,x); case DIV: { Ser b=series(e->b,x); return a*scompose(taylor("rec",b.value(),d),b); } case POW: { Ser r=sconst(n,d,Iv(1)); for (int i=0;i<std::abs(e->n);++i) r=r*a; return e->n<0?scompose(taylor("rec",r.value(),d),r):r; } default: return scompose(taylor(opname(e->op),a.value(),d),a); } } } }
inline bool smooth(Ex const& e) { if (e->op==ABS||e->op==MAX||e->op==MIN) return false; return (!e->a||smooth(e->a))&&(!e->b||smooth(e->b)); }
inline size_t nodes(Ex const& e) { return 1+(e->a?nodes(e->a):0)+(e->b?nodes(e->b):0); }
inline bool uses(Ex const& e, size_t i) { if (e->op==CRD) return e->i==i; return (e->a&&uses(e->a,i))||(e->b&&uses(e->b,i)); }
template<class T> T un_app(int o, T const& a) { switch (o) { case NEG: return T(-a); case SQR: return T(sqr(a)); case HLF: return T(hlf(a)); case POS: return T(+a); case REC: return T(rec(a)); case SQRT: return T(sqrt(a)); case EXP: return T(exp(a)); case LOG: return T(log(a)); case SIN: return T(sin(a)); case COS: return T(cos(a)); case TAN: return T(tan(a)); case ATAN: return T(atan(a)); default: return T(abs(a)); } }
// build the graph; k(q) makes a constant of type T, nm(q) a number to be combined directly with a T
template<class T, class K, class NM> T build(Ex const& e, std::vector<T> const& x, K k, NM nm, std::map<Nd const*,T>& memo) { auto it=memo.find(e.get()); if (it!=memo.end()) return it->second; auto mk_=[&]()->T { switch (e->op) { case CST: return k(e->q); case CRD: return x[e->i]; default: {
        bool ca=e->a->op==CST&&e->mix, cb=e->b&&e->b->op==CST&&e->mix; if (e->op>=ADD&&e->op<=DIV&&(ca||cb)) { if (cb) { T a=build(e->a,x,k,nm,memo); auto c=nm(e->b->q); switch (e->op) { case ADD: return T(a+c); case SUB: return T(a-c); case MUL: return T(a*c); default: return T(a/c); } } T b=build(e->b,x,k,nm,memo); auto c=nm(e->a->q); switch (e->op) { case ADD: return T(c+b); case SUB: return T(c-b); case MUL: return T(c*b); default: return T(c/b); } }
        T a=build(e->a,x,k,nm,memo); switch (e->op) { case ADD: return T(a+build(e->b,x,k,nm,memo)); case SUB: return T(a-build(e->b,x,k,nm,memo)); case MUL: return T(a*build(e->b,x,k,nm,memo)); case DIV: return T(a/build(e->b,x,k,nm,memo)); case MAX: return T(max(a,build(e->b,x,k,nm,memo))); case MIN: return T(min(a,build(e->b,x,k,nm,memo))); case POW: return T(pow(a,e->n)); default: return un_app<T>(e->op,a); } } } }; T r=mk_(); memo.insert({e.get(),r}); return r; }
template<class T, class K, class NM> T build(Ex const& e, std::vector<T> const& x, K k, NM nm) { std::map<Nd const*,T> memo; return build<T,K,NM>(e,x,k,nm,memo); }
inline Pt gen_point(PSrc& s, size_t n) { Pt p; for (size_t i=0;i<n;++i) p.push_back(s.chance(1,5)?Q((long)s.range(-2,2)):Q((long)s.range(-128,128))/64); return p; }
template<class F> Vector<typename TP<F>::B> bvec(Pt const& p, typename F::PrecisionType pr) { typedef typename TP<F>::B B; Vector<B> r(p.size(),B(0,pr)); for (size_t i=0;i<p.size();++i) { F f=FT<F>::of(p[i],pr); r[i]=B(f,f); } return r; }
template<class F> Vector<typename TP<F>::A> avec(Pt const& p, typename F::PrecisionType pr) { typedef typename TP<F>::A A; Vector<A> r(p.size(),A(0,pr)); for (size_t i=0;i<p.size();++i) r[i]=A(FT<F>::of(p[i],pr)); return r; }
// a validated value must contain v; a nan bound tells nothing but is not allowed when the computation is tame
template<class B> void chk(std::string const& k, B const& b, Iv const& v, bool tame) { X l=xof(b.lower_raw()), u=xof(b.upper_raw()); if (l.is_nan()||u.is_nan()||!l.finite()||!u.finite()) { PBT_CHECK(!tame,k+" no value",k << " gives [" << oracle::show(l) << ":" << oracle::show(u) << "] instead of " << oracle::show(v)); if (!l.is_nan()&&l.kind!=0&&l.finite()==false&&u.finite()) PBT_CHECK(!surely_greater(v,u),k,k << " gives at most " << oracle::show(u) << " instead of " << oracle::show(v)); return; }
    PBT_CHECK(!surely_less(v,l)&&!surely_greater(v,u),k,k << " gives [" << oracle::show(l) << ":" << oracle::show(u) << "] instead of " << oracle::show(v)); if (tame&&v.upper()-v.lower()<two_exp(-60)) PBT_CHECK(u.q-l.q<=Q(1,1000)*(1+abs(v.upper())),k+" wide",k << " gives [" << oracle::show(l) << ":" << oracle::show(u) << "], far too wide for " << oracle::show(v)); }
template<class A> void chka(std::string const& k, A const& a, Iv const& v, bool tame, Q tol=Q(1,1000)) { if (!tame) return; X x=xof(a.raw()); PBT_CHECK(x.finite()&&!surely_less(v,X(x.q-tol*(1+abs(x.q))))&&!surely_greater(v,X(x.q+tol*(1+abs(x.q)))),k,k << " gives about " << oracle::show(x) << " instead of " << oracle::show(v)); }
inline Ex dsub(Ex const& e, std::vector<Ex> const& by) { if (e->op==CST) return e; if (e->op==CRD) return by[e->i]; return std::make_shared<Nd const>(Nd{e->op,e->q,e->i,e->n,dsub(e->a,by),e->b?dsub(e->b,by):nullptr,e->mix}); }
inline std::vector<Ser> svars(Pt const& p, int d) { std::vector<Ser> x; for (size_t i=0;i<p.size();++i) x.push_back(svar(p.size(),d,Iv(p[i]),i)); return x; }
inline long fact(MI const& a) { long r=1; for (int k:a) for (int i=2;i<=k;++i) r*=i; return r; }
struct Val { Iv v; bool d,t; };
inline Val val(Ex const& e, Pt const& p) { Val r{Iv(0),true,true}; r.v=value(e,ivs(p),r.d,r.t); return r; }
struct Fu { Ex e; size_t n; int level; };
// An expression with a constant subexpression outside the domain of its operator has no values anywhere
inline bool cbad(Ex const& e) { if (e->op==DIV) { bool k=true; for (size_t i=0;i<8;++i) if (uses(e->b,i)) k=false; if (k) { Val v=val(e->b,Pt(8,Q(0))); if (!v.d||!(surely_less(v.v,X(0.0))||surely_greater(v.v,X(0.0)))) return true; } } for (size_t i=0;i<8;++i) if (uses(e,i)) return (e->a&&cbad(e->a))||(e->b&&cbad(e->b)); return !val(e,Pt(8,Q(0))).d; }
inline Fu gen_fun(PSrc& s, std::ostream& os, size_t n, int level, int depth=4) { std::vector<Ex> pool; Ex e=gen_ast(s,n,depth,level,pool); os << show(e); if (cbad(e)) PBT_DISCARD(); return {e,n,level}; }
inline bool sing(Ex const& e) { if (e->op==TAN||e->op==SQRT||e->op==LOG||e->op==REC||e->op==DIV||(e->op==POW&&e->n<0)) return true; return (e->a&&sing(e->a))||(e->b&&sing(e->b)); }
inline bool dyc(Ex const& e) { if (e->op==DIV||e->op==REC) return false; if (e->op==CST) { mpz_class d=e->q.get_den(); return mpz_popcount(d.get_mpz_t())==1; } return (!e->a||dyc(e->a))&&(!e->b||dyc(e->b)); }
inline MI unit_mi(size_t n, size_t j) { MI b(n,0); b[j]=1; return b; }
inline bool eq2(Iv const& a, Iv const& b) { return !(a.upper()<b.lower())&&!(b.upper()<a.lower()); }
}
#endif
