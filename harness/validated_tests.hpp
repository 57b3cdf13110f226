// Checks common to bounds and balls.
#ifndef VERIF_VALIDATED_TESTS_HPP
#define VERIF_VALIDATED_TESTS_HPP
#include "validated.hpp"
#include "numeric/dyadic.hpp"
#include "numeric/rational.hpp"
namespace oracle {
template<class V> struct OpOf {
    static V apply(int op, V const& x, V const& y) { switch (op) { case 0: return x+y; case 1: return x-y; case 2: return x*y; case 3: return x/y; case 4: return max(x,y); case 5: return min(x,y); case 6: return add(x,y); case 7: return sub(x,y); case 8: return mul(x,y); default: return div(x,y); } }
    static void inplace(int op, V& x, V const& y) { switch (op) { case 0: x+=y; break; case 1: x-=y; break; case 2: x*=y; break; default: x/=y; } }
};
inline const char* bin_names[]={"+","-","*","/","max","min","add","sub","mul","div"};
inline Q exact(int op, Q const& p, Q const& q) { switch (op) { case 0: case 6: return p+q; case 1: case 7: return p-q; case 2: case 8: return p*q; case 3: case 9: return p/q; case 4: return qmax(p,q); default: return qmin(p,q); } }
inline bool isdiv(int op) { return op==3||op==9; }
inline void hull(int op, Q const& a, Q const& b, Q const& c, Q const& d, Q& lo, Q& hi) { bool first=true; for (Q const& x : {a,b}) for (Q const& y : {c,d}) { Q v=exact(op,x,y); if (first||v<lo) lo=v; if (first||v>hi) hi=v; first=false; } }

template<class V> void t_binary(PSrc& s, PCase& c) {
    typedef VT<V> T; typedef typename T::Flt F; auto pr=FT<F>::gen_pr(s), pr2=s.chance(1,4)?FT<F>::gen_pr(s):pr; V x=gen_validated<V>(s,pr), y=s.chance(1,6)?x:gen_validated<V>(s,pr2); int op=(int)s.draw(10), m=(int)s.draw(3);
    Q p=gen_in(s,x), q=gen_in(s,y); NOTE(c,bin_names[op] << " x=" << T::str(x) << " y=" << T::str(y) << " at " << dec(p) << ", " << dec(q) << " mode " << dirname(m)); c.label(bin_names[op]); c.interesting(!same(T::lo(x),T::hi(x))||!same(T::lo(y),T::hi(y)));
    if (isdiv(op)&&q==0) { c.label("division by zero"); return; }
    set_both_modes(m); V r=OpOf<V>::apply(op,x,y); int after=FloatDP::get_rounding_mode(); set_both_modes(m); PBT_CHECK(after==(int)FloatDP::get_rounding_mode(),"rounding mode","the operation changed the rounding mode"); reset_modes();
    std::string n=std::string(bin_names[op]); check_in(n,r,exact(op,p,q));
    Q lo,hi; X yl=T::lo(y), yh=T::hi(y); bool zero=yl.q<=0&&yh.q>=0;
    if (!(isdiv(op)&&zero)) { c.label("tight"); hull(op,T::lo(x).q,T::hi(x).q,yl.q,yh.q,lo,hi); unsigned b=std::min(FT<F>::bits(x.precision()),FT<F>::bits(y.precision())); Q extra=0; if (T::centred&&op!=0&&op!=1&&op!=6&&op!=7) { if (op==4||op==5) extra=2*(T::hi(x).q-T::lo(x).q+yh.q-yl.q); else extra=4*(hi-lo); } if (T::centred) { extra+=(hi-lo)*two_exp(-45); if (op==4||op==5) extra+=8*two_exp(-(long)b)*(qmax(abs(T::lo(x).q),abs(T::hi(x).q))+qmax(abs(yl.q),abs(yh.q))); } check_tight(n,r,lo-extra,hi+extra,b,isdiv(op)?16:8,FT<F>::tiny(pr)*4); }
    // in place, and with an aliased operand
    if (op<4) { V z=x; set_both_modes(m); OpOf<V>::inplace(op,z,y); reset_modes(); check_in(n+"=",z,exact(op,p,q)); V w=x; set_both_modes(m); if (!(op==3&&p==0)) { OpOf<V>::inplace(op,w,w); reset_modes(); check_in(n+"= aliased",w,exact(op,p,p)); } reset_modes(); }
}

// with a plain number on either side
template<class V, class Y> void mixed(int op, V const& x, Q const& p, Y const& y, Q const& q, std::string const& tn) {
    auto one=[&](auto const& r, Q const& e, std::string const& n) { V t(r); check_in(n,t,e); };
    switch (op) {
        case 0: one(x+y,p+q,"x+"+tn); one(y+x,q+p,tn+"+x"); { V z=x; z+=y; check_in("x+="+tn,z,p+q); } break;
        case 1: one(x-y,p-q,"x-"+tn); one(y-x,q-p,tn+"-x"); { V z=x; z-=y; check_in("x-="+tn,z,p-q); } break;
        case 2: one(x*y,p*q,"x*"+tn); one(y*x,q*p,tn+"*x"); { V z=x; z*=y; check_in("x*="+tn,z,p*q); } break;
        default: if (q!=0) { one(x/y,p/q,"x/"+tn); { V z=x; z/=y; check_in("x/="+tn,z,p/q); } } if (p!=0) one(y/x,q/p,tn+"/x"); } }
// a builtin number that the precision cannot hold may be refused
template<class F, class FN> void exactly(Q const& q, typename F::PrecisionType pr, FN const& f) { if (xof(FT<F>::of(q,pr)).q==q) f(); else try { f(); } catch (std::runtime_error const&) { } }
template<class V> void t_mixed(PSrc& s, PCase& c) {
    typedef VT<V> T; typedef typename T::Flt F; auto pr=FT<F>::gen_pr(s); V x=gen_validated<V>(s,pr); Q p=gen_in(s,x); int op=(int)s.draw(4), k=(int)s.draw(8); c.interesting();
    auto note=[&](Q const& q, char const* t) { NOTE(c,"op " << bin_names[op] << " x=" << T::str(x) << " at " << dec(p) << ", y=" << dec(q) << " as " << t); c.label(t); };
    switch (k) {
        case 0: { F y=FT<F>::gen(s,pr,12); Q q=xof(y).q; note(q,"Float"); mixed(op,x,p,y,q,"Float"); if (op==0) { V r=V(max(x,y)); check_in("max(x,Float)",r,qmax(p,q)); V t=V(min(y,x)); check_in("min(Float,x)",t,qmin(p,q)); } break; }
        case 1: { int y=(int)s.range(-1000,1000); Q q(y); note(q,"int"); exactly<F>(q,pr,[&]{ mixed(op,x,p,y,q,"int"); }); break; }
        case 2: { unsigned y=(unsigned)s.range(0,1000); Q q(y); note(q,"unsigned"); exactly<F>(q,pr,[&]{ mixed(op,x,p,y,q,"unsigned"); }); break; }
        case 3: { Q q=gen_q(s,40); note(q,"Rational"); mixed(op,x,p,to_rational(q),q,"Rational"); break; }
        case 4: { Q q=gen_dyadic(s,20,20); note(q,"Dyadic"); mixed(op,x,p,to_dyadic(q),q,"Dyadic"); break; }
        case 5: { Q q(gen_z(s,20)); note(q,"Integer"); mixed(op,x,p,to_integer(q.get_num()),q,"Integer"); break; }
        case 6: { double d=gen_double(s,12); Q q=of_double(d); note(q,"ExactDouble"); exactly<F>(q,pr,[&]{ mixed(op,x,p,ExactDouble(d),q,"ExactDouble"); }); break; }
        default: { Q q=gen_q(s,40); note(q,"ValidatedNumber"); mixed(op,x,p,ValidatedNumber(to_rational(q)),q,"ValidatedNumber"); } } }

inline const char* un_names[]={"neg","sqr","rec","hlf","abs","pow","sqrt","exp","log","sin","cos","tan","asin","acos","atan","pos","nul"};
template<class V> V unary(int op, V const& x, int n) { switch (op) { case 0: return -x; case 1: return sqr(x); case 2: return rec(x); case 3: return hlf(x); case 4: return V(abs(x)); case 5: return n>=0&&n%3==0?pow(x,Nat(n)):pow(x,n); case 6: return sqrt(x); case 7: return exp(x); case 8: return log(x); case 9: return sin(x); case 10: return cos(x); case 11: return tan(x); case 12: return asin(x); case 13: return acos(x); case 14: return atan(x); case 15: return +x; default: return nul(x); } }
inline Iv unary_exact(int op, Q const& p, int n) { Iv v(p); switch (op) { case 0: return -v; case 1: return Iv(p*p); case 2: return rec(v); case 3: return Iv(p/2); case 4: return Iv(abs(p)); case 5: return pow(v,n); case 6: return sqrt(v); case 7: return exp(v); case 8: return log(v); case 9: return sin(v); case 10: return cos(v); case 11: return tan(v); case 12: return asin(v); case 13: return acos(v); case 14: return atan(v); case 15: return v; default: return Iv(0); } }
template<class F> F gen_arg(PSrc& s, typename F::PrecisionType pr, int op) {
    typedef FT<F> T;
    if (op>=9&&op<=11) switch (s.draw(5)) { case 0: { Q k=Q((long)s.range(-40,40))/4; Q pi=iv_pi().lower(); F v=T::of(k*pi,pr); for (int j=(int)s.draw(4);j>0;--j) v=s.boolean()?T::above(v):T::below(v); return v; } case 1: return T::of(gen_small_q(s,30),pr); case 2: return T::gen(s,pr,30); default: return T::of(Q((long)s.range(-4000,4000))/256,pr); }
    if (op==7) return T::of(Q((long)s.range(-40000,40000))/512,pr);
    if (op==12||op==13) switch (s.draw(3)) { case 0: return T::of(Q((long)s.range(-1024,1024))/1024,pr); case 1: { F v=T::of(Q(s.boolean()?1:-1),pr); if (s.boolean()) v= xof(v).q>0?T::below(v):T::above(v); return v; } default: return T::of(two_exp(-(long)s.range(1,60))*(s.boolean()?1:-1),pr); }
    if (op==8&&s.chance(1,3)) { F v=T::of(Q(1),pr); for (int j=(int)s.draw(6);j>0;--j) v=s.boolean()?T::above(v):T::below(v); return v; }
    return T::gen(s,pr,12); }
template<class V> void t_unary(PSrc& s, PCase& c) {
    typedef VT<V> T; typedef typename T::Flt F; auto pr=FT<F>::gen_pr(s); int op=(int)s.draw(17); int n=(int)s.range(-9,9); V x=gen_around<V>(s,gen_arg<F>(s,pr,op)); int m=(int)s.draw(3);
    // arguments outside the domain are not asked about
    if ((op==6&&T::lo(x).q<0)||(op==8&&T::lo(x).q<=0)) { x=V(abs(x)); if (op==8&&T::lo(x).q<=0) x=V(x+V(VT<V>::point(FT<F>::of(Q(1),pr)))); if (T::lo(x).q<0||(op==8&&T::lo(x).q<=0)) PBT_DISCARD("domain"); }
    if ((op==12||op==13)&&(T::lo(x).q<-1||T::hi(x).q>1)) PBT_DISCARD("domain");
    Q p=gen_in(s,x); bool cross=T::lo(x).q<=0&&T::hi(x).q>=0; NOTE(c,un_names[op] << (op==5?std::to_string(n):"") << " x=" << T::str(x) << " at " << dec(p) << " mode " << dirname(m)); c.label(un_names[op]); c.interesting(!same(T::lo(x),T::hi(x)));
    if ((op==2||(op==5&&n<0))&&p==0) { c.label("division by zero"); return; }
    set_both_modes(m); V r=unary<V>(op,x,n); int after=FloatDP::get_rounding_mode(); set_both_modes(m); PBT_CHECK(after==(int)FloatDP::get_rounding_mode(),"rounding mode","the operation changed the rounding mode"); reset_modes();
    check_in(un_names[op],r,unary_exact(op,p,n)); (void)cross;
    // the exponential and arc functions of a point are sharp
    if (op>=6&&op<=14&&same(T::lo(x),T::hi(x))&&op!=11) { Iv v=unary_exact(op,p,n); unsigned b=FT<F>::bits(pr); Q slack=FT<F>::tiny(pr); if (op>=9) slack+=two_exp(-(long)b+1)*(op<=11?qmax(Q(1),abs(p)):Q(1)); if (v.finite()&&abs(v.upper())<two_exp(1000)) check_tight(un_names[op],r,v.lower(),v.upper(),b,16,slack); }
}

// whole range of exponents, where results underflow and overflow
template<class V> void t_range(PSrc& s, PCase& c) {
    typedef VT<V> T; typedef typename T::Flt F; auto pr=FT<F>::gen_pr(s); auto g=[&]{ F a=FT<F>::gen_full(s,pr), b=s.boolean()?a:FT<F>::gen_full(s,pr); if (xof(a).q>xof(b).q) std::swap(a,b); return T::of(a,b); };
    V x=g(), y=g(); int op=(int)s.draw(6); Q p=gen_in(s,x), q=gen_in(s,y); NOTE(c,bin_names[op] << " x=" << T::str(x) << " y=" << T::str(y)); c.label(bin_names[op]); c.interesting(); if (op==3&&q==0) return;
    check_in(bin_names[op],OpOf<V>::apply(op,x,y),exact(op,p,q)); check_in("sqr",sqr(x),p*p); check_in("hlf",hlf(x),p/2); if (p!=0) check_in("rec",rec(x),1/p); check_in("abs",V(abs(x)),Q(abs(p))); if (abs(p)<two_exp(400)) { int n=(int)s.range(0,6); check_in("pow",pow(x,Nat(n)),qpow(p,(unsigned)n)); }
    if (T::lo(x).q>0) { check_in("sqrt",sqrt(x),sqrt(Iv(p))); check_in("log",log(x),log(Iv(p))); } check_in("atan",atan(x),atan(Iv(p)));
    if (abs(p)<two_exp(30)&&abs(T::lo(x).q)<two_exp(30)&&abs(T::hi(x).q)<two_exp(30)) { check_in("exp",exp(x),exp(Iv(p))); check_in("cos",cos(x),cos(Iv(p))); check_in("sin",sin(x),sin(Iv(p))); } }

// expressions of several operations
template<class V> void t_expression(PSrc& s, PCase& c) {
    typedef VT<V> T; typedef typename T::Flt F; auto pr=FT<F>::gen_pr(s); std::vector<V> r; std::vector<Iv> e; std::ostringstream d; int n=(int)s.range(1,3); for (int i=0;i<n;++i) { r.push_back(gen_around<V>(s,FT<F>::of(gen_small_q(s,4),pr))); Q p=gen_in(s,r.back()); e.push_back(Iv(p)); d << "x" << i << "=" << T::str(r.back()) << " at " << dec(p) << "; "; }
    int k=(int)s.range(1,7); for (int i=0;i<k;++i) { size_t a=s.index(r.size()), b=s.index(r.size()); int op=(int)s.draw(13); V const x=r[a], y=r[b]; Iv const u=e[a], w=e[b];
        auto big=[&](V const& z){ X l=T::lo(z),h=T::hi(z); return !l.finite()||!h.finite()||abs(l.q)>Q(1000000)||abs(h.q)>Q(1000000); }; if (big(x)||big(y)) break; d << "x" << r.size() << "=op" << op << "(x" << a << ",x" << b << "); ";
        switch (op) { case 0: r.push_back(x+y); e.push_back(u+w); break; case 1: r.push_back(x-y); e.push_back(u-w); break; case 2: r.push_back(x*y); e.push_back(u*w); break; case 3: if (w.has_zero()) { r.push_back(x); e.push_back(u); } else { r.push_back(x/y); e.push_back(u/w); } break; case 4: r.push_back(V(max(x,y))); e.push_back(max(u,w)); break; case 5: r.push_back(V(min(x,y))); e.push_back(min(u,w)); break; case 6: r.push_back(sqr(x)); e.push_back(sqr(u)); break; case 7: r.push_back(V(abs(x))); e.push_back(abs(u)); break;
            case 8: if (T::lo(x).q>=0) { r.push_back(sqrt(x)); e.push_back(sqrt(u)); } else { r.push_back(-x); e.push_back(-u); } break; case 9: if (T::hi(x).q<40) { r.push_back(exp(x)); e.push_back(exp(u)); } else { r.push_back(atan(x)); e.push_back(atan(u)); } break; case 10: r.push_back(sin(x)); e.push_back(sin(u)); break; case 11: r.push_back(cos(x)); e.push_back(cos(u)); break; default: { int m=(int)s.range(0,5); r.push_back(pow(x,m)); e.push_back(pow(u,m)); } }
        if (c.verbose) c.text.str(""); NOTE(c,d.str()); check_in("expression",r.back(),e.back()); } c.interesting(k>1); }

}
#endif
