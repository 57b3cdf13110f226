// C10: effective real numbers.  Oracle: the same expression in 420-bit outward-rounded MPFR intervals.
#include "validated.hpp"
#include "numeric/real.hpp"
#include "numeric/lower_real.hpp"
#include "numeric/upper_real.hpp"
#include "numeric/validated_real.hpp"
#include "numeric/sequence.hpp"
#include "numeric/accuracy.hpp"
using namespace oracle;
namespace {
struct RV { Real r; Iv v; std::string str; bool exact; bool slow; };
Iv hullq(Q const& a, Q const& b) { return Iv(a,b); }
Q width(Iv const& v) { return v.upper()-v.lower(); }
// small constants of every kind
RV leaf(PSrc& s) { Q q=gen_small_q(s,4); switch (s.weighted({3,2,2,3,2,1,1,1,1,2})) {
    case 0: { long n=(long)s.range(-9,9); return {Real((int)n),Iv(Q(n)),std::to_string(n),true,false}; }
    case 1: { Q w=gen_dyadic(s,40,30); if (abs(w)>100) w=Q((long)s.range(-5,5))/8; return {Real(to_dyadic(w)),Iv(w),"Dyadic "+show(w),true,false}; }
    case 2: { long n=(long)s.range(-999,999); unsigned k=(unsigned)s.draw(4); Q p(1); for (unsigned i=0;i<k;++i) p*=10; Q d=Q(n)/p; return {Real(Decimal(Integer((int)n),k)),Iv(d),"Decimal "+show(d),true,false}; }
    case 3: return {Real(to_rational(q)),Iv(q),"Rational "+show(q),true,false};
    case 4: { double d=gen_double(s,4); return {Real(ExactDouble(d)),Iv(of_double(d)),"double "+dec(of_double(d)),true,false}; }
    case 5: return {Real(Ariadne::pi),iv_pi(),"pi",false,false};
    case 6: { // a rational as limit of its truncations
        std::function<Dyadic(Natural)> f=[q](Natural n) { long k=n.get_si(); Z z=qfloor(q*two_exp(k)); return to_dyadic(Q(z)*two_exp(-k)); }; return {Real(FastCauchySequence<Dyadic>(f)),Iv(q),"limit of dyadics "+show(q),false,true}; }
    case 7: { long off=(long)s.draw(3); std::function<DyadicBounds(Natural)> f=[q,off](Natural n) { long k=n.get_si(); Z z=qfloor(q*two_exp(k)); return DyadicBounds(to_dyadic(Q(z)*two_exp(-k)),to_dyadic((Q(z)+Q(1+off))*two_exp(-k))); }; return {Real(ConvergentSequence<DyadicBounds>(f)),Iv(q),"limit of bounds "+show(q),false,true}; }
    case 8: { Real base=sqrt(Real(to_rational(abs(q)+1))); std::function<Real(Natural)> f=[base](Natural n) { long k=n.get_si(); return base+Real(to_dyadic(two_exp(-k-1))); }; return {limit(FastCauchySequence<Real>(f)),sqrt(Iv(abs(q)+1)),"limit of reals sqrt "+show(Q(abs(q)+1)),false,true}; }
    default: { Rational a=to_rational(q); Q t=gen_small_q(s,3); Real x(to_rational(t)); // max(t,q) by cases
        if (s.boolean()) { // two lines meeting at a dyadic a which is hard to tell apart from x
            Q b=abs(q)+1; int k=(int)s.pick<int>({1,3,8,15,30,50,52,53,60}); int kd=(int)s.draw(2); Real y=kd==0?sqrt(Real(to_rational(b))):kd==1?Real(to_rational(q)):Real(Ariadne::pi)*Real(to_rational(b)); Iv v=kd==0?sqrt(Iv(b)):kd==1?Iv(q):iv_pi()*Iv(b); Q e=Q(qfloor(v.lower()*two_exp(k))+(long)s.range(0,1))*two_exp(-k);
            long m1=(long)s.range(-9,9), m2=(long)s.range(-9,9); Real ra(to_dyadic(e)); Iv dv=v-Iv(e); Iv lv=Iv(Q(m1))*dv, rv=Iv(Q(m2))*dv; Iv val=v.upper()<e?lv:v.lower()>e?rv:Iv(qmin(lv.lower(),rv.lower()),qmax(lv.upper(),rv.upper()));
            Real t1=m1==0?Real(0):Real((int)m1)*(y-ra), t2=m2==0?Real(0):Real((int)m2)*(y-ra);
            return {when(Case<UpperKleenean,Real>{UpperKleenean(y<=ra),t1},Case<UpperKleenean,Real>{UpperKleenean(y>=ra),t2}),val,"when x<="+show(e)+" slopes "+std::to_string(m1)+" "+std::to_string(m2)+" x="+show(v),false,true}; }
        return {when(Case<UpperKleenean,Real>{UpperKleenean(x<=Real(a)),Real(a)},Case<UpperKleenean,Real>{UpperKleenean(x>=Real(a)),x}),Iv(qmax(q,t)),"when "+show(q)+" "+show(t),false,true}; } } }
char const* names[]={"add","sub","mul","div","max","min","neg","hlf","sqr","rec","pow","sqrt","exp","log","sin","cos","tan","asin","acos","atan","abs","pos","dist","nul","fma"};
bool inrange(Iv const& v, Q const& lo, Q const& hi) { return v.finite()&&v.lower()>=lo&&v.upper()<=hi; }
RV build(PSrc& s, std::string* d, int kmax) {
    std::vector<RV> p; int n=(int)s.range(1,3); for (int i=0;i<n;++i) { p.push_back(leaf(s)); *d+="x"+std::to_string(i)+"="+p.back().str+"; "; }
    int k=(int)s.range(0,kmax); for (int i=0;i<k;++i) { RV const a=p[s.index(p.size())], b=p[s.index(p.size())]; int op=(int)s.draw(24), m=(int)s.range(-4,6); Real const& x=a.r; Real const& y=b.r; Iv const& u=a.v; Iv const& w=b.v;
        if (!inrange(u,Q(-1000000),Q(1000000))||!inrange(w,Q(-1000000),Q(1000000))) break; bool slow=a.slow||(b.slow&&op<6); auto put=[&](Real r, Iv v, std::string e) { p.push_back({r,v,e,false,slow}); *d+="x"+std::to_string(p.size()-1)+"="+e+"("+a.str+","+b.str+"); "; p.back().str="x"+std::to_string(p.size()-1); };
        switch (op) { case 0: put(s.boolean()?x+y:add(x,y),u+w,"add"); break; case 1: put(s.boolean()?x-y:sub(x,y),u-w,"sub"); break; case 2: put(s.boolean()?x*y:mul(x,y),u*w,"mul"); break; case 3: if (!slow&&abs(w).lower()>two_exp(-20)) put(s.boolean()?x/y:div(x,y),u/w,"div"); break; case 4: put(max(x,y),max(u,w),"max"); break; case 5: put(min(x,y),min(u,w),"min"); break; case 6: put(s.boolean()?-x:neg(x),-u,"neg"); break; case 7: put(hlf(x),u/Iv(2),"hlf"); break; case 8: put(sqr(x),sqr(u),"sqr"); break; case 9: if (!slow&&abs(u).lower()>two_exp(-20)) put(rec(x),rec(u),"rec"); break;
            case 10: if ((m>=0||(!slow&&abs(u).lower()>two_exp(-20)))&&inrange(u,Q(-100),Q(100))) { if (m>=0&&s.boolean()) put(pow(x,Nat(m)),pow(u,m),"pow"+std::to_string(m)); else put(pow(x,m),pow(u,m),"pow"+std::to_string(m)); } break;
            case 11: if (!slow&&u.lower()>two_exp(-20)||(a.exact&&u.lower()==0)) put(sqrt(x),sqrt(u),"sqrt"); break; case 12: if (u.upper()<30) put(exp(x),exp(u),"exp"); break; case 13: if (!slow&&u.lower()>two_exp(-20)) put(log(x),log(u),"log"); break; case 14: put(sin(x),sin(u),"sin"); break; case 15: put(cos(x),cos(u),"cos"); break; case 16: if (!slow&&abs(cos(u)).lower()>two_exp(-10)) put(tan(x),tan(u),"tan"); break; case 17: if (!slow&&inrange(u,Q(-1)+two_exp(-20),Q(1)-two_exp(-20))||(a.exact&&abs(u).upper()==1)) put(asin(x),asin(u),"asin"); break; case 18: if (!slow&&inrange(u,Q(-1)+two_exp(-20),Q(1)-two_exp(-20))||(a.exact&&abs(u).upper()==1)) put(acos(x),acos(u),"acos"); break; case 19: put(atan(x),atan(u),"atan"); break; case 20: put(abs(x),abs(u),"abs"); break; case 21: put(pos(x),u,"pos"); break; case 22: slow=slow||b.slow; put(dist(x,y),abs(u-w),"dist"); break; default: put(nul(x),Iv(0),"nul"); }
        if (!p.back().v.finite()) { p.pop_back(); break; } }
    RV r=p.back(); r.exact=p.size()==(size_t)n; return r; }
void in(std::string const& n, DyadicBounds const& w, Iv const& v) { X l=xof(w.lower_raw()), u=xof(w.upper_raw()); PBT_CHECK(may_be_in(v,l,u),n,n << " gives [" << show(l) << ":" << show(u) << "], which excludes " << show(v)); }
template<class F> void in(std::string const& n, Bounds<F> const& w, Iv const& v) { check_in(n,w,v); }
void t_compute(PSrc& s, PCase& c) { std::string d; RV x=build(s,&d,8); NOTE(c,d << " value " << show(x.v)); c.interesting(!x.exact); Real const& r=x.r; Iv const& v=x.v; if (x.slow) c.label("limit or case");
    unsigned e=(unsigned)s.pick<int>({0,1,2,3,4,6,10,20}); MultiplePrecision pr((mpfr_prec_t)s.pick<int>({53,64,24,128,200}));
    in("compute_get(effort)",r.compute_get(Effort(e)),v); in("compute(effort)",r.compute(Effort(e)).get(),v); in("compute(effort).get(dp)",r.compute(Effort(e)).get(dp),v); in("compute(effort).get(mp)",r.compute(Effort(e)).get(pr),v); in("compute_get(effort,dp)",r.compute_get(Effort(e),dp),v); in("compute_get(effort,mp)",r.compute_get(Effort(e),pr),v); in("get(dp)",r.get(dp),v); in("get(mp)",r.get(pr),v); in("compute_using(dp)",r.compute_using(dp),v); in("compute_using(mp)",r.compute_using(pr),v);
    in("FloatDPBounds(Real)",FloatDPBounds(r,dp),v); in("FloatMPBounds(Real)",FloatMPBounds(r,pr),v); check_in("FloatDPBall(Real)",FloatDPBall(r,dp),v); check_in("FloatMPBall(Real)",FloatMPBall(r,pr),v); X u=xof(FloatDPUpperBound(r,dp).raw()), l=xof(FloatDPLowerBound(r,dp).raw()); PBT_CHECK(!surely_greater(v,u)&&!u.is_nan(),"UpperBound","FloatDPUpperBound(Real) is below the value"); PBT_CHECK(!surely_less(v,l)&&!l.is_nan(),"LowerBound","FloatDPLowerBound(Real) is above the value"); u=xof(FloatMPUpperBound(r,pr).raw()), l=xof(FloatMPLowerBound(r,pr).raw()); PBT_CHECK(!surely_greater(v,u)&&!u.is_nan(),"UpperBound","FloatMPUpperBound(Real) is below the value"); PBT_CHECK(!surely_less(v,l)&&!l.is_nan(),"LowerBound","FloatMPLowerBound(Real) is above the value");
    u=xof(r.upper().compute_get(Effort(e)).raw()); l=xof(r.lower().compute_get(Effort(e)).raw()); PBT_CHECK(!surely_greater(v,u),"upper","upper() is below the value"); PBT_CHECK(!surely_less(v,l),"lower","lower() is above the value"); u=xof(r.upper().compute_get(Effort(e),dp).raw()); l=xof(r.lower().compute_get(Effort(e),dp).raw()); PBT_CHECK(!surely_greater(v,u),"upper","upper() is below the value"); PBT_CHECK(!surely_less(v,l),"lower","lower() is above the value"); X m=xof(mag(r,dp).raw()); PBT_CHECK(!surely_greater(abs(v),m),"mag","mag is below the absolute value");
    if (width(v)<two_exp(-150)) { Nat b=(Nat)s.range(1,60); DyadicBounds w=r.compute(Accuracy(operator""_bits((unsigned long long)b))).get(); in("compute(accuracy)",w,v); PBT_CHECK(qof(w.upper_raw())-qof(w.lower_raw())<=2*two_exp(-(long)b),"accuracy","computed to " << b << " binary digits the bounds are " << dec(qof(w.upper_raw())-qof(w.lower_raw())) << " apart");
        // more precision gives arbitrarily good bounds
        FloatMPBounds z=r.get(MultiplePrecision(512)); PBT_CHECK(xof(z.upper_raw()).finite()&&xof(z.lower_raw()).finite()&&xof(z.upper_raw()).q-xof(z.lower_raw()).q<two_exp(-100),"precise","with 512 bits the bounds are " << show(z.lower_raw()) << " " << show(z.upper_raw())); PBT_CHECK(xof(z.upper_raw()).q>=xof(z.lower_raw()).q,"order","reversed bounds");
        Q t=v.lower(); Z ri=zof(round(r)); PBT_CHECK(abs(Q(ri)-t)<=Q(1)+two_exp(-50),"round","round gives " << ri); { FloatDPBounds bb(r,dp); PBT_CHECK(le(xof(bb.lower_raw()),xof(r.get_d()))&&le(xof(r.get_d()),xof(bb.upper_raw())),"get_d","get_d gives " << r.get_d()); } } }
void t_compare(PSrc& s, PCase& c) { std::string d1,d2; RV x=build(s,&d1,4); RV y=s.chance(1,5)?x:build(s,&d2,4); NOTE(c,d1 << " and " << d2 << ": " << show(x.v) << " " << show(y.v)); bool less=surely_less(x.v,y.v), gtr=surely_less(y.v,x.v); c.interesting(!x.exact||!y.exact); c.label(less?"less":gtr?"greater":"equal?");
    for (unsigned e : {0u,2u,6u}) { Effort f(e); auto chk=[&](char const* n, ValidatedKleenean k, bool t, bool fl) { if (t) PBT_CHECK(possibly(k),n,n << " is said to be false with effort " << e); if (fl) PBT_CHECK(!definitely(k),n,n << " is said to be true with effort " << e); };
        chk("<",(x.r<y.r).check(f),less,gtr); chk(">",(x.r>y.r).check(f),gtr,less); chk("<=",(x.r<=y.r).check(f),less,gtr); chk(">=",(x.r>=y.r).check(f),gtr,less); chk("==",ValidatedKleenean((x.r==y.r).check(f)),false,less||gtr); chk("!=",ValidatedKleenean((x.r!=y.r).check(f)),less||gtr,false); chk("lt",lt(x.r,y.r).check(f),less,gtr); chk("sgn",sgn(x.r-y.r).check(f),gtr,less); chk("check_sgn",check_sgn(x.r-y.r,f),gtr,less); chk("eq",ValidatedKleenean(eq(x.r,y.r).check(f)),false,less||gtr); }
    Q gap=less?y.v.lower()-x.v.upper():gtr?x.v.lower()-y.v.upper():Q(0); if (gap>two_exp(-20)&&width(x.v)<two_exp(-150)&&width(y.v)<two_exp(-150)) { Effort f(60); PBT_CHECK(definitely((x.r<y.r).check(f))==less&&definitely((x.r>y.r).check(f))==gtr,"decided","a comparison of numbers " << dec(gap) << " apart is not decided with effort 60"); PBT_CHECK(definitely((x.r!=y.r).check(f)),"decided","!= is not decided"); }
    if (width(x.v)<two_exp(-150)) { Q a=gen_small_q(s,4), b=a+abs(gen_small_q(s,1))+two_exp(-10); bool g=nondeterministic_greater(x.r,to_rational(a),to_rational(b)); PBT_CHECK(g?!surely_less(x.v,X(a)):!surely_greater(x.v,X(b)),"nondeterministic_greater","nondeterministic_greater(r," << dec(a) << "," << dec(b) << ") gives " << g << " for " << show(x.v));
        Real m=choose(Case<LowerKleenean,Real>{LowerKleenean(x.r>Real(to_rational(a))),Real(1)},Case<LowerKleenean,Real>{LowerKleenean(x.r<Real(to_rational(b))),Real(0)}); bool one=definitely((m>Real(to_rational(Q(1,2)))).check(Effort(2))); PBT_CHECK(one?!surely_less(x.v,X(a)):!surely_greater(x.v,X(b)),"choose","choose took a false case"); } }
template<class B> bool up_bad(B const& b, Iv const& v) { X u=xof(b.raw()); return u.is_nan()||surely_greater(v,u); }
template<class B> bool lo_bad(B const& b, Iv const& v) { X u=xof(b.raw()); return u.is_nan()||surely_less(v,u); }
void t_onesided(PSrc& s, PCase& c) { std::string d1,d2; RV x=build(s,&d1,3), y=build(s,&d2,3); NOTE(c,d1 << " and " << d2); c.interesting(); Effort e((Nat)s.draw(8)); MultiplePrecision pr(64); UpperReal xu=x.r.upper(), yu=y.r.upper(); LowerReal xl=x.r.lower(), yl=y.r.lower();
#define UP(n,r,v) PBT_CHECK(!up_bad((r).compute_get(e),v)&&!up_bad((r).compute_get(e,dp),v)&&!up_bad((r).compute_get(e,pr),v),n,n " upper bound is below the value")
#define LO(n,r,v) PBT_CHECK(!lo_bad((r).compute_get(e),v)&&!lo_bad((r).compute_get(e,dp),v)&&!lo_bad((r).compute_get(e,pr),v),n,n " lower bound is above the value")
    UP("add",add(xu,yu),x.v+y.v); LO("add",add(xl,yl),x.v+y.v); UP("neg",neg(xl),-x.v); LO("neg",neg(xu),-x.v); UP("max",max(xu,yu),max(x.v,y.v)); LO("max",max(xl,yl),max(x.v,y.v)); UP("min",min(xu,yu),min(x.v,y.v)); LO("min",min(xl,yl),min(x.v,y.v)); }
pbt::Register r1("compute",200000,4e6,t_compute,120), r2("compare",160000,3e6,t_compare,120), r3("onesided",60000,1e6,t_onesided,120);
struct Init { Init() { pbt::set_rule("at least one operation was applied to the constants"); pbt::set_reset(reset_modes); pbt::add_assumption("MPFR at 420 bits is right"); } } init;
}
