// C01: exact numbers.  Oracle: GMP integers and rationals.
#include "ariadne_oracle.hpp"
using namespace oracle;


namespace {

template<class T> std::string str(T const& t) { std::ostringstream os; os << t; return os.str(); }

#define EQQ(what,got,want) do { Q _g=(got); Q _w=(want); PBT_CHECK(_g==_w,what,what << ": got " << show(_g) << " but the exact value is " << show(_w)); } while(0)
#define EQB(what,got,want) do { bool _g=(got); bool _w=(want); PBT_CHECK(_g==_w,what,what << ": got " << _g << ", expected " << _w); } while(0)

int csgn(Comparison c) { return c==Comparison::LESS?-1:c==Comparison::EQUAL?0:c==Comparison::GREATER?1:99; }
int ssgn(Sign c) { return c==Sign::NEGATIVE?-1:c==Sign::ZERO?0:c==Sign::POSITIVE?1:99; }
int three(Q const& a, Q const& b) { return a<b?-1:a==b?0:1; }
#define EQI(what,got,want) do { long _g=(got); long _w=(want); PBT_CHECK(_g==_w,what,what << ": got " << _g << ", expected " << _w); } while(0)

template<class T> void comparisons(T const& a, T const& b, Q const& p, Q const& q) {
    EQB("a==b",a==b,p==q); EQB("a!=b",a!=b,p!=q); EQB("a<b",a<b,p<q); EQB("a>b",a>b,p>q); EQB("a<=b",a<=b,p<=q); EQB("a>=b",a>=b,p>=q);
    EQI("cmp(a,b)",csgn(cmp(a,b)),three(p,q));
    EQQ("min",qof(T(min(a,b))),qmin(p,q)); EQQ("max",qof(T(max(a,b))),qmax(p,q)); EQQ("abs",qof(T(abs(a))),qabs(p));
}

void t_integer(PSrc& s, PCase& c) {
    Z x=gen_z(s,200), y=gen_z(s,200); if (s.chance(1,6)) y=x; unsigned m=(unsigned)s.range(0,12);
    NOTE(c,"x=" << x << " y=" << y << " m=" << m); c.interesting(x!=0&&y!=0);
    Integer a=to_integer(x), b=to_integer(y); Q p(x), q(y);
    EQQ("a+b",qof(a+b),Q(x+y)); EQQ("a-b",qof(a-b),Q(x-y)); EQQ("a*b",qof(a*b),Q(x*y)); EQQ("-a",qof(-a),Q(-x)); EQQ("+a",qof(+a),p);
    EQQ("sqr",qof(sqr(a)),Q(x*x)); EQQ("pow",qof(pow(a,m)),qpow(p,m)); EQQ("nul",qof(nul(a)),Q(0));
    EQQ("hlf",qof(hlf(a)),p/2);
    { Integer t=a; t+=b; EQQ("+=",qof(t),Q(x+y)); t=a; t-=b; EQQ("-=",qof(t),Q(x-y)); t=a; t*=b; EQQ("*=",qof(t),Q(x*y)); t=a; ++t; EQQ("++",qof(t),Q(x+1)); t=a; --t; EQQ("--",qof(t),Q(x-1)); }
    { Integer t=a; t+=t; EQQ("t+=t",qof(t),Q(2*x)); t=a; t*=t; EQQ("t*=t",qof(t),Q(x*x)); }
    if (y!=0) { EQQ("a/b",qof(a/b),p/q); EQQ("div",qof(div(a,b)),p/q); EQQ("rec",qof(rec(b)),1/q); EQQ("pow(b,-m)",qof(pow(b,-(int)m)),1/qpow(q,m)); c.label("quotient"); }
    EQQ("pow(a,int)",qof(pow(a,(int)m)),qpow(p,m));
    EQI("sgn",ssgn(sgn(a)),qsgn(p)); comparisons(a,b,p,q); EQB("is_zero",is_zero(a),x==0);
    if (x>0) EQI("log2floor",log2floor(Natural(a)),(long)mpz_sizeinbase(x.get_mpz_t(),2)-1);
    { Integer t; t=std::move(a); EQQ("move",qof(t),p); a=b; EQQ("assignment to a moved-from object",qof(a),q); }
}

void t_integer_division(PSrc& s, PCase& c) {
    Z x=gen_z(s,100), y=gen_z(s,60); if (y==0) y=1; NOTE(c,"x=" << x << " y=" << y); c.interesting(x%y!=0);
    Integer a=to_integer(x), b=to_integer(y); Z k=zof(quot(a,b)), r=zof(rem(a,b));
    PBT_CHECK(k*y+r==x,"quot_rem","quot(a,b)*b+rem(a,b) is " << Z(k*y+r) << ", not a; quot=" << k << " rem=" << r);
    PBT_CHECK(abs(r)<abs(y),"rem_size","the remainder " << r << " is not smaller than the divisor");
}

// builtin integers of every width
template<class N> void builtin(PSrc& s, PCase& c, char const* name) {
    N lo=std::numeric_limits<N>::min(), hi=std::numeric_limits<N>::max(); uint64_t k=s.draw(6); N n;
    switch (s.weighted({3,3,3})) { case 0: n=(N)s.draw(200); if (lo<0&&s.boolean()) n=(N)-n; break;
        case 1: n= s.boolean() ? (N)(hi-(N)k) : (N)(lo+(N)k); break;
        default: { n=(N)s.draw(0); int sh=(int)s.draw(sizeof(N)*8); n=(N)(n>>sh); } }
    Z z; if (n<0) { mpz_set_ui(z.get_mpz_t(),(unsigned long)(-(n+1))); z+=1; z=-z; } else mpz_set_ui(z.get_mpz_t(),(unsigned long)n);
    NOTE(c,name << " " << z); c.label(name); c.interesting(n!=0);
    EQQ(std::string("Integer(")+name+")",qof(Integer(n)),Q(z));
    EQQ(std::string("Dyadic(")+name+")",qof(Dyadic(n)),Q(z));
    EQQ(std::string("Rational(")+name+")",qof(Rational(n)),Q(z));
    EQQ(std::string("Decimal(")+name+")",qof(Decimal(n)),Q(z));
    EQB(std::string("Integer==")+name,Integer(n)==n,true);
    if (z.fits_slong_p()) EQB(std::string("get<")+name+">",Integer(n).template get<N>()==n,true);
}
void t_builtin(PSrc& s, PCase& c) {
    switch (s.index(8)) {
        case 0: return builtin<int>(s,c,"int"); case 1: return builtin<unsigned int>(s,c,"uint"); case 2: return builtin<long>(s,c,"long"); case 3: return builtin<unsigned long>(s,c,"ulong");
        case 4: return builtin<short>(s,c,"short"); case 5: return builtin<unsigned short>(s,c,"ushort"); case 6: return builtin<long long>(s,c,"longlong"); default: return builtin<unsigned long long>(s,c,"ulonglong"); } }
void t_int_wrappers(PSrc& s, PCase& c) { // the sized integer wrappers
    int64_t v=(int64_t)s.draw(0); int sh=(int)s.draw(64); v>>=sh; int32_t w=(int32_t)s.draw(1ull<<32); w>>=(int)s.draw(32); NOTE(c,v << " " << w); c.interesting();
    EQQ("Integer(Int64)",qof(Integer(Int64(v))),Q(Z((long)v))); EQQ("Integer(Int32)",qof(Integer(Int32(w))),Q(Z((long)w)));
    EQQ("Integer(Nat64)",qof(Integer(Nat64((uint64_t)v))),Q(Z((unsigned long)v))); EQQ("Integer(Nat32)",qof(Integer(Nat32((uint32_t)w))),Q(Z((unsigned long)(uint32_t)w)));
}

void t_dyadic(PSrc& s, PCase& c) {
    Q p=gen_dyadic(s,300,400), q=gen_dyadic(s,300,400); if (s.chance(1,6)) q=p; unsigned m=(unsigned)s.range(0,9); int e=(int)s.range(-300,300);
    NOTE(c,"p=" << show(p) << " q=" << show(q) << " m=" << m << " e=" << e); c.interesting(p!=0&&q!=0&&(p.get_den()!=1||q.get_den()!=1));
    Dyadic a=to_dyadic(p), b=to_dyadic(q); EQQ("Dyadic(p,q)",qof(a),p);
    EQQ("a+b",qof(a+b),p+q); EQQ("a-b",qof(a-b),p-q); EQQ("a*b",qof(a*b),p*q); EQQ("-a",qof(-a),-p); EQQ("+a",qof(+a),p); EQQ("sqr",qof(sqr(a)),p*p); EQQ("hlf",qof(hlf(a)),p/2);
    EQQ("pow",qof(pow(a,m)),qpow(p,m)); if (p!=0) EQQ("pow(a,-m)",qof(pow(a,-(int)m)),1/qpow(p,m)); EQQ("pow(a,int)",qof(pow(a,(int)m)),qpow(p,m));
    { Dyadic t=a; t+=b; EQQ("+=",qof(t),p+q); t=a; t-=b; EQQ("-=",qof(t),p-q); t=a; t*=b; EQQ("*=",qof(t),p*q); t=a; t+=t; EQQ("t+=t",qof(t),2*p); t*=t; EQQ("t*=t",qof(t),4*p*p); t-=t; EQQ("t-=t",qof(t),Q(0)); }
    if (q!=0) EQQ("a/b",qof(a/b),p/q);
    EQQ("a*2^e",qof(a*(two^e)),p*two_exp(e)); EQQ("a/2^e",qof(a/(two^e)),p*two_exp(-e)); EQQ("a/two",qof(a/two),p/2); EQQ("Dyadic(2^e)",qof(Dyadic(two^e)),two_exp(e)); EQQ("-2^e",qof(-(two^e)),-two_exp(e));
    EQQ("floor",qof(floor(a)),Q(qfloor(p))); EQQ("ceil",qof(ceil(a)),Q(qceil(p))); { Q r=qof(round(a)); PBT_CHECK(r.get_den()==1&&qabs(r-p)*2<=1,"round","round gives " << show(r)); }
    EQI("sgn",ssgn(sgn(a)),qsgn(p)); comparisons(a,b,p,q); EQB("is_zero",is_zero(a),p==0); EQB("is_finite",is_finite(a),true); EQB("is_nan",is_nan(a),false); EQB("is_inf",is_inf(a),false);
    EQQ("mantissa/2^exponent",Q(zof(a.mantissa()))*two_exp(-a.exponent()),p);
    EQQ("Rational(a)",qof(Rational(a)),p); EQQ("Decimal(a)",qof(Decimal(a)),p);
    { Dyadic t(std::move(a)); EQQ("move",qof(t),p); a=b; EQQ("assignment to a moved-from object",qof(a),q); a=std::move(t); EQQ("move assignment",qof(a),p); a=a; EQQ("self-assignment",qof(a),p); }
}

void t_rational(PSrc& s, PCase& c) {
    Q p=gen_q(s,160), q=gen_q(s,160); if (s.chance(1,6)) q=p; int m=(int)s.range(0,9);
    NOTE(c,"p=" << show(p) << " q=" << show(q) << " m=" << m); c.interesting(p!=0&&q!=0&&p.get_den()!=1);
    Rational a=to_rational(p), b=to_rational(q); EQQ("Rational(num,den)",qof(Rational(to_integer(p.get_num()),to_integer(p.get_den()))),p);
    Z k=gen_z(s,20); if (k==0) k=-3; EQQ("Rational(k*num,k*den)",qof(Rational(to_integer(p.get_num()*k),to_integer(p.get_den()*k))),p);
    EQQ("a+b",qof(a+b),p+q); EQQ("a-b",qof(a-b),p-q); EQQ("a*b",qof(a*b),p*q); EQQ("-a",qof(-a),-p); EQQ("+a",qof(+a),p); EQQ("sqr",qof(sqr(a)),p*p); EQQ("hlf",qof(hlf(a)),p/2);
    EQQ("pow",qof(pow(a,m)),qpow(p,(unsigned)m)); if (p!=0) { EQQ("pow(a,-m)",qof(pow(a,-m)),1/qpow(p,(unsigned)m)); EQQ("rec",qof(rec(a)),1/p); EQQ("b/a",qof(b/a),q/p); Rational t=b; t/=a; EQQ("/=",qof(t),q/p); t=a; t/=t; EQQ("t/=t",qof(t),Q(1)); }
    { Rational t=a; t+=b; EQQ("+=",qof(t),p+q); t=a; t-=b; EQQ("-=",qof(t),p-q); t=a; t*=b; EQQ("*=",qof(t),p*q); t=a; t+=t; EQQ("t+=t",qof(t),2*p); t*=t; EQQ("t*=t",qof(t),4*p*p); }
    EQQ("floor",qof(floor(a)),Q(qfloor(p))); EQQ("ceil",qof(ceil(a)),Q(qceil(p))); { Q r=qof(round(a)); PBT_CHECK(r.get_den()==1&&qabs(r-p)*2<=1,"round","round gives " << show(r)); }
    EQI("sgn",ssgn(sgn(a)),qsgn(p)); comparisons(a,b,p,q); EQB("is_zero",is_zero(a),p==0); EQB("is_finite",is_finite(a),true);
    EQQ("numerator",Q(zof(a.numerator())),Q(p.get_num())); EQQ("denominator",Q(zof(a.denominator())),Q(p.get_den()));
    { Q r=qof(mag(a)); EQQ("mag",r,qabs(p)); EQQ("mig",qof(mig(a)),qabs(p)); }
    { int n=(int)s.range(-5,5); EQI("cmp(Rational,int)",csgn(cmp(a,Rational(n))),three(p,Q(n))); EQB("a<n",a<n,p<n); EQB("a==n",a==n,p==n); }
    { double d=gen_double_full(s); if (s.chance(1,4)) { d=p.get_d(); } ExactDouble x(d); EQQ("Rational(ExactDouble)",qof(Rational(x)),of_double(d)); EQQ("Dyadic(ExactDouble)",qof(Dyadic(x)),of_double(d)); EQI("cmp(Rational,ExactDouble)",csgn(cmp(a,x)),three(p,of_double(d))); EQI("cmp(ExactDouble,Rational)",csgn(cmp(x,a)),three(of_double(d),p)); }
    { Rational t(std::move(a)); EQQ("move",qof(t),p); a=b; EQQ("assignment to a moved-from object",qof(a),q); a=std::move(t); EQQ("move assignment",qof(a),p); a=a; EQQ("self-assignment",qof(a),p); }
}

Q gen_decimal(PSrc& s) { Z n=gen_z(s,120); unsigned e=(unsigned)s.range(0,30); Z t; mpz_ui_pow_ui(t.get_mpz_t(),10,e); Q q(n,t); q.canonicalize(); return q; }
Decimal to_decimal(PSrc& s, Q const& q) { // q must be decimal
    unsigned e=0; Q t=q; while (t.get_den()!=1) { t*=10; ++e; } unsigned k=(unsigned)s.range(0,3); for (unsigned i=0;i<k;++i) { t*=10; ++e; } return Decimal(to_integer(t.get_num()),(Nat)e); }
void t_decimal(PSrc& s, PCase& c) {
    Q p=gen_decimal(s), q=gen_decimal(s); if (s.chance(1,6)) q=p; Decimal a=to_decimal(s,p), b=to_decimal(s,q);
    NOTE(c,"p=" << show(p) << " q=" << show(q)); c.interesting(p!=0&&q!=0&&p.get_den()!=1);
    EQQ("Decimal(p,q)",qof(a),p); EQQ("Rational(a)",qof(Rational(a)),p);
    EQQ("a+b",qof(a+b),p+q); EQQ("a-b",qof(a-b),p-q); EQQ("a*b",qof(a*b),p*q); EQQ("-a",qof(-a),-p); EQQ("+a",qof(+a),p); EQQ("sqr",qof(sqr(a)),p*p); EQQ("hlf",qof(hlf(a)),p/2); EQQ("nul",qof(nul(a)),Q(0));
    if (q!=0) EQQ("a/b",qof(a/b),p/q);
    { Decimal t=a; t+=b; EQQ("+=",qof(t),p+q); t=a; t+=t; EQQ("t+=t",qof(t),2*p); Decimal u=a*b; u.canonicalize(); EQQ("canonicalize",qof(u),p*q); }
    comparisons(a,b,p,q);
}

// infinities and not-a-number, as documented on the types
template<class T> T make(X const& x); template<> Dyadic make<Dyadic>(X const& x) { return x.is_nan()?Dyadic::nan():x.kind>0?Dyadic::inf():x.kind<0?Dyadic::inf(Sign::NEGATIVE):to_dyadic(x.q); }
template<> Rational make<Rational>(X const& x) { return x.is_nan()?Rational::nan():x.kind>0?Rational::inf():x.kind<0?Rational::inf(Sign::NEGATIVE):to_rational(x.q); }
X xadd(X const& a, X const& b) { if (a.is_nan()||b.is_nan()) return X::nan(); if (a.finite()&&b.finite()) return X(a.q+b.q); if (a.finite()) return b; if (b.finite()) return a; return a.kind==b.kind?a:X::nan(); }
X xneg(X const& a) { if (a.is_nan()) return a; if (!a.finite()) return X::inf(-a.kind); return X(-a.q); }
int xs(X const& a) { return a.finite()?qsgn(a.q):a.kind; }
X xmul(X const& a, X const& b) { if (a.is_nan()||b.is_nan()) return X::nan(); if (a.finite()&&b.finite()) return X(a.q*b.q); int t=xs(a)*xs(b); return t==0?X::nan():X::inf(t); }
#define EQX(what,got,want) do { X _g=xof(got); X _w=(want); PBT_CHECK(same(_g,_w),what,what << ": got " << show(_g) << ", expected " << show(_w)); } while(0)
template<class T> void extended(PSrc& s, PCase& c) {
    auto gen=[&]{ switch (s.weighted({3,2,2,1})) { case 0: return X(gen_dyadic(s,20,10)); case 1: return X::inf(1); case 2: return X::inf(-1); default: return X::nan(); } };
    X p=gen(), q=gen(); NOTE(c,class_name<T>() << " " << show(p) << " and " << show(q)); c.interesting(!p.finite()||!q.finite());
    T a=make<T>(p), b=make<T>(q); EQX("make",a,p); EQB("is_nan",is_nan(a),p.is_nan()); EQB("is_inf",is_inf(a),p.kind==1||p.kind==-1); EQB("is_finite",is_finite(a),p.finite()); EQB("is_zero",is_zero(a),p.finite()&&p.q==0);
    EQX("a+b",a+b,xadd(p,q)); EQX("a-b",a-b,xadd(p,xneg(q))); EQX("a*b",a*b,xmul(p,q)); EQX("-a",-a,xneg(p)); EQX("hlf",hlf(a),p.finite()?X(p.q/2):p);
    if (!p.is_nan()) EQX("abs",T(abs(a)),xs(p)<0?xneg(p):p);
    if (!p.is_nan()&&!q.is_nan()) { EQX("max",max(a,b),le(p,q)?q:p); EQX("min",min(a,b),le(p,q)?p:q); EQB("a<b",a<b,lt(p,q)); EQB("a<=b",a<=b,le(p,q)); EQB("a==b",a==b,same(p,q)); EQI("sgn",ssgn(sgn(a)),xs(p)); }
    else EQB("nan==",a==b,false);
    T t=a; t=b; EQX("assign",t,q); T u(a); EQX("copy",u,p); EQX("Rational(a)",Rational(a),p);
}
void t_extended(PSrc& s, PCase& c) { if (s.boolean()) extended<Rational>(s,c); else extended<Dyadic>(s,c); }

pbt::Register r1("integer",30000,600000,t_integer), r1b("integer_division",10000,200000,t_integer_division), r2("builtin",20000,400000,t_builtin), r2b("int_wrappers",5000,100000,t_int_wrappers), r3("dyadic",20000,400000,t_dyadic),
    r4("rational",30000,600000,t_rational), r5("decimal",20000,400000,t_decimal), r6("extended",10000,200000,t_extended);
struct Init { Init() { pbt::set_rule("an operand is neither zero nor, where the type allows, an integer; for builtin conversions a value other than 0"); pbt::set_reset(reset_rounding); pbt::add_assumption("GMP's mpz and mpq arithmetic is exact"); } } init;
}
