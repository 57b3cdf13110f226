// Oracles that do not use the code under test: exact rationals (GMP) and outward-rounded
// intervals (MPFR) of far higher precision than what is checked.
// Nothing here depends on the processor's rounding mode.
#ifndef VERIF_ORACLE_HPP
#define VERIF_ORACLE_HPP
#include <gmpxx.h>
#include <mpfr.h>
#include <cmath>
#include <cfenv>
#include <limits>
#include "pbt.hpp"

namespace oracle {

typedef mpz_class Z;
typedef mpq_class Q;

inline Q two_exp(long e) { Q r(1); if (e>=0) mpq_mul_2exp(r.get_mpq_t(),r.get_mpq_t(),(mp_bitcnt_t)e); else mpq_div_2exp(r.get_mpq_t(),r.get_mpq_t(),(mp_bitcnt_t)-e); return r; }
inline Q of_double(double d) { Q r; mpq_set_d(r.get_mpq_t(),d); return r; }
inline Q of_mpfr(mpfr_srcptr x) { Q r; mpfr_get_q(r.get_mpq_t(),x); return r; }
inline Q of_mpf(mpf_srcptr x) { Q r; mpq_set_f(r.get_mpq_t(),x); return r; }
inline Q qpow(Q const& q, unsigned n) { Q r(1); for (unsigned i=0;i<n;++i) r*=q; return r; }
inline Q qabs(Q const& q) { return abs(q); }
inline Q qmin(Q const& a, Q const& b) { return a<b?a:b; }
inline Q qmax(Q const& a, Q const& b) { return a<b?b:a; }
inline Z qfloor(Q const& q) { Z r; mpz_fdiv_q(r.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); return r; }
inline Z qceil(Q const& q) { Z r; mpz_cdiv_q(r.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); return r; }
inline int qsgn(Q const& q) { return sgn(q); }
inline std::string show(Q const& q) { return q.get_str(); }
// decimal approximation, for reading only
inline std::string dec(Q const& q) { mpfr_t x; mpfr_init2(x,80); mpfr_set_q(x,q.get_mpq_t(),MPFR_RNDN); char b[64]; mpfr_snprintf(b,64,"%.22Rg",x); mpfr_clear(x); return b; }

// An extended rational: what a floating-point number denotes
struct X { int kind=0; Q q; // kind: 0 finite, +1/-1 infinite, 2 nan
    static X inf(int s) { X r; r.kind=s; return r; } static X nan() { X r; r.kind=2; return r; }
    X() {} X(Q const& v):q(v) {}
    bool finite() const { return kind==0; } bool is_nan() const { return kind==2; } };
inline X xof(double d) { if (std::isnan(d)) return X::nan(); if (std::isinf(d)) return X::inf(d>0?1:-1); return X(of_double(d)); }
inline X xof(mpfr_srcptr x) { if (mpfr_nan_p(x)) return X::nan(); if (mpfr_inf_p(x)) return X::inf(mpfr_sgn(x)); return X(of_mpfr(x)); }
inline bool le(X const& a, X const& b) { if (a.is_nan()||b.is_nan()) return false; if (a.kind==-1||b.kind==1) return true; if (a.kind==1||b.kind==-1) return a.kind==b.kind; return a.q<=b.q; }
inline bool lt(X const& a, X const& b) { return !a.is_nan() && !b.is_nan() && !le(b,a); }
inline bool same(X const& a, X const& b) { return a.kind==b.kind && (a.kind!=0 || a.q==b.q); }
inline std::string show(X const& x) { return x.is_nan()?"nan":x.kind>0?"+inf":x.kind<0?"-inf":dec(x.q); }

// ---- Tight enclosures of real values -------------------------------------------------
// [l,u] with l,u of PREC bits, always rounded outwards.
class Iv {
  public:
    static const mpfr_prec_t PREC=420;
    mpfr_t l,u;
    Iv() { mpfr_init2(l,PREC); mpfr_init2(u,PREC); mpfr_set_zero(l,1); mpfr_set_zero(u,1); }
    Iv(Q const& q) { mpfr_init2(l,PREC); mpfr_init2(u,PREC); mpfr_set_q(l,q.get_mpq_t(),MPFR_RNDD); mpfr_set_q(u,q.get_mpq_t(),MPFR_RNDU); }
    Iv(int n) : Iv(Q(n)) {}
    Iv(Q const& a, Q const& b) { mpfr_init2(l,PREC); mpfr_init2(u,PREC); mpfr_set_q(l,a.get_mpq_t(),MPFR_RNDD); mpfr_set_q(u,b.get_mpq_t(),MPFR_RNDU); }
    Iv(Iv const& o) { mpfr_init2(l,PREC); mpfr_init2(u,PREC); mpfr_set(l,o.l,MPFR_RNDD); mpfr_set(u,o.u,MPFR_RNDU); }
    Iv& operator=(Iv const& o) { mpfr_set(l,o.l,MPFR_RNDD); mpfr_set(u,o.u,MPFR_RNDU); return *this; }
    ~Iv() { mpfr_clear(l); mpfr_clear(u); }
    bool bad() const { return mpfr_nan_p(l)||mpfr_nan_p(u); }
    bool has_zero() const { return mpfr_sgn(l)<=0 && mpfr_sgn(u)>=0; }
    Q lower() const { return of_mpfr(l); } Q upper() const { return of_mpfr(u); }
    bool finite() const { return mpfr_number_p(l)&&mpfr_number_p(u); }
};
inline Iv operator+(Iv const& a, Iv const& b) { Iv r; mpfr_add(r.l,a.l,b.l,MPFR_RNDD); mpfr_add(r.u,a.u,b.u,MPFR_RNDU); return r; }
inline Iv operator-(Iv const& a, Iv const& b) { Iv r; mpfr_sub(r.l,a.l,b.u,MPFR_RNDD); mpfr_sub(r.u,a.u,b.l,MPFR_RNDU); return r; }
inline Iv operator-(Iv const& a) { Iv r; mpfr_neg(r.l,a.u,MPFR_RNDD); mpfr_neg(r.u,a.l,MPFR_RNDU); return r; }
inline Iv operator*(Iv const& a, Iv const& b) {
    Iv r; mpfr_t t; mpfr_init2(t,Iv::PREC); bool first=true;
    for (mpfr_srcptr x : {(mpfr_srcptr)a.l,(mpfr_srcptr)a.u}) for (mpfr_srcptr y : {(mpfr_srcptr)b.l,(mpfr_srcptr)b.u}) {
        mpfr_mul(t,x,y,MPFR_RNDD); if (mpfr_nan_p(t)) mpfr_set_zero(t,1); if (first||mpfr_less_p(t,r.l)) mpfr_set(r.l,t,MPFR_RNDD);
        mpfr_mul(t,x,y,MPFR_RNDU); if (mpfr_nan_p(t)) mpfr_set_zero(t,1); if (first||mpfr_greater_p(t,r.u)) mpfr_set(r.u,t,MPFR_RNDU); first=false; }
    mpfr_clear(t); return r; }
inline Iv rec(Iv const& a) { Iv r; if (a.has_zero()) { mpfr_set_inf(r.l,-1); mpfr_set_inf(r.u,1); return r; } mpfr_ui_div(r.l,1,a.u,MPFR_RNDD); mpfr_ui_div(r.u,1,a.l,MPFR_RNDU); return r; }
inline Iv operator/(Iv const& a, Iv const& b) { return a*rec(b); }
inline Iv sqr(Iv const& a) { Iv r=a*a; if (mpfr_sgn(r.l)<0) mpfr_set_zero(r.l,1); if (!a.has_zero()) { bool p=mpfr_sgn(a.l)>0; mpfr_sqr(r.l,p?a.l:a.u,MPFR_RNDD); } return r; }
inline Iv pow(Iv const& a, long n) { if (n<0) return rec(pow(a,-n)); Iv r(1); Iv b=a; if (n%2==0 && n>0) { r=sqr(a); Iv s=r; for (long i=1;i<n/2;++i) r=r*s; return r; } for (long i=0;i<n;++i) r=r*b; return r; }
#define VERIF_MONO(name,fn) inline Iv name(Iv const& a) { Iv r; fn(r.l,a.l,MPFR_RNDD); fn(r.u,a.u,MPFR_RNDU); return r; }
VERIF_MONO(exp,mpfr_exp) VERIF_MONO(log,mpfr_log) VERIF_MONO(atan,mpfr_atan) VERIF_MONO(asin,mpfr_asin)
#undef VERIF_MONO
inline Iv sqrt(Iv const& a) { Iv r; Iv b=a; if (mpfr_sgn(b.l)<0) mpfr_set_zero(b.l,1); mpfr_sqrt(r.l,b.l,MPFR_RNDD); mpfr_sqrt(r.u,b.u,MPFR_RNDU); return r; }
inline Iv acos(Iv const& a) { Iv r; mpfr_acos(r.l,a.u,MPFR_RNDD); mpfr_acos(r.u,a.l,MPFR_RNDU); return r; }
// Lipschitz constant 1: good for narrow arguments, which is what they are used for
inline Iv lip1(int (*f)(mpfr_ptr,mpfr_srcptr,mpfr_rnd_t), Iv const& a) {
    Iv r; mpfr_t w; mpfr_init2(w,Iv::PREC); mpfr_sub(w,a.u,a.l,MPFR_RNDU);
    f(r.l,a.l,MPFR_RNDD); f(r.u,a.l,MPFR_RNDU); mpfr_sub(r.l,r.l,w,MPFR_RNDD); mpfr_add(r.u,r.u,w,MPFR_RNDU);
    if (mpfr_cmp_si(r.l,-1)<0) mpfr_set_si(r.l,-1,MPFR_RNDD); if (mpfr_cmp_si(r.u,1)>0) mpfr_set_si(r.u,1,MPFR_RNDU);
    mpfr_clear(w); return r; }
inline Iv sin(Iv const& a) { return lip1(mpfr_sin,a); }
inline Iv cos(Iv const& a) { return lip1(mpfr_cos,a); }
inline Iv tan(Iv const& a) { return sin(a)/cos(a); }
inline Iv abs(Iv const& a) { if (mpfr_sgn(a.l)>=0) return a; if (mpfr_sgn(a.u)<=0) return -a; Iv r; Iv n=-a; mpfr_set_zero(r.l,1); mpfr_set(r.u,mpfr_greater_p(n.u,a.u)?n.u:a.u,MPFR_RNDU); return r; }
inline Iv max(Iv const& a, Iv const& b) { Iv r; mpfr_max(r.l,a.l,b.l,MPFR_RNDD); mpfr_max(r.u,a.u,b.u,MPFR_RNDU); return r; }
inline Iv min(Iv const& a, Iv const& b) { Iv r; mpfr_min(r.l,a.l,b.l,MPFR_RNDD); mpfr_min(r.u,a.u,b.u,MPFR_RNDU); return r; }
inline Iv iv_pi() { Iv r; mpfr_const_pi(r.l,MPFR_RNDD); mpfr_const_pi(r.u,MPFR_RNDU); return r; }
inline std::string show(Iv const& a) { char b[160]; mpfr_snprintf(b,160,"[%.25Rg:%.25Rg]",a.l,a.u); return b; }

// Comparison of a tight enclosure with an extended rational: only certain answers.
inline bool surely_less(Iv const& a, X const& b) { if (b.kind==1) return mpfr_number_p(a.u); if (b.kind!=0) return false; return mpfr_cmp_q(a.u,b.q.get_mpq_t())<0; }
inline bool surely_greater(Iv const& a, X const& b) { if (b.kind==-1) return mpfr_number_p(a.l); if (b.kind!=0) return false; return mpfr_cmp_q(a.l,b.q.get_mpq_t())>0; }
inline bool surely_less(Iv const& a, Iv const& b) { return mpfr_less_p(a.u,b.l); }
// may the real value enclosed by v lie in [l,u]?  (nan bounds: no)
inline bool may_be_in(Iv const& v, X const& l, X const& u) {
    if (l.is_nan()||u.is_nan()) return false;
    if (l.kind==1||u.kind==-1) return false;
    return !surely_less(v,l) && !surely_greater(v,u) ; }
inline bool is_in(Q const& v, X const& l, X const& u) { return le(l,X(v)) && le(X(v),u); }

// ---- Generators -----------------------------------------------------------------------
inline Z gen_z(pbt::Src& s, unsigned maxbits=256) {
    switch (s.weighted({6,3,2,2})) {
        case 0: return Z((long)s.range(-12,12));
        case 1: return Z((long)s.range(-1000000,1000000));
        case 2: { unsigned b=(unsigned)s.range(1,(int64_t)maxbits); Z r(1); r<<=b; r+=(long)s.range(-2,2); if (s.boolean()) r=-r; return r; }
        default: { unsigned b=(unsigned)s.range(1,(int64_t)maxbits); Z r(0); for (unsigned i=0;i<b;i+=32) { r<<=32; r+=(unsigned long)s.draw(1ull<<32); } r>>=(b%32); if (s.boolean()) r=-r; return r; } } }
inline Q gen_q(pbt::Src& s, unsigned maxbits=128) {
    Z n=gen_z(s,maxbits); Z d; switch (s.weighted({4,4,3,2})) { case 0: d=1; break; case 1: d=(long)s.range(1,24); break; case 2: d=1; d<<=(unsigned)s.range(0,(int64_t)maxbits); break; default: d=abs(gen_z(s,maxbits)); if (d==0) d=1; }
    Q q(n,d); q.canonicalize(); return q; }
// p/2^q
inline Q gen_dyadic(pbt::Src& s, unsigned maxbits=128, int maxexp=128) {
    Z n=gen_z(s,maxbits); int e = s.weighted({3,3})==0 ? (int)s.range(0,10) : (int)s.range(-maxexp,maxexp); return Q(n)*two_exp(-e); }
// rationals of modest size with few digits, in [-m,m]
inline Q gen_small_q(pbt::Src& s, int m=4) { int d = (int)s.pick<int>({1,2,4,3,5,8,10,7,16,100,64,1024}); Q q((long)s.range(-(int64_t)m*d,(int64_t)m*d),d); q.canonicalize(); return q; }
inline double make_double(bool neg, uint64_t mant, int e) { double d=std::ldexp((double)(int64_t)mant,e); return neg?-d:d; } // mant<2^53
// finite doubles over the whole range, with structure
inline double gen_double_full(pbt::Src& s) {
    switch (s.weighted({6,5,3,3,3,2,2,1})) {
        case 0: return (double)s.range(-16,16);
        case 1: return std::ldexp((double)s.range(-4096,4096),-(int)s.range(0,12));
        case 2: { int e=(int)s.range(-60,60); uint64_t m=(1ull<<52)|s.draw(1ull<<52); return make_double(s.boolean(),m,e-52); }
        case 3: { int e=(int)s.range(-4,4); uint64_t m=(1ull<<52)|s.draw(1ull<<52); return make_double(s.boolean(),m,e-52); }
        case 4: { int e=(int)s.range(-40,40); int64_t k=s.range(-3,3); uint64_t m=(1ull<<52)+(uint64_t)(k<0?0:k); if (k<0) { m=(1ull<<53)+(uint64_t)k; --e; } return make_double(s.boolean(),m,e-52); } // next to a power of two
        case 5: { int e=(int)s.range(-1022,1023); uint64_t m=(1ull<<52)|s.draw(1ull<<52); return make_double(s.boolean(),m,e-52); }
        case 6: { uint64_t m=s.draw(1ull<<52); return make_double(s.boolean(),s.boolean()?m:m&15u,-1074); } // subnormal
        default: { uint64_t m=(1ull<<53)-1-s.draw(3); return make_double(s.boolean(),m,971-(int)s.range(0,2)); } // next to overflow
    } }
// finite doubles of moderate magnitude
inline double gen_double(pbt::Src& s, int maxe=20) {
    switch (s.weighted({5,5,4,3})) {
        case 0: return (double)s.range(-16,16);
        case 1: return std::ldexp((double)s.range(-4096,4096),-(int)s.range(0,12));
        case 2: { int e=(int)s.range(-maxe,maxe); uint64_t m=(1ull<<52)|s.draw(1ull<<52); return make_double(s.boolean(),m,e-52); }
        default: { int e=(int)s.range(-maxe,maxe); int64_t k=s.range(-3,3); uint64_t m=(1ull<<52)+(uint64_t)(k<0?0:k); if (k<0) { m=(1ull<<53)+(uint64_t)k; --e; } return make_double(s.boolean(),m,e-52); }
    } }

} // namespace oracle
#endif
