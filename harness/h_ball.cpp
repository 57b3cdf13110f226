// C07: ball arithmetic.  Oracle: exact rationals, and MPFR enclosures at high precision.
#include "validated_tests.hpp"
#include "numeric/decimal.hpp"
using namespace oracle;
namespace {
template<class FE> typename FE::PrecisionType gen_pre(PSrc& s) { return FT<FE>::gen_pr(s); }

// value, error, information tests, conversions, change of precision
template<class B> void t_info(PSrc& s, PCase& c) {
    typedef VT<B> T; typedef typename T::Flt F; typedef typename B::RawErrorType FE; auto pr=FT<F>::gen_pr(s), pr2=FT<F>::gen_pr(s);
    auto g=[&]{ F v=FT<F>::gen(s,pr,10); Q e= s.chance(1,4)?Q(0):abs(gen_dyadic(s,8,6)); return B(v,T::err(e,v)); };
    B x=g(), y=s.boolean()?g():gen_around<B>(s,x.value_raw()); Q p=gen_in(s,x); NOTE(c,"x=" << T::str(x) << " y=" << T::str(y) << " at " << dec(p)); Q xv=xof(x.value_raw()).q, xe=xof(x.error_raw()).q, yv=xof(y.value_raw()).q, ye=xof(y.error_raw()).q; c.interesting(xe!=0);
    Q d=abs(xv-yv); bool meet=d<=xe+ye; c.label(meet?"meet":"apart");
    if (consistent(x,y)) PBT_CHECK(meet,"consistent","disjoint balls are said to be consistent"); if (inconsistent(x,y)) PBT_CHECK(!meet,"inconsistent","meeting balls are said to be inconsistent"); if (refines(x,y)) PBT_CHECK(d+xe<=ye,"refines","x is said to refine y");
    // with a few bits the tests are exact
    { F a=FT<F>::of(Q((long)s.range(-7,7)),pr), b=FT<F>::of(Q((long)s.range(-7,7)),pr); Q ea=Q((long)s.range(0,7)), eb=Q((long)s.range(0,7)); B u(a,T::err(ea,a)), w(b,T::err(eb,b)); Q dd=abs(xof(a).q-xof(b).q); NOTE(c,"u=" << T::str(u) << " w=" << T::str(w)); PBT_CHECK(consistent(u,w)==(dd<=ea+eb),"consistent","consistent says " << consistent(u,w)); PBT_CHECK(inconsistent(u,w)==(dd>ea+eb),"inconsistent","inconsistent says " << inconsistent(u,w)); PBT_CHECK(refines(u,w)==(dd+ea<=eb),"refines","refines says " << refines(u,w));
      PBT_CHECK(same(u,w)==(dd==0&&ea==eb),"same","same says " << same(u,w));  if (dd<=ea+eb) { B r=refinement(u,w); Q lo=qmax(xof(a).q-ea,xof(b).q-eb), hi=qmin(xof(a).q+ea,xof(b).q+eb); check_in("refinement",r,lo); check_in("refinement",r,hi); } B h=coarsening(u,w); check_in("coarsening",h,Q(xof(a).q-ea)); check_in("coarsening",h,Q(xof(b).q+eb)); }
    PBT_CHECK(le(xof(x.lower_raw()),X(p))&&le(X(p),xof(x.upper_raw())),"lower and upper","the bounds " << show(x.lower_raw()) << ", " << show(x.upper_raw()) << " exclude " << dec(p)); PBT_CHECK(le(xof(x.lower().raw()),X(p))&&le(X(p),xof(x.upper().raw())),"lower and upper","the bounds exclude " << dec(p));
    PBT_CHECK(same(xof(x.value()),X(xv))&&same(xof(x.error().raw()),X(xe)),"value and error","changed");
    { Bounds<F> b(x); check_in("Bounds(Ball)",b,p); B z(b); check_in("Ball(Bounds)",z,p); B w(b,x.error_precision()); check_in("Ball(Bounds,pre)",w,p); } { B z(x,pr2); check_in("Ball(x,pr)",z,p); } { ValidatedNumber n=x; B z(n,pr2,x.error_precision()); check_in("ValidatedNumber",z,p); Bounds<F> b(n,pr2); check_in("ValidatedNumber",b,p); B w=x; w=ValidatedNumber(to_rational(p)); check_in("assignment",w,p); }
    PBT_CHECK(le(X(abs(p)),xof(mag(x).raw())),"mag","mag gives " << show(mag(x).raw())); PBT_CHECK(le(xof(mig(x).raw()),X(abs(p))),"mig","mig gives " << show(mig(x).raw()));
    { B r=round(x); Q a=Q(qfloor(p+Q(1,2))), b=Q(qceil(p-Q(1,2))); PBT_CHECK(is_in(a,T::lo(r),T::hi(r))||is_in(b,T::lo(r),T::hi(r)),"round","round gives " << T::str(r) << ", which excludes the nearest integer to " << dec(p)); }
    check_in("pos",pos(x),p); check_in("neg",neg(x),Q(-p)); check_in("hlf",hlf(x),Q(p/2)); check_in("nul",nul(x),Q(0)); }
// construction encloses the value
template<class B> void t_make(PSrc& s, PCase& c) {
    typedef VT<B> T; typedef typename T::Flt F; typedef typename B::RawErrorType FE; auto pr=FT<F>::gen_pr(s); auto pre=gen_pre<FE>(s); if constexpr (std::is_same_v<F,FE>) pre=pr; int k=(int)s.draw(8); c.interesting();
    auto note=[&](Q const& q, char const* t) { NOTE(c,t << " " << show(q) << " bits " << FT<F>::bits(pr)); c.label(t); };
    auto tight=[&](B const& b, Q const& q, char const* t) { check_in(t,b,q); check_tight(t,b,q,q,FT<F>::bits(pr),4,FT<F>::tiny(pr)*2); };
    switch (k) {
        case 0: { Q q=gen_q(s,60); note(q,"Rational"); tight(B(to_rational(q),pr),q,"Rational"); tight(B(to_rational(q),pr,pre),q,"Rational,pre"); break; }
        case 1: { Q q=gen_dyadic(s,100,60); note(q,"Dyadic"); tight(B(to_dyadic(q),pr),q,"Dyadic"); tight(B(to_dyadic(q),pr,pre),q,"Dyadic,pre"); break; }
        case 2: { Q q(gen_z(s,100)); note(q,"Integer"); tight(B(to_integer(q.get_num()),pr),q,"Integer"); tight(B(to_integer(q.get_num()),pr,pre),q,"Integer,pre"); break; }
        case 3: { double d=gen_double(s,30); Q q=of_double(d); note(q,"ExactDouble"); tight(B(ExactDouble(d),pr),q,"ExactDouble"); break; }
        case 4: { Q v=Q((long)s.range(-1000000,1000000))/1000, e=Q((long)s.range(0,1000))/100; note(v,"Decimal"); note(e,"error"); Decimal dv(Integer(to_integer(Z(Q(v*1000).get_num()))),3u), de(to_integer(Z(Q(e*100).get_num())),2u); tight(B(dv,pr),v,"Decimal"); B b(dv,de,pr); check_in("Decimal,Decimal",b,Q(v+e)); check_in("Decimal,Decimal",b,Q(v-e)); break; }
        case 5: { Q q=gen_q(s,60); note(q,"ValidatedNumber"); tight(B(ValidatedNumber(to_rational(q)),pr,pre),q,"ValidatedNumber"); break; }
        case 6: { Q q=gen_q(s,60); note(q,"Real"); check_in("Real",B(Real(to_rational(q)),pr),q); check_in("Real,pre",B(Real(to_rational(q)),pr,pre),q); break; }
        default: { int e=(int)s.range(-60,60); Q q=two_exp(e); note(q,"TwoExp"); tight(B(TwoExp(e),pr),q,"TwoExp"); } } }
// operations on floats whose result is a ball
template<class B> void t_float(PSrc& s, PCase& c) {
    typedef VT<B> T; typedef typename T::Flt F; typedef typename B::RawErrorType FE; auto pr=FT<F>::gen_pr(s); auto pre=gen_pre<FE>(s); bool full=s.chance(1,3); F x=full?FT<F>::gen_full(s,pr):FT<F>::gen(s,pr,12), y=full?FT<F>::gen_full(s,pr):FT<F>::gen(s,pr,12); Q p=xof(x).q,q=xof(y).q; int op=(int)s.draw(4), m=(int)s.draw(3); NOTE(c,bin_names[op] << " x=" << show(x) << " y=" << show(y)); c.interesting(p!=0&&q!=0); c.label(bin_names[op]); if (op==3&&q==0) return;
    set_both_modes(m); B r=[&]{ switch (op) { case 0: return add(x,y,pre); case 1: return sub(x,y,pre); case 2: return mul(x,y,pre); default: return div(x,y,pre); } }(); reset_modes(); check_in(std::string("float ")+bin_names[op],r,exact(op,p,q)); Q e=exact(op,p,q); if (!full) check_tight(std::string("float ")+bin_names[op],r,e,e,FT<F>::bits(pr),4,FT<F>::tiny(pr)*4); }
template<class B> void t_fma(PSrc& s, PCase& c) {
    typedef VT<B> T; typedef typename T::Flt F; auto pr=FT<F>::gen_pr(s); B x=gen_validated<B>(s,pr), y=gen_validated<B>(s,pr), z=gen_validated<B>(s,pr); Q p=gen_in(s,x), q=gen_in(s,y), r=gen_in(s,z); NOTE(c,"x=" << T::str(x) << " y=" << T::str(y) << " z=" << T::str(z)); c.interesting(); B f=fma(x,y,z); check_in("fma",f,Q(p*q+r)); }
typedef Ball<FloatDP,FloatDP> BDD; typedef Ball<FloatMP,FloatMP> BMM; typedef Ball<FloatMP,FloatDP> BMD;
#define REG(B,n) pbt::Register B##1("binary_" n,80000,3e6,t_binary<B>,20), B##2("mixed_" n,30000,1e6,t_mixed<B>,20), B##3("unary_" n,80000,2e6,t_unary<B>,20), B##4("float_" n,40000,1e6,t_float<B>,20), B##5("range_" n,20000,5e5,t_range<B>,20), B##6("make_" n,20000,5e5,t_make<B>,20), B##7("info_" n,20000,5e5,t_info<B>,20), B##8("expression_" n,20000,5e5,t_expression<B>,20);
REG(BDD,"dp") REG(BMM,"mp") REG(BMD,"mpdp")
struct Init { Init() { pbt::set_rule("at least one operand is not a single point (expressions: at least two operations)"); pbt::set_reset(reset_modes); pbt::add_assumption("exact rational arithmetic (GMP) and MPFR at 420 bits are right"); pbt::add_assumption("a ball whose centre or radius is nan carries no information"); } } init;
}
