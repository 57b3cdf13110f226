// C14: multi-indices and expansions.  Oracle: standard containers with the documented orderings.
#include "ariadne_oracle.hpp"
#include "float_gen.hpp"
#include "algebra/multi_index.hpp"
#include "algebra/expansion.hpp"
#include "algebra/expansion.tpl.hpp"
#include "numeric/floats.hpp"
#include <map>
using namespace oracle;
namespace {
typedef std::vector<int> I; typedef std::vector<I> L;
int deg(I const& a) { int d=0; for (int x:a) d+=x; return d; }
bool gless(I const& a,I const& b) { int d=deg(a),e=deg(b); if (d!=e) return d<e; for (size_t i=0;i<a.size();++i) if (a[i]!=b[i]) return a[i]>b[i]; return false; }
bool lless(I const& a,I const& b) { return a<b; }
bool rless(I const& a,I const& b) { for (size_t i=a.size();i-->0;) if (a[i]!=b[i]) return a[i]>b[i]; return false; }
MultiIndex mk(I const& a) { MultiIndex r(a.size()); for (size_t i=0;i<a.size();++i) r[i]=(DegreeType)a[i]; return r; }
template<class M> I im(M const& a) { I r; for (size_t i=0;i<a.size();++i) r.push_back(a[i]); return r; }
std::string show(I const& a) { std::string r="("; for (int x:a) r+=std::to_string(x)+","; return r+")"; }
I gi(PSrc& s,size_t n,int m=3) { I r(n); for (auto& x:r) x=s.chance(1,3)?0:(int)s.range(0,m); return r; }
void eq(char const* k, I const& r, I const& m) { PBT_CHECK(r==m,k,k << " gives " << show(r) << ", expected " << show(m)); }
void t_index(PSrc& s, PCase& c) { size_t n=1+s.draw(5); I a=gi(s,n,s.chance(1,5)?200:3), b=s.chance(1,5)?a:gi(s,n), d=gi(s,1+s.draw(5)); int k=(int)s.draw(5); NOTE(c,show(a) << show(b) << show(d) << k); c.interesting(n>1); MultiIndex A=mk(a),B=mk(b),D=mk(d);
    I sum=a,sc=a; for (size_t i=0;i<n;++i) { sum[i]+=b[i]; sc[i]*=k; } eq("+",im(A+B),sum); eq("*",im(A*(DegreeType)k),sc); eq("*",im((DegreeType)k*A),sc); eq("-",im(mk(sum)-B),a); { MultiIndex C=A; C+=B; eq("+=",im(C),sum); C-=B; eq("-=",im(C),a); C*=(DegreeType)k; eq("*=",im(C),sc); C=A; C+=C; C-=A; eq("a+=a",im(C),a); C=D; eq("=",im(C),d); MultiIndex E(C); E.set(0,7); eq("copy",im(C),d); swap(A,B); eq("swap",im(A),b); eq("swap",im(B),a); swap(A,B); }
    PBT_CHECK(A.degree()==deg(a)&&A.size()==n&&A.number_of_variables()==n,"degree","degree is " << A.degree()); PBT_CHECK((A==B)==(a==b)&&(A!=B)==(a!=b),"==","equality"); PBT_CHECK(graded_less(A,B)==gless(a,b)&&GradedLess()(A,B)==gless(a,b),"graded_less","graded_less"); PBT_CHECK(lexicographic_less(A,B)==lless(a,b)&&LexicographicLess()(A,B)==lless(a,b),"lexicographic_less","lexicographic_less"); PBT_CHECK(reverse_lexicographic_less(A,B)==rless(a,b)&&ReverseLexicographicLess()(A,B)==rless(a,b),"reverse_lexicographic_less","reverse_lexicographic_less");
    { size_t j=s.draw(n); I u(n,0); u[j]=1; eq("unit",im(MultiIndex::unit(n,j)),u); eq("zero",im(MultiIndex::zero(n)),I(n,0)); MultiIndex C=A; C.clear(); eq("clear",im(C),I(n,0)); } }
// ++ runs through all indices in graded order
void t_next(PSrc& s, PCase& c) { size_t n=1+s.draw(4); int d=(int)s.range(1,n>=4?4:6); NOTE(c,n << " variables to degree " << d); c.interesting(n>1); L all; I a(n,0); std::function<void(size_t,int)> rec=[&](size_t i,int left){ if (i==n) { all.push_back(a); return; } for (int x=0;x<=left;++x) { a[i]=x; rec(i+1,left-x); } a[i]=0; }; rec(0,d); std::sort(all.begin(),all.end(),gless); MultiIndex A=MultiIndex::zero(n); for (size_t k=0;k<all.size();++k) { eq("++",im(A),all[k]); ++A; } PBT_CHECK(A.degree()==d+1,"++","after the last index of degree " << d << " comes one of degree " << A.degree()); }
void t_list(PSrc& s, PCase& c) { size_t n=1+s.draw(3); MultiIndexList A(n); L a; int steps=(int)s.range(1,30); std::ostringstream log; c.interesting(steps>5);
    for (int t=0;t<steps;++t) { switch (s.weighted({8,2,3,2,2,2,2,1,3})) {
        case 0: { I x=gi(s,n); A.append(mk(x)); a.push_back(x); log << "append" << show(x); break; }
        case 1: if (!a.empty()) { size_t i=s.draw(a.size()); log << "append[" << i << "]"; A.append(A[i]); a.push_back(a[i]); } break;
        case 2: { I x=gi(s,n),y=gi(s,n); A.append_sum(mk(x),mk(y)); I z=x; for (size_t i=0;i<n;++i) z[i]+=y[i]; a.push_back(z); log << "append_sum"; break; }
        case 3: if (!a.empty()) { size_t i=s.draw(a.size()), j=s.draw(a.size()); log << "append_sum[" << i << "][" << j << "]"; A.append_sum(A[i],A[j]); I z=a[i]; for (size_t k=0;k<n;++k) z[k]+=a[j][k]; a.push_back(z); } break;
        case 4: if (!a.empty()) { size_t i=s.draw(a.size()); log << "erase" << i; auto it=A.erase(A.begin()+(long)i); a.erase(a.begin()+(long)i); PBT_CHECK(it==A.begin()+(long)i,"erase","erase does not return the following position"); } break;
        case 5: { size_t m=s.draw(a.size()+4); log << "resize" << m; A.resize(m); a.resize(m,I(n,0)); break; }
        case 6: { size_t m=s.draw(20); log << "reserve" << m; A.reserve(m); PBT_CHECK(A.capacity()>=m,"reserve","capacity"); break; }
        case 7: { log << "copy"; MultiIndexList B(A); MultiIndexList C(1u); C.append(MultiIndex(1)); C=A; PBT_CHECK(B==A&&C==A,"copy","a copy differs"); if (s.boolean()) { B.append(mk(gi(s,n))); PBT_CHECK(A.size()==a.size(),"copy","appending to a copy changes the original"); } else { A=C; } if (s.chance(1,3)) { MultiIndexList M(std::move(C)); PBT_CHECK(M==A,"move","a moved list differs"); A=std::move(M); } break; }
        default: if (!a.empty()) { size_t i=s.draw(a.size()); I x=gi(s,n); log << "set" << i; A[i]=mk(x); a[i]=x; if (s.boolean()) { size_t j=s.draw(a.size()); A[i]=A[j]; a[i]=a[j]; } if (s.boolean()) { size_t j=s.draw(a.size()); swap(A[i],A[j]); std::swap(a[i],a[j]); } } }
        log << " "; PBT_CHECK(A.size()==a.size(),"size","after " << log.str() << " the size is " << A.size() << ", expected " << a.size()); size_t k=0; for (auto it=A.begin();it!=A.end();++it,++k) PBT_CHECK(im(*it)==a[k]&&im(A[k])==a[k],"element","after " << log.str() << " element " << k << " is " << show(im(A[k])) << ", expected " << show(a[k])); if (!a.empty()) PBT_CHECK(im(A.back())==a.back()&&im(A.front())==a.front(),"front","front or back"); }
    NOTE(c,log.str()); }
template<class X> struct CT; template<> struct CT<Dyadic> { static Dyadic mk(long k) { return Dyadic(Integer((int)k)); } static Dyadic zero() { return Dyadic(0); } static long of(Dyadic const& x) { return qof(x).get_num().get_si(); } };
template<> struct CT<FloatDP> { static FloatDP mk(long k) { return mkdp((double)k); } static FloatDP zero() { return mkdp(0); } static long of(FloatDP const& x) { return (long)x.get_d(); } };
template<> struct CT<FloatDPApproximation> { static FloatDPApproximation mk(long k) { return FloatDPApproximation(mkdp((double)k)); } static FloatDPApproximation zero() { return mk(0); } static long of(FloatDPApproximation const& x) { return (long)x.raw().get_d(); } };
template<> struct CT<FloatMPBounds> { static FloatMPBounds mk(long k) { return FloatMPBounds(mkmp(Q(k),80)); } static FloatMPBounds zero() { return mk(0); } static long of(FloatMPBounds const& x) { return xof(x.lower_raw()).q.get_num().get_si(); } };
long gc(PSrc& s) { return s.chance(1,4)?0:(long)s.range(-9,9); }
template<class X> void t_expansion(PSrc& s, PCase& c) { typedef Expansion<MultiIndex,X> E; typedef CT<X> T; size_t n=1+s.draw(3); E A(n,T::zero(),s.boolean()?4:1); std::vector<std::pair<I,long>> a; int steps=(int)s.range(1,30); std::ostringstream log; c.interesting(steps>5);
    auto find=[&](I const& x){ return std::find_if(a.begin(),a.end(),[&](auto& p){ return p.first==x; }); };
    for (int t=0;t<steps;++t) { I x=s.chance(1,3)&&!a.empty()?a[s.draw(a.size())].first:gi(s,n,2); long k=gc(s); switch (s.weighted({6,2,3,2,3,3,3,2,2,2,2,2,2,1,3})) {
        case 0: log << "append" << show(x) << k; A.append(mk(x),T::mk(k)); a.push_back({x,k}); break;
        case 14: if (!a.empty()) { size_t i=s.draw(a.size()); log << "append[" << i << "]"; auto it=A.begin()+(long)i; if (s.boolean()) { A.append(it->index(),it->coefficient()); a.push_back(a[i]); } else { size_t j=s.draw(a.size()); auto jt=A.begin()+(long)j; A.append_sum(it->index(),jt->index(),jt->coefficient()); I z=a[i].first; for (size_t q=0;q<n;++q) z[q]+=a[j].first[q]; a.push_back({z,a[j].second}); } } break;
        case 1: log << "prepend" << show(x) << k; A.prepend(mk(x),T::mk(k)); a.insert(a.begin(),{x,k}); break;
        case 2: { I y=gi(s,n,2), z=x; for (size_t i=0;i<n;++i) z[i]+=y[i]; log << "append_sum" << show(x) << show(y) << k; A.append_sum(mk(x),mk(y),T::mk(k)); a.push_back({z,k}); break; }
        case 3: { size_t i=s.draw(a.size()+1); log << "insert" << i << show(x) << k; auto it=A.insert(A.begin()+(long)i,mk(x),T::mk(k)); a.insert(a.begin()+(long)i,{x,k}); PBT_CHECK(it-A.begin()==(long)i,"insert","insert returns position " << (it-A.begin())); break; }
        case 4: if (!a.empty()) { size_t i=s.draw(a.size()); log << "erase" << i; A.erase(A.begin()+(long)i); a.erase(a.begin()+(long)i); } break;
        case 5: { log << "at" << show(x) << k; A.at(mk(x))=T::mk(k); auto it=find(x); if (it==a.end()) a.push_back({x,k}); else it->second=k; break; }
        case 6: { log << "set" << show(x) << k; if (s.boolean()) A.set(mk(x),T::mk(k)); else A[mk(x)]=T::mk(k); auto it=find(x); if (it==a.end()) a.push_back({x,k}); else it->second=k; break; }
        case 7: log << "graded_sort"; A.graded_sort(); std::stable_sort(a.begin(),a.end(),[](auto& p,auto& q){ return gless(p.first,q.first); }); goto sorted;
        case 8: log << "rlex_sort"; A.reverse_lexicographic_sort(); std::stable_sort(a.begin(),a.end(),[](auto& p,auto& q){ return rless(p.first,q.first); }); goto sorted;
        case 9: log << "remove_zeros"; A.remove_zeros(); a.erase(std::remove_if(a.begin(),a.end(),[](auto& p){ return p.second==0; }),a.end()); break;
        case 10: { log << "combine"; if constexpr (CanInplaceAdd<X,X>) { A.graded_sort(); A.combine_terms(); std::stable_sort(a.begin(),a.end(),[](auto& p,auto& q){ return gless(p.first,q.first); }); std::vector<std::pair<I,long>> r; for (auto& p:a) if (!r.empty()&&r.back().first==p.first) r.back().second+=p.second; else r.push_back(p); a=r; } break; }
        case 11: { size_t m=s.draw(a.size()+3); log << "resize" << m; A.resize(m); a.resize(m,{I(n,0),0}); break; }
        case 12: { log << "copy"; E B(A); E C(1,T::zero()); C=A; PBT_CHECK(B.same_as(A)&&same(C,A)&&C.argument_size()==n,"copy","a copy is not the same"); if (!a.empty()) { size_t i=s.draw(a.size()); auto it=B.begin()+(long)i; it->coefficient()=T::mk(a[i].second+1); PBT_CHECK(!B.same_as(A),"same_as","a changed copy is the same"); } if (s.boolean()) { E M(std::move(C)); A=std::move(M); } else A.swap(C); break; }
        default: if (s.chance(1,3)) { log << "clear"; A.clear(); a.clear(); } else { log << "reserve"; A.reserve(s.draw(40)); } }
        if (false) { sorted: // elements with the same index may come in any order
            log << "*"; std::vector<std::pair<I,long>> r; for (auto it=A.begin();it!=A.end();++it) r.push_back({im(it->index()),T::of(it->coefficient())}); PBT_CHECK(r.size()==a.size(),"sort","sorting changes the size"); for (size_t i=0;i<a.size();++i) PBT_CHECK(r[i].first==a[i].first,"sort","after " << log.str() << " index " << i << " is " << show(r[i].first)); auto p=r,q=a; std::sort(p.begin(),p.end()); std::sort(q.begin(),q.end()); PBT_CHECK(p==q,"sort","after " << log.str() << " sorting changed the terms"); a=r; }
        log << " "; PBT_CHECK(A.size()==a.size()&&A.number_of_terms()==a.size()&&A.empty()==a.empty(),"size","after " << log.str() << " the size is " << A.size() << ", expected " << a.size()); E const& K=A; size_t i=0; for (auto it=K.begin();it!=K.end();++it,++i) PBT_CHECK(im(it->index())==a[i].first&&T::of(it->coefficient())==a[i].second,"element","after " << log.str() << " element " << i << " is " << show(im(it->index())) << ":" << it->coefficient() << ", expected " << show(a[i].first) << a[i].second);
        auto it=find(x); PBT_CHECK(T::of(K.get(mk(x)))==(it==a.end()?0:it->second)&&T::of(K[mk(x)])==T::of(K.get(mk(x)))&&(K.find(mk(x))==K.end())==(it==a.end()),"get","after " << log.str() << " get" << show(x) << " is " << K.get(mk(x))); }
    { size_t p=s.draw(3), q=s.draw(3); auto B=embed(p,A,q); PBT_CHECK(B.argument_size()==p+n+q&&B.size()==a.size(),"embed","size of the embedding"); for (size_t i=0;i<a.size();++i) { I x(p,0); x.insert(x.end(),a[i].first.begin(),a[i].first.end()); x.resize(p+n+q,0); auto it=B.begin()+(long)i; PBT_CHECK(im(it->index())==x&&T::of(it->coefficient())==a[i].second,"embed","term " << i << " of the embedding has index " << show(im(it->index()))); } }
    NOTE(c,n << " variables: " << log.str()); }
template<class X,class CMP> void t_sorted(PSrc& s, PCase& c) { typedef SortedExpansion<MultiIndex,X,CMP> E; typedef CT<X> T; bool graded=std::is_same_v<CMP,GradedIndexLess>; auto cmp=[graded](I const& x,I const& y){ return graded?gless(x,y):rless(x,y); }; std::map<I,long,std::function<bool(I const&,I const&)>> a(cmp), b(cmp); size_t n=1+s.draw(3); E A(n,T::zero()), B(n,T::zero()); int steps=(int)s.range(1,20); std::ostringstream log; c.interesting(steps>5);
    for (int t=0;t<steps;++t) { I x=gi(s,n,2); long k=gc(s); int o=(int)s.draw(3); bool other=s.chance(1,3); auto& M=other?B:A; auto& m=other?b:a; log << (other?"B":"A") << o << show(x) << k << " "; if (o==0) { M.set(mk(x),T::mk(k)); m[x]=k; } else if (o==1) { M.at(mk(x))=T::mk(k); m[x]=k; } else { bool had=m.count(x)>0, threw=false; try { M.insert(mk(x),T::mk(k)); } catch (std::runtime_error const&) { threw=true; } PBT_CHECK(threw==had,"insert","inserting an index that is " << (had?"":"not ") << "present"); if (!had) m[x]=k; }
        PBT_CHECK(M.size()==m.size(),"size","after " << log.str() << " size " << M.size()); size_t i=0; auto jt=m.begin(); for (auto it=M.begin();it!=M.end();++it,++jt,++i) PBT_CHECK(im(it->index())==jt->first&&T::of(it->coefficient())==jt->second,"element","after " << log.str() << " element " << i << " is " << show(im(it->index())) << ":" << it->coefficient()); I y=gi(s,n,2); PBT_CHECK(T::of(M.get(mk(y)))==(m.count(y)?m[y]:0),"get","get" << show(y)); M.check(); }
    bool same=true; for (auto& p:a) if (p.second!=(b.count(p.first)?b[p.first]:0)) same=false; for (auto& p:b) if (p.second!=(a.count(p.first)?a[p.first]:0)) same=false; if (s.chance(1,3)) { b=a; B=A; same=true; if (!a.empty()&&s.boolean()) { I x=gi(s,n,2); if (!b.count(x)) { B.set(mk(x),T::mk(0)); } } } PBT_CHECK(decide(A==B)==same,"==","equality of expansions after " << log.str());
    { Expansion<MultiIndex,X> U(n,T::zero()); L idx; for (auto& p:a) idx.push_back(p.first); for (size_t i=idx.size();i>1;--i) std::swap(idx[i-1],idx[s.draw(i)]); for (auto& x:idx) U.append(mk(x),T::mk(a[x])); E S(U); S.check(); PBT_CHECK(decide(S==A),"sort","sorting a shuffled expansion differs"); } NOTE(c,log.str()); }
void t_uni(PSrc& s, PCase& c) { typedef Expansion<UniIndex,FloatDP> E; E A(SizeOne(),mkdp(0)); std::vector<std::pair<int,long>> a; int steps=(int)s.range(1,20); std::ostringstream log; c.interesting(steps>5); for (int t=0;t<steps;++t) { int x=(int)s.draw(8); long k=gc(s); log << x << ":" << k << " "; if (s.chance(1,3)) { A.set(UniIndex((DegreeType)x),mkdp((double)k)); auto it=std::find_if(a.begin(),a.end(),[&](auto& p){ return p.first==x; }); if (it==a.end()) a.push_back({x,k}); else it->second=k; } else { A.append(UniIndex((DegreeType)x),mkdp((double)k)); a.push_back({x,k}); } if (s.chance(1,6)) { A.remove_zeros(); a.erase(std::remove_if(a.begin(),a.end(),[](auto& p){ return p.second==0; }),a.end()); } PBT_CHECK(A.size()==a.size(),"size","size " << A.size()); size_t i=0; for (auto it=A.begin();it!=A.end();++it,++i) PBT_CHECK((int)(DegreeType)it->index()==a[i].first&&(long)it->coefficient().get_d()==a[i].second,"element","element " << i); } NOTE(c,log.str()); }
pbt::Register r1("multi_index",40000,400000,t_index,20), r2("next_index",500,2000,t_next,20), r3("index_list",30000,500000,t_list,20), r4("expansion_dyadic",20000,500000,t_expansion<Dyadic>,20), r5("expansion_dp",20000,500000,t_expansion<FloatDP>,20), r6("expansion_approximate",20000,500000,t_expansion<FloatDPApproximation>,20), r7("expansion_mp_bounds",10000,200000,t_expansion<FloatMPBounds>,20), r8("sorted_graded",20000,400000,t_sorted<FloatDP,GradedIndexLess>,20), r9("sorted_rlex",20000,400000,t_sorted<FloatDPApproximation,ReverseLexicographicIndexLess>,20), r10("sorted_mp",10000,100000,t_sorted<FloatMPBounds,GradedIndexLess>,20), r11("univariate",10000,100000,t_uni,20);
struct Init { Init() { pbt::set_rule("more than one variable, or more than five operations"); pbt::set_reset(reset_modes); } } init;
}
