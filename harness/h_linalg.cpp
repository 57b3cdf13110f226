// C13: vectors, covectors and matrices.  Oracle: own rational linear algebra.
#include "validated.hpp"
#include "utility/exceptions.hpp"
#include "algebra/vector.hpp"
#include "algebra/covector.hpp"
#include "algebra/matrix.hpp"
#include "algebra/diagonal_matrix.hpp"
#include "algebra/symmetric_matrix.hpp"
#include "algebra/matrix.tpl.hpp"
#include "geometry/interval.hpp"
using namespace oracle;
namespace {
typedef std::vector<Q> QV; typedef std::vector<QV> QM;
std::string show(QV const& v) { std::string r="["; for (auto& x:v) r+=oracle::show(x)+","; return r+"]"; }
std::string show(QM const& A) { std::string r="["; for (auto& x:A) r+=show(x)+";"; return r+"]"; }
QM zeros(size_t m,size_t n) { return QM(m,QV(n,Q(0))); }
QM ident(size_t n) { QM r=zeros(n,n); for (size_t i=0;i<n;++i) r[i][i]=1; return r; }
QM mulm(QM const& A,QM const& B,size_t n) { QM r=zeros(A.size(),n); for (size_t i=0;i<A.size();++i) for (size_t j=0;j<n;++j) for (size_t k=0;k<B.size();++k) r[i][j]+=A[i][k]*B[k][j]; return r; }
QM trm(QM const& A,size_t n) { QM r=zeros(n,A.size()); for (size_t i=0;i<A.size();++i) for (size_t j=0;j<n;++j) r[j][i]=A[i][j]; return r; }
bool inv(QM A, QM& R) { size_t n=A.size(); R=ident(n); for (size_t k=0;k<n;++k) { size_t p=k; while (p<n&&A[p][k]==0) ++p; if (p==n) return false; std::swap(A[p],A[k]); std::swap(R[p],R[k]); Q d=A[k][k]; for (size_t j=0;j<n;++j) { A[k][j]/=d; R[k][j]/=d; } for (size_t i=0;i<n;++i) if (i!=k) { Q f=A[i][k]; if (f!=0) for (size_t j=0;j<n;++j) { A[i][j]-=f*A[k][j]; R[i][j]-=f*R[k][j]; } } } return true; }
Q nrm(QM const& A) { Q r=0; for (auto& x:A) { Q t=0; for (auto& y:x) t+=abs(y); r=qmax(r,t); } return r; }

template<class X> struct ET; 
template<> struct ET<Rational> { static Rational mk(Q const& q) { return to_rational(q); } static Q gen(PSrc& s) { return s.chance(1,4)?Q(0):gen_small_q(s,9); } };
template<> struct ET<Dyadic> { static Dyadic mk(Q const& q) { return to_dyadic(q); } static Q gen(PSrc& s) { return s.chance(1,4)?Q(0):Q(Q((long)s.range(-40,40))*two_exp(-(long)s.range(0,6))); } };
template<> struct ET<Integer> { static Integer mk(Q const& q) { return to_integer(q.get_num()); } static Q gen(PSrc& s) { return Q((long)s.range(-9,9)); } };
template<class X> QV gv(PSrc& s,size_t n) { QV r; for (size_t i=0;i<n;++i) r.push_back(ET<X>::gen(s)); return r; }
template<class X> QM gm(PSrc& s,size_t m,size_t n) { QM r; for (size_t i=0;i<m;++i) r.push_back(gv<X>(s,n)); return r; }
template<class X> Vector<X> mkv(QV const& v) { Vector<X> r(v.size(),ET<X>::mk(Q(0))); for (size_t i=0;i<v.size();++i) r[i]=ET<X>::mk(v[i]); return r; }
template<class X> Covector<X> mkc(QV const& v) { Covector<X> r(v.size(),ET<X>::mk(Q(0))); for (size_t i=0;i<v.size();++i) r[i]=ET<X>::mk(v[i]); return r; }
template<class X> Matrix<X> mkm(QM const& A,size_t n) { Matrix<X> r(A.size(),n,ET<X>::mk(Q(0))); for (size_t i=0;i<A.size();++i) for (size_t j=0;j<n;++j) r[i][j]=ET<X>::mk(A[i][j]); return r; }
template<class V> void eqv(char const* k, V const& r, QV const& m) { PBT_CHECK(r.size()==m.size(),k,k << " has size " << r.size() << ", expected " << m.size()); for (size_t i=0;i<m.size();++i) PBT_CHECK(qof(r[i])==m[i],k,k << " element " << i << " is " << oracle::show(qof(r[i])) << ", expected " << oracle::show(m[i])); }
template<class M> void eqm(char const* k, M const& r, QM const& m, size_t n) { PBT_CHECK(r.row_size()==m.size()&&r.column_size()==n,k,k << " has size " << r.row_size() << "x" << r.column_size() << ", expected " << m.size() << "x" << n); for (size_t i=0;i<m.size();++i) for (size_t j=0;j<n;++j) { Q q=qof(r.at(i,j)); PBT_CHECK(q==m[i][j],k,k << " element " << i << "," << j << " is " << oracle::show(q) << ", expected " << oracle::show(m[i][j])); } }

template<class X> void t_vec(PSrc& s, PCase& c) {
    size_t n=s.range(1,5); QV a=gv<X>(s,n), b=gv<X>(s,n), d=gv<X>(s,(size_t)s.range(1,4)); Q t=ET<X>::gen(s); NOTE(c,"a=" << show(a) << " b=" << show(b) << " d=" << show(d) << " t=" << oracle::show(t)); c.interesting(n>1);
    auto A=mkv<X>(a), B=mkv<X>(b), D=mkv<X>(d); auto U=mkc<X>(a), W=mkc<X>(b), E=mkc<X>(d); X T=ET<X>::mk(t);
    QV sum(n),dif(n),neg(n),sc(n); Q dt=0,nm=0; for (size_t i=0;i<n;++i) { sum[i]=a[i]+b[i]; dif[i]=a[i]-b[i]; neg[i]=-a[i]; sc[i]=a[i]*t; dt+=a[i]*b[i]; nm=qmax(nm,abs(a[i])); }
    eqv("+",Vector<X>(A+B),sum); eqv("-",Vector<X>(A-B),dif); eqv("neg",Vector<X>(-A),neg); eqv("pos",Vector<X>(+A),a); eqv("s*v",Vector<X>(T*A),sc); eqv("v*s",Vector<X>(A*T),sc);
    { auto C=A; C+=B; eqv("+=",C,sum); C=A; C-=B; eqv("-=",C,dif); C=A; C*=T; eqv("*=",C,sc); C=A; C+=C; QV dd(n); for (size_t i=0;i<n;++i) dd[i]=2*a[i]; eqv("v+=v",C,dd); C=A; C-=C; eqv("v-=v",C,QV(n,Q(0))); C=A; C*=C[0]; QV sq(n); for (size_t i=0;i<n;++i) sq[i]=a[i]*a[0]; eqv("v*=v[0]",C,sq); }
    eqv("covector +",U+W,sum); eqv("covector -",U-W,dif); eqv("covector neg",-U,neg); eqv("s*u",T*U,sc); eqv("u*s",U*T,sc); { auto C=U; C+=W; eqv("covector +=",C,sum); C=U; C-=W; eqv("covector -=",C,dif); C=U; C*=T; eqv("covector *=",C,sc); }
    if constexpr (std::is_same_v<X,Rational>) if (t!=0) { QV q(n); for (size_t i=0;i<n;++i) q[i]=a[i]/t; eqv("v/s",Vector<X>(A/T),q); eqv("u/s",U/T,q); auto C=A; C/=T; eqv("/=",C,q); auto V=U; V/=T; eqv("covector /=",V,q); if (a[0]!=0) { C=A; C/=C[0]; for (size_t i=0;i<n;++i) q[i]=a[i]/a[0]; eqv("v/=v[0]",C,q); } }
    PBT_CHECK(qof(X(dot(A,B)))==dt,"dot","dot is " << dot(A,B)); PBT_CHECK(qof(X(U*B))==dt,"u*v","covector*vector is " << (U*B)); if constexpr (std::is_same_v<X,Rational>) PBT_CHECK(qof(X(norm(A)))==nm,"norm","norm is " << norm(A));
    QV ab=a; ab.insert(ab.end(),d.begin(),d.end()); eqv("join",join(A,D),ab); { QV ax=a; ax.push_back(t); eqv("join(v,s)",join(A,T),ax); QV xa; xa.push_back(t); xa.insert(xa.end(),a.begin(),a.end()); eqv("join(s,v)",join(T,A),xa); QV adb=ab; adb.insert(adb.end(),b.begin(),b.end()); eqv("join3",join(A,D,B),adb); QV adt=ab; adt.push_back(t); eqv("join(v,v,s)",join(A,D,T),adt); }
    size_t lo=s.draw(n+1), hi=lo+s.draw(n-lo+1); QV pr(a.begin()+lo,a.begin()+hi); if (hi>lo) { eqv("project",Vector<X>(project(A,range(lo,hi))),pr); eqv("v[range]",Vector<X>(A[range(lo,hi)]),pr); Covector<X> PU=project(U,range(lo,hi)); eqv("covector project",PU,pr); }
    PBT_CHECK(bool(A==B)==(a==b),"==","vector equality"); PBT_CHECK(bool(A!=B)==(a!=b),"!=","vector inequality"); PBT_CHECK(bool(U==W)==(a==b),"covector ==","covector equality"); { auto C=A; PBT_CHECK(C==A,"==","a copy differs"); size_t i=s.draw(n); C[i]=C[i]+X(1); PBT_CHECK(!(C==A)&&C!=A,"==","a changed copy is equal"); eqv("copy",A,a); }
    eqv("transpose",transpose(A),a); eqv("zero",Vector<X>::zero(n),QV(n,Q(0))); { size_t k=s.draw(n); QV e(n,Q(0)); e[k]=1; eqv("unit",Vector<X>::unit(n,k),e); eqv("one",Vector<X>::one(n),QV(n,Q(1))); auto bs=Vector<X>::basis(n); PBT_CHECK(bs.size()==n,"basis","size"); eqv("basis",bs[k],e); eqv("covector unit",Covector<X>::unit(n,k),e); }
    eqv("generator",Vector<X>(n,[&](SizeType i){ return ET<X>::mk(b[i]); }),b); eqv("elementwise",elementwise([](X const& x,X const& y){ return X(x*y); },A,B),[&]{ QV r(n); for (size_t i=0;i<n;++i) r[i]=a[i]*b[i]; return r; }()); }

template<class X> void t_mat(PSrc& s, PCase& c) {
    size_t m=s.range(1,4), n=s.range(1,4), k=s.range(1,4); QM a=gm<X>(s,m,n), a2=gm<X>(s,m,n), b=gm<X>(s,n,k), r2=gm<X>(s,k,n), c2=gm<X>(s,m,k); QV v=gv<X>(s,n), u=gv<X>(s,m); Q t=ET<X>::gen(s);
    NOTE(c,"a=" << show(a) << " b=" << show(b) << " v=" << show(v) << " u=" << show(u) << " t=" << oracle::show(t)); c.interesting(m>1&&n>1);
    auto A=mkm<X>(a,n), A2=mkm<X>(a2,n), B=mkm<X>(b,k), R2=mkm<X>(r2,n), C2=mkm<X>(c2,k); auto V=mkv<X>(v); auto U=mkc<X>(u); X T=ET<X>::mk(t);
    QM sum=a,dif=a,neg=a,sc=a; for (size_t i=0;i<m;++i) for (size_t j=0;j<n;++j) { sum[i][j]+=a2[i][j]; dif[i][j]-=a2[i][j]; neg[i][j]=-a[i][j]; sc[i][j]*=t; }
    eqm("A+B",A+A2,sum,n); eqm("A-B",A-A2,dif,n); eqm("-A",-A,neg,n); eqm("+A",+A,a,n); eqm("s*A",T*A,sc,n); eqm("A*s",A*T,sc,n); { auto C0=A; C0*=T; eqm("A*=s",C0,sc,n); C0=A; C0*=C0.at(0,0); QM sq=a; for (auto& x:sq) for (auto& y:x) y*=a[0][0]; eqm("A*=a00",C0,sq,n); } { auto C=A; C+=A2; eqm("A+=B",C,sum,n); C=A; C-=A2; eqm("A-=B",C,dif,n); C=A; C-=C; eqm("A-=A",C,zeros(m,n),n); }
    if constexpr (std::is_same_v<X,Rational>) if (t!=0) { QM q=a; for (auto& x:q) for (auto& y:x) y/=t; eqm("A/s",A/T,q,n); auto C=A; C/=T; eqm("A/=s",C,q,n); }
    eqm("A*B",A*B,mulm(a,b,k),k); { QV r(m,Q(0)); for (size_t i=0;i<m;++i) for (size_t j=0;j<n;++j) r[i]+=a[i][j]*v[j]; eqv("A*v",Vector<X>(A*V),r); if (m==n) { auto W=V; W=A*W; eqv("v=A*v",W,r); auto C=A; C=C*C; eqm("A=A*A",C,mulm(a,a,n),n); } QV q(n,Q(0)); for (size_t i=0;i<m;++i) for (size_t j=0;j<n;++j) q[j]+=u[i]*a[i][j]; eqv("u*A",U*A,q); auto Uv=transpose(U); eqv("A^T*v",Vector<X>(transpose(A)*Uv),q); QM o=zeros(n,m); for (size_t i=0;i<n;++i) for (size_t j=0;j<m;++j) o[i][j]=v[i]*u[j]; }
    eqm("transpose",Matrix<X>(transpose(A)),trm(a,n),m); eqm("A^T*B",transpose(A)*C2,mulm(trm(a,n),c2,k),k); eqm("A*B^T",A*transpose(R2),mulm(a,trm(r2,n),k),k);
    PBT_CHECK(qof(X(norm(A)))==nrm(a),"norm","norm of matrix is " << norm(A));
    { QM j=a; for (auto& x:r2) j.push_back(x); eqm("join",join(A,R2),j,n); j=a; j.push_back(v); eqm("join(A,u)",join(A,mkc<X>(v)),j,n); QM jj; jj.push_back(v); for (auto& x:a) jj.push_back(x); eqm("join(u,A)",join(mkc<X>(v),A),jj,n); QM h=a; for (size_t i=0;i<m;++i) h[i].insert(h[i].end(),c2[i].begin(),c2[i].end()); eqm("cojoin",cojoin(A,C2),h,n+k); h=a; for (size_t i=0;i<m;++i) h[i].push_back(u[i]); eqm("cojoin(A,v)",cojoin(A,mkv<X>(u)),h,n+1); h=a; for (size_t i=0;i<m;++i) h[i].insert(h[i].begin(),u[i]); eqm("cojoin(v,A)",cojoin(mkv<X>(u),A),h,n+1); }
    { size_t i=s.draw(m), j=s.draw(n); Covector<X> ri=A[i]; eqv("row",ri,a[i]); QV cj(m); for (size_t p=0;p<m;++p) cj[p]=a[p][j]; Vector<X> co=column(A,j); eqv("column",co,cj); auto C=A; C[i]=mkc<X>(v); QM w=a; w[i]=v; eqm("A[i]=u",C,w,n); auto D=A; D.set(i,j,T); w=a; w[i][j]=t; eqm("set",D,w,n); eqm("set left",A,a,n); PBT_CHECK(qof(A.get(i,j))==a[i][j],"get","get");
      size_t i0=s.draw(m), i1=i0+1+s.draw(m-i0), j0=s.draw(n), j1=j0+1+s.draw(n-j0); QM p; for (size_t x=i0;x<i1;++x) p.push_back(QV(a[x].begin()+j0,a[x].begin()+j1)); auto E=A; eqm("A[range][range]",Matrix<X>(E[range(i0,i1)][range(j0,j1)]),p,j1-j0); E[range(i0,i1)][range(j0,j1)]=Matrix<X>(A2[range(i0,i1)][range(j0,j1)]); w=a; for (size_t x=i0;x<i1;++x) for (size_t y=j0;y<j1;++y) w[x][y]=a2[x][y]; eqm("A[range][range]=",E,w,n); }
    eqm("identity",Matrix<X>::identity(n),ident(n),n); eqm("zero",Matrix<X>::zero(m,n),zeros(m,n),n); eqm("generator",Matrix<X>(m,n,[&](SizeType i,SizeType j){ return ET<X>::mk(a[i][j]); }),a,n); PBT_CHECK(bool(A==A2)==(a==a2),"==","matrix equality"); { auto C=A; PBT_CHECK(C==A,"==","a copy differs"); C.at(m-1,n-1)=C.at(m-1,n-1)+X(1); PBT_CHECK(!(C==A),"==","a changed copy is equal"); }
    { QV d=gv<X>(s,n), e=gv<X>(s,n), du=gv<X>(s,m); DiagonalMatrix<X> D(mkv<X>(d)), F(mkv<X>(e)), DU(mkv<X>(du)); auto dm=[&](QV const& x){ QM r=zeros(x.size(),x.size()); for (size_t i=0;i<x.size();++i) r[i][i]=x[i]; return r; }; QM dd=dm(d), ee=dm(e); eqm("diagonal",Matrix<X>(D),dd,n); eqm("diagonal -",Matrix<X>(-D),[&]{ QV x=d; for (auto& y:x) y=-y; return dm(x); }(),n); QV x(n); for (size_t i=0;i<n;++i) x[i]=d[i]+e[i]; eqm("diagonal +",Matrix<X>(D+F),dm(x),n); for (size_t i=0;i<n;++i) x[i]=d[i]-e[i]; eqm("diagonal sub",Matrix<X>(D-F),dm(x),n); for (size_t i=0;i<n;++i) x[i]=d[i]*e[i]; eqm("diagonal *",Matrix<X>(D*F),dm(x),n); for (size_t i=0;i<n;++i) x[i]=d[i]*t; eqm("diagonal s*",Matrix<X>(T*D),dm(x),n); eqm("diagonal *s",Matrix<X>(D*T),dm(x),n); for (size_t i=0;i<n;++i) x[i]=d[i]*v[i]; eqv("D*v",D*V,x);
      eqm("A*D",A*D,mulm(a,dd,n),n); eqm("D*A",DU*A,mulm(dm(du),a,n),n); eqm("D*A^T",D*transpose(A),mulm(dd,trm(a,n),m),m); if (m==n) { QM p=a,q=a,r=a; for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) { p[i][j]+=dd[i][j]; q[i][j]-=dd[i][j]; r[i][j]=dd[i][j]-a[i][j]; } eqm("A+D",A+D,p,n); eqm("D+A",D+A,p,n); eqm("A-D",A-D,q,n); eqm("D-A",D-A,r,n); }
      if constexpr (std::is_same_v<X,Rational>) { bool nz=true; for (auto& y:e) if (y==0) nz=false; if (nz) { for (size_t i=0;i<n;++i) x[i]=d[i]/e[i]; eqm("diagonal /",Matrix<X>(D/F),dm(x),n); for (size_t i=0;i<n;++i) x[i]=1/e[i]; eqm("diagonal inverse",Matrix<X>(inverse(F)),dm(x),n); for (size_t i=0;i<n;++i) x[i]=v[i]/e[i]; eqv("v/D",V/F,x); } } }
    { QM o=mulm(trm(a,n),a,n); SymmetricMatrix<X> S=outer(A); eqm("outer",Matrix<X>(S),o,n); QM o2=mulm(trm(a2,n),a2,n); auto S2=outer(A2); QM p=o,q=o,r=o; for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) { p[i][j]+=o2[i][j]; q[i][j]-=o2[i][j]; r[i][j]*=t; } eqm("symmetric +",Matrix<X>(S+S2),p,n); eqm("symmetric -",Matrix<X>(S-S2),q,n); eqm("symmetric s*",Matrix<X>(T*S),r,n); eqm("symmetric *s",Matrix<X>(S*T),r,n); eqm("symmetric of matrix",Matrix<X>(SymmetricMatrix<X>(Matrix<X>(S))),o,n); size_t i=s.draw(n),j=s.draw(n); auto S3=S; S3.set(i,j,T); o[i][j]=o[j][i]=t; eqm("symmetric set",Matrix<X>(S3),o,n); size_t nn=n+s.draw(3); S3.resize(nn); for (size_t x=0;x<nn;++x) for (size_t y=x;y<nn;++y) S3.set(x,y,ET<X>::mk(Q((long)(x*nn+y)))); for (size_t x=0;x<nn;++x) for (size_t y=x;y<nn;++y) PBT_CHECK(qof(S3.get(y,x))==Q((long)(x*nn+y)),"symmetric resize","element " << x << "," << y << " after resizing"); }
    { PivotMatrix P(m); QM w=a; for (size_t i=0;i<m;++i) { size_t p=i+s.draw(m-i); P.pivot(i)=p; std::swap(w[i],w[p]); } eqm("P*A",P*A,w,n); QM pm=ident(m); for (size_t i=0;i<m;++i) std::swap(pm[i],pm[P.pivot(i)]); if constexpr (std::is_same_v<X,Rational>) eqm("pivot matrix",Matrix<X>(P),pm,m); } }

template<class X> void t_inv(PSrc& s, PCase& c) { size_t n=s.range(1,4), k=s.range(1,3); QM a=gm<X>(s,n,n), b=gm<X>(s,n,k); QV v=gv<X>(s,n); if (s.chance(1,6)&&n>1) a[0]=a[n-1]; NOTE(c,"a=" << show(a) << " b=" << show(b) << " v=" << show(v)); c.interesting(n>1);
    auto A=mkm<X>(a,n), B=mkm<X>(b,k); auto V=mkv<X>(v); QM r; bool reg=inv(a,r);
    try { auto I=inverse(A); PBT_CHECK(reg,"inverse","a singular matrix is inverted"); eqm("inverse",I,r,n); eqm("solve",solve(A,B),mulm(r,b,k),k); QV w(n,Q(0)); for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) w[i]+=r[i][j]*v[j]; eqv("solve v",solve(A,V),w); } catch (SingularMatrixException const&) { PBT_CHECK(!reg,"inverse","a regular matrix is called singular"); c.label("singular"); } }

// validated
template<class F> Bounds<F> gb(PSrc& s, typename F::PrecisionType pr, bool narrow) { F v=s.chance(1,5)?FT<F>::of(Q(0),pr):FT<F>::gen(s,pr,3); if (narrow) return Bounds<F>(v); switch (s.draw(3)) { case 0: return Bounds<F>(v); case 1: { F u=v; for (int k=(int)s.draw(3);k>0;--k) u=FT<F>::above(u); return Bounds<F>(v,u); } default: { F u=FT<F>::of(xof(v).q+Q((long)s.range(0,16))/256,pr); if (xof(u).q<xof(v).q) u=v; return Bounds<F>(v,u); } } }
template<class F> std::string show(Matrix<Bounds<F>> const& A) { std::string r; for (size_t i=0;i<A.row_size();++i) { for (size_t j=0;j<A.column_size();++j) r+=VT<Bounds<F>>::str(A[i][j])+", "; r+="; "; } return r; }
template<class F> void inm(char const* k, Matrix<Bounds<F>> const& R, QM const& m, size_t n) { PBT_CHECK(R.row_size()==m.size()&&R.column_size()==n,k,"size"); for (size_t i=0;i<m.size();++i) for (size_t j=0;j<n;++j) { X l=xof(R[i][j].lower_raw()), u=xof(R[i][j].upper_raw()); if (l.is_nan()||u.is_nan()) continue; PBT_CHECK(is_in(m[i][j],l,u),k,k << " element " << i << "," << j << " is " << VT<Bounds<F>>::str(R[i][j]) << ", excludes " << dec(m[i][j])); } }
template<class F> void inv_(char const* k, Vector<Bounds<F>> const& R, QV const& m) { PBT_CHECK(R.size()==m.size(),k,"size"); for (size_t i=0;i<m.size();++i) { X l=xof(R[i].lower_raw()), u=xof(R[i].upper_raw()); if (l.is_nan()||u.is_nan()) continue; PBT_CHECK(is_in(m[i],l,u),k,k << " element " << i << " is " << VT<Bounds<F>>::str(R[i]) << ", excludes " << dec(m[i])); } }
template<class Fn> void may_refuse(PCase& c, Fn f) { try { f(); } catch (SingularMatrixException const&) { c.label("singular"); } catch (DivideByZeroException const&) { c.label("refused"); } catch (std::runtime_error const& e) { std::string w=e.what(); if (w.find("nconsistent")==std::string::npos && w.find("ingular")==std::string::npos) throw; c.label("refused"); } }
template<class F> Q midq(Bounds<F> const& x) { return Q((xof(x.lower_raw()).q+xof(x.upper_raw()).q)/2); }
template<class F> void t_bounds(PSrc& s, PCase& c) { typedef Bounds<F> X; auto pr=FT<F>::gen_pr(s); size_t n=s.range(1,4), k=s.range(1,2); bool narrow=s.chance(1,3); Matrix<X> A(n,n,X(pr)), B(n,k,X(pr)), C(n,n,X(pr)); Vector<X> v(n,X(pr)); QM a=zeros(n,n), b=zeros(n,k), cc=zeros(n,n); QV w(n);
    for (size_t i=0;i<n;++i) { for (size_t j=0;j<n;++j) { A[i][j]=gb<F>(s,pr,narrow); a[i][j]=gen_in(s,A[i][j]); C[i][j]=gb<F>(s,pr,narrow); cc[i][j]=gen_in(s,C[i][j]); } for (size_t j=0;j<k;++j) { B[i][j]=gb<F>(s,pr,narrow); b[i][j]=gen_in(s,B[i][j]); } v[i]=gb<F>(s,pr,narrow); w[i]=gen_in(s,v[i]); }
    NOTE(c,"A=" << show<F>(A) << " a=" << show(a) << " B=" << show<F>(B) << " b=" << show(b) << " w=" << show(w)); c.interesting(n>1);
    inm<F>("product",A*C,mulm(a,cc,n),n); inm<F>("A*B",A*B,mulm(a,b,k),k); { QV av(n,Q(0)); for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) av[i]+=a[i][j]*w[j]; inv_<F>("A*v",Vector<X>(A*v),av); QM p=a,m=a; for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) { p[i][j]+=cc[i][j]; m[i][j]-=cc[i][j]; } inm<F>("A+C",A+C,p,n); inm<F>("A-C",A-C,m,n); Q d=0; for (size_t i=0;i<n;++i) d+=a[0][i]*w[i]; X row0=X(pr); Vector<X> r0(n,X(pr)); for (size_t i=0;i<n;++i) r0[i]=A[0][i]; X dd=dot(r0,v); check_in("dot",dd,d); X nn=norm(A); check_in("norm",nn,nrm(a)); }
    { PBT_CHECK(xof(sup_norm(A).raw()).q>=nrm(a),"sup_norm","sup_norm is below the norm of a member"); Q ln=0; for (size_t i=0;i<n;++i) { Q t=a[i][i]; for (size_t j=0;j<n;++j) if (j!=i) t+=abs(a[i][j]); if (i==0||t>ln) ln=t; } PBT_CHECK(xof(UpperBound<F>(log_norm(A)).raw()).q>=ln,"log_norm","log_norm is below the logarithmic norm of a member"); Q sv=0; for (auto& x:w) sv=qmax(sv,abs(x)); PBT_CHECK(xof(sup_norm(v).raw()).q>=sv,"sup_norm v","sup_norm of a vector is below that of a member"); X tn=two_norm(v); Q t2=0; for (auto& x:w) t2+=x*x; Q tl=xof(tn.lower_raw()).q, tu=xof(tn.upper_raw()).q; PBT_CHECK((tl<=0||tl*tl<=t2)&&tu>=0&&tu*tu>=t2,"two_norm","two_norm " << VT<X>::str(tn) << " excludes that of a member"); }
    QM r; bool reg=inv(a,r); if (!reg) { c.label("singular member"); may_refuse(c,[&]{ auto R=inverse(A); bool inf=false; for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) if (!xof(R[i][j].lower_raw()).finite()||!xof(R[i][j].upper_raw()).finite()) inf=true; PBT_CHECK(inf,"inverse","a matrix with a singular member is inverted with finite bounds " << show<F>(R)); }); return; }
    QM rb=mulm(r,b,k); QV rw(n,Q(0)); for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) rw[i]+=r[i][j]*w[j];
    may_refuse(c,[&]{ inm<F>("inverse",inverse(A),r,n); c.label("inverted"); }); may_refuse(c,[&]{ inm<F>("lu_inverse",lu_inverse(A),r,n); }); may_refuse(c,[&]{ inm<F>("gs_inverse",gs_inverse(A),r,n); }); may_refuse(c,[&]{ inm<F>("lu_solve",lu_solve(A,B),rb,k); }); may_refuse(c,[&]{ inm<F>("gs_solve",gs_solve(A,B),rb,k); }); if constexpr (std::is_same_v<F,FloatDP>) may_refuse(c,[&]{ inm<F>("solve",solve(A,B),rb,k); }); may_refuse(c,[&]{ inv_<F>("solve v",solve(A,v),rw); }); may_refuse(c,[&]{ inv_<F>("lu_solve v",lu_solve(A,v),rw); }); may_refuse(c,[&]{ inv_<F>("gs_solve v",gs_solve(A,v),rw); });
    // point matrices that are well conditioned must be inverted with narrow bounds
    if (narrow && nrm(a)*nrm(r)<1000 && FT<F>::bits(pr)>=50) { c.label("well conditioned"); auto R=inverse(A); 
      for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) { auto l=xof(R[i][j].lower_raw()), u=xof(R[i][j].upper_raw()); PBT_CHECK(l.finite()&&u.finite()&&u.q-l.q<=nrm(r)*two_exp(-20),"inverse tight","inverse of a well conditioned matrix has element " << VT<Bounds<F>>::str(R[i][j])); } }
}
template<class F> void t_bounds_dec(PSrc& s, PCase& c) { typedef Bounds<F> X; auto pr=FT<F>::gen_pr(s); size_t n=s.range(1,4); Matrix<X> A(n,n,X(pr)); QM a=zeros(n,n); for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) { F v=FT<F>::of(Q((long)s.range(-9,9)),pr); A[i][j]=X(v); a[i][j]=xof(v).q; } NOTE(c,"a=" << show(a)); QM r; if (!inv(a,r)) PBT_DISCARD(); c.interesting(n>1);
    bool good=nrm(a)*nrm(r)<1000&&FT<F>::bits(pr)>=50;
    auto mul=[&](Matrix<X> const& L,Matrix<X> const& U) { return Matrix<X>(L*U); }; auto finite=[&](Matrix<X> const& M) { for (size_t i=0;i<M.row_size();++i) for (size_t j=0;j<M.column_size();++j) if (!xof(M[i][j].lower_raw()).finite()||!xof(M[i][j].upper_raw()).finite()) return false; return true; };
    may_refuse(c,[&]{ auto t=triangular_decomposition(A); auto& P=std::get<0>(t); auto& L=std::get<1>(t); auto& U=std::get<2>(t); for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) { if (i<j) PBT_CHECK(xof(L[i][j].lower_raw()).q==0&&xof(L[i][j].upper_raw()).q==0,"triangular","L is not lower triangular"); if (i==j) PBT_CHECK(xof(L[i][j].lower_raw()).q==1&&xof(L[i][j].upper_raw()).q==1,"triangular","L is not unit"); if (i>j) PBT_CHECK(xof(U[i][j].lower_raw()).q==0&&xof(U[i][j].upper_raw()).q==0,"triangular","U is not upper triangular"); } QM pa=a; for (size_t i=0;i<n;++i) std::swap(pa[i],pa[P.pivot(i)]); inm<F>("PA=LU",mul(L,U),pa,n); if (good) { PBT_CHECK(finite(L)&&finite(U),"triangular finite","the decomposition of a well conditioned matrix is not finite"); c.label("finite"); } });
    may_refuse(c,[&]{ auto t=orthogonal_decomposition(A); auto& O=std::get<0>(t); auto& R=std::get<1>(t); inm<F>("A=OR",mul(O,R),a,n); Matrix<X> G=transpose(O)*O; for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) if (i!=j) { auto l=xof(G[i][j].lower_raw()),u=xof(G[i][j].upper_raw()); if (!l.is_nan()&&!u.is_nan()) PBT_CHECK(is_in(Q(0),l,u),"orthogonal","columns " << i << "," << j << " have inner product " << VT<X>::str(G[i][j])); } }); }
// approximations
template<class F> void t_approx(PSrc& s, PCase& c) { typedef Approximation<F> X; auto pr=FT<F>::gen_pr(s); size_t n=s.range(1,5), k=s.range(1,2); Matrix<X> A(n,n,X(pr)), B(n,k,X(pr)); Vector<X> v(n,X(pr)); QM a=zeros(n,n), b=zeros(n,k); QV w(n); auto g=[&](Q& q) { q=Q((long)s.range(-9,9)); return X(FT<F>::of(q,pr)); }; for (size_t i=0;i<n;++i) { for (size_t j=0;j<n;++j) A[i][j]=g(a[i][j]); for (size_t j=0;j<k;++j) B[i][j]=g(b[i][j]); v[i]=g(w[i]); } NOTE(c,"a=" << show(a) << " b=" << show(b) << " bits " << FT<F>::bits(pr)); QM r; if (!inv(a,r)||FT<F>::bits(pr)<30) PBT_DISCARD(); Q cond=nrm(a)*nrm(r); if (cond>5000) PBT_DISCARD(); c.interesting(n>1);
    Q tol=cond*cond*two_exp(-(long)FT<F>::bits(pr)+16)*20; auto close=[&](char const* key, X const& x, Q const& q, Q const& scale) { auto e=xof(x.raw()); PBT_CHECK(e.finite()&&abs(e.q-q)<=tol*scale,key,key << " is " << oracle::show(x.raw()) << ", expected " << dec(q)); }; auto closem=[&](char const* key, Matrix<X> const& M, QM const& m, size_t nn, Q const& scale) { PBT_CHECK(M.row_size()==m.size()&&M.column_size()==nn,key,"size"); for (size_t i=0;i<m.size();++i) for (size_t j=0;j<nn;++j) close(key,M[i][j],m[i][j],scale); };
    QM rb=mulm(r,b,k); QV rw(n,Q(0)); for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) rw[i]+=r[i][j]*w[j]; Q nr=nrm(r);
    closem("inverse",inverse(A),r,n,nr); closem("solve",solve(A,B),rb,k,nr*18); { auto x=solve(A,v); for (size_t i=0;i<n;++i) close("solve v",x[i],rw[i],nr*9); }
    { auto t=triangular_decomposition(A); auto& P=std::get<0>(t); auto& L=std::get<1>(t); auto& U=std::get<2>(t); QM pa=a; for (size_t i=0;i<n;++i) std::swap(pa[i],pa[P.pivot(i)]); closem("PA=LU",L*U,pa,n,nrm(a)); for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) { if (i<j) PBT_CHECK(xof(L[i][j].raw()).q==0,"triangular","L is not lower triangular"); if (i==j) PBT_CHECK(xof(L[i][j].raw()).q==1,"triangular","L is not unit"); if (i>j) PBT_CHECK(xof(U[i][j].raw()).q==0,"triangular","U is not upper triangular"); } }
    { auto t=orthogonal_decomposition(A); auto& O=std::get<0>(t); auto& R=std::get<1>(t); closem("A=OR",O*R,a,n,nrm(a)); Matrix<X> G=transpose(O)*O; Q m=0; for (size_t i=0;i<n;++i) m=qmax(m,xof(G[i][i].raw()).q); for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) if (i!=j) close("orthogonal",G[i][j],Q(0),m); for (size_t i=0;i<n;++i) { Q t=0; for (size_t j=0;j<n;++j) t+=abs(xof(R[i][j].raw()).q); PBT_CHECK(t<=1+tol,"orthogonal","row " << i << " of R has absolute sum " << dec(t)); } }
    { bool piv=s.boolean(); auto t=orthogonal_decomposition(A,piv); auto& Qm=std::get<0>(t); auto& R=std::get<1>(t); auto& P=std::get<2>(t); QM ap=a; for (size_t k=0;k<n;++k) for (size_t i=0;i<n;++i) std::swap(ap[i][k],ap[i][P.pivot(k)]); closem("AP=QR",Qm*R,ap,n,nrm(a)); closem("Q^TQ=I",transpose(Qm)*Qm,ident(n),n,Q(1)); for (size_t i=0;i<n;++i) for (size_t j=0;j<i;++j) close("R upper",R[i][j],Q(0),nrm(a)); }
    { auto rn=row_norms(A); for (size_t i=0;i<n;++i) { Q t=0; for (auto& x:a[i]) t+=abs(x); close("row_norms",X(rn[i]),t,Q(1)); } } }
pbt::Register r1("rational_vector",15000,100000,t_vec<Rational>,20), r2("dyadic_vector",15000,100000,t_vec<Dyadic>,20), r3("rational_matrix",30000,100000,t_mat<Rational>,20), r4("dyadic_matrix",15000,60000,t_mat<Dyadic>,20), r5("rational_inverse",40000,300000,t_inv<Rational>,20), r6("dp_bounds_matrix",60000,400000,t_bounds<FloatDP>,20), r7("mp_bounds_matrix",30000,200000,t_bounds<FloatMP>,20), r8("dp_bounds_decomposition",20000,100000,t_bounds_dec<FloatDP>,20), r9("mp_bounds_decomposition",10000,50000,t_bounds_dec<FloatMP>,20), r10("dp_approximate_matrix",50000,300000,t_approx<FloatDP>,20), r11("mp_approximate_matrix",20000,100000,t_approx<FloatMP>,20);
struct Init { Init() { pbt::set_rule("a matrix or vector of more than one row"); pbt::set_reset(reset_modes); } } init;
}
