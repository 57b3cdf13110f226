// Truncated power series in several variables with enclosed coefficients, used as the reference for differentials and Taylor models.
#ifndef VERIF_SERIES_MODEL_HPP
#define VERIF_SERIES_MODEL_HPP
#include "oracle.hpp"
#include <map>
#include <vector>
namespace oracle {
typedef std::vector<int> MI;
inline int degree(MI const& a) { int r=0; for (int x:a) r+=x; return r; }
struct Ser { size_t n; int d; std::map<MI,Iv> c; // zero coefficients may be missing
    Ser(size_t n_, int d_) : n(n_), d(d_) { }
    Iv operator[](MI const& a) const { auto it=c.find(a); return it==c.end()?Iv(0):it->second; }
    void add(MI const& a, Iv const& x) { if (degree(a)>d) return; auto it=c.find(a); if (it==c.end()) c.insert({a,x}); else it->second=it->second+x; }
    Iv value() const { return (*this)[MI(n,0)]; } };
inline Ser sconst(size_t n,int d,Iv const& v) { Ser r(n,d); r.add(MI(n,0),v); return r; }
inline Ser svar(size_t n,int d,Iv const& v,size_t j) { Ser r=sconst(n,d,v); MI u(n,0); u[j]=1; r.add(u,Iv(1)); return r; }
inline Ser operator+(Ser const& a, Ser const& b) { Ser r(a.n,std::min(a.d,b.d)); for (auto& p:a.c) r.add(p.first,p.second); for (auto& p:b.c) r.add(p.first,p.second); return r; }
inline Ser operator-(Ser const& a) { Ser r(a.n,a.d); for (auto& p:a.c) r.add(p.first,-p.second); return r; }
inline Ser operator-(Ser const& a, Ser const& b) { return a+(-b); }
inline Ser operator*(Ser const& a, Ser const& b) { Ser r(a.n,std::min(a.d,b.d)); for (auto& p:a.c) { int dp=degree(p.first); if (dp>r.d) continue; for (auto& q:b.c) { if (dp+degree(q.first)>r.d) continue; MI k=p.first; for (size_t i=0;i<r.n;++i) k[i]+=q.first[i]; r.add(k,p.second*q.second); } } return r; }
inline Ser operator*(Ser const& a, Iv const& b) { Ser r(a.n,a.d); for (auto& p:a.c) r.add(p.first,p.second*b); return r; }
inline Ser operator+(Ser const& a, Iv const& b) { Ser r=a; r.add(MI(a.n,0),b); return r; }
inline Ser sderiv(Ser const& a, size_t j) { Ser r(a.n,a.d>0?a.d-1:0); for (auto& p:a.c) if (p.first[j]) { MI k=p.first; Iv f((long)k[j]); --k[j]; r.add(k,p.second*f); } return r; }
inline Ser santi(Ser const& a, size_t j) { Ser r(a.n,a.d+1); for (auto& p:a.c) { MI k=p.first; ++k[j]; r.add(k,p.second/Iv((long)k[j])); } return r; }
// f[k]: Taylor coefficients of a univariate function at the value of y
inline Ser scompose(std::vector<Iv> const& f, Ser const& y) { Ser w=y; w.c.erase(MI(y.n,0)); Ser r=sconst(y.n,y.d,f.back()); for (size_t k=f.size()-1;k>0;--k) r=r*w+f[k-1]; return r; }
inline Ser scompose(Ser const& x, std::vector<Ser> const& y) { std::vector<Ser> w=y; int d=x.d; for (auto& u:w) { u.c.erase(MI(u.n,0)); d=std::min(d,u.d); } size_t n=y[0].n; Ser r(n,d); for (auto& p:x.c) { Ser t=sconst(n,d,p.second); for (size_t j=0;j<x.n;++j) for (int k=0;k<p.first[j];++k) t=t*w[j]; r=r+t; } return r; }
// Taylor coefficients by recurrences other than the library's
inline std::vector<Iv> tmul(std::vector<Iv> const& a, std::vector<Iv> const& b) { std::vector<Iv> r; for (size_t k=0;k<a.size();++k) { Iv t(0); for (size_t i=0;i<=k;++i) t=t+a[i]*b[k-i]; r.push_back(t); } return r; }
inline std::vector<Iv> tdiv(std::vector<Iv> const& a, std::vector<Iv> const& b) { std::vector<Iv> r; for (size_t k=0;k<a.size();++k) { Iv t=a[k]; for (size_t i=0;i<k;++i) t=t-r[i]*b[k-i]; r.push_back(t/b[0]); } return r; }
inline std::vector<Iv> taylor(std::string const& f, Iv const& c, int d) { std::vector<Iv> r; std::vector<Iv> x(d+1,Iv(0)); x[0]=c; if (d>0) x[1]=Iv(1); std::vector<Iv> one(d+1,Iv(0)); one[0]=Iv(1);
    auto fact=[](int k){ Iv t(1); for (int i=2;i<=k;++i) t=t*Iv((long)i); return t; };
    if (f=="exp") { Iv e=exp(c); for (int k=0;k<=d;++k) r.push_back(e/fact(k)); }
    else if (f=="sin"||f=="cos") { Iv sn=sin(c), cs=cos(c); for (int k=0;k<=d;++k) { int q=(k+(f=="cos"?1:0))%4; Iv v=q==0?sn:q==1?cs:q==2?-sn:-cs; r.push_back(v/fact(k)); } }
    else if (f=="tan") r=tdiv(taylor("sin",c,d),taylor("cos",c,d));
    else if (f=="rec") r=tdiv(one,x);
    else if (f=="sqr") r=tmul(x,x);
    else if (f=="neg") { for (auto& t:x) r.push_back(-t); }
    else if (f=="pos") r=x;
    else if (f=="hlf") { for (auto& t:x) r.push_back(t*Iv(Q(1,2))); }
    else if (f=="sqrt") { r.push_back(sqrt(c)); for (int k=1;k<=d;++k) { Iv t=x[k]; for (int i=1;i<k;++i) t=t-r[i]*r[k-i]; r.push_back(t/(r[0]*Iv(2))); } }
    else if (f=="log"||f=="atan") { std::vector<Iv> g=x; if (f=="atan") { g=tmul(x,x); g[0]=g[0]+Iv(1); } g=tdiv(one,g); r.push_back(f=="log"?log(c):atan(c)); for (int k=1;k<=d;++k) r.push_back(g[k-1]/Iv((long)k)); }
    return r; }
}
#endif
