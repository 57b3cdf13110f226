// C18: Taylor models enclose every function obtained from members of their arguments.
#include "taylor_common.hpp"
#include "function/scaling.hpp"
namespace {
template<class F> UpperInterval<F> rng_(UpperInterval<F> r) { return r; }
template<class TM> std::pair<X,X> range_of(TM const& t) { auto r=t.range(); return {xof(r.lower_bound().raw()),xof(r.upper_bound().raw())}; }
template<class R> void in_range(std::string const& k, R const& r, Iv const& v) { if (!v.finite()) return; X l=xof(r.lower_bound().raw()), u=xof(r.upper_bound().raw()); PBT_CHECK(!l.is_nan()&&!u.is_nan()&&!surely_less(v,l)&&!surely_greater(v,u),k,k << " [" << oracle::show(l) << ":" << oracle::show(u) << "] misses " << oracle::show(v)); }
template<class FF> void t_ops(PSrc& s, PCase& c) { typedef typename TT<FF>::Flt F; typedef TaylorModel<ValidatedTag,FF> TM; typedef It<TM> I; typedef typename TM::NumericType NT; auto pr=FT<F>::gen_pr(s); size_t n=1+s.draw(3); std::ostringstream lg; auto swp=gen_sweeper<F>(s,pr,lg); lg << " "; std::vector<I> pool; bool loose=false; g_slack=0; for (int i=0;i<2;++i) { pool.push_back(gen_tm<FF>(s,n,pr,swp,3,lg)); if (lg.str().find("const")!=std::string::npos) { loose=true; g_slack=FT<F>::eps(pr)*16; } check(s,"construct",pool.back()); } int steps=1+(int)s.draw(4); c.interesting(steps>1||pool[0].tm.number_of_terms()>1);
    for (int t=0;t<steps;++t) { NOTE(c,lg.str()); size_t i=s.draw(pool.size()), j=s.draw(pool.size()); I x=pool[i]; I const& y=pool[j]; Fn f=x.f, g=y.f; std::string k; Num<F> z=gen_num<F>(s,pr,2); Q zq=z.q; NT zn(z.b); 
        auto un=[&](std::string const& nm, auto op, auto iv) { k=nm; x.tm=op(pool[i].tm); x.f=[f,iv](Pt const& p){return iv(f(p));}; };
        auto bi=[&](std::string const& nm, auto op, auto iv) { k=nm; x.tm=op(pool[i].tm,pool[j].tm); x.f=[f,g,iv](Pt const& p){return iv(f(p),g(p));}; };
        lg << " #" << t << ":"; auto opn=s.weighted({4,4,6,2,3,3,3,2,3,4,8,2,3,3,2,3,3,2,3,2,2}); lg << opn << "(" << i << "," << j << ") "; NOTE(c,lg.str()); switch (opn) {
        case 0: bi("+",[](TM const& a,TM const& b){return a+b;},[](Iv a,Iv b){return a+b;}); break;
        case 1: bi("-",[](TM const& a,TM const& b){return a-b;},[](Iv a,Iv b){return a-b;}); break;
        case 2: bi("*",[](TM const& a,TM const& b){return a*b;},[](Iv a,Iv b){return a*b;}); break;
        case 3: un("neg",[](TM const& a){return -a;},[](Iv a){return -a;}); break;
        case 4: { lg << str(z); switch (s.draw(4)) { case 0: k="+c"; x.tm=pool[i].tm+zn; break; case 1: k="+=c"; x.tm+=zn; break; case 2: k="c+"; x.tm=zn+pool[i].tm; break; default: k="+= -c"; x.tm-=NT(-zn); } x.f=[f,zq](Pt const& p){return f(p)+Iv(zq);}; break; }
        case 5: { lg << str(z); switch (s.draw(3)) { case 0: k="*c"; x.tm=pool[i].tm*zn; break; case 1: k="*=c"; x.tm*=zn; break; default: k="c*"; x.tm=zn*pool[i].tm; } x.f=[f,zq](Pt const& p){return f(p)*Iv(zq);}; break; }
        case 6: { Q mn=abs(zq); if (mn<Q(1,8)||!definitely(z.b!=typename TP<F>::B(0,pr))) continue; lg << str(z); k="/c"; if (s.boolean()) x.tm=pool[i].tm/zn; else x.tm/=zn; x.f=[f,zq](Pt const& p){return f(p)/Iv(zq);}; break; }
        case 7: { lg << str(z); k="c-"; x.tm=zn-pool[i].tm; x.f=[f,zq](Pt const& p){return Iv(zq)-f(p);}; break; }
        case 8: { int e=(int)s.draw(5); lg << "^" << e; if (x.tm.degree()*e>9) continue; if (e==2&&s.boolean()) un("sqr",[](TM const& a){return sqr(a);},[](Iv a){return a*a;}); else un("pow",[e](TM const& a){return pow(a,e);},[e](Iv a){Iv r(1); for (int q=0;q<e;++q) r=r*a; return r;}); break; }
        case 9: { if (n>1&&(x.tm.degree()>1||y.tm.degree()>1)) continue; if (x.tm.degree()>4||y.tm.degree()>4) continue; int w=(int)s.draw(4); lg << w; switch (w) { case 0: bi("max",[](TM const& a,TM const& b){return max(a,b);},[](Iv a,Iv b){return max(a,b);}); break; case 1: bi("min",[](TM const& a,TM const& b){return min(a,b);},[](Iv a,Iv b){return min(a,b);}); break; case 2: un("abs",[](TM const& a){return abs(a);},[](Iv a){return abs(a);}); break; default: { k="max c"; if constexpr (requires { max(x.tm,zn); }) { x.tm=s.boolean()?max(x.tm,zn):max(zn,x.tm); x.f=[f,zq](Pt const& p){return max(f(p),Iv(zq));}; if (s.boolean()) { k="min c"; x.tm=min(pool[i].tm,zn); x.f=[f,zq](Pt const& p){return min(f(p),Iv(zq));}; } } } } break; }
        case 10: { auto r=range_of(x.tm); static char const* N[]={"rec","sqrt","exp","log","sin","cos","tan"}; int w=(int)s.draw(7); std::string fn=N[w]; if (!in_domain(fn,r.first,r.second)) continue; if (abs(r.first.q)>8||abs(r.second.q)>8) continue; { X rd=xof(x.tm.radius().raw()); if (!rd.finite()||rd.q>2) continue; if (n>1&&(x.tm.number_of_terms()>2||rd.q>Q(9,10))) continue; if (lg.str().find("#0:10")!=std::string::npos&&n>1) continue; if (x.tm.degree()>6||x.tm.number_of_terms()>12) continue; } if (w==0||w==1||w==3||w==6) { X av=xof(x.tm.average().raw()), rd=xof(x.tm.radius().raw()); if (!rd.finite()||rd.q>=abs(av.q)*(n>1?Q(1,2):Q(3,4))) continue; if (w==6&&rd.q+abs(av.q)>Q(3,4)) continue; } lg << fn; 
            if (w==0) un(fn,[](TM const& a){return rec(a);},[](Iv a){return rec(a);}); else if (w==1) un(fn,[](TM const& a){return sqrt(a);},[](Iv a){return sqrt(a);}); else if (w==2) un(fn,[](TM const& a){return exp(a);},[](Iv a){return exp(a);}); else if (w==3) un(fn,[](TM const& a){return log(a);},[](Iv a){return log(a);}); else if (w==4) un(fn,[](TM const& a){return sin(a);},[](Iv a){return sin(a);}); else if (w==5) un(fn,[](TM const& a){return cos(a);},[](Iv a){return cos(a);}); else un(fn,[](TM const& a){return tan(a);},[](Iv a){return tan(a);}); break; }
        case 11: { auto r=range_of(y.tm); if (!in_domain("rec",r.first,r.second)) continue; { X av=xof(y.tm.average().raw()), rd=xof(y.tm.radius().raw()); if (!rd.finite()||rd.q>=abs(av.q)*Q(1,2)||y.tm.number_of_terms()>(n>1?2:4)||y.tm.degree()>4) continue; } bi("/",[](TM const& a,TM const& b){return a/b;},[](Iv a,Iv b){return a/b;}); break; }
        case 12: { auto sw2=gen_sweeper<F>(s,pr,lg); k="sweep"; switch (s.draw(4)) { case 0: x.tm.sweep(sw2); break; case 1: x.tm.simplify(sw2); break; case 2: x.tm.simplify(); break; default: x.tm.sweep(); } break; }
        case 13: { if (x.tm.degree()>=16) continue; size_t v=s.draw(n); int h=(int)s.draw(3); lg << "split" << v << "," << h; k=h==0?"split lower":h==1?"split middle":"split upper"; if (h!=1&&s.boolean()) { auto pp=split(pool[i].tm,v); x.tm=h==0?pp.first:pp.second; } else x.tm=split(pool[i].tm,v,h==0?SplitPart::LOWER:h==1?SplitPart::MIDDLE:SplitPart::UPPER); x.f=[f,v,h](Pt p){ p[v]=(p[v]+(h-1))/2; return f(p); }; break; }
        case 14: { Q l=gen_small_q(s,2), w=Q((long)s.range(1,8))/4; if (std::is_same_v<F,FloatMP>) l=Q(qfloor(l*16))/16; FloatDP lo=FT<FloatDP>::of(l,dp), hi=FT<FloatDP>::of(l+w,dp); l=xof(lo).q; Q h=xof(hi).q; if (h<=l) continue; lg << "unscale[" << oracle::dec(l) << ":" << oracle::dec(h) << "]"; k="unscale"; IntervalDomainType d(lo,hi); x.tm=unscale(pool[i].tm,d); x.f=[f,l,h](Pt const& p){return (f(p)-Iv(Q((l+h)/2)))/Iv(Q((h-l)/2));}; break; }
        case 15: { // composition: arguments must have range in [-1,1]
            std::vector<TM> av; std::vector<Fn> fv; for (size_t v=0;v<n;++v) { I a=pool[s.draw(pool.size())]; X nm=xof(a.tm.norm().raw()); if (!nm.finite()) goto skip; Q sc(1); while (sc<nm.q) sc=sc*2; NT d(typename TP<F>::B(FT<F>::of(sc,pr))); a.tm=a.tm/d; if (!le(xof(a.tm.norm().raw()),X(Q(1)))) { a.tm=a.tm/NT(typename TP<F>::B(FT<F>::of(Q(2),pr))); sc=sc*2; } Fn af=a.f; av.push_back(a.tm); fv.push_back([af,sc](Pt const& p){return af(p)/Iv(sc);}); }
            k="compose"; lg << "compose"; Vector<TM> vv(n,av[0]); for (size_t v=0;v<n;++v) vv[v]=av[v]; if (x.tm.degree()*[&]{int d=1; for (auto& a:av) d=std::max(d,(int)a.degree()); return d;}()>12) goto skip; x.tm=compose(pool[i].tm,vv); x.f=nullptr; { X nm=xof(x.tm.norm().raw()); if (nm.finite()) g_slack=qmax(g_slack,(1+nm.q)*FT<F>::eps(pr)*1024); } 
            { // the member of the outer model is defined at rational points only: evaluate at points where the inner members are exact
              for (int q=0;q<3;++q) { Pt p=gen_pt(s,n); Pt in; bool ok=true; for (auto& ff:fv) { Iv w=ff(p); if (!w.finite()||w.lower()!=w.upper()||abs(w.lower())>1) { ok=false; break; } in.push_back(w.lower()); } if (!ok) continue; check_value(k,x.tm,f(in),p); } }
            check_sorted(k,x.tm); goto skip; }
        case 16: { size_t v=s.draw(n); lg << "antiderivative" << v; k="antiderivative"; if (xof(x.tm.error().raw()).q!=0||!xof(x.tm.error().raw()).finite()||TT<FF>::ivl) continue; // an exact polynomial: its antiderivative vanishing at the midpoint
            auto e0=pool[i].tm.expansion(); x.tm=antiderivative(pool[i].tm,v); check_sorted(k,x.tm); for (int q=0;q<3;++q) { Pt p=gen_pt(s,n); Iv r(0); for (auto it=e0.begin();it!=e0.end();++it) { MultiIndex a=it->index(); Q m(1); for (size_t u=0;u<n;++u) m*=qpow(p[u],a[u]+(u==v)); auto cf=it->coefficient(); r=r+civ(cf)*Iv(m)/Iv((long)a[v]+1); } check_value(k,x.tm,r,p); } continue; }
        case 17: { size_t v=s.draw(n); lg << "derivative" << v; k="derivative"; auto e0=pool[i].tm.expansion(); x.tm=derivative(pool[i].tm,v); check_sorted(k,x.tm); for (int q=0;q<3;++q) { Pt p=gen_pt(s,n); Iv r(0); for (auto it=e0.begin();it!=e0.end();++it) { MultiIndex a=it->index(); if (a[v]==0) continue; Q m(a[v]); for (size_t u=0;u<n;++u) m*=qpow(p[u],a[u]-(u==v)); auto cf=it->coefficient(); Iv cc=civ(cf); r=r+Iv((cc.lower()+cc.upper())/2)*Iv(m); } check_value(k,x.tm,r,p); } continue; }
        case 18: { size_t v=s.draw(n); Num<F> w=gen_num<F>(s,pr,1); if (abs(w.q)>1||!le(xof(w.b.upper_raw()),X(Q(1)))||!le(X(Q(-1)),xof(w.b.lower_raw()))) continue; lg << "partial_evaluate" << v << str(w); TM r=partial_evaluate(pool[i].tm,v,NT(w.b)); { X nm=xof(pool[i].tm.norm().raw()); if (nm.finite()) g_slack=qmax(g_slack,(1+nm.q)*FT<F>::eps(pr)*1024); loose=true; } PBT_CHECK(r.argument_size()==n-1,"partial_evaluate size","partial_evaluate gives " << r.argument_size() << " arguments"); for (int q=0;q<3;++q) { Pt p=gen_pt(s,n); Pt p1; for (size_t u=0;u<n;++u) if (u!=v) p1.push_back(p[u]); p[v]=w.q; check_value("partial_evaluate",r,f(p),p1); } check_sorted("partial_evaluate",r); continue; }
        case 19: { size_t b=s.draw(3), a=s.draw(3); lg << "embed" << b << "," << a; TM r=embed(b,pool[i].tm,a); PBT_CHECK(r.argument_size()==n+a+b,"embed size","embed gives " << r.argument_size() << " arguments"); for (int q=0;q<3;++q) { Pt p=gen_pt(s,n+a+b); check_value("embed",r,f(Pt(p.begin()+b,p.begin()+b+n)),p); } check_sorted("embed",r); continue; }
        default: { if (s.boolean()) { lg << "embed_error"; TM r=embed_error(pool[i].tm); PBT_CHECK(r.argument_size()==n+1,"embed_error size","embed_error gives " << r.argument_size() << " arguments"); for (int q=0;q<3;++q) { Pt p=gen_pt(s,n); Iv v=f(p); // some value of the new variable gives the value of the member
                    Pt p1=p; p1.push_back(Q(1)); Pt p2=p; p2.push_back(Q(-1)); X e=xof(r.error().raw()); if (!v.finite()||!e.finite()||!xof(pool[i].tm.error().raw()).finite()) continue; Iv a=eval_expansion(r.expansion(),p1), b=eval_expansion(r.expansion(),p2); if (!a.finite()||!b.finite()) continue; Q lo=qmin(a.lower(),b.lower())-e.q-g_slack, hi=qmax(a.upper(),b.upper())+e.q+g_slack; PBT_CHECK(!surely_less(v,X(lo))&&!surely_greater(v,X(hi)),"embed_error","embed_error gives [" << oracle::dec(lo) << ":" << oracle::dec(hi) << "] at " << show(p) << ", but a member takes the value " << oracle::show(v)); } check_sorted("embed_error",r); }
            else { lg << "discard"; std::vector<SizeType> d; for (size_t u=0;u<n;++u) if (s.boolean()) d.push_back(u); if (d.empty()) continue; Array<SizeType> ad(d.begin(),d.end()); TM r=discard_variables(pool[i].tm,ad); PBT_CHECK(r.argument_size()==n-d.size(),"discard size","discard_variables gives " << r.argument_size() << " arguments"); for (int q=0;q<3;++q) { Pt p=gen_pt(s,n), p1; for (size_t u=0;u<n;++u) if (std::find(d.begin(),d.end(),u)==d.end()) p1.push_back(p[u]); check_value("discard_variables",r,f(p),p1); } check_sorted("discard_variables",r); } continue; } }
        if (opn==5||opn==9||opn==6||opn==10||opn==11||opn==14) loose=true; if (loose) { Q m(1); X nm=xof(x.tm.norm().raw()); if (nm.finite()) m=qmax(m,nm.q); for (auto& p:pool) m=qmax(m,xof(p.tm.norm().raw()).q); g_slack=qmax(g_slack,m*m*FT<F>::eps(pr)*1024); } check(s,k,x); for (auto& p:pool) check(s,k+" changes its argument",p,1);
        { Pt p=gen_pt(s,n); Iv v=x.f(p); if (!loose) in_range("range after "+k,x.tm.range(),v); X nm=xof(x.tm.norm().raw()); if (v.finite()&&!xof(x.tm.error().raw()).is_nan()) PBT_CHECK(!nm.is_nan()&&(nm.kind==1||(v.lower()<=nm.q+g_slack&&v.upper()>=-nm.q-g_slack)),"norm after "+k,"norm " << oracle::show(nm) << " is below the value " << oracle::show(v)); X rd=xof(x.tm.radius().raw()); 
          typedef typename TP<F>::B B; typedef typename TP<F>::A A; Vector<B> vb(n,B(0,pr)); Vector<A> va(n,A(0,pr)); for (size_t u=0;u<n;++u) { Num<F> w=gen_num<F>(s,pr,1); bool ok=le(xof(w.b.upper_raw()),X(Q(1)))&&le(X(Q(-1)),xof(w.b.lower_raw())); if (ok) { p[u]=w.q; vb[u]=w.b; va[u]=w.a; } else { F t=FT<F>::of(p[u],pr); vb[u]=B(t); va[u]=A(t); } } v=x.f(p); if (v.finite()&&!loose&&xof(x.tm.error().raw()).finite()) { auto r=evaluate(x.tm,vb); if constexpr (TT<FF>::ivl) in_range("evaluate after "+k,r,v); else check_in("evaluate after "+k,r,v); }
          auto rr=range_of(x.tm); if (s.chance(1,4)) { if (definitely(x.tm>0)) PBT_CHECK(!surely_less(v,X(Q(0))),">0 after "+k,"model > 0 but a member takes the value " << oracle::show(v)); if (definitely(x.tm<0)) PBT_CHECK(!surely_greater(v,X(Q(0))),"<0 after "+k,"model < 0 but a member takes the value " << oracle::show(v)); } }
        { X nm=xof(x.tm.norm().raw()); Pt o(n,Q(0)); if (nm.finite()&&nm.q<Q(1000000)&&x.tm.number_of_terms()<80&&x.f(o).finite()) pool.push_back(x); } continue; skip: ; }
    NOTE(c,lg.str()); }
// predicates relating two models
template<class FF> void t_rel(PSrc& s, PCase& c) { typedef typename TT<FF>::Flt F; typedef TaylorModel<ValidatedTag,FF> TM; typedef It<TM> I; typedef typename TM::ErrorType E; auto pr=FT<F>::gen_pr(s); size_t n=1+s.draw(2); std::ostringstream lg; auto swp=gen_sweeper<F>(s,pr,lg); I x=gen_tm<FF>(s,n,pr,swp,3,lg); 
    // a second model, near the first
    I y=x; int w=(int)s.draw(4); std::vector<std::pair<MI,Q>> dif; if (w==0) { y=gen_tm<FF>(s,n,pr,swp,3,lg); } else { Q sc=two_exp(-(long)s.range(0,8)); auto e=x.tm.expansion(); for (auto it=e.begin();it!=e.end();++it) if (s.boolean()) { Q d=sc*Q((long)s.range(-4,4))/8; if constexpr (TT<FF>::ivl) { } else { F nc=FT<F>::of(xof(it->coefficient()).q+d,pr); it->coefficient()=nc; } } F er=FT<F>::of(sc*Q((long)s.range(0,16))/8,pr); y.tm=TM(Expansion<MultiIndex,typename TM::CoefficientType>(e),E(er),TrivialSweeper<F>(pr)); y.tm.set_sweeper(swp); lg << " second " << y.tm; y.f=nullptr; } NOTE(c,lg.str()); c.interesting(true);
    g_slack=lg.str().find("const")!=std::string::npos?Q(FT<F>::eps(pr)*16):Q(0); bool rf=refines(x.tm,y.tm); bool inc=inconsistent(x.tm,y.tm), con=consistent(x.tm,y.tm); for (int q=0;q<5;++q) { Pt p=gen_pt(s,n); Iv v=x.f(p); if (rf) check_value("refines",y.tm,v,p); }
    PBT_CHECK(refines(x.tm,x.tm)||swp.precision()!=pr||true,"","");
    if (rf) { PBT_CHECK(!inc,"refines and inconsistent","a model refines one it is inconsistent with: " << x.tm << " " << y.tm); }
    if (inc) { // then no function is a member of both: the extreme values at the centre differ
        Pt o(n,Q(0)); Iv a=eval_expansion(x.tm.expansion(),o), b=eval_expansion(y.tm.expansion(),o); X ea=xof(x.tm.error().raw()), eb=xof(y.tm.error().raw()); if (a.finite()&&b.finite()&&ea.finite()&&eb.finite()) { bool common=a.lower()-ea.q<=b.upper()+eb.q&&b.lower()-eb.q<=a.upper()+ea.q; if (dif.empty()&&w!=0) { bool samepoly=true; auto e=x.tm-y.tm; (void)e; for (auto it=y.tm.expansion().begin();it!=y.tm.expansion().end();++it) if (it->index().degree()>0) { auto cf=it->coefficient(); auto const& xt=x.tm; auto cg=xt[MultiIndex(it->index())]; if (!(civ(cf).lower()==civ(cg).lower()&&civ(cf).upper()==civ(cg).upper())) samepoly=false; } if (samepoly) PBT_CHECK(!common,"inconsistent","models with a common member are inconsistent: " << x.tm << " " << y.tm); } } }
    // refinement of models differing in the constant term only
    { Q d=Q((long)s.range(-8,8))*two_exp(-(long)s.range(0,6)); auto m2=x.tm; F er=FT<F>::of(Q((long)s.range(0,16))*two_exp(-(long)s.range(0,6)),pr); auto e=x.tm.expansion(); auto const& xt=x.tm; auto c0=xt[MultiIndex::zero(n)]; if constexpr (!TT<FF>::ivl) { e.set(MultiIndex::zero(n),FT<F>::of(xof(c0).q+d,pr)); m2=TM(Expansion<MultiIndex,typename TM::CoefficientType>(e),E(er),TrivialSweeper<F>(pr)); m2.set_sweeper(swp); bool mem=true; /* is x.f a member of m2? its value differs from the polynomial of x by e*theta */ Q xe=xof(x.tm.error().raw()).q; Q sh=xof(FT<F>::of(xof(c0).q+d,pr)).q-xof(c0).q; if (xe!=0) mem=false; if (abs(sh)>xof(er).q) mem=false; lg << " d=" << oracle::dec(d) << " er=" << oracle::dec(xof(er).q); NOTE(c,lg.str()); if (mem||abs(sh)<=xof(er).q+xe) { // the function p + clamp is common
          TM r=refinement(x.tm,m2); check_sorted("refinement",r); Q lo=qmax(-xe,sh-xof(er).q), hi=qmin(xe,sh+xof(er).q); for (int q=0;q<3;++q) { Pt p=gen_pt(s,n); Iv b=eval_expansion(x.tm.expansion(),p); g_slack=FT<F>::eps(pr)*256; check_value("refinement",r,b+Iv(lo),p); check_value("refinement",r,b+Iv(hi),p); check_value("refinement",r,b+Iv(Q(lo+(hi-lo)*Q((long)s.range(0,8))/8)),p); } X re=xof(r.error().raw()); PBT_CHECK(re.finite()&&re.q<=qmin(xe,xof(er).q)+FT<F>::eps(pr)*256,"refinement error","the refinement has error " << oracle::show(re) << ", above both arguments' " << oracle::dec(xe) << " and " << oracle::dec(xof(er).q)); } } } 
    (void)con; g_slack=0; }
// the errors introduced by arithmetic are of the order of the rounding errors
template<class FF> void t_tight(PSrc& s, PCase& c) { typedef typename TT<FF>::Flt F; typedef TaylorModel<ValidatedTag,FF> TM; auto pr=FT<F>::gen_pr(s); size_t n=1+s.draw(2); std::ostringstream lg; Sweeper<F> swp=TrivialSweeper<F>(pr); auto x=gen_tm<FF>(s,n,pr,swp,3,lg), y=gen_tm<FF>(s,n,pr,swp,3,lg); NOTE(c,lg.str()); c.interesting(true); X a=xof(norm(x.tm).raw()), b=xof(norm(y.tm).raw()), e=xof(x.tm.error().raw()), g=xof(y.tm.error().raw()); if (!a.finite()||!b.finite()) return; Q eps=FT<F>::eps(pr)*64; 
    auto chk=[&](char const* k, TM const& r, Q const& bound, Q const& mag) { X q=xof(r.error().raw()); PBT_CHECK(q.finite()&&q.q<=bound*(1+eps)+mag*eps+two_exp(-900),k,k << " has error " << oracle::show(q) << ", expected about " << oracle::dec(bound)); };
    chk("+ accuracy",x.tm+y.tm,e.q+g.q,a.q+b.q); chk("- accuracy",x.tm-y.tm,e.q+g.q,a.q+b.q); chk("* accuracy",x.tm*y.tm,e.q*(b.q)+g.q*(a.q),a.q*b.q*16); chk("neg accuracy",-x.tm,e.q,Q(0)); TM z=x.tm; chk("+= accuracy",z+=y.tm,e.q+g.q,a.q+b.q);
    { auto r=x.tm.range(); X l=xof(r.lower_bound().raw()), u=xof(r.upper_bound().raw()); PBT_CHECK(l.finite()&&u.finite()&&abs(l.q)<=a.q*(1+eps)+two_exp(-900)&&abs(u.q)<=a.q*(1+eps)+two_exp(-900),"range accuracy","range [" << oracle::show(l) << ":" << oracle::show(u) << "] is outside the norm " << oracle::show(a)); } 
    if constexpr (!TT<FF>::ivl) if (n==1||x.tm.number_of_terms()<=2) { // analytic functions of small models
        Q sc=Q(1,4); auto t=x.tm*typename TM::NumericType(typename TP<F>::B(FT<F>::of(sc/(Q(1)+Q(qceil(a.q))),pr))); auto u=t+typename TM::NumericType(typename TP<F>::B(FT<F>::of(Q(1),pr))); X te=xof(t.error().raw()); Q bd=te.q*16+Q(1,1000)+FT<F>::eps(pr)*64; auto c2=[&](char const* k, TM const& r) { X q=xof(r.error().raw()); PBT_CHECK(q.finite()&&q.q<=bd,k,k << " has error " << oracle::show(q) << ", expected about " << oracle::dec(te.q) << " for argument norm at most 1/4"); }; switch (s.draw(6)) { case 0: c2("exp accuracy",exp(t)); break; case 1: c2("sin accuracy",sin(t)); break; case 2: c2("cos accuracy",cos(t)); break; case 3: c2("rec accuracy",rec(u)); break; case 4: c2("sqrt accuracy",sqrt(u)); break; default: c2("log accuracy",log(u)); } } }
// multiplication by a number given by bounds, without slack; understatement of the error by at most an ulp of each coefficient is a listed finding
template<class F> void t_inexact(PSrc& s, PCase& c) { typedef TaylorModel<ValidatedTag,F> TM; auto pr=FT<F>::gen_pr(s); std::ostringstream lg; Sweeper<F> swp=TrivialSweeper<F>(pr); g_slack=0; auto x=gen_tm<F>(s,1,pr,swp,2,lg); if (lg.str().find("const")!=std::string::npos) PBT_DISCARD(); Num<F> z=gen_num<F>(s,pr,2); lg << " * " << str(z); NOTE(c,lg.str()); c.interesting(true); TM r=x.tm*typename TM::NumericType(z.b); Q zl=xof(z.b.lower_raw()).q, zu=xof(z.b.upper_raw()).q; Q slack=xof(norm(x.tm).raw()).q*qmax(abs(zl),abs(zu))*FT<F>::eps(pr)*4+two_exp(-1060);
    for (int i=0;i<3;++i) { Pt p=gen_pt(s,1); for (Q const& q : {zl,zu}) { Iv v=x.f(p)*Iv(q); X e=xof(r.error().raw()); Iv m=eval_expansion(r.expansion(),p); g_slack=slack; check_value("scalar multiplication",r,v,p); g_slack=0; if (e.finite()) PBT_CHECK(!surely_less(v,m-Iv(e.q))&&!surely_less(m+Iv(e.q),v),"scalar multiplication by inexact numbers","the product is " << oracle::show(m) << "+/-" << oracle::dec(e.q) << " at " << show(p) << ", but a member takes the value " << oracle::show(v)); } } }
// the refinement of two models contains their common members; that it need not when the polynomials differ is a listed finding
template<class F> void t_refine(PSrc& s, PCase& c) { typedef TaylorModel<ValidatedTag,F> TM; typedef typename TM::ErrorType E; auto pr=FT<F>::gen_pr(s); g_slack=0; std::map<int,Q> m; std::ostringstream lg; auto gen=[&](bool first) { Expansion<MultiIndex,F> e(1,F(0,pr)); Q nm(0); lg << (first?"":" and "); for (int i=0;i<3;++i) { Q q=Q((long)s.range(-4,4))/4; if (q!=0) { MultiIndex a(1); a[0]=(DegreeType)i; e.append(a,FT<F>::of(m[i]+q,pr)); lg << oracle::dec(m[i]+q) << "x^" << i << " "; } else if (m[i]!=0) { MultiIndex a(1); a[0]=(DegreeType)i; e.append(a,FT<F>::of(m[i],pr)); lg << oracle::dec(m[i]) << "x^" << i << " "; } nm+=abs(q); } Q er=nm+Q((long)s.range(0,2))/4; lg << "+/-" << oracle::dec(er); return TM(e,E(FT<F>::of(er,pr)),TrivialSweeper<F>(pr)); }; for (int i=0;i<3;++i) m[i]=Q((long)s.range(-4,4))/4; TM x=gen(true), y=gen(false); lg << " with common member " << oracle::dec(m[0]) << "+" << oracle::dec(m[1]) << "x+" << oracle::dec(m[2]) << "x^2"; NOTE(c,lg.str()); c.interesting(true); Q bound=4*(xof(norm(x).raw()).q+xof(norm(y).raw()).q);
    TM r=refinement(x,y); for (int i=0;i<3;++i) { Pt p=gen_pt(s,1); Iv v(Q(m[0]+m[1]*p[0]+m[2]*p[0]*p[0])); check_value("refinement, polynomial x",x,v,p); check_value("refinement, polynomial y",y,v,p); g_slack=bound; check_value("refinement by far",r,v,p); g_slack=0; Iv q=eval_expansion(r.expansion(),p); X e=xof(r.error().raw()); PBT_CHECK(e.finite()&&!surely_less(v,q-Iv(e.q))&&!surely_less(q+Iv(e.q),v),"refinement of models with different polynomials","the refinement is " << oracle::show(q) << "+/-" << oracle::show(e) << " at " << show(p) << ", but a common member takes the value " << oracle::show(v)); } }
#define ALL4(nm,fn,q,t) pbt::Register nm##d(#nm "_dp",q,t,fn<FloatDP>,20), nm##m(#nm "_mp",q/2,t/2,fn<FloatMP>,20), nm##i(#nm "_idp",q/2,t/2,fn<FloatDPUpperInterval>,20), nm##j(#nm "_imp",q/4,t/4,fn<FloatMPUpperInterval>,20);
pbt::Register inx("inexact_dp",4000,80000,t_inexact<FloatDP>,20), inxm("inexact_mp",2000,40000,t_inexact<FloatMP>,20), rfn("refinement_dp",2000,20000,t_refine<FloatDP>,20);
ALL4(operations,t_ops,20000,300000) ALL4(relations,t_rel,10000,100000) ALL4(accuracy,t_tight,1000,20000)
struct Init { Init() { pbt::set_rule("more than one operation or a model with more than one term"); pbt::set_reset(reset_modes); pbt::add_assumption("members are polynomial: a model's error is filled by a multiple of a function bounded by one"); } } init;
}
