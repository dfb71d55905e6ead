// C10: operations on lattice vectors against the same operations on their Cartesian coordinates.
#include "mon.hpp"
#include "lat.hpp"
#include "geometry.hpp"
using namespace mon; using namespace brille; using namespace brille::lattice; using lat::M9; using lat::V;
constexpr auto LA=LengthUnit::angstrom, LB=LengthUnit::inverse_angstrom;
template<class T> static std::vector<V> comp(const Array2<T>& a) { std::vector<V> v; for (ind_t i=0;i<a.size(0);++i) v.push_back({double(a.val(i,0)),double(a.val(i,1)),double(a.val(i,2))}); return v; }
struct Ctx { Monitor& M; const lat::Ref& f; lat::L l; M9 A,B; double K; Rng& r; };
template<class T, class R> static void pairs(Ctx& X, LengthUnit lu) {
  auto& M=X.M; auto& r=X.r; const M9& W=lu==LA?X.A:X.B; const M9& D=lu==LA?X.B:X.A; auto ld=lu==LA?LB:LA; const double w=lat::amax(W), tol=2e-13*X.K;
  auto gen=[&](ind_t n, auto z, double sc){ using Z=decltype(z); std::vector<std::array<Z,3>> v; for (ind_t i=0;i<n;++i) { std::array<Z,3> e; int kind=int(r.integer(0,3)); for (auto& y : e) y = kind==0 ? Z(r.integer(-3,3)) : kind==1&&!std::is_integral_v<Z> ? Z(r.integer(-12,12)/12.) : Z(r.uni(-5,5)*sc); if (e==std::array<Z,3>{}) e[int(r.integer(0,2))]=Z(1); v.push_back(e); } return v; };
  ind_t n=ind_t(r.integer(1,6)), na=n, nb=n; int bc=int(r.integer(0,3)); if (bc==1) na=1; if (bc==2) nb=1;
  auto ca=gen(na,T(0),1), cb=gen(nb,R(0),1); LVec<T> a(lu,X.l,bArray<T>::from_std(ca)); LVec<R> b(lu,X.l,bArray<R>::from_std(cb));
  auto VA=comp(a), VB=comp(b); std::vector<V> xa, xb; for (auto& v : VA) xa.push_back(lat::mulv(W,v)); for (auto& v : VB) xb.push_back(lat::mulv(W,v));
  const std::string id=cat(X.f.id,lu==LA?" direct ":" reciprocal ",na,"x",nb,std::is_same_v<T,int>?" int":" double",std::is_same_v<R,int>?" int":" double"); uint64_t h=13; for (auto& v : VA) for (auto x : v) h=hash_dbl(h,x); for (auto& v : VB) for (auto x : v) h=hash_dbl(h,x); M.distinct(h);
  auto ia=[&](ind_t i){return na==1?0u:i;}; auto ib=[&](ind_t i){return nb==1?0u:i;}; const ind_t no=std::max(na,nb); M.event("vector pairs",no); M.eval();
  auto vec=[&](const auto& o, LengthUnit ou, const auto& want, ind_t cnt, double sc, const std::string& k){ // result with Cartesian coordinates want(i)
    bool ok=o.type()==ou&&o.lattice()==X.l&&o.size(0)==cnt&&o.size(1)==3; M.check(ok,k+":kind",[&]{return cat(id,": ",o.size(0)," vectors expected ",cnt);}); if (!ok) return; auto c=comp(o); const M9& U=ou==LA?X.A:X.B;
    for (ind_t i=0;i<cnt;++i) { V x=lat::mulv(U,c[i]), y=want(i); M.check(lat::adiff(x,y)<=tol*sc,k,[&]{return cat(id,": ",i," is ",lat::show(x)," expected ",lat::show(y));}); } };
  auto val=[&](double x, double y, double sc, const std::string& k){ M.check(std::abs(x-y)<=tol*sc,k,[&]{return cat(id,": ",x," expected ",y);}); };
  const double s1=w*30, s2=w*w*300;
  M.site("sums"); vec(a+b,lu,[&](ind_t i){return lat::add(xa[ia(i)],xb[ib(i)]);},no,s1,"add"); vec(a-b,lu,[&](ind_t i){return lat::add(xa[ia(i)],xb[ib(i)],-1);},no,s1,"subtract"); vec(-a,lu,[&](ind_t i){return lat::scale(xa[i],-1);},na,s1,"negate");
  double s=r.uni(-4,4); if (std::abs(s)<0.1) s=2; vec(a*s,lu,[&](ind_t i){return lat::scale(xa[i],s);},na,s1*4,"scale"); vec(s*a,lu,[&](ind_t i){return lat::scale(xa[i],s);},na,s1*4,"scale:left"); vec(a/s,lu,[&](ind_t i){return lat::scale(xa[i],1/s);},na,s1*10,"divide"); vec(a*2,lu,[&](ind_t i){return lat::scale(xa[i],2);},na,s1*2,"scale:integer");
  { std::vector<std::array<double,1>> per; for (ind_t i=0;i<na;++i) per.push_back({r.uni(0.5,3)}); auto pa=bArray<double>::from_std(per); vec(a*pa,lu,[&](ind_t i){return lat::scale(xa[i],per[i][0]);},na,s1*3,"scale:each"); vec(a/pa,lu,[&](ind_t i){return lat::scale(xa[i],1/per[i][0]);},na,s1*3,"divide:each"); vec(pa*a,lu,[&](ind_t i){return lat::scale(xa[i],per[i][0]);},na,s1*3,"scale:each:left"); }
  if constexpr (std::is_same_v<T,R>) if (nb==na||nb==1) { auto c=LVec<T>(a).decouple(); c+=b; vec(c,lu,[&](ind_t i){return lat::add(xa[i],xb[ib(i)]);},na,s1,"add:inplace"); c-=b; vec(c,lu,[&](ind_t i){return xa[i];},na,s1*2,"subtract:inplace"); c*=T(3); vec(c,lu,[&](ind_t i){return lat::scale(xa[i],3);},na,s1*5,"scale:inplace"); vec(a,lu,[&](ind_t i){return xa[i];},na,s1,"operand-unchanged"); }
  { std::array<double,3> sh{r.uni(-2,2),r.uni(-2,2),r.uni(-2,2)}; V xs=lat::mulv(W,sh); vec(a+sh,lu,[&](ind_t i){return lat::add(xa[i],xs);},na,s1,"add:components"); vec(a-sh,lu,[&](ind_t i){return lat::add(xa[i],xs,-1);},na,s1,"subtract:components"); auto bare=lat::arr({sh}); vec(a+bare,lu,[&](ind_t i){return lat::add(xa[i],xs);},na,s1,"add:bare"); vec(a-bare,lu,[&](ind_t i){return lat::add(xa[i],xs,-1);},na,s1,"subtract:bare"); vec(bare-a,lu,[&](ind_t i){return lat::add(xs,xa[i],-1);},na,s1,"subtract:bare:left"); }
  M.site("products"); { auto d=dot(a,b); M.check(d.size(0)==no&&d.size(1)==1,"dot:shape",[&]{return id;}); if (d.size(0)==no) for (ind_t i=0;i<no;++i) val(d.val(i,0),lat::dot(xa[ia(i)],xb[ib(i)]),s2,"dot"); }
  vec(cross(a,b),lu,[&](ind_t i){return lat::cross(xa[ia(i)],xb[ib(i)]);},no,s2,"cross");
  { auto nn=norm(a); for (ind_t i=0;i<na&&nn.size(0)==na;++i) { val(nn.val(i,0),lat::norm(xa[i]),s1,"norm"); val(a.norm(i),lat::norm(xa[i]),s1,"norm:indexed"); } M.check(nn.size(0)==na,"norm:shape",[&]{return id;}); }
  for (int k=0;k<2;++k) { ind_t i=ind_t(r.integer(0,na-1)), j=ind_t(r.integer(0,na-1)); val(a.dot(i,j),lat::dot(xa[i],xa[j]),s2,"dot:indexed"); vec(a.cross(i,j),lu,[&](ind_t){return lat::cross(xa[i],xa[j]);},1,s2,"cross:indexed"); }
  { bool threw=false; try { (void)a.dot(0,na); } catch (const std::out_of_range&) { threw=true; } M.check(threw,"dot:range",[&]{return id;}); M.check(a.cross(0,na).size(0)==0,"cross:range",[&]{return id;}); }
  M.site("duals"); { auto as=a.star(); vec(as,ld,[&](ind_t i){return xa[i];},na,s1*5*X.K,"star"); vec(as.star(),lu,[&](ind_t i){return xa[i];},na,s1*50*X.K,"star:star"); vec(star(a),ld,[&](ind_t i){return xa[i];},na,s1*5*X.K,"star:function");
    auto cq=gen(nb,R(0),1); LVec<R> q(ld,X.l,bArray<R>::from_std(cq)); auto vq=comp(q); auto d=dot(a,q); if (d.size(0)==no) for (ind_t i=0;i<no;++i) { double want=lat::dot(xa[ia(i)],lat::mulv(D,vq[ib(i)])); val(d.val(i,0),want,2*lat::PI*200,"dot:dual"); auto exact=2*lat::PI*lat::dot(VA[ia(i)],vq[ib(i)]); M.check(std::abs(d.val(i,0)-exact)<=1e-13*(std::abs(exact)+200),"dot:dual:exact",[&]{return id;}); } else M.fail("dot:dual:shape",id);
    int refused=0; auto t=[&](auto fn){ try { fn(); } catch (const std::exception&) { ++refused; } }; t([&]{(void)(a+q);}); t([&]{(void)(a-q);}); t([&]{(void)cross(a,q);}); t([&]{(void)brille::cat(0,a,q);}); if constexpr (std::is_same_v<T,R>) { if (nb==na||nb==1) { t([&]{ auto c=LVec<T>(a).decouple(); c+=q; }); t([&]{ auto c=LVec<T>(a).decouple(); c-=q; }); } else refused+=2; } else refused+=2; M.check(refused==6,"refuse:dual",[&]{return cat(id,": ",refused," of 6 refused");}); }
  M.site("Cartesian"); { auto x=a.xyz(); auto y=get_xyz(LVec<double>(a)); auto cx=comp(x); for (ind_t i=0;i<na;++i) { M.check(lat::adiff(cx[i],xa[i])<=tol*s1,"xyz",[&]{return id;}); M.check(lat::adiff(lat::at(y,i),cx[i])==0,"get-xyz",[&]{return id;}); } LVec<double> ad(a); auto xd=ad.xyz(); vec(from_xyz_like(ad,xd),lu,[&](ind_t i){return xa[i];},na,s1*X.K,"from-xyz:like"); vec(from_xyz_like(lu,X.l,xd),lu,[&](ind_t i){return xa[i];},na,s1*X.K,"from-xyz:unit"); vec(from_xyz_like(ld,X.l,xd),ld,[&](ind_t i){return xa[i];},na,s1*X.K,"from-xyz:dual"); }
  M.site("rotations"); { M9 m; const auto& g=X.f.pg; auto it=g.begin(); std::advance(it,r.u64()%g.size()); m=lat::fl(*it); if (r.chance(0.3)) for (auto& e : m) e=r.uni(-1,1); M9 C=lat::mul(lat::mul(W,m),lat::inv(W)); LVec<double> ad(a); vec(m*ad,lu,[&](ind_t i){return lat::mulv(C,xa[i]);},na,s1*10*X.K,"rotate"); 
    if (C[0]!=0) { // a symmetry operation of the direct lattice keeps lengths
      if (lu==LA) { M9 S=lat::fl(*it); auto rn=norm(S*ad); for (ind_t i=0;i<na;++i) val(rn.val(i,0),lat::norm(xa[i]),s1*30,"rotate:isometry"); } else { M9 S=lat::tr(lat::fl(*it)); auto rn=norm(S*ad); for (ind_t i=0;i<na;++i) val(rn.val(i,0),lat::norm(xa[i]),s1*30,"rotate:isometry"); } } }
  M.site("selections"); { ind_t i=ind_t(r.integer(0,na-1)); vec(a.view(i),lu,[&](ind_t){return xa[i];},1,s1,"view"); vec(a.extract(i),lu,[&](ind_t){return xa[i];},1,s1,"extract"); ind_t lo=ind_t(r.integer(0,na-1)), hi=ind_t(r.integer(lo+1,na)); vec(a.view(lo,hi),lu,[&](ind_t k){return xa[lo+k];},hi-lo,s1,"view:range");
    std::vector<ind_t> pk; for (int k=int(r.integer(1,5));k--;) pk.push_back(ind_t(r.integer(0,na-1))); vec(a.extract(pk),lu,[&](ind_t k){return xa[pk[k]];},ind_t(pk.size()),s1,"extract:list"); std::vector<bool> mk; std::vector<ind_t> sel; for (ind_t k=0;k<na;++k) { mk.push_back(r.chance(0.5)); if (mk.back()) sel.push_back(k); } vec(a.extract(mk),lu,[&](ind_t k){return xa[sel[k]];},ind_t(sel.size()),s1,"extract:mask");
    vec(brille::cat(0,a,b),lu,[&](ind_t k){return k<na?xa[k]:xb[k-na];},na+nb,s1,"cat"); vec(brille::cat(0,a,b,a),lu,[&](ind_t k){return k<na?xa[k]:k<na+nb?xb[k-na]:xa[k-na-nb];},2*na+nb,s1,"cat:three"); V tot{0,0,0}; for (auto& x : xa) tot=lat::add(tot,x); vec(LVec<T>(lu,X.l,a.sum(0)),lu,[&](ind_t){return tot;},1,s1*na,"sum"); }
  M.site("roundings"); { LVec<double> ad(a); ad*=0.37; auto cf=comp(ad); vec(ad.round(),lu,[&](ind_t i){V v=cf[i]; for (auto& x : v) x=std::round(x); return lat::mulv(W,v);},na,s1,"round"); vec(ad.floor(),lu,[&](ind_t i){V v=cf[i]; for (auto& x : v) x=std::floor(x); return lat::mulv(W,v);},na,s1,"floor"); vec(ad.ceil(),lu,[&](ind_t i){V v=cf[i]; for (auto& x : v) x=std::ceil(x); return lat::mulv(W,v);},na,s1,"ceil"); vec(abs(ad),lu,[&](ind_t i){V v=cf[i]; for (auto& x : v) x=std::abs(x); return lat::mulv(W,v);},na,s1,"abs"); }
  M.site("comparisons"); { auto c=LVec<T>(a).decouple(); M.check(a.is(c)&&c.is(a),"equal:copy",[&]{return id;}); c.val(0,0)+=T(1); M.check(!a.is(c)&&!c.is(a),"equal:different",[&]{return id;}); LVec<T> q(ld,X.l,bArray<T>::from_std(ca)); M.check(!a.is(q),"equal:dual",[&]{return id;}); M.check(a.same_lattice(b)&&!a.star_lattice(b)&&a.star_lattice(q)&&!a.same_lattice(q),"lattice-relations",[&]{return id;}); }
}
static void geometric(Ctx& X, LengthUnit lu) {
  auto& M=X.M; auto& r=X.r; const M9& W=lu==LA?X.A:X.B; const double w=lat::amax(W), tol=2e-12*X.K*X.K; M.site("geometry");
  auto rv=[&](double s=1){return V{r.uni(-2,2)*s,r.uni(-2,2)*s,r.uni(-2,2)*s};}; ind_t n=ind_t(r.integer(1,4)); std::vector<V> a,b,c,d; for (ind_t i=0;i<n;++i) { a.push_back(rv()); b.push_back(rv()); c.push_back(rv()); } const ind_t nd=r.chance(0.5)?n:1u; for (ind_t i=0;i<nd;++i) d.push_back(rv());
  auto mk=[&](const std::vector<V>& v){return LVec<double>(lu,X.l,lat::arr(v));}; auto la=mk(a),lb=mk(b),lc=mk(c),ldd=mk(d); auto x=[&](const V& v){return lat::mulv(W,v);};
  const std::string id=cat(X.f.id,lu==LA?" direct":" reciprocal"); auto tp=triple_product(la,lb,lc,ldd); auto nn=three_point_normal(la,lb,lc);
  for (ind_t i=0;i<n;++i) { V o=x(d[d.size()==1?0:i]); V p=lat::add(x(a[i]),o,-1),q=lat::add(x(b[i]),o,-1),s=lat::add(x(c[i]),o,-1); double want=lat::dot(p,lat::cross(q,s)); M.check(std::abs(tp.val(i,0)-want)<=tol*100*w*w*w,"triple-product",[&]{return cat(id,": ",tp.val(i,0)," expected ",want);});
    V m=lat::cross(lat::add(x(b[i]),x(a[i]),-1),lat::add(x(c[i]),x(b[i]),-1)); double l=lat::norm(m); if (l<0.05*w*w/X.K) continue; m=lat::scale(m,1/l); V g=lat::mulv(W,lat::at(nn,i)); M.check(lat::adiff(g,m)<=tol*100,"normal",[&]{return cat(id,": ",lat::show(g)," expected ",lat::show(m));}); M.event("planes");
    double side=lat::dot(lat::add(o,x(a[i]),-1),m); if (std::abs(side)>1e-6*w) { auto in=point_inside_plane(la.view(i),lb.view(i),lc.view(i),ldd.view(d.size()==1?0:i)); M.check(in.size()==1&&in[0]==(side<0),"behind-plane",[&]{return cat(id,": signed distance ",side," reported ",in.size()?int(in[0]):-1);}); auto ip=point_inside_planes(la,lb,lc,ldd.view(d.size()==1?0:i)); M.check(ip.size()==n&&ip[i]==(side<0),"behind-planes",[&]{return cat(id,": signed distance ",side);}); bool all=true,near=false; for (ind_t k=0;k<n;++k) { V mm=lat::cross(lat::add(x(b[k]),x(a[k]),-1),lat::add(x(c[k]),x(b[k]),-1)); double q2=lat::dot(lat::add(o,x(a[k]),-1),mm); near=near||std::abs(q2)<1e-6*w*w*w; all=all&&q2<0; } if (!near) M.check(point_inside_all_planes(la,lb,lc,ldd.view(d.size()==1?0:i))==all,"behind-all-planes",[&]{return id;}); }
  }
  // a plane from its normal: three points whose normal is the one given
  std::vector<V> nv,pv; for (ind_t i=0;i<n;++i) { V v=rv(); if (r.chance(0.3)) { V e{0,0,0}; if (r.chance(0.5)) e={1,1,1}; else e[int(r.integer(0,2))]=r.chance(0.5)?1:-1; v=lat::mulv(lat::inv(W),e); } nv.push_back(v); pv.push_back(rv()); } auto ln=mk(nv); ln/=norm(ln); auto lp=mk(pv); auto [pa,pb,pc]=plane_points_from_normal(ln,lp);
  for (ind_t i=0;i<n;++i) { V A=x(lat::at(pa,i)),B=x(lat::at(pb,i)),C=x(lat::at(pc,i)),N=x(nv[i]); N=lat::scale(N,1/lat::norm(N)); V m=lat::cross(lat::add(B,A,-1),lat::add(C,A,-1)); double l=lat::norm(m); M.check(l>0.5&&lat::adiff(lat::scale(m,1/l),N)<=1e-12*X.K*X.K*100&&lat::adiff(A,x(pv[i]))<=1e-12*X.K*w*10,"plane-from-normal",[&]{return cat(id,": normal ",lat::show(lat::scale(m,1/l))," expected ",lat::show(N));}); }
}
int main(int argc, char** argv) {
  Monitor M("C10", argc, argv); const auto& S=sym::settings();
  M.run(M.thorough() ? 150000 : 4240, [&](Rng& r, size_t c) {
    auto f=lat::make(c%S.size(), r); M.note(f.id); M.event("cells"); M9 A=f.A; int how=int(r.integer(0,3)); if (how>=1) A=lat::mul(lat::rotation(r),A); if (how==3) { for (auto& x : A) x=-x; M.event("left-handed cells"); }
    auto l = how ? Direct<double>(A,MatrixVectors::column,std::string(S[f.si].symbol)) : lat::direct(f); Ctx X{M,f,l,l.real_basis_vectors(),l.reciprocal_basis_vectors(),lat::cond(f.A),r};
    for (auto lu : {LA,LB}) { pairs<double,double>(X,lu); if (r.chance(0.5)) pairs<int,int>(X,lu); if (r.chance(0.5)) pairs<int,double>(X,lu); if (r.chance(0.5)) pairs<double,int>(X,lu); geometric(X,lu); }
    // another cell, or the same one turned: refused
    M.site("incompatible"); { auto o = r.chance(0.5) ? Direct<double>(lat::mul(lat::rotation(r),X.A),MatrixVectors::column,std::string("P 1")) : [&]{ auto len=f.c.len; len[int(r.integer(0,2))]*=1+std::pow(10.,r.uni(-6,-1)); return Direct<double>(len,f.c.ang,std::string("P 1")); }();
      auto lu=r.chance(0.5)?LA:LB; auto v=lat::arr({V{r.uni(-1,1),r.uni(-1,1),r.uni(-1,1)}}); LVec<double> a(lu,X.l,v), b(lu,o,v), q(lu==LA?LB:LA,o,v); int refused=0; std::string let; auto t=[&](const char* nm, auto fn){ try { fn(); let+=std::string(" ")+nm; } catch (const std::exception&) { ++refused; } };
      M.check(!a.same_lattice(b)&&!a.star_lattice(q)&&!a.is(b),"incompatible:relations",[&]{return f.id;});
      t("+",[&]{(void)(a+b);}); t("-",[&]{(void)(a-b);}); t("dot",[&]{(void)dot(a,b);}); t("dot*",[&]{(void)dot(a,q);}); t("cross",[&]{(void)cross(a,b);}); t("cat",[&]{(void)brille::cat(0,a,b);}); t("+=",[&]{auto x=a.decouple(); x+=b;}); t("-=",[&]{auto x=a.decouple(); x-=b;}); t("triple",[&]{(void)triple_product(a,a,b,a);}); M.check(refused==9,"incompatible:refused",[&]{return cat(f.id,": not refused:",let);}); M.event("incompatible operations",9); }
  });
}
