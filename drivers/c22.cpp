// C22: approximate comparison follows the stated tolerances.
#include "mon.hpp"
#include "array_.hpp"
#include "array_l_.hpp"
#include "approx_config.hpp"
#include "comparisons.hpp"
using namespace mon; using namespace brille;
namespace AF = brille::approx_float;
typedef long double ld;
template<class T> ld thr(T given, int mult, ld sum){ ld rel=static_cast<ld>(std::numeric_limits<T>::epsilon())*mult*10000, ab=5e-15L; ld g=static_cast<ld>(given); return std::max(g,ab)+std::max(g,rel)*std::abs(sum); }
// -1 different, +1 equal, 0 too close to the boundary to call
template<class T,class R> int verdict(T a, R b, T Tt, R Rt, int mult){
  if constexpr (std::is_integral<T>::value && std::is_integral<R>::value) return a==b? 1: -1;
  else { ld d=std::abs(static_cast<ld>(a)-static_cast<ld>(b)), s=static_cast<ld>(a)+static_cast<ld>(b), t;
    if constexpr (!std::is_integral<T>::value) t=thr<T>(Tt,mult,s); else t=thr<R>(Rt,mult,s);
    ld fuzz=(std::is_same<T,float>::value||std::is_same<R,float>::value? 1e-5L: 1e-9L)*t + (std::is_same<T,float>::value||std::is_same<R,float>::value? 2e-7L: 4e-16L)*std::max(std::abs(static_cast<ld>(a)),std::abs(static_cast<ld>(b)));
    if(d==0) return 1; return d<=t-fuzz? 1: d>t+fuzz? -1: 0; }
}
template<class T> T base(Rng& r){ if constexpr(std::is_integral<T>::value) return static_cast<T>(r.integer(-30,30)); else { switch(r.integer(0,4)){ case 0: return 0; case 1: return static_cast<T>(r.integer(-5,5)); case 2: return static_cast<T>(r.normal()); default: return static_cast<T>(r.normal()*std::pow(10.,r.uni(-6,6))); } } }
// a partner at a chosen multiple of the tolerance
template<class T,class R> R partner(Rng& r, T a, T Tt, R Rt, int mult){
  if constexpr (std::is_integral<R>::value) { return static_cast<R>(std::llround(static_cast<double>(a)) + r.integer(-1,1)); }
  else { ld t; if constexpr(!std::is_integral<T>::value) t=thr<T>(Tt,mult,2*static_cast<ld>(a)); else t=thr<R>(Rt,mult,2*static_cast<ld>(a));
    static const double f[]={0,0.1,0.5,0.9,0.99,1.01,1.1,2,10,1e3,1e6}; ld k=f[r.integer(0,10)]*(r.chance(0.5)?-1:1); return static_cast<R>(static_cast<ld>(a)+k*t); }
}
static bool want(cmp c, int lt, bool eq){ // lt: -1 less 0 same +1 greater (exact order)
  switch(c){ case cmp::lt: return !eq&&lt<0; case cmp::gt: return !eq&&lt>0; case cmp::le: return eq||lt<0; case cmp::ge: return eq||lt>0; case cmp::eq: return eq; case cmp::neq: return !eq; case cmp::nle: return !eq&&lt>0; case cmp::nge: return !eq&&lt<0; default: return false; } }
static const cmp ALL[]={cmp::lt,cmp::gt,cmp::le,cmp::ge,cmp::eq,cmp::neq,cmp::nle,cmp::nge};

template<class T,class R> void scalars(Monitor& m, Rng& r, const char* nm){
  m.site(cat("scalar ",nm));
  for(int k=0;k<60;++k){
    T Tt=0; R Rt=0; int mult=static_cast<int>(r.chance(0.3)? r.integer(1,1000): 1);
    double given = r.chance(0.4)?0: std::pow(10.,r.uni(-13,-0.5)); if(!std::is_integral<T>::value) Tt=static_cast<T>(given); if(!std::is_integral<R>::value) Rt=static_cast<R>(given);
    T a=base<T>(r); R b=partner<T,R>(r,a,Tt,Rt,mult);
    int v=verdict(a,b,Tt,Rt,mult); if(!v){ m.event("boundary cases left out"); continue; }
    bool eq=v>0; m.event(eq?"equal pairs":"unequal pairs"); m.eval(); m.distinct(hash_dbl(hash_dbl(hash_str(nm),static_cast<double>(a)),static_cast<double>(b)));
    auto det=[&]{ std::ostringstream s; s.precision(17); s<<nm<<" a="<<a<<" b="<<b<<" tol="<<given<<" mult="<<mult<<" expected "<<(eq?"equal":"different"); return s.str(); };
    m.check(AF::scalar(a,b,Tt,Rt,mult)==eq,cat("scalar:",nm),det);
    if(verdict(b,a,Rt,Tt,mult)==v) m.check(AF::scalar(b,a,Rt,Tt,mult)==eq,cat("symmetric:",nm),det);
    m.check(AF::scalar(a,a,Tt,Tt,mult),cat("reflexive:",nm),det);
    if(eq){ m.check(AF::scalar(a,b,static_cast<T>(2*Tt),static_cast<R>(2*Rt),mult),cat("monotone:",nm),det); m.check(AF::scalar(a,b,Tt,Rt,mult+1),cat("monotone multiplier:",nm),det); }
    else m.check(!AF::scalar(a,b,static_cast<T>(Tt/2),static_cast<R>(Rt/2),mult),cat("tightening:",nm),det);
    ld d=static_cast<ld>(a)-static_cast<ld>(b); int ord= d<0?-1:d>0?1:0;
    for(cmp c: ALL){ Comparer<T,R> op(c,Tt,Rt,mult); m.check(op(a,b)==want(c,ord,eq),cat("comparer ",to_string(c),":",nm),det); }
    { // a copy of a comparer keeps comparing the same way after the original is gone
      auto made=std::make_unique<Comparer<T,R>>(cmp::eq,Tt,Rt,mult); Comparer<T,R> copy(*made); made=std::make_unique<Comparer<T,R>>(cmp::neq,T(0),R(0),1); m.check(copy(a,b)==eq,cat("copied comparer:",nm),det); T va[2]={a,a}; R vb[2]={b,b}; m.check(copy(2,va,vb)==eq,cat("copied comparer vector:",nm),det); }
  }
}
template<class T,class R> void vectors(Monitor& m, Rng& r, const char* nm){
  size_t n=static_cast<size_t>(r.integer(1,9)); T Tt=0; R Rt=0; double given=r.chance(0.4)?0:std::pow(10.,r.uni(-12,-1)); if(!std::is_integral<T>::value)Tt=static_cast<T>(given); if(!std::is_integral<R>::value)Rt=static_cast<R>(given); int mult=static_cast<int>(r.chance(0.3)?r.integer(1,1000):1);
  size_t sa=static_cast<size_t>(r.integer(1,3)), sb=static_cast<size_t>(r.integer(1,3));
  std::vector<T> a(n*sa,T(0)); std::vector<R> b(n*sb,R(0)); std::vector<T> ac(n); std::vector<R> bc(n); bool eq=true; int trouble=static_cast<int>(r.integer(0,2)); // 0: all equal, else one odd
  std::vector<int> v(n), o(n); size_t odd=static_cast<size_t>(r.integer(0,(long long)n-1));
  for(size_t i=0;i<n;++i){ int tries=0; do { ac[i]=base<T>(r); if constexpr(std::is_integral<R>::value&&!std::is_integral<T>::value){ bc[i]=base<R>(r); ac[i]=static_cast<T>(bc[i]); } else bc[i]=static_cast<R>(ac[i]); if(trouble&&i==odd) bc[i]=partner<T,R>(r,ac[i],Tt,Rt,mult); v[i]=verdict(ac[i],bc[i],Tt,Rt,mult); } while(!v[i]&&++tries<20); if(!v[i]) return; eq&=v[i]>0; ld d=static_cast<ld>(ac[i])-static_cast<ld>(bc[i]); o[i]=d<0?-1:d>0?1:0; a[i*sa]=ac[i]; b[i*sb]=bc[i]; }
  auto det=[&]{ return cat(nm," a=",vstr(ac)," b=",vstr(bc)," tol=",given," mult=",mult," expected ",eq?"equal":"different"); };
  m.note(det()); m.site(cat("vector ",nm)); m.eval(); m.event(eq?"equal vectors":"unequal vectors");
  m.check(AF::vector(n,ac.data(),bc.data(),Tt,Rt,mult)==eq,cat("vector:",nm),det);
  m.check(AF::equal(ac,bc,Tt,Rt,mult)==eq,cat("equal(vector):",nm),det);
  { auto longer=bc; longer.push_back(R(0)); m.check(!AF::equal(ac,longer,Tt,Rt,mult),cat("equal of different sizes:",nm),det); }
  if(n==3){ std::array<T,3> aa{{ac[0],ac[1],ac[2]}}; std::array<R,3> bb{{bc[0],bc[1],bc[2]}}; m.check(AF::equal(aa,bb,Tt,Rt,mult)==eq,cat("equal(array):",nm),det); m.check(AF::vector(ac.data(),bc.data(),Tt,Rt,mult)==eq,cat("vector3:",nm),det); }
  if(n==9){ m.check(AF::matrix(ac.data(),bc.data(),Tt,Rt,mult)==eq,cat("matrix3:",nm),det); m.check(AF::matrix(3,ac.data(),bc.data(),Tt,Rt,mult)==eq,cat("matrix:",nm),det); }
  if(n%2==0) m.check(AF::array(2,n/2,ac.data(),bc.data(),Tt,Rt,mult)==eq,cat("array:",nm),det);
  for(cmp c: ALL){ Comparer<T,R> op(c,Tt,Rt,mult); bool neg= c==cmp::neq||c==cmp::nle||c==cmp::nge; bool w=!neg; for(size_t i=0;i<n;++i){ bool e=want(c,o[i],v[i]>0); if(neg) w|=e; else w&=e; } m.check(op(n,ac.data(),bc.data())==w,cat("comparer vector ",to_string(c),":",nm),det); m.check(op(n,a.data(),sa,b.data(),sb)==w,cat("comparer strided ",to_string(c),":",nm),det); }
  m.distinct(hash_str(det()));
}
template<class T> void arrays(Monitor& m, Rng& r, const char* nm){
  ind_t n=static_cast<ind_t>(r.integer(1,6)), k=static_cast<ind_t>(r.integer(1,4)); T tol=0; double given=r.chance(0.4)?0:std::pow(10.,r.uni(-11,-2)); if(!std::is_integral<T>::value) tol=static_cast<T>(given); int mult=static_cast<int>(r.chance(0.3)?r.integer(1,500):1);
  bArray<T> A(n,k), B(n,k); std::vector<std::vector<T>> a(n,std::vector<T>(k)), b=a; std::vector<std::vector<int>> v(n,std::vector<int>(k,1)), o=v;
  T val=base<T>(r);
  for(ind_t i=0;i<n;++i) for(ind_t j=0;j<k;++j){ int tries=0; do { a[i][j]=r.chance(0.4)?partner<T,T>(r,val,tol,tol,mult):base<T>(r); b[i][j]=r.chance(0.7)?a[i][j]:partner<T,T>(r,a[i][j],tol,tol,mult); v[i][j]=verdict(a[i][j],b[i][j],tol,tol,mult); if(!verdict(a[i][j],val,tol,tol,mult)) v[i][j]=0; } while(!v[i][j]&&++tries<30); if(!v[i][j]) return; A.val(i,j)=a[i][j]; B.val(i,j)=b[i][j]; o[i][j]=a[i][j]<b[i][j]?-1:a[i][j]>b[i][j]?1:0; }
  auto det=[&]{ std::string s=cat(nm," tol=",given," mult=",mult," val=",val," A="); for(auto&x:a)s+=vstr(x); s+=" B="; for(auto&x:b)s+=vstr(x); return s; };
  m.note(det()); m.eval(); m.distinct(hash_str(det()));
  auto vv=[&](ind_t i,ind_t j){ return verdict(a[i][j],val,tol,tol,mult)>0; }; auto vo=[&](ind_t i,ind_t j){ return a[i][j]<val?-1:a[i][j]>val?1:0; };
  m.site(cat("array compare ",nm));
  for(cmp c: ALL){ auto cs=to_string(c);
    bool all=true, any=false; size_t count=0, first=n*k, last=n*k; std::vector<ind_t> idx; size_t q=0; auto is=A.is(c,val,tol,mult); bool isok=true;
    for(ind_t i=0;i<n;++i)for(ind_t j=0;j<k;++j,++q){ bool e=want(c,vo(i,j),vv(i,j)); all&=e; any|=e; if(e){++count; if(first==n*k)first=q; last=q; idx.push_back(static_cast<ind_t>(q));} isok&=is.val(i,j)==e; }
    m.check(isok,cat("is value ",cs,":",nm),det);
    m.check(A.all(c,val,tol,mult)==all,cat("all ",cs,":",nm),det); m.check(A.any(c,val,tol,mult)==any,cat("any ",cs,":",nm),det); m.check(A.count(c,val,tol,mult)==count,cat("count ",cs,":",nm),det); m.check(A.first(c,val,tol,mult)==first,cat("first ",cs,":",nm),det); m.check(A.last(c,val,tol,mult)==last,cat("last ",cs,":",nm),det); m.check(A.find(c,val,tol,mult)==idx,cat("find ",cs,":",nm),det);
    auto isB=A.is(c,B,tol,tol,mult); bool ok=true; for(ind_t i=0;i<n;++i)for(ind_t j=0;j<k;++j) ok&=isB.val(i,j)==want(c,o[i][j],v[i][j]>0); m.check(ok,cat("is array ",cs,":",nm),det);
    auto rb=A.row_is(c,B,tol,tol,mult); bool neg= c==cmp::neq||c==cmp::nle||c==cmp::nge; ok=true; size_t rf=n, rl=n, rc=0; std::vector<ind_t> rfind; for(ind_t i=0;i<n;++i){ bool w=!neg; for(ind_t j=0;j<k;++j){ bool e=want(c,o[i][j],v[i][j]>0); if(neg)w|=e; else w&=e; } ok&=rb[i]==w; if(w){ if(rf==n)rf=i; rl=i; ++rc; rfind.push_back(i);} } m.check(ok,cat("row_is array ",cs,":",nm),det);
    m.check(A.first(c,B,tol,tol,mult)==rf&&A.last(c,B,tol,tol,mult)==rl&&A.count(c,B,tol,tol,mult)==rc&&A.find(c,B,tol,tol,mult)==rfind,cat("row search ",cs,":",nm),det);
    // broadcast one row
    ind_t p=static_cast<ind_t>(r.integer(0,n-1)); auto one=A.view(p); bool okb=true, okr=true, callable=true; size_t bf=n; auto ib=A.is(c,one,tol,tol,mult); auto rr=A.row_is(c,one,tol,tol,mult); auto rv=A.row_is(c,a[p],tol,tol,mult);
    for(ind_t i=0;i<n&&callable;++i){ bool w=!neg; for(ind_t j=0;j<k;++j){ int vd=verdict(a[i][j],a[p][j],tol,tol,mult); if(!vd){callable=false;break;} bool e=want(c,a[i][j]<a[p][j]?-1:a[i][j]>a[p][j]?1:0,vd>0); okb&=ib.val(i,j)==e; if(neg)w|=e; else w&=e; } if(!callable)break; okr&=rr[i]==w&&rv[i]==w; if(w&&bf==n)bf=i; }
    if(callable){ m.check(okb,cat("is row ",cs,":",nm),det); m.check(okr,cat("row_is row ",cs,":",nm),det); m.check(A.first(c,one,tol,tol,mult)==bf,cat("first row ",cs,":",nm),det); }
    std::vector<T> flat; for(auto&x:b) flat.insert(flat.end(),x.begin(),x.end()); auto ei=A.each_is(c,flat,tol,tol,mult); ok=ei.size()==n*k; q=0; if(ok) for(ind_t i=0;i<n;++i)for(ind_t j=0;j<k;++j) ok&=ei[q++]==want(c,o[i][j],v[i][j]>0); m.check(ok,cat("each_is ",cs,":",nm),det);
  }
  { bool le=true,ge=true; for(ind_t i=0;i<n;++i)for(ind_t j=0;j<k;++j){ le&=want(cmp::le,vo(i,j),vv(i,j)); ge&=want(cmp::ge,vo(i,j),vv(i,j)); } m.check(A.all(cmp::le_ge,val,tol,mult)==(le||ge),cat("all le_ge:",nm),det); }
  { bool e=true; for(auto&x:v)for(int y:x)e&=y>0; m.check(A.is(B,tol,tol,mult)==e,cat("array equality:",nm),det); m.check(A.is(A,tol,tol,mult)&&A==A,cat("array self equality:",nm),det); }
  // uniqueness
  { bool callable=true; std::vector<bool> u; std::vector<ind_t> ui; for(ind_t i=0;i<n&&callable;++i){ bool isu=true; ind_t id=i; for(ind_t j=0;j<i&&callable;++j){ bool same=true; for(ind_t p=0;p<k;++p){ int vd=verdict(a[i][p],a[j][p],tol,tol,mult); if(!vd)callable=false; same&=vd>0; } if(same)isu=false; if(same&&ui[j]==j&&id==i) id=j; } u.push_back(isu); ui.push_back(id); }
    if(callable){ m.check(A.is_unique(tol,mult)==u,cat("is_unique:",nm),det); m.check(A.unique_idx(tol,mult)==ui,cat("unique_idx:",nm),det); auto uq=A.unique(tol,mult); std::vector<ind_t> keep; for(ind_t i=0;i<n;++i)if(u[i])keep.push_back(i); bool ok=uq.size(0)==keep.size(); if(ok)for(size_t i=0;i<keep.size();++i)for(ind_t j=0;j<k;++j)ok&=uq.val(static_cast<ind_t>(i),j)==a[keep[i]][j]; m.check(ok,cat("unique:",nm),det); } }
  // row i equals row j transformed by an operator
  if(n>1){ ind_t i=static_cast<ind_t>(r.integer(0,n-1)), j=static_cast<ind_t>(r.integer(0,n-1)); for(auto [op,kind]: std::vector<std::pair<ops,int>>{{ops::plus,0},{ops::minus,1},{ops::times,2}}){ T w=static_cast<T>(r.integer(-3,3)); bool same=true,callable=true; auto C=bArray<T>(A).decouple(); bool make=r.chance(0.6); for(ind_t p=0;p<k;++p){ T t= kind==0? a[j][p]+w: kind==1? a[j][p]-w: a[j][p]*w; if(make&&i!=j) C.val(i,p)=t; int vd=verdict(C.val(i,p),t,tol,tol,mult); if(!vd)callable=false; same&=vd>0; } if(callable) m.check(C.match(i,j,op,w,tol,mult)==same,cat("match ",to_string(op),":",nm),[&]{return cat(det()," rows ",i,",",j," operand ",w);}); } }
}
static void config(Monitor& m, Rng& r){
  m.site("Config"); m.eval(); double d=std::pow(10.,r.uni(-12,-2)), q=std::pow(10.,r.uni(-12,-2)); int g=static_cast<int>(r.integer(1,10000)); m.note(cat("config ",g," ",d," ",q)); auto det=[&]{return m.note();};
  AF::Config c(g,d,q); m.check(c.digit()==g&&c.direct<double>()==d&&c.reciprocal<double>()==q&&c.direct<float>()==static_cast<float>(d)&&c.direct<int>()==0,"config constructed",det);
  AF::Config e; e.direct(d); m.check(e.direct<double>()==d,"config direct set",det); e.reciprocal(q); m.check(e.reciprocal<double>()==q&&e.direct<double>()==d,"config reciprocal set",det); e.digit(g); m.check(e.digit()==g&&e.direct<double>()==d&&e.reciprocal<double>()==q,"config digit set",det);
  AF::Config f; f.digit(g).direct(d).reciprocal(q); m.check(f.digit()==g&&f.direct<double>()==d&&f.reciprocal<double>()==q,"config chained",[&]{return cat(det()," has ",f.digit()," ",f.direct<double>()," ",f.reciprocal<double>());});
  AF::Config h; h.reciprocal(q).direct(d).digit(g); m.check(h.digit()==g&&h.direct<double>()==d&&h.reciprocal<double>()==q,"config chained",[&]{return cat(det()," has ",h.digit()," ",h.direct<double>()," ",h.reciprocal<double>());});
  AF::Config t; t.tol(d); m.check(t.direct<double>()==d&&t.reciprocal<double>()==d,"config tol",det);
  m.distinct(hash_dbl(hash_dbl(0,d),q));
}
// lattice vectors are compared with the same rules on Cartesian-equal lattices
int main(int argc,char**argv){
  Monitor m("C22",argc,argv);
  return m.run(m.thorough()? 60000:4000,[&](Rng& r,size_t i){
    switch(i%8){
      case 0: scalars<double,double>(m,r,"double,double"); scalars<float,float>(m,r,"float,float"); break;
      case 1: scalars<int,double>(m,r,"int,double"); scalars<double,int>(m,r,"double,int"); scalars<int,int>(m,r,"int,int"); scalars<long long,int>(m,r,"longlong,int"); break;
      case 2: for(int k=0;k<10;++k){ vectors<double,double>(m,r,"double,double"); vectors<int,int>(m,r,"int,int"); } break;
      case 3: for(int k=0;k<10;++k){ vectors<int,double>(m,r,"int,double"); vectors<double,int>(m,r,"double,int"); vectors<float,float>(m,r,"float,float"); } break;
      case 4: case 5: for(int k=0;k<3;++k) arrays<double>(m,r,"double"); break;
      case 6: for(int k=0;k<3;++k) arrays<int>(m,r,"int"); break;
      default: config(m,r); arrays<float>(m,r,"float"); }
    if(i<6) m.sample(m.note().substr(0,160));
  });
}
