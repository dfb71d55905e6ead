// C20: arrays.  A pool of arrays that share, view, own and borrow memory is driven through random operation histories next to
// a reference model that knows which cell of which store every element is; after every operation every live array must read
// exactly what the model holds, guard words around borrowed buffers must be intact, and allocations must balance at the end.
#include "mon.hpp"
#include <cassert>
#include <memory>
#include <new>
#include <numeric>
#include "utilities.hpp"
#include "array_.hpp"
#include "array_functions.hpp"
static long long g_live=0;
void* operator new[](std::size_t n){ void* p=std::malloc(n?n:1); if(!p) throw std::bad_alloc(); ++g_live; return p; }
void operator delete[](void* p) noexcept { if(p){ --g_live; std::free(p);} }
void operator delete[](void* p, std::size_t) noexcept { if(p){ --g_live; std::free(p);} }
using namespace brille;
using mon::cat; using mon::vstr;
typedef std::vector<size_t> vs;
static mon::Monitor* M;
template<class A> struct TR;
template<class T> struct TR<Array2<T>> { static constexpr bool two=true; typedef T val; template<class R> using re=Array2<R>;
  static std::array<ind_t,2> sh(const vs& s){ return {{ind_t(s[0]),ind_t(s[1])}}; } static const char* name(){return "Array2";} };
template<class T> struct TR<Array<T>> { static constexpr bool two=false; typedef T val; template<class R> using re=Array<R>;
  static std::vector<ind_t> sh(const vs& s){ return std::vector<ind_t>(s.begin(), s.end()); } static const char* name(){return "Array";} };
static size_t prod(const vs& s){ size_t p=1; for(auto x: s) p*=x; return p; }
static vs unravel(size_t l, const vs& s){ vs r(s.size()); for(size_t i=s.size(); i--;){ r[i]=l%s[i]; l/=s[i]; } return r; }
static size_t ravel(const vs& x, const vs& s){ size_t l=0; for(size_t i=0;i<s.size();++i) l=l*s[i]+x[i]; return l; }
template<class T> struct Store { std::vector<T> v; std::unique_ptr<std::vector<T>> ext; size_t lo=0; };
template<class T> struct Model { std::shared_ptr<Store<T>> st; vs sh; std::vector<size_t> ix; bool mut=true;
  T& at(size_t l){ return st->v[ix[l]]; } const T& at(size_t l) const { return st->v[ix[l]]; }
  size_t n() const { return ix.size(); } 
  std::vector<T> vals() const { std::vector<T> r; for(auto i: ix) r.push_back(st->v[i]); return r; } };
template<class T> Model<T> fresh(const vs& sh, const std::vector<T>& v){ Model<T> m; m.st=std::make_shared<Store<T>>(); m.st->v=v; m.sh=sh; m.ix.resize(v.size()); std::iota(m.ix.begin(),m.ix.end(),0); return m; }
template<class A> struct Item { typedef typename TR<A>::val T; std::unique_ptr<A> a; Model<T> m; };
template<class A> vs shape_of(const A& a){ vs r; for(auto x: a.shape()) r.push_back(x); return r; }
template<class A> auto get(const A& a, const vs& x){ auto s=TR<A>::sh(x); return a.val(s); }
template<class A> bool colfirst(const A& a){ auto s=a.stride(); return s.front()<s.back(); }
// positions in the documented linear order of the array
template<class A> std::vector<size_t> linorder(const A& a, const vs& sh){
  size_t n=prod(sh); std::vector<size_t> o(n);
  if(!colfirst(a)) { std::iota(o.begin(),o.end(),0); return o; }
  vs r(sh.rbegin(), sh.rend());
  for(size_t l=0;l<n;++l){ vs x=unravel(l,r); vs y(x.rbegin(),x.rend()); o[l]=ravel(y,sh);} return o; }
template<class A, class T> bool same(const A& a, const vs& sh, const std::vector<T>& v, const std::string& key){
  vs s=shape_of(a);
  if(!M->check(s==sh, key+":shape", [&]{ return cat("shape ",vstr(s)," expected ",vstr(sh)); })) return false;
  for(size_t l=0;l<v.size();++l){ auto g=get(a,unravel(l,sh)); if(!(g==v[l])){ M->fail(key+":value", cat("element ",vstr(unravel(l,sh))," of ",vstr(sh)," is ",g," expected ",v[l])); return false; } }
  M->event("observations", v.size()); return true; }
template<class A> struct Run {
  typedef typename TR<A>::val T; static constexpr bool two=TR<A>::two; static constexpr bool flt=std::is_floating_point<T>::value;
  mon::Rng& r; std::vector<Item<A>> pool; std::string P; uint64_t h; std::string trail;
  Run(mon::Rng& rr): r(rr), P(std::string(TR<A>::name())+(flt?"<double>":"<int>")), h(flt) {}
  T rv(){ return flt && r.chance(0.3) ? T(r.integer(-40,40))/T(4) : T(r.integer(-6,6)); }
  std::vector<T> rvals(size_t n){ std::vector<T> v(n); for(auto& x: v) x=rv(); return v; }
  vs rshape(){ vs s; size_t nd= two ? 2 : size_t(r.integer(1,4)); for(size_t i=0;i<nd;++i) s.push_back(size_t(r.integer(1, nd>2?3:5))); return s; }
  A build(const vs& sh, const std::vector<T>& v){ A a(TR<A>::sh(sh)); for(size_t l=0;l<v.size();++l) a.val(TR<A>::sh(unravel(l,sh)))=v[l]; return a; }
  void put(A&& a, Model<T>&& m){ if(pool.size()>=6) pool.erase(pool.begin()+r.integer(0,(long long)pool.size()-1)); Item<A> it; it.a=std::make_unique<A>(a); it.m=std::move(m); pool.push_back(std::move(it)); }
  void create(){
    vs sh=rshape(); size_t n=prod(sh); auto v=rvals(n);
    int k=int(r.integer(0,5)); trail+=cat(" create",k,vstr(sh));
    if(k==0){ auto a=build(sh,v); put(std::move(a), fresh<T>(sh,v)); }
    else if(k==1){ T x=rv(); A a(TR<A>::sh(sh), x); put(std::move(a), fresh<T>(sh,std::vector<T>(n,x))); }
    else if(k==2){ std::vector<std::array<T,3>> d(sh[0]); std::vector<T> w; for(auto& q: d) for(auto& x: q) { x=rv(); w.push_back(x);} 
      put(A::from_std(d), fresh<T>(vs{sh[0],3}, w)); }
    else { // borrowed memory: own=false, row, column or padded strides, optional offset, guarded
      size_t nd=sh.size(); std::vector<size_t> st(nd,1); bool col=r.chance(0.5); size_t pad=r.chance(0.4)?size_t(r.integer(1,2)):0;
      if(col){ for(size_t i=1;i<nd;++i) st[i]=st[i-1]*(sh[i-1]+pad); } else for(size_t i=nd-1;i--;) st[i]=st[i+1]*(sh[i+1]+pad);
      size_t shift = r.chance(0.3)? size_t(r.integer(1,4)):0, ext=1; for(size_t i=0;i<nd;++i) ext+=(sh[i]-1)*st[i];
      size_t num=std::max(ext,n)+shift; Model<T> m; m.st=std::make_shared<Store<T>>(); m.sh=sh; m.st->lo=8; m.st->v.assign(num,T(0));
      for(auto& x: m.st->v) x=rv();
      m.st->ext=std::make_unique<std::vector<T>>(num+16, T(77)); std::copy(m.st->v.begin(),m.st->v.end(),m.st->ext->begin()+8);
      for(size_t l=0;l<n;++l){ vs x=unravel(l,sh); size_t p=shift; for(size_t i=0;i<nd;++i) p+=x[i]*st[i]; m.ix.push_back(p); }
      auto ref=std::make_shared<int>(1); m.mut = k!=3;
      A a(m.st->ext->data()+8, ind_t(num), ind_t(shift), false, ref, TR<A>::sh(sh), TR<A>::sh(st), m.mut);
      put(std::move(a), std::move(m)); }
  }
  Model<T> sub(const Model<T>& m, const vs& sh, const vs& off){ Model<T> o; o.st=m.st; o.sh=sh; o.mut=false; for(size_t l=0;l<prod(sh);++l){ vs x=unravel(l,sh); for(size_t i=0;i<x.size();++i) x[i]+=off[i]; o.ix.push_back(m.ix[ravel(x,m.sh)]); } return o; }
  void verify(const std::string& after){
    for(size_t i=0;i<pool.size();++i){ auto& it=pool[i];
      if(!same(*it.a, it.m.sh, it.m.vals(), P+":"+after+":state")) throw mon::Skip("model diverged");
      M->check(it.a->ismutable()==it.m.mut, P+":"+after+":mutability");
      if(it.m.st->ext){ auto& e=*it.m.st->ext; bool ok=true; for(size_t k=0;k<8;++k) ok&= e[k]==T(77) && e[e.size()-1-k]==T(77);
        for(size_t k=0;k<it.m.st->v.size();++k) ok&= e[k+8]==it.m.st->v[k];
        M->check(ok, P+":"+after+":borrowed buffer changed outside of the array"); } }
  }
  bool sharesStore(const Item<A>& x){ int c=0; for(auto& p: pool) c+= p.m.st==x.m.st; return c>1; }
  void step(){
    if(pool.empty()) { create(); verify("create"); return; }
    size_t pi=size_t(r.integer(0,(long long)pool.size()-1)); Item<A>& it=pool[pi]; A& a=*it.a; Model<T>& m=it.m; size_t n=m.n(); const vs sh=m.sh; size_t rows=sh[0], cols=rows?n/rows:0;
    int op=int(r.integer(0,33)); h=mon::hash_mix(h,uint64_t(op)); trail+=cat(" ",op); M->note(cat(P,trail.size()>200?trail.substr(trail.size()-200):trail));
    std::string nm="op";
    auto site=[&](const char* s){ nm=s; M->site(P+":"+s); M->event(std::string("op ")+s); };
    auto row=[&](size_t i){ std::vector<T> v; for(size_t k=0;k<cols;++k) v.push_back(m.at(i*cols+k)); return v; };
    auto lo=linorder(a,sh); std::vector<T> L; for(auto p: lo) L.push_back(m.at(p));
    switch(op){
    case 0: case 1: site("create"); create(); break;
    case 2: { site("copy"); A c(a); Model<T> mm=m; put(std::move(c),std::move(mm)); break; }
    case 3: { site("view()"); A c=a.view(); Model<T> mm=m; mm.mut=false; put(std::move(c),std::move(mm)); break; }
    case 4: { site("view(i)"); size_t i=size_t(r.integer(0,(long long)rows-1)); A c=a.view(ind_t(i)); vs s=sh; s[0]=1; vs o(sh.size(),0); o[0]=i; auto mm=sub(m,s,o); put(std::move(c),std::move(mm));
      bool threw=false; try { pool.back().a->view(ind_t(5)); } catch(const std::runtime_error&){ threw=true; } M->check(threw, P+":view(i):index out of range accepted"); break; }
    case 5: { site("view(i,j)"); size_t i=size_t(r.integer(0,(long long)rows-1)), j=size_t(r.integer((long long)i+1,(long long)rows)); A c=a.view(ind_t(i),ind_t(j)); vs s=sh; s[0]=j-i; vs o(sh.size(),0); o[0]=i; auto mm=sub(m,s,o); put(std::move(c),std::move(mm)); break; }
    case 6: { site("view(sub)"); vs o(sh.size()), s=sh; for(size_t i=0;i<sh.size();++i){ o[i]=size_t(r.integer(0,(long long)sh[i]-1)); s[i]-=o[i]; } A c=a.view(TR<A>::sh(o)); auto mm=sub(m,s,o); put(std::move(c),std::move(mm)); break; }
    case 7: { site("decouple"); bool shared=sharesStore(it)||!m.mut||m.st->ext; A c=a.decouple(); bool alias=c.data()==a.data(); M->check(!(shared&&alias), P+":decouple:still shares memory"); M->check(c.ismutable(), P+":decouple:result is not mutable");
      Model<T> mm = alias ? m : fresh<T>(sh,m.vals()); put(std::move(c),std::move(mm)); break; }
    case 8: { bool ro=r.chance(0.5); site(ro?"contiguous_row_ordered_copy":"contiguous_copy"); A c= ro ? a.contiguous_row_ordered_copy() : a.contiguous_copy(); bool alias=c.data()==a.data();
      M->check(c.is_contiguous() && (!ro || c.is_row_ordered()), P+":"+nm+":layout", [&]{ return cat("stride ",vstr(c.stride())," shape ",vstr(c.shape())); });
      if(ro){ bool ok=true; for(size_t l=0;l<n;++l) ok&= c.data()[c.raw_shift()+l]==m.at(l); M->check(ok, P+":"+nm+":memory is not in row order"); }
      Model<T> mm = alias ? m : fresh<T>(sh,m.vals()); put(std::move(c),std::move(mm)); break; }
    case 9: { site("extract"); int k=int(r.integer(0,5)); std::vector<size_t> id; vs s=sh; std::vector<T> v;
      if(k==0){ id={size_t(r.integer(0,(long long)rows-1))}; }
      else if(k<4){ size_t c=size_t(r.integer(1,6)); for(size_t i=0;i<c;++i) id.push_back(size_t(r.integer(0,(long long)rows-1))); }
      std::vector<bool> b; if(k>=4){ size_t c=size_t(r.integer(1,(long long)rows)); for(size_t i=0;i<c;++i){ b.push_back(r.chance(0.5)); if(b.back()) id.push_back(i);} }
      if(k==3) { while(id.size()<3) id.push_back(0); id.resize(3); }
      s[0]=id.size(); for(auto i: id){ auto q=row(i); v.insert(v.end(),q.begin(),q.end()); }
      A c;
      if(k==0) c=a.extract(ind_t(id[0])); else if(k==1){ std::vector<int> q(id.begin(),id.end()); c=a.extract(q); }
      else if(k==2){ typename TR<A>::template re<int> q(TR<A>::sh(two?vs{id.size(),1}:vs{id.size()})); for(size_t i=0;i<id.size();++i) q[ind_t(i)]=int(id[i]); c=a.extract(q); }
      else if(k==3){ std::array<unsigned,3> q{{unsigned(id[0]),unsigned(id[1]),unsigned(id[2])}}; c=a.extract(q); }
      else if(k==4) c=a.extract(b);
      else { typename TR<A>::template re<bool> q(TR<A>::sh(two?vs{b.size(),1}:vs{b.size()})); for(size_t i=0;i<b.size();++i) q[ind_t(i)]=b[i]; c=a.extract(q); }
      same(c,s,v,P+":extract");
      M->check(c.data()!=a.data() || (k==0 && !sharesStore(it)), P+":extract:shares memory with its source");
      bool threw=false; try{ a.extract(std::vector<int>{0,int(rows)}); } catch(const std::runtime_error&){ threw=true; } M->check(threw,P+":extract:index out of range accepted");
      threw=false; try{ a.extract(std::vector<int>{-1}); } catch(const std::runtime_error&){ threw=true; } M->check(threw,P+":extract:negative index accepted");
      if constexpr(!two) { // tuples of indices
        std::vector<std::array<int,2>> q; vs t{0,2}; std::vector<T> w; for(size_t i=0;i<2;++i){ std::array<int,2> e{{int(r.integer(0,(long long)rows-1)),int(r.integer(0,(long long)rows-1))}}; q.push_back(e); for(int x: e){ auto u=row(size_t(x)); w.insert(w.end(),u.begin(),u.end()); } }
        for(size_t i=1;i<sh.size();++i) t.push_back(sh[i]);
        t[0]=q.size(); same(a.extract(q), t, w, P+":extract tuples"); }
      if(s[0]>0 && c.data()!=a.data()) put(std::move(c), fresh<T>(s,v));
      break; }
    case 10: { site("set row"); if(!n) break; size_t i=size_t(r.integer(0,(long long)rows-1)); auto v=rvals(cols); vs s=sh; s[0]=1;
      int k=int(r.integer(0,2)); if(k==0){ A q=build(s,v); a.set(ind_t(i), q); } else if(k==1) a.set(ind_t(i), v); else { typedef typename std::conditional<flt,float,short>::type R; typename TR<A>::template re<R> q(TR<A>::sh(s)); for(size_t l=0;l<cols;++l) q.val(TR<A>::sh(unravel(l,s)))=R(v[l]); a.set(ind_t(i), q); }
      for(size_t l=0;l<cols;++l) m.at(i*cols+l)=v[l]; break; }
    case 11: { site("set element"); if(!n) break; size_t l=size_t(r.integer(0,(long long)n-1)); T x=rv(); int k=int(r.integer(0,3)); auto s=TR<A>::sh(unravel(l,sh));
      if(k==0) a.set(s,x); else if(k==1) a.val(s)=x; else if(k==2) *a.ptr(s)=x; else { size_t q=size_t(r.integer(0,(long long)n-1)); a[ind_t(q)]=x; l=lo[q]; } m.at(l)=x; break; }
    case 12: { site("append"); size_t dim=size_t(r.integer(0,(long long)sh.size()-1)); vs s=sh; s[dim]=size_t(r.integer(1,3)); auto v=rvals(prod(s)); A q=build(s,v); if(prod(sh)+prod(s)>120) break;
      bool may=a.raw_shift()>0; try { a.append(ind_t(dim), q); } catch(const std::runtime_error&){ M->check(may,P+":append:refused"); M->event("refused append"); break; }
      vs t=sh; t[dim]+=s[dim]; std::vector<T> w(prod(t)); for(size_t l=0;l<w.size();++l){ vs x=unravel(l,t); if(x[dim]<sh[dim]) w[l]=m.at(ravel(x,sh)); else { x[dim]-=sh[dim]; w[l]=v[ravel(x,s)]; } } m=fresh<T>(t,w); break; }
    case 13: { site("resize"); vs t=sh; bool grow=r.chance(0.5); for(auto& x: t) if(r.chance(0.6)) x= grow ? x+size_t(r.integer(0,2)) : size_t(r.integer(1,(long long)x)); if(prod(t)>120) break; T init=rv(); bool may=a.raw_shift()>0;
      try { if(r.chance(0.3)){ t=sh; t[0]= grow ? sh[0]+1 : std::max<size_t>(1,sh[0]-1); a.resize(unsigned(t[0]), init); } else a.resize(TR<A>::sh(t), init); } catch(const std::runtime_error&){ M->check(may,P+":resize:refused"); M->event("refused resize"); break; }
      std::vector<T> w(prod(t)); for(size_t l=0;l<w.size();++l){ vs x=unravel(l,t); bool in=true; for(size_t i=0;i<x.size();++i) in&= x[i]<sh[i]; w[l]= in? m.at(ravel(x,sh)) : init; } m=fresh<T>(t,w); break; }
    case 14: { site("reshape"); vs t; if(two){ std::vector<size_t> d; for(size_t q=1;q<=n;++q) if(n%q==0) d.push_back(q); size_t q=r.pick(d); t={q,n/q}; } else { t=sh; r.shuffle(t); if(r.chance(0.3)) t={n}; }
      if(!two && t.size()!=sh.size()) { if(sh.size()<2) break; }
      bool cont=a.is_contiguous(); bool cf=colfirst(a); try { a.reshape(TR<A>::sh(t)); } catch(const std::runtime_error&){ M->check(!cont,P+":reshape:refused"); M->event("refused reshape"); break; }
      std::vector<size_t> ni(n); vs rt(t.rbegin(),t.rend()); for(size_t l=0;l<n;++l){ size_t dst=l; if(cf){ vs x=unravel(l,rt); dst=ravel(vs(x.rbegin(),x.rend()),t);} ni[dst]=m.ix[lo[l]]; } m.ix=ni; m.sh=t; break; }
    case 15: case 16: { site("in-place scalar"); T x=rv(); if(x==T(0)) x=T(2); int k=int(r.integer(0,flt?3:2)); auto before=m.vals(); bool threw=false; try { if(k==0) a+=x; else if(k==1) a-=x; else if(k==2) a*=x; else { x= r.chance(0.5)?T(2):T(-0.5); a/=x; } } catch(const std::runtime_error&){ threw=true; }
      M->check(threw==!m.mut, P+":in-place scalar:immutability"); if(!threw) for(size_t l=0;l<n;++l){ T& c=m.at(l); if(k==0) c+=x; else if(k==1) c-=x; else if(k==2) c*=x; else c/=x; } 
      if(!threw) for(auto p: m.ix) if(std::abs(double(m.st->v[p]))>1e5) { for(auto q: m.ix) m.st->v[q]=T(1); for(size_t l=0;l<n;++l) a.val(TR<A>::sh(unravel(l,sh)))=T(1); break; } break; }
    case 17: case 18: { site("in-place array"); vs s=sh; bool bc=r.chance(0.5); if(bc) for(auto& x: s) if(r.chance(0.5)) x=1; auto v=rvals(prod(s)); int k=int(r.integer(0,flt?3:2)); if(k==3) for(auto& x: v) x=T(r.chance(0.5)?2:-4); if(k==2) for(auto& x: v) if(std::abs(double(x))>2) x=T(1);
      bool threw=false; try { if(r.chance(0.5)){ typedef typename std::conditional<flt,int,int>::type R; bool integral=true; for(auto x: v) integral&= T(R(x))==x; typename TR<A>::template re<R> q(TR<A>::sh(s)); for(size_t l=0;l<v.size();++l){ if(!integral) v[l]=T(R(v[l])); if(k==3&&v[l]==T(0)) v[l]=T(2); q.val(TR<A>::sh(unravel(l,s)))=R(v[l]); } if(k==0) a+=q; else if(k==1) a-=q; else if(k==2) a*=q; else a/=q; }
        else { A q=build(s,v); if(k==0) a+=q; else if(k==1) a-=q; else if(k==2) a*=q; else a/=q; } } catch(const std::runtime_error&){ threw=true; }
      M->check(threw==!m.mut, P+":in-place array:immutability");
      if(!threw){ for(size_t l=0;l<n;++l){ vs x=unravel(l,sh); for(size_t i=0;i<x.size();++i) if(s[i]==1) x[i]=0; T y=v[ravel(x,s)]; T& c=m.at(l); if(k==0) c+=y; else if(k==1) c-=y; else if(k==2) c*=y; else c/=y; }
        for(auto p: m.ix) if(std::abs(double(m.st->v[p]))>1e5) { for(auto q: m.ix) m.st->v[q]=T(1); for(size_t l=0;l<n;++l) a.val(TR<A>::sh(unravel(l,sh)))=T(1); break; } 
        if(m.mut && r.chance(0.3)){ vs t=sh; t[0]+=1; if(sh[0]>1){ bool thr=false; A q(TR<A>::sh(t)); try { a+=q; } catch(const std::exception&){ thr=true; } M->check(thr,P+":in-place array:shapes which can not be broadcast accepted"); } } } break; }
    case 19: { site("reductions"); for(size_t d=0;d<sh.size();++d){ vs s=sh; s[d]=1; std::vector<T> su,pr,mi,ma; bool anybig=false; for(size_t l=0;l<prod(s);++l){ vs x=unravel(l,s); T a0=T(0),a1=T(1),lo_=std::numeric_limits<T>::max(),hi=std::numeric_limits<T>::lowest(); bool big=false; for(size_t i=0;i<sh[d];++i){ x[d]=i; T v=m.at(ravel(x,sh)); a0+=v; if(std::abs(double(a1)*double(v))<1e9) a1*=v; else big=true; lo_=std::min(lo_,v); hi=std::max(hi,v);} anybig|=big; su.push_back(a0); pr.push_back(a1); mi.push_back(lo_); ma.push_back(hi);} 
        same(a.sum(ind_t(d)),s,su,P+":sum(dim)"); same(a.min(ind_t(d)),s,mi,P+":min(dim)"); same(a.max(ind_t(d)),s,ma,P+":max(dim)");
        if(!anybig) same(a.prod(ind_t(d)),s,pr,P+":prod(dim)"); }
      T s=T(0); double p=1; bool over=false; for(size_t l=0;l<n;++l){ s+=m.at(l); p*=double(m.at(l)); if(p!=0 && std::abs(p)<1e-9) over=true; if(std::abs(p)>1e9) over=true; } if constexpr(two){ M->check(a.sum()==s,P+":sum()"); if(!over&&std::abs(p)<1e9) M->check(double(a.prod())==p,P+":prod()"); } break; }
    case 20: { site("truth"); T x= n&&r.chance(0.7)? m.at(size_t(r.integer(0,(long long)n-1))) : rv(); ind_t lim = r.chance(0.5)?0:ind_t(r.integer(1,(long long)n+2)); size_t c= lim>0&&lim<n ? lim : n;
      size_t nz=0,eq=0,f=c,l=c,fx=c,lx=c; for(size_t i=0;i<c;++i){ if(L[i]){ ++nz; if(f==c) f=i; l=i; } if(L[i]==x){ ++eq; if(fx==c) fx=i; lx=i; } }
      M->check(a.all(lim)==(nz==c),P+":all"); M->check(a.any(lim)==(nz>0),P+":any"); M->check(a.count(lim)==nz,P+":count"); M->check(a.first(lim)==f,P+":first"); M->check(a.last(lim)==l,P+":last");
      M->check(a.all(x,lim)==(eq==c),P+":all(val)"); M->check(a.any(x,lim)==(eq>0),P+":any(val)"); M->check(a.count(x,lim)==eq,P+":count(val)"); M->check(a.first(x,lim)==fx,P+":first(val)"); M->check(a.last(x,lim)==lx,P+":last(val)"); break; }
    case 21: case 22: { site("compare value"); T x= n&&r.chance(0.7)? m.at(size_t(r.integer(0,(long long)n-1))) : rv(); static const cmp C[]={cmp::lt,cmp::gt,cmp::le,cmp::ge,cmp::eq,cmp::neq}; cmp e=C[r.integer(0,5)];
      auto t=[&](T y){ switch(e){ case cmp::lt: return y<x; case cmp::gt: return y>x; case cmp::le: return y<=x; case cmp::ge: return y>=x; case cmp::eq: return y==x; default: return y!=x; } };
      size_t c=0,f=n,la=n; std::vector<ind_t> fi; for(size_t i=0;i<n;++i) if(t(L[i])){ ++c; if(f==n) f=i; la=i; fi.push_back(ind_t(i)); }
      std::string k=cat(":",int(e)); M->check(a.all(e,x)==(c==n),P+":all(cmp)"+k); M->check(a.any(e,x)==(c>0),P+":any(cmp)"+k); M->check(a.count(e,x)==c,P+":count(cmp)"+k); M->check(a.first(e,x)==f,P+":first(cmp)"+k); M->check(a.last(e,x)==la,P+":last(cmp)"+k);
      M->check(a.find(e,x)==fi,P+":find(cmp)"+k); auto b=a.is(e,x); std::vector<bool> bv; for(size_t i=0;i<n;++i) bv.push_back(t(m.at(i))); same(b,sh,bv,P+":is(cmp)"+k); break; }
    case 23: { site("compare array"); vs s=sh; bool bc=r.chance(0.4); if(bc) s[0]=1; std::vector<T> v; for(size_t l=0;l<prod(s);++l) v.push_back(r.chance(0.7)? m.at(l): rv()); A q=build(s,v); cmp e=r.chance(0.5)?cmp::eq:cmp::neq; auto b=a.is(e,q); std::vector<bool> bv; bool alleq=true; for(size_t l=0;l<n;++l){ T y=v[l%v.size()]; bv.push_back((m.at(l)==y)==(e==cmp::eq)); alleq&= m.at(l)==y; } same(b,sh,bv,P+":is(cmp,array)"); M->check(a.is(q)==alleq,P+":is(array)");
      if constexpr(two){ M->check((a==q)==alleq,P+":operator=="); if(s==sh) M->check((a!=q)==!alleq,P+":operator!=");
        std::vector<bool> rb; std::vector<ind_t> rf; size_t rc=0; for(size_t i=0;i<rows;++i){ bool all=true; for(size_t k=0;k<cols;++k){ T y=v[(i*cols+k)%v.size()]; all&= (m.at(i*cols+k)==y)==(e==cmp::eq);} rb.push_back(all); if(all){ rf.push_back(ind_t(i)); ++rc; } }
        if(e==cmp::eq){ M->check(a.find(e,q)==rf,P+":find rows"); M->check(a.count(e,q)==rc,P+":count rows"); M->check(a.first(e,q)==(rc?rf.front():rows),P+":first row"); M->check(a.last(e,q)==(rc?rf.back():rows),P+":last row");
          auto rr=row(size_t(r.integer(0,(long long)rows-1))); auto ri=a.row_is(e,rr); bool ok=ri.size()==rows; for(size_t i=0;ok&&i<rows;++i) ok= ri[i]==(row(i)==rr); M->check(ok,P+":row_is(vector)"); 
          auto w=L; for(auto& x: w) if(r.chance(0.3)) x=rv(); auto ei=a.each_is(e,w); ok=ei.size()==n; for(size_t i=0;ok&&i<n;++i) ok= ei[i]==(L[i]==w[i]); M->check(ok,P+":each_is"); } }
      break; }
    case 24: { if constexpr(two){ site("unique"); std::vector<bool> iu; std::vector<ind_t> ui; std::vector<T> uv; size_t c=0; for(size_t i=0;i<rows;++i){ size_t k=i; for(size_t j=0;j<i;++j) if(row(i)==row(j)){ k=j; break; } iu.push_back(k==i); ui.push_back(ind_t(k)); if(k==i){ ++c; auto q=row(i); uv.insert(uv.end(),q.begin(),q.end()); } }
        M->check(a.is_unique()==iu,P+":is_unique"); M->check(a.unique_idx()==ui,P+":unique_idx"); same(a.unique(),vs{c,sh[1]},uv,P+":unique"); }
      break; }
    case 25: { site("swap"); size_t i=size_t(r.integer(0,(long long)rows-1)), j=size_t(r.integer(0,(long long)rows-1)); if(r.chance(0.5)){ a.swap(ind_t(i),ind_t(j)); for(size_t k=0;k<cols;++k) std::swap(m.at(i*cols+k),m.at(j*cols+k)); } else if(sh.size()==2) { size_t p=size_t(r.integer(0,(long long)cols-1)), q=size_t(r.integer(0,(long long)cols-1)); a.swap(ind_t(i),ind_t(p),ind_t(q)); std::swap(m.at(i*cols+p),m.at(i*cols+q)); } break; }
    case 26: { site("permute"); std::vector<ind_t> p(rows); std::iota(p.begin(),p.end(),0u); r.shuffle(p); auto before=m.vals(); auto pc=p; a.permute(pc); for(size_t i=0;i<rows;++i) for(size_t k=0;k<cols;++k) m.at(i*cols+k)=before[p[i]*cols+k]; M->check(pc==p,P+":permute:changed its argument"); break; }
    case 27: { site("to_std"); M->check(a.to_std()==m.vals(),P+":to_std"); std::vector<T> v; for(auto x: a.valItr()) v.push_back(x); M->check(v==m.vals(),P+":valItr"); v.clear(); for(auto s: a.subItr()) v.push_back(a.val(s)); M->check(v==m.vals(),P+":subItr"); bool ok=true; for(size_t l=0;l<n;++l) ok&= a[ind_t(l)]==L[l] && *a.data(ind_t(l))==L[l]; M->check(ok,P+":linear index"); 
      for(size_t i=0;i<rows;++i) ok&= *a.ptr(ind_t(i))==m.at(i*cols); M->check(ok,P+":ptr(row)"); M->check(a.numel()==n,P+":numel"); M->check(!a.to_string().empty(),P+":to_string"); break; }
    case 28: { site("cast"); typedef typename std::conditional<flt,float,double>::type R; typedef typename TR<A>::template re<R> B; std::vector<R> v; for(auto x: m.vals()) v.push_back(R(x)); if(r.chance(0.5)){ B b(a); same(b,sh,v,P+":cast"); M->check((const void*)b.data()!=(const void*)a.data()&&b.ismutable(),P+":cast:shares"); } else { B b(TR<A>::sh(vs(sh.size(),2)), R(3)); b=a; same(b,sh,v,P+":assign other type"); A c(TR<A>::sh(vs(sh.size(),2)), T(3)); A c2(c); c=b; std::vector<T> w; for(auto x: v) w.push_back(T(x)); same(c,sh,w,P+":assign other type"); M->check(c2.all(T(3)),P+":assign other type:changed a sharing array"); } break; }
    case 29: { if constexpr(two){ site("to Array"); Array<T> b(a, std::vector<ind_t>{ind_t(rows),ind_t(cols)}); same(b,sh,m.vals(),P+":to Array"); Array2<T> c(b); same(c,sh,m.vals(),P+":to Array2"); }
      else { site("to Array2"); Array2<T> c(a); same(c,vs{rows,cols},m.vals(),P+":to Array2"); 
        auto q=a.squeeze(); vs s; for(auto x: sh) if(x>1) s.push_back(x); if(s.empty()) s.push_back(1); same(q,s,m.vals(),P+":squeeze"); if(sh.size()>1){ size_t i=size_t(r.integer(0,(long long)rows-1)); same(a.slice(ind_t(i)),vs(sh.begin()+1,sh.end()),row(i),P+":slice"); } }
      break; }
    case 30: { if constexpr(two){ site("binary"); vs s=sh; bool me=r.chance(0.5); if(r.chance(0.5)) for(auto& x: s) if(r.chance(0.5)) x=1; (void)me; auto v=rvals(prod(s)); for(auto& x: v) if(x==T(0)) x=T(1); A q=build(s,v); auto f=[&](int k){ std::vector<T> w; for(size_t l=0;l<n;++l){ vs x=unravel(l,sh); for(size_t i=0;i<2;++i) if(s[i]==1) x[i]=0; T y=v[ravel(x,s)], z=m.at(l); w.push_back(k==0?z+y:k==1?z-y:k==2?z*y:k==3?z/y:y-z);} return w; };
        same(a+q,sh,f(0),P+":a+b"); same(a-q,sh,f(1),P+":a-b"); same(a*q,sh,f(2),P+":a*b"); same(a/q,sh,f(3),P+":a/b"); same(q+a,sh,f(0),P+":b+a"); same(q-a,sh,f(4),P+":b-a"); same(q*a,sh,f(2),P+":b*a");
        T x=v[0]; std::vector<T> p,q1,q2,q3,ng,ab; for(auto z: m.vals()){ p.push_back(z+x); q1.push_back(z-x); q2.push_back(z*x); q3.push_back(x-z); ng.push_back(-z); ab.push_back(z<0?-z:z);} same(a+x,sh,p,P+":a+scalar"); same(a-x,sh,q1,P+":a-scalar"); same(a*x,sh,q2,P+":a*scalar"); same(x+a,sh,p,P+":scalar+a"); same(x-a,sh,q3,P+":scalar-a"); same(x*a,sh,q2,P+":scalar*a"); same(a.operator-(),sh,ng,P+":negative"); same(-a,sh,ng,P+":negative"); same(a.abs(),sh,ab,P+":abs"); same(brille::abs(a),sh,ab,P+":abs()");
        if(flt){ std::vector<double> d; for(auto z: m.vals()) d.push_back(double(z)/2); same(a/T(2),sh,d,P+":a/scalar"); } 
        if(sh[1]==3){ std::array<T,3> e{{rv(),rv(),rv()}}; std::vector<T> w; for(size_t l=0;l<n;++l) w.push_back(m.at(l)+e[l%3]); same(a+e,sh,w,P+":a+std::array"); } }
      else { site("negative"); std::vector<T> ng; for(auto z: m.vals()) ng.push_back(-z); same(-a,sh,ng,P+":negative"); } break; }
    case 31: { site("round"); std::vector<int> a0,a1,a2; for(auto x: m.vals()){ a0.push_back(int(std::round(double(x)))); a1.push_back(int(std::floor(double(x)))); a2.push_back(int(std::ceil(double(x)))); } if constexpr(flt){ same(a.round(),sh,a0,P+":round"); same(a.floor(),sh,a1,P+":floor"); same(a.ceil(),sh,a2,P+":ceil"); }
      if(sh.size()==2){ size_t i=size_t(r.integer(0,(long long)rows-1)), j=size_t(r.integer(0,(long long)rows-1)); T d=T(0),q=T(0); for(size_t k=0;k<cols;++k){ d+=m.at(i*cols+k)*m.at(j*cols+k); q+=m.at(i*cols+k)*m.at(i*cols+k);} M->check(a.dot(ind_t(i),ind_t(j))==d,P+":dot"); if constexpr(flt) M->check(std::abs(a.norm(ind_t(i))-std::sqrt(q))<=1e-12*(1+std::sqrt(q)),P+":norm"); } break; }
    case 32: { if constexpr(two){ site("permutation"); std::vector<ind_t> p(rows); std::iota(p.begin(),p.end(),0u); r.shuffle(p); std::vector<T> v; for(auto i: p){ auto q=row(i); v.insert(v.end(),q.begin(),q.end()); } A q=build(sh,v); M->check(a.is_permutation(q),P+":is_permutation"); auto pv=a.permutation_vector(q); bool ok=pv.size()==rows; std::vector<int> used(rows,0); for(size_t i=0;ok&&i<rows;++i){ ok= pv[i]<rows && !used[pv[i]]++; if(ok) for(size_t k=0;k<cols;++k) ok&= v[pv[i]*cols+k]==m.at(i*cols+k); } M->check(ok,P+":permutation_vector",[&]{ return cat(vstr(pv)); });
        v[size_t(r.integer(0,(long long)v.size()-1))]+=T(50); M->check(!a.is_permutation(build(sh,v)),P+":is_permutation:false positive");
        auto c=cat_(a); same(c.first,vs{2*rows,cols},c.second,P+":cat"); }
      break; }
    case 33: { site("assign/destroy"); if(pool.size()<2||r.chance(0.5)){ pool.erase(pool.begin()+(long long)pi); break; } size_t pj=size_t(r.integer(0,(long long)pool.size()-1)); *pool[pi].a=*pool[pj].a; if(pi!=pj) pool[pi].m=pool[pj].m; break; }
    }
    verify(nm);
  }
  std::pair<A,std::vector<T>> cat_(const A& a){ auto v=a.to_std(); auto w=v; w.insert(w.end(),v.begin(),v.end()); A c=brille::cat(0,a,A(a.decouple())); return {c,w}; }
};
template<class A> static void go(mon::Rng& r){
  long long before=g_live;
  { Run<A> run(r); size_t steps=M->thorough()?60:40; for(size_t s=0;s<steps;++s) run.step(); M->event("steps",steps); M->eval(steps); M->distinct(run.h); M->sample(run.P+run.trail); }
  M->check(g_live==before, std::string(TR<A>::name())+":allocations do not balance", [&]{ return cat(g_live-before," arrays still allocated after every owner is gone"); });
}
int main(int argc, char** argv){
  mon::Monitor mm("C20", argc, argv); M=&mm;
  return mm.run(mm.thorough()?60000:4000, [](mon::Rng& r, size_t i){
    switch(i%4){ case 0: go<Array2<double>>(r); break; case 1: go<Array2<int>>(r); break; case 2: go<Array<double>>(r); break; default: go<Array<int>>(r); }
  });
}
