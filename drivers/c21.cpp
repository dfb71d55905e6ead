// C21: subscript iteration visits exactly the requested elements.
#include "mon.hpp"
#include "array_.hpp"
using namespace mon; using namespace brille;
using V = std::vector<long long>;

static std::vector<V> all_shapes(size_t rank, long long maxext){
  std::vector<V> out; V s(rank,0);
  while(true){ out.push_back(s); size_t d=rank; while(d-->0){ if(++s[d]<=maxext) break; s[d]=0; if(d==0) return out; } }
}
static long long prod(const V& s){ long long p=1; for(auto x:s)p*=x; return p; }
// reference: nested loops in row order over the free dimensions
static std::vector<V> reference(const V& shape, const V& fix /* -1 free */){
  std::vector<V> out; size_t n=shape.size(); V s(n); for(size_t i=0;i<n;++i){ s[i]= fix[i]>=0? fix[i]:0; if(fix[i]<0 && shape[i]==0) return out; }
  while(true){ out.push_back(s); size_t d=n; bool done=true; while(d-->0){ if(fix[d]>=0) continue; if(++s[d]<shape[d]){done=false;break;} s[d]=0; } if(done) return out; }
}
template<class H> V tov(const H& h){ V v; for(auto x:h) v.push_back(static_cast<long long>(x)); return v; }
template<class H, class T> H toh(const V& v){ H h{}; if constexpr (std::is_same<H,std::vector<T>>::value) h.resize(v.size()); for(size_t i=0;i<v.size();++i) h[i]=static_cast<T>(v[i]); return h; }

template<class It, class T, class Holder> void subit(Monitor& m, const V& shape, const char* name){
  const size_t n=shape.size();
  // every pattern: each dimension either free or fixed at one of its valid indices
  std::vector<V> pats(1, V());
  for(size_t d=0; d<n; ++d){ std::vector<V> nx; for(auto&p:pats){ for(long long k=-1;k<shape[d];++k){ V q=p; q.push_back(k); nx.push_back(q);} } pats=nx; }
  for (auto& fix: pats){
    bool allfixed=true, nofix=true; for(auto k:fix){ if(k<0) allfixed=false; else nofix=false; }
    V in(n); for(size_t d=0;d<n;++d) in[d]= fix[d]>=0? fix[d] : shape[d]+static_cast<long long>(d%3);
    m.note(cat(name," shape=",vstr(shape)," fix=",vstr(fix))); m.site(name);
    if(allfixed){ bool threw=false; try { It it(toh<Holder,T>(shape), toh<Holder,T>(in)); (void)it; } catch(const std::runtime_error&){ threw=true; }
      m.check(threw, std::string("subit:all-fixed-accepted:")+name, [&]{return m.note();}); continue; }
    auto want=reference(shape, fix);
    auto go=[&](const It& it, const char* how){
      std::vector<V> got; for(auto s: it){ got.push_back(tov(s)); if(got.size()>want.size()+3) break; }
      m.eval(); m.event("subscripts visited", got.size());
      m.check(got==want, std::string("subit:sequence:")+name+":"+how, [&]{ std::string g; for(size_t i=0;i<std::min<size_t>(got.size(),6);++i) g+=vstr(got[i]); return m.note()+cat(" visited ",got.size()," want ",want.size()," first: ",g); });
    };
    It it(toh<Holder,T>(shape), toh<Holder,T>(in)); go(it,"fixed");
    if(nofix){ It jt(toh<Holder,T>(shape)); go(jt,"full"); It kt=jt; go(kt,"copied"); if(want.size()>1){ auto lt=jt.begin(); ++lt; go(lt,"restarted"); } }
    if(want.size()>1) m.distinct(hash_str(m.note()));
  }
}
template<class It, class T, class Holder> void broadcast(Monitor& m, const V& a, const V& b, const char* name){
  const size_t n=a.size(); bool ok=true; V o(n);
  for(size_t d=0;d<n;++d){ if(a[d]!=b[d]&&a[d]!=1&&b[d]!=1) ok=false; o[d]= a[d]==1? b[d]: a[d]; }
  m.note(cat(name," a=",vstr(a)," b=",vstr(b))); m.site(name); m.eval();
  if(!ok){ bool threw=false; try { It it(toh<Holder,T>(a),toh<Holder,T>(b)); (void)it; } catch(const std::runtime_error&){threw=true;} m.check(threw, std::string("broadcast:incompatible-accepted:")+name, [&]{return m.note();}); return; }
  It it(toh<Holder,T>(a),toh<Holder,T>(b));
  auto want=reference(o, V(n,-1));
  m.check(tov(it.shape())==o && static_cast<long long>(it.size())==prod(o), std::string("broadcast:shape:")+name, [&]{return m.note()+vstr(tov(it.shape()));});
  std::vector<V> got; bool pair=true;
  for(auto t: it){ auto [so,s0,s1]=t; V vo=tov(so), v0=tov(s0), v1=tov(s1); got.push_back(vo);
    for(size_t d=0;d<n;++d) if(v0[d]!=(a[d]==1?0:vo[d]) || v1[d]!=(b[d]==1?0:vo[d])) pair=false;
    if(got.size()>want.size()+3) break; }
  m.event("broadcast pairs visited", got.size());
  m.check(got==want, std::string("broadcast:sequence:")+name, [&]{return m.note()+cat(" visited ",got.size()," want ",want.size());});
  m.check(pair, std::string("broadcast:pairs:")+name, [&]{return m.note();});
  if(want.size()>1) m.distinct(hash_str(m.note()));
}
template<class I> void linear(Monitor& m, const V& shape, const char* iname){
  const size_t n=shape.size(); long long N=prod(shape); if(N==0) return;
  for(int order=0; order<2; ++order){
    V st(n,1); if(order==0){ for(size_t d=n-1; d-->0;) st[d]=st[d+1]*shape[d+1]; } else for(size_t d=1; d<n; ++d) st[d]=st[d-1]*shape[d-1];
    // a column-ordered stride whose leading extents are all one is numerically a row-ordered one: the shape decides, and is not given
    if(order==1 && n>1 && st[n-1]<=st[0] && N>1) continue;
    m.note(cat("lin2sub ",iname," shape=",vstr(shape)," stride=",vstr(st))); m.site("lin2sub"); m.eval();
    auto rs=toh<std::vector<I>,I>(st);
    std::set<long long> seen; bool back=true;
    for(auto& s: reference(shape, V(n,-1))){
      I l=sub2lin(toh<std::vector<I>,I>(s), rs); long long wl=0; for(size_t d=0;d<n;++d) wl+=s[d]*st[d];
      seen.insert(static_cast<long long>(l)); if(static_cast<long long>(l)!=wl) back=false;
      if(tov(lin2sub(l, rs))!=s) back=false;
      if(n==2){ std::array<I,2> a2{{static_cast<I>(s[0]),static_cast<I>(s[1])}}, s2{{static_cast<I>(st[0]),static_cast<I>(st[1])}};
        if(static_cast<long long>(sub2lin(a2,s2))!=wl || static_cast<long long>(sub2lin(a2[0],a2[1],s2))!=wl || tov(lin2sub(l,s2))!=s) back=false; }
      m.event("linear indices converted");
    }
    m.check(back, std::string("linear:round-trip:")+iname+(order?":column":":row"), [&]{return m.note();});
    m.check(static_cast<long long>(seen.size())==N && *seen.begin()==0 && *seen.rbegin()==N-1, std::string("linear:not-a-bijection:")+iname, [&]{return m.note();});
    if(N>1) m.distinct(hash_str(m.note()));
  }
}
// iterators reached through the array classes
static void arrays(Monitor& m, Rng& r){
  ind_t a0=static_cast<ind_t>(r.integer(0,6)), a1=static_cast<ind_t>(r.integer(0,6));
  m.note(cat("arrays ",a0,"x",a1)); m.site("array iterators"); m.eval();
  Array2<int> a(a0,a1); int k=0; for(ind_t i=0;i<a0;++i) for(ind_t j=0;j<a1;++j) a.val(i,j)=k++;
  std::vector<int> got; for(auto& x: a.valItr()){ got.push_back(x); if(got.size()>100) break; }
  std::vector<int> want; for(int i=0;i<k;++i) want.push_back(i);
  m.check(got==want, "array2:value-iteration", [&]{return m.note()+vstr(got);});
  if(a0&&a1){ ind_t c=static_cast<ind_t>(r.integer(0,a1-1)); got.clear(); want.clear(); for(auto s: a.subItr({a0,c})) got.push_back(a[s]); for(ind_t i=0;i<a0;++i) want.push_back(static_cast<int>(i*a1+c));
    m.check(got==want, "array2:fixed-column", [&]{return m.note()+vstr(got);}); }
  Array<int> b(std::vector<ind_t>{a0,a1,3u}); k=0; for(ind_t i=0;i<a0;++i) for(ind_t j=0;j<a1;++j) for(ind_t l=0;l<3;++l) b.val({i,j,l})=k++;
  got.clear(); want.clear(); for(auto& x: b.valItr()){ got.push_back(x); if(got.size()>200) break; } for(int i=0;i<k;++i) want.push_back(i);
  m.check(got==want, "array:value-iteration", [&]{return m.note()+vstr(got);});
  Array2<int> one(1,a1), z(a0,a1); k=0; for(ind_t j=0;j<a1;++j) one.val(0,j)=100*static_cast<int>(j);
  bool ok=true; size_t cnt=0; for(auto [o,s,t]: a.broadcastItr(one)){ z[o]=a[s]+one[t]; if(++cnt>100) break; }
  for(ind_t i=0;i<a0;++i) for(ind_t j=0;j<a1;++j) if(z.val(i,j)!=static_cast<int>(i*a1+j+100*j)) ok=false;
  m.check(ok && cnt==static_cast<size_t>(a0)*a1, "array2:broadcast", [&]{return m.note()+cat(" visited ",cnt);});
  if(a0*a1>1) m.distinct(hash_str(m.note()));
}
int main(int argc,char**argv){
  Monitor m("C21",argc,argv);
  std::vector<std::function<void(Rng&)>> jobs;
  const long long e3 = m.thorough()?4:3, e4 = m.thorough()?3:2;
  for(size_t rank=1; rank<=4; ++rank) for(auto& s: all_shapes(rank, rank<=2?5:(rank==3?e3:e4))){
    jobs.push_back([&m,s,rank](Rng&){ subit<SubIt<unsigned>,unsigned,std::vector<unsigned>>(m,s,"SubIt-unsigned"); linear<unsigned>(m,s,"unsigned"); linear<int>(m,s,"int"); linear<size_t>(m,s,"size_t");
      if(rank<=3) subit<SubIt<size_t>,size_t,std::vector<size_t>>(m,s,"SubIt-size_t"); 
      if(rank<=3) subit<SubIt<int>,int,std::vector<int>>(m,s,"SubIt-int"); 
      if(rank==2){ subit<SubIt2<unsigned>,unsigned,std::array<unsigned,2>>(m,s,"SubIt2-unsigned"); subit<SubIt2<size_t>,size_t,std::array<size_t,2>>(m,s,"SubIt2-size_t"); } });
    for(auto& t: all_shapes(rank, rank<=2?4:(rank==3?e3-1:1))) if(rank<=2||*std::max_element(s.begin(),s.end())<=e3-1)
      jobs.push_back([&m,s,t,rank](Rng&){ broadcast<BroadcastIt<unsigned>,unsigned,std::vector<unsigned>>(m,s,t,"BroadcastIt-unsigned");
        if(rank==2){ broadcast<BroadcastIt2<unsigned>,unsigned,std::array<unsigned,2>>(m,s,t,"BroadcastIt2-unsigned"); broadcast<BroadcastIt2<size_t>,size_t,std::array<size_t,2>>(m,s,t,"BroadcastIt2-size_t"); } });
  }
  // larger random shapes
  for(size_t k=0;k<(m.thorough()?20000u:1500u);++k) jobs.push_back([&m](Rng& r){
    size_t rank=static_cast<size_t>(r.integer(1,6)); V s(rank), t(rank); for(auto&x:s) x=r.integer(1, rank>3?4:12); t=s; for(auto&x:t) if(r.chance(0.4)) x=1; for(auto&x:s) if(r.chance(0.2)) x=1;
    linear<unsigned>(m,s,"unsigned"); broadcast<BroadcastIt<unsigned>,unsigned,std::vector<unsigned>>(m,s,t,"BroadcastIt-unsigned"); arrays(m,r); m.sample(cat(vstr(s)," against ",vstr(t))); });
  m.run(jobs.size(), [&](Rng& r, size_t i){ jobs[i](r); });
}
