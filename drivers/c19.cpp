// C19: assignment solvers return a minimum-cost assignment.
#include "mon.hpp"
#include <tuple>
#include "permutation.hpp"
using namespace mon;

// independent exact/long-double Hungarian algorithm (potentials, O(n^3)); returns minimal cost
template<class W> W hungarian(size_t n, const std::vector<W>& a){
  const W inf = std::numeric_limits<W>::max()/4;
  std::vector<W> u(n+1,0), v(n+1,0); std::vector<size_t> p(n+1,0), way(n+1,0);
  for (size_t i=1;i<=n;++i){ p[0]=i; size_t j0=0; std::vector<W> minv(n+1,inf); std::vector<char> used(n+1,0);
    do { used[j0]=1; size_t i0=p[j0], j1=0; W delta=inf;
      for(size_t j=1;j<=n;++j) if(!used[j]){ W c=a[(i0-1)*n+j-1]-u[i0]-v[j]; if(c<minv[j]){minv[j]=c; way[j]=j0;} if(minv[j]<delta){delta=minv[j]; j1=j;} }
      for(size_t j=0;j<=n;++j) if(used[j]){u[p[j]]+=delta; v[j]-=delta;} else minv[j]-=delta;
      j0=j1; } while(p[j0]!=0);
    do { size_t j1=way[j0]; p[j0]=p[j1]; j0=j1; } while(j0); }
  W c=0; for(size_t j=1;j<=n;++j) c+=a[(p[j]-1)*n+j-1]; return c;
}
template<class W> W brute(size_t n, const std::vector<W>& a){
  std::vector<W> best(size_t(1)<<n); std::vector<char> set(size_t(1)<<n,0); best[0]=0; set[0]=1;
  for(size_t m=0;m<best.size();++m) if(set[m]){ size_t r=static_cast<size_t>(__builtin_popcountll(m)); if(r==n) continue;
    for(size_t c=0;c<n;++c) if(!(m>>c&1)){ W w=best[m]+a[r*n+c]; size_t k=m|(size_t(1)<<c); if(!set[k]||w<best[k]){best[k]=w;set[k]=1;} } }
  return best.back();
}
template<class T> struct Wide { using type=long double; };
template<> struct Wide<int> { using type=long long; };
template<> struct Wide<long long> { using type=long long; };

template<class T> void one(Monitor& m, Rng& r, const char* tname){
  size_t nmax = r.chance(0.15) ? (m.thorough()? 60: 36) : 9;
  size_t n = static_cast<size_t>(r.integer(1, static_cast<long long>(nmax)));
  int kind = static_cast<int>(r.integer(0,9));
  std::vector<T> a(n*n);
  double scale = std::is_integral<T>::value ? 1.0 : std::pow(10.0, static_cast<double>(r.integer(-8,8)));
  const char* kn="";
  long long big = std::is_same<T,int>::value ? 1000000LL : 1000000000LL;
  std::vector<double> rowv(n), colv(n); for(auto&x:rowv)x=static_cast<double>(r.integer(-50,50)); for(auto&x:colv)x=static_cast<double>(r.integer(-50,50));
  std::vector<size_t> perm(n); for(size_t i=0;i<n;++i)perm[i]=i; r.shuffle(perm);
  for(size_t i=0;i<n;++i) for(size_t j=0;j<n;++j){ double x=0;
    switch(kind){
      case 0: kn="uniform"; x = std::is_integral<T>::value? static_cast<double>(r.integer(0,1000)) : r.uni(); break;
      case 1: kn="few-valued"; x=static_cast<double>(r.integer(0,2)); break;
      case 2: kn="signed"; x= std::is_integral<T>::value? static_cast<double>(r.integer(-500,500)) : r.uni(-1,1); break;
      case 3: kn="all-negative"; x= std::is_integral<T>::value? static_cast<double>(r.integer(-1000,-1)) : -r.uni()-0.01; break;
      case 4: kn="permutation-zeros"; x= perm[i]==j ? 0. : (std::is_integral<T>::value? static_cast<double>(r.integer(0,9)) : (r.chance(0.3)?0.:r.uni())); break;
      case 5: kn="constant"; x=7; break;
      case 6: kn="row-plus-column"; x=rowv[i]+colv[j]; break;
      case 7: kn="large"; x= std::is_integral<T>::value? static_cast<double>(r.integer(0,big)) : 1e6*r.uni(); break;
      case 8: kn="mixed-magnitude"; x= std::is_integral<T>::value? std::floor(std::pow(10.,r.uni(0,std::is_same<T,int>::value?6:9))) : std::pow(10., r.uni(-6,6)); break;
      default: kn="product"; x=static_cast<double>((i+1)*(j+1)); break;
    }
    a[i*n+j]=static_cast<T>(x*scale); }
  m.note(cat(tname," n=",n," ",kn," scale=",scale));
  using W = typename Wide<T>::type;
  std::vector<W> w(a.begin(), a.end());
  W opt = hungarian<W>(n,w);
  if(n<=8){ W b=brute<W>(n,w); if (std::abs(static_cast<long double>(b-opt)) > 1e-12L*std::abs(static_cast<long double>(b))+1e-25L) throw std::logic_error("oracles disagree"); m.event("oracle cross-checks"); }
  long double mag=0; for(auto x:w) mag=std::max(mag, static_cast<long double>(x<0?-x:x));
  const long double eps = std::is_integral<T>::value ? 0.0L : static_cast<long double>(std::numeric_limits<T>::epsilon());
  auto show=[&](const auto& p){ return cat(m.note()," costs=",n<=6?vstr(a):std::string("(large)")," answer=",vstr(p)," optimum=",static_cast<double>(opt)); };
  auto total=[&](const auto& p){ W t=0; for(size_t i=0;i<n;++i) t+=w[i*n+static_cast<size_t>(p[i])]; return t; };
  auto bijective=[&](const auto& p){ std::vector<char> s(n,0); for(auto x:p){ if(static_cast<long long>(x)<0||static_cast<size_t>(x)>=n||s[static_cast<size_t>(x)]) return false; s[static_cast<size_t>(x)]=1;} return true; };
  // ---- Munkres
  {
    m.site("munkres");
    brille::assignment::Munkres<T> mk(n, a);
    std::vector<size_t> out(n, n+5);
    bool ok = mk.get_assignment(out.data());
    bool allzero=true; for(auto x:a) if(x!=T(0)) allzero=false;
    if(!ok) m.check(allzero, std::string("munkres:refused:")+tname, [&]{return show(out);});
    else {
      m.eval();
      if(m.check(bijective(out), std::string("munkres:not-one-to-one:")+tname, [&]{return show(out);})){
        long double gap=static_cast<long double>(total(out)-opt);
        m.check(gap <= 64*eps*mag*n, std::string("munkres:not-minimal:")+tname, [&]{return show(out)+cat(" gap=",static_cast<double>(gap));});
        if(mag>0) m.maximum("munkres relative gap", static_cast<double>(gap/mag));
      }
      // the same problem filled in afterwards and solved again gives an assignment of the same cost
      brille::assignment::Munkres<T> late(n); late.get_cost()=a; std::vector<size_t> out2(n,n+5);
      bool ok2=late.get_assignment(out2.data());
      m.check(ok2 && bijective(out2) && static_cast<long double>(total(out2)-opt)<=64*eps*mag*n, std::string("munkres:filled-later:")+tname, [&]{return show(out2);});
    }
  }
  // ---- Jonker-Volgenant
  auto run_jv=[&](auto idx_tag, const char* iname){
    using I=decltype(idx_tag);
    m.site(std::string("lapjv:")+iname);
    std::vector<I> rows(n,0), cols(n,0); std::vector<T> u(n,0), v(n,0);
    T got = brille::assignment::lapjv<I,T>(static_cast<I>(n), a.data(), false, rows.data(), cols.data(), u.data(), v.data());
    m.eval();
    std::string k=std::string(tname)+":"+iname;
    if(!m.check(bijective(rows), "lapjv:not-one-to-one:"+k, [&]{return show(rows);})) return;
    bool inv=true; for(size_t i=0;i<n;++i) if(static_cast<size_t>(cols[static_cast<size_t>(rows[i])])!=i) inv=false;
    m.check(inv, "lapjv:inconsistent-directions:"+k, [&]{return show(rows)+" cols="+vstr(cols);});
    W t=total(rows);
    long double gap=static_cast<long double>(t-opt);
    m.check(gap <= 256*eps*mag*n, "lapjv:not-minimal:"+k, [&]{return show(rows)+cat(" gap=",static_cast<double>(gap));});
    if(mag>0) m.maximum("lapjv relative gap", static_cast<double>(gap/mag));
    m.check(std::abs(static_cast<long double>(static_cast<W>(got)-t)) <= 64*eps*mag*n, "lapjv:reported-cost:"+k, [&]{return show(rows)+cat(" reported=",got," actual=",static_cast<double>(t));});
    if(n>1){ // dual prices: complementary on the assignment
      bool dual=true; for(size_t i=0;i<n;++i){ long double d=static_cast<long double>(w[i*n+static_cast<size_t>(rows[i])])-static_cast<long double>(u[i])-static_cast<long double>(v[static_cast<size_t>(rows[i])]); if(std::abs(d)>1024*eps*mag*n) dual=false; }
      m.check(dual, "lapjv:dual-prices:"+k, [&]{return show(rows);});
    }
    // inputs untouched and answer independent of stale output contents
    std::vector<I> rows2(n,static_cast<I>(n-1)), cols2(n,static_cast<I>(n-1)); std::vector<T> u2(n,T(9)), v2(n,T(9));
    brille::assignment::lapjv<I,T>(static_cast<I>(n), a.data(), false, rows2.data(), cols2.data(), u2.data(), v2.data());
    m.check(rows2==rows && cols2==cols, "lapjv:depends-on-stale-output:"+k, [&]{return show(rows)+vstr(rows2);});
  };
  run_jv(int(0),"int"); run_jv(size_t(0),"size_t");
  {
    m.site("jv_permutation");
    auto p = brille::jv_permutation<int,T>(a);
    m.check(p.size()==n && bijective(p) && static_cast<long double>(total(p)-opt) <= 256*eps*mag*n, std::string("jv_permutation:")+tname, [&]{return show(p);});
    std::vector<int> r1, r2, c2; brille::jv_permutation_fill(a, r1); brille::jv_permutation_fill(a, r2, c2);
    bool ok = r1.size()==n&&r2==r1&&c2.size()==n&&bijective(r1); if(ok) for(size_t i=0;i<n;++i) if(static_cast<size_t>(c2[static_cast<size_t>(r2[i])])!=i) ok=false;
    m.check(ok && static_cast<long double>(total(r1)-opt) <= 256*eps*mag*n, std::string("jv_permutation_fill:")+tname, [&]{return show(r1)+vstr(r2)+vstr(c2);});
  }
  // ---- stable matching
  {
    m.site("stable-matching");
    std::vector<size_t> rs(n,0), cs(n,0);
    brille::assignment::smp<size_t,T>(n, a.data(), rs.data(), cs.data(), false);
    m.eval();
    if(m.check(bijective(rs), std::string("smp:not-one-to-one:")+tname, [&]{return show(rs);})){
      bool inv=true, stable=true; for(size_t i=0;i<n;++i) if(cs[rs[i]]!=i) inv=false;
      m.check(inv, std::string("smp:inconsistent-directions:")+tname, [&]{return show(rs)+vstr(cs);});
      // no row and column both strictly prefer each other over their partners
      if(inv) for(size_t i=0;i<n;++i) for(size_t j=0;j<n;++j) if(w[i*n+j]<w[i*n+rs[i]] && w[i*n+j]<w[cs[j]*n+j]) stable=false;
      m.check(stable, std::string("smp:blocking-pair:")+tname, [&]{return show(rs);});
    }
  }
  // ---- applying permutations
  {
    m.site("apply_permutation");
    std::vector<int> idx(perm.begin(), perm.end()), idx2=idx; std::vector<double> obj(n), o1, o2; for(size_t i=0;i<n;++i) obj[i]=100.5+static_cast<double>(i);
    o1=obj; brille::apply_permutation(o1.begin(), o1.end(), idx.begin());
    bool ok=true; for(size_t i=0;i<n;++i) if(o1[i]!=obj[perm[i]]) ok=false;
    m.check(ok, "apply_permutation", [&]{return vstr(perm)+vstr(o1);});
    o2=obj; brille::apply_inverse_permutation(o2.begin(), o2.end(), idx2.begin());
    ok=true; for(size_t i=0;i<n;++i) if(o2[perm[i]]!=obj[i]) ok=false;
    m.check(ok, "apply_inverse_permutation", [&]{return vstr(perm)+vstr(o2);});
    for(size_t i=0;i<n;++i) if(idx[i]!=static_cast<int>(i)||idx2[i]!=static_cast<int>(i)) ok=false;
    m.check(ok, "apply_permutation:indices-sorted");
  }
  uint64_t h=hash_str(tname); for(auto x:a) h=hash_dbl(h, static_cast<double>(x)); if(n>1) m.distinct(h);
  m.event(std::string("kind ")+kn); m.event(std::string("type ")+tname);
  m.sample(cat(m.note()," optimum=",static_cast<double>(opt)));
}
int main(int argc,char**argv){
  Monitor m("C19",argc,argv);
  return m.run(m.thorough()?200000:12000, [&](Rng& r, size_t i){
    switch(i%4){ case 0: case 1: one<double>(m,r,"double"); break; case 2: one<int>(m,r,"int"); break; default: one<float>(m,r,"float"); break; }
  });
}
