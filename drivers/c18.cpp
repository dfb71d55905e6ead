// C18: the correspondence of modes recorded between connected grid points.
// Oracles: exhaustive search over all permutations with independently written cost functions; separable bands which must
// be followed through arbitrary relabelling and phases at each grid point.
#include "inter.hpp"
using namespace grid; using namespace inter; using mon::cat; using mon::Monitor; using mon::Rng; using mon::hash_mix; using mon::hash_dbl;
using C=std::complex<double>;
struct Cost { int vf; std::array<double,3> w; };
static double re(double x) { return x; } static double re(C x) { return x.real(); }
static double cj(double x) { return x; } static C cj(C x) { return std::conj(x); }
// cost of taking one mode for another
template<class T> double mode_cost(const T* a, const T* b0, const Layout& l, const Cost& c, bool phase) { std::vector<T> b(b0,b0+l.s); if constexpr (isc<T>::value) if (phase) { T z(0); for (size_t i=0;i<l.s;++i) z+=cj(a[i])*b[i]; if (std::abs(z)>0) { T ph=std::conj(z)/std::abs(z); for (auto& x : b) x*=ph; } }
  double s=0, v=0, m=0; size_t k=0; for (;k<l.e[0];++k) s+=std::abs(a[k]-b[k]); if (l.e[1]) { T h(0); double na=0, nb=0, d=0; for (size_t i=k;i<k+l.e[1];++i) { h+=cj(a[i])*b[i]; na+=std::norm(a[i]); nb+=std::norm(b[i]); d+=std::norm(a[i]-b[i]); } double n=std::sqrt(na*nb); auto ac=[](double x){ return std::acos(std::max(-1.0,std::min(1.0,x))); };
    double herm=isc<T>::value?std::abs(h):re(h); double ang=n>0?ac(herm/n):(na>0||nb>0?M_PI/2:0.0), eu=n>0?ac(re(h)/n):(na>0||nb>0?M_PI/2:0.0); switch (c.vf) { case 1: v=std::sqrt(d); break; case 2: v=1-(isc<T>::value?std::norm(h):re(h)); break; case 3: v=eu; break; case 4: v=ang; break; default: v=std::sin(ang)*std::sin(ang); } k+=l.e[1]; }
  for (unsigned q=0;q<l.e[2]/9;++q,k+=9) { double d=0; for (int i=0;i<9;++i) d+=std::norm(a[k+i]-b[k+i]); m+=std::sqrt(d); } return c.w[0]*s+c.w[1]*v+c.w[2]*m; }
template<class T, class R, class G> struct Tester { Monitor& M; Rng& r; G& g; const Domain& d; const Spec& s; Layout lv, lw; std::string id, k;
  void store(const Rows<T>& a, const Rows<R>& b) { auto A=pack(a,lv); auto B=pack(b,lw); g.replace_value_data(A,lv.e); g.replace_vector_data(B,lw.e); }
  std::pair<Rows<T>,Rows<R>> at(const std::vector<V>& x, int th) { bool ok=true; auto X=arr(x); auto [a,b]=base_interpolate(g,X,th); auto A=unpack(a,x.size(),ok,lv); auto B=unpack(b,x.size(),ok,lw); M.check(ok,k+"shape",[&]{return id;}); return {A,B}; }
  std::vector<size_t> perm(ind_t i, ind_t j) { auto p=g.data().get_permutation(i,j); return {p.begin(),p.end()}; }
  static bool valid(const std::vector<size_t>& p, size_t n) { std::vector<char> h(n,0); if (p.size()!=n) return false; for (auto x : p) if (x>=n||h[x]++) return false; return true; }
  std::vector<double> matrix(const Rows<T>& a, const Rows<R>& b, size_t i, size_t j, const Cost& cv, const Cost& cw) { size_t n=lv.b; std::vector<double> o(n*n); for (size_t x=0;x<n;++x) for (size_t y=0;y<n;++y) o[x*n+y]=mode_cost(&a[i][x*lv.s],&a[j][y*lv.s],lv,cv,false)+mode_cost(&b[i][x*lw.s],&b[j][y*lw.s],lw,cw,true); return o; }
  // relabel the modes of each point, and give each vector mode a phase
  void relabel(Rows<T>& a, Rows<R>& b, bool phases) { for (size_t i=0;i<a.size();++i) { std::vector<size_t> p(lv.b); for (size_t x=0;x<lv.b;++x) p[x]=x; r.shuffle(p); auto A=a[i]; auto B=b[i]; for (size_t x=0;x<lv.b;++x) { R ph(1); if constexpr (isc<R>::value) if (phases) ph=std::polar(1.0,r.uni(0,2*M_PI)); for (size_t q=0;q<lv.s;++q) a[i][x*lv.s+q]=A[p[x]*lv.s+q]; for (size_t q=0;q<lw.s;++q) b[i][x*lw.s+q]=ph*B[p[x]*lw.s+q]; } } }
  // distance between two sets of modes, over relabelling and phases
  template<class Q> static double phased(const Q* a, const Q* b, size_t n) { Q z(0); for (size_t i=0;i<n;++i) z+=cj(a[i])*b[i]; Q ph(1); if constexpr (isc<Q>::value) { if (std::abs(z)>0) ph=z/std::abs(z); } double m=0; for (size_t i=0;i<n;++i) { double e=std::abs(ph*a[i]-b[i]); if (!(e<=m)) m=e; } return m; }
  double sets(const std::vector<T>& a, const std::vector<R>& b, const std::vector<T>& c, const std::vector<R>& e) { const size_t n=lv.b; std::vector<size_t> p(n); for (size_t x=0;x<n;++x) p[x]=x; double best=1e300; do { double m=0; for (size_t x=0;x<n&&m<best;++x) { for (size_t q=0;q<lv.s;++q) m=std::max(m,double(std::abs(a[x*lv.s+q]-c[p[x]*lv.s+q]))); m=std::max(m,phased(&b[x*lw.s],&e[p[x]*lw.s],lw.s)); } best=std::min(best,m); } while (std::next_permutation(p.begin(),p.end())); return best; }
  void run() { auto v=vertices(g); const size_t nv=v.size(), n=lv.b; k=cat(name(s.kind),":"); const Cost cv{int(r.integer(0,4)),{r.uni(0,2),r.uni(0,2),r.uni(0,2)}}, cw{int(r.integer(0,5)),{r.uni(0,2),r.uni(0.2,2),r.uni(0,2)}};
    id=cat(d.id," ",show(s)," ",nv," points, values ",lv.id,isc<T>::value?" complex ":" ","cost ",cv.vf," vectors ",lw.id,isc<R>::value?" complex ":" ","cost ",cw.vf); M.note(id); M.sample(id); M.event(cat("grids: ",name(s.kind))); M.event(cat("vector cost ",cw.vf));
    std::vector<V> x; for (int i=0;i<24;++i) x.push_back(point(r,d.b,i<18?0:int(r.integer(1,4)))); auto ws=seen<T>(g,x,nv);
    // arbitrary modes
    Rows<T> a(nv); Rows<R> b(nv); const int like=int(r.integer(0,3)); // independent, similar between points, with equal modes, zero modes
    std::vector<T> ca; std::vector<R> cb; for (size_t j=0;j<lv.n();++j) ca.push_back(rnd<T>(r)*3.0); for (size_t j=0;j<lw.n();++j) cb.push_back(rnd<R>(r)); for (size_t i=0;i<nv;++i) { for (size_t j=0;j<lv.n();++j) a[i].push_back(like==1?ca[j]+0.3*rnd<T>(r):rnd<T>(r)); for (size_t j=0;j<lw.n();++j) b[i].push_back(like==1?cb[j]+0.3*rnd<R>(r):rnd<R>(r)); if (like==2&&r.chance(0.5)&&n>1) { size_t p=r.integer(0,n-1), q=r.integer(0,n-1); for (size_t j=0;j<lv.s;++j) a[i][p*lv.s+j]=a[i][q*lv.s+j]; if (r.chance(0.5)) for (size_t j=0;j<lw.s;++j) b[i][p*lw.s+j]=b[i][q*lw.s+j]; } if (like==3&&r.chance(0.3)) { size_t p=r.integer(0,n-1); for (size_t j=0;j<lw.s;++j) b[i][p*lw.s+j]=R(0); } }
    if (like==1) relabel(a,b,true); M.event(cat("modes are ",like==0?"independent":like==1?"similar between points":like==2?"sometimes equal":"sometimes zero"));
    // before sorting modes are connected as they are stored
    auto fresh=[&]{ bool id0=true; for (auto& w : ws) if (!w.empty()) { auto p=perm(w[0].first,r.pick(w).first); for (size_t q=0;q<n;++q) id0=id0&&p.size()==n&&p[q]==q; } return id0; };
    store(a,b); M.check(fresh(),k+"unsorted",[&]{return id;}); g.set_value_cost_info(0,cv.vf,cv.w); g.set_vector_cost_info(0,cw.vf,cw.w); g.sort();
    std::set<std::pair<ind_t,ind_t>> pairs; for (auto& w : ws) for (auto& p : w) for (auto& q : w) if (p.first!=q.first) pairs.insert({p.first,q.first}); std::vector<std::pair<ind_t,ind_t>> todo(pairs.begin(),pairs.end()); r.shuffle(todo); if (todo.size()>(n>4?40u:150u)) todo.resize(n>4?40:150); double gap=1e300;
    for (auto& [i,j] : todo) { auto p=perm(i,j), q=perm(j,i); M.event("connections judged"); if (!M.check(valid(p,n)&&valid(q,n),k+"permutation",[&]{return cat(id," between ",i," and ",j);})) continue; bool inverse=true; for (size_t y=0;y<n;++y) inverse=inverse&&q[p[y]]==y; M.check(inverse,k+"inverse",[&]{return cat(id," between ",i," and ",j);});
      auto cm=matrix(a,b,i,j,cv,cw); double mag=0, got=0, best=1e300, second=1e300; for (auto y : cm) mag=std::max(mag,std::abs(y)); auto sum=[&](const std::vector<size_t>& z){ double t=0; for (size_t y=0;y<n;++y) t+=cm[y*n+z[y]]; return t; }; got=sum(p); std::vector<size_t> z(n); for (size_t y=0;y<n;++y) z[y]=y; do { double t=sum(z); if (t<best) { second=best; best=t; } else second=std::min(second,t); } while (std::next_permutation(z.begin(),z.end())); if (n>1) gap=std::min(gap,(second-best)/(mag+1e-300)); bool moved=false; for (size_t y=0;y<n;++y) moved=moved||p[y]!=y; if (moved) M.event("connections between differently ordered modes");
      // the arc cosine has an infinite slope at its end
      const double tol=(cv.vf==3||cv.vf==4||cw.vf==3||cw.vf==4?1e-6:1e-9)*(1+mag)*double(n); M.maximum("cost above the least",got-best); M.check(got<=best+tol,k+cat("optimal:cost ",cw.vf),[&]{return cat(id," between ",i," and ",j,": ",got," but ",best," is possible");}); }
    // sorting again, with any number of threads, changes nothing
    auto one=at(x,1); { omp_set_num_threads(int(r.integer(1,6))); g.sort(); omp_set_num_threads(1); auto two=at(x,int(r.integer(1,5))); M.event("sorted again"); M.check(one==two,k+"again",[&]{return id;}); }
    // labels and phases do not matter (where the best correspondence is not a matter of round-off)
    if (like<2&&n>1) { auto a2=a; auto b2=b; relabel(a2,b2,true); store(a2,b2); g.sort(); auto two=at(x,1); const double sc=1+size(a)+size(b); for (size_t i=0;i<18;++i) { bool tight=false; for (auto& o1 : ws[i]) for (auto& p : ws[i]) { if (tight||p.first<=o1.first) continue; auto cm=matrix(a,b,o1.first,p.first,cv,cw); double mag=0; for (auto y : cm) mag=std::max(mag,std::abs(y)); std::vector<size_t> z(n); double best=1e300, second=1e300; for (size_t y=0;y<n;++y) z[y]=y; do { double t=0; for (size_t y=0;y<n;++y) t+=cm[y*n+z[y]]; if (t<best) { second=best; best=t; } else second=std::min(second,t); } while (std::next_permutation(z.begin(),z.end())); tight=tight||second-best<1e-5*(1+mag); } if (tight) { M.event("nearly equal correspondences"); continue; } double e=sets(one.first[i],one.second[i],two.first[i],two.second[i]); M.event("relabelled points judged"); M.maximum("relabelled off by",e/sc); M.check(e<1e-8*sc,k+"relabelled",[&]{return cat(id,": off by ",e);}); } }
    // bands: linear values far from each other, with vectors of their own, are followed
    { std::vector<V> gr; std::vector<T> c0; std::vector<std::vector<R>> e0; double range=0; for (size_t m=0;m<n;++m) { gr.push_back(scale(V{r.normal(),r.normal(),r.normal()},1/d.b.size)); for (auto& y : v) range=std::max(range,std::abs(dot(gr[m],y))); } for (size_t m=0;m<n;++m) { c0.push_back(T(4*range*double(m)+range*10)); std::vector<R> e; for (size_t q=0;q<lw.s;++q) e.push_back(rnd<R>(r)); e0.push_back(e); }
      Rows<T> ba(nv); Rows<R> bb(nv); auto val=[&](size_t m, const V& y){ return c0[m]+T(dot(gr[m],y)); }; for (size_t i=0;i<nv;++i) for (size_t m=0;m<n;++m) { for (size_t q=0;q<lv.s;++q) ba[i].push_back(val(m,v[i])); for (auto& y : e0[m]) bb[i].push_back(y); } const bool only=lv.e[1]==0&&lv.e[2]==0; if (only) { relabel(ba,bb,true); store(ba,bb); g.set_value_cost_info(0,0,std::array<double,3>{100,1,1}); g.set_vector_cost_info(0,int(r.integer(4,5)),std::array<double,3>{0.0,0.01,0.0}); g.sort();
        auto got=at(x,2); for (size_t i=0;i<x.size();++i) { std::vector<T> ea; std::vector<R> eb; for (size_t m=0;m<n;++m) { for (size_t q=0;q<lv.s;++q) ea.push_back(val(m,x[i])); eb.insert(eb.end(),e0[m].begin(),e0[m].end()); } double e=sets(ea,eb,got.first[i],got.second[i]); M.event("points of bands judged"); M.check(e<1e-8*(1+size(ea)+size(eb)),k+"bands",[&]{return cat(id,": off by ",e);}); } }
      // and a different number of modes starts afresh
      if (n>1) { Layout kv=lv, kw=lw; auto one_less=[&](Layout& l){ l.b=n-1; if (l.tail.size()==1) l.tail[0]=ind_t(l.b*l.s); else l.tail[0]=ind_t(l.b); }; one_less(lv); one_less(lw); Rows<T> sa(nv); Rows<R> sb(nv); for (size_t i=0;i<nv;++i) { sa[i].assign(ba[i].begin(),ba[i].begin()+lv.n()); sb[i].assign(bb[i].begin(),bb[i].begin()+lw.n()); } store(sa,sb); bool fr=true; for (auto& w : ws) if (!w.empty()) { auto p=perm(w[0].first,r.pick(w).first); for (size_t q=0;q+1<n;++q) fr=fr&&p.size()==n-1&&p[q]==q; } M.event("fewer modes"); M.check(fr,k+"fewer",[&]{return id;}); lv=kv; lw=kw; } } }
};
int main(int argc, char** argv) {
  Monitor M("C18", argc, argv); const size_t ns=sym::settings().size();
  M.run(M.thorough() ? 30000 : 1000, [&](Rng& r, size_t c) {
    const size_t si=(c*211)%ns; Kind kind=Kind(c%4); M.site("zone"); auto d=domain(r,si,r.chance(0.93)); auto s=spec(r,d,kind,10); size_t b=size_t(r.integer(1,5)); auto pick=[&]{ while (true) { auto l=layout(r,b); if (l.b==b) return l; } }; auto lv=pick(), lw=pick(); if (r.chance(0.5)) { unsigned q=unsigned(r.integer(1,2)); lv.e={q,0,0}; lv.s=q; lv.tail={ind_t(b),ind_t(q)}; lv.id=cat("{",b," ",q,"}"); }
    M.note(cat(d.id," ",show(s))); M.eval(); { uint64_t h=hash_mix(si,size_t(kind)); for (auto q : d.o.f.G) h=hash_dbl(h,q); M.distinct(hash_mix(h,hash_mix(s.cells,lv.n()*100+lw.n()))); }
    M.site(cat("build ",name(kind))); auto go=[&](auto t, auto q){ using T=decltype(t); using R=decltype(q); with<T,R>(r,d,s,[&](auto& g){ M.site(name(kind)); Tester<T,R,std::decay_t<decltype(g)>>{M,r,g,d,s,lv,lw,"",""}.run(); }); };
    switch (r.integer(0,3)) { case 0: go(0.0,0.0); break; case 1: case 2: go(0.0,C()); break; default: go(C(),C()); }
  });
}
