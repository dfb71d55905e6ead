// C15: interpolation is linear and exact at the stored points.
// The overall phase of a complex vector is not judged.  The oracle knows only the stored positions: linear fields, superposition, bounds, one-row lists and stored rows.
#include "mon.hpp"
#include "inter.hpp"
using namespace grid; using namespace inter; using mon::cat; using mon::Monitor; using mon::Rng; using mon::hash_mix; using mon::hash_dbl;
template<class T, class R, class G> struct Tester { Monitor& M; Rng& r; G& g; const Domain& d; const Spec& s; Layout lv, lw; std::string id, k;
  using Out=std::pair<Rows<T>,Rows<R>>;
  void store(const Rows<T>& a, const Rows<R>& b) { auto A=pack(a,lv); auto B=pack(b,lw); if (r.chance(0.5)) { g.replace_value_data(A,lv.e); g.replace_vector_data(B,lw.e); } else { g.replace_vector_data(B,lw.e); g.replace_value_data(A,lv.e); } }
  Out at(const std::vector<V>& x, int threads=-1) { bool ok=true; auto X=arr(x); auto [a,b]=threads<0?base_interpolate(g,X):base_interpolate(g,X,threads); auto A=unpack(a,x.size(),ok,lv); auto B=unpack(b,x.size(),ok,lw); M.check(ok,k+"shape",[&]{return id;}); return {A,B}; }
  void run() { auto v=vertices(g); const size_t nv=v.size(); const double sz=d.b.size; auto t=tets(g); k=cat(name(s.kind),":"); id=cat(d.id," ",show(s)," ",nv," points, values ",lv.id,isc<T>::value?" complex":"", " vectors ",lw.id,isc<R>::value?" complex":""); M.note(id); M.sample(id); M.event(cat("grids: ",name(s.kind))); M.event(cat("layout ",lv.tail.size()+1,"-D")); M.event(cat("layout ",lw.tail.size()+1,"-D"));
    std::vector<V> x; std::vector<long> is; auto put=[&](V p, long w){ if (w<0&&d.b.outside(p)>0) p=add(p,add(p,d.b.centroid,-1),-1e-15); x.push_back(p); is.push_back(w); };
    for (int i=0;i<20;++i) put(point(r,d.b,i<12?0:int(r.integer(0,4))),-1); for (int i=0;i<8;++i) { long n=long(r.integer(0,nv-1)); put(v[size_t(n)],n); } if (!t.empty()) for (int i=0;i<6;++i) { auto& q=r.pick(t); put(i%2?scale(add(v[q[0]],v[q[1]]),0.5):scale(add(add(v[q[0]],v[q[1]]),add(v[q[2]],v[q[3]])),0.25),-1); }
    const double tol=2e-8*d.o.K; const size_t n=x.size();
    // linear fields, with a phase of its own for the vectors of each stored point and mode
    { std::vector<std::array<T,4>> fv(lv.n()); for (auto& f : fv) for (auto& q : f) q=rnd<T>(r); std::vector<std::array<R,4>> fw(lw.n()); for (auto& f : fw) for (auto& q : f) q=rnd<R>(r);
      // Hermitian products of a mode between points are positive if its constant part dominates; real data have no phases
      if (isc<R>::value) for (size_t b=0;b<lw.b;++b) { for (size_t j=0;j<lw.s;++j) for (int c=1;c<4;++c) { auto& f=fw[b*lw.s+j]; f[size_t(c)]=f[0]*(r.normal()*0.15); } }
      auto fieldv=[&](const V& p){ std::vector<T> o; for (auto& f : fv) o.push_back(f[0]+f[1]*T(p[0]/sz)+f[2]*T(p[1]/sz)+f[3]*T(p[2]/sz)); return o; }; auto fieldw=[&](const V& p){ std::vector<R> o; for (auto& f : fw) o.push_back(f[0]+f[1]*R(p[0]/sz)+f[2]*R(p[1]/sz)+f[3]*R(p[2]/sz)); return o; };
      Rows<T> a; Rows<R> b; Rows<R> plain; const bool phases=isc<R>::value&&r.chance(0.7); for (auto& p : v) { a.push_back(fieldv(p)); auto w=fieldw(p); plain.push_back(w); if constexpr (isc<R>::value) if (phases) for (size_t m=0;m<lw.b;++m) { R e=std::polar(1.0,r.uni(-3.14159265,3.14159265)); for (size_t j=0;j<lw.s;++j) w[m*lw.s+j]*=e; } b.push_back(w); }
      store(a,b); auto o=at(x); for (size_t i=0;i<n;++i) { auto fa=fieldv(x[i]); auto fb=fieldw(x[i]); double ev=diff(o.first[i],fa), ew=0; 
        if (!phases) ew=diff(o.second[i],fb); else if constexpr (isc<R>::value) for (size_t m=0;m<lw.b;++m) { R h(0); double nn=0; for (size_t j=0;j<lw.s;++j) { h+=std::conj(fb[m*lw.s+j])*o.second[i][m*lw.s+j]; nn+=std::norm(fb[m*lw.s+j]); } R e=std::polar(1.0,std::arg(h)); for (size_t j=0;j<lw.s;++j) ew=std::max(ew,std::abs(o.second[i][m*lw.s+j]-e*fb[m*lw.s+j])); }
        M.event("linear fields judged"); M.maximum("linear field off by",std::max(ev,ew)); M.check(ev<tol,k+"linear-values",[&]{return cat(id," at ",lat::show(x[i]),": off by ",ev);}); M.check(ew<tol*5,k+"linear-vectors",[&]{return cat(id," at ",lat::show(x[i]),phases?" with phases":"",": off by ",ew);}); } }
    // arbitrary data: stored rows come back, bounds hold, superposition, one at a time, any number of threads, any order
    Rows<T> a1(nv), a2(nv), a3(nv); Rows<R> b1(nv), b2(nv), b3(nv); T c1=rnd<T>(r), c2=rnd<T>(r); for (size_t i=0;i<nv;++i) { for (size_t j=0;j<lv.n();++j) { a1[i].push_back(rnd<T>(r)); a2[i].push_back(rnd<T>(r)); a3[i].push_back(c1*a1[i][j]+c2*a2[i][j]); } for (size_t j=0;j<lw.n();++j) { b1[i].push_back(rnd<R>(r)); b2[i].push_back(rnd<R>(r)); } }
    store(a1,b1); auto o1=at(x); const double S1=size(a1)+size(b1);
    for (size_t i=0;i<n;++i) { if (is[i]>=0) { double e=diff(o1.first[i],a1[size_t(is[i])]); const auto& want=b1[size_t(is[i])]; if constexpr (isc<R>::value) { for (size_t m=0;m<lw.b;++m) { R h(0); for (size_t j=0;j<lw.s;++j) h+=std::conj(want[m*lw.s+j])*o1.second[i][m*lw.s+j]; R q=std::polar(1.0,std::arg(h)); if (std::abs(q-R(1))<1e-9) M.event("stored vectors with their phase"); else M.event("stored vectors with another phase"); for (size_t j=0;j<lw.s;++j) e=std::max(e,std::abs(o1.second[i][m*lw.s+j]-q*want[m*lw.s+j])); } } else e=std::max(e,diff(o1.second[i],want)); M.event("stored rows looked up"); M.check(e<1e-6*S1,k+"stored-row",[&]{return cat(id," at stored point ",is[i],": off by ",e);}); }
      if constexpr (!isc<T>::value) for (size_t j=0;j<lv.n();++j) { double lo=1e300, hi=-1e300; for (auto& q : a1) { lo=std::min(lo,double(q[j])); hi=std::max(hi,double(q[j])); } M.check(o1.first[i][j]>=lo-1e-6&&o1.first[i][j]<=hi+1e-6,k+"bounds",[&]{return id;}); } }
    { bool same=true; for (int q=0;q<6;++q) { size_t i=size_t(r.integer(0,n-1)); auto o=at({x[i]}); same=same&&o.first[0]==o1.first[i]&&o.second[0]==o1.second[i]; M.event("single points"); } M.check(same,k+"one-at-a-time",[&]{return id;}); }
    { int th=int(r.integer(0,6)); auto o=at(x,th); bool same=o.first==o1.first&&o.second==o1.second; M.event(cat("threads ",th)); M.check(same,k+"threads",[&]{return cat(id," with ",th," threads");}); }
    { std::vector<size_t> p(n); for (size_t i=0;i<n;++i) p[i]=size_t(r.integer(0,n-1)); std::vector<V> y; for (auto i : p) y.push_back(x[i]); auto o=at(y,r.chance(0.5)?3:-1); bool same=true; for (size_t i=0;i<n;++i) same=same&&o.first[i]==o1.first[p[i]]&&o.second[i]==o1.second[p[i]]; M.check(same,k+"order",[&]{return id;}); }
    store(a2,b2); auto o2=at(x); for (size_t i=0;i<nv;++i) for (size_t j=0;j<lw.n();++j) b3[i].push_back(b1[i][j]*(isc<R>::value?2.5:2.5)); store(a3,b3); auto o3=at(x); for (size_t i=0;i<n;++i) { double e=0; for (size_t j=0;j<lv.n();++j) e=std::max(e,std::abs(o3.first[i][j]-(c1*o1.first[i][j]+c2*o2.first[i][j]))); double f=0; for (size_t j=0;j<lw.n();++j) f=std::max(f,std::abs(o3.second[i][j]-2.5*o1.second[i][j])); M.event("superpositions judged"); M.check(e<1e-10*(1+size(a3)),k+"superposition",[&]{return cat(id,": off by ",e);}); M.check(f<1e-10*(1+size(b3)),k+"scaled-vectors",[&]{return cat(id,": off by ",f);}); }
    // only one element of one mode is not zero
    { size_t jv=size_t(r.integer(0,lv.n()-1)), jw=size_t(r.integer(0,lw.n()-1)); Rows<T> a(nv,std::vector<T>(lv.n(),T(0))); Rows<R> b(nv,std::vector<R>(lw.n(),R(0))); for (size_t i=0;i<nv;++i) { a[i][jv]=a1[i][jv]; b[i][jw]=b1[i][jw]; } store(a,b); auto o=at(x); bool clean=true, same=true; for (size_t i=0;i<n;++i) { for (size_t j=0;j<lv.n();++j) clean=clean&&(j==jv||o.first[i][j]==T(0)); for (size_t j=0;j<lw.n();++j) clean=clean&&(j==jw||o.second[i][j]==R(0)); same=same&&std::abs(o.first[i][jv]-o1.first[i][jv])<1e-12*S1; if (!isc<R>::value) same=same&&std::abs(o.second[i][jw]-o1.second[i][jw])<1e-12*S1; } M.event("elements seen alone"); M.check(clean,k+"mixed-elements",[&]{return id;}); M.check(same,k+"other-elements-matter",[&]{return id;}); }
    // the lattice-vector interface: as given, and moved into the zone
    { store(a1,b1); const auto& L=d.o.z->get_lattice(); std::vector<V> h; for (size_t i=0;i<n;++i) h.push_back(mulv(d.o.Bi,x[i])); auto lvx=[&](const std::vector<V>& y){ return brille::lattice::LVec<double>(brille::LengthUnit::inverse_angstrom,L,arr(y)); }; bool ok=true; if constexpr (requires_lvec) { auto [a,b]=g.template interpolate_at<true>(lvx(h)); auto A=unpack(a,n,ok,lv); auto B=unpack(b,n,ok,lw); double e=0; for (size_t i=0;i<12;++i) if (d.b.outside(x[i])<-1e-6*sz) e=std::max(e,std::max(diff(A[i],o1.first[i]),isc<R>::value?0:diff(B[i],o1.second[i]))); M.event("lattice-vector interface"); M.check(ok&&e<1e-6*S1,k+"lattice-vectors",[&]{return cat(id,": off by ",e);});
        if (!d.wedge) { std::vector<V> y; for (auto& q : h) { V p=q; for (int c=0;c<3;++c) p[c]+=0; V tau=mulv(d.o.Bi,mulv(d.o.Bp,V{double(r.integer(-3,3)),double(r.integer(-3,3)),double(r.integer(-3,3))})); y.push_back(add(p,tau)); } auto [a3_,b3_]=g.interpolate_at(lvx(y),2); auto C=unpack(a3_,n,ok,lv); double f=0; for (size_t i=0;i<12;++i) if (d.b.outside(x[i])<-1e-6*sz) f=std::max(f,diff(C[i],o1.first[i])); M.event("moved into the zone"); M.check(ok&&f<1e-6*S1,k+"moved",[&]{return cat(id,": off by ",f);}); } } }
    // points outside are refused; for a trellis the documentation allows anything
    if (!requires_lvec) { std::vector<V> y=x; V& p=y[size_t(r.integer(0,n-1))]; p=add(d.b.centroid,scale(add(r.pick(d.b.v),d.b.centroid,-1),1+std::exp(r.uni(-6,4)))); int refused=0; for (int th : {-1,2}) try { auto o=at(y,th); (void)o; } catch (const std::exception&) { ++refused; } M.event("lists with a point outside"); M.check(refused==2,k+"outside",[&]{return cat(id,": refused ",refused," of 2 times");}); } }
  static constexpr bool requires_lvec=std::is_base_of_v<GTrellis<T,R>,G>;
};
int main(int argc, char** argv) {
  Monitor M("C15", argc, argv); const size_t n=sym::settings().size();
  M.run(M.thorough() ? 30000 : 1200, [&](Rng& r, size_t c) {
    const size_t si=(c*211)%n; Kind kind=Kind(c%4); M.site("zone"); auto d=domain(r,si,r.chance(0.6)); auto s=spec(r,d,kind,r.chance(0.1)?120:30); size_t b=size_t(r.integer(1,4)); auto lv=layout(r,b), lw=layout(r,b); M.note(cat(d.id," ",show(s))); M.eval(); { uint64_t h=hash_mix(si,size_t(kind)); for (auto q : d.o.f.G) h=hash_dbl(h,q); M.distinct(hash_mix(h,hash_mix(s.cells,lv.n()*100+lw.n()))); }
    M.site(cat("build ",name(kind))); auto go=[&](auto t, auto q){ using T=decltype(t); using R=decltype(q); with<T,R>(r,d,s,[&](auto& g){ M.site(name(kind)); Tester<T,R,std::decay_t<decltype(g)>>{M,r,g,d,s,lv,lw,"",""}.run(); }); };
    switch (r.integer(0,2)) { case 0: go(0.0,0.0); break; case 1: go(0.0,std::complex<double>()); break; default: go(std::complex<double>(),std::complex<double>()); }
  });
}
