// C16: results of symmetry-reduced interpolation are tensors turned by the operation which connects the wave vector with
// its irreducible representative.  The oracle turns in Cartesian coordinates: the operation as an orthogonal matrix, the
// data converted from and to the frame they are given in.
#include "mon.hpp"
#include "inter.hpp"
using namespace grid; using namespace inter; using mon::cat; using mon::Monitor; using mon::Rng; using mon::hash_mix; using mon::hash_dbl;
using brille::RotatesLike; using brille::LengthUnit; using LV=brille::lattice::LVec<double>;
struct Frame { RotatesLike like; LengthUnit unit; const char* name; };
const Frame frames[]{{RotatesLike::vector,LengthUnit::real_lattice,"vector in the lattice"},{RotatesLike::pseudovector,LengthUnit::real_lattice,"pseudovector in the lattice"},{RotatesLike::vector,LengthUnit::reciprocal_lattice,"vector in the reciprocal lattice"}};
// columns are the basis the elements of a tensor refer to
M9 basis(const Frame& f, const Zone& o) { return f.unit==LengthUnit::real_lattice?o.A:o.B; }
template<class T> using M3=std::array<T,9>;
template<class T> void turn(std::vector<T>& row, const Layout& l, const M9& P, double sign) { M9 Pi=inv(P); // P acts on elements of vectors
  for (size_t b=0;b<l.b;++b) { size_t k=b*l.s+l.e[0]; for (unsigned v=0;v<l.e[1]/3;++v,k+=3) { T t[3]; for (int i=0;i<3;++i) { t[i]=T(0); for (int j=0;j<3;++j) t[i]+=P[3*i+j]*row[k+j]; } for (int i=0;i<3;++i) row[k+i]=sign*t[i]; }
    for (unsigned m=0;m<l.e[2]/9;++m,k+=9) { M3<T> a{}, c{}; for (int i=0;i<3;++i) for (int j=0;j<3;++j) for (int q=0;q<3;++q) a[3*i+j]+=P[3*i+q]*row[k+3*q+j]; for (int i=0;i<3;++i) for (int j=0;j<3;++j) for (int q=0;q<3;++q) c[3*i+j]+=a[3*i+q]*Pi[3*q+j]; for (int i=0;i<9;++i) row[k+i]=c[i]; } } }
// what no rotation changes: scalars, lengths of vectors, traces, and Frobenius norms of matrices
template<class T> std::vector<double> invariants(const std::vector<T>& row, const Layout& l, const M9& C) { std::vector<double> o; M9 Ci=inv(C); for (size_t b=0;b<l.b;++b) { size_t k=b*l.s; for (unsigned s=0;s<l.e[0];++s,++k) { o.push_back(std::real(std::complex<double>(row[k]))); o.push_back(std::imag(std::complex<double>(row[k]))); }
    for (unsigned v=0;v<l.e[1]/3;++v,k+=3) { double n=0; for (int i=0;i<3;++i) { T t(0); for (int j=0;j<3;++j) t+=C[3*i+j]*row[k+j]; n+=std::norm(t); } o.push_back(std::sqrt(n)); }
    for (unsigned m=0;m<l.e[2]/9;++m,k+=9) { M3<T> a{}, c{}; for (int i=0;i<3;++i) for (int j=0;j<3;++j) for (int q=0;q<3;++q) a[3*i+j]+=C[3*i+q]*row[k+3*q+j]; for (int i=0;i<3;++i) for (int j=0;j<3;++j) for (int q=0;q<3;++q) c[3*i+j]+=a[3*i+q]*Ci[3*q+j]; double n=0; T t=c[0]+c[4]+c[8]; for (auto& q : c) n+=std::norm(q); o.push_back(std::sqrt(n)); o.push_back(std::abs(t)); } } return o; }
inline double spread(const std::vector<double>& a, const std::vector<double>& b) { double m=0; for (size_t i=0;i<a.size();++i) m=std::max(m,std::abs(a[i]-b[i])); return m; }
template<class T, class R, class G> struct Tester { Monitor& M; Rng& r; G& g; const Domain& d; const Spec& s; Layout lv, lw; std::string id, k;
  using Out=std::pair<Rows<T>,Rows<R>>;
  void store(const Rows<T>& a, const Rows<R>& b, const Frame& fv, const Frame& fw) { auto A=pack(a,lv); auto B=pack(b,lw); g.replace_value_data(A,lv.e,fv.like,fv.unit); g.replace_vector_data(B,lw.e,fw.like,fw.unit); }
  LV lvx(const std::vector<V>& h) { return LV(LengthUnit::inverse_angstrom,d.o.z->get_lattice(),arr(h)); }
  Out at(const std::vector<V>& h, int threads) { bool ok=true; auto x=lvx(h); auto [a,b]=g.ir_interpolate_at(x,threads); auto A=unpack(a,h.size(),ok,lv); auto B=unpack(b,h.size(),ok,lw); M.check(ok,k+"shape",[&]{return id;}); return {A,B}; }
  Out still(const std::vector<V>& h, int threads) { bool ok=true; auto x=lvx(h); auto [a,b]=g.template ir_interpolate_at<true>(x,threads); auto A=unpack(a,h.size(),ok,lv); auto B=unpack(b,h.size(),ok,lw); M.check(ok,k+"shape",[&]{return id;}); return {A,B}; }
  Out base(const std::vector<V>& x) { bool ok=true; auto X=arr(x); auto [a,b]=base_interpolate(g,X,1); auto A=unpack(a,x.size(),ok,lv); auto B=unpack(b,x.size(),ok,lw); return {A,B}; }
  void run() { auto v=vertices(g); const size_t nv=v.size(); const Zone& o=d.o; k=cat(name(s.kind),":"); const Frame fv=r.pick(std::vector<Frame>(frames,frames+3)), fw=r.pick(std::vector<Frame>(frames,frames+3)); id=cat(d.id," ",show(s)," ",nv," points, values ",lv.id,isc<T>::value?" complex ":" ",fv.name," vectors ",lw.id,isc<R>::value?" complex ":" ",fw.name); M.note(id); M.sample(id); M.event(cat("grids: ",name(s.kind))); M.event(cat("values are ",fv.name)); M.event(cat("vectors are ",fw.name));
    // wave vectors: anywhere, moved by lattice vectors, and on their symmetry-related places
    const int nb=10; std::vector<V> h; auto tau=[&]{ return mulv(o.Bi,mulv(o.Bp,V{double(r.integer(-3,3)),double(r.integer(-3,3)),double(r.integer(-3,3))})); };
    for (int i=0;i<nb;++i) { V x=point(r,d.b,i<6?0:int(r.integer(0,4))); h.push_back(o.hkl(x)); } const size_t first=h.size(); std::vector<size_t> from; for (size_t i=0;i<first;++i) for (int q=0;q<3;++q) { h.push_back(add(o.turn(r.pick(o.ops),h[i]),tau())); from.push_back(i); } for (int i=0;i<6;++i) { h.push_back(o.hkl(V{r.normal()*d.b.size,r.normal()*d.b.size,r.normal()*d.b.size})); from.push_back(h.size()-1); }
    const size_t n=h.size(); auto X=lvx(h); LV q(LengthUnit::inverse_angstrom,d.o.z->get_lattice(),ind_t(n)); brille::lattice::LVec<int> t(LengthUnit::inverse_angstrom,d.o.z->get_lattice(),ind_t(n)); std::vector<size_t> R1(n,0), I1(n,0); M.site("reduction"); if (!o.z->ir_moveinto(X,q,t,R1,I1,1)) throw mon::Skip("reduction failed"); M.site(name(s.kind));
    auto ps=o.z->get_pointgroup_symmetry(); std::vector<M9> S; std::vector<V> qx; const double sz=d.b.size;
    for (size_t i=0;i<n;++i) { auto m=ps.get(R1[i]); R9 w{}; for (int j=0;j<9;++j) w[j]=m[j]; V qi=at_(q,ind_t(i)); // Q-tau = B w^T B^-1 q in Cartesian coordinates
      M9 C=mul(mul(o.B,fl(sym::tr(w))),o.Bi); S.push_back(C); qx.push_back(o.xyz(qi)); V left=add(add(o.xyz(h[i]),mulv(o.B,V{double(t.val(ind_t(i),0)),double(t.val(ind_t(i),1)),double(t.val(ind_t(i),2))}),-1),mulv(C,o.xyz(qi)),-1); if (norm(left)>1e-8*(sz+norm(o.xyz(h[i])))) throw mon::Skip("reduction is not what it should be"); M.event(cat("operations of order ",sym::order(w),sym::det(w)<0?" improper":"")); }
    // arbitrary data
    Rows<T> a(nv); Rows<R> b(nv); for (size_t i=0;i<nv;++i) { for (size_t j=0;j<lv.n();++j) a[i].push_back(rnd<T>(r)); for (size_t j=0;j<lw.n();++j) b[i].push_back(rnd<R>(r)); }
    store(a,b,fv,fw); const int th=int(r.integer(0,4)); Out got; try { got=at(h,th); } catch (const std::exception& e) { std::string why=e.what(); for (size_t i=0;i<n;++i) try { at({h[i]},1); } catch (const std::exception&) { why+=cat("; hkl ",lat::show(h[i])," reduced to ",lat::show(at_(q,ind_t(i)))," which is ",d.b.outside(qx[i])/sz," outside"); } M.fail(k+"exception",cat(id,": ",why)); return; } auto raw=base(vor::pts(brille::get_xyz(q))); const double scale_=(1+size(a)+size(b))*d.o.K*d.o.K;
    const M9 Cv=basis(fv,o), Cw=basis(fw,o), Cvi=inv(Cv), Cwi=inv(Cw);
    for (size_t i=0;i<n;++i) { auto ev=raw.first[i]; auto ew=raw.second[i]; double dt=det(S[i])<0?-1:1; turn(ev,lv,mul(mul(Cvi,S[i]),Cv),fv.like==RotatesLike::pseudovector?dt:1.0); turn(ew,lw,mul(mul(Cwi,S[i]),Cw),fw.like==RotatesLike::pseudovector?dt:1.0);
      double x=diff(ev,got.first[i]), y=diff(ew,got.second[i]); M.event("results judged"); M.maximum("result off by",std::max(x,y)/scale_); auto m=ps.get(R1[i]);
      M.check(x<1e-10*scale_,k+"values "+fv.name,[&]{return cat(id," hkl ",lat::show(h[i]),": off by ",x);}); M.check(y<1e-10*scale_,k+"vectors "+fw.name,[&]{return cat(id," hkl ",lat::show(h[i]),": off by ",y);}); }
    // equivalent wave vectors differ only by a rotation (judged away from where the choice of triangulation matters)
    for (size_t e=0;e<from.size();++e) { size_t i=first+e, j=from[e]; if (j==i||j>=6||!d.wedge) continue; double x=spread(invariants(got.first[i],lv,Cv),invariants(got.first[j],lv,Cv)), y=spread(invariants(got.second[i],lw,Cw),invariants(got.second[j],lw,Cw)); M.event("equivalent wave vectors"); if (d.b.outside(qx[j])<-1e-7*sz) { M.event("equivalent wave vectors judged"); double f=norm(Cv[0]>0?V{1,0,0}:V{1,0,0})*std::max(amax(Cv)*amax(Cvi),amax(Cw)*amax(Cwi))*(1+amax(Cv)+amax(Cw)); M.check(x<1e-7*scale_*f&&y<1e-7*scale_*f,k+"equivalent",[&]{return cat(id," hkl ",lat::show(h[i])," and ",lat::show(h[j]),": ",x," ",y);}); } }
    // within the irreducible polyhedron nothing needs to be moved
    { std::vector<V> z(h.begin(),h.begin()+6); std::vector<V> zx; for (auto& p : z) zx.push_back(o.xyz(p)); auto s0=still(z,r.chance(0.5)?1:3); auto s1=base(zx); M.event("already inside"); double e=0; for (size_t i=0;i<6;++i) e=std::max(e,std::max(diff(s0.first[i],s1.first[i]),diff(s0.second[i],s1.second[i]))); M.check(e<1e-12*scale_,k+"no-move",[&]{return cat(id,": off by ",e);}); }
    // one at a time and with other threads
    { auto o2=at(h,int(r.integer(1,6))); M.event("repeated with other threads"); M.check(o2.first==got.first&&o2.second==got.second,k+"threads",[&]{return id;}); bool same=true; for (int c=0;c<4;++c) { size_t i=size_t(r.integer(0,n-1)); auto o3=at({h[i]},1); same=same&&o3.first[0]==got.first[i]&&o3.second[0]==got.second[i]; } M.check(same,k+"one-at-a-time",[&]{return id;}); }
    // the position itself is a vector field which every grid represents exactly: its result is the wave vector, but for a lattice vector
    if (lw.e[1]>=3||lv.e[2]>=9) { Rows<T> pv(nv); Rows<R> pw(nv); const double dv=1; (void)dv; for (size_t i=0;i<nv;++i) { pv[i].assign(lv.n(),T(0)); pw[i].assign(lw.n(),R(0)); V x=mulv(Cwi,v[i]); for (size_t m=0;m<lw.b;++m) for (unsigned q2=0;q2<lw.e[1]/3;++q2) for (int c=0;c<3;++c) pw[i][m*lw.s+lw.e[0]+3*q2+c]=x[c];
        M9 cr{0,-v[i][2],v[i][1],v[i][2],0,-v[i][0],-v[i][1],v[i][0],0}; cr=mul(mul(Cvi,cr),Cv); for (size_t m=0;m<lv.b;++m) for (unsigned q2=0;q2<lv.e[2]/9;++q2) for (int c=0;c<9;++c) pv[i][m*lv.s+lv.e[0]+lv.e[1]+9*q2+c]=cr[c]; }
      store(pv,pw,fv,fw); auto o4=at(h,2); for (size_t i=0;i<n;++i) { double dt=det(S[i])<0?-1:1, sw=fw.like==RotatesLike::pseudovector?dt:1.0; V Q=o.xyz(h[i]); const double tol=1e-7*(sz+norm(Q))*d.o.K;
        if (lw.e[1]>=3&&!isc<R>::value) for (size_t m=0;m<lw.b;++m) for (unsigned q2=0;q2<lw.e[1]/3;++q2) { V p; for (int c=0;c<3;++c) p[c]=std::real(std::complex<double>(o4.second[i][m*lw.s+lw.e[0]+3*q2+c]))*sw; V dl=add(Q,mulv(Cw,p),-1); V hh=mulv(o.Bpi,dl); double e=0; for (auto c : hh) e=std::max(e,std::abs(c-std::round(c))); M.event("positions interpolated"); M.check(e*sz<tol*10,k+"position "+fw.name,[&]{return cat(id," hkl ",lat::show(h[i]),": off by ",e);}); }
        if (lv.e[2]>=9) for (size_t m=0;m<lv.b;++m) for (unsigned q2=0;q2<lv.e[2]/9;++q2) { M9 g9; for (int c=0;c<9;++c) g9[c]=std::real(std::complex<double>(o4.first[i][m*lv.s+lv.e[0]+lv.e[1]+9*q2+c])); g9=mul(mul(Cv,g9),Cvi); V p{g9[7],g9[2],g9[3]}; double asym=0; for (int c=0;c<3;++c) for (int e=0;e<3;++e) asym=std::max(asym,std::abs(g9[3*c+e]+g9[3*e+c])); p=scale(p,dt); V hh=mulv(o.Bpi,add(Q,p,-1)); double e=asym/sz; for (auto c : hh) e=std::max(e,std::abs(c-std::round(c))); M.event("position matrices interpolated"); M.check(e*sz<tol*10*d.o.K,k+"matrix "+fv.name,[&]{return cat(id," hkl ",lat::show(h[i]),": off by ",e);}); } } } }
  static V at_(const LV& q, ind_t i) { return {q.val(i,0),q.val(i,1),q.val(i,2)}; }
};
int main(int argc, char** argv) {
  Monitor M("C16", argc, argv); const size_t n=sym::settings().size();
  M.run(M.thorough() ? 30000 : 1000, [&](Rng& r, size_t c) {
    const size_t si=(c*211)%n; Kind kind=Kind(c%4); M.site("zone"); auto d=domain(r,si,r.chance(0.93)); auto s=spec(r,d,kind,20); size_t b=size_t(r.integer(1,3)); auto lv=layout(r,b), lw=layout(r,b); M.note(cat(d.id," ",show(s))); M.eval(); { uint64_t h=hash_mix(si,size_t(kind)); for (auto q : d.o.f.G) h=hash_dbl(h,q); M.distinct(hash_mix(h,hash_mix(s.cells,lv.n()*100+lw.n()))); }
    M.site(cat("build ",name(kind))); auto go=[&](auto t, auto q){ using T=decltype(t); using R=decltype(q); with<T,R>(r,d,s,[&](auto& g){ M.site(name(kind)); Tester<T,R,std::decay_t<decltype(g)>>{M,r,g,d,s,lv,lw,"",""}.run(); }); };
    switch (r.integer(0,2)) { case 0: go(0.0,0.0); break; case 1: go(0.0,std::complex<double>()); break; default: go(std::complex<double>(),std::complex<double>()); }
  });
}
