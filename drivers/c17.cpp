// C17: what belongs to the atoms of a crystal - phonon polarisation vectors and matrices between pairs of atoms - is
// carried to symmetry-equivalent wave vectors by permuting atoms, rotating and applying the phase of the cells crossed.
// Oracles: a model of springs between the atoms, whose dynamical matrix at the requested wave vector acts on the
// interpolated vectors (no use is made of the reduction), and the transformation written out with exact operations.
#include "inter.hpp"
#include "atoms.hpp"
using namespace grid; using namespace inter; using namespace atoms; using mon::cat; using mon::Monitor; using mon::Rng; using mon::hash_mix; using mon::hash_dbl;
using brille::RotatesLike; using brille::LengthUnit; using LV=brille::lattice::LVec<double>;
// convert between Cartesian coordinates and the frame of the stored data: vectors by F, matrices by F . F^-1
static void frame(std::vector<C>& row, size_t at, size_t nv, size_t nm, const M9& F) { M9 Fi=inv(F); C* x=row.data()+at; for (size_t v=0;v<nv;++v,x+=3) { C t[3]; for (int i=0;i<3;++i) t[i]=F[3*i]*x[0]+F[3*i+1]*x[1]+F[3*i+2]*x[2]; for (int i=0;i<3;++i) x[i]=t[i]; } for (size_t m=0;m<nm;++m,x+=9) { C a[9]{}, b[9]{}; for (int i=0;i<3;++i) for (int j=0;j<3;++j) for (int q=0;q<3;++q) a[3*i+j]+=F[3*i+q]*x[3*q+j]; for (int i=0;i<3;++i) for (int j=0;j<3;++j) for (int q=0;q<3;++q) b[3*i+j]+=a[3*i+q]*Fi[3*q+j]; for (int i=0;i<9;++i) x[i]=b[i]; } }
// least distance over a common phase
static double upto(const std::vector<C>& a, const std::vector<C>& b) { C z(0); for (size_t i=0;i<a.size();++i) z+=std::conj(a[i])*b[i]; C ph=std::abs(z)>0?z/std::abs(z):C(1); double m=0; for (size_t i=0;i<a.size();++i) { double d=std::abs(ph*a[i]-b[i]); if (!(d<=m)) m=d; } return m; }
struct Row { size_t n; unsigned s; bool mats; size_t b; size_t span() const { return s+3*n+(mats?9*n*n:0); } };
template<class T, class G> void judge(Monitor& M, Rng& r, G& g, const Domain& d, const Spec& s, const Atoms& at, const std::string& id0) {
  const Zone& o=d.o; auto v=vertices(g); const size_t nv=v.size(), n=at.n(); const bool angstrom=r.chance(0.5); const bool mats=n<=5&&r.chance(0.6); Row w{n,unsigned(r.integer(0,2)),mats,size_t(2+r.integer(0,1))}; const size_t span=w.span(); const std::string k=cat(name(s.kind),":");
  std::string id=cat(id0," ",show(s)," ",nv," points, ",n," atoms, ",w.s,"+",3*n,"+",mats?9*n*n:0," by ",w.b,angstrom?" angstrom":" lattice"); M.note(id); M.sample(id); M.event(cat("grids: ",name(s.kind))); M.event(angstrom?"data in Cartesian coordinates":"data in lattice coordinates"); M.event("atoms",n); if (mats) M.event("with pair matrices");
  const M9 F=angstrom?M9{1,0,0,0,1,0,0,0,1}:inv(o.A); M9 Fi=inv(F); Springs S(at,o.A,r); M.event("springs",S.p.size());
  // stored data: per mode scalars, polarisations (mode 1 is D times mode 0; a further one is arbitrary) and the pair matrices D
  Rows<C> data(nv); for (size_t i=0;i<nv;++i) { V q=o.hkl(v[i]); auto D=S.D(q); std::vector<C> e(3*n); for (auto& x : e) x=rnd<C>(r); auto f=S.apply(D,e); for (size_t m=0;m<w.b;++m) { std::vector<C> row; for (unsigned x=0;x<w.s;++x) row.push_back(rnd<C>(r)); size_t p=row.size(); for (size_t x=0;x<3*n;++x) row.push_back(m==0?e[x]:m==1?f[x]:rnd<C>(r)); if (mats) row.insert(row.end(),D.begin(),D.end()); frame(row,p,n,mats?n*n:0,F); data[i].insert(data[i].end(),row.begin(),row.end()); } }
  Layout l; l.b=w.b; l.s=span; l.e={w.s,unsigned(3*n),unsigned(mats?9*n*n:0)}; l.tail={ind_t(w.b),ind_t(span)}; auto A=pack(data,l); const LengthUnit unit=angstrom?LengthUnit::angstrom:LengthUnit::real_lattice; constexpr bool can=isc<T>::value; const bool as_values=can&&r.chance(0.5); if (as_values) M.event("stored as values");
  Layout lv; lv.b=w.b; lv.s=1; lv.e={1,0,0}; lv.tail={ind_t(w.b),1}; Rows<C> val(nv); for (auto& x : val) for (size_t m=0;m<w.b;++m) x.push_back(r.normal()); auto B=pack(val,lv); auto put=[&]{ if constexpr (can) { if (as_values) { g.replace_value_data(A,l.e,RotatesLike::Gamma,unit); g.replace_vector_data(B,lv.e); } else { g.replace_value_data(B,lv.e); g.replace_vector_data(A,l.e,RotatesLike::Gamma,unit); } } else { Rows<double> re(nv); for (size_t i=0;i<nv;++i) for (auto& x : val[i]) re[i].push_back(x.real()); auto Br=pack(re,lv); g.replace_value_data(Br,lv.e); g.replace_vector_data(A,l.e,RotatesLike::Gamma,unit); } }; put();
  auto split=[&](const auto& two, size_t num, bool& fine)->std::pair<Rows<C>,Rows<C>>{ if constexpr (can) { if (as_values) return {unpack(std::get<1>(two),num,fine,lv),unpack(std::get<0>(two),num,fine,l)}; return {unpack(std::get<0>(two),num,fine,lv),unpack(std::get<1>(two),num,fine,l)}; } else { auto x=unpack(std::get<0>(two),num,fine,lv); Rows<C> c; for (auto& y : x) c.push_back(std::vector<C>(y.begin(),y.end())); return {c,unpack(std::get<1>(two),num,fine,l)}; } };
  // wave vectors: images of stored points, others and their images
  std::vector<V> h; auto tau=[&]{ return mulv(o.Bi,mulv(o.Bp,V{double(r.integer(-3,3)),double(r.integer(-3,3)),double(r.integer(-3,3))})); };
  for (int i=0;i<14;++i) { V q=o.hkl(v[size_t(r.integer(0,nv-1))]); if (i%3) q=o.turn(r.pick(o.ops),q); if (i%4) q=add(q,tau()); h.push_back(q); }
  for (int i=0;i<16;++i) { V q=o.hkl(point(r,d.b,i<10?0:int(r.integer(0,4)))); if (i%4) q=add(o.turn(r.pick(o.ops),q),tau()); h.push_back(q); } for (int i=0;i<4;++i) h.push_back(o.hkl(V{r.normal()*d.b.size,r.normal()*d.b.size,r.normal()*d.b.size}));
  const size_t nh=h.size(); LV X(LengthUnit::inverse_angstrom,o.z->get_lattice(),arr(h)); LV q(LengthUnit::inverse_angstrom,o.z->get_lattice(),ind_t(nh)); brille::lattice::LVec<int> t(LengthUnit::inverse_angstrom,o.z->get_lattice(),ind_t(nh)); std::vector<size_t> R1(nh,0), I1(nh,0);
  M.site("reduction"); if (!o.z->ir_moveinto(X,q,t,R1,I1,1)) throw mon::Skip("reduction failed"); M.site(name(s.kind));
  const int th=int(r.integer(0,4)); bool ok=true; Rows<C> got, gv;
  try { std::tie(gv,got)=split(g.ir_interpolate_at(X,th),nh,ok); } catch (const std::exception& e) { if (o.tr) { bool closed=true; for (size_t a=0;a<n&&closed;++a) { bool hit=false; D3 m{-at.pos[a][0],-at.pos[a][1],-at.pos[a][2]}; for (size_t b=0;b<n;++b) hit=hit||(at.typ[a]==at.typ[b]&&off(m,at.pos[b])<1e-9); closed=hit; } bool central=false; for (auto& x : at.ops) central=central||x.r==std::array<int,9>{-1,0,0,0,-1,0,0,0,-1}; if (!central&&!closed) { M.event("inversion of a crystal without it refused"); return; } } M.fail(k+"exception",cat(id,": ",e.what())); return; }
  M.check(ok,k+"shape",[&]{return id;}); auto raw=[&]{ auto Q=arr(vor::pts(brille::get_xyz(q))); bool fine=true; return split(base_interpolate(g,Q,1),nh,fine).second; }(); auto ps=o.z->get_pointgroup_symmetry(); bool central=false; for (auto& x : at.ops) central=central||x.r==std::array<int,9>{-1,0,0,0,-1,0,0,0,-1};
  const double sz=size(data)*(1+o.K)*(1+o.K);
  for (size_t i=0;i<nh;++i) { auto m=ps.get(R1[i]); R9 wr{}; for (int j=0;j<9;++j) wr[j]=m[j]; // Q - tau = wr^T q_ir: positions turn with wr^-1
    R9 P; { M9 x=inv(fl(wr)); for (int j=0;j<9;++j) P[j]=int(std::lround(x[j])); } V qi{q.val(ind_t(i),0),q.val(ind_t(i),1),q.val(ind_t(i),2)}; { V left=add(add(h[i],V{double(t.val(ind_t(i),0)),double(t.val(ind_t(i),1)),double(t.val(ind_t(i),2))},-1),o.turn(wr,qi),-1); if (norm(left)>1e-8*(1+norm(h[i]))) throw mon::Skip("reduction is not what it should be"); }
    M.event(cat("operations of order ",sym::order(wr),sym::det(wr)<0?" improper":"")); M9 Pc=mul(mul(o.A,fl(P)),inv(o.A));
    // explicit transformation, with any of the operations of the space group which turn like this
    bool real=false; double best=1e300, bestm=1e300; for (auto& op : at.ops) if (op.r==P) { real=true; double worst=0, worstm=0; std::vector<std::pair<size_t,D3>> im; for (size_t a=0;a<n;++a) im.push_back(at.image(op,a)); bool moved=false; for (auto& x : im) moved=moved||x.second!=D3{0,0,0}; if (moved) M.event("operations which move atoms to other cells");
        for (size_t b=0;b<w.b;++b) { std::vector<C> e(raw[i].begin()+b*span,raw[i].begin()+(b+1)*span), f(span,C(0)); frame(e,w.s,n,mats?n*n:0,Fi); frame(e,w.s,n,mats?n*n:0,Pc); for (unsigned x=0;x<w.s;++x) f[x]=e[x]; for (size_t a=0;a<n;++a) { C ph=std::polar(1.0,-2*M_PI*dot(h[i],V(im[a].second))); for (int x=0;x<3;++x) f[w.s+3*im[a].first+x]=ph*e[w.s+3*a+x]; } if (mats) for (size_t a=0;a<n;++a) for (size_t c=0;c<n;++c) { C ph=std::polar(1.0,-2*M_PI*dot(h[i],lat::add(V(im[a].second),V(im[c].second),-1))); for (int x=0;x<9;++x) f[w.s+3*n+9*(im[a].first*n+im[c].first)+x]=ph*e[w.s+3*n+9*(a*n+c)+x]; }
          std::vector<C> y(got[i].begin()+b*span,got[i].begin()+(b+1)*span); frame(y,w.s,n,mats?n*n:0,Fi); auto cut=[&](const std::vector<C>& z, size_t a, size_t c){ return std::vector<C>(z.begin()+a,z.begin()+c); }; worst=std::max(worst,upto(cut(f,w.s,w.s+3*n),cut(y,w.s,w.s+3*n))); if (w.s) worst=std::max(worst,diff(cut(f,0,w.s),cut(y,0,w.s))); if (mats) worstm=std::max(worstm,upto(cut(f,w.s+3*n,span),cut(y,w.s+3*n,span))); }
        best=std::min(best,worst); bestm=std::min(bestm,worstm); }
    if (!real) { M.event("turned by an operation of time reversal only"); continue; } M.event("results judged"); M.maximum("result off by",best/sz); if (mats) { M.event("matrices judged"); M.maximum("matrix off by",bestm/sz); }
    M.check(best<1e-8*sz,k+"vectors",[&]{return cat(id," hkl ",lat::show(h[i])," turned by ",sym::show(Op{wr,{}}),": off by ",best);}); if (mats) M.check(bestm<1e-8*sz,k+"matrices",[&]{return cat(id," hkl ",lat::show(h[i])," turned by ",sym::show(Op{wr,{}}),": off by ",bestm);});
    // at an image of a stored point the dynamical matrix of the wave vector itself relates the two modes
    bool stored=false; for (auto& x : v) stored=stored||norm(add(x,o.xyz(qi),-1))<1e-10*d.b.size; if (!stored) continue; M.event("images of stored points judged"); auto D=S.D(h[i]); std::vector<C> e(got[i].begin(),got[i].begin()+span), f(got[i].begin()+span,got[i].begin()+2*span); frame(e,w.s,n,mats?n*n:0,Fi); frame(f,w.s,n,mats?n*n:0,Fi); auto ev=S.apply(D,std::vector<C>(e.begin()+w.s,e.begin()+w.s+3*n)); double x=upto(std::vector<C>(f.begin()+w.s,f.begin()+w.s+3*n),ev); double sc=sz*(1+size(D))*double(n); M.maximum("dynamical matrix off by",x/sc); M.check(x<1e-7*sc,k+"dynamical matrix",[&]{return cat(id," hkl ",lat::show(h[i])," turned by ",sym::show(Op{wr,{}}),": off by ",x);});
    if (mats) { double y=upto(std::vector<C>(e.begin()+w.s+3*n,e.end()),D); M.check(y<1e-7*sc,k+"stored matrix",[&]{return cat(id," hkl ",lat::show(h[i])," turned by ",sym::show(Op{wr,{}}),": off by ",y);}); } }
  // repetition with other numbers of threads and one at a time
  { auto [v2,g2]=split(g.ir_interpolate_at(X,int(r.integer(1,6))),nh,ok); M.check(g2==got&&v2==gv,k+"threads",[&]{return id;}); size_t i=size_t(r.integer(0,nh-1)); LV x1(LengthUnit::inverse_angstrom,o.z->get_lattice(),arr({h[i]})); auto g3=split(g.ir_interpolate_at(x1,1),1,ok).second; M.check(g3[0]==got[i],k+"one-at-a-time",[&]{return id;}); }
}
int main(int argc, char** argv) {
  Monitor M("C17", argc, argv); const size_t n=sym::settings().size();
  M.run(M.thorough() ? 30000 : 1060, [&](Rng& r, size_t c) {
    const size_t si=(c*211)%n; Kind kind=Kind(c%4); M.site("zone"); const auto& gr=lat::group_of(si); std::vector<Op> ops(gr.begin(),gr.end()); auto at=make_atoms(r,si,ops.size()>=96?size_t(r.integer(8,32)):size_t(r.integer(2,24)),ops); if (at.n()==0) throw mon::Skip("no orbit fits");
    auto d=domain(r,si,r.chance(0.93),true,[&](Zone& o){ try { auto l=brille::lattice::Direct<double>(o.f.c.len,o.f.c.ang,std::string(sym::settings()[si].symbol),at.basis()); if (l.to_xyz(LengthUnit::angstrom)==o.A) { o.lattice=l; return; } } catch (const std::exception&) {} o.lattice=brille::lattice::Direct<double>(o.A,brille::MatrixVectors::column,std::string(sym::settings()[si].symbol),at.basis()); if (lat::adiff(o.lattice->to_xyz(LengthUnit::angstrom),o.A)>1e-9*lat::amax(o.A)) throw mon::Skip("lattice"); });
    auto s=spec(r,d,kind,12); M.note(cat(d.id," ",show(s))); M.eval(); { uint64_t h=hash_mix(si,size_t(kind)); for (auto q : d.o.f.G) h=hash_dbl(h,q); for (auto& p : at.pos) for (auto x : p) h=hash_dbl(h,x); M.distinct(h); }
    M.site(cat("build ",name(kind))); auto go=[&](auto t){ using T=decltype(t); with<T,C>(r,d,s,[&](auto& g){ M.site(name(kind)); judge<T>(M,r,g,d,s,at,d.id); }); }; if (r.chance(0.5)) go(0.0); else go(C());
  });
}
