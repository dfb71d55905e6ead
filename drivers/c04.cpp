// C04: reducing a wave vector to the irreducible zone gives Q = R^T q + tau with q irreducible, and every equivalent Q the same q.
#include "mon.hpp"
#include "irz.hpp"
using namespace mon; using namespace brille; using namespace brille::lattice; using lat::M9; using lat::V; using lat::dot; using lat::norm; using lat::add; using lat::scale;
struct Answer { std::vector<V> q; std::vector<std::array<int,3>> t; std::vector<size_t> r, i; bool ok=false; };
static std::vector<V> rows(const LVec<double>& x) { std::vector<V> o; for (ind_t i=0;i<x.size(0);++i) o.push_back({x.val(i,0),x.val(i,1),x.val(i,2)}); return o; }
static Answer move(const BrillouinZone& z, const LVec<double>& Q, int threads, ind_t n0=0) { LVec<double> q(Q.type(),Q.lattice(),n0); LVec<int> t(Q.type(),Q.lattice(),n0); Answer a; a.r.resize(n0); a.ok=z.ir_moveinto(Q,q,t,a.r,a.i,threads); a.q=rows(q); for (ind_t i=0;i<t.size(0);++i) a.t.push_back({t.val(i,0),t.val(i,1),t.val(i,2)}); return a; }
struct Wedge { std::vector<V> q; std::vector<size_t> r; bool ok=false; };
static Wedge moveW(const BrillouinZone& z, const LVec<double>& Q, int threads) { LVec<double> q(Q.type(),Q.lattice()); Wedge a; a.ok=z.ir_moveinto_wedge(Q,q,a.r,threads); a.q=rows(q); return a; }
int main(int argc, char** argv) {
  Monitor M("C04", argc, argv); const auto& S=sym::settings();
  M.run(M.thorough() ? 30000 : 1060, [&](Rng& r, size_t c) {
    const size_t si=c%S.size(); const bool prim=r.chance(0.8), tr=r.chance(0.3);
    auto o=irz::prepare(si,r,prim,tr,1.0,r.chance(0.3)); M.note(o.id); const double sz=o.ref.z.size; M.eval();
    if (o.ref.z.shortest<1e-5*sz) throw Skip("edges below the working tolerance");
    M.site("build"); try { irz::build(o); } catch (const std::exception& e) { M.fail("throws-build",cat(o.id,": ",std::string(e.what()).substr(0,80))); return; }
    auto& z=*o.z; const double tol=1e-7*o.K, margin=1e-6*o.K*sz;
    auto P=z.get_ir_polyhedron(false); auto pl=irz::planes(vor::pts(P.vertices().xyz()),P.faces().faces()); const bool mirrored=std::abs(z.get_ir_polyhedron(true).volume()-2*P.volume())<1e-6*P.volume();
    auto in_ir=[&](const V& x){ double a=irz::outside(pl,x); if (mirrored) a=std::min(a,irz::outside(pl,scale(x,-1))); return a; };
    auto G=z.get_pointgroup_symmetry().getall(); std::set<sym::R9> have(G.begin(),G.end()); if (!M.check(have==std::set<sym::R9>(o.ops.begin(),o.ops.end()),"operations",[&]{return o.id;})) return;
    std::vector<V> Q; std::vector<int> kind; auto lp=[&](int m){ V h{double(r.integer(-m,m)),double(r.integer(-m,m)),double(r.integer(-m,m))}; return lat::mulv(lat::mul(o.Bi,o.Bp),h); };
    auto special=[&]{ V x{r.uni(-0.5,0.5),r.uni(-0.5,0.5),r.uni(-0.5,0.5)}; if (r.chance(0.5)) x=o.hkl(scale(r.pick(o.ref.z.v),r.uni(0,0.99))); auto& w=r.pick(o.ops); V y=x, s=x; for (int k=1;k<12;++k) { y=o.turn(w,y); if (norm(add(y,x,-1))<1e-9) break; s=add(s,y); } return scale(s,r.chance(0.5)?0.5:r.uni(0.05,0.5)); };
    static const char* names[]={"vectors in and near the zone","distant vectors","tiny vectors","lattice points","special points","zone face centres and corners","rational vectors","irreducible polyhedron corners and faces"};
    auto V0=vor::pts(P.vertices().xyz()); auto F0=P.faces().faces();
    for (int i=0;i<70;++i) { int k=int(r.integer(0,7)); V x{0,0,0};
      if (k==0) x={r.uni(-1,1),r.uni(-1,1),r.uni(-1,1)};
      else if (k==1) x=scale(V{r.normal(),r.normal(),r.normal()},std::pow(10.0,r.uni(0,4)));
      else if (k==2) x=scale(V{r.normal(),r.normal(),r.normal()},std::pow(10.0,r.uni(-9,-1)));
      else if (k==3) x=lp(int(r.pick(std::vector<int>{0,1,3,20})));
      else if (k==4) x=add(special(),lp(r.chance(0.5)?0:2));
      else if (k==5) { auto& f=r.pick(o.ref.z.f); V y{0,0,0}; if (r.chance(0.5)) { for (int j : f) y=add(y,o.ref.z.v[j],1.0/double(f.size())); } else { size_t e=r.integer(0,f.size()-1); double w=r.chance(0.5)?0.0:r.uni(); y=add(scale(o.ref.z.v[f[e]],w),o.ref.z.v[f[(e+1)%f.size()]],1-w); } x=add(o.hkl(y),lp(r.chance(0.5)?0:2)); }
      else if (k==6) { for (auto& e : x) e=r.integer(-12,12)/double(r.pick(std::vector<int>{2,2,3,4,6,8})); }
      else { auto& f=r.pick(F0); V y{0,0,0}; if (r.chance(0.4)) y=r.pick(V0); else { double s=0; for (auto j : f) { double w=r.uni(); y=add(y,V0[j],w); s+=w; } y=scale(y,1/s); } x=o.turn(r.pick(o.ops),o.hkl(y)); if (r.chance(0.5)) x=add(x,lp(2)); }
      Q.push_back(x); kind.push_back(k); M.event(names[k]); }
    auto LQ=irz::vec(o,Q); M.site("reduce"); Answer a; try { a=move(z,LQ,1); } catch (const std::exception& e) { std::string w=e.what(); for (size_t i=0;i<Q.size();++i) try { move(z,irz::vec(o,{Q[i]}),1); } catch (...) { w=cat(w.substr(0,60)," at ",lat::show(Q[i])," (",names[kind[i]],")"); break; } M.fail("throws",cat(o.id,": ",w)); return; }
    if (!M.check(a.ok&&a.q.size()==Q.size()&&a.t.size()==Q.size()&&a.r.size()==Q.size()&&a.i.size()==Q.size(),"rows",[&]{return o.id;})) return;
    auto judge=[&](const Answer& a, const std::vector<V>& Q, const std::string& tag){ M9 T=lat::mul(o.Bpi,o.B);
      for (size_t i=0;i<Q.size();++i) { if (!M.check(a.r[i]<G.size()&&a.i[i]<G.size(),"operation-index"+tag,[&]{return o.id;})) continue;
        const auto& R=G[a.r[i]]; M.check(sym::mul(R,G[a.i[i]])==sym::R9{1,0,0,0,1,0,0,0,1},"not-inverse"+tag,[&]{return cat(o.id,": operations ",a.r[i],' ',a.i[i]);});
        V t{double(a.t[i][0]),double(a.t[i][1]),double(a.t[i][2])}; double m=0; for (int j=0;j<3;++j) m=std::max({m,std::abs(Q[i][j]),std::abs(t[j])});
        V rest=add(add(o.turn(R,a.q[i]),t),Q[i],-1); double bad=0; for (double x : rest) bad=std::max(bad,std::abs(x)); M.check(bad<=1e-14*(1+m)*std::max(1.0,o.K),"recompose"+tag,[&]{return cat(o.id,": Q ",lat::show(Q[i])," q ",lat::show(a.q[i])," tau ",lat::show(t)," operation ",a.r[i]," off by ",bad);}); M.maximum("recomposition error",bad/(1+m));
        V tp=lat::mulv(T,t); bool integer=true; for (double x : tp) if (std::abs(x-std::round(x))>1e-9*(1+m)) integer=false; M.check(integer&&(!o.prim||vor::allowed(o.cen,a.t[i][0],a.t[i][1],a.t[i][2])),"not-a-lattice-vector"+tag,[&]{return cat(o.id,": Q ",lat::show(Q[i])," tau ",lat::show(t));});
        double out=in_ir(o.xyz(a.q[i])); M.check(out<=tol*sz,"not-irreducible"+tag,[&]{return cat(o.id,": Q ",lat::show(Q[i])," q ",lat::show(a.q[i])," outside by ",out/sz);}); M.maximum("furthest outside / size",out/sz); } };
    judge(a,Q,"");
    std::set<size_t> used; for (size_t i=0;i<Q.size();++i) { used.insert(a.r[i]); double w=in_ir(o.xyz(a.q[i])); if (w>-margin) M.event("reduced onto the surface"); else M.event("reduced to the interior"); if (in_ir(o.xyz(Q[i]))<-margin) { M.check(a.t[i]==std::array<int,3>{0,0,0}&&G[a.r[i]]==sym::R9{1,0,0,0,1,0,0,0,1},"moved-from-inside",[&]{return cat(o.id,": Q ",lat::show(Q[i]));}); M.event("already irreducible"); } }
    M.event("operations used",used.size());
    // neither the other rows, the order, the threads nor the earlier contents of the outputs matter
    { std::vector<size_t> p(Q.size()); std::iota(p.begin(),p.end(),0u); r.shuffle(p); p.resize(r.integer(1,p.size())); if (r.chance(0.5)) p.push_back(p[0]); std::vector<V> Qs; for (size_t i : p) Qs.push_back(Q[i]); int th=int(r.pick(std::vector<int>{1,2,3,5,-1}));
      M.site("subset"); Answer b; try { b=move(z,irz::vec(o,Qs),th,ind_t(r.pick(std::vector<int>{0,1,200}))); bool same=b.q.size()==p.size(); for (size_t i=0;same&&i<p.size();++i) same=b.q[i]==a.q[p[i]]&&b.t[i]==a.t[p[i]]&&b.r[i]==a.r[p[i]]&&b.i[i]==a.i[p[i]]; M.check(same,"depends-on-list",[&]{return cat(o.id,": ",p.size()," rows on ",th," threads");}); M.event("shuffled sublists"); } catch (const std::exception& e) { M.fail("throws-subset",cat(o.id,": ",std::string(e.what()).substr(0,80))); } }
    // all equivalents of a vector are reduced to the same one
    { std::vector<V> E; for (auto& x : Q) E.push_back(add(o.turn(r.pick(o.ops),x),lp(3))); M.site("equivalent"); Answer e; try { e=move(z,irz::vec(o,E),1); judge(e,E,"-equivalent"); for (size_t i=0;i<Q.size();++i) { double m=1; for (double x : Q[i]) m=std::max(m,std::abs(x)); if (in_ir(o.xyz(a.q[i]))<-margin-1e-13*m*o.K*sz) { double d=norm(add(o.xyz(a.q[i]),o.xyz(e.q[i]),-1))/sz; M.check(d<=tol+1e-13*m*o.K,"not-unique",[&]{return cat(o.id,": ",lat::show(Q[i])," -> ",lat::show(a.q[i])," but ",lat::show(E[i])," -> ",lat::show(e.q[i]));}); M.event("equivalent pairs"); } } } catch (const std::exception& x) { M.fail("throws-equivalent",cat(o.id,": ",std::string(x.what()).substr(0,80))); } }
    // only turning: the wedge
    { M.site("wedge"); std::vector<V> W, E; for (auto& x : Q) { W.push_back(norm(x)>1e3?scale(x,1e-3):x); E.push_back(o.turn(r.pick(o.ops),W.back())); } Wedge w; try { w=moveW(z,irz::vec(o,W),int(r.pick(std::vector<int>{1,2,4}))); if (M.check(w.ok&&w.q.size()==W.size()&&w.r.size()==W.size(),"wedge-rows",[&]{return o.id;})) {
        auto in=z.isinside_wedge_outer(LVec<double>(LengthUnit::inverse_angstrom,*o.lattice,lat::arr(w.q))); auto ex=z.isinside_wedge_outer(irz::vec(o,W)); auto wn=vor::pts(z.get_ir_wedge_normals().xyz()); auto v=moveW(z,irz::vec(o,E),1);
        for (size_t i=0;i<W.size();++i) { if (!M.check(w.r[i]<G.size(),"wedge-index",[&]{return o.id;})) continue; double m=0, bad=0; for (double x : W[i]) m=std::max(m,std::abs(x)); V rest=add(o.turn(G[w.r[i]],w.q[i]),W[i],-1); for (double x : rest) bad=std::max(bad,std::abs(x)); M.check(bad<=1e-15*16*m,"wedge-recompose",[&]{return cat(o.id,": ",lat::show(W[i])," -> ",lat::show(w.q[i])," operation ",w.r[i]);});
          M.check(in[i],"not-in-wedge",[&]{return cat(o.id,": ",lat::show(W[i])," -> ",lat::show(w.q[i]));}); if (ex[i]) M.check(w.q[i]==W[i],"moved-from-wedge",[&]{return cat(o.id,": ",lat::show(W[i]));});
          V x=o.xyz(w.q[i]); double d=1e300; for (auto& q : wn) d=std::min(d,std::abs(dot(q,x))/norm(q)/norm(x)); if (norm(x)>1e-4*sz&&d>1e-6*o.K) { V y=o.xyz(v.q[i]); M.check(norm(add(x,y,-1))<=1e-9*o.K*norm(x),"wedge-not-unique",[&]{return cat(o.id,": ",lat::show(W[i])," -> ",lat::show(w.q[i])," or ",lat::show(v.q[i]));}); M.event("wedge pairs"); } } } } catch (const std::exception& x) { M.fail("throws-wedge",cat(o.id,": ",std::string(x.what()).substr(0,120))); } }
    // vectors of other lattices, and of the primitive lattice of a centred one, are refused
    { auto w=irz::skewed(r,false); bool a1=false,a2=false; try { move(z,irz::vec(w,{V{0.1,0.2,0.3}}),1); } catch (const std::exception&) { a1=true; } try { moveW(z,irz::vec(w,{V{0.1,0.2,0.3}}),1); } catch (const std::exception&) { a2=true; } M.check(a1&&a2,"foreign-lattice-accepted",[&]{return o.id;}); M.event("foreign lattices refused"); }
    uint64_t h=hash_mix(si,prim*2+tr); for (auto x : o.A) h=hash_dbl(h,x); for (auto& x : Q) h=hash_dbl(h,x[0]); M.distinct(h); M.sample(cat(o.id,": ",Q.size()," vectors, ",used.size()," of ",G.size()," operations used"));
  });
}
