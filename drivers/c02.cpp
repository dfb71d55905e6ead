// C02: moving a wave vector into the first zone only subtracts a reciprocal lattice vector.
#include "mon.hpp"
#include "irz.hpp"
using namespace mon; using namespace brille; using namespace brille::lattice; using lat::M9; using lat::V; using lat::dot; using lat::norm; using lat::add; using lat::scale;
struct Answer { std::vector<V> q; std::vector<std::array<int,3>> t; };
static std::vector<V> rows(const LVec<double>& x) { std::vector<V> o; for (ind_t i=0;i<x.size(0);++i) o.push_back({x.val(i,0),x.val(i,1),x.val(i,2)}); return o; }
static Answer move(const BrillouinZone& z, const LVec<double>& Q, int threads) { LVec<double> q(Q.type(),Q.lattice()); LVec<int> t(Q.type(),Q.lattice()); z.moveinto(Q,q,t,threads); Answer a; a.q=rows(q); for (ind_t i=0;i<t.size(0);++i) a.t.push_back({t.val(i,0),t.val(i,1),t.val(i,2)}); return a; }
int main(int argc, char** argv) {
  Monitor M("C02", argc, argv); const auto& S=sym::settings();
  M.run(M.thorough() ? 30000 : 1200, [&](Rng& r, size_t c) {
    const size_t si=c%S.size(); const bool prim=r.chance(0.75), tr=r.chance(0.3);
    auto o=(c%8==7) ? irz::skewed(r,tr) : irz::prepare(si,r,prim,tr,1.0,r.chance(0.3)); M.note(o.id); const double sz=o.ref.z.size; M.eval();
    if (c%8==7 && o.K>500) throw Skip("lattice basis too skewed for the working precision"); if (o.ref.z.shortest<1e-5*sz) throw Skip("edges below the working tolerance");
    M.site("build"); try { irz::build(o,false); } catch (const std::exception& e) { M.fail("throws-build",cat(o.id,": ",std::string(e.what()).substr(0,80))); return; }
    auto& z=*o.z; const double tol=1e-8*o.K;
    // wave vectors of every kind, in units of the standard reciprocal lattice
    std::vector<V> Q; std::vector<int> kind; auto lp=[&](int m){ V h{double(r.integer(-m,m)),double(r.integer(-m,m)),double(r.integer(-m,m))}; return lat::mulv(lat::mul(o.Bi,o.Bp),h); };  // a point of the lattice in use
    auto put=[&](const V& h, int k){ Q.push_back(h); kind.push_back(k); };
    for (int i=0;i<60;++i) { int k=int(r.integer(0,8)); V x{0,0,0};
      if (k==0) x={r.uni(-1,1),r.uni(-1,1),r.uni(-1,1)};
      else if (k==1) x=scale(V{r.normal(),r.normal(),r.normal()},std::pow(10.0,r.uni(0,5)));
      else if (k==2) x=scale(V{r.normal(),r.normal(),r.normal()},std::pow(10.0,r.uni(-18,-1)));
      else if (k==3) x=lp(int(r.pick(std::vector<int>{1,3,20,30000})));
      else if (k==4||k==5||k==6) { auto& f=r.pick(o.ref.z.f); V y{0,0,0}; if (k==4) { for (int j : f) y=add(y,o.ref.z.v[j],1.0/double(f.size())); } else if (k==5) y=r.pick(o.ref.z.v); else { size_t e=r.integer(0,f.size()-1); double w=r.chance(0.5)?0.5:r.uni(); y=add(scale(o.ref.z.v[f[e]],w),o.ref.z.v[f[(e+1)%f.size()]],1-w); } x=add(o.hkl(y),lp(r.chance(0.5)?0:r.chance(0.7)?2:1000)); if (r.chance(0.3)) x=scale(x,1+r.normal()*std::pow(10.0,r.uni(-16,-3))); }
      else if (k==7) { for (auto& e : x) e=r.integer(-12,12)/double(r.pick(std::vector<int>{2,2,3,4,6})); }
      else { x=lp(3); x=add(x,o.hkl(scale(r.pick(o.ref.z.v),r.uni(0.9,1.1)))); }
      put(x,k); }
    static const char* names[]={"vectors near the origin","distant vectors","tiny vectors","lattice points","face centres","corners","edge points","rational vectors","vectors near corners"};
    for (int k : kind) M.event(names[k]);
    auto LQ=irz::vec(o,Q); M.site("move"); Answer a; try { a=move(z,LQ,1); } catch (const std::exception& e) { // find the culprit for the report
      std::string w=e.what(); for (size_t i=0;i<Q.size();++i) try { move(z,irz::vec(o,{Q[i]}),1); } catch (...) { w=cat(w.substr(0,60)," at ",lat::show(Q[i])," (",names[kind[i]],")"); break; } M.fail("throws",cat(o.id,": ",w)); return; }
    if (!M.check(a.q.size()==Q.size()&&a.t.size()==Q.size(),"rows",[&]{return o.id;})) return;
    M9 T=lat::mul(o.Bpi,o.B);
    for (size_t i=0;i<Q.size();++i) { V t{double(a.t[i][0]),double(a.t[i][1]),double(a.t[i][2])}; double m=0; for (int j=0;j<3;++j) m=std::max(m,std::abs(Q[i][j]));
      V rest=add(add(Q[i],t,-1),a.q[i],-1); double bad=0; for (double x : rest) bad=std::max(bad,std::abs(x)); double mm=m; for (double x : t) mm=std::max(mm,std::abs(x)); double allow=1e-14*(1+mm)*std::max(1.0,std::sqrt(o.K));
      M.check(bad<=allow,"sum",[&]{return cat(o.id,": Q ",lat::show(Q[i])," q ",lat::show(a.q[i])," tau ",lat::show(t)," off by ",bad);}); M.maximum("largest |Q-q-tau|/(1+|Q|)",bad/(1+m));
      V tp=lat::mulv(T,t); bool integer=true; for (double x : tp) if (std::abs(x-std::round(x))>1e-9*(1+m)) integer=false; bool al=!o.prim||vor::allowed(o.cen,a.t[i][0],a.t[i][1],a.t[i][2]);
      M.check(al&&(integer||m>1e3),"not-a-lattice-vector",[&]{return cat(o.id,": Q ",lat::show(Q[i])," tau ",lat::show(t));});
      double out=o.ref.outside(o.xyz(a.q[i])); M.check(out<=tol*sz,"outside",[&]{return cat(o.id,": Q ",lat::show(Q[i])," (",names[kind[i]],") q ",lat::show(a.q[i])," outside by ",out/sz);}); M.maximum("furthest outside / size",out/sz);
      if (o.ref.outside(o.xyz(Q[i]))<-1e-9*sz) { M.check(a.t[i]==std::array<int,3>{0,0,0},"moved-from-inside",[&]{return cat(o.id,": Q ",lat::show(Q[i])," tau ",lat::show(t));}); M.event("already inside"); }
      if (out>-tol*sz) M.event("reduced onto the surface"); }
    auto ins=z.isinside(LVec<double>(LengthUnit::inverse_angstrom,*o.lattice,lat::arr(a.q))); M.check(!std::count(ins.begin(),ins.end(),false),"isinside",[&]{return o.id;});
    // neither the other rows, the order nor the number of threads matter
    std::vector<size_t> p(Q.size()); std::iota(p.begin(),p.end(),0u); r.shuffle(p); p.resize(r.integer(1,p.size())); if (r.chance(0.5)) p.push_back(p[0]); std::vector<V> Qs; for (size_t i : p) Qs.push_back(Q[i]);
    int th=int(r.pick(std::vector<int>{1,2,3,5,-1})); M.site("subset"); Answer b; try { b=move(z,irz::vec(o,Qs),th); } catch (const std::exception& e) { M.fail("throws-subset",cat(o.id,": ",std::string(e.what()).substr(0,80))); return; }
    bool same=b.q.size()==p.size(); for (size_t i=0;same&&i<p.size();++i) same=b.q[i]==a.q[p[i]]&&b.t[i]==a.t[p[i]]; M.check(same,"depends-on-list",[&]{return cat(o.id,": ",p.size()," rows on ",th," threads");}); M.event("shuffled sublists");
    // equivalent vectors: off the surface they have the same reduced vector
    { std::vector<V> E; for (auto& x : Q) { V g=lp(5); E.push_back(add(x,g)); } M.site("equivalent"); Answer e; try { e=move(z,irz::vec(o,E),1); } catch (const std::exception& x) { M.fail("throws-equivalent",cat(o.id,": ",std::string(x.what()).substr(0,80))); return; } for (size_t i=0;i<Q.size();++i) { double m=1; for (double x : Q[i]) m=std::max(m,std::abs(x)); if (o.ref.outside(o.xyz(a.q[i]))>-(1e-6*o.K+1e-13*m)*sz) continue; double d=norm(add(o.xyz(e.q[i]),o.xyz(a.q[i]),-1)); M.check(d<=(tol+1e-13*m*o.K)*sz,"equivalent",[&]{return cat(o.id,": Q ",lat::show(Q[i])," and ",lat::show(E[i])," differ by ",d/sz);}); M.event("equivalent pairs"); } }
    // the same wave vectors in the primitive lattice
    if (o.prim) { auto Lp=z.get_primitive_lattice(); M9 P=Lp.to_xyz(LengthUnit::inverse_angstrom), Pi=lat::inv(P); std::vector<V> Qp; for (auto& x : Q) Qp.push_back(lat::mulv(Pi,o.xyz(x))); M.site("primitive"); Answer e; try { e=move(z,LVec<double>(LengthUnit::inverse_angstrom,Lp,lat::arr(Qp)),1); } catch (const std::exception& x) { M.fail("throws-primitive",cat(o.id,": ",std::string(x.what()).substr(0,80))); return; }
      for (size_t i=0;i<Q.size();++i) { double m=1; for (double x : Qp[i]) m=std::max(m,std::abs(x)); V t{double(e.t[i][0]),double(e.t[i][1]),double(e.t[i][2])}; V rest=add(add(Qp[i],t,-1),e.q[i],-1); double bad=0; for (double x : rest) bad=std::max(bad,std::abs(x)); M.check(bad<=1e-14*(1+m+std::abs(t[0])+std::abs(t[1])+std::abs(t[2]))*std::max(1.0,std::sqrt(o.K)),"sum-primitive",[&]{return cat(o.id,": ",lat::show(Qp[i]));});
        double out=o.ref.outside(lat::mulv(P,e.q[i])); M.check(out<=tol*sz,"outside-primitive",[&]{return cat(o.id,": ",lat::show(Qp[i])," outside by ",out/sz);});
        if (out<-(1e-6*o.K+1e-13*m)*sz) { double d=norm(add(lat::mulv(P,e.q[i]),o.xyz(a.q[i]),-1)); M.check(d<=(tol+1e-13*m*o.K)*sz,"frame",[&]{return cat(o.id,": ",lat::show(Qp[i])," differs by ",d/sz);}); M.event("compared between frames"); } } }
    // vectors of another lattice are refused
    { auto w=irz::skewed(r,false); bool threw=false; try { move(z,irz::vec(w,{V{0.1,0.2,0.3}}),1); } catch (const std::exception&) { threw=true; } M.check(threw,"foreign-lattice-accepted",[&]{return o.id;}); M.event("foreign lattices refused"); }
    uint64_t h=hash_mix(si,prim); for (auto x : o.A) h=hash_dbl(h,x); for (auto& x : Q) h=hash_dbl(h,x[0]); M.distinct(h); M.sample(cat(o.id,": ",Q.size()," vectors"));
  });
}
