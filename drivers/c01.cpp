// C01: the first Brillouin zone against an independently found Wigner-Seitz cell.
#include "mon.hpp"
#include "lat.hpp"
#include "bz.hpp"
#include <optional>
#include "vor.hpp"
using namespace mon; using namespace brille; using namespace brille::lattice; using lat::M9; using lat::V; using lat::dot; using lat::cross; using lat::norm; using lat::add; using lat::scale;
constexpr auto LA=LengthUnit::angstrom, LB=LengthUnit::inverse_angstrom;
static M9 unimodular(Rng& r, int steps, int most) { M9 u{1,0,0,0,1,0,0,0,1}; for (int s=0;s<steps;++s) { int i=int(r.integer(0,2)), j=int(r.integer(0,2)); if (i==j) continue; int k=int(r.integer(-most,most)); for (int d=0;d<3;++d) u[3*d+i]+=k*u[3*d+j]; } return u; }
int main(int argc, char** argv) {
  Monitor M("C01", argc, argv); const auto& S=sym::settings();
  M.run(M.thorough() ? 60000 : 2120, [&](Rng& r, size_t c) {
    const size_t si=c%S.size(); const size_t round=c/S.size(); M9 A; std::string id, kind; std::string name=S[si].symbol; sym::Group g; bool left=false;
    std::optional<lat::L> L; double slop=1e-7;
    const int how = round%2==0 ? (r.chance(0.5)?0:1) : int(r.integer(2,6));
    if (how==0) { auto f=lat::make(si,r,r.chance(0.2)?3.0:1.0); id=f.id; kind="setting, lengths and angles"; g=f.g; M.site(kind); M.note(id); L=lat::direct(f); A=L->to_xyz(LA); }
    else if (how==1) { auto f=lat::make(si,r); left=r.chance(0.3); A=lat::mul(lat::rotation(r),f.A); if (left) for (auto& x : A) x=-x; id=f.id+(left?" left-handed ":" rotated ")+lat::show(A); kind="setting, vectors"; g=f.g; M.site(kind); M.note(id); L=Direct<double>(A,MatrixVectors::column,name); }
    else { g=lat::group_of(0); name="P 1"; A=lat::upper(sym::random_metric(sym::rotations(g),r,how==3?4.0:1.0));
      if (how==4||how==6) { auto f=lat::make(si,r); A=lat::mul(f.A,lat::inv(lat::tr(vor::primitive_hkl(vor::centring(f.g))))); kind="primitive cell described without its symmetry"; }
      else kind= how==3?"anisotropic":"oblique";
      if (how==5) { double e=std::pow(10.,r.uni(-7,-2)); auto f=lat::make(si,r); A=lat::mul(f.A,lat::inv(lat::tr(vor::primitive_hkl(vor::centring(f.g))))); for (auto& x : A) x+=e*lat::amax(f.A)*r.normal(); kind="nearly symmetric"; slop=1e-6; }
      if (r.chance(0.6)) { M9 u=unimodular(r,int(r.integer(1,4)),how==6?4:1); A=lat::mul(A,u); kind+=", other basis"; }
      double s=std::exp(r.uni(-2,4)); for (auto& x : A) x*=s/std::cbrt(std::abs(lat::det(A))); A=lat::mul(lat::rotation(r),A); if (lat::det(A)<0) for (auto& x : A) x=-x;
      if (lat::cond(A)>200) throw mon::Skip("cell too skew for the working precision");
      id=cat(kind," ",lat::show(A)); M.site(kind); M.note(id); L=Direct<double>(A,MatrixVectors::column,name); A=L->to_xyz(LA); }
    M9 B=lat::dual(A); M.event(kind);
    bool prim=r.chance(0.75); M9 Bp = prim ? lat::mul(B,vor::primitive_hkl(vor::centring(g))) : B;
    auto ref=vor::cell(Bp); const double sz=ref.z.size, want=std::abs(lat::det(Bp)); const double K=lat::cond(A);
    if (!(std::abs(ref.z.volume-want)<1e-7*want)) throw mon::Skip("reference");
    BrillouinZoneConfig cfg; cfg.primitive(prim); cfg.wedge_search(false); cfg.divide_primitive(r.chance(0.6)); cfg.divide_extent(r.chance(0.6)?1:int(r.integer(2,3)));
    id=cat(id," primitive=",prim," divide_primitive=",cfg.divide_primitive()," extent=",cfg.divide_extent()); M.note(id); M.eval();
    const std::string k = left?"left:":""; const bool near=ref.z.shortest<1e-4*sz, tiny=ref.z.shortest<2e-5*sz; if (near) M.event("nearly coincident vertices");
    std::optional<BrillouinZone> z; try { z.emplace(*L,cfg); } catch (const std::exception& e) { if (tiny) { M.event("refused: edges below the working tolerance"); return; } M.fail(k+"throws", cat(id,": ","shortest edge ",ref.z.shortest/sz,": ",std::string(e.what()).substr(0,200))); return; }
    auto P=z->get_polyhedron(); auto v=vor::pts(z->get_vertices().xyz()); 
    long need=0; for (auto& q : ref.z.p) for (auto x : ref.hkl[q.tag]) need=std::max(need,std::abs(x));
    double hd=vor::hausdorff(v,ref.z.v)/sz; M.maximum("vertex distance (relative)",std::min(hd,1.0));
    
    if (tiny) slop=1e-4;
    M.check(hd<slop*K, k+"vertices", [&]{ return cat(id,": ",v.size()," vertices, ",ref.z.v.size()," expected, distance ",hd,", largest index ",need,", shortest edge ",ref.z.shortest/sz); });
    double vol=P.volume(); M.check(std::abs(vol-want)<slop*K*want, k+"volume", [&]{ return cat(id,": ",vol," expected ",want); });
    { uint64_t h=hash_mix(ref.z.v.size(),ref.z.f.size()); for (auto x : A) h=hash_dbl(h,x); M.distinct(hash_mix(h,prim)); M.event(cat("zones with ",ref.z.f.size()," faces ",ref.z.v.size()," vertices")); }
    if (!near) { M.check(v.size()==ref.z.v.size(), k+"vertex-count", [&]{return cat(id,": ",v.size()," expected ",ref.z.v.size());}); M.check(z->get_points().size(0)==ref.z.f.size(), k+"face-count", [&]{return cat(id,": ",z->get_points().size(0)," expected ",ref.z.f.size());}); }
    if (!tiny) { // the lists describe one body
      auto p=vor::pts(z->get_points().xyz()), n=vor::pts(z->get_normals().xyz()), he=vor::pts(z->get_half_edges().xyz()); auto vpf=z->get_vertices_per_face(), fpv=z->get_faces_per_vertex(); const size_t F=vpf.size();
      M.check(p.size()==F&&n.size()==F&&fpv.size()==v.size()&&z->vertices_count()==v.size()&&z->faces_count()==F, k+"counts", [&]{return id;});
      std::map<std::pair<size_t,size_t>,int> edge; std::set<int> used; bool ok=true; std::string why; size_t ne=0;
      for (size_t f=0;f<F&&f<p.size()&&f<n.size();++f) { double nn=norm(n[f]); int best=-1; double bd=1e300; for (size_t i=0;i<ref.z.p.size();++i) { double d=1-dot(n[f],ref.z.p[i].n)/nn; if (d<bd) { bd=d; best=int(i); } }
        if (best<0) continue; auto& q=ref.z.p[best]; if (std::abs(nn-1)>1e-8||bd>slop*K) { ok=near; why=cat("normal ",f," ",lat::show(n[f])); } if (!used.insert(best).second&&!near) { ok=false; why=cat("two faces on one plane ",f); }
        if (std::abs(dot(q.n,p[f])-q.d)>slop*K*sz||ref.outside(p[f])>slop*K*sz) { ok=near; why=cat("point ",f," ",lat::show(p[f])); }
        if (vpf[f].size()<3) { ok=false; why="face with fewer than three vertices"; }
        V s{0,0,0}; for (size_t i=0;i<vpf[f].size();++i) { size_t a=vpf[f][i], b=vpf[f][(i+1)%vpf[f].size()]; if (a>=v.size()||b>=v.size()||a==b) { ok=false; why="vertex index"; break; } edge[{a,b}]++; ++ne; s=add(s,cross(add(v[a],p[f],-1),add(v[b],p[f],-1)));
          if (std::abs(dot(q.n,v[a])-q.d)>slop*K*sz&&!near) { ok=false; why=cat("vertex ",a," off face ",f); } V x=add(v[a],p[f],-1), y=add(v[b],p[f],-1); if (dot(cross(x,y),q.n)<-slop*sz*sz&&!near) { ok=false; why=cat("winding of face ",f); } 
          if (a<fpv.size()&&std::count(fpv[a].begin(),fpv[a].end(),f)!=1) { ok=false; why="faces per vertex"; } } 
        if (!near) for (size_t i=0;i<v.size();++i) if (std::abs(dot(q.n,v[i])-q.d)<1e-9*sz&&!std::count(vpf[f].begin(),vpf[f].end(),i)) { ok=false; why=cat("vertex ",i," missing from face ",f); } }
      for (auto& e : edge) if (e.second!=1||!edge.count({e.first.second,e.first.first})) { ok=false; why=cat("edge ",e.first.first,"-",e.first.second); }
      size_t per=0; for (auto& x : fpv) per+=x.size(); if (per!=ne) { ok=false; why="faces per vertex total"; }
      if (!near&&v.size()+F!=ne/2+2) { ok=false; why="Euler"; }
      M.check(ok,k+"one-body",[&]{return cat(id,": ",why);});
      std::vector<V> mid; for (auto& e : edge) if (e.first.first<e.first.second&&e.first.second<v.size()) mid.push_back(scale(add(v[e.first.first],v[e.first.second]),0.5)); M.check(he.size()==mid.size()&&vor::hausdorff(he,mid)<1e-9*sz,k+"half-edges",[&]{return cat(id,": ",he.size()," expected ",mid.size());});
      std::vector<V> neg; for (auto& x : v) neg.push_back(scale(x,-1)); M.check(vor::hausdorff(v,neg)<slop*K*sz,k+"centrosymmetric",[&]{return id;});
      auto cen=lat::at(P.centroid().xyz(),0); M.check(norm(cen)<slop*K*sz,k+"centroid",[&]{return cat(id,": ",lat::show(cen));});
      // all are given in the outer lattice; the primitive versions are the same vectors in the primitive lattice
      auto same=[&](auto a, auto b, const char* w){ auto x=vor::pts(a.xyz()), y=vor::pts(b.xyz()); bool s=x.size()==y.size(); for (size_t i=0;s&&i<x.size();++i) s=norm(add(x[i],y[i],-1))<=1e-9*K*std::max(sz,1.0); M.check(s,k+"primitive-"+w,[&]{return id;}); };
      same(z->get_vertices(),z->get_primitive_vertices(),"vertices"); same(z->get_points(),z->get_primitive_points(),"points"); same(z->get_normals(),z->get_primitive_normals(),"normals"); }
    { // membership
      M.site(kind+", membership"); std::vector<V> q; for (int i=0;i<60;++i) { V x; switch (r.integer(0,3)) { case 0: { x={r.uni(-0.7,0.7),r.uni(-0.7,0.7),r.uni(-0.7,0.7)}; x=lat::mulv(Bp,x); break; }
            case 1: { x={0,0,0}; for (auto& y : ref.z.v) x=add(x,y,r.uni()/double(ref.z.v.size())*2.5); break; }
            case 2: { auto& t=r.pick(ref.z.p); x=add(scale(t.n,t.d*(1+std::pow(10.,r.uni(-6,-1))*(r.chance(0.5)?1:-1))),scale(cross(t.n,V{r.normal(),r.normal(),r.normal()}),0.3*t.d*r.uni())); break; }
            default: { x=scale(r.pick(ref.z.v),1+std::pow(10.,r.uni(-6,-1))*(r.chance(0.5)?1:-1)); } } q.push_back(x); } q.push_back({0,0,0});
      M9 Bi=lat::inv(L->to_xyz(LB)); std::vector<V> h; for (auto& x : q) h.push_back(lat::mulv(Bi,x)); LVec<double> Q(LB,*L,lat::arr(h)); auto in=z->isinside(Q); auto cin=P.contains(Q);
      M.check(in.size()==q.size()&&cin.size()==q.size(),k+"membership-size",[&]{return id;});
      const double margin = tiny?1e-2:near?1e-3:1e-7*K; size_t judged=0; for (size_t i=0;i<q.size();++i) { double o=ref.outside(q[i])/sz; if (std::abs(o)<margin) continue; ++judged; M.check(in[i]==(o<0),k+"membership",[&]{return cat(id,": ",lat::show(q[i])," ",o);}); M.check(cin[i]==(o<0),k+"contains",[&]{return cat(id,": ",lat::show(q[i])," ",o);}); }
      M.event("membership questions",judged);
      // the same vectors in the primitive lattice
      if (prim) { auto Lp=z->get_primitive_lattice(); M9 Pi=lat::inv(Lp.to_xyz(LB)); std::vector<V> hp; for (auto& x : q) hp.push_back(lat::mulv(Pi,x)); LVec<double> Qp(LB,Lp,lat::arr(hp)); auto ip=z->isinside(Qp); for (size_t i=0;i<q.size();++i) if (double o=ref.outside(q[i])/sz; std::abs(o)>margin) M.check(ip[i]==(o<0),k+"membership:primitive",[&]{return cat(id,": ",lat::show(q[i])," ",o);}); } }
    M.sample(cat(id," -> ",v.size()," vertices ",z->get_points().size(0)," faces"));
  });
}
