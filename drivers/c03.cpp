// C03: the irreducible polyhedron is a fundamental domain of the zone, and the wedge agrees with it.
#include "mon.hpp"
#include "irz.hpp"
using namespace mon; using namespace brille; using namespace brille::lattice; using lat::M9; using lat::V; using lat::dot; using lat::cross; using lat::norm; using lat::add; using lat::scale;
int main(int argc, char** argv) {
  Monitor M("C03", argc, argv); const auto& S=sym::settings();
  M.run(M.thorough() ? 30000 : 1060, [&](Rng& r, size_t c) {
    const size_t si=c%S.size(); const bool prim=r.chance(0.8), tr=r.chance(0.3);
    auto o=irz::prepare(si,r,prim,tr,1.0,r.chance(0.3)); M.note(o.id); const double sz=o.ref.z.size; M.eval();
    if (o.ref.z.shortest<1e-5*sz) throw Skip("edges below the working tolerance");
    M.site("build"); try { irz::build(o); } catch (const std::exception& e) { M.fail("throws",cat(o.id,": ",std::string(e.what()).substr(0,60)," shortest ",o.ref.z.shortest/sz)); return; }
    auto& z=*o.z; const size_t n=o.ops.size(); const double tol=1e-7*o.K;
    { auto ps=z.get_pointgroup_symmetry(); auto w=sym::convp(ps); std::set<sym::R9> want(o.ops.begin(),o.ops.end()); M.check(sym::toset(w)==want&&w.size()==want.size(),"operations",[&]{return cat(o.id,": ",w.size()," expected ",want.size());}); M.check(z.add_time_reversal()==(tr?1:0),"time-reversal-flag",[&]{return o.id;}); }
    auto P=z.get_ir_polyhedron(false), T=z.get_ir_polyhedron(true); double v0=P.volume(), v1=T.volume(), want=o.vz/double(n);
    M.check(std::abs(v1-want)<1e-6*o.K*want,"volume",[&]{return cat(o.id,": ",v1," expected ",want);});
    const bool mirrored=std::abs(v1-2*v0)<1e-6*v1; M.event(mirrored?"irreducible polyhedra made of two halves":"convex irreducible polyhedra");
    M.check(mirrored||std::abs(v0-v1)<1e-9*v1,"halves",[&]{return cat(o.id,": ",v0," and ",v1);});
    auto v=vor::pts(P.vertices().xyz()); auto faces=P.faces().faces(); auto pl=irz::planes(v,faces);
    { bool same=vor::hausdorff(vor::pts(z.get_ir_vertices().xyz()),v)==0&&z.get_ir_vertices_per_face()==faces&&z.get_ir_points().size(0)==faces.size()&&z.get_ir_normals().size(0)==faces.size()&&z.get_ir_faces_per_vertex().size()==v.size(); M.check(same,"accessors",[&]{return o.id;});
      auto nn=vor::pts(z.get_ir_normals().xyz()), pp=vor::pts(z.get_ir_points().xyz()); bool ok=true; for (size_t i=0;i<std::min(nn.size(),faces.size());++i) { if (1-dot(nn[i],pl[i].n)/norm(nn[i])>1e-7*o.K||std::abs(dot(pl[i].n,pp[i])-pl[i].d)>tol*sz) ok=false; } M.check(ok,"normals-and-points",[&]{return o.id;});
      auto pv=vor::pts(z.get_ir_primitive_vertices().xyz()), pq=vor::pts(z.get_ir_primitive_points().xyz()), pn=vor::pts(z.get_ir_primitive_normals().xyz()); M.check(vor::hausdorff(pv,v)<tol*sz&&vor::hausdorff(pq,pp)<tol*sz&&vor::hausdorff(pn,nn)<tol,"primitive-accessors",[&]{return o.id;}); }
    double far=-1e300, bad=-1e300; for (auto& x : v) { far=std::max(far,o.ref.outside(x)); bad=std::max(bad,irz::outside(pl,x)); } M.check(far<tol*sz,"inside-zone",[&]{return cat(o.id,": vertex outside by ",far/sz);}); M.check(bad<tol*sz,"convex",[&]{return cat(o.id,": ",bad/sz);});
    auto in_ir=[&](const V& x){ double a=irz::outside(pl,x); if (mirrored) a=std::min(a,irz::outside(pl,scale(x,-1))); return a; };
    // points of the zone: exactly one image inside when none is near a surface
    std::vector<V> pts; const double margin=1e-6*o.K*sz; for (int i=0;i<150;++i) { V x{0,0,0}; if (r.chance(0.4)) { x=lat::mulv(o.Bp,{r.uni(-0.6,0.6),r.uni(-0.6,0.6),r.uni(-0.6,0.6)}); } else { std::vector<double> w; double s=0; for (size_t k=0;k<o.ref.z.v.size();++k) { double e=-std::log(1-r.uni()); if (r.chance(0.6)) e=0; w.push_back(e); s+=e; } if (s==0) continue; for (size_t k=0;k<w.size();++k) x=add(x,o.ref.z.v[k],w[k]/s); if (r.chance(0.2)) x=scale(x,std::pow(10.,r.uni(-3,0))); } if (o.ref.outside(x)<-margin) pts.push_back(x); }
    std::vector<V> hk; for (auto& x : pts) hk.push_back(o.hkl(x)); auto Q=irz::vec(o,hk);
    auto w_in=z.isinside_wedge(Q), w_out=z.isinside_wedge_outer(Q), w_pos=z.isinside_wedge(Q,true); auto p_in=P.contains(Q); auto wn=vor::pts(z.get_ir_wedge_normals().xyz());
    M.check(w_in.size()==pts.size()&&w_out==w_in&&p_in.size()==pts.size(),"wedge-answers",[&]{return o.id;});
    M.event("wedge normals",wn.size());
    { auto Lp=z.get_primitive_lattice(); M9 Pi=lat::inv(Lp.to_xyz(LengthUnit::inverse_angstrom)); std::vector<V> h2; for (auto& x : pts) h2.push_back(lat::mulv(Pi,x)); if (prim) { auto w2=z.isinside_wedge(LVec<double>(LengthUnit::inverse_angstrom,Lp,lat::arr(h2))); bool same=true; for (size_t i=0;i<pts.size();++i) { double m=1e300; for (auto& q : wn) m=std::min(m,std::abs(dot(q,pts[i])/norm(q))); if (m>margin) same=same&&w2[i]==w_in[i]; } M.check(same,"wedge-answers:primitive",[&]{return o.id;}); } }
    size_t judged=0, wj=0;
    for (size_t i=0;i<pts.size();++i) { size_t inside=0; bool near=false; std::string s; for (auto& w : o.ops) { V y=o.xyz(o.turn(w,hk[i])); double a=in_ir(y); if (std::abs(a)<margin) { near=true; break; } inside+=a<0; }
      if (!near) { ++judged; M.check(inside==1,inside?"overlap":"uncovered",[&]{return cat(o.id,": ",lat::show(hk[i])," has ",inside," images inside");}); }
      double a=irz::outside(pl,pts[i]); if (std::abs(a)>margin) M.check(p_in[i]==(a<0),"contains",[&]{return cat(o.id,": ",lat::show(hk[i]));});
      double b=in_ir(pts[i]); double m=1e300; bool allp=true, alln=true; for (auto& q : wn) { double d=dot(q,pts[i])/norm(q); m=std::min(m,std::abs(d)); allp=allp&&d>0; alln=alln&&d<0; }
      if (m>margin) { ++wj; M.check(w_pos[i]==allp,"wedge-normals",[&]{return cat(o.id,": ",lat::show(hk[i]));}); if (std::abs(b)>margin) M.check(w_in[i]==(b<0),"wedge-is-polyhedron",[&]{return cat(o.id,": ",lat::show(hk[i])," wedge ",bool(w_in[i])," polyhedron ",b<0);}); } }
    M.event("points judged",judged); M.event("wedge answers judged",wj);
    // every direction has an image in the wedge, whatever its length
    std::vector<V> dir; for (int i=0;i<40;++i) { V x; if (r.chance(0.4)) x=scale(add(scale(r.pick(o.ref.z.v),double(r.integer(0,2))),r.pick(o.ref.z.v)),r.uni(0.1,3)); else if (r.chance(0.4)) { V h{double(r.integer(-3,3)),double(r.integer(-3,3)),double(r.integer(-3,3))}; x=o.xyz(h); } else x=scale(V{r.normal(),r.normal(),r.normal()},sz); dir.push_back(x); }
    size_t lost=0; std::string which; for (auto& x : dir) { std::vector<V> im; for (auto& w : o.ops) im.push_back(o.turn(w,o.hkl(x))); auto a=z.isinside_wedge(irz::vec(o,im)); if (!std::count(a.begin(),a.end(),true)) { ++lost; which=lat::show(o.hkl(x)); } }
    M.check(lost==0,"direction-without-image",[&]{return cat(o.id,": ",lost," such as ",which);}); M.event("directions",dir.size());
    uint64_t h=hash_mix(si,prim*2+tr); for (auto x : o.A) h=hash_dbl(h,x); M.distinct(h); M.sample(cat(o.id," -> ",v.size()," vertices ",wn.size()," wedge normals, one of ",n));
  });
}
