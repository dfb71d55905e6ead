// Shared by the grid drivers: a zone, the polyhedron a grid has to fill, and one of the three kinds of grid over it.
#pragma once
#include "irz.hpp"
#include "hull.hpp"
#include "bz_trellis.hpp"
#include "bz_nest.hpp"
#include "bz_mesh.hpp"
#include <complex>
#include <functional>
namespace grid {
using namespace irz; using brille::ind_t;
template<class T, class R> using GTrellis=brille::BrillouinZoneTrellis3<T,R,double>;
template<class T, class R> using GNest=brille::BrillouinZoneNest3<T,R,double>;
template<class T, class R> using GMesh=brille::BrillouinZoneMesh3<T,R,double>;
enum class Kind { trellis, triangulated, nest, mesh };
inline const char* name(Kind k) { switch (k) { case Kind::trellis: return "trellis"; case Kind::triangulated: return "triangulated trellis"; case Kind::nest: return "nest"; default: return "mesh"; } }
struct Domain { Zone o; vor::Body b; std::vector<V> v; bool wedge; std::string id; };
// left-handed bases are the same lattices described by the negatives of their vectors
inline Domain domain(Rng& r, size_t si, bool wedge, bool may_turn=true, const std::function<void(Zone&)>& before=nullptr) { Domain d; bool prim=r.chance(0.8), tr=r.chance(0.3); d.o=prepare(si,r,prim,tr,0.8,may_turn&&r.chance(0.35)); auto& o=d.o;
  if (may_turn&&r.chance(0.15)) { M9 A=o.A; for (auto& x : A) x=-x; o.lattice=brille::lattice::Direct<double>(A,brille::MatrixVectors::column,std::string(sym::settings()[si].symbol)); o.A=o.lattice->to_xyz(brille::LengthUnit::angstrom); o.B=o.lattice->to_xyz(brille::LengthUnit::inverse_angstrom); o.Bi=inv(o.B); M9 H=vor::primitive_hkl(o.cen); o.Bp=prim?mul(o.B,H):o.B; o.Bpi=inv(o.Bp); o.ref=vor::cell(o.Bp); o.id+=" left-handed"; }
  d.wedge=wedge; if (o.ref.z.shortest<1e-4*o.ref.z.size) throw mon::Skip("zone edges below the working tolerance"); if (o.K>60) throw mon::Skip("cell too skew");
  if (before) before(o); build(o,wedge); auto P=o.z->get_ir_polyhedron(); d.v=vor::pts(P.vertices().xyz()); d.b=vor::body(planes(d.v,P.faces().faces()),vor::spread(d.v),1e-9); if (d.b.shortest<1e-4*d.b.size) throw mon::Skip("polyhedron edges below the working tolerance");
  if (std::abs(d.b.volume-P.volume())>1e-7*d.b.volume||vor::hausdorff(d.b.v,d.v)>1e-7*d.b.size) throw mon::Skip("reference polyhedron"); d.id=mon::cat(o.id,wedge?" irreducible":" whole zone"); return d; }
// a point of the body: inside, near or on its surface
inline V point(Rng& r, const vor::Body& b, int where) { std::vector<double> w; double s=0; V x{0,0,0}; if (where==0) { for (size_t i=0;i<b.v.size();++i) { w.push_back(-std::log(r.uni()+1e-300)); s+=w.back(); } for (size_t i=0;i<b.v.size();++i) x=add(x,b.v[i],w[i]/s); return x; }
  if (where==1||where==2) { auto& f=r.pick(b.f); for (size_t i=0;i<f.size();++i) { w.push_back(-std::log(r.uni()+1e-300)); s+=w.back(); } for (size_t i=0;i<f.size();++i) x=add(x,b.v[f[i]],w[i]/s); if (where==2) x=add(scale(x,1),add(b.centroid,x,-1),std::pow(10.0,r.uni(-14,-2))); return x; }
  if (where==3) { auto& f=r.pick(b.f); size_t i=r.integer(0,f.size()-1); double t=r.chance(0.3)?0.5:r.uni(); return add(scale(b.v[f[i]],1-t),b.v[f[(i+1)%f.size()]],t); }
  return b.v[size_t(r.integer(0,b.v.size()-1))]; }
inline brille::bArray<double> one(const V& x) { return arr({x}); }
inline double tet_volume(const V& a, const V& b, const V& c, const V& d) { return dot(cross(add(b,a,-1),add(c,a,-1)),add(d,a,-1))/6; }
template<class T, class R> std::vector<std::array<ind_t,4>> tets(const GMesh<T,R>& g) { std::vector<std::array<ind_t,4>> t; auto& a=g.get_mesh_tetrehedra(); for (ind_t i=0;i<a.size(0);++i) t.push_back({a.val(i,0),a.val(i,1),a.val(i,2),a.val(i,3)}); return t; }
template<class T, class R> std::vector<std::array<ind_t,4>> tets(const GNest<T,R>& g) { return g.tetrahedra(); }
template<class T, class R> std::vector<std::array<ind_t,4>> tets(const GTrellis<T,R>& g) { return g.get_vertices_per_tetrahedron(); }
template<class T, class R> std::vector<V> vertices(const GMesh<T,R>& g) { return vor::pts(g.get_mesh_xyz()); }
template<class T, class R> std::vector<V> vertices(const GNest<T,R>& g) { return vor::pts(g.get_xyz()); }
template<class T, class R> std::vector<V> vertices(const GTrellis<T,R>& g) { return vor::pts(g.get_xyz()); }
template<class T, class R> std::vector<V> hkl(const GMesh<T,R>& g) { return vor::pts(g.get_mesh_hkl()); }
template<class T, class R> std::vector<V> hkl(const GNest<T,R>& g) { return vor::pts(g.get_hkl()); }
template<class T, class R> std::vector<V> hkl(const GTrellis<T,R>& g) { return vor::pts(g.get_hkl()); }
// interpolation in Cartesian coordinates, within the domain
template<class T, class R, class... A> auto base_interpolate(const GMesh<T,R>& g, const brille::bArray<double>& x, A... a) { return g.brille::template Mesh3<T,R,double,brille::Array2>::interpolate_at(x,a...); }
template<class T, class R, class... A> auto base_interpolate(const GNest<T,R>& g, const brille::bArray<double>& x, A... a) { return g.brille::template Nest<T,R,double,brille::Array2>::interpolate_at(x,a...); }
template<class T, class R, class... A> auto base_interpolate(const GTrellis<T,R>& g, const brille::bArray<double>& x, A... a) { return g.brille::polytrellis::template PolyTrellis<T,R,double,brille::Array2>::interpolate_at(x,a...); }
// weights with which stored values enter at points inside, seen through interpolation of one-hot data
using W=std::vector<std::pair<ind_t,double>>;
template<class T=double, class G=void> std::vector<W> seen(G& g, const std::vector<V>& x, size_t nv) { brille::Array<T> a(brille::shape_t{ind_t(nv),1u,ind_t(nv)},T(0)); { size_t k=0; for (auto& q : a.valItr()) { if (k%nv==k/nv) q=1; ++k; } } std::array<unsigned,3> e{unsigned(nv),0,0}; g.replace_value_data(a,e);
  auto [val,vec]=base_interpolate(g,arr(x)); brille::Array2<T> v2(val); std::vector<W> o; for (size_t i=0;i<x.size();++i) { W w; for (size_t k=0;k<nv;++k) { double d=std::real(v2.val(ind_t(i),ind_t(k))); if (d!=0) w.push_back({ind_t(k),d}); } o.push_back(w); } return o; }
// what to build
struct Spec { Kind kind; double volume; int cells; int nb=5, levels=3; };
inline Spec spec(Rng& r, const Domain& d, Kind k, int most) { Spec s; s.kind=k; s.cells=int(std::exp(r.uni(0,std::log(double(most))))); s.volume=d.b.volume/s.cells; s.nb=int(r.integer(2,6)); s.levels=int(r.integer(1,5)); return s; }
inline std::string show(const Spec& s) { return mon::cat(name(s.kind)," of volume/",s.cells,s.kind==Kind::nest?mon::cat(" branchings ",s.nb):s.kind==Kind::mesh?mon::cat(" levels ",s.levels):""); }
template<class T, class R, class F> void with(Rng& r, const Domain& d, const Spec& s, F f) { const auto& z=*d.o.z;
  if (s.kind==Kind::trellis||s.kind==Kind::triangulated) { GTrellis<T,R> g(z,s.volume,s.kind==Kind::triangulated); f(g); }
  else if (s.kind==Kind::nest) { if (r.chance(0.5)) { GNest<T,R> g(z,s.volume,ind_t(s.nb)); f(g); } else { GNest<T,R> g(z,ind_t(s.cells),ind_t(s.nb)); f(g); } }
  else { GMesh<T,R> g(z,s.volume,s.levels,-1); f(g); } }
}
