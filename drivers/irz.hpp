// Shared by the irreducible-zone drivers: a zone for one of the 530 settings and what is known about it independently.
#pragma once
#include "vor.hpp"
#include "bz.hpp"
#include <optional>
namespace irz {
using namespace lat;
struct Zone { Ref f; std::optional<L> lattice; std::optional<brille::BrillouinZone> z; M9 A, B, Bi, Bp, Bpi; vor::Cell ref; double K=1, vz=0; bool prim=true, tr=false; std::vector<R9> ops; std::vector<sym::V3> cen; std::string id; 
  V xyz(const V& h) const { return mulv(B,h); } V hkl(const V& x) const { return mulv(Bi,x); } V turn(const R9& w, const V& h) const { return mulv(fl(sym::tr(w)),h); }  // reciprocal vectors turn with the transposed matrices
  // whether x (hkl) is, to within e, a point of the reciprocal lattice in use
  bool lattice_point(const V& h, double e=1e-9) const { int k[3]; for (int i=0;i<3;++i) { double n=std::round(h[i]); if (std::abs(h[i]-n)>e||std::abs(n)>1e8) return false; k[i]=int(n); } return !prim||vor::allowed(cen,k[0],k[1],k[2]); } };
inline Zone prepare(size_t si, Rng& r, bool prim, bool tr, double spread=1.0, bool by_vectors=false) { Zone o; o.f=make(si,r,spread,1,30); o.prim=prim; o.tr=tr; o.id=o.f.id; 
  if (by_vectors) { M9 A=mul(rotation(r),o.f.A); o.lattice=brille::lattice::Direct<double>(A,brille::MatrixVectors::column,std::string(sym::settings()[si].symbol)); o.id+=" turned"; } else o.lattice=direct(o.f);
  o.A=o.lattice->to_xyz(brille::LengthUnit::angstrom); o.B=o.lattice->to_xyz(brille::LengthUnit::inverse_angstrom); o.Bi=inv(o.B); o.K=cond(o.A); o.cen=vor::centring(o.f.g); M9 H=vor::primitive_hkl(o.cen); if (!prim) H={1,0,0,0,1,0,0,0,1}; o.Bp=mul(o.B,H); o.Bpi=inv(o.Bp); o.ref=vor::cell(o.Bp); o.vz=std::abs(det(o.Bp)); if (std::abs(o.ref.z.volume-o.vz)>1e-7*o.vz) throw mon::Skip("reference");
  auto pg=o.f.pg; if (tr) { sym::PGroup q=pg; for (auto& w : pg) q.insert(sym::neg(w)); pg=q; } o.ops.assign(pg.begin(),pg.end()); o.id=mon::cat(o.id," primitive=",prim," time reversal=",tr); return o; }
// a lattice without symmetry described by strongly non-reduced or very anisotropic vectors
inline Zone skewed(Rng& r, bool tr) { Zone o; o.prim=true; o.tr=tr; M9 A; for (auto& x : A) x=r.normal()*std::exp(r.uni(-1,1)); if (r.chance(0.5)) for (auto& x : A) x=std::round(x*3)/2; for (int k=r.integer(0,4);k>0;--k) { int i=r.integer(0,2), j=(i+r.integer(1,2))%3, n=r.integer(-2,2); for (int q=0;q<3;++q) A[3*q+i]+=n*A[3*q+j]; }
  if (std::abs(det(A))<0.02) throw mon::Skip("flat"); const bool inv_sym=r.chance(0.5); o.lattice=brille::lattice::Direct<double>(A,brille::MatrixVectors::column,std::string(inv_sym?"-P 1":"P 1"));
  o.A=o.lattice->to_xyz(brille::LengthUnit::angstrom); o.B=o.lattice->to_xyz(brille::LengthUnit::inverse_angstrom); o.Bi=inv(o.B); o.K=cond(o.A); o.cen=vor::centring(group_of(0)); o.Bp=o.B; o.Bpi=o.Bi; o.ref=vor::cell(o.Bp); o.vz=std::abs(det(o.Bp)); if (std::abs(o.ref.z.volume-o.vz)>1e-7*o.vz) throw mon::Skip("reference");
  R9 e{1,0,0,0,1,0,0,0,1}; o.ops={e}; if (tr||inv_sym) o.ops.push_back(sym::neg(e)); o.id=mon::cat("skewed K ",o.K," short ",o.ref.z.shortest/o.ref.z.size,show(V{A[0],A[3],A[6]}),show(V{A[1],A[4],A[7]}),show(V{A[2],A[5],A[8]})," inversion=",inv_sym," time reversal=",tr); return o; }
inline brille::BrillouinZoneConfig config(const Zone& o, bool wedge) { brille::BrillouinZoneConfig c; c.primitive(o.prim); c.time_reversal(o.tr); c.wedge_search(wedge); return c; }
inline void build(Zone& o, bool wedge=true) { o.z.emplace(*o.lattice,config(o,wedge)); }
inline brille::lattice::LVec<double> vec(const Zone& o, const std::vector<V>& h) { return brille::lattice::LVec<double>(brille::LengthUnit::inverse_angstrom,*o.lattice,arr(h)); }
// outward face planes of a polyhedron given by its vertices and faces (largest triangle of each face)
inline std::vector<vor::Plane> planes(const std::vector<V>& v, const std::vector<std::vector<brille::ind_t>>& f) { std::vector<vor::Plane> p; V c{0,0,0}; for (auto& x : v) c=add(c,x,1.0/double(v.size())); for (auto& q : f) { V n{0,0,0}; for (size_t i=0;i<q.size();++i) n=add(n,cross(add(v[q[i]],v[q[0]],-1),add(v[q[(i+1)%q.size()]],v[q[0]],-1))); if (norm(n)==0) continue; V m{0,0,0}; for (auto i : q) m=add(m,v[i],1.0/double(q.size())); auto pl=vor::plane(n,dot(n,m)); p.push_back(pl); } return p; }
inline double outside(const std::vector<vor::Plane>& p, const V& x) { double m=-1e300; for (auto& q : p) m=std::max(m,dot(q.n,x)-q.d); return m; }
}
