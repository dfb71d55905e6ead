// Shared by the polyhedron drivers: convex hulls of point sets and point-set generators, in Cartesian doubles.
#pragma once
#include "vor.hpp"
#include "polyhedron_flex.hpp"
#include <optional>
namespace hull {
using namespace lat; using vor::Body; using vor::Plane;
inline double size_of(const std::vector<V>& p) { V c{0,0,0}; for (auto& x : p) c=add(c,x,1.0/double(p.size())); double s=0; for (auto& x : p) s=std::max(s,norm(add(x,c,-1))); return s; }
// every plane through three points which has all others on one side; refuses sets in which a fourth point is ambiguously near such a plane
inline std::vector<Plane> planes(const std::vector<V>& p, double size, double on=1e-9, double off=1e-5) { std::vector<Plane> o; const size_t n=p.size();
  for (size_t i=0;i<n;++i) for (size_t j=i+1;j<n;++j) for (size_t k=j+1;k<n;++k) { V c=cross(add(p[j],p[i],-1),add(p[k],p[i],-1)); double l=norm(c); if (l<1e-12*size*size) continue; c=scale(c,1/l); bool pos=false, neg=false, amb=false; const bool thin=l<1e-3*size*size;
    for (size_t m=0;m<n;++m) { double d=dot(c,add(p[m],p[i],-1))/size; if (d>on) { pos=true; if (d<off) amb=true; } else if (d<-on) { neg=true; if (d>-off) amb=true; } if (pos&&neg) break; }
    if ((pos&&neg)||thin) continue; if (amb) throw mon::Skip("point set near a degeneracy"); if (!pos&&!neg) throw mon::Skip("flat");
    if (pos) c=scale(c,-1); double d=-1e300; for (auto& x : p) d=std::max(d,dot(c,x)); bool dup=false; for (auto& q : o) dup=dup||adiff(q.n,c)<1e-6; if (!dup) o.push_back({c,d,0}); }
  return o; }
inline Body of(const std::vector<V>& p, double off=1e-5) { double s=size_of(p); V c{0,0,0}; for (auto& x : p) c=add(c,x,1.0/double(p.size())); std::vector<V> q; for (auto& x : p) q.push_back(add(x,c,-1)); auto pl=planes(q,s,1e-9,off); if (pl.size()<4) throw mon::Skip("flat"); auto b=vor::body(pl,s,1e-8); if (b.v.size()<4||b.volume<1e-4*s*s*s) throw mon::Skip("flat");
  for (auto& x : b.v) { size_t best=0; double m=1e300; for (size_t i=0;i<q.size();++i) { double d=norm(add(x,q[i],-1)); if (d<m) { m=d; best=i; } } if (m>1e-6*s) throw mon::Skip("reference corner"); x=p[best]; } b.centroid=add(b.centroid,c); for (auto& pl_ : b.p) pl_.d+=dot(pl_.n,c); if (b.shortest<1e-4*s) throw mon::Skip("short edge"); 
  long e=0; for (auto& f : b.f) e+=long(f.size()); if (long(b.v.size())-e/2+long(b.f.size())!=2) throw mon::Skip("reference topology"); return b; }
static const char* kinds[]={"random points","points on a sphere","small integer grids","boxes, prisms and octahedra","symmetric orbits","cells of lattices","half-space bodies","tetrahedra"};
inline std::vector<V> generate(Rng& r, int kind) { std::vector<V> p; auto orbit=[&](V x){ for (int s=0;s<8;++s) { std::array<int,3> i{0,1,2}; do p.push_back({(s&1?-1:1)*x[i[0]],(s&2?-1:1)*x[i[1]],(s&4?-1:1)*x[i[2]]}); while (std::next_permutation(i.begin(),i.end())); } };
  if (kind==0) for (int n=r.integer(4,16);n>0;--n) p.push_back({r.normal(),r.normal(),r.normal()});
  else if (kind==1) for (int n=r.integer(4,20);n>0;--n) { V x{r.normal(),r.normal(),r.normal()}; p.push_back(scale(x,1/norm(x))); }
  else if (kind==2) { int m=r.integer(1,3); for (int n=r.integer(4,18);n>0;--n) p.push_back({double(r.integer(-m,m)),double(r.integer(-m,m)),double(r.integer(0,m))}); }
  else if (kind==3) { V a{r.uni(0.3,2),r.uni(0.3,2),r.uni(0.3,2)}; int t=r.integer(0,2), n=r.integer(3,8); if (t==0) for (int s=0;s<8;++s) p.push_back({s&1?a[0]:0,s&2?a[1]:0,s&4?a[2]:0}); else if (t==1) for (int k=0;k<n;++k) for (int s=0;s<2;++s) p.push_back({std::cos(2*PI*k/n),std::sin(2*PI*k/n),s*a[2]}); else for (int k=0;k<3;++k) for (int s=-1;s<2;s+=2) { V x{0,0,0}; x[k]=s*a[k]; p.push_back(x); } }
  else if (kind==4) { V x{r.uni(),r.uni(),r.uni()}; int t=r.integer(0,3); if (t==0) x={0,0,1}; else if (t==1) x[1]=x[0]; else if (t==2) x[2]=0; orbit(x); if (r.chance(0.3)) orbit({x[0]*1.1,0,0}); std::sort(p.begin(),p.end()); p.erase(std::unique(p.begin(),p.end()),p.end()); }
  else if (kind==5) { M9 B; for (auto& x : B) x=r.normal(); if (r.chance(0.5)) { B={1,0,0,0,1,0,0,0,1}; if (r.chance(0.5)) B={0,1,1,1,0,1,1,1,0}; else if (r.chance(0.5)) B={-1,1,1,1,-1,1,1,1,-1}; } if (std::abs(det(B))<0.05) throw mon::Skip("flat"); p=vor::cell(B).z.v; }
  else if (kind==6) { std::vector<Plane> pl; for (int n=r.integer(0,8);n>0;--n) { V x{r.normal(),r.normal(),r.normal()}; pl.push_back(vor::plane(scale(x,1/norm(x)),r.uni(0.3,1.2))); } for (int k=0;k<3;++k) for (int s=-1;s<2;s+=2) { V x{0,0,0}; x[k]=s; pl.push_back(vor::plane(x,1)); } p=vor::body(pl,1).v; }
  else for (int i=0;i<4;++i) p.push_back(r.chance(0.5)?V{double(r.integer(-2,2)),double(r.integer(-2,2)),double(r.integer(-2,2))}:V{r.normal(),r.normal(),r.normal()});
  return p; }
// extra points inside the hull, on its faces, on its edges
inline void fill(Rng& r, std::vector<V>& p, const Body& b, int n) { for (;n>0;--n) { auto& f=r.pick(b.f); V x{0,0,0}; int t=r.integer(0,3); if (t==0) { for (int i : f) x=add(x,b.v[i],1.0/double(f.size())); } else if (t==1) { size_t e=r.integer(0,f.size()-1); double w=r.chance(0.5)?0.5:r.uni(0.05,0.95); x=add(scale(b.v[f[e]],w),b.v[f[(e+1)%f.size()]],1-w); } else if (t==2) { V y=b.centroid; double w=r.uni(0,0.95); x=add(scale(r.pick(b.v),w),y,1-w); } else { double s=0; for (int i : f) { double w=r.uni(0.1,1); x=add(x,b.v[i],w); s+=w; } x=scale(x,1/s); } p.push_back(x); } }
// Frames: how the same Cartesian points are handed to the library and read back
struct Cart { using A=brille::bArray<double>; double K=1; std::string name="Cartesian"; A make(const std::vector<V>& p) const { return arr(p); } std::vector<V> read(const A& a) const { return vor::pts(a); } };
struct Latt { using A=brille::lattice::LVec<double>; L l; brille::LengthUnit u; double K; std::string name; 
  M9 B(brille::LengthUnit q) const { return l.to_xyz(q); }
  A make(const std::vector<V>& p) const { M9 i=inv(B(u)); std::vector<V> h; for (auto& x : p) h.push_back(mulv(i,x)); return A(u,l,arr(h)); }
  std::vector<V> read(const A& a) const { M9 b=B(a.type()); std::vector<V> o; for (brille::ind_t i=0;i<a.size(0);++i) o.push_back(mulv(b,V{a.val(i,0),a.val(i,1),a.val(i,2)})); return o; } };
inline Latt lattice(Rng& r, bool left) { M9 A; int t=r.integer(0,3); do { for (auto& x : A) x=r.normal(); if (t==0) A={1,0,0,0,1,0,0,0,1}; if (t==1) A={1,-0.5,0,0,std::sqrt(0.75),0,0,0,1.5}; double s=std::exp(r.uni(-1,3)); for (auto& x : A) x*=s; if (r.chance(0.5)) A=mul(rotation(r),A); if ((det(A)<0)!=left) for (auto& x : A) x=-x; } while (cond(A)>30); 
  bool recip=r.chance(0.6); Latt f{brille::lattice::Direct<double>(A,brille::MatrixVectors::column,std::string("P 1")), recip?brille::LengthUnit::inverse_angstrom:brille::LengthUnit::angstrom, 1, ""}; f.K=cond(A); f.name=mon::cat(recip?"reciprocal":"direct"," lattice ",show(A)); return f; }
// outward planes of faces as they are wound
inline std::vector<vor::Plane> face_planes(const std::vector<V>& v, const std::vector<std::vector<brille::ind_t>>& f) { std::vector<vor::Plane> p; V c{0,0,0}; for (auto& x : v) c=add(c,x,1.0/double(v.size())); for (auto& q : f) { V n{0,0,0}; for (size_t i=0;i<q.size();++i) n=add(n,cross(add(v[q[i]],v[q[0]],-1),add(v[q[(i+1)%q.size()]],v[q[0]],-1))); if (norm(n)==0) continue; V m{0,0,0}; for (auto i : q) m=add(m,v[i],1.0/double(q.size())); auto pl=vor::plane(n,dot(n,m)); p.push_back(pl); } return p; }
}
