// Independent convex geometry in Cartesian doubles: bodies from half-spaces, Wigner-Seitz cells from Selling reduction.
#pragma once
#include "lat.hpp"
namespace vor {
using lat::M9; using lat::V; using lat::dot; using lat::cross; using lat::norm; using lat::add; using lat::scale;
struct Plane { V n; double d; int tag=-1; };                  // n·x <= d, n of unit length
inline Plane plane(const V& n, double d, int tag=-1) { double l=norm(n); return {scale(n,1/l), d/l, tag}; }
struct Body { std::vector<V> v; std::vector<std::vector<int>> f; std::vector<Plane> p; double volume=0, area=0, size=0, shortest=0; V centroid{0,0,0};
  // largest signed distance outside any of the face planes
  double outside(const V& x) const { double m=-1e300; for (auto& q : p) m=std::max(m,dot(q.n,x)-q.d); return m; } };
inline double spread(const std::vector<V>& v) { double m=0; for (auto& x : v) m=std::max(m,norm(x)); return m; }
// the body common to all half-spaces; it must be bounded. tol is relative to the size given
inline Body body(const std::vector<Plane>& in, double size, double tol=1e-9) {
  Body b; b.size=size; const double e=tol*size; std::vector<Plane> pl; for (auto& q : in) { bool dup=false; for (auto& o : pl) if (lat::adiff(o.n,q.n)<1e-9) { dup=true; if (q.d<o.d) o=q; } if (!dup) pl.push_back(q); }
  const size_t m=pl.size();
  for (size_t i=0;i<m;++i) for (size_t j=i+1;j<m;++j) { V c=cross(pl[i].n,pl[j].n); if (norm(c)<1e-7) continue; for (size_t k=j+1;k<m;++k) { double D=dot(c,pl[k].n); if (std::abs(D)<1e-7) continue;
    V x=scale(add(add(scale(cross(pl[j].n,pl[k].n),pl[i].d),scale(cross(pl[k].n,pl[i].n),pl[j].d)),scale(c,pl[k].d)),1/D);
    bool in_=true; for (size_t l=0;l<m&&in_;++l) in_=dot(pl[l].n,x)-pl[l].d<=e; if (!in_) continue;
    bool dup=false; for (auto& y : b.v) if (norm(add(x,y,-1))<4*e) { dup=true; break; } if (!dup) b.v.push_back(x); } }
  V o{0,0,0}; for (auto& x : b.v) o=add(o,x,1.0/double(b.v.size()));
  b.shortest=1e300; for (size_t i=0;i<b.v.size();++i) for (size_t j=0;j<i;++j) b.shortest=std::min(b.shortest,norm(add(b.v[i],b.v[j],-1)));
  for (auto& q : pl) { std::vector<int> f; for (size_t i=0;i<b.v.size();++i) if (std::abs(dot(q.n,b.v[i])-q.d)<4*e) f.push_back(int(i)); if (f.size()<3) continue;
    V c{0,0,0}; for (int i : f) c=add(c,b.v[i],1.0/double(f.size())); V u=add(b.v[f[0]],c,-1); double lu=norm(u); for (int i : f) { V w=add(b.v[i],c,-1); if (norm(w)>lu) { u=w; lu=norm(w); } } u=scale(u,1/lu); V w=cross(q.n,u);
    std::vector<std::pair<double,int>> a; for (int i : f) { V d=add(b.v[i],c,-1); a.push_back({std::atan2(dot(d,w),dot(d,u)),i}); } std::sort(a.begin(),a.end()); for (size_t i=0;i<f.size();++i) f[i]=a[i].second;
    double ar=0; for (size_t i=0;i<f.size();++i) { V x=add(b.v[f[i]],c,-1), y=add(b.v[f[(i+1)%f.size()]],c,-1); double t=dot(cross(x,y),q.n)/2; ar+=t; V xo=add(b.v[f[i]],o,-1), yo=add(b.v[f[(i+1)%f.size()]],o,-1), co=add(c,o,-1); double v=dot(co,cross(xo,yo))/6; b.volume+=v; b.centroid=add(b.centroid,add(add(xo,yo),co),v/4); }
    if (ar<e*size) continue; b.area+=ar; b.f.push_back(f); b.p.push_back(q); }
  if (b.volume>0) b.centroid=add(scale(b.centroid,1/b.volume),o); else b.centroid=o;
  return b; }
// vectors which can bound the Wigner-Seitz cell of the lattice spanned by the columns of B: sums over proper subsets of an obtuse superbase
struct Cell { M9 B; std::vector<V> tau; std::vector<std::array<long,3>> hkl; Body z; 
  double outside(const V& x) const { double m=-1e300; for (auto& t : tau) { double l=norm(t); m=std::max(m,dot(t,x)/l-l/2); } return m; } };
inline Cell cell(const M9& B, double tol=1e-9) { Cell c; c.B=B; std::array<std::array<long,3>,4> h{{{1,0,0},{0,1,0},{0,0,1},{-1,-1,-1}}};
  auto vec=[&](const std::array<long,3>& k){ V x; for (int i=0;i<3;++i) x[i]=double((long double)B[3*i]*k[0]+(long double)B[3*i+1]*k[1]+(long double)B[3*i+2]*k[2]); return x; };
  for (int it=0;;++it) { if (it>100000) throw mon::Skip("Selling reduction"); bool done=true; for (int i=0;i<4&&done;++i) for (int j=i+1;j<4&&done;++j) { V a=vec(h[i]), b=vec(h[j]); if (dot(a,b)>1e-13*norm(a)*norm(b)) { done=false; for (int k=0;k<4;++k) if (k!=i&&k!=j) for (int d=0;d<3;++d) h[k][d]+=h[i][d]; for (int d=0;d<3;++d) h[i][d]=-h[i][d]; } } if (done) break; }
  for (int s=1;s<15;++s) { std::array<long,3> k{0,0,0}; for (int b=0;b<4;++b) if (s>>b&1) for (int d=0;d<3;++d) k[d]+=h[b][d]; c.hkl.push_back(k); c.tau.push_back(vec(k)); }
  std::vector<Plane> p; double sz=0; for (size_t i=0;i<c.tau.size();++i) { double l=norm(c.tau[i]); p.push_back({scale(c.tau[i],1/l),l/2,int(i)}); } for (auto& t : c.tau) sz=std::max(sz,norm(t)/2);
  c.z=body(p,sz,tol); return c; }
// reciprocal-lattice points allowed by the centring translations of a group, as the columns of an integer matrix
inline bool allowed(const std::vector<sym::V3>& t, int h, int k, int l) { for (auto& x : t) if ((x[0]*h+x[1]*k+x[2]*l)%sym::D) return false; return true; }
inline std::vector<sym::V3> centring(const sym::Group& g) { std::vector<sym::V3> t; for (auto& o : g) if (o.r==sym::E9) t.push_back({o.t[0],o.t[1],o.t[2]}); return t; }
inline M9 primitive_hkl(const std::vector<sym::V3>& t) { int a[3]{0,0,0}, b[3]{0,0,0}, c[3]{0,0,0}; for (c[2]=1;!allowed(t,0,0,c[2]);++c[2]); 
  for (b[1]=1;;++b[1]) { for (b[2]=0;b[2]<c[2];++b[2]) if (allowed(t,0,b[1],b[2])) goto k; } k:
  for (a[0]=1;;++a[0]) { for (a[1]=0;a[1]<b[1];++a[1]) for (a[2]=0;a[2]<c[2];++a[2]) if (allowed(t,a[0],a[1],a[2])) goto l; } l:
  return {double(a[0]),double(b[0]),double(c[0]),double(a[1]),double(b[1]),double(c[1]),double(a[2]),double(b[2]),double(c[2])}; }
// Hausdorff distance between two sets of points
inline double hausdorff(const std::vector<V>& a, const std::vector<V>& b) { double m=0; auto one=[&](auto& p, auto& q){ for (auto& x : p) { double d=1e300; for (auto& y : q) d=std::min(d,norm(add(x,y,-1))); m=std::max(m,d); } }; one(a,b); one(b,a); return m; }
inline std::vector<V> pts(const brille::bArray<double>& a) { std::vector<V> v; for (brille::ind_t i=0;i<a.size(0);++i) v.push_back(lat::at(a,i)); return v; }
}
