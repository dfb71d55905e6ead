// Reference lattices: exact symmetry group, invariant metric, column-vector matrices in both spaces.
#pragma once
#include "symx.hpp"
#include "sg_table.hpp"
#include "utilities.hpp"
#include "array_.hpp"
#include "array_l_.hpp"
#include "lattice_dual.hpp"
namespace lat {
using mon::Rng; using sym::R9;
using M9 = std::array<double,9>; using V = std::array<double,3>; constexpr double PI = 3.14159265358979323846264338327950288;
inline M9 mul(const M9& a, const M9& b) { M9 c; for (int i=0;i<3;++i) for (int j=0;j<3;++j) { long double s=0; for (int k=0;k<3;++k) s += (long double)a[3*i+k]*b[3*k+j]; c[3*i+j]=double(s); } return c; }
inline V mulv(const M9& a, const V& b) { V c; for (int i=0;i<3;++i) { long double s=0; for (int k=0;k<3;++k) s += (long double)a[3*i+k]*b[k]; c[i]=double(s); } return c; }
inline M9 tr(const M9& a) { return {a[0],a[3],a[6],a[1],a[4],a[7],a[2],a[5],a[8]}; }
inline M9 fl(const R9& a) { M9 m; for (int i=0;i<9;++i) m[i]=a[i]; return m; }
inline double det(const M9& a) { long double x0=a[0],x1=a[1],x2=a[2],x3=a[3],x4=a[4],x5=a[5],x6=a[6],x7=a[7],x8=a[8]; return double(x0*(x4*x8-x5*x7)-x1*(x3*x8-x5*x6)+x2*(x3*x7-x4*x6)); }
inline M9 inv(const M9& a) { std::array<long double,9> x; for (int i=0;i<9;++i) x[i]=a[i]; long double d=x[0]*(x[4]*x[8]-x[5]*x[7])-x[1]*(x[3]*x[8]-x[5]*x[6])+x[2]*(x[3]*x[7]-x[4]*x[6]);
  std::array<long double,9> b{x[4]*x[8]-x[5]*x[7], x[2]*x[7]-x[1]*x[8], x[1]*x[5]-x[2]*x[4], x[5]*x[6]-x[3]*x[8], x[0]*x[8]-x[2]*x[6], x[2]*x[3]-x[0]*x[5], x[3]*x[7]-x[4]*x[6], x[1]*x[6]-x[0]*x[7], x[0]*x[4]-x[1]*x[3]};
  M9 o; for (int i=0;i<9;++i) o[i]=double(b[i]/d); return o; }
inline double dot(const V& a, const V& b) { return double((long double)a[0]*b[0]+(long double)a[1]*b[1]+(long double)a[2]*b[2]); }
inline V cross(const V& a, const V& b) { return {a[1]*b[2]-a[2]*b[1], a[2]*b[0]-a[0]*b[2], a[0]*b[1]-a[1]*b[0]}; }
inline double norm(const V& a) { return std::sqrt(dot(a,a)); }
inline V col(const M9& a, int j) { return {a[j],a[3+j],a[6+j]}; }
inline V add(const V& a, const V& b, double s=1) { return {a[0]+s*b[0],a[1]+s*b[1],a[2]+s*b[2]}; }
inline V scale(const V& a, double s) { return {s*a[0],s*a[1],s*a[2]}; }
inline double amax(const M9& a) { double m=0; for (auto x : a) m=std::max(m,std::abs(x)); return m; }
inline double adiff(const M9& a, const M9& b) { double m=0; for (int i=0;i<9;++i) m=std::max(m,std::abs(a[i]-b[i])); return m; } 
inline double adiff(const V& a, const V& b) { double m=0; for (int i=0;i<3;++i) m=std::max(m,std::abs(a[i]-b[i])); return m; }
inline std::string show(const M9& a) { std::string s="["; for (auto x : a) { char b[32]; snprintf(b,32,"%.12g ",x); s+=b; } return s+"]"; }
inline std::string show(const V& a) { std::string s="("; for (auto x : a) { char b[32]; snprintf(b,32,"%.15g ",x); s+=b; } return s+")"; }
inline M9 rotation(Rng& r) { double q[4]; double n=0; do { n=0; for (auto& x : q) { x=r.normal(); n+=x*x; } } while (n<1e-3); n=std::sqrt(n); for (auto& x : q) x/=n; double w=q[0],x=q[1],y=q[2],z=q[3];
  return {1-2*(y*y+z*z),2*(x*y-z*w),2*(x*z+y*w), 2*(x*y+z*w),1-2*(x*x+z*z),2*(y*z-x*w), 2*(x*z-y*w),2*(y*z+x*w),1-2*(x*x+y*y)}; }
// standard orientations: upper triangular, of which column i spans the first axes
inline M9 upper(const M9& g) { M9 u{}; u[0]=std::sqrt(g[0]); u[1]=g[1]/u[0]; u[2]=g[2]/u[0]; u[4]=std::sqrt(g[4]-u[1]*u[1]); u[5]=(g[5]-u[1]*u[2])/u[4]; u[8]=std::sqrt(g[8]-u[2]*u[2]-u[5]*u[5]); return u; }
inline M9 dual(const M9& a) { auto b=tr(inv(a)); for (auto& x : b) x*=2*PI; return b; }
inline double cond(const M9& a) { return amax(a)*amax(inv(a))*3; }
struct Ref { size_t si; sym::Group g; sym::PGroup pg; M9 G, A, B; sym::Cell c, cs; std::string id; };
inline const sym::Group& group_of(size_t i) { static std::vector<sym::Group> C(sym::settings().size()); if (C[i].empty()) C[i]=sym::hall_group(sym::settings()[i].symbol); return C[i]; }
// a reference lattice for the setting; "nice" picks rational-looking parameters and cells with more symmetry than needed
inline Ref make(size_t si, Rng& r, double spread=1.0, double lo=0.5, double hi=30) {
  Ref f; f.si=si; f.g=group_of(si); f.pg=sym::rotations(f.g); M9 G;
  sym::PGroup use=f.pg; int special=int(r.integer(0,5));
  if (special==0) { // extra symmetry: a cubic or hexagonal metric if compatible
    G = {1,0,0,0,1,0,0,0,1}; bool ok=true; for (auto& w : f.pg) { auto m=mul(mul(tr(fl(w)),G),fl(w)); ok=ok&&adiff(m,G)<1e-9; } if (!ok) { G={1,-0.5,0,-0.5,1,0,0,0,1.7}; ok=true; for (auto& w : f.pg) { auto m=mul(mul(tr(fl(w)),G),fl(w)); ok=ok&&adiff(m,G)<1e-9; } } if (!ok) G=sym::random_metric(f.pg,r,spread); }
  else G=sym::random_metric(f.pg,r,spread);
  if (special==1) { // round to a few digits, keeping the exact relations
    std::map<double,double> m; for (auto& x : G) x=std::round(x*64)/64; for (auto& w : f.pg) { auto q=mul(mul(tr(fl(w)),G),fl(w)); if (adiff(q,G)>1e-9) { G=sym::random_metric(f.pg,r,spread); break; } } if (det(G)<=1e-3*G[0]*G[4]*G[8]) G=sym::random_metric(f.pg,r,spread); }
  double s=std::exp(r.uni(std::log(lo),std::log(hi)))/std::cbrt(std::sqrt(det(G))); for (auto& x : G) x*=s*s;
  f.c=sym::cell(G);
  // recompute the metric from the cell so that both agree to the last bit available
  const double d=PI/180; auto cosd=[&](double a){ return a==90?0.0:a==60?0.5:a==120?-0.5:std::cos(a*d); };
  auto& L=f.c.len; auto& A=f.c.ang; f.G={L[0]*L[0],L[0]*L[1]*cosd(A[2]),L[0]*L[2]*cosd(A[1]), 0,L[1]*L[1],L[1]*L[2]*cosd(A[0]), 0,0,L[2]*L[2]}; f.G[3]=f.G[1]; f.G[6]=f.G[2]; f.G[7]=f.G[5];
  f.A=upper(f.G); f.B=dual(f.A); f.cs=sym::cell(mul(tr(f.B),f.B));
  f.id=mon::cat("setting ",sym::settings()[si].hall," ",sym::settings()[si].symbol," cell ",show(V(f.c.len))," ",show(V(f.c.ang))); return f; }
using L = brille::lattice::Lattice<double>;
inline L direct(const Ref& f) { return brille::lattice::Direct<double>(f.c.len, f.c.ang, std::string(sym::settings()[f.si].symbol)); }
inline V at(const brille::bArray<double>& a, brille::ind_t i) { return {a.val(i,0),a.val(i,1),a.val(i,2)}; }
inline brille::bArray<double> arr(const std::vector<V>& v) { std::vector<std::array<double,3>> w(v.begin(),v.end()); return brille::bArray<double>::from_std(w); }
}
