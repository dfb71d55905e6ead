// Atoms of a crystal as orbits of special and general positions of a space group, and an elastic model of them.
#pragma once
#include "lat.hpp"
#include "basis.hpp"
#include "mon.hpp"
#include <complex>
namespace atoms {
using namespace lat; using sym::Op; using mon::Rng; using C=std::complex<double>;
using D3=std::array<double,3>;
inline D3 opmove(const Op& o, const D3& p) { D3 x; for (int i=0;i<3;++i) { long double s=o.t[i]/24.0L; for (int j=0;j<3;++j) s+=o.r[3*i+j]*(long double)p[j]; x[i]=double(s); } return x; }
inline double off(const D3& a, const D3& b) { double m=0; for (int i=0;i<3;++i) { double d=a[i]-b[i]; m=std::max(m,std::abs(d-std::round(d))); } return m; }
struct Atoms { std::vector<Op> ops; std::vector<D3> pos; std::vector<brille::ind_t> typ; size_t n() const { return pos.size(); } brille::Basis basis() const { return brille::Basis(pos,typ); }
  // the atom which the image of k falls on, and the cell it falls in
  std::pair<size_t,D3> image(const Op& o, size_t k) const { auto q=opmove(o,pos[k]); for (size_t i=0;i<n();++i) if (typ[i]==typ[k]&&off(q,pos[i])<1e-9) return {i,{std::round(q[0]-pos[i][0]),std::round(q[1]-pos[i][1]),std::round(q[2]-pos[i][2])}}; throw mon::Skip("oracle: orbit not closed"); } };
inline Atoms make_atoms(Rng& r, size_t si, size_t most, const std::vector<Op>& all) { Atoms a; a.ops=all; (void)si; int norb=int(r.integer(1,4)); std::vector<D3> pos; std::vector<brille::ind_t> typ;
  for (int k=0;k<norb*6;++k) { D3 p; int kind=int(r.integer(0,3)); for (auto& x : p) x = kind==0 ? r.integer(0,11)/12. : kind==1 ? r.integer(0,7)/8. : kind==2&&r.chance(0.5) ? r.integer(0,3)/4. : r.uni(0,1); if (kind==3&&r.chance(0.3)) { p[1]=p[0]; if (r.chance(0.4)) p[2]=p[0]; else if (r.chance(0.5)) p[2]=0; }
    std::vector<D3> o; bool good=true; for (auto& op : all) { auto q=opmove(op,p); bool seen=false; for (auto& x : o) { double d=off(q,x); if (d<1e-9) seen=true; else if (d<0.03) good=false; } if (!seen) o.push_back(q); if (o.size()>most) { good=false; break; } }
    if (!good||pos.size()+o.size()>most) continue; auto t=brille::ind_t(r.integer(0,2)); for (auto& q : o) for (auto& x : pos) if (off(q,x)<0.03) good=false; if (!good) continue; for (auto& q : o) { for (auto& x : q) { x-=std::floor(x+1e-9); if (r.chance(0.15)) x+=double(r.integer(-1,1)); } pos.push_back(q); typ.push_back(t); } if (--norb==0) break; }
  std::vector<size_t> p(pos.size()); for (size_t i=0;i<p.size();++i) p[i]=i; r.shuffle(p); for (auto i : p) { a.pos.push_back(pos[i]); a.typ.push_back(typ[i]); } return a; }
// springs between all pairs of atoms closer than a cut-off; D(q) in Cartesian coordinates, u_k(L)=e_k exp(iq.L)
struct Springs { size_t n; struct P { size_t k, l; V L; M9 f; }; std::vector<P> p; std::vector<M9> self;
  Springs(const Atoms& a, const M9& A, Rng& r) : n(a.n()), self(a.n(),M9{}) { M9 Ai=inv(A); double vol=std::abs(det(A)); double c=std::cbrt(vol)*r.uni(0.8,1.3); std::array<double,9> s; for (int i=0;i<3;++i) for (int j=i;j<3;++j) s[3*i+j]=s[3*j+i]=r.uni(0.3,2); std::array<double,9> w; for (int i=0;i<3;++i) for (int j=i;j<3;++j) w[3*i+j]=w[3*j+i]=r.uni(-0.5,0.5);
    for (size_t k=0;k<n;++k) for (size_t l=0;l<n;++l) { V d0; for (int i=0;i<3;++i) d0[i]=a.pos[l][i]-a.pos[k][i]; int lo[3], hi[3]; for (int i=0;i<3;++i) { double e=c*norm(V{Ai[3*i],Ai[3*i+1],Ai[3*i+2]}); lo[i]=int(std::ceil(-e-d0[i])); hi[i]=int(std::floor(e-d0[i])); } for (int x=lo[0];x<=hi[0];++x) for (int y=lo[1];y<=hi[1];++y) for (int z=lo[2];z<=hi[2];++z) { V L{double(x),double(y),double(z)}; V d=mulv(A,add(d0,L)); double m=norm(d); if (m>=c||m<1e-6) continue; double t=1-m*m/(c*c); double g=t*t*s[3*a.typ[k]+a.typ[l]], h=t*t*w[3*a.typ[k]+a.typ[l]]; M9 f; for (int i=0;i<3;++i) for (int j=0;j<3;++j) f[3*i+j]=-g*d[i]*d[j]/(m*m)-(i==j?h:0); p.push_back({k,l,L,f}); for (int i=0;i<9;++i) self[k][i]-=f[i]; } } if (p.size()>60000) throw mon::Skip("too many springs"); }
  // q in units of the reciprocal lattice; row-major matrix of 3x3 blocks
  std::vector<C> D(const V& q) const { std::vector<C> o(9*n*n); for (size_t k=0;k<n;++k) for (int i=0;i<9;++i) o[9*(k*n+k)+i]=self[k][i]; for (auto& x : p) { C ph=std::polar(1.0,2*M_PI*dot(q,x.L)); C* b=&o[9*(x.k*n+x.l)]; for (int i=0;i<9;++i) b[i]+=ph*x.f[i]; } return o; }
  std::vector<C> apply(const std::vector<C>& d, const std::vector<C>& e) const { std::vector<C> o(3*n); for (size_t k=0;k<n;++k) for (size_t l=0;l<n;++l) for (int i=0;i<3;++i) for (int j=0;j<3;++j) o[3*k+i]+=d[9*(k*n+l)+3*i+j]*e[3*l+j]; return o; } };
}
