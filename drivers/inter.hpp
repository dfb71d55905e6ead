// Shared by the interpolation drivers: data layouts, packing and comparison.
#pragma once
#include "mon.hpp"
#include "grid.hpp"
namespace inter {
using namespace grid; using mon::Rng; using mon::cat;
template<class T> struct isc : std::false_type {}; template<class T> struct isc<std::complex<T>> : std::true_type {};
template<class T> T rnd(Rng& r) { if constexpr (isc<T>::value) return T(r.normal(),r.normal()); else return T(r.normal()); }
// shape of the data for one point, the elements of a mode and how many numbers each mode has
struct Layout { std::vector<ind_t> tail; std::array<unsigned,3> e; size_t b, s; std::string id; size_t n() const { return b*s; } };
inline Layout layout(Rng& r, size_t b) { Layout l; l.b=b; int k=int(r.integer(0,4)); if (b==1&&r.chance(0.15)) k=5;
  switch (k) { case 0: { unsigned s=unsigned(r.integer(1,3)); l.tail={ind_t(b*s)}; l.e={s,0,0}; break; }
    case 1: { l.e={unsigned(r.integer(0,3)),3*unsigned(r.integer(0,2)),9*unsigned(r.integer(0,1))}; if (l.e[0]+l.e[1]+l.e[2]==0) l.e[0]=1; l.tail={ind_t(b),ind_t(l.e[0]+l.e[1]+l.e[2])}; break; }
    case 2: { unsigned v=unsigned(r.integer(1,3)); l.tail={ind_t(b),v,3}; l.e={0,3*v,0}; break; }
    case 3: { unsigned m=unsigned(r.integer(1,2)); l.tail={ind_t(b),m,3,3}; l.e={0,0,9*m}; break; }
    case 4: { l.e={0,3*unsigned(r.integer(1,3)),0}; l.tail={ind_t(b),ind_t(l.e[1])}; break; }
    default: l.tail={}; l.e={1,0,0}; }
  l.s=l.e[0]+l.e[1]+l.e[2]; l.id="{"; for (auto t : l.tail) l.id+=cat(t," "); l.id+=cat("of ",l.e[0],"+",l.e[1],"+",l.e[2],"}"); return l; }
template<class T> using Rows=std::vector<std::vector<T>>;
template<class T> brille::Array<T> pack(const Rows<T>& d, const Layout& l) { brille::shape_t s{ind_t(d.size())}; for (auto t : l.tail) s.push_back(t); brille::Array<T> a(s,T(0)); size_t k=0; for (auto& q : a.valItr()) { q=d[k/l.n()][k%l.n()]; ++k; } return a; }
template<class T> Rows<T> unpack(const brille::Array<T>& a, size_t n, bool& ok, const Layout& l) { auto sh=a.shape(); std::vector<ind_t> want{ind_t(n)}; for (auto t : l.tail) want.push_back(t); ok=ok&&std::vector<ind_t>(sh.begin(),sh.end())==want; Rows<T> o(n); brille::Array<T> b(a); size_t k=0, tot=1; for (auto q : sh) tot*=q; if (!n) return o; size_t m=tot/n; for (auto& q : b.valItr()) o[std::min(n-1,k/m)].push_back(q),++k; return o; }
template<class T> double diff(const std::vector<T>& a, const std::vector<T>& b) { if (a.size()!=b.size()) return 1e300; double m=0; for (size_t i=0;i<a.size();++i) { double d=std::abs(a[i]-b[i]); if (!(d<=m)) m=d; } return m; }
template<class T> double size(const std::vector<T>& a) { double m=0; for (auto& q : a) m=std::max(m,double(std::abs(q))); return m; }
template<class T> double size(const Rows<T>& a) { double m=0; for (auto& q : a) m=std::max(m,size(q)); return m; }
}
