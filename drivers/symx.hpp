// Conversions between the exact model and the code under test, and cells compatible with a group.
#pragma once
#include "sym.hpp"
#include "mon.hpp"
#include "spg_database.hpp"
#include "hall_symbol.hpp"
namespace sym {
inline bool conv(const brille::Motion<int,double>& m, Op& o) { o.r = m.getr(); auto t = m.gett();
  for (int i=0;i<3;++i) { double x = t[i]*D; long k = std::lround(x); if (!(std::abs(x-double(k)) < 1e-6)) return false; o.t[i] = md(int(k)); } return true; }
inline brille::Motion<int,double> back(const Op& o) { return brille::Motion<int,double>(o.r, std::array<double,3>{o.t[0]/double(D), o.t[1]/double(D), o.t[2]/double(D)}); }
inline bool conv(const brille::Symmetry& s, std::vector<Op>& v) { v.clear(); for (auto& m : s.getallm()) { Op o; if (!conv(m,o)) return false; v.push_back(o); } return true; }
inline brille::Symmetry back(const std::vector<Op>& v) { brille::Symmetry s; for (auto& o : v) s.add(back(o)); return s; }
inline brille::PointSymmetry backp(const std::vector<R9>& v) { brille::PointSymmetry s; for (auto& o : v) s.add(o); return s; }
inline std::vector<R9> convp(const brille::PointSymmetry& s) { std::vector<R9> v; for (size_t i=0;i<s.size();++i) v.push_back(s.get(i)); return v; }
template<class T> std::set<T> toset(const std::vector<T>& v) { return {v.begin(), v.end()}; }
inline std::string show(const Op& o) { std::string s="["; for (auto x : o.r) s += std::to_string(x)+" "; s += "| "; for (auto x : o.t) s += std::to_string(x)+"/24 "; return s+"]"; }
inline std::string show(const R9& o) { std::string s="["; for (auto x : o) s += std::to_string(x)+" "; return s+"]"; }
// text of an operation in one of the accepted spellings
inline std::string xyz(const Op& o, mon::Rng& r, int style=-1) {
  if (style < 0) style = int(r.integer(0,5));
  const char* n[3] = {"x","y","z"}; std::string s;
  for (int i=0;i<3;++i) { std::vector<std::string> terms; std::string tr;
    for (int j=0;j<3;++j) if (int e = o.r[3*i+j]) terms.push_back(std::string(e<0?"-":"+") + (std::abs(e)>1? std::to_string(std::abs(e)) : "") + n[j]);
    if (style==3 && terms.size()>1) std::reverse(terms.begin(), terms.end());
    if (o.t[i]) { int num=o.t[i], den=D; int g = std::__gcd(num,den); num/=g; den/=g; bool minus = style==4 && r.chance(0.5); if (minus) { num = den-num; }
      char b[64]; if (style==5) snprintf(b,64,"%s%.15g", minus?"-":"+", double(num)/den); else snprintf(b,64,"%s%d/%d", minus?"-":"+", num, den);
      tr = b; }
    if (!tr.empty()) { if (style==1 || style==4) terms.insert(terms.begin(), tr); else terms.push_back(tr); }
    std::string c; for (size_t k=0;k<terms.size();++k) { std::string w = terms[k]; if (k==0 && w[0]=='+' && !(style==3 && r.chance(0.3))) w = w.substr(1); else if (style==2 && k) w = std::string(" ")+w[0]+" "+w.substr(1); c += w; }
    s += c; if (i<2) s += (style==2||style==1) ? ", " : ","; }
  return s; }
// a positive-definite metric invariant under the group (real-space rotations W: W^T G W = G), from a random one
inline std::array<double,9> random_metric(const PGroup& g, mon::Rng& r, double spread=1.0) {
  std::array<double,9> m{};
  for (int tries=0; ; ++tries) {
    double a[9]; for (auto& x : a) x = 0.6*r.normal(); for (int i=0;i<3;++i) a[4*i] += std::exp(spread*r.uni(-0.7,0.7)); 
    std::array<double,9> q{}; for (int i=0;i<3;++i) for (int j=0;j<3;++j) for (int k=0;k<3;++k) q[3*i+j] += a[3*k+i]*a[3*k+j];
    m.fill(0);
    for (auto& w : g) for (int i=0;i<3;++i) for (int j=0;j<3;++j) for (int k=0;k<3;++k) for (int l=0;l<3;++l) m[3*i+j] += w[3*k+i]*q[3*k+l]*w[3*l+j]/double(g.size());
    double c = m[0]*(m[4]*m[8]-m[5]*m[7]) - m[1]*(m[3]*m[8]-m[5]*m[6]) + m[2]*(m[3]*m[7]-m[4]*m[6]);
    if (c > 0.02*m[0]*m[4]*m[8]) break; // reject the extremely oblique
    if (tries > 200) throw mon::Skip("no metric"); }
  // exactly symmetric
  for (int i=0;i<3;++i) for (int j=0;j<i;++j) m[3*i+j] = m[3*j+i] = 0.5*(m[3*i+j]+m[3*j+i]);
  return m; }
struct Cell { std::array<double,3> len, ang; /* degrees */ };
inline Cell cell(const std::array<double,9>& g, double scale=1) { Cell c; const double d = 180/3.14159265358979323846;
  for (int i=0;i<3;++i) c.len[i] = scale*std::sqrt(g[4*i]);
  auto an = [&](int i, int j) { double x = g[3*i+j]/std::sqrt(g[4*i]*g[4*j]); double v = std::acos(std::max(-1.0,std::min(1.0,x)))*d; for (double e : {60.,90.,120.}) if (std::abs(v-e)<1e-10) v = e; return v; };
  c.ang = {an(1,2), an(0,2), an(0,1)};
  for (int i=0;i<3;++i) for (int j=0;j<i;++j) if (std::abs(c.len[i]-c.len[j]) < 1e-12*c.len[j]) c.len[i] = c.len[j];
  return c; }
}
