// Exact model of crystallographic operations, independent of the code under test:
// integer rotation, translation in units of 1/24 modulo a lattice vector.
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
namespace sym {
constexpr int D = 24;
using R9 = std::array<int,9>;
using V3 = std::array<int,3>;
struct Op { R9 r{1,0,0,0,1,0,0,0,1}; V3 t{0,0,0};
  bool operator<(const Op& o) const { return r != o.r ? r < o.r : t < o.t; }
  bool operator==(const Op& o) const { return r == o.r && t == o.t; } };
inline int md(int x) { x %= D; return x < 0 ? x + D : x; }
inline R9 mul(const R9& a, const R9& b) { R9 c{}; for (int i=0;i<3;++i) for (int j=0;j<3;++j) for (int k=0;k<3;++k) c[3*i+j] += a[3*i+k]*b[3*k+j]; return c; }
inline V3 mulv(const R9& a, const V3& v) { V3 c{}; for (int i=0;i<3;++i) for (int k=0;k<3;++k) c[i] += a[3*i+k]*v[k]; return c; }
inline R9 neg(R9 a) { for (auto& x : a) x = -x; return a; }
inline R9 tr(const R9& a) { return {a[0],a[3],a[6],a[1],a[4],a[7],a[2],a[5],a[8]}; }
inline int det(const R9& a) { return a[0]*(a[4]*a[8]-a[5]*a[7]) - a[1]*(a[3]*a[8]-a[5]*a[6]) + a[2]*(a[3]*a[7]-a[4]*a[6]); }
inline int trace(const R9& a) { return a[0]+a[4]+a[8]; }
inline R9 adj(const R9& a) { return {a[4]*a[8]-a[5]*a[7], a[2]*a[7]-a[1]*a[8], a[1]*a[5]-a[2]*a[4], a[5]*a[6]-a[3]*a[8], a[0]*a[8]-a[2]*a[6], a[2]*a[3]-a[0]*a[5], a[3]*a[7]-a[4]*a[6], a[1]*a[6]-a[0]*a[7], a[0]*a[4]-a[1]*a[3]}; }
inline R9 inv(const R9& a) { int d = det(a); if (d != 1 && d != -1) throw std::runtime_error("not unimodular"); R9 b = adj(a); for (auto& x : b) x *= d; return b; }
const R9 E9{1,0,0,0,1,0,0,0,1};
inline Op operator*(const Op& a, const Op& b) { Op c; c.r = mul(a.r,b.r); V3 v = mulv(a.r,b.t); for (int i=0;i<3;++i) c.t[i] = md(v[i]+a.t[i]); return c; }
inline Op inv(const Op& a) { Op c; c.r = inv(a.r); V3 v = mulv(c.r,a.t); for (int i=0;i<3;++i) c.t[i] = md(-v[i]); return c; }
using Group = std::set<Op>;
using PGroup = std::set<R9>;
// smallest closed set holding the generators; empty when it would exceed most
inline Group closure(const std::vector<Op>& gen, size_t most=2000) {
  Group g{Op{}}; std::vector<Op> todo{Op{}};
  while (!todo.empty()) { Op x = todo.back(); todo.pop_back();
    for (const auto& s : gen) { Op y = s * x; if (g.insert(y).second) { if (g.size() > most) return {}; todo.push_back(y); } } }
  return g; }
inline PGroup pclosure(const std::vector<R9>& gen, size_t most=200) {
  PGroup g{E9}; std::vector<R9> todo{E9};
  while (!todo.empty()) { R9 x = todo.back(); todo.pop_back();
    for (const auto& s : gen) { R9 y = mul(s,x); if (g.insert(y).second) { if (g.size() > most) return {}; todo.push_back(y); } } }
  return g; }
inline PGroup rotations(const Group& g) { PGroup p; for (auto& o : g) p.insert(o.r); return p; }
inline size_t centrings(const Group& g) { size_t n=0; for (auto& o : g) n += o.r == E9; return n; }
// order of a rotation matrix (0: none up to 12)
inline int order(const R9& r) { R9 x = r; for (int n=1; n<=12; ++n) { if (x == E9) return n; x = mul(x,r); } return 0; }
inline int order(const Op& o, int most=48) { Op x = o; for (int n=1; n<=most; ++n) { if (x == Op{}) return n; x = x*o; } return 0; }
// crystallographic type of a finite-order rotation: 1 2 3 4 6 or -1 -2 -3 -4 -6
inline int isometry(const R9& r) { int d = det(r); int t = d*trace(r); int n = t==3?1 : t==-1?2 : t==0?3 : t==1?4 : t==2?6 : 0; return d*n; }

// ---- Hall symbols (Hall 1981, International Tables B 1.4): independent decoder -------------------------------------
inline R9 axis_rot(int n, char ax, char pre) {
  R9 m{};
  auto cyc = [&](R9 z) { // z-axis matrix moved to ax by cyclic permutation
    int s = ax=='x' ? 1 : ax=='y' ? 2 : 0; R9 o = z;
    for (int i=0;i<s;++i) { R9 q; for (int a=0;a<3;++a) for (int b=0;b<3;++b) q[3*((a+1)%3)+(b+1)%3] = o[3*a+b]; o = q; }
    return o; };
  switch (n) {
    case 1: return E9;
    case 2:
      if (ax=='\'' || ax=='"') { // in-plane diagonal two-folds of the preceding axis
        int s = ax=='\'' ? -1 : 1; char keep = ax; ax = pre; R9 z{0,s,0, s,0,0, 0,0,-1}; m = cyc(z); ax = keep; return m; }
      return cyc({-1,0,0, 0,-1,0, 0,0,1});
    case 3: if (ax=='*') return {0,0,1, 1,0,0, 0,1,0}; return cyc({0,-1,0, 1,-1,0, 0,0,1});
    case 4: return cyc({0,-1,0, 1,0,0, 0,0,1});
    case 6: return cyc({1,-1,0, 1,0,0, 0,0,1});
  }
  throw std::runtime_error("bad Hall rotation"); }
struct Seitz { int n=0; bool neg=false; char ax=0; std::string tr; };
struct Hall { bool neg=false; char lat=0; std::vector<Seitz> ops; V3 shift{0,0,0}; };
inline Hall parse_hall(const std::string& s) {
  Hall h; size_t i = 0; auto sp = [&]{ while (i<s.size() && s[i]==' ') ++i; };
  sp(); if (s[i]=='-') { h.neg = true; ++i; } h.lat = s.at(i++);
  while (true) { sp(); if (i>=s.size()) break;
    if (s[i]=='(') { ++i; for (int k=0;k<3;++k) { sp(); int g=1; if (s[i]=='-') { g=-1; ++i; } int v=0; while (isdigit(s.at(i))) v = 10*v + (s[i++]-'0'); h.shift[k] = g*v*(D/12); } sp(); if (s.at(i)!=')') throw std::runtime_error("bad shift"); ++i; continue; }
    Seitz z; if (s[i]=='-') { z.neg = true; ++i; } z.n = s.at(i++)-'0';
    while (i<s.size() && s[i]!=' ' && s[i]!='(') { char c = s[i++]; if (std::string("xyz'\"*").find(c)!=std::string::npos) z.ax = c; else z.tr += c; }
    h.ops.push_back(z); }
  return h; }
inline std::vector<Op> lattice_ops(char l) {
  const int h=D/2, t=D/3, d=2*D/3; std::vector<V3> v{{0,0,0}};
  switch (l) { case 'P': break; case 'A': v.push_back({0,h,h}); break; case 'B': v.push_back({h,0,h}); break; case 'C': v.push_back({h,h,0}); break;
    case 'I': v.push_back({h,h,h}); break; case 'R': v.push_back({d,t,t}); v.push_back({t,d,d}); break; case 'F': v.push_back({0,h,h}); v.push_back({h,0,h}); v.push_back({h,h,0}); break;
    default: throw std::runtime_error("bad lattice letter"); }
  std::vector<Op> o; for (auto& x : v) o.push_back(Op{E9,x}); return o; }
inline std::vector<Op> hall_ops(const Hall& h) {
  std::vector<Op> g = lattice_ops(h.lat); if (h.neg) g.push_back(Op{neg(E9),{0,0,0}});
  char pax = 0; int pn = 0;
  for (size_t k=0; k<h.ops.size(); ++k) { const auto& z = h.ops[k]; char ax = z.ax, ref = pax;
    if (!ax) { if (k==0) ax = 'z'; else if (z.n==2 && (pn==2||pn==4)) ax = 'x'; else if (z.n==2 && (pn==3||pn==6)) { ax = '\''; ref = 'z'; } else if (z.n==3) ax = '*'; else ax = 'z'; }
    Op o; o.r = axis_rot(z.n, ax, ref); if (z.neg) o.r = neg(o.r);
    V3 a{0,0,0};
    switch (ax) { case 'x': a={1,0,0}; break; case 'y': a={0,1,0}; break; case 'z': a={0,0,1}; break; case '*': a={1,1,1}; break;
      default: { int s = ax=='\'' ? -1 : 1; a = ref=='x' ? V3{0,1,s} : ref=='y' ? V3{1,0,s} : V3{1,s,0}; } }
    for (char c : z.tr) { V3 u{0,0,0}; int hf=D/2, q=D/4;
      switch (c) { case 'a': u={hf,0,0}; break; case 'b': u={0,hf,0}; break; case 'c': u={0,0,hf}; break; case 'n': u={hf,hf,hf}; break;
        case 'u': u={q,0,0}; break; case 'v': u={0,q,0}; break; case 'w': u={0,0,q}; break; case 'd': u={q,q,q}; break;
        default: { int m = c-'0'; if (m<1||m>5) throw std::runtime_error("bad translation"); for (int i=0;i<3;++i) u[i] = a[i]*m*D/z.n; } }
      for (int i=0;i<3;++i) o.t[i] += u[i]; }
    for (auto& x : o.t) x = md(x);
    g.push_back(o); pax = ax; pn = z.n; }
  // origin shift v: every operation becomes V op V^-1
  if (h.shift != V3{0,0,0}) { Op v{E9,h.shift}, w{E9,{-h.shift[0],-h.shift[1],-h.shift[2]}}; for (auto& o : g) o = v*(o*w); }
  return g; }
inline Group hall_group(const std::string& s) { return closure(hall_ops(parse_hall(s))); }

// rotations of a translation-free symbol
struct Setting { int hall, number; const char *symbol, *full, *shrt, *it, *choice; char bravais; int pg; const char* schoenflies; };
// isometry-count table of the 32 crystal classes: {-6,-4,-3,-2,-1,1,2,3,4,6}
struct Klass { std::array<int,10> n; const char *symbol, *schoenflies, *holohedry, *laue; };
inline const std::vector<Klass>& classes() { static const std::vector<Klass> k{
  {{0,0,0,0,0,1,0,0,0,0},"1","C1","triclinic","1"},{{0,0,0,0,1,1,0,0,0,0},"-1","Ci","triclinic","1"},
  {{0,0,0,0,0,1,1,0,0,0},"2","C2","monoclinic","2m"},{{0,0,0,1,0,1,0,0,0,0},"m","Cs","monoclinic","2m"},{{0,0,0,1,1,1,1,0,0,0},"2/m","C2h","monoclinic","2m"},
  {{0,0,0,0,0,1,3,0,0,0},"222","D2","orthogonal","mmm"},{{0,0,0,2,0,1,1,0,0,0},"mm2","C2v","orthogonal","mmm"},{{0,0,0,3,1,1,3,0,0,0},"mmm","D2h","orthogonal","mmm"},
  {{0,0,0,0,0,1,1,0,2,0},"4","C4","tetragonal","4m"},{{0,2,0,0,0,1,1,0,0,0},"-4","S4","tetragonal","4m"},{{0,2,0,1,1,1,1,0,2,0},"4/m","C4h","tetragonal","4m"},
  {{0,0,0,0,0,1,5,0,2,0},"422","D4","tetragonal","4mmm"},{{0,0,0,4,0,1,1,0,2,0},"4mm","C4v","tetragonal","4mmm"},{{0,2,0,2,0,1,3,0,0,0},"-42m","D2d","tetragonal","4mmm"},{{0,2,0,5,1,1,5,0,2,0},"4/mmm","D4h","tetragonal","4mmm"},
  {{0,0,0,0,0,1,0,2,0,0},"3","C3","trigonal","3"},{{0,0,2,0,1,1,0,2,0,0},"-3","C3i","trigonal","3"},{{0,0,0,0,0,1,3,2,0,0},"32","D3","trigonal","3m"},{{0,0,0,3,0,1,0,2,0,0},"3m","C3v","trigonal","3m"},{{0,0,2,3,1,1,3,2,0,0},"-3m","D3d","trigonal","3m"},
  {{0,0,0,0,0,1,1,2,0,2},"6","C6","hexagonal","6m"},{{2,0,0,1,0,1,0,2,0,0},"-6","C3h","hexagonal","6m"},{{2,0,2,1,1,1,1,2,0,2},"6/m","C6h","hexagonal","6m"},{{0,0,0,0,0,1,7,2,0,2},"622","D6","hexagonal","6mmm"},{{0,0,0,6,0,1,1,2,0,2},"6mm","C6v","hexagonal","6mmm"},{{2,0,0,4,0,1,3,2,0,0},"-6m2","D3h","hexagonal","6mmm"},{{2,0,2,7,1,1,7,2,0,2},"6/mmm","D6h","hexagonal","6mmm"},
  {{0,0,0,0,0,1,3,8,0,0},"23","T","cubic","m3"},{{0,0,8,1+2,1,1,3,8,0,0},"m-3","Th","cubic","m3"},{{0,0,0,0,0,1,9,8,6,0},"432","O","cubic","m3m"},{{0,6,0,6,0,1,3,8,0,0},"-43m","Td","cubic","m3m"},{{0,6,8,9,1,1,9,8,6,0},"m-3m","Oh","cubic","m3m"}};
  return k; }
inline int classify(const PGroup& g) { std::array<int,10> n{}; const int v[10]{-6,-4,-3,-2,-1,1,2,3,4,6};
  for (auto& r : g) { int s = isometry(r); int k=-1; for (int i=0;i<10;++i) if (v[i]==s) k=i; if (k<0) return 0; ++n[k]; }
  for (size_t i=0;i<classes().size();++i) if (classes()[i].n==n) return int(i)+1;
  return 0; }
}
