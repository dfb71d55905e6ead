// C26: hostile inputs to public operations. The oracle is the instrumentation this driver is run under: whatever the library answers
// or refuses, it has to stay within its objects. (The drivers of all other properties are run under the same instrumentation.)
#include "mon.hpp"
#include "grid.hpp"
#include "inter.hpp"
#include "basis.hpp"
#include "hall_symbol.hpp"
#include "permutation_table.hpp"
using namespace mon; using lat::V; using grid::ind_t; using D=double;
static Monitor* MP; static const double NaN=std::numeric_limits<double>::quiet_NaN(), Inf=std::numeric_limits<double>::infinity();
template<class F> bool attempt(const char* what, F f) { MP->site(what); MP->event("operations"); try { f(); MP->event("answered"); return true; } catch (const std::exception& e) { MP->event("refused"); MP->distinct(hash_str(std::string(what)+e.what())); return false; } }
static double odd(Rng& r) { switch (r.integer(0,13)) { case 0: return NaN; case 1: return Inf; case 2: return -Inf; case 3: return 0; case 4: return -0.0; case 5: return 1e300; case 6: return -1e300; case 7: return 1e-300; case 8: return 4.9e-324; case 9: return 1e18*r.uni(-1,1); case 10: return 3e9; case 11: return -1; case 12: return r.uni(-1e6,1e6); default: return r.uni(-2,2); } }
static std::string junk(Rng& r, std::string s) { static const std::string abc="PABCIRSTFH-1234567890xyzuvnabcd'\"^*,/+-() =\t\n;:.XYZ\\{}"; int n=int(r.integer(0,6)); for (int i=0;i<n;++i) { size_t p=s.size()?size_t(r.integer(0,s.size()-1)):0; switch (r.integer(0,5)) { case 0: if (s.size()) s.erase(p,1); break; case 1: s.insert(p,1,r.chance(0.9)?abc[size_t(r.integer(0,abc.size()-1))]:char(r.integer(0,255))); break; case 2: if (s.size()) s[p]=abc[size_t(r.integer(0,abc.size()-1))]; break; case 3: s=s.substr(p); break; case 4: s=s.substr(0,p); break; default: s+=s.substr(p); } } return s; }
static void texts(Rng& r) { for (int i=0;i<12;++i) { auto& st=sym::settings()[size_t(r.integer(0,529))]; std::string h=junk(r,st.symbol), n=junk(r,st.symbol), c=r.chance(0.5)?"":junk(r,"2:b1-cab"); MP->event("texts");
    attempt("Hall symbol",[&]{ brille::HallSymbol k(h); k.validate(); (void)k.to_ascii(); if (k.validate()) (void)k.get_generators(); }); attempt("Hall number",[&]{ (void)brille::string_to_hall_number(n,c); (void)brille::string_to_hall_number(h,c); (void)brille::international_string_to_hall_number(n,c); });
    std::string t; for (int j=int(r.integer(0,4));j>=0;--j) { auto& g=lat::group_of(size_t(r.integer(0,529))); auto o=*std::next(g.begin(),r.integer(0,g.size()-1)); for (int a=0;a<3;++a) { for (int b=0;b<3;++b) if (o.r[3*a+b]) t+=std::string(o.r[3*a+b]>0?"+":"-")+"xyz"[b]; if (o.t[a]) t+=cat("+",o.t[a],"/24"); t+=a<2?",":";"; } } t=junk(r,t); attempt("operations",[&]{ brille::Symmetry s(t); (void)s.size(); for (size_t k=0;k<s.size();++k) { (void)s.getr(k); (void)s.gett(k); (void)s.getm(k); } }); attempt("operation",[&]{ brille::Motion<int,double> m(t); (void)m; brille::Motion<int,double> q(t,true); (void)q; });
    if (i%3==0) attempt("lattice by name",[&]{ auto l=brille::lattice::Direct<double>(std::array<double,3>{3.,4.,5.},std::array<double,3>{90.,90.,90.},n); (void)l.pointgroup_symmetry(); (void)l.spacegroup_symmetry(); }); attempt("setting number",[&]{ int hn=r.chance(0.5)?int(r.integer(-5,600)):int(odd(r)>0?r.integer(-2147483647,2147483647):0); brille::Spacegroup s(hn); (void)s.get_spacegroup_symmetry(); (void)s.get_pointgroup_symmetry(); }); } }
static void lattices(Rng& r) { for (int i=0;i<10;++i) { std::array<double,3> l{r.uni(1,9),r.uni(1,9),r.uni(1,9)}, a{r.uni(60,110),r.uni(60,110),r.uni(60,110)}; for (int n=int(r.integer(1,3));n>0;--n) { size_t j=size_t(r.integer(0,2)); if (r.chance(0.5)) l[j]=odd(r); else a[j]=r.chance(0.5)?odd(r):double(r.integer(-2,8))*45; } std::string name=sym::settings()[size_t(r.integer(0,529))].symbol; MP->event("lattices");
    std::vector<brille::lattice::Lattice<double>> w; attempt("lattice",[&]{ w.push_back(brille::lattice::Direct<double>(l,a,r.chance(0.5)?std::string("P 1"):name)); }); std::array<double,9> m; for (auto& x : m) x=r.chance(0.1)?odd(r):double(r.integer(-3,3)); attempt("lattice by vectors",[&]{ w.push_back(brille::lattice::Direct<double>(m,r.chance(0.5)?brille::MatrixVectors::row:brille::MatrixVectors::column,std::string("P 1"))); });
    for (auto& q : w) { attempt("lattice questions",[&]{ (void)q.volume(brille::LengthUnit::angstrom); (void)q.to_xyz(brille::LengthUnit::inverse_angstrom); (void)q.vectors(brille::LengthUnit::angstrom); (void)q.primitive(); (void)(q==q); (void)q.is_permuted(q); }); std::vector<V> x; for (int k=int(r.integer(0,5));k>0;--k) x.push_back({r.uni(-3,3),odd(r),r.uni(-3,3)}); if (x.empty()) continue; attempt("vectors of odd lattices",[&]{ brille::lattice::LVec<double> v(brille::LengthUnit::inverse_angstrom,q,lat::arr(x)); (void)v.xyz(); (void)norm(v); (void)v.star(); (void)dot(v,v); (void)cross(v,v); }); } } }
static std::vector<V> hostileQ(Rng& r, int most=9) { std::vector<V> q; for (int n=int(r.integer(0,most));n>0;--n) { V x{r.uni(-3,3),r.uni(-3,3),r.uni(-3,3)}; if (r.chance(0.4)) x[size_t(r.integer(0,2))]=odd(r); if (r.chance(0.1)) x={double(r.integer(-2000000,2000000)),0.5,-0.5}; q.push_back(x); } return q; }
static brille::bArray<double> rows(const std::vector<V>& v) { return v.empty()?brille::bArray<double>(ind_t(0),ind_t(3)):lat::arr(v); }
static void zones(Rng& r) { auto f=lat::make(size_t(r.integer(0,529)),r,0.8,2,8); auto L=lat::direct(f); brille::BrillouinZoneConfig c; c.primitive(r.chance(0.7)); c.time_reversal(r.chance(0.3)); if (r.chance(0.3)) c.wedge_search(false); if (r.chance(0.2)) c.divide_primitive(false); std::vector<brille::BrillouinZone> z; if (!attempt("zone",[&]{ z.emplace_back(L,c); })) return; MP->event("zones"); auto& b=z[0];
  for (int i=0;i<5;++i) { auto q=hostileQ(r); using LV=brille::lattice::LVec<double>; auto u=r.chance(0.85)?brille::LengthUnit::inverse_angstrom:brille::LengthUnit::angstrom; LV Q(u,L,rows(q)), t(u,L,ind_t(0)); LV p(u,L,ind_t(0)); brille::lattice::LVec<int> T(u,L,ind_t(0)); std::vector<size_t> R,I; MP->event("lists of wave vectors"); int th=1;
    if (u==brille::LengthUnit::inverse_angstrom) { attempt("moveinto",[&]{ (void)b.moveinto(Q,p,T,th); }); attempt("ir_moveinto",[&]{ (void)b.ir_moveinto(Q,p,T,R,I,th); }); attempt("ir_moveinto_wedge",[&]{ (void)b.ir_moveinto_wedge(Q,p,R,th); }); attempt("isinside",[&]{ (void)b.isinside(Q); (void)b.isinside_wedge(Q); }); } else attempt("other space",[&]{ (void)b.moveinto(Q,p,T,th); }); } }
template<class G> constexpr bool requires_lv() { return std::is_same_v<G,grid::GTrellis<double,double>>; }
template<class G> void grids(Rng& r, G& g, const grid::Domain& d) { const ind_t nv=ind_t(grid::vertices(g).size()); MP->event("grids");
  auto look=[&]{ auto q=hostileQ(r); brille::lattice::LVec<double> Q(brille::LengthUnit::inverse_angstrom,*d.o.lattice,rows(q)); attempt("look up",[&]{ (void)g.ir_interpolate_at(Q,1); }); if constexpr (requires_lv<G>()) attempt("look up in the whole zone",[&]{ (void)g.interpolate_at(Q,1); }); else if (q.size()) attempt("look up by Cartesian position",[&]{ (void)grid::base_interpolate(g,rows(q)); }); };
  look();
  for (int i=0;i<5;++i) { ind_t n=r.chance(0.6)?nv:ind_t(r.integer(0,2*nv)), m=ind_t(r.integer(1,3)), k=ind_t(r.integer(1,20)); std::array<unsigned,3> e{unsigned(r.integer(0,4)),r.chance(0.5)?unsigned(3*r.integer(0,3)):unsigned(r.integer(0,10)),r.chance(0.3)?unsigned(9*r.integer(0,2)):0u}; if (r.chance(0.5)) k=e[0]+e[1]+e[2]; if (!k) k=1; MP->event("data sets"); auto rl=r.pick(std::vector<brille::RotatesLike>{brille::RotatesLike::vector,brille::RotatesLike::pseudovector,brille::RotatesLike::Gamma}); auto lu=r.chance(0.7)?brille::LengthUnit::real_lattice:r.chance(0.5)?brille::LengthUnit::angstrom:brille::LengthUnit::reciprocal_lattice;
    bool pad=rl==brille::RotatesLike::Gamma; if (pad) rl=brille::RotatesLike::vector; // data which does not match the atoms is documented misuse
    attempt("fill",[&]{ brille::Array<double> a(brille::shape_t{n,m,k},0.5); for (auto& x : a.valItr()) x=r.chance(0.01)?odd(r):r.uni(-1,1); if (r.chance(0.5)) g.replace_value_data(a,e,rl,lu); else g.replace_vector_data(a,e,rl,lu); }); if (n==nv) { look(); attempt("sort",[&]{ std::array<double,3> w{1,1,1}; g.set_value_cost_info(int(r.integer(-2,9)),int(r.integer(-2,9)),w); g.set_vector_cost_info(int(r.integer(-2,9)),int(r.integer(-2,9)),w); g.sort(); }); look(); } } }
static void polyhedra(Rng& r) { for (int i=0;i<8;++i) { std::vector<V> p; int n=int(r.integer(0,9)), how=int(r.integer(0,5)); for (int j=0;j<n;++j) { V x; for (auto& y : x) y=how==0?r.uni(-1,1):double(r.integer(-1,1)); if (how==2) x[2]=0; if (how==3) x[1]=x[2]=x[0]; if (how==4&&r.chance(0.2)) x[size_t(r.integer(0,2))]=odd(r); if (how==5&&p.size()) x=r.pick(p); p.push_back(x); } MP->event("point sets");
    using P=brille::polyhedron::Poly<double,brille::Array2>; std::vector<P> w; attempt("hull",[&]{ w.emplace_back(rows(p)); }); std::vector<std::vector<ind_t>> f; for (int j=int(r.integer(0,6));j>0;--j) { std::vector<ind_t> q; for (int k=int(r.integer(3,6));k>0;--k) q.push_back(ind_t(r.integer(0,n>0?n-1:0))); f.push_back(q); } if (n>0&&r.chance(0.5)) attempt("faces given",[&]{ w.emplace_back(rows(p),brille::polyhedron::Faces(f)); });
    for (auto& b : w) { attempt("geometry",[&]{ (void)b.volume(); (void)b.centroid(); (void)b.circumsphere_radius(); }); attempt("face geometry",[&]{ (void)b.face_normals(); (void)b.face_points(); (void)b.edges(); (void)b.half_edges(); }); auto q=hostileQ(r); if (q.size()) attempt("contains",[&]{ (void)b.contains(rows(q)); }); attempt("mirror",[&]{ (void)b.mirror(); (void)b.centre(); }); } } }
static void bases(Rng& r) { for (int i=0;i<10;++i) { std::vector<std::array<double,3>> p; for (int n=int(r.integer(0,6));n>0;--n) p.push_back({r.uni(-1,2),r.chance(0.2)?odd(r):r.uni(),0.25*double(r.integer(-4,4))}); std::vector<ind_t> t; for (int n=int(r.chance(0.6)?p.size():r.integer(0,7));n>0;--n) t.push_back(ind_t(r.integer(0,3))); MP->event("bases"); auto& st=sym::settings()[size_t(r.integer(0,529))]; attempt("lattice with basis",[&]{ brille::Basis b(p,t); (void)b.positions(); (void)b.size(); auto l=brille::lattice::Direct<double>(std::array<double,3>{4.,4.,4.},std::array<double,3>{90.,90.,90.},std::string(st.symbol),b,r.chance(0.5)); }); } }
int main(int argc, char** argv) { Monitor M("C26",argc,argv); MP=&M;
  M.run(M.thorough()?20000:1000,[&](Rng& r, size_t c) { M.eval(); switch (c%7) { case 0: texts(r); break; case 1: lattices(r); break; case 2: zones(r); break; case 3: polyhedra(r); break; case 4: bases(r); break;
    default: { auto d=grid::domain(r,size_t(r.integer(0,529)),r.chance(0.7)); auto s=grid::spec(r,d,grid::Kind(r.integer(0,3)),20); M.note(d.id+" "+grid::show(s)); grid::with<double,double>(r,d,s,[&](auto& g){ grids(r,g,d); }); } } });
}
