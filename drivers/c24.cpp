// C24: everything which can be saved is the same when it is read again.
// Oracle: what an object shows (every stored number, its order, and its answers to questions) is recorded before it is
// saved and compared, bit for bit, with what the object read from the file shows. Files hold several objects, some of them
// replaced, and what is read is saved again.
#include "inter.hpp"
#include "atoms.hpp"
using namespace grid; using namespace inter; using mon::cat; using mon::Monitor; using mon::Rng; using mon::hash_mix; using mon::hash_dbl;
using C=std::complex<double>; using brille::ind_t; using brille::LengthUnit;
using S=std::vector<double>; // what is seen
static void put(S& s, double x) { s.push_back(x==0?0.0:x); } static void put(S& s, C x) { put(s,x.real()); put(s,x.imag()); }
template<class T, class=std::enable_if_t<std::is_integral<T>::value||std::is_enum<T>::value>> void put(S& s, T x) { s.push_back(double((long long)x)); }
template<class T, size_t N> void put(S& s, const std::array<T,N>& a) { for (auto& x : a) put(s,x); }
template<class T> void put(S& s, const std::vector<T>& a) { s.push_back(double(a.size())); for (size_t i=0;i<a.size();++i) { T x=a[i]; put(s,x); } }
template<class T> void put(S& s, const brille::Array2<T>& a) { put(s,a.size(0)); put(s,a.size(1)); for (ind_t i=0;i<a.size(0);++i) for (ind_t j=0;j<a.size(1);++j) put(s,a.val(i,j)); }
template<class T> void put(S& s, const brille::Array<T>& a) { for (auto n : a.shape()) put(s,n); for (const auto x : a.valItr()) put(s,x); }
static void put(S& s, const brille::approx_float::Config& c) { put(s,c.digit()); put(s,c.direct<double>()); put(s,c.reciprocal<double>()); }
static void put(S& s, const brille::Basis& b) { put(s,b.size()); for (auto& p : b.positions()) for (auto x : p) put(s,double(x)); put(s,b.types()); for (auto& p : b.positions()) { auto [ok,i]=b.equivalent_to(b.types()[0],p); put(s,ok); put(s,i); } }
static void put(S& s, const brille::Symmetry& y) { put(s,y.size()); put(s,y.getcentring()); for (size_t i=0;i<y.size();++i) { put(s,y.getr(i)); put(s,y.gett(i)); } put(s,y.orders()); }
static void put(S& s, const brille::PointSymmetry& y) { put(s,y.size()); for (size_t i=0;i<y.size();++i) put(s,y.get(i)); put(s,y.orders()); put(s,y.isometries()); for (size_t i=0;i<y.size();++i) try { put(s,y.get_inverse_index(i)); } catch (const std::exception&) { put(s,-80); } }
static void put(S& s, const brille::lattice::Lattice<double>& l) { for (auto u : {LengthUnit::angstrom,LengthUnit::inverse_angstrom,LengthUnit::real_lattice,LengthUnit::reciprocal_lattice}) { try { put(s,l.to_xyz(u)); } catch (const std::runtime_error&) { put(s,-77); } } for (auto u : {LengthUnit::angstrom,LengthUnit::inverse_angstrom}) { put(s,l.metric(u)); put(s,l.lengths(u)); put(s,l.angles(u)); put(s,l.volume(u)); put(s,l.vectors(u)); } put(s,l.bravais()); put(s,l.spacegroup_symmetry()); put(s,l.pointgroup_symmetry()); put(s,l.basis()); auto p=l.primitive(); put(s,p.vectors(LengthUnit::angstrom)); }
template<class T> void put(S& s, const brille::lattice::LVec<T>& v) { put(s,v.type()); put(s,v.hkl()); put(s,v.lattice()); if (v.size(0)) { put(s,v.xyz()); put(s,v.star().hkl()); } }
template<class T, template<class> class A> void put(S& s, const brille::polyhedron::Poly<T,A>& p) { put(s,p.vertices()); put(s,p.faces().faces()); if (p.face_count()) { put(s,p.volume()); put(s,p.centroid()); put(s,p.face_points()); put(s,p.face_normals()); put(s,p.edges()); put(s,p.contains(p.vertices())); } }
static void put(S& s, const brille::PermutationTable& t, size_t n) { for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) { put(s,t.has(i,j)); put(s,t.value_needed(i,j)); if (t.has(i,j)) put(s,t.safe_get(i,j)); } }
struct Ask { std::vector<V> hkl, xyz; };
static void put(S& s, const brille::BrillouinZone& z, const Ask& a) { auto lat=z.get_lattice(); put(s,lat); put(s,z.get_primitive_lattice()); put(s,z.get_polyhedron()); put(s,z.get_ir_polyhedron()); put(s,z.get_ir_wedge_normals().hkl()); put(s,z.get_pointgroup_symmetry()); put(s,z.add_time_reversal()); put(s,z.isprimitive()); put(s,z.get_normals().hkl()); put(s,z.get_points().hkl());
  brille::lattice::LVec<double> Q(LengthUnit::inverse_angstrom,lat,arr(a.hkl)); put(s,z.isinside(Q)); put(s,z.isinside_wedge(Q)); brille::lattice::LVec<double> q(LengthUnit::inverse_angstrom,lat,ind_t(a.hkl.size())); brille::lattice::LVec<int> t(LengthUnit::inverse_angstrom,lat,ind_t(a.hkl.size())); put(s,z.moveinto(Q,q,t,1)); put(s,q.hkl()); put(s,t.hkl()); std::vector<size_t> R, I; try { put(s,z.ir_moveinto(Q,q,t,R,I,1)); put(s,q.hkl()); put(s,t.hkl()); put(s,R); put(s,I); } catch (const std::runtime_error&) { put(s,-78); } }
template<class T> void put(S& s, const brille::Interpolator<T>& i) { put(s,i.data()); put(s,i.shape()); put(s,i.elements()); put(s,i.branches()); put(s,i.size()); }
template<class T, class R> void put(S& s, const brille::DualInterpolator<T,R>& d) { put(s,d.values()); put(s,d.vectors()); if (d.size()<40&&d.branches()) for (ind_t i=0;i<d.size();++i) for (ind_t j=0;j<d.size();++j) { put(s,d.get_permutation(i,j)); if (i<6&&j<6) put(s,d.cost_matrix(i,j)); } }
static std::string differ(const S& a, const S& b) { if (a.size()!=b.size()) return cat(a.size()," numbers became ",b.size()); for (size_t i=0;i<a.size();++i) if (std::memcmp(&a[i],&b[i],sizeof(double))) return cat("number ",i," of ",a.size(),": ",a[i]," became ",b[i]); return ""; }
// one entry of a file: how to judge what is read from it
using HighFive::File; using HighFive::Group;
template<class X, class=void> struct named : std::false_type {}; template<class X> struct named<X,std::void_t<decltype(X::from_hdf(std::string(),std::string()))>> : std::true_type {};
template<> struct named<brille::lattice::Lattice<double>,void> : std::false_type {};
template<class X, class=void> struct comparable : std::false_type {}; template<class X> struct comparable<X,std::void_t<decltype(std::declval<const X&>()!=std::declval<const X&>())>> : std::is_convertible<decltype(std::declval<const X&>()!=std::declval<const X&>()),bool> {};
template<class X> struct comparable<brille::Array2<X>,void> : std::false_type {}; template<class X> struct comparable<brille::lattice::LVec<X>,void> : std::false_type {}; // compared elementwise by what they show
template<class X> X read(const std::string& file, const std::string& name, bool group) { if (!group) if constexpr (named<X>::value) return X::from_hdf(file,name); File f(file,File::ReadOnly); if (group) { auto g=f.getGroup("group"); return X::from_hdf(g,name); } return X::from_hdf(f,name); }
template<class X> bool write(const X& x, const std::string& file, const std::string& name, bool group, unsigned perm) { if (!group) if constexpr (named<X>::value) return x.to_hdf(file,name,perm); File f(file,perm); if (group) { auto g=f.exist("group")?f.getGroup("group"):f.createGroup("group"); return x.to_hdf(g,name); } return x.to_hdf(f,name); }
struct Writer { Monitor& M; Rng& r; std::string file; std::map<std::pair<bool,std::string>,std::function<void()>> in;
  // save x under one of a few names, perhaps replacing what has that name, and remember how to judge it; look(s,x) shows x
  template<class X, class F> void save(const std::shared_ptr<X>& x, const std::string& kind, const std::string& id, F look, bool equal=true) { const bool group=r.chance(0.35); const std::string name=cat("entry ",r.integer(0,3)); auto key=std::make_pair(group,name); Monitor* m=&M; const std::string k=kind+":";
    M.site("look at "+kind); S before; look(before,*x); M.sample(cat(kind," ",id,", ",before.size()," numbers")); M.distinct(hash_dbl(mon::hash_str(kind+id),before.size()>1?before[before.size()/2]:0)); M.site("save "+kind); unsigned p=File::OpenOrCreate; if (!group&&r.chance(0.06)) { p=File::Truncate; if (!in.empty()) M.event("files started again"); in.clear(); } if (in.count(key)) M.event("entries replaced"); M.event("saved: "+kind);
    bool ok=write(*x,file,name,group,p); M.check(ok,k+"reported",[&]{return id;}); S after; look(after,*x); M.check(differ(before,after).empty(),k+"changed by saving",[&]{return cat(id,": ",differ(before,after));}); const std::string fn=file;
    in[key]=[=](){ auto note=cat(kind," ",id); m->note(note); m->site("read "+kind); X y=read<X>(fn,name,group); S s; m->site("look at the copy of "+kind); look(s,y); m->event("read: "+kind); m->event("numbers compared",s.size()); auto e=differ(before,s); m->check(e.empty(),k+"same",[&]{return cat(id,": ",e);}); if constexpr (comparable<X>::value) if (equal) { m->event("equality judged"); m->check(!(*x!=y),k+"equal",[&]{return id;}); }
      // what was read can be saved, and keeps what it holds when it is
      m->site("save the copy of "+kind); bool ok2=write(y,fn+" again","copy",false,unsigned(File::Truncate)); auto w=read<X>(fn+" again","copy",false); S s2, s3; look(s2,w); look(s3,y); m->event("copies of copies"); m->check(ok2&&differ(before,s2).empty(),k+"again",[&]{return cat(id,": ",differ(before,s2));}); m->check(differ(before,s3).empty(),k+"kept",[&]{return cat(id,": ",differ(before,s3));}); }; }
  void finish() { M.maximum("entries in a file",double(in.size())); for (int n=0;n<2;++n) for (auto& e : in) e.second(); M.event("files"); } };
template<class T> T any(Rng& r) { if constexpr (isc<T>::value) return T(r.normal(),r.normal()*std::pow(10,r.uni(-5,5))); else if constexpr (std::is_integral<T>::value) return T(r.integer(std::is_signed<T>::value?-1000000:0,1000000)); else return r.chance(0.05)?T(1)/T(3):r.chance(0.05)?std::numeric_limits<T>::denorm_min():r.chance(0.05)?std::numeric_limits<T>::max():T(r.normal()*std::pow(10,r.uni(-12,12))); }
template<class T> brille::Array2<T> any_array(Rng& r, std::string& id, ind_t cols=0) { ind_t n=ind_t(r.integer(0,12)), m=cols?cols:ind_t(r.integer(0,9)); brille::Array2<T> a(n,m); for (ind_t i=0;i<n;++i) for (ind_t j=0;j<m;++j) a.val(i,j)=any<T>(r); id=cat(n," by ",m," of ",typeid(T).name()); if (n>2&&r.chance(0.4)) { ind_t f=ind_t(r.integer(0,n-2)), l=ind_t(r.integer(f+1,n-1)); brille::Array2<T> v=r.chance(0.5)?a.view(f,l):brille::Array2<T>(a.extract(f)); id+=cat(" part ",f," ",l); if (v.size(1)==a.size(1)) return v; } return a; }
using LD=brille::lattice::Lattice<double>; using LV=brille::lattice::LVec<double>;
static LD any_lattice(Rng& r, std::string& id) { size_t si=size_t(r.integer(0,sym::settings().size()-1)); auto f=make(si,r,1.0,1,30); id=f.id; const std::string name(sym::settings()[si].symbol); if (r.chance(0.5)) { std::vector<sym::Op> ops(f.g.begin(),f.g.end()); auto a=atoms::make_atoms(r,si,12,ops); if (a.n()) { id+=cat(" with ",a.n()," atoms"); return brille::lattice::Direct<double>(f.c.len,f.c.ang,name,a.basis()); } } if (r.chance(0.5)) { M9 A=mul(rotation(r),f.A); id+=" turned"; return brille::lattice::Direct<double>(A,brille::MatrixVectors::column,name); } return direct(f); }
template<class T> void array(Rng& r, Writer& w) { std::string id; auto a=any_array<T>(r,id); w.save(std::make_shared<brille::Array2<T>>(a),"array",id,[](S& s, const brille::Array2<T>& x){ put(s,x); }); }
template<class T> void vectors(Rng& r, Writer& w) { std::string id, il; auto a=any_array<double>(r,id,3); brille::Array2<T> b(a.size(0),3u); for (ind_t i=0;i<a.size(0);++i) for (ind_t j=0;j<3;++j) b.val(i,j)=T(r.normal()*20); auto l=any_lattice(r,il); auto u=r.chance(0.5)?LengthUnit::angstrom:LengthUnit::inverse_angstrom; w.save(std::make_shared<brille::lattice::LVec<T>>(u,l,b),"vectors",cat(b.size(0)," of ",il),[](S& s, const brille::lattice::LVec<T>& x){ put(s,x); }); }
template<class T> void fill(Rng& r, brille::Array<T>& a) { for (auto& q : a.valItr()) q=rnd<T>(r); }
// modes for a number of points
template<class T> brille::Interpolator<T> any_interpolator(Rng& r, size_t points, size_t b, std::string& id, Layout& l) { do l=layout(r,b); while (l.b!=b); Rows<T> d(points); for (auto& x : d) for (size_t i=0;i<l.n();++i) x.push_back(rnd<T>(r)); auto a=pack(d,l); id+=l.id; brille::Interpolator<T> o(int(0),int(r.integer(0,5))); std::array<unsigned,3> e=l.e; o.replace_data(a,e,brille::RotatesLike::vector,LengthUnit::real_lattice); if (r.chance(0.7)) { int f=int(r.integer(0,5)); id+=cat(" cost ",f); o.set_cost_info(0,f,std::array<double,3>{r.uni(0,2),r.uni(0,2),r.uni(0,2)}); } return o; }
template<class T, class R> void dual(Rng& r, Writer& w) { size_t n=size_t(r.integer(2,7)), b=size_t(r.integer(1,4)); std::string id=cat(n," points "); Layout lv, lw; auto a=any_interpolator<T>(r,n,b,id,lv); auto c=any_interpolator<R>(r,n,b,id,lw); brille::PermutationTable t(n,b); if (r.chance(0.7)) { for (size_t i=0;i<n;++i) for (size_t j=0;j<n;++j) if (i!=j&&r.chance(0.5)) { std::vector<ind_t> p(b); for (size_t k=0;k<b;++k) p[k]=ind_t(k); r.shuffle(p); t.set(i,j,p); } id+=" with permutations"; }
  auto x=std::make_shared<brille::DualInterpolator<T,R>>(std::move(a),std::move(c),std::move(t)); w.save(x,"data",id,[](S& s, const brille::DualInterpolator<T,R>& d){ put(s,d); }); }
static void table(Rng& r, Writer& w) { size_t n=size_t(r.integer(1,12)), b=size_t(r.integer(1,6)); std::set<size_t> keys; if (r.chance(0.5)) for (int i=0;i<8;++i) keys.insert(size_t(r.integer(0,n*n-1))); auto t=std::make_shared<brille::PermutationTable>(n,b,keys); auto some=[&]{ std::vector<ind_t> p(b); for (size_t k=0;k<b;++k) p[k]=ind_t(k); r.shuffle(p); return p; }; for (int i=0;i<10;++i) { size_t k=size_t(r.integer(0,n-1)), j=size_t(r.integer(0,n-1)); if (keys.count(k*n+j)) t->overwrite(k,j,some()); else t->set(k,j,some()); } w.save(t,"permutations",cat(n," points ",b," modes ",keys.size()," keys"),[n](S& s, const brille::PermutationTable& x){ put(s,x,n); }); }
static Ask ask(Rng& r, const Domain& d) { Ask a; for (int i=0;i<10;++i) a.hkl.push_back(d.o.hkl(point(r,d.b,int(r.integer(0,4))))); for (int i=0;i<6;++i) a.hkl.push_back({r.normal()*2,r.normal()*2,r.normal()*2}); for (int i=0;i<10;++i) a.xyz.push_back(point(r,d.b,i<6?0:int(r.integer(1,4)))); return a; }
template<class T, class R, class G> void put(S& s, const G& g, const Ask& a, brille::approx_float::Config, bool data) { put(s,brille::BrillouinZone(g.get_brillouinzone()),a); for (auto& x : vertices(g)) put(s,x); for (auto& t : tets(g)) put(s,t); put(s,g.approx_config()); put(s,g.data()); if (!data) return; auto X=arr(a.xyz); auto [v,w]=base_interpolate(g,X,1); put(s,v); put(s,w); LV Q(LengthUnit::inverse_angstrom,brille::BrillouinZone(g.get_brillouinzone()).get_lattice(),arr(a.hkl)); try { auto [p,q]=g.ir_interpolate_at(Q,1); put(s,p); put(s,q); } catch (const std::runtime_error&) { put(s,-79); }
  // sorting gives the same, too, so all that it depends on is there
  G c(g); c.sort(); put(s,c.data()); auto [y,z]=base_interpolate(c,X,1); put(s,y); put(s,z); }
template<class T, class R> void gridded(Monitor& M, Rng& r, Writer& w) { size_t si=size_t(r.integer(0,sym::settings().size()-1)); auto d=domain(r,si,r.chance(0.85)); Kind kind=Kind(r.pick(std::vector<int>{0,0,1,1,3,3,2})); auto s=spec(r,d,kind,8); const std::string id=cat(d.id," ",show(s)); M.note(id); M.site(cat("build ",name(kind)));
  with<T,R>(r,d,s,[&](auto& g){ using G=std::decay_t<decltype(g)>; M.event(cat("grids: ",name(kind))); const size_t nv=vertices(g).size(); if (nv>400) throw mon::Skip("large grid"); const bool data=r.chance(0.85); std::string what=id; if (data) { size_t b=size_t(r.integer(1,4)); Layout lv, lw; auto frame=[&](const Layout& l){ return l.e[1]+l.e[2]&&r.chance(0.3)?LengthUnit::reciprocal_lattice:LengthUnit::real_lattice; }; auto like=[&](LengthUnit u){ return u==LengthUnit::real_lattice&&r.chance(0.3)?brille::RotatesLike::pseudovector:brille::RotatesLike::vector; };
      do lv=layout(r,b); while (lv.b!=b); do lw=layout(r,b); while (lw.b!=b); Rows<T> A(nv); Rows<R> B(nv); for (size_t i=0;i<nv;++i) { for (size_t j=0;j<lv.n();++j) A[i].push_back(rnd<T>(r)); for (size_t j=0;j<lw.n();++j) B[i].push_back(rnd<R>(r)); } auto pa=pack(A,lv); auto pb=pack(B,lw); auto u=frame(lv), q=frame(lw); g.replace_value_data(pa,lv.e,like(u),u); g.replace_vector_data(pb,lw.e,like(q),q); g.set_value_cost_info(0,int(r.integer(0,5)),std::array<double,3>{r.uni(0,2),r.uni(0,2),r.uni(0,2)}); g.set_vector_cost_info(0,int(r.integer(0,5)),std::array<double,3>{r.uni(0,2),r.uni(0,2),r.uni(0,2)}); what+=cat(" values ",lv.id," vectors ",lw.id); if (r.chance(0.5)) { g.sort(); what+=" sorted"; } }
    if constexpr (std::is_same<G,GNest<T,R>>::value) { bool refused=false; try { refused=!g.to_hdf(w.file,"entry 0",unsigned(File::OpenOrCreate)); } catch (const std::exception&) { refused=true; } M.event("nests refused"); M.check(refused,"nest:refused",[&]{return what;}); }
    else { auto a=ask(r,d); auto look=[a,data](S& s, const G& x){ put<T,R>(s,x,a,x.approx_config(),data); }; w.save(std::make_shared<G>(g),mon::cat(name(kind)),what,look); } }); }
int main(int argc, char** argv) {
  Monitor M("C24", argc, argv);
  M.run(M.thorough() ? 40000 : 900, [&](Rng& r, size_t c) {
    HighFive::shim::registry().clear(); Writer w{M,r,cat("file ",c),{}}; int n=int(r.integer(1,6)); M.eval();
    for (int i=0;i<n;++i) { try { int kind=int(r.integer(0,15)); if (i==0) kind=int(c%16); switch (kind) { case 0: array<double>(r,w); array<int>(r,w); break; case 1: array<C>(r,w); array<unsigned>(r,w); break; case 2: vectors<double>(r,w); vectors<int>(r,w); break;
        case 3: { auto x=std::make_shared<brille::approx_float::Config>(int(r.integer(1,100000)),std::pow(10,r.uni(-16,-3)),std::pow(10,r.uni(-16,-3))); w.save(x,"comparison settings",cat(x->digit()),[](S& s, const brille::approx_float::Config& y){ put(s,y); }); break; }
        case 4: { size_t si=size_t(r.integer(0,sym::settings().size()-1)); std::vector<sym::Op> ops(group_of(si).begin(),group_of(si).end()); auto a=atoms::make_atoms(r,si,24,ops); auto x=std::make_shared<brille::Basis>(r.chance(0.1)?brille::Basis():a.basis()); w.save(x,"basis",cat(x->size()," atoms"),[](S& s, const brille::Basis& y){ put(s,y); }); break; }
        case 5: case 6: { size_t si=size_t(r.integer(0,sym::settings().size()-1)); brille::Spacegroup g(int(sym::settings()[si].hall)); auto y=g.get_spacegroup_symmetry(); if (r.chance(0.3)) y=y.generators(); if (r.chance(0.3)) { auto m=y.getallm(); r.shuffle(m); y=brille::Symmetry(m); } w.save(std::make_shared<brille::Symmetry>(y),"symmetry",cat(sym::settings()[si].symbol," of ",y.size()),[](S& s, const brille::Symmetry& q){ put(s,q); }); auto p=g.get_pointgroup_symmetry(); if (r.chance(0.3)) p=p.generators(); w.save(std::make_shared<brille::PointSymmetry>(p),"point symmetry",cat(sym::settings()[si].symbol," of ",p.size()),[](S& s, const brille::PointSymmetry& q){ put(s,q); }); break; }
        case 7: case 8: { std::string id; auto l=any_lattice(r,id); w.save(std::make_shared<LD>(l),"lattice",id,[](S& s, const LD& y){ put(s,y); }); break; }
        case 9: table(r,w); break;
        case 10: dual<double,double>(r,w); dual<double,C>(r,w); dual<C,C>(r,w); break;
        case 11: case 12: { size_t si=size_t(r.integer(0,sym::settings().size()-1)); auto d=domain(r,si,r.chance(0.8)); auto a=ask(r,d); using Z=brille::BrillouinZone; M.site("polyhedron"); using P=brille::polyhedron::Poly<double,brille::lattice::LVec>; using Q=brille::polyhedron::Poly<double,brille::Array2>; w.save(std::make_shared<Z>(*d.o.z),"zone",d.id,[a](S& s, const Z& y){ put(s,y,a); }); auto ir=d.o.z->get_ir_polyhedron(); w.save(std::make_shared<P>(ir),"polyhedron",d.id,[](S& s, const P& y){ put(s,y); }); w.save(std::make_shared<Q>(ir.vertices().xyz(),ir.faces()),"Cartesian polyhedron",d.id,[](S& s, const Q& y){ put(s,y); }); w.save(std::make_shared<brille::polyhedron::Faces>(ir.faces()),"faces",d.id,[](S& s, const brille::polyhedron::Faces& y){ put(s,y.faces()); }); break; }
        default: switch (r.integer(0,2)) { case 0: gridded<double,double>(M,r,w); break; case 1: gridded<double,C>(M,r,w); break; default: gridded<C,C>(M,r,w); } } } catch (const mon::Skip&) { M.event("entries which could not be made"); } }
    w.finish(); HighFive::shim::registry().clear();
  });
}
