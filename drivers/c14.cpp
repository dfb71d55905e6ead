// C14: each kind of grid fills its zone: cells tile it, stored points lie in it, every point of it is located with weights that reproduce it.
#include "mon.hpp"
#include "grid.hpp"
using namespace mon; using namespace brille; using lat::M9; using lat::V; using lat::dot; using lat::cross; using lat::norm; using lat::add; using lat::scale; using namespace grid;
template<class G> void trellis_nodes(Monitor& M, Rng& r, const G& gc, const Domain& d, const Spec& s, const std::vector<V>& v, const std::string& id) { auto& g=const_cast<G&>(gc); const double sz=d.b.size; auto n=g.size(); auto types=g.all_node_types(); const size_t N=size_t(n[0])*n[1]*n[2];
  M.check(types.size()==N&&g.node_count()==N,"node-count",[&]{return cat(id,": ",types.size()," types of ",N);}); double sum=0; size_t judged=0; const size_t stride=std::max<size_t>(1,N/150), start=size_t(r.integer(0,stride-1)); 
  M.check(std::abs(g.total_node_volume()-d.b.volume)<1e-8*d.b.volume,"total-node-volume",[&]{return cat(id,": ",g.total_node_volume()," of ",d.b.volume);});
  for (size_t i=start;i<N;i+=stride) { std::array<ind_t,3> ijk{ind_t(i%n[0]),ind_t(i/n[0]%n[1]),ind_t(i/n[0]/n[1])}; auto box=vor::pts(get_xyz(g.subscripted_node_poly(ijk).vertices())); V lo=box[0], hi=box[0]; for (auto& x : box) for (int k=0;k<3;++k) { lo[k]=std::min(lo[k],x[k]); hi[k]=std::max(hi[k],x[k]); }
    double bv=(hi[0]-lo[0])*(hi[1]-lo[1])*(hi[2]-lo[2]); M.check(bv<=s.volume*(1+1e-9),"node-volume",[&]{return cat(id,": node of ",bv/s.volume," maximum volumes");});
    V c=scale(add(lo,hi),0.5); std::vector<vor::Plane> pl; for (auto q : d.b.p) { q.d-=dot(q.n,c); pl.push_back(q); } for (int k=0;k<3;++k) for (int e=-1;e<2;e+=2) { V q{0,0,0}; q[k]=e; pl.push_back({q,(hi[k]-lo[k])/2,0}); } vor::Body w; double ws=norm(add(hi,lo,-1))/2; w=vor::body(pl,ws,1e-10); double common=w.v.size()>3?w.volume:0; auto t=g.node_at_type(ijk);
    auto kind=t==NodeType::cube?1:t==NodeType::poly?2:0; M.event(kind==1?"cube nodes":kind==2?"polyhedron nodes":"null nodes"); ++judged;
    if (common>1e-9*bv&&kind==0) { M.fail("null-node",cat(id,": node ",i," covering ",common/bv," of itself is null")); continue; } if (common<1e-12*bv&&kind==1) { M.fail("not-null",cat(id,": node ",i," outside the zone is used")); continue; }
    M.check(kind!=1||std::abs(common-bv)<1e-9*bv,"cube-node",[&]{return cat(id,": cube node ",i," is only ",common/bv," inside");}); bool gamma=true; for (int k=0;k<3;++k) gamma=gamma&&lo[k]<-1e-9*sz&&hi[k]>1e-9*sz; M.check(!(kind==1&&(gamma||s.kind==Kind::triangulated)),"cube-with-gamma",[&]{return cat(id,": cube node ",i);});
    auto verts=kind==1?g.cube_node(ind_t(i)).vertices():kind==2?g.poly_node(ind_t(i)).vertices():std::vector<ind_t>(); double off=0; for (auto q : verts) { if (q>=v.size()) { M.fail("node-index",cat(id,": node ",i)); return; } for (int k=0;k<3;++k) off=std::max({off,lo[k]-v[q][k],v[q][k]-hi[k]}); } M.check(off<1e-9*sz,"node-vertex",[&]{return cat(id,": vertex of node ",i," outside it by ",off/sz);});
    if (kind==2) { double tv=0, least=1e300; for (auto& q : g.poly_node(ind_t(i)).vertices_per_tetrahedron()) { double x=std::abs(tet_volume(v[q[0]],v[q[1]],v[q[2]],v[q[3]])); tv+=x; least=std::min(least,x); } if (!M.check(std::abs(tv-common)<1e-9*bv+1e-8*d.o.K*common,"node-tetrahedra",[&]{return cat(id,": tetrahedra of node ",i," fill ",tv/bv," instead of ",common/bv," of it (volume ",common," bounding ",bv,")");})) continue; M.event("polyhedron nodes filled exactly"); if (gamma) M.event("nodes around gamma"); }
    if (kind==1) { std::set<std::array<long,3>> c8; for (auto q : verts) { std::array<long,3> b; bool ok=true; for (int k=0;k<3;++k) { double f=(v[q][k]-lo[k])/(hi[k]-lo[k]); b[k]=std::lround(f); ok=ok&&std::abs(f-b[k])<1e-8; } if (ok) c8.insert(b); } M.check(c8.size()==8&&verts.size()==8,"cube-corners",[&]{return cat(id,": cube node ",i);}); } }
  M.event("nodes judged",judged);
  // neighbours: all non-null nodes around
  for (int t=0;t<4;++t) { size_t i=size_t(r.integer(0,N-1)); std::array<long,3> a{long(i%n[0]),long(i/n[0]%n[1]),long(i/n[0]/n[1])}; std::set<ind_t> want; for (int x=-1;x<2;++x) for (int y=-1;y<2;++y) for (int z=-1;z<2;++z) { long p=a[0]+x,q=a[1]+y,o=a[2]+z; if ((!x&&!y&&!z)||p<0||q<0||o<0||p>=n[0]||q>=n[1]||o>=n[2]) continue; size_t k=p+n[0]*(q+n[1]*o); if (types[k]==NodeType::cube||types[k]==NodeType::poly) want.insert(ind_t(k)); } auto got=g.node_neighbours(ind_t(i)); M.check(std::set<ind_t>(got.begin(),got.end())==want&&got.size()==want.size(),"neighbours",[&]{return cat(id,": node ",i);}); } }
template<class T, class R> W weights(GTrellis<T,R>& g, const V& x) { return g.indices_weights(one(x)); }
template<class T, class R> W weights(GNest<T,R>& g, const V& x) { return g.indices_weights(one(x)); }
template<class T, class R> void extra(Monitor& M, Rng& r, const GTrellis<T,R>& g, const Domain& d, const Spec& s, const std::vector<V>& v, const std::string& id) { trellis_nodes(M,r,g,d,s,v,id); std::set<size_t> in, out; auto near=[&](const std::vector<V>& p){ for (auto& x : p) { double m=1e300; for (auto& y : v) m=std::min(m,norm(add(x,y,-1))); M.check(m==0,"inner-outer",[&]{return id;}); } }; auto i=vor::pts(g.get_inner_xyz()), o=vor::pts(g.get_outer_xyz()); near(i); near(o); std::set<V> all(i.begin(),i.end()); all.insert(o.begin(),o.end()); for (auto& x : v) if (!all.count(x)) M.event("vertices of no node"); auto ih=vor::pts(g.get_inner_hkl()); bool same=ih.size()==i.size(); for (size_t k=0;k<i.size()&&same;++k) same=norm(add(d.o.xyz(ih[k]),i[k],-1))<1e-10*d.b.size*d.o.K; M.check(same,"inner-hkl",[&]{return id;}); }
template<class T, class R> void extra(Monitor& M, Rng&, const GNest<T,R>& g, const Domain&, const Spec&, const std::vector<V>& v, const std::string& id) { M.check(vor::pts(g.get_all_xyz())==v&&g.vertex_count()==v.size(),"all-vertices",[&]{return id;}); auto l=g.vertex_is_leaf(); M.event("nest vertices used only above the leaves",std::count(l.begin(),l.end(),false)); }
template<class T, class R> void extra(Monitor&, Rng&, const GMesh<T,R>&, const Domain&, const Spec&, const std::vector<V>&, const std::string&) {}
template<class G> void judge(Monitor& M, Rng& r, G& g, const Domain& d, const Spec& s) { const double sz=d.b.size; const std::string nm=name(s.kind), k=nm+":"; auto v=vertices(g); auto h=hkl(g); auto t=tets(g); std::string id=cat(d.id," ",show(s)," ",v.size()," points ",t.size()," tetrahedra"); M.sample(id); M.event("grids: "+nm); M.event("stored points",v.size()); M.event("tetrahedra",t.size()); M.maximum("stored points",v.size());
  M.check(v.size()>=4&&h.size()==v.size(),k+"points",[&]{return id;}); double out=-1e300, conv=0; for (size_t i=0;i<v.size();++i) { out=std::max(out,d.b.outside(v[i])); conv=std::max(conv,norm(add(d.o.xyz(h[i]),v[i],-1))); } M.maximum("stored point outside (relative)",out/sz);
  M.check(out<1e-8*sz*d.o.K,k+"outside",[&]{return cat(id,": a stored point is outside by ",out/sz);}); M.check(conv<1e-11*sz*d.o.K,k+"hkl",[&]{return cat(id,": ",conv/sz);});
  for (auto& x : d.b.v) { double m=1e300; for (auto& y : v) m=std::min(m,norm(add(x,y,-1))); M.check(m<1e-8*sz*d.o.K,k+"corner",[&]{return cat(id,": corner of the zone ",m/sz," from any stored point");}); }
  if (v.size()<1500) { double m=1e300; std::vector<size_t> ord(v.size()); for (size_t i=0;i<ord.size();++i) ord[i]=i; std::sort(ord.begin(),ord.end(),[&](size_t a, size_t b){return v[a][0]<v[b][0];}); for (size_t a=0;a<ord.size();++a) for (size_t b=a+1;b<ord.size()&&v[ord[b]][0]-v[ord[a]][0]<1e-6*sz;++b) m=std::min(m,norm(add(v[ord[a]],v[ord[b]],-1))); M.check(m>1e-12*sz,k+"repeated",[&]{return cat(id,": two stored points ",m/sz," apart");}); }
  if (s.kind==Kind::trellis||s.kind==Kind::triangulated) { double m=1e300; for (auto& y : v) m=std::min(m,norm(y)); M.check(m<1e-9*sz,k+"gamma",[&]{return cat(id,": ",m/sz);}); }
  double tot=0, big=0; bool idx=true; for (auto& q : t) { for (auto i : q) idx=idx&&i<v.size(); if (!idx) break; double x=std::abs(tet_volume(v[q[0]],v[q[1]],v[q[2]],v[q[3]])); tot+=x; big=std::max(big,x); } if (!M.check(idx,k+"index",[&]{return id;})) return;
  if (s.kind!=Kind::trellis) M.check(std::abs(tot-d.b.volume)<1e-8*d.b.volume,k+"volume",[&]{return cat(id,": tetrahedra fill ",tot/d.b.volume," of the zone");}); if ((s.kind==Kind::mesh||s.kind==Kind::nest)&&big>s.volume*(1+1e-9)&&(big<6*s.volume||t.size()<40)) { M.event("tetrahedra larger than TetGen was asked for"); M.fail("tetgen:larger-than-allowed",cat(id,": a tetrahedron has ",big/s.volume," of the largest volume allowed")); } else M.check(big<=s.volume*(1+1e-9),k+"largest",[&]{return cat(id,": a tetrahedron has ",big/s.volume," of the largest volume allowed");});
  M.site(nm+" extra"); extra(M,r,g,d,s,v,id);
  // points of the zone are located
  std::vector<V> x; std::vector<int> where; auto put=[&](V p, int w){ if (w!=0) { double o=d.b.outside(p); if (o>0) p=add(p,add(p,d.b.centroid,-1),-1e-15); } x.push_back(p); where.push_back(w); }; for (int i=0;i<60;++i) { int w=int(r.integer(0,4)); if (i<25) w=0; put(point(r,d.b,w),w); } for (int i=0;i<25;++i) { int w=int(r.integer(5,8)); V p; if (w==5||t.empty()) p=r.pick(v); else { auto& q=r.pick(t); if (w==6) p=scale(add(v[q[0]],v[q[1]]),0.5); else if (w==7) { double a=r.uni(),b=r.uni(1e-12,1-a); p=add(add(scale(v[q[0]],a),v[q[2]],b),v[q[3]],1-a-b); } else { p=scale(add(add(v[q[0]],v[q[1]]),add(v[q[2]],v[q[3]])),0.25); } } if (w==7&&!t.empty()&&d.b.outside(p)>1e-14*sz) { p=r.pick(v); w=5; } put(p,w); }
  // points on the planes between nodes share coordinates with stored points
  if (s.kind==Kind::trellis||s.kind==Kind::triangulated) for (int i=0;i<30;++i) { V p=point(r,d.b,0); int n=int(r.integer(1,3)); for (int a=0;a<n;++a) { int c=int(r.integer(0,2)); p[c]=r.pick(v)[c]; } if (d.b.outside(p)<-1e-12*sz) put(p,9); }
  static const char* wn[]={"inside","on faces","near faces","on edges","at corners","at stored points","on cell edges","on cell faces","in cell centres","on node planes"};
  std::vector<W> ws; M.site(nm+" locate"); const bool all=v.size()<=350; if constexpr (std::is_base_of_v<GMesh<double,double>,G>) { if (!all) { M.event("too large for one-hot data"); return; } ws=seen(g,x,v.size()); } else { for (auto& p : x) ws.push_back(weights(g,p)); if (all&&r.chance(0.3)) { auto w2=seen(g,x,v.size()); M.event("weights seen in interpolated data"); for (size_t i=0;i<x.size();++i) { std::map<ind_t,double> a(ws[i].begin(),ws[i].end()), b(w2[i].begin(),w2[i].end()); M.check(a==b,k+"weights-used",[&]{return cat(id," ",lat::show(x[i]));}); } } }
  std::set<std::set<ind_t>> T; for (auto& q : t) T.insert(std::set<ind_t>(q.begin(),q.end()));
  for (size_t i=0;i<x.size();++i) { M.event(cat("points ",wn[where[i]])); auto& w=ws[i]; std::string at=cat(id," point ",lat::show(x[i])," ",wn[where[i]]); if (!M.check(!w.empty(),k+"not-found",[&]{return at;})) continue; double sum=0, least=1e300; V y{0,0,0}; std::set<ind_t> used; double far=0; for (auto& q : w) { sum+=q.second; least=std::min(least,q.second); y=add(y,v[q.first],q.second); used.insert(q.first); far=std::max(far,norm(add(v[q.first],x[i],-1))); }
    M.maximum("point not reproduced by (relative)",norm(add(x[i],y,-1))/sz); M.maximum("weights sum off by",std::abs(sum-1)); M.maximum("most negative weight",-least);
    M.check(std::abs(sum-1)<1e-8,k+"sum",[&]{return cat(at,": weights sum to ",sum);}); M.check(least>-1e-7,k+"negative",[&]{return cat(at,": weight ",least);}); M.check(norm(add(x[i],y,-1))<1e-8*sz*d.o.K,k+"point",[&]{return cat(at,": weights give ",lat::show(y)," off by ",norm(add(x[i],y,-1))/sz);}); M.check(used.size()==w.size(),k+"same-twice",[&]{return at;});
    if (used.size()<=4&&w.size()<=4&&s.kind!=Kind::trellis) { bool in=false; for (auto& q : T) if (std::includes(q.begin(),q.end(),used.begin(),used.end())) { in=true; break; } M.check(in,k+"one-cell",[&]{return cat(at,": the points used belong to no one tetrahedron");}); }
    if (where[i]==5) { double m=0; for (auto& q : w) if (norm(add(v[q.first],x[i],-1))<1e-12*sz) m+=q.second; M.check(std::abs(m-1)<1e-6,k+"at-stored",[&]{return cat(at,": the stored point there has weight ",m);}); } }
}
int main(int argc, char** argv) {
  Monitor M("C14", argc, argv); const size_t n=sym::settings().size();
  M.run(M.thorough() ? 40000 : 1400, [&](Rng& r, size_t c) {
    const size_t si=(c*197)%n; Kind kind=Kind(c%4); M.site("zone"); auto d=domain(r,si,r.chance(0.75)); auto s=spec(r,d,kind,kind==Kind::mesh?60:r.chance(0.1)?400:60); M.note(cat(d.id," ",show(s))); M.eval(); { uint64_t h=hash_mix(si,size_t(kind)); for (auto q : d.o.f.G) h=hash_dbl(h,q); M.distinct(hash_mix(h,s.cells)); }
    M.site(cat("build ",name(kind))); with<double,double>(r,d,s,[&](auto& g){ M.site(name(kind)); judge(M,r,g,d,s); });
  });
}
