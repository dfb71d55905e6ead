// C12: polyhedra built from points are their convex hull and report their own geometry correctly, in any frame.
#include "mon.hpp"
#include "hull.hpp"
using namespace mon; using namespace brille; using namespace brille::lattice; using namespace hull;
using Topo = std::set<std::vector<int>>;      // faces as cycles starting from their smallest corner
static std::vector<int> cycle(std::vector<int> f) { std::rotate(f.begin(),std::min_element(f.begin(),f.end()),f.end()); return f; }
template<class F> struct Case { using A=typename F::A; using P=polyhedron::Poly<double,LVec>; };
template<class F, template<class> class A> void examine(Monitor& M, Rng& r, const F& f, const std::vector<V>& S, const Body& b, const std::string& id, const polyhedron::Poly<double,A>& p, const std::string& how) {
  const double sz=b.size, far=std::max(sz,norm(b.centroid)), tol=1e-9*f.K*far; auto v=f.read(p.vertices()); auto faces=p.faces().faces();
  auto say=[&](const std::string& s){ return cat(how," ",f.name," ",id,": ",s); };
  if (!M.check(v.size()==b.v.size(),"corner-count",[&]{return say(cat(v.size()," corners instead of ",b.v.size()));})) return;
  std::vector<int> to(v.size(),-1); for (size_t i=0;i<v.size();++i) for (size_t j=0;j<b.v.size();++j) if (norm(add(v[i],b.v[j],-1))<std::max(tol,1e-9*sz)) to[i]=int(j); bool good=true; for (int t : to) good=good&&t>=0; if (!M.check(good&&std::set<int>(to.begin(),to.end()).size()==v.size(),"corners",[&]{return say("corners are not those of the hull");})) return;
  Topo want, got; for (auto& q : b.f) want.insert(cycle(q)); for (auto& q : faces) { std::vector<int> k; for (auto i : q) { if (i>=v.size()) { M.fail("face-index",say("index out of range")); return; } k.push_back(to[i]); } got.insert(cycle(k)); }
  if (!M.check(got==want&&faces.size()==b.f.size(),"faces",[&]{ Topo rev; for (auto q : b.f) { std::reverse(q.begin(),q.end()); rev.insert(cycle(q)); } return say(got==rev?"faces are wound inwards":cat(faces.size()," faces, ",b.f.size()," expected, ",want.size(),'/',got.size()));})) return;
  M.event("faces of hulls compared",faces.size()); M.maximum("faces of one hull",double(faces.size())); M.maximum("corners of one hull",double(v.size()));
  // map of library faces to reference planes
  std::vector<const Plane*> pl; for (auto& q : faces) { std::vector<int> k; for (auto i : q) k.push_back(to[i]); k=cycle(k); for (size_t i=0;i<b.f.size();++i) if (cycle(b.f[i])==k) pl.push_back(&b.p[i]); }
  std::set<std::pair<int,int>> we, ge; for (auto& q : b.f) for (size_t i=0;i<q.size();++i) we.insert(std::minmax(q[i],q[(i+1)%q.size()]));
  auto E=p.edges(); for (ind_t i=0;i<E.size(0);++i) { int x=int(E.val(i,0)), y=int(E.val(i,1)); if (x>=int(to.size())||y>=int(to.size())) { M.fail("edges",say("edge index out of range")); return; } ge.insert(std::minmax(to[x],to[y])); } M.check(we==ge&&E.size(0)==we.size(),"edges",[&]{return say(cat(E.size(0)," edges, ",we.size()," expected"));});
  auto H=f.read(p.half_edges()); bool hok=H.size()==E.size(0); for (size_t i=0;i<H.size()&&hok;++i) hok=norm(add(scale(add(v[E.val(i,0)],v[E.val(i,1)]),0.5),H[i],-1))<tol; M.check(hok,"half-edges",[&]{return say("edge centres");});
  auto N=f.read(p.face_normals()), C=f.read(p.face_points()); bool nok=N.size()==faces.size(), cok=C.size()==faces.size(); for (size_t i=0;i<faces.size();++i) { if (nok) nok=norm(N[i])>0&&norm(add(scale(N[i],1/norm(N[i])),pl[i]->n,-1))<1e-6*f.K; V m{0,0,0}; for (auto k : faces[i]) m=add(m,v[k],1.0/double(faces[i].size())); if (cok) cok=norm(add(m,C[i],-1))<tol; } M.check(nok,"face-normals",[&]{return say("a face normal does not point outwards");}); M.check(cok,"face-points",[&]{return say("a face point is not the mean of its corners");});
  auto [pa,pb,pc]=p.planes(); auto a=f.read(pa), bb=f.read(pb), c=f.read(pc); bool pok=a.size()==faces.size()&&bb.size()==a.size()&&c.size()==a.size(); for (size_t i=0;i<faces.size()&&pok;++i) { V n=cross(add(bb[i],a[i],-1),add(c[i],a[i],-1)); pok=norm(n)>0; if (f.K>1&&pok) n=scale(n,1/norm(n)); else if (pok) n=scale(n,1/norm(n)); if (pok) pok=std::min(norm(add(n,pl[i]->n,-1)),norm(add(n,pl[i]->n,1)))<1e-6*f.K&&std::abs(dot(pl[i]->n,a[i])-pl[i]->d)<tol*10&&std::abs(dot(pl[i]->n,bb[i])-pl[i]->d)<tol*10&&std::abs(dot(pl[i]->n,c[i])-pl[i]->d)<tol*10&&dot(n,pl[i]->n)>0; } M.check(pok,"planes",[&]{return say("a reported plane is not a face plane");});
  auto per=p.faces_per_vertex(); bool vok=per.size()==v.size(); if (vok) for (size_t i=0;i<v.size();++i) { std::set<ind_t> x(per[i].begin(),per[i].end()), y; for (size_t k=0;k<faces.size();++k) for (auto q : faces[k]) if (q==i) y.insert(ind_t(k)); vok=vok&&x==y&&per[i].size()==x.size(); } M.check(vok,"faces-per-vertex",[&]{return say("the lists of faces at a corner");});
  const double rel=far/sz; M.check(std::abs(p.volume()-b.volume)<=1e-9*f.K*rel*b.volume*(sz*sz*sz/b.volume),"volume",[&]{return say(cat("volume ",p.volume()," instead of ",b.volume));});
  auto ce=f.read(p.centroid()); M.check(ce.size()==1&&norm(add(ce[0],b.centroid,-1))<1e-8*f.K*rel*rel*rel*sz*(sz*sz*sz/b.volume),"centroid",[&]{return say(cat("centroid ",show(ce[0])," instead of ",show(b.centroid)));});
  double R=0; for (auto& x : b.v) R=std::max(R,norm(add(x,b.centroid,-1))); M.check(std::abs(p.circumsphere_radius()-R)<1e-7*f.K*rel*rel*rel*sz*(sz*sz*sz/b.volume),"radius",[&]{return say(cat("radius ",p.circumsphere_radius()," instead of ",R));});
  // membership
  std::vector<V> X; std::vector<int> in; for (int i=0;i<40;++i) { V d{r.normal(),r.normal(),r.normal()}; V x=add(b.centroid,d,sz*r.uni(0,0.8)); double o=b.outside(x); if (std::abs(o)<1e-6*f.K*far) continue; X.push_back(x); in.push_back(o<0); }
  for (int i=0;i<20;++i) { auto& q=r.pick(b.f); V x{0,0,0}; double s=0; for (int k : q) { double w=r.uni(); x=add(x,b.v[k],w); s+=w; } x=scale(x,1/s); double e=r.pick(std::vector<double>{-1e-2,1e-2,-1e-5,1e-5})*f.K*far; x=add(x,add(x,b.centroid,-1),e/sz); double o=b.outside(x); if (std::abs(o)<1e-7*f.K*far) continue; X.push_back(x); in.push_back(o<0); }
  for (auto& x : b.v) for (double e : {1e-4,-1e-4}) { V y=add(x,add(x,b.centroid,-1),e*f.K*rel); if (std::abs(b.outside(y))<1e-6*f.K*far) continue; X.push_back(y); in.push_back(e<0); }
  auto got_in=p.contains(f.make(X)); bool iok=got_in.size()==X.size(); std::string bad; if (iok) for (size_t i=0;i<X.size();++i) { M.event(in[i]?"points inside classified":"points outside classified"); if (bool(got_in[i])!=bool(in[i])&&bad.empty()) { iok=false; bad=cat(show(X[i])," is ",in[i]?"inside":"outside"," by ",b.outside(X[i])); } } M.check(iok,"contains",[&]{return say(bad);});
  // the points it was made from
  std::vector<V> near; bool exact=f.K==1; for (auto& x : b.v) for (double q : x) exact=exact&&q*64==std::round(q*64); if (exact) M.event("corners with exact coordinates",b.v.size()); for (auto& x : b.v) near.push_back(exact?x:add(x,add(b.centroid,x,-1),1e-11*f.K*rel)); auto own=p.contains(f.make(near)); M.event("own corners classified",own.size()); bool ook=std::count(own.begin(),own.end(),true)==long(own.size()); M.check(ook,"own-corners",[&]{return say("a corner is reported outside");});
  // random interior points
  if (r.chance(0.3)) { unsigned seed=unsigned(r.integer(1,100000)); ind_t n=ind_t(r.integer(1,60)); auto x=f.read(p.rand_rejection(n,seed)), y=f.read(p.rand_rejection(n,seed)); M.check(x.size()==n&&x==y,"random-repeat",[&]{return say("the same seed gave other points");}); bool ok=true; V lo{0,0,0}; for (auto& q : x) { ok=ok&&b.outside(q)<1e-7*f.K*far; lo=add(lo,q,1.0/double(n)); } M.event("random interior points",n); M.check(ok,"random-inside",[&]{return say("a random point is outside");});
    if (n>=40) M.check(norm(add(lo,b.centroid,-1))<6*sz/std::sqrt(double(n)),"random-mean",[&]{return say("random points avoid part of the body");}); std::set<std::vector<double>> d; for (auto& q : x) d.insert({q[0],q[1],q[2]}); M.check(d.size()==x.size(),"random-distinct",[&]{return say("random points repeat");}); }
  // planes of its faces are recognised, others are not
  { size_t k=r.integer(0,faces.size()-1); auto A_=pa.view(k), B_=pb.view(k), C_=pc.view(k); M.check(p.face_index(A_,B_,C_)==k&&p.has_face(A_,B_,C_),"face-index-own",[&]{return say(cat("face ",k," reported as ",p.face_index(A_,B_,C_)));}); M.check(!p.has_face(A_,C_,B_),"face-index-opposite",[&]{return say("the reversed plane counts as a face");});
    V s=scale(add(b.centroid,pl[k]->n,0),1); double depth=pl[k]->d-dot(pl[k]->n,s); std::vector<V> in3{add(a[k],pl[k]->n,-depth*0.5),add(bb[k],pl[k]->n,-depth*0.5),add(c[k],pl[k]->n,-depth*0.5)}; auto W=f.make(in3); M.check(!p.has_face(W.view(0),W.view(1),W.view(2)),"face-index-inner",[&]{return say("a plane through the inside counts as a face");}); M.check(!p.none_beyond(W.view(0),W.view(1),W.view(2)),"none-beyond-inner",[&]{return say("a plane through the inside keeps nothing");}); M.check(!p.none_beyond(A_,B_,C_),"none-beyond-face",[&]{return say("a face plane keeps nothing");});
    std::vector<V> out3{add(a[k],pl[k]->n,depth),add(c[k],pl[k]->n,depth),add(bb[k],pl[k]->n,depth)}; W=f.make(out3); M.check(p.none_beyond(W.view(0),W.view(1),W.view(2)),"none-beyond-outer",[&]{return say("a plane with the body behind it keeps something");}); M.check(!p.none_beyond(W.view(0),W.view(2),W.view(1)),"none-beyond-outer-kept",[&]{return say("a plane with the body in front of it keeps nothing");}); }
}
static Body moved(Body b, const M9& T, const V& t) { bool flip=det(T)<0; for (auto& x : b.v) x=add(mulv(T,x),t); b.centroid=add(mulv(T,b.centroid),t); if (flip) for (auto& f : b.f) std::reverse(f.begin(),f.end()); for (auto& p : b.p) { p.n=mulv(T,p.n); p.d+=dot(p.n,t); } return b; }
template<class F> constexpr bool is_lat = std::is_same_v<F,Latt>;
template<template<class> class A, class F> void all(Monitor& M, Rng& r, const F& f, const std::vector<V>& S, const Body& b, const std::string& id) {
  using P=polyhedron::Poly<double,A>; using fs=std::vector<std::vector<ind_t>>; const M9 E{1,0,0,0,1,0,0,0,1}, mE{-1,0,0,0,-1,0,0,0,-1}; const double rel=std::max(b.size,norm(b.centroid))/b.size;
  M.site("hull"); P p(f.make(S)); examine<F,A>(M,r,f,S,b,id,p,"hull"); if (p.vertices().size(0)!=b.v.size()||p.faces().size()!=b.f.size()) return;
  // order and repetition of the points
  M.site("order"); { auto s=S; r.shuffle(s); P q(f.make(s)); M.event("reordered hulls"); examine<F,A>(M,r,f,s,b,id,q,"reordered"); M.check(p==q&&q==p&&!(p!=q),"order",[&]{return cat(f.name," ",id,": not equal after reordering the points");}); }
  M.site("again"); { P q=p.convex_hull(); M.check(q==p&&q.faces().size()==b.f.size(),"idempotent",[&]{return cat(f.name," ",id,": hull of the hull differs");}); P z(p), w; w=p; M.check(z==p&&w==p,"copy",[&]{return id;}); }
  M.site("mirror"); { P q=p.mirror(); examine<F,A>(M,r,f,S,moved(b,mE,{0,0,0}),id,q,"mirrored"); M.event("mirrored"); examine<F,A>(M,r,f,S,b,id,q.mirror(),"mirrored twice"); }
  M.site("centre"); { P q=p.centre(); auto d=scale(b.centroid,-1); auto bc=moved(b,E,d); bc.centroid={0,0,0}; auto v=f.read(q.vertices()); double m=vor::hausdorff(v,bc.v); M.check(m<1e-7*f.K*b.size*std::pow(rel,3)*(std::pow(b.size,3)/b.volume),"centre",[&]{return cat(f.name," ",id,": off by ",m);}); M.check(q.faces()==p.faces(),"centre-faces",[&]{return id;}); }
  if constexpr (is_lat<F>) { M.site("translate"); V t{r.normal(),r.normal(),r.normal()}; t=scale(t,b.size*r.uni(0,3)); auto q=p.translate(f.make({t})); examine<F,A>(M,r,f,S,moved(b,E,t),id,q,"translated"); M.event("translated"); }
  // scrambled faces handed over together with the corners
  M.site("verified"); { auto v=b.v; fs q; for (auto& k : b.f) q.push_back({k.begin(),k.end()}); std::vector<size_t> perm(v.size()); std::iota(perm.begin(),perm.end(),0); r.shuffle(perm); for (size_t i=0;i<v.size();++i) v[perm[i]]=b.v[i]; for (auto& k : q) { for (auto& i : k) i=ind_t(perm[i]); std::rotate(k.begin(),k.begin()+r.integer(0,k.size()-1),k.end()); } r.shuffle(q); P w(f.make(v),q); M.event("built from corners and faces"); examine<F,A>(M,r,f,v,b,id,w,"from faces"); M.check(w==p,"from-faces-equal",[&]{return cat(f.name," ",id);}); }
  // a different body is not equal
  { auto s=b.v; size_t k=r.integer(0,s.size()-1); s[k]=add(s[k],add(s[k],b.centroid,-1),0.1); P q(f.make(s)); M.check(p!=q&&!(p==q),"distinguish",[&]{return cat(f.name," ",id,": a moved corner makes no difference");}); }
  // bounding boxes
  M.site("box"); { auto bx=polyhedron::bounding_box(f.make(S)); auto v=f.read(bx.vertices()); V lo{1e300,1e300,1e300}, hi{-1e300,-1e300,-1e300}; for (auto& x : S) for (int i=0;i<3;++i) { lo[i]=std::min(lo[i],x[i]); hi[i]=std::max(hi[i],x[i]); } std::vector<V> w; for (int k=0;k<8;++k) w.push_back({k&1?hi[0]:lo[0],k&2?hi[1]:lo[1],k&4?hi[2]:lo[2]}); M.check(v.size()==8&&vor::hausdorff(v,w)<1e-9*f.K*rel*b.size,"bounding-box",[&]{return cat(f.name," ",id);});
    double vol=1; for (int i=0;i<3;++i) vol*=hi[i]-lo[i]; M.check(std::abs(bx.volume()-vol)<1e-8*f.K*rel*std::pow(b.size,3),"bounding-volume",[&]{return cat(f.name," ",id," ",bx.volume()," ",vol);}); M.event("bounding boxes"); std::vector<V> near; V mid=scale(add(lo,hi),0.5); for (auto& x : b.v) near.push_back(add(x,add(mid,x,-1),1e-11*f.K*rel)); auto c=bx.contains(f.make(near)); M.check(std::count(c.begin(),c.end(),true)==long(c.size()),"bounding-contains",[&]{return cat(f.name," ",id);}); }
}
int main(int argc, char** argv) {
  Monitor M("C12", argc, argv);
  M.run(M.thorough() ? 60000 : 1120, [&](Rng& r, size_t c) {
    int kind=int(c%8); auto S=generate(r,kind); if (S.size()<4) throw Skip("too few"); Body b=hull::of(S);
    int extra=r.chance(0.5)?r.integer(1,6):0; fill(r,S,b,extra); bool dup=r.chance(0.25); if (dup) for (int n=r.integer(1,4);n>0;--n) { V x=r.pick(S); S.push_back(x); } if (r.chance(0.3)) r.shuffle(S);
    double s=r.chance(0.5)?1.0:std::exp(r.uni(-5,5)); M9 T=r.chance(0.5)?M9{1,0,0,0,1,0,0,0,1}:rotation(r); V t{0,0,0}; if (r.chance(0.5)) { t={r.normal(),r.normal(),r.normal()}; t=scale(t,b.size*r.uni(0,5)); if (r.chance(0.3)) for (auto& x : t) x=std::round(x); }
    for (auto& x : S) x=scale(add(mulv(T,x),t),s); b=hull::of(S);
    std::string id=cat(kinds[kind]," n ",S.size()," extra ",extra," repeated ",dup," scale ",s," offset ",norm(t)/b.size); M.note(id); M.eval(); M.event(kinds[kind]); if (extra) M.event("with points which are not corners"); if (dup) M.event("with repeated points"); uint64_t h=hash_mix(b.v.size(),b.f.size()); std::vector<size_t> ns; for (auto& f : b.f) ns.push_back(f.size()); std::sort(ns.begin(),ns.end()); for (auto n : ns) h=hash_mix(h,n); M.distinct(h); if (c%200==0) M.sample(id);
    int w=int(r.integer(0,4)); try { if (w<2) { M.event("Cartesian"); all<bArray,Cart>(M,r,Cart{},S,b,id); } else { auto f=hull::lattice(r,w==4); M.event(w==4?"left-handed lattices":"right-handed lattices"); all<LVec,Latt>(M,r,f,S,b,id); } } catch (const Skip&) { throw; } catch (const std::exception& e) { M.fail("throws",cat(id,": ",std::string(e.what()).substr(0,150))); }
    if (c%3==0) try { M.site("symmetry"); auto ref=lat::make(size_t(r.integer(0,529)),r,0.7,1,20); auto l=lat::direct(ref); bool recip=r.chance(0.5); Latt f{l,recip?LengthUnit::inverse_angstrom:LengthUnit::angstrom,lat::cond(ref.A),ref.id}; if (f.K>40) return; using P=polyhedron::Poly<double,LVec>; P p(f.make(S)); auto ps=l.pointgroup_symmetry(); size_t i=r.integer(0,ps.size()-1); auto w=lat::fl(ps.get(i)); if (recip) w=lat::tr(w); M9 B=f.B(f.u), T=lat::mul(lat::mul(B,w),lat::inv(B)); auto q=p.apply(ps,ind_t(i)); M.event("turned by point operations"); examine<Latt,LVec>(M,r,f,S,moved(b,T,{0,0,0}),id,q,cat("turned det ",lat::det(T))); } catch (const Skip&) { throw; } catch (const std::exception& e) { M.fail("throws-apply",cat(id,": ",std::string(e.what()).substr(0,150))); }
  });
}
