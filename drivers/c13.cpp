// C13: cutting a convex polyhedron by planes keeps exactly the part on the kept side; intersections are the common points.
#include "mon.hpp"
#include "hull.hpp"
using namespace mon; using namespace brille; using namespace brille::lattice; using namespace hull;
struct Cut { Plane p; std::array<V,3> q; int kind; };
static const char* names[]={"through the inside","through a corner","through an edge","through a face (kept)","through a face (removed)","touching a corner (kept)","touching a corner (removed)","missing (kept)","missing (removed)","through three corners","bisecting"};
static Cut points(Rng& r, const Plane& p, const V& near, double sz, int kind) { V u=cross(p.n,std::abs(p.n[0])<0.7?V{1,0,0}:V{0,1,0}); u=scale(u,1/norm(u)); V w=cross(p.n,u); V o=add(near,p.n,p.d-dot(p.n,near)); double t=r.uni(0,2*PI), s=sz*r.uni(0.3,2); Cut c; c.p=p; c.kind=kind; for (int k=0;k<3;++k) { double a=t+2*PI*k/3+r.uni(-0.3,0.3); c.q[k]=add(add(o,u,s*std::cos(a)),w,s*std::sin(a)); } return c; }
static Cut make(Rng& r, const Body& b, int kind) { const double sz=b.size; V n{r.normal(),r.normal(),r.normal()}; n=scale(n,1/norm(n)); V at=b.centroid; auto corner=[&]{ return r.pick(b.v); };
  auto extent=[&](const V& n){ double lo=1e300, hi=-1e300; for (auto& x : b.v) { lo=std::min(lo,dot(n,x)); hi=std::max(hi,dot(n,x)); } return std::pair{lo,hi}; };
  if (kind==0) { auto [lo,hi]=extent(n); return points(r,{n,lo+(hi-lo)*r.uni(0.05,0.95)},at,sz,kind); }
  if (kind==1) { V x=corner(); V d=add(b.centroid,x,-1); n=cross(d,n); n=scale(n,1/norm(n)); return points(r,{n,dot(n,x)},x,sz,kind); }
  if (kind==2) { auto& f=r.pick(b.f); size_t i=r.integer(0,f.size()-1); V x=b.v[f[i]], y=b.v[f[(i+1)%f.size()]], z=add(b.centroid,{r.uni(-0.2,0.2)*sz,r.uni(-0.2,0.2)*sz,r.uni(-0.2,0.2)*sz}); n=cross(add(y,x,-1),add(z,x,-1)); if (r.chance(0.5)) n=scale(n,-1); n=scale(n,1/norm(n)); Cut c=points(r,{n,dot(n,x)},x,sz,kind); if (r.chance(0.5)) c.q={x,y,z}; if (dot(cross(add(c.q[1],c.q[0],-1),add(c.q[2],c.q[0],-1)),n)<0) std::swap(c.q[1],c.q[2]); return c; }
  if (kind==3||kind==4) { auto& p=r.pick(b.p); Plane q=p; if (kind==4) { q.n=scale(q.n,-1); q.d=-q.d; } V x=b.v[0]; double m=1e300; for (auto& y : b.v) if (std::abs(dot(p.n,y)-p.d)<m) { m=std::abs(dot(p.n,y)-p.d); x=y; } return points(r,q,x,sz,kind); }
  if (kind==5||kind==6) { auto [lo,hi]=extent(n); V x=corner(); for (auto& y : b.v) if (dot(n,y)==hi) x=y; Plane q{n,dot(n,x)}; if (kind==6) { q.n=scale(n,-1); q.d=-q.d; } return points(r,q,x,sz,kind); }
  if (kind==7||kind==8) { auto [lo,hi]=extent(n); double g=sz*std::pow(10.0,r.uni(-4,0.5)); return points(r,kind==7?Plane{n,hi+g}:Plane{n,lo-g},at,sz,kind); }
  if (kind==9) { for (int k=0;k<50;++k) { V x=corner(), y=corner(), z=corner(); V c=cross(add(y,x,-1),add(z,x,-1)); if (norm(c)<0.05*sz*sz) continue; c=scale(c,1/norm(c)); Cut q{{c,dot(c,x)},{x,y,z},9}; return q; } return make(r,b,0); }
  V x=corner(), y=corner(); if (norm(add(x,y,-1))<0.1*sz) return make(r,b,0); n=add(x,y,-1); n=scale(n,1/norm(n)); return points(r,{n,dot(n,scale(add(x,y),0.5))},at,sz,10); }
// near but not on the plane: the outcome is a matter of tolerances
static bool ambiguous(const Body& b, const Plane& p, double K) { for (auto& x : b.v) { double d=std::abs(dot(p.n,x)-p.d)/b.size; if (d>1e-11&&d<1e-5*K) return true; } return false; }
static Body common(const Body& b, const std::vector<Plane>& add_, const V& o) { std::vector<Plane> p; for (auto q : b.p) { q.d-=dot(q.n,o); p.push_back(q); } for (auto q : add_) { q.d-=dot(q.n,o); p.push_back(q); } Body c=vor::body(p,b.size,1e-9); for (auto& x : c.v) x=lat::add(x,o); for (auto& q : c.p) q.d+=dot(q.n,o); c.centroid=lat::add(c.centroid,o); return c; }
template<template<class> class A, class F> void all(Monitor& M, Rng& r, const F& f, const Body& b, const std::string& id) {
  using P=polyhedron::Poly<double,A>; const double rel=std::max(b.size,norm(b.centroid))/b.size, s3=b.size*b.size*b.size, far=b.size*rel, tolv=1e-8*f.K*rel*s3, tolx=1e-7*f.K*far; P p(f.make(b.v)); if (p.vertices().size(0)!=b.v.size()||std::abs(p.volume()-b.volume)>tolv) { M.fail("hull",cat(f.name," ",id)); return; }
  auto say=[&](const std::string& s){ return cat(f.name," ",id,": ",s); };
  auto split=[&](const std::vector<Cut>& c){ std::vector<V> x,y,z; for (auto& k : c) { x.push_back(k.q[0]); y.push_back(k.q[1]); z.push_back(k.q[2]); } return std::tuple{f.make(x),f.make(y),f.make(z)}; };
  auto judge=[&](const P& got, const Body& want, const std::string& what, const std::string& detail){ double v=got.faces().size()?got.volume():0.0; M.event("results compared");
    if (!M.check(std::abs(v-want.volume)<tolv,what+":volume",[&]{return say(cat(detail," volume ",v/s3," instead of ",want.volume/s3," (size^3)"));})) return false;
    if (want.volume<1e-6*s3) { M.event("empty or flat results"); return true; }
    if (want.shortest<1e-5*b.size*f.K) { M.event("results with tiny edges"); return true; }
    auto used=got.faces().indexes(); auto all_v=f.read(got.vertices()); std::vector<V> x; for (auto i : used) { if (i>=all_v.size()) { M.fail(what+":index",say(detail)); return false; } x.push_back(all_v[i]); }
    if (!M.check(vor::hausdorff(x,want.v)<tolx,what+":corners",[&]{return say(cat(detail," corners off by ",vor::hausdorff(x,want.v)/b.size," sizes"));})) return false;
    if (want.shortest<3e-4*b.size*f.K) { M.event("results with short edges"); return true; }
    M.check(used.size()==all_v.size(),what+":unused-corners",[&]{return say(cat(detail," ",all_v.size()-used.size()," corners belong to no face"));}); size_t distinct=0; for (size_t i=0;i<x.size();++i) { bool dup=false; for (size_t j=0;j<i&&!dup;++j) dup=norm(add(x[i],x[j],-1))<1e-8*f.K*far; distinct+=!dup; } if (distinct<x.size()) M.event("corners told apart by rounding only",x.size()-distinct);
    M.check(distinct==want.v.size()&&got.faces().size()==want.f.size(),what+":counts",[&]{return say(cat(detail," ",x.size()," corners and ",got.faces().size()," faces instead of ",want.v.size()," and ",want.f.size()));});
    try { auto E=got.edges(); M.check(long(x.size())-long(E.size(0))+long(got.faces().size())==2,what+":closed",[&]{return say(detail+" is not closed");}); } catch (const std::exception& e) { M.fail(what+":edges",say(cat(detail," ",std::string(e.what()).substr(0,80)))); }
    // each face keeps its winding
    auto pl=hull::face_planes(all_v,got.faces().faces()); bool out=true; for (auto& q : pl) out=out&&dot(q.n,want.centroid)<q.d; M.check(out,what+":winding",[&]{return say(detail+" has a face wound inwards");}); return true; };
  const int single=12; for (int t=0;t<single;++t) { int kind=int(r.integer(0,10)); Cut c=make(r,b,kind); if (ambiguous(b,c.p,f.K)) { M.event("ambiguous planes"); continue; } M.event(names[c.kind]);
    auto [x,y,z]=split({c}); Body w=common(b,{c.p},b.centroid); std::string d=cat("plane ",names[c.kind]); M.site("cut"); P g=p.cut(x,y,z); if (!judge(g,w,cat("cut ",names[c.kind]),d)) continue; 
    if (c.kind==3||c.kind==5||c.kind==7) M.check(g==p,"unchanged",[&]{return say(d+" changed the body");}); if (c.kind==4||c.kind==6||c.kind==8) M.check(g.faces().size()==0||g.volume()<tolv,"removed",[&]{return say(d+" left something");});
    M.site("one_cut"); P h=p.one_cut(x,y,z); M.check(h.faces().size()==g.faces().size()&&(h.faces().size()==0||std::abs(h.volume()-g.volume())<=1e-12*s3),"one-cut",[&]{return say(d);});
    M.site("other side"); Cut o=c; std::swap(o.q[1],o.q[2]); auto [x2,y2,z2]=split({o}); P k=p.cut(x2,y2,z2); Plane op{scale(c.p.n,-1),-c.p.d}; if (!judge(k,common(b,{op},b.centroid),cat("other side ",names[c.kind]),d+" from its other side")) continue; double va=g.faces().size()?g.volume():0, vb=k.faces().size()?k.volume():0; M.check(std::abs(va+vb-b.volume)<tolv,"additive",[&]{return say(cat(d," parts ",va/s3,'+',vb/s3," of ",b.volume/s3));}); M.event("pairs of parts");
    if (va>1e-4*s3&&vb>1e-4*s3) { M.site("combine"); P s=g.combine(k,1e-11*f.K*far,1), s2=k+g; M.event("parts put together"); M.check(std::abs(s.volume()-b.volume)<tolv&&std::abs(s2.volume()-b.volume)<tolv,"combine-volume",[&]{return say(cat(d," ",s.volume()/s3,' ',s2.volume()/s3," of ",b.volume/s3));}); auto E=f.read(s.vertices()); size_t n=0; for (auto& q : w.v) { bool found=false; for (auto& e : E) found=found||norm(add(q,e,-1))<tolx; n+=found; } M.check(n==w.v.size(),"combine-corners",[&]{return say(d);});
      M.check(s.faces().size()==g.faces().size()+k.faces().size()-2,"combine-faces",[&]{return say(cat(d,": ",s.faces().size()," faces from ",g.faces().size(),'+',k.faces().size()));}); M.site("intersects parts"); M.check(!g.intersects(k)&&!k.intersects(g),"parts-overlap",[&]{return say(d+" the two parts are said to overlap");}); M.check(g.intersects(p)&&p.intersects(g),"part-whole",[&]{return say(d+" part and whole are said not to overlap");}); }
    // cutting again changes nothing
    M.site("again"); if (g.faces().size()) { P a2=g.cut(x,y,z); M.check(std::abs(a2.volume()-g.volume())<=1e-10*f.K*rel*s3&&a2.faces().size()==g.faces().size(),"again",[&]{return say(d+" cut twice differs");}); }
    if (c.kind==0) { M.site("divide"); V ce=f.read(p.centroid())[0]; Cut q=c; for (auto& e : q.q) e=add(e,ce,-1); auto [x3,y3,z3]=split({q}); P dv=p.divide(x3,y3,z3); judge(dv,w,"divide",d+" relative to the centroid"); }
  }
  // several planes, in several orders
  { std::vector<Cut> c; int n=int(r.integer(2,7)); Body w=b; for (int k=0;k<n;++k) { Cut q=make(r,w,r.chance(0.6)?0:int(r.integer(0,10))); if (ambiguous(w,q.p,f.K)||ambiguous(b,q.p,f.K)) continue; Body nw=common(w,{q.p},b.centroid); if (nw.volume<1e-4*s3||nw.shortest<1e-4*b.size) continue; w=nw; c.push_back(q); }
    if (c.size()>1) { M.site("planes"); M.event("sets of planes"); auto [x,y,z]=split(c); P g=p.cut(x,y,z); judge(g,w,"planes",cat(c.size()," planes")); bool clear=true; std::vector<Cut> s=c; r.shuffle(s); Body m=b; for (auto& q : s) { clear=clear&&!ambiguous(m,q.p,f.K); m=common(m,{q.p},b.centroid); clear=clear&&m.shortest>1e-4*b.size; } if (clear) { auto [x2,y2,z2]=split(s); P h=p.cut(x2,y2,z2); judge(h,w,"shuffled",cat(c.size()," planes in another order")); M.event("reordered sets of planes"); P i=p; for (size_t k=0;k<s.size();++k) i=i.cut(x2.view(ind_t(k)),y2.view(ind_t(k)),z2.view(ind_t(k))); M.check(i.faces()==h.faces()&&f.read(i.vertices())==f.read(h.vertices()),"one-by-one",[&]{return say("planes one by one");}); } } }
  // another body
  for (int t=0;t<3;++t) { auto S=generate(r,int(r.integer(0,7))); if (S.size()<4) continue; Body q0; int rel_=int(r.integer(0,4)); try { q0=hull::of(S); double sc=b.size/q0.size*std::exp(r.uni(-0.7,0.7)); V at=add(b.centroid,{r.normal(),r.normal(),r.normal()},b.size*r.uni(0,0.8)); auto c0=q0.centroid; for (auto& x : S) x=add(scale(add(x,c0,-1),sc),at);
      if (rel_==0) { S=b.v; V d{r.normal(),r.normal(),r.normal()}; for (auto& x : S) x=add(x,d,0.3*b.size); } else if (rel_==1) { V d=add(b.centroid,{r.normal(),r.normal(),r.normal()},0.05*b.size); S=b.v; double k=r.uni(0.2,0.6); for (auto& x : S) x=add(b.centroid,add(x,d,-1),k); } else if (rel_==2) { V d{r.normal(),r.normal(),r.normal()}; d=scale(d,5*b.size/norm(d)); for (auto& x : S) x=add(x,d); } q0=hull::of(S); } catch (const Skip&) { continue; }
    bool amb=false; Body m=b; for (auto& k : q0.p) { amb=amb||ambiguous(m,k,f.K); m=common(m,{k},b.centroid); if (m.volume<1e-9*s3) break; amb=amb||m.shortest<1e-5*b.size*f.K; } Body m2=q0; m2.size=b.size; for (auto& k : b.p) { amb=amb||ambiguous(m2,k,f.K); m2=common(m2,{k},b.centroid); if (m2.volume<1e-9*s3) break; amb=amb||m2.shortest<1e-5*b.size*f.K; } if (amb) { M.event("ambiguous pairs"); continue; }
    static const char* rn[]={"shifted copy","inner copy","far away","another body","another body"}; Body w=common(b,q0.p,b.centroid); M.site("intersection"); M.event(cat("intersected with ",rn[rel_])); P q(f.make(q0.v)); P g=p.intersection(q), h=q.intersection(p); judge(g,w,"intersection",cat("with ",rn[rel_])); judge(h,w,"intersection",cat("of ",rn[rel_])); bool e=w.volume>1e-7*s3; if (e||rel_==2||w.volume<1e-17*s3) { M.event(e?"overlapping pairs":"separate pairs"); M.check(p.intersects(q)==e&&q.intersects(p)==e,"intersects",[&]{return say(cat("with ",rn[rel_]," overlap ",w.volume/s3,": ",p.intersects(q),q.intersects(p)));}); } }
}
int main(int argc, char** argv) {
  Monitor M("C13", argc, argv);
  M.run(M.thorough() ? 60000 : 1000, [&](Rng& r, size_t c) {
    int kind=int(c%8); auto S=generate(r,kind); if (S.size()<4) throw Skip("too few"); Body b=hull::of(S); double s=r.chance(0.5)?1.0:std::exp(r.uni(-3,4)); M9 T=r.chance(0.5)?M9{1,0,0,0,1,0,0,0,1}:rotation(r); V t{0,0,0}; if (r.chance(0.4)) { t={r.normal(),r.normal(),r.normal()}; t=scale(t,b.size*r.uni(0,2)); if (r.chance(0.3)) for (auto& x : t) x=std::round(x); }
    S=b.v; for (auto& x : S) x=scale(add(mulv(T,x),t),s); b=hull::of(S); b.size=size_of(b.v);
    std::string id=cat(kinds[kind]," corners ",b.v.size()," scale ",s," offset ",norm(t)); M.note(id); M.eval(); uint64_t h=hash_mix(b.v.size(),b.f.size()); for (auto& x : b.v) for (double q : x) h=hash_dbl(h,q); M.distinct(h); M.event(kinds[kind]); if (c%200==0) M.sample(id);
    int w=int(r.integer(0,4)); try { if (w<2) { M.event("Cartesian"); all<bArray,Cart>(M,r,Cart{},b,id); } else { auto f=hull::lattice(r,w==4); M.event(w==4?"left-handed lattices":"right-handed lattices"); all<LVec,Latt>(M,r,f,b,id); } } catch (const Skip&) { throw; } catch (const std::exception& e) { M.fail("throws",cat(id,": ",std::string(e.what()).substr(0,150))); }
  });
}
