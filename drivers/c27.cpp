// C27: pieces of a grid which are made separately are put together without losing, duplicating or confusing vertices.
// Oracle: each vertex of each piece is recorded with the position it had when it was added; after any number of pieces have
// been combined, in any grouping and with any number of threads, the index recorded for it must lead to that position.
#include "mon.hpp"
#include "lat.hpp"
#include "vertex_map_set.h"
#include "vertex_map_knit.h"
#include "vertex_index_map.h"
#include <omp.h>
using namespace mon; using lat::V; using brille::ind_t; using brille::VertexIndexMap; using brille::AddVertexType; using brille::MapVertexType;
template<class A> A make(const std::vector<V>& p, const A*);
template<template<class> class A> struct Judge { using Set=brille::VertexMapSet<double,A>; using Pair=std::pair<Set,VertexIndexMap>; Monitor& M; Rng& r; std::string id, k; std::function<A<double>(const std::vector<V>&)> points;
  static std::vector<V> rows(const A<double>& a) { std::vector<V> o; for (ind_t i=0;i<a.size(0);++i) o.push_back({a.val(i,0),a.val(i,1),a.val(i,2)}); return o; }
  using Expect=std::map<ind_t,std::vector<V>>; // position of each vertex of each node
  double scale=1; bool same(const V& a, const V& b) const { return lat::norm(lat::add(a,b,-1))<1e-9*scale; }
  // what a set with its map shows
  std::vector<double> show(const Pair& p) const { std::vector<double> s; for (auto& x : rows(p.first.pristine())) s.insert(s.end(),x.begin(),x.end()); if (p.first.appended_count()) for (auto& x : rows(p.first.appended())) s.insert(s.end(),x.begin(),x.end()); for (auto& x : p.first.preserved()) { s.push_back(x.first); s.push_back(x.second); } for (auto& n : p.second.data()) { s.push_back(n.first); for (auto& x : n.second) { s.push_back(double(x.first)); s.push_back(x.second); } } return s; }
  // every vertex is where it was, is there once, and nothing else is there
  void holds(const Pair& p, const Expect& e, const std::vector<V>& used, const std::string& how) { auto v=rows(p.first.consolidate().pristine()); const ind_t off=p.first.preserved_count(); std::vector<char> hit(v.size(),0); M.event("pairs judged"); bool ok=p.second.size()==e.size(); M.check(ok,k+"nodes",[&]{return cat(id," ",how,": ",p.second.size()," of ",e.size());});
    for (auto& n : e) { if (!M.check(p.second.has(n.first),k+"node",[&]{return cat(id," ",how," node ",n.first);})) continue; auto all=p.second.decode(off,n.first); if (!M.check(all.size()==n.second.size(),k+"vertices of node",[&]{return cat(id," ",how," node ",n.first);})) continue; for (size_t j=0;j<all.size();++j) { M.event("vertices judged"); bool in=all[j]<v.size(); M.check(in&&same(v[all[j]],n.second[j])&&p.second.decode(off,n.first,ind_t(j))==all[j],k+"position",[&]{return cat(id," ",how," node ",n.first," vertex ",j,": ",in?lat::show(v[all[j]]):std::string("nowhere")," expected ",lat::show(n.second[j]));}); if (in) hit[all[j]]=1; } }
    bool once=true; for (size_t i=0;i<v.size();++i) for (size_t j=0;j<i;++j) once=once&&!same(v[i],v[j]); M.check(once,k+"once",[&]{return cat(id," ",how);}); M.check(v.size()==used.size(),k+"count",[&]{return cat(id," ",how,": ",v.size()," vertices, ",used.size()," in use");}); bool every=true; for (auto h : hit) every=every&&h; M.check(every,k+"unused",[&]{return cat(id," ",how);}); }
  void run() { // positions: some of them in the set which every piece starts from
    const int np=int(r.integer(1,r.chance(0.3)?4:40)), nx=int(r.integer(0,r.chance(0.3)?3:30)); scale=std::pow(10,r.uni(-2,2)); std::vector<V> pool; bool origin=r.chance(0.5); if (origin) pool.push_back({0,0,0}); while (int(pool.size())<np+nx) { V x; for (auto& q : x) q=(double(r.integer(-6,6))+(r.chance(0.5)?0.0:r.uni(-0.3,0.3)))*scale; bool far=true; for (auto& p : pool) far=far&&lat::norm(lat::add(x,p,-1))>0.2*scale; if (far&&lat::norm(x)>0.2*scale) pool.push_back(x); } r.shuffle(pool); std::vector<V> pristine(pool.begin(),pool.begin()+np);
    const int pieces=int(r.integer(1,9)); const double noise=r.chance(0.3)?0:1e-14; auto known=points(pristine); k=""; id=cat(id," ",np," known and ",nx," other positions, ",pieces," pieces, scale ",scale); M.note(id); M.sample(id); { uint64_t h=0; for (auto& x : pool) for (auto y : x) h=hash_dbl(h,y); M.distinct(h); }
    std::vector<Pair> in; std::vector<Expect> ex(pieces); Expect all; std::vector<ind_t> names(200); for (ind_t i=0;i<200;++i) names[i]=i; r.shuffle(names); size_t next=0; std::vector<char> use(pool.size(),0); M.site("fill");
    for (int q=0;q<pieces;++q) { Pair p(Set(known,1e-12,1000),VertexIndexMap()); int nodes=r.chance(0.1)?0:int(r.integer(1,8)); auto& e=ex[q]; std::vector<size_t> mine; // a piece keeps to a part of space, as threads do
      for (size_t i=0;i<pool.size();++i) if (r.chance(r.chance(0.5)?0.3:0.8)) mine.push_back(i); if (mine.empty()) mine.push_back(size_t(r.integer(0,pool.size()-1)));
      for (int n=0;n<nodes;++n) { ind_t name=names[next++]; int c=int(r.integer(1,10)); for (int j=0;j<c;++j) { size_t i=r.pick(mine); V x=pool[i]; brille::VertexIndexMap::rel_t rel; M.event("vertices added"); if (i<size_t(np)&&r.chance(0.6)) rel=p.first.preserve(ind_t(i)); else if (origin&&r.chance(0.05)) { for (i=0;i<pool.size();++i) if (lat::norm(pool[i])==0) break; x=pool[i]; rel=p.first.origin_index(); M.event("origins added"); } else { V y=x; for (auto& z : y) z*=1+noise*r.uni(-1,1); rel=p.first.add(points({y}),i<size_t(np)?(r.chance(0.5)?AddVertexType::Pristine:AddVertexType::Unknown):(r.chance(0.5)?AddVertexType::Crafted:AddVertexType::Unknown)); } use[i]=1; M.check((rel.first==MapVertexType::Pristine)==(i<size_t(np)),k+"kind",[&]{return cat(id," position ",i);}); p.second.append(name,rel); e[name].push_back(x); } }
      in.push_back(p); for (auto& n : e) all.insert(n); }
    std::vector<V> used; for (size_t i=0;i<pool.size();++i) if (use[i]) used.push_back(pool[i]); auto uses=[&](const Expect& e){ std::vector<V> u; for (auto& n : e) for (auto& x : n.second) { bool have=false; for (auto& y : u) have=have||same(x,y); if (!have) u.push_back(x); } return u; };
    for (int q=0;q<pieces;++q) holds(in[q],ex[q],uses(ex[q]),cat("piece ",q)); if (all.empty()) throw Skip("nothing was added");
    std::vector<std::vector<double>> before; for (auto& p : in) before.push_back(show(p)); auto untouched=[&](const std::string& how){ for (int q=0;q<pieces;++q) M.check(show(in[q])==before[q],k+"input changed",[&]{return cat(id," ",how," piece ",q);}); };
    M.site("reduce"); auto one=brille::vertex_maps::reduce(in); holds(one,all,used,"reduced"); untouched("reduced"); if (pieces>1) M.check(one.first.is_consolidated()||one.first.preserved_count()==used.size(),k+"consolidated",[&]{return id;});
    for (int th : {1,int(r.integer(2,6))}) { M.site("parallel reduce"); omp_set_num_threads(th); auto two=brille::vertex_maps::parallel_reduce(in); omp_set_num_threads(1); holds(two,all,used,cat("reduced by ",th," threads")); untouched("reduced in parallel"); M.check(show(one)==show(two),k+"threads",[&]{return cat(id," threads ",th);}); }
    // any grouping of the pieces
    M.site("combine"); std::vector<Pair> w=in; std::vector<Expect> we=ex; while (w.size()>1) { size_t a=size_t(r.integer(0,w.size()-1)), b=size_t(r.integer(0,w.size()-2)); if (b>=a) ++b; auto c=brille::vertex_maps::combine(w[a],w[b]); Expect e=we[a]; e.insert(we[b].begin(),we[b].end()); M.event("combinations"); if (!e.empty()) holds(c,e,uses(e),"combined"); w[std::min(a,b)]=c; we[std::min(a,b)]=e; w.erase(w.begin()+std::max(a,b)); we.erase(we.begin()+std::max(a,b)); } untouched("combined");
    auto fin=brille::vertex_maps::steps::consolidate_pair(w[0]); holds(fin,all,used,"consolidated"); holds(w[0],all,used,"before it was consolidated");
    // what is there is found, and what is not is added
    M.site("add after"); for (auto* pp : {&one,&fin}) { auto& p=*pp; std::vector<std::pair<VertexIndexMap::rel_t,V>> got; const size_t n0=used.size(); for (int i=0;i<4;++i) { V x=r.pick(used); got.push_back({p.first.add(points({x})),x}); } size_t more=0; if (pieces>1||pp==&fin) { for (int i=int(r.integer(0,4));i>0;--i) { V x; for (auto& q : x) q=(double(r.integer(20,90))+0.5*double(i))*scale; bool have=false; for (auto& g : got) have=have||same(g.second,x); if (!have) ++more; got.push_back({p.first.add(points({x})),x}); M.event("added after combination"); } } auto v=rows(p.first.consolidate().pristine()); const ind_t off=p.first.preserved_count(); bool ok=v.size()==n0+more; for (auto& g : got) { size_t i=g.first.first==MapVertexType::Pristine?g.first.second:off+g.first.second; ok=ok&&i<v.size()&&same(v[i],g.second); } M.check(ok,k+"found again",[&]{return cat(id,": ",v.size()," vertices, ",n0," and ",more);}); for (auto& n : all) { auto d=p.second.decode(off,n.first); bool good=true; for (size_t j=0;j<d.size();++j) good=good&&d[j]<v.size()&&same(v[d[j]],n.second[j]); M.check(good,k+"position after",[&]{return cat(id," node ",n.first);}); } }
    // nodes may only belong to one piece
    if (pieces>1&&ex[0].size()&&ex[1].size()) { auto bad=in[1]; bad.second.append(ex[0].begin()->first,bad.second.get(ex[1].begin()->first,0)); bool refused=false; try { (void)brille::vertex_maps::combine(in[0],bad); } catch (const std::runtime_error&) { refused=true; } M.event("shared nodes refused"); M.check(refused,k+"shared node",[&]{return id;}); } }
};
int main(int argc, char** argv) {
  Monitor M("C27", argc, argv);
  M.run(M.thorough() ? 400000 : 12000, [&](Rng& r, size_t c) { M.eval();
    if (c%2) { auto l=lat::direct(lat::make(size_t(r.integer(0,529)),r,1.0,2,8)); auto u=r.chance(0.5)?brille::LengthUnit::angstrom:brille::LengthUnit::inverse_angstrom; M.event("lattice vectors"); Judge<brille::lattice::LVec>{M,r,"lattice",{},[=](const std::vector<V>& p){ return brille::lattice::LVec<double>(u,l,lat::arr(p)); }}.run(); }
    else { M.event("Cartesian vectors"); Judge<brille::Array2>{M,r,"Cartesian",{},[](const std::vector<V>& p){ return lat::arr(p); }}.run(); }
  });
}
