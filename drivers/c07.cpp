// C07: point groups against exact integer-matrix group theory.
#include "mon.hpp"
#include "symx.hpp"
#include "sg_table.hpp"
#include "array_.hpp"
#include "lattice_dual.hpp"
using namespace mon; using namespace brille; using namespace sym;

int main(int argc, char** argv) {
  Monitor M("C07", argc, argv);
  const auto& S = settings(); static std::vector<PGroup> G(S.size());
  auto grp = [&](size_t i) -> const PGroup& { if (G[i].empty()) G[i] = rotations(hall_group(S[i].symbol)); return G[i]; };
  M.run(M.thorough() ? 60000 : 5300, [&](Rng& r, size_t c) {
    const size_t i = c % S.size(); const auto& st = S[i]; const size_t round = c / S.size();
    PGroup g = grp(i); std::string id = cat("setting ",st.hall," ",st.symbol); bool tabulated = true;
    // other descriptions of the same group: unimodular change of axes
    if (round%4==2 || round%4==3) { R9 u=E9; for (int k=int(r.integer(1,4)); k--;) { int a=int(r.integer(0,2)), b=int(r.integer(0,2)); R9 e=E9; if (a!=b) e[3*a+b]=int(r.integer(-1,1)); else { std::array<int,3> p{0,1,2}; r.shuffle(p); e.fill(0); for (int q=0;q<3;++q) e[3*q+p[q]]=r.chance(0.5)?1:-1; } u=mul(u,e); } PGroup h; for (auto& w : g) h.insert(mul(mul(u,w),inv(u))); tabulated = false; g = h; id += " in axes "+show(u); }
    if (round%4==1 && r.chance(0.5)) { std::vector<R9> w(g.begin(),g.end()), few; for (int k=int(r.integer(1,3)); k--;) few.push_back(r.pick(w)); g = pclosure(few); id += cat(" subgroup of order ",g.size()); }
    std::vector<R9> v(g.begin(), g.end()); r.shuffle(v); PointSymmetry p = backp(v); M.note(id); M.event("groups"); uint64_t h=7; for (auto& w : v) for (int x : w) h = hash_mix(h, uint64_t(x+50)); M.distinct(h);
    auto sameset = [&](const PointSymmetry& s, const PGroup& w, const std::string& key) { auto q=convp(s); M.eval(); M.event("matrices compared", w.size()); M.check(q.size()==w.size() && toset(q)==w, key, [&]{ return cat(M.note(),": ",q.size()," operations for ",w.size()); }); };
    const int no = classify(g); if (!no) throw std::runtime_error("oracle cannot classify");
    const auto& K = classes()[no-1];
    auto trim = [](std::string s){ while (!s.empty() && s.back()==' ') s.pop_back(); return s; };
    M.site("classification"); auto pg = get_pointgroup(p);
    M.check(pg.number==no && pg.symbol==K.symbol && trim(pg.schoenflies)==K.schoenflies, "class", [&]{ return cat(id,": ",pg.number," ",pg.symbol," ",pg.schoenflies," expected ",no," ",K.symbol); });
    M.check(my_to_string(pg.holohedry)==K.holohedry && pg.get_holohedry_string()==K.holohedry, "holohedry", [&]{ return cat(id,": ",my_to_string(pg.holohedry)," expected ",K.holohedry); });
    M.check(my_to_string(pg.laue)==K.laue && pg.get_laue_string()==K.laue, "laue", [&]{ return cat(id,": ",my_to_string(pg.laue)," expected ",K.laue); });
    Pointgroup byno(no); M.check(byno.symbol==K.symbol && my_to_string(byno.laue)==K.laue, "class:by-number", [&]{ return cat(no); });
    // the Laue class is that of the group with inversion
    { PGroup l=g; for (auto& w : g) l.insert(neg(w)); std::string lw=classes()[classify(l)-1].laue; M.check(my_to_string(pg.laue)==lw, "laue:inversion", [&]{ return id; }); }
    M.site("elements");
    for (size_t k=0;k<v.size();++k) { const R9& w=v[k]; std::string el=id+" "+show(w); M.eval();
      M.check(p.get(k)==w, "get", [&]{ return el; }); R9 buf; M.check(p.get(k,buf.data()) && buf==w, "get:buffer", [&]{ return el; });
      M.check(p.get_inverse(k)==inv(w), "inverse", [&]{ return el; }); size_t at=p.get_inverse_index(k); M.check(at<v.size() && v[at]==inv(w), "inverse-index", [&]{ return cat(el," index ",at); });
      M.check(p.find_index(w)==k, "find-index", [&]{ return el; }); M.check(p.has(w), "has", [&]{ return el; });
      int s=isometry(w), o=std::abs(s); M.check(p.isometry(k)==s && isometry_value(w.data())==s, "isometry", [&]{ return cat(el," reports ",p.isometry(k)," expected ",s); });
      M.check(p.order(k)==o && rotation_order(w.data())==o, "order", [&]{ return cat(el," reports ",p.order(k)," expected ",o); });
      R9 pr = det(w)<0 ? neg(w) : w; M.check(p.get_proper(k)==pr, "proper", [&]{ return el; });
      if (tabulated) { V3 a=p.axis(k), b=p.perpendicular_axis(k); auto three=rotation_axis_and_perpendicular_vectors(w.data());
        if (o==1) M.check(a==V3{0,0,0}, "axis:identity", [&]{ return el; });
        else { M.check(a!=V3{0,0,0} && mulv(pr,a)==a && std::__gcd(std::__gcd(std::abs(a[0]),std::abs(a[1])),std::abs(a[2]))==1, "axis", [&]{ return cat(el," axis ",vstr(a)); });
          auto dot=[&](const V3&x,const V3&y){ return x[0]*y[0]+x[1]*y[1]+x[2]*y[2]; }; const V3& q=three[2]; V3 cr{b[1]*q[2]-b[2]*q[1], b[2]*q[0]-b[0]*q[2], b[0]*q[1]-b[1]*q[0]};
          M.check(three[0]==a && three[1]==b && dot(a,b)==0 && dot(a,q)==0 && cr!=V3{0,0,0}, "perpendicular", [&]{ return cat(el," axis ",vstr(a)," perpendicular ",vstr(b)," ",vstr(q)); }); } } }
    { auto os=p.orders(); auto is=p.isometries(); bool ok=os.size()==v.size()&&is.size()==v.size(); for (size_t k=0;ok&&k<v.size();++k) ok = os[k]==std::abs(isometry(v[k])) && is[k]==isometry(v[k]); M.check(ok,"orders",[&]{return id;});
      if (tabulated) { auto ax=p.axes(); auto pa=p.perpendicular_axes(); ok=ax.size()==v.size()&&pa.size()==v.size(); for (size_t k=0;ok&&k<v.size();++k) ok=ax[k]==p.axis(k)&&pa[k]==p.perpendicular_axis(k); M.check(ok,"axes",[&]{return id;}); } }
    size_t ei=p.find_identity_index(); M.check(ei<v.size() && v[ei]==E9, "identity-index", [&]{ return id; });
    for (int k=0;k<6;++k) { R9 w=E9; for (auto& x : w) x=int(r.integer(-1,1)); M.check(p.has(w)==(g.count(w)>0), "has:random", [&]{ return id+show(w); }); if (!g.count(w)) M.check(p.find_index(w)==v.size(), "find-index:absent", [&]{ return id; }); }
    M.site("reordering");
    for (int mode : {1,2,-1,-2}) { auto q=p; q.sort(mode); auto w=convp(q); auto key=[&](const R9& x){ return mode==1||mode==-1 ? std::abs(isometry(x)) : isometry(x); }; bool ok=true; for (size_t k=1;k<w.size();++k) ok = ok && (mode>0 ? key(w[k-1])<=key(w[k]) : key(w[k-1])>=key(w[k])); auto s1=w, s2=v; std::sort(s1.begin(),s1.end()); std::sort(s2.begin(),s2.end()); M.check(s1==s2, "sort:content", [&]{ return id; }); M.check(ok, cat("sort:order:",mode), [&]{ return id; }); }
    { std::vector<size_t> pm(v.size()); for (size_t k=0;k<pm.size();++k) pm[k]=k; r.shuffle(pm); auto q=p; q.permute(pm); auto w=convp(q); bool ok=w.size()==v.size(); for (size_t k=0;ok&&k<w.size();++k) ok=w[k]==v[pm[k]]; M.check(ok,"permute",[&]{return id+" "+vstr(pm);});
      auto bad=pm; if (bad.size()>1) { bad[0]=bad[1]; bool threw=false; try { auto q2=p; q2.permute(bad); } catch (const std::runtime_error&) { threw=true; } M.check(threw,"permute:invalid",[&]{return id;}); } }
    { size_t k=size_t(r.u64()%v.size()); auto q=p; R9 o=q.pop(k); auto rest=v; rest.erase(rest.begin()+k); M.check(o==v[k]&&convp(q)==rest,"pop",[&]{return id;}); bool threw=false; try { q.erase(q.size()); } catch (const std::out_of_range&) { threw=true; } M.check(threw,"erase:range",[&]{return id;}); }
    M.site("generation"); sameset(p.generate(), g, "generate:complete"); auto gn=p.generators(); auto gv=convp(gn); bool sub=true; for (auto& w : gv) sub=sub&&g.count(w); M.check(sub,"generators:subset",[&]{return id;}); M.check(pclosure(gv)==g,"generators:regenerate",[&]{return cat(id,": ",gv.size()," generators");}); sameset(gn.generate(),g,"generators:generate");
    if (gv.size()>1) { bool red=false; for (size_t k=0;k<gv.size();++k) { auto w=gv; w.erase(w.begin()+k); red=red||pclosure(w)==g; } M.check(!red,"generators:redundant",[&]{return id;}); }
    for (int rep=0;rep<3;++rep) { std::vector<R9> few; for (int k=int(r.integer(1,4));k--;) few.push_back(r.pick(v)); std::string t; for (auto& w : few) t+=show(w); M.note(id+" from "+t); sameset(backp(few).generate(), pclosure(few), "generate:subset"); } M.note(id);
    { bool hi=g.count(neg(E9))>0; M.check(p.has_space_inversion()==hi,"inversion:has",[&]{return id;}); PGroup w=g; for (auto& x : g) w.insert(neg(x)); sameset(p.add_space_inversion(), w, "inversion:add"); }
    M.site("subsets");
    for (int mo : {0,1,2,3,4,6}) { auto w=convp(p.higher(mo)); std::vector<R9> want; for (auto& x : v) if (std::abs(isometry(x))>mo) want.push_back(x); auto s1=w; std::sort(s1.begin(),s1.end()); std::sort(want.begin(),want.end()); M.check(s1==want,"higher",[&]{return cat(id," above ",mo,": ",s1.size()," for ",want.size());});
      if (tabulated) { // one proper rotation of the highest order for each axis
        std::map<V3,int> best; for (auto& x : v) { R9 pr=det(x)<0?neg(x):x; int o=std::abs(isometry(x)); if (o==1) { best[{0,0,0}]=1; continue; } V3 a=rotation_axis_and_perpendicular_vectors(x.data())[0]; V3 n{-a[0],-a[1],-a[2]}; (void)pr; if (n<a) {} auto it=best.find(a); if (it==best.end()) best[a]=o; else it->second=std::max(it->second,o); }
        size_t cnt=0; for (auto& kv : best) cnt += kv.second>mo; auto nf=convp(p.nfolds(mo)); std::set<V3> seen; bool ok=nf.size()==cnt; for (auto& x : nf) { V3 a=rotation_axis_and_perpendicular_vectors(x.data())[0]; int o=std::abs(isometry(x)); ok = ok && det(x)==1 && (g.count(x)||g.count(neg(x))) && best.count(a) && best[a]==o && seen.insert(a).second; } M.check(ok,"nfolds",[&]{return cat(id," above ",mo,": ",nf.size()," axes for ",cnt);}); } }
    { V3 a{int(r.integer(-3,3)),int(r.integer(-3,3)),int(r.integer(-3,3))}; R9 w=r.pick(v); V3 b = r.chance(0.7) ? mulv(w,a) : V3{int(r.integer(-3,3)),int(r.integer(-3,3)),int(r.integer(-3,3))}; V3 bt = mulv(tr(w),a);
      std::vector<R9> l1,l2; for (auto& x : v) { if (mulv(x,a)==b) l1.push_back(x); if (mulv(tr(x),a)==bt) l2.push_back(x); }
      M.check(p.mat_vec_linking_operations(a,b)==l1 && p.mat_vec_links(a,b)==!l1.empty(), "links:matrix-vector", [&]{ return cat(id,vstr(a),vstr(b)); }); M.check(p.vec_mat_linking_operations(a,bt)==l2 && p.vec_mat_links(a,bt)==!l2.empty(), "links:vector-matrix", [&]{ return cat(id,vstr(a),vstr(bt)); }); }
    M.site("flat lists"); { std::vector<R9> dup=v; for (int k=int(r.integer(0,5));k--;) dup.insert(dup.begin()+long(r.u64()%(dup.size()+1)), r.pick(v)); std::vector<int> flat; for (auto& x : dup) flat.insert(flat.end(),x.begin(),x.end());
      sameset(ptg_get_pointsymmetry(flat.data(), int(dup.size())), g, "unique:flat"); auto u0=get_unique_rotations(dup,0), u1=get_unique_rotations(dup,1); PGroup w=g; for (auto& x : g) w.insert(neg(x)); M.check(u0.size()==g.size()&&toset(u0)==g,"unique",[&]{return id;}); M.check(u1.size()==w.size()&&toset(u1)==w,"unique:time-reversal",[&]{return id;});
      if (tabulated && round%4==0) { R9 t{}; auto q=ptg_get_transformation_matrix(t.data(), flat.data(), int(dup.size())); M.check(q.number==no,"transformation:class",[&]{return id;}); int d=det(t); bool ok=d>0; R9 tt=tr(t), ad=adj(tt); if (d) for (auto& x : g) { R9 y=mul(mul(ad,x),tt); for (int e : y) ok = ok && e%d==0; } M.check(ok,"transformation:axes",[&]{return cat(id,": ",show(t)," determinant ",d);}); } }
    M.site("text"); { std::string txt; auto some=v; for (size_t k=0;k<some.size();++k) { Op o; o.r=some[k]; txt += (k?";":"")+xyz(o,r,int(r.integer(0,3))); } PointSymmetry q; size_t n=q.add(txt); M.check(n==v.size() && convp(q)==v, "text:list", [&]{ return cat(id," '",txt.substr(0,200),"' gave ",n); }); }
    if (tabulated && round%4==0) { M.site("lattice"); auto cl=cell(random_metric(g,r)); auto lat=lattice::Direct<double>(cl.len,cl.ang,st.symbol); sameset(lat.pointgroup_symmetry(), grp(i), "lattice"); M.check(lat.has_space_inversion()==(grp(i).count(neg(E9))>0), "lattice:inversion",[&]{return id;}); M.check(lat.is_triclinic()==(st.number<3),"lattice:triclinic",[&]{return id;}); }
  });
}
