// C06: symmetry operations against the exact affine maps they denote.
#include "mon.hpp"
#include "symx.hpp"
#include "sg_table.hpp"
using namespace mon; using namespace brille; using namespace sym;
using Mo = Motion<int,double>;

static std::string diff(const std::vector<Op>& v, const Group& g) { std::string s = cat(v.size()," operations for ",g.size()); auto q=toset(v); for (auto& o : g) if (!q.count(o)) { s += " missing "+show(o); break; } for (auto& o : v) if (!g.count(o)) { s += " extra "+show(o); break; } return s; }
static char centring(const Group& g) { const int h=D/2,t=D/3,d=2*D/3; auto has=[&](V3 v){ return g.count(Op{E9,v})>0; };
  bool a=has({0,h,h}), b=has({h,0,h}), c=has({h,h,0}); if (a&&b&&c) return 'F'; if (a) return 'A'; if (b) return 'B'; if (c) return 'C'; if (has({h,h,h})) return 'I'; if (has({t,d,d})&&has({d,t,t})) return 'R'; return 'P'; }

int main(int argc, char** argv) {
  Monitor M("C06", argc, argv);
  const auto& S = settings(); static std::vector<Group> G(S.size());
  auto grp = [&](size_t i) -> const Group& { if (G[i].empty()) G[i] = hall_group(S[i].symbol); return G[i]; };
  M.run(M.thorough() ? 60000 : 3200, [&](Rng& r, size_t c) {
    const auto& st = S[c % S.size()]; const Group& g = grp(c % S.size()); std::vector<Op> all(g.begin(), g.end());
    auto same = [&](const Mo& m, const Op& o, const std::string& key, const std::string& what) { Op q; M.eval(); bool ok = conv(m,q); M.check(ok && q==o, key, [&]{ return what+": got "+(ok?show(q):"non-multiple")+" expected "+show(o); }); };
    auto sameset = [&](const Symmetry& s, const Group& w, const std::string& key, const std::string& what) { std::vector<Op> v; M.eval(); M.event("operations compared", w.size()); bool ok = conv(s,v); M.check(ok && v.size()==w.size() && toset(v)==w, key, [&]{ return what+": "+(ok?diff(v,w):"a translation is no multiple of 1/24"); }); };
    // --- single operations -------------------------------------------------------------------------------------
    const R9 chg = [&]{ R9 u=E9; for (int k=0;k<3;++k) { int i=int(r.integer(0,2)), j=int(r.integer(0,2)); if (i!=j) { R9 e=E9; e[3*i+j]=int(r.integer(-1,1)); u=mul(u,e); } } return u; }();
    auto rnd = [&]{ Op o = r.pick(all); if (r.chance(0.5)) for (auto& x : o.t) x = int(r.integer(0,D-1)); if (r.chance(0.25)) o.r = mul(mul(chg,o.r),inv(chg)); return o; };
    for (int rep=0; rep<12; ++rep) {
      Op a=rnd(), b=rnd(); Mo A=back(a), B=back(b); M.note("a="+show(a)+" b="+show(b)); M.distinct(hash_str(M.note())); M.site("algebra");
      if (r.chance(0.3)) { auto t=A.gett(); for (auto& x : t) x += double(r.integer(-2,2)); A = Mo(A.getr(), t); }
      same(A*B, a*b, "product", M.note()); same(A.inverse(), inv(a), "inverse", M.note()); same(A*A.inverse(), Op{}, "inverse:right", M.note()); same(A.inverse()*A, Op{}, "inverse:left", M.note());
      std::array<double,3> p{r.uni(-3,3),r.uni(-3,3),r.uni(-3,3)}; std::array<int,3> ip{int(r.integer(-9,9)),int(r.integer(-9,9)),int(r.integer(-9,9))};
      auto tA=A.gett(); auto mp=A.move_point(p), mv=A.move_vector(p), ma=A.move_axial(p); auto iv=A.move_vector(ip), ia=A.move_axial(ip); int dt=det(a.r); double err=0; V3 wv=mulv(a.r,ip);
      for (int i=0;i<3;++i) { double v=0; for (int k=0;k<3;++k) v += a.r[3*i+k]*p[k]; err = std::max({err, std::abs(mv[i]-v), std::abs(mp[i]-v-tA[i]), std::abs(ma[i]-dt*v)}); if (iv[i]!=wv[i]||ia[i]!=dt*wv[i]) err = 1; }
      M.check(err<1e-12, "application", [&]{ return cat(M.note()," point ",vstr(p)," error ",err); });
      // products act as successive applications
      auto q1=(A*B).move_point(p), q2=A.move_point(B.move_point(p)); double e2=0; for (int i=0;i<3;++i) { double dlt=q1[i]-q2[i]; e2=std::max(e2, std::abs(dlt-std::round(dlt))); }
      M.check(e2<1e-11, "product:application", [&]{ return cat(M.note()," differs by ",e2); });
      auto sh = A.gett(); for (auto& x : sh) x += double(r.integer(-3,3)) + r.pick(std::vector<double>{0,1e-16,-1e-16}); Mo A2(A.getr(), sh);
      M.check(A==A2 && !(A!=A2), "equality:lattice-translation", [&]{ return M.note(); });
      Op far=a; far.t[int(r.integer(0,2))] += int(r.pick(std::vector<int>{1,-1,8,12})); for (auto& x : far.t) x=md(x); M.check(A!=back(far) && !(A==back(far)), "equality:different-translation", [&]{ return M.note(); });
      M.check((A==B)==(a==b), "equality", [&]{ return M.note(); }); M.check(A.equal_matrix(b.r)==(a.r==b.r), "equality:matrix", [&]{ return M.note(); });
      M.check(A.has_identity_rotation()==(a.r==E9), "identity:rotation", [&]{ return M.note(); }); M.check(back(a).has_identity_translation()==(a.t==V3{0,0,0}), "identity:translation", [&]{ return M.note(); });
      // text
      M.site("text"); Op o = rnd(); std::string enc = back(o).to_ascii(); M.note("encoded "+show(o)+" as '"+enc+"'"); { Mo d; d.from_ascii(enc); same(d, o, "text:roundtrip", M.note()); }
      for (int style=0; style<6; ++style) { std::string t = xyz(o,r,style); M.note("text '"+t+"'"); M.distinct(hash_str(t)); Mo d; d.from_ascii(t); same(d, o, cat("text:parse:",style), M.note()); if (r.chance(0.5)) same(Mo(t), o, cat("text:construct:",style), M.note()); if (r.chance(0.3)) same(Mo(t+";"), o, cat("text:terminated:",style), M.note()); M.event("texts parsed"); }
      { std::string bad = xyz(o,r,0)+",x"; bool threw=false; try { Mo d; d.from_ascii(bad); } catch (const std::exception&) { threw=true; } M.check(threw, "text:fourth-component", [&]{ return bad; }); }
    }
    // --- groups --------------------------------------------------------------------------------------------------
    M.site("group"); std::vector<Op> v = all; r.shuffle(v); Symmetry s = back(v); std::string id = cat("setting ",st.hall," ",st.symbol); M.note(id); M.event("groups");
    M.check(s.size()==v.size(), "size", [&]{ return id; });
    sameset(s.generate(), g, "generate:complete", id);
    auto gn = s.generators(); std::vector<Op> gv; conv(gn,gv); bool sub=true; for (auto& o : gv) sub = sub && g.count(o); M.check(sub && gv.size()<=v.size(), "generators:subset", [&]{ return id; });
    M.check(closure(gv)==g, "generators:regenerate", [&]{ return cat(id,": ",gv.size()," generators"); }); sameset(gn.generate(), g, "generators:generate", id);
    // no generator is redundant
    if (gv.size()>1) { bool red=false; for (size_t k=0;k<gv.size();++k) { auto w=gv; w.erase(w.begin()+k); red = red || closure(w)==g; } M.check(!red, "generators:redundant", [&]{ return id; }); }
    // subsets, in any order, generate the smallest closed set
    for (int rep=0; rep<4; ++rep) { std::vector<Op> few; size_t n = size_t(r.integer(1,4)); for (size_t k=0;k<n;++k) few.push_back(r.pick(v)); if (rep==3) { few.clear(); auto w=v; for (auto& o : w) { few.push_back(o); if (closure(few)==g) break; } r.shuffle(few); }
      Group w = closure(few); std::string t; for (auto& o : few) t += show(o); M.note(id+" from "+t.substr(0,600)); M.distinct(hash_str(t)); sameset(back(few).generate(), w, "generate:subset", M.note());
      if (rep==0) { bool wanted=false; for (auto& o : few) wanted = wanted || o==Op{neg(E9),{0,0,0}}; (void)wanted; auto f2=few; f2.push_back(Op{neg(E9),{0,0,0}}); Group w2=closure(f2, 400); if (!w2.empty() && w.count(Op{neg(E9),{0,0,0}})==0) sameset(back(std::vector<Op>(w.begin(),w.end())).add_space_inversion(), w2, "inversion:add", M.note()); } }
    Op e1{neg(E9),{0,0,0}}; M.note(id); M.check(s.has_space_inversion()==(g.count(e1)>0), "inversion:has", [&]{ return id; });
    if (g.count(e1)) sameset(s.add_space_inversion(), g, "inversion:already", id); else { auto w=v; w.push_back(e1); Group q=closure(w,400); if (!q.empty()) sameset(s.add_space_inversion(), q, "inversion:add", id); }
    auto B2c = [&](const Symmetry& x){ return bravais_letter(x.getcentring()); };
    M.check(B2c(s)==centring(g), "centring:group", [&]{ return cat(id," reports ",B2c(s)," for ",centring(g)); });
    { auto some=v; some.resize(size_t(r.integer(1,(long long)some.size()))); Group w(some.begin(),some.end()); auto other=some; r.shuffle(other); Symmetry s1=back(some), s2=back(other); M.check(B2c(s1)==B2c(s2)&&B2c(s1)==centring(w), "centring:subset", [&]{ return id; });
      M.check(s1==s2 && !(s1!=s2), "set-equality:permuted", [&]{ return id; }); if (some.size()<v.size()) M.check(s1!=s && !(s1==s), "set-equality:size", [&]{ return id; });
      for (int k=0;k<20;++k) { Op o=rnd(); M.check(s1.has(back(o))==(w.count(o)>0), "membership", [&]{ return id+show(o); }); M.check(some.size()==0 || s1.has(back(some[size_t(k)%some.size()])), "membership:own", [&]{ return id; });
        size_t at=s1.find_matrix_index(o.r), want=some.size(); for (size_t q=some.size(); q-->0;) if (some[q].r==o.r) want=q; M.check(at==want, "find-matrix", [&]{ return cat(id,show(o.r)," at ",at," expected ",want); }); }
      // one operation swapped for another of the same rotation is a different set
      if (some.size()>0) { auto ch=some; size_t k=size_t(r.u64()%ch.size()); ch[k].t[0]=md(ch[k].t[0]+1); if (!w.count(ch[k])) M.check(!(back(ch)==s1), "set-equality:different", [&]{ return id; }); }
      size_t k=size_t(r.u64()%some.size()); Symmetry s3=s1; Op o; conv(s3.pop(k),o); M.check(o==some[k], "pop:value", [&]{ return id; }); auto rest=some; rest.erase(rest.begin()+k); std::vector<Op> q; conv(s3,q); M.check(q==rest, "pop:rest", [&]{ return id; });
      bool threw=false; try { s3.erase(s3.size()); } catch (const std::out_of_range&) { threw=true; } M.check(threw, "erase:range", [&]{ return id; });
      auto ms=s1.getallm(); auto rs=s1.getallr(); auto ts=s1.getallt(); bool ok=ms.size()==some.size()&&rs.size()==some.size()&&ts.size()==some.size(); for (size_t i=0;ok&&i<some.size();++i) { Op x; ok=conv(ms[i],x)&&x==some[i]&&rs[i]==some[i].r&&s1.getr(i)==some[i].r&&s1.gett(i)==ts[i]&&s1.getm(i)==ms[i]; } M.check(ok, "accessors", [&]{ return id; }); }
    for (size_t k=0;k<v.size();++k) { int w=order(v[k]); int got=s.order(k); M.check(got==w, "order", [&]{ return cat(id,show(v[k])," order ",got," expected ",w); }); M.maximum("order", w); }
    { auto os=s.orders(); bool ok=os.size()==v.size(); for (size_t k=0;ok&&k<v.size();++k) ok=os[k]==order(v[k]); M.check(ok,"orders",[&]{return id;}); }
    // lists as text
    M.site("list text"); std::string txt; int style=int(r.integer(0,5)); auto some=v; some.resize(std::min<size_t>(some.size(), size_t(r.integer(1,24)))); for (size_t k=0;k<some.size();++k) { if (k) txt += r.chance(0.5)?";":"; "; txt += xyz(some[k],r,style); }
    if (r.chance(0.3)) txt += ";"; M.note(id+" list '"+txt.substr(0,400)+"'"); std::vector<Op> got; Symmetry ls(txt); bool ok=conv(ls,got); M.check(ok&&got==some, cat("list-text:",style), [&]{ return M.note()+cat(" gave ",got.size()," of ",some.size()); });
    Symmetry ad; for (auto& o : some) ad.add(xyz(o,r)); ok=conv(ad,got); M.check(ok&&got==some, "add-text", [&]{ return M.note(); });
  });
}
