// C05: every tabulated setting, however it is named or spelled, is the group the independent decoder says it is.
#include "mon.hpp"
#include "symx.hpp"
#include "sg_table.hpp"
#include "array_.hpp"
#include "lattice_dual.hpp"
using namespace mon; using namespace brille; using namespace sym;

// respell a Hall symbol without changing its meaning
static std::string respell(const Hall& h, Rng& r, bool& changed) {
  std::string s; changed = false;
  int style = int(r.integer(0,5)); // 0 plain 1 spaces 2 explicit axes 3 reordered letters 4 sub/superscripts 5 everything
  auto gap = [&]{ return std::string(style==1||style==5 ? r.integer(1,3) : 1, ' '); };
  if ((style==1||style==5) && r.chance(0.3)) { s += " "; changed = true; }
  if (h.neg) s += "-"; s += h.lat;
  char pax=0; int pn=0; bool any=false;
  for (auto& z : h.ops) { any = any || z.ax || !z.tr.empty(); }
  bool sub = (style==4) && any;
  for (size_t k=0;k<h.ops.size();++k) { auto z = h.ops[k]; char ax = z.ax, full = ax, ref = pax;
    if (!full) { if (k==0) full='z'; else if (z.n==2&&(pn==2||pn==4)) full='x'; else if (z.n==2&&(pn==3||pn==6)) { full='\''; ref='z'; } else if (z.n==3) full='*'; }
    (void)ref;
    if ((style==2||style==5) && !ax && full && z.n!=1 && !(full=='\'' && pax!='z') && r.chance(0.7)) { ax = full; changed = true; }
    std::string tr = z.tr; if (style==3||style==5) { std::string t=tr; r.shuffle(tr); if (t!=tr) changed = true; }
    s += gap(); if (z.neg) s += "-"; s += char('0'+z.n);
    std::string axs; if (ax) { axs = std::string(1,ax); if (!sub && r.chance(0.2)) { if (ax=='"') { axs = "''"; changed = true; } else if (ax=='*') { axs = "'''"; changed = true; } } }
    std::string trs; if (sub) { for (char c : tr) { trs += "_"; trs += c; } if (!axs.empty()) axs = "^"+axs; } else trs = tr;
    bool swap = (style==3||style==5) && r.chance(0.5);
    s += swap ? trs+axs : axs+trs; if (swap && !trs.empty() && !axs.empty()) changed = true;
    pax = full ? full : (z.n==1 ? 'z' : full); pn = z.n; }
  if (sub) changed = true;
  if (h.shift != V3{0,0,0}) { s += gap()+"("; for (int i=0;i<3;++i) s += (i?" ":"")+std::to_string(h.shift[i]/(D/12)); s += ")"; }
  if ((style==1||style==5) && r.chance(0.3)) { s += " "; changed = true; }
  if (style==1) changed = true;
  return s; }

static std::string diff(const std::vector<Op>& v, const Group& g) { std::string s = cat(v.size()," operations for ",g.size()); auto q=toset(v); for (auto& o : g) if (!q.count(o)) { s += " missing "+show(o); break; } for (auto& o : v) if (!g.count(o)) { s += " extra "+show(o); break; } return s; }

int main(int argc, char** argv) {
  Monitor M("C05", argc, argv);
  const auto& S = settings(); static std::vector<Group> G(S.size());
  static std::map<std::pair<int,std::string>,std::set<int>> byno; // (number, choice) -> settings
  auto grp = [&](size_t i) -> const Group& { if (G[i].empty()) G[i] = hall_group(S[i].symbol); return G[i]; };
  auto check = [&](const Symmetry& s, const Group& g, const std::string& key, const std::string& what) {
    std::vector<Op> v; M.eval(); bool ok = conv(s, v);
    if (!ok) { M.fail(key+":translation", what+" has a translation that is no multiple of 1/24"); return; }
    M.event("operations compared", v.size());
    M.check(v.size()==g.size() && toset(v)==g, key, [&]{ return what+": "+diff(v,g); }); };
  const size_t per = M.thorough() ? 60 : 6;
  M.run(S.size()*per, [&](Rng& r, size_t c) {
    const size_t i = c % S.size(); const auto& st = S[i]; const Group& g = grp(i); const PGroup pg = rotations(g); const size_t round = c / S.size();
    std::string id = cat("setting ",st.hall," IT ",st.number," ",st.symbol," [",st.choice,"]"); M.note(id);
    Spacegroup sp(st.hall);
    if (round == 0) {
      M.site("table");
      M.check(sp.get_hall_number()==st.hall, "table:hall-number", [&]{ return cat(id,": reports ",sp.get_hall_number()); });
      M.check(sp.get_international_table_number()==st.number, "table:number", [&]{ return cat(id,": reports ",sp.get_international_table_number()); });
      M.check(sp.get_choice()==st.choice, "table:choice", [&]{ return cat(id,": reports ",sp.get_choice()); });
      M.check(bravais_letter(sp.get_bravais_type())==st.bravais, "table:bravais", [&]{ return cat(id,": reports ",bravais_letter(sp.get_bravais_type())); });
      M.check(sp.get_pointgroup_number()==st.pg && classify(pg)==sp.get_pointgroup_number(), "table:pointgroup", [&]{ return cat(id,": reports ",sp.get_pointgroup_number()," but the operations are class ",classify(pg)); });
      std::string sch = sp.get_schoenflies_symbol(); sch = sch.substr(0, sch.find('^')); std::string want = classes()[st.pg-1].schoenflies;
      M.check(sch==want, "table:schoenflies", [&]{ return cat(id,": ",sp.get_schoenflies_symbol()," for class ",want); });
      M.check(sp.get_pointgroup().get_number()==st.pg && sp.get_pointgroup().get_symbol()==classes()[st.pg-1].symbol, "table:pointgroup-symbol", [&]{ return cat(id,": ",sp.get_pointgroup().get_symbol()); });
      auto s = sp.get_spacegroup_symmetry();
      check(s, g, "group:setting", id);
      size_t nc = centrings(g); M.check(s.size()==nc*pg.size(), "group:order", [&]{ return cat(id,": ",s.size()," operations, ",nc," centrings × ",pg.size()); });
      M.check(bravais_letter(s.getcentring())==st.bravais, "group:centring", [&]{ return cat(id,": getcentring says ",bravais_letter(s.getcentring())); });
      for (int trev=0; trev<2; ++trev) { auto p = convp(sp.get_pointgroup_symmetry(trev)); PGroup w = pg; if (trev) for (auto& q : pg) w.insert(neg(q)); M.eval();
        M.check(p.size()==w.size() && toset(p)==w, trev?"pointgroup:time-reversal":"pointgroup:setting", [&]{ return cat(id,": ",p.size()," rotations where ",w.size()," belong"); }); }
      { std::vector<int> buf(9*96+9, 77); int n = get_pointgroup_rotations_hall_number(buf.data(), 96, st.hall, 0); PGroup q; for (int k=0;k<n;++k) { R9 a; std::copy_n(buf.begin()+9*k,9,a.begin()); q.insert(a); }
        M.check(n==int(pg.size()) && q==pg && buf[9*n]==77, "pointgroup:buffer", [&]{ return cat(id,": ",n," rotations"); });
        bool threw=false; if (pg.size()>1) { try { get_pointgroup_rotations_hall_number(buf.data(), int(pg.size())-1, st.hall, 0); } catch (const std::out_of_range&) { threw = true; } M.check(threw, "pointgroup:buffer-overrun", [&]{ return id; }); } }
      // lookups
      M.site("lookup");
      M.check(hall_number_ok(st.hall), "lookup:valid", [&]{ return id; });
      int h = hall_symbol_to_hall_number(st.symbol); M.check(h>=1&&h<=530&&grp(h-1)==g, "lookup:hall-symbol", [&]{ return cat(id," → ",h); });
      h = string_to_hall_number(st.symbol); M.check(h>=1&&h<=530&&grp(h-1)==g, "lookup:string-hall", [&]{ return cat(id," → ",h); });
      h = international_number_to_hall_number(st.number, st.choice); M.check(h>=1&&h<=530&&S[h-1].number==st.number&&(!*st.choice||std::string(st.choice)==S[h-1].choice), "lookup:number-choice", [&]{ return cat(id," → ",h); });
      h = international_number_to_hall_number(st.number); M.check(h>=1&&h<=530&&S[h-1].number==st.number, "lookup:number", [&]{ return cat(id," → ",h); });
      const char* names[3] = {st.it, st.full, st.shrt};
      for (const char* n : names) for (int k=0;k<2;++k) {
        h = k ? string_to_hall_number(n, st.choice) : international_string_to_hall_number(n, st.choice);
        // a name and choice shared by several entries names any of those; otherwise exactly this setting
        bool ok = h>=1 && h<=530; bool shared=false; if (ok) { const auto& o=S[h-1]; auto nm=[&](const Setting& q){ return std::string(q.it)==n||std::string(q.full)==n||std::string(q.shrt)==n; };
          shared = std::string(o.symbol)==n || (nm(o) && (!*st.choice || std::string(o.choice)==st.choice)); ok = grp(h-1)==g || (shared && o.number==st.number) || (k && std::string(o.symbol)==n); }
        M.eval(); M.check(ok, "lookup:name", [&]{ return cat(id,": name '",n,"' choice '",st.choice,"' → ",h, h>0?cat(" = ",S[h-1].symbol):""); });
        if (*st.choice) { // without a choice some setting of the same type must come back
          h = k ? string_to_hall_number(n) : international_string_to_hall_number(n); M.check(h>=1&&h<=530&&(S[h-1].number==st.number || std::string(S[h-1].symbol)==n), "lookup:name-only", [&]{ return cat(id,": name '",n,"' → ",h); }); } }
      M.distinct(hash_mix(st.hall, 1)); return; }
    // spellings of the symbol
    Hall hs = parse_hall(st.symbol); bool changed=false; std::string text = round==1 ? st.symbol : respell(hs, r, changed);
    if (hall_group(st.symbol) != g) throw std::runtime_error("oracle");
    M.site("hall text"); M.note(id+" spelled '"+text+"'"); M.distinct(hash_str(text));
    HallSymbol H; bool used = r.chance(0.5); if (used) H.from_ascii(S[size_t(r.integer(0,529))].symbol);
    bool ok = H.from_ascii(text);
    M.check(ok, "text:invalid", [&]{ return M.note(); });
    check(H.get_generators().generate(), g, used?"text:reused":"text:group", M.note()); if (changed) M.event("respelled symbols");
    M.check(bravais_letter(H.getl())==st.bravais, "text:lattice", [&]{ return M.note(); });
    std::string enc = H.to_ascii(); HallSymbol H2; H2.from_ascii(enc); check(H2.get_generators().generate(), g, "text:encoded", M.note()+" encoded as '"+enc+"'");
    // random but valid symbols: same skeleton, other translations
    if (r.chance(0.5)) { Hall q = hs; for (auto& z : q.ops) { z.tr.clear(); std::string L="abcnuvwd"; r.shuffle(L); z.tr = L.substr(0, size_t(r.integer(0,2))); if (z.n>1 && !((z.ax=='\''||z.ax=='"')&&false) && r.chance(0.5)) z.tr.push_back(char('0'+r.integer(1,z.n-1))); }
      auto gens = hall_ops(q); Group w = closure(gens, 400); 
      if (!w.empty()) { std::string t; { t = q.neg?"-":""; t += q.lat; for (auto& z : q.ops) { t += " "; if (z.neg) t+="-"; t += char('0'+z.n); if (z.ax) t += z.ax; t += z.tr; } if (q.shift!=V3{0,0,0}) { t += " ("; for (int k=0;k<3;++k) t += (k?" ":"")+std::to_string(q.shift[k]/2); t += ")"; } }
        M.note("symbol '"+t+"'"); M.distinct(hash_str(t)); HallSymbol Q(t); check(Q.get_generators().generate(), w, "text:untabulated", M.note()); M.event("untabulated symbols"); } }
    // lattices named by every route carry the group
    M.site("lattice"); auto cl = cell(random_metric(pg, r)); int route = int(r.integer(0,4)); std::string nm, ch;
    switch (route) { case 0: nm = st.symbol; break; case 1: nm = text; break; case 2: nm = st.it; ch = st.choice; break; case 3: nm = st.shrt; ch = st.choice; break;
      default: { std::vector<Op> v(g.begin(), g.end()); r.shuffle(v); if (r.chance(0.6)) { // generating subset
            std::vector<Op> sub; for (auto& o : v) { sub.push_back(o); if (closure(sub)==g) break; } v = sub; r.shuffle(v); }
          int style = int(r.integer(0,4)); for (size_t k=0;k<v.size();++k) nm += (k?";":"")+xyz(v[k], r, style); } }
    const Group* want = &g; if (route==2||route==3) { int h = string_to_hall_number(nm, ch); if (h<1) { M.check(false,"lattice:name",[&]{ return id+" "+nm; }); return; } want = &grp(h-1); }
    M.note(cat(id," lattice named '",nm.substr(0,200),"' choice '",ch,"'")); M.event("lattices named");
    auto lat = lattice::Direct<double>(cl.len, cl.ang, nm, ch);
    check(lat.spacegroup_symmetry(), *want, cat("lattice:group:",route), M.note());
    auto p = convp(lat.pointgroup_symmetry()); M.check(p.size()==rotations(*want).size() && toset(p)==rotations(*want), cat("lattice:pointgroup:",route), [&]{ return M.note(); });
    if (want==&g) M.check(bravais_letter(lat.bravais())==st.bravais, cat("lattice:bravais:",route), [&]{ return M.note()+" reports "+bravais_letter(lat.bravais()); });
    // compatible with the metric of its crystal system: every rotation preserves the cell
    auto gm = lat.metric(LengthUnit::angstrom); double worst=0, big=0; for (auto x : gm) big = std::max(big, std::abs(double(x)));
    for (auto& w : p) for (int a=0;a<3;++a) for (int b=0;b<3;++b) { double s=0; for (int k=0;k<3;++k) for (int l=0;l<3;++l) s += w[3*k+a]*gm[3*k+l]*w[3*l+b]; worst = std::max(worst, std::abs(s-gm[3*a+b])/big); }
    if (want==&g) { M.check(worst<1e-10, "lattice:metric", [&]{ return cat(M.note()," metric changes by ",worst); }); M.maximum("metric change", worst); }
  });
}
