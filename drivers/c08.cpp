// C08: direct and reciprocal lattices, however built.
#include "mon.hpp"
#include "lat.hpp"
using namespace mon; using namespace brille; using namespace brille::lattice; using lat::M9; using lat::V;
constexpr auto LA=LengthUnit::angstrom, LB=LengthUnit::inverse_angstrom;
int main(int argc, char** argv) {
  Monitor M("C08", argc, argv); const auto& S=sym::settings();
  M.run(M.thorough() ? 100000 : 3180, [&](Rng& r, size_t c) {
    auto f=lat::make(c%S.size(), r); M.note(f.id); const std::string name=S[f.si].symbol; M.event("cells");
    uint64_t h=hash_mix(5,f.si); for (auto x : f.G) h=hash_dbl(h,x); M.distinct(h);
    const double K=lat::cond(f.A), tol=1e-13*K;
    // atoms on an orbit of the group so that the basis is compatible
    std::vector<std::array<double,3>> pos; std::vector<ind_t> typ; ind_t t=0; for (int k=int(r.integer(0,2));k--;++t) { sym::V3 p{int(r.integer(0,23)),int(r.integer(0,23)),int(r.integer(0,23))}; std::set<sym::V3> o; for (auto& op : f.g) { auto q=sym::mulv(op.r,p); for (int i=0;i<3;++i) q[i]=sym::md(q[i]+op.t[i]); o.insert(q); } if (pos.size()+o.size()<60) for (auto& q : o) { pos.push_back({q[0]/24.,q[1]/24.,q[2]/24.}); typ.push_back(t); } }
    Basis bas(pos,typ);
    struct Built { std::string how; lat::L l; M9 ref; bool oriented; }; std::vector<Built> v;
    auto deg=f.c.ang; auto rad=deg; auto pi=deg; for (int i=0;i<3;++i) { rad[i]=deg[i]*lat::PI/180; pi[i]=deg[i]/180; }
    auto sdeg=f.cs.ang; auto srad=sdeg; auto spi=sdeg; for (int i=0;i<3;++i) { srad[i]=sdeg[i]*lat::PI/180; spi[i]=sdeg[i]/180; }
    auto sy=sym::back(std::vector<sym::Op>(f.g.begin(),f.g.end()));
    const bool snap=r.chance(0.7);
    auto put=[&](const std::string& how, const lat::L& l, const M9& ref, bool o) { v.push_back({how+(snap?" snapped":""),l,ref,o}); };
    auto tri=[&](const std::string& how, auto fn, const M9& ref, bool o) { M.site(how); try { put(how, fn(), ref, o); } catch (const std::exception& e) { M.fail("throws:"+how, cat(f.id,": ",e.what())); } };
    tri("direct degrees", [&]{ return Direct<double>(f.c.len,deg,name,bas,snap,AngleUnit::degree); }, f.A,false);
    switch (c/S.size()%4) { 
      case 0: tri("direct unit guessed (degrees)", [&]{ return Direct<double>(f.c.len,deg,name,bas,snap); }, f.A,false); tri("reciprocal degrees", [&]{ return Reciprocal<double>(f.cs.len,sdeg,name,bas,snap,AngleUnit::degree); }, f.A,false); break;
      case 1: tri("direct unit guessed (radians)", [&]{ return Direct<double>(f.c.len,rad,name,bas,snap); }, f.A,false); tri("reciprocal pi", [&]{ return Reciprocal<double>(f.cs.len,spi,name,bas,snap,AngleUnit::pi); }, f.A,false); break;
      case 2: tri("direct radians, symmetry object", [&]{ return Direct<double>(f.c.len,rad,sy,bas,snap,AngleUnit::radian); }, f.A,false); tri("reciprocal unit guessed (radians)", [&]{ return Reciprocal<double>(f.cs.len,srad,name,bas,snap); }, f.A,false); break;
      default: tri("direct pi, symmetry object", [&]{ return Direct<double>(f.c.len,pi,sy,bas,snap,AngleUnit::pi); }, f.A,false); tri("reciprocal unit guessed (degrees), symmetry object", [&]{ return Reciprocal<double>(f.cs.len,sdeg,sy,bas,snap); }, f.A,false); }
    M9 rot=lat::rotation(r); bool left=r.chance(0.15); if (r.chance(0.2)) rot={1,0,0,0,1,0,0,0,1}; if (left) for (auto& x : rot) x=-x; if (left) M.event("left-handed cells");
    M9 A=lat::mul(rot,f.A), B=lat::dual(A);
    std::string lh = left ? " (left-handed)" : "";
    tri("direct columns"+lh, [&]{ return Direct<double>(A,MatrixVectors::column,name,bas,snap); }, A,true);
    tri("direct rows"+lh, [&]{ return c%2 ? Direct<double>(lat::tr(A),MatrixVectors::row,name,bas,snap) : Direct<double>(lat::tr(A),MatrixVectors::row,sy,bas,snap); }, A,true);
    tri("reciprocal columns"+lh, [&]{ return c%2 ? Reciprocal<double>(B,MatrixVectors::column,name,bas,snap) : Reciprocal<double>(B,MatrixVectors::column,sy,bas,snap); }, A,true);
    tri("reciprocal rows"+lh, [&]{ return Reciprocal<double>(lat::tr(B),MatrixVectors::row,name,bas,snap); }, A,true);
    if (c/S.size()%3==2) { auto l0=v.empty()?lat::direct(f):v[0].l; M.site("copies"); lat::L cp(l0), as; as=cp; auto mv=lat::L(std::move(cp)); put("copied",as,f.A,false); put("moved",mv,f.A,false); }
    auto close=[&](double a, double b, double s){ return std::abs(a-b)<=tol*s; };
    for (auto& b : v) { const auto& l=b.l; M.site("examine "+b.how); M.eval(); std::string id=f.id+" "+b.how; const std::string k=b.how.find("left")!=std::string::npos?"left:":"";
      auto a=l.real_basis_vectors(), q=l.reciprocal_basis_vectors(); double ma=lat::amax(f.A), mq=lat::amax(f.B);
      M.check(l.vectors(LA)==a&&l.vectors(LB)==q&&l.to_xyz(LA)==a&&l.to_xyz(LB)==q, k+"accessors", [&]{return id;});
      auto I=lat::mul(lat::tr(a),q); bool dual=true; for (int i=0;i<9;++i) dual=dual&&close(I[i],i%4==0?2*lat::PI:0,2*lat::PI); M.check(dual,k+"dual",[&]{return cat(id,": ",lat::show(I));});
      M9 g=lat::mul(lat::tr(a),a), gs=lat::mul(lat::tr(q),q), GS=lat::mul(lat::tr(f.B),f.B);
      M.check(lat::adiff(g,f.G)<=1e-12*K*ma*ma, k+"cell", [&]{return cat(id,": metric ",lat::show(g)," expected ",lat::show(f.G));});
      M.check(lat::adiff(gs,GS)<=1e-12*K*mq*mq, k+"cell:reciprocal", [&]{return cat(id,": metric ",lat::show(gs)," expected ",lat::show(GS));});
      if (b.oriented) M.check(lat::adiff(a,b.ref)<=1e-11*K*ma, k+"orientation", [&]{return cat(id,": vectors ",lat::show(a)," expected ",lat::show(b.ref));});
      M.check(lat::adiff(l.metric(LA),g)<=tol*ma*ma&&lat::adiff(l.metric(LB),gs)<=tol*mq*mq, k+"metric", [&]{return cat(id,": ",lat::show(l.metric(LA)),lat::show(l.metric(LB)));});
      for (auto lu : {LA,LB}) { auto& w=lu==LA?a:q; auto len=l.lengths(lu); auto an=l.angles(lu); auto ad=l.angles(lu,AngleUnit::degree); auto ap=l.angles(lu,AngleUnit::pi); auto& ec=lu==LA?f.c:f.cs;
        for (int i=0;i<3;++i) { V x=lat::col(w,i), y=lat::col(w,(i+1)%3), z=lat::col(w,(i+2)%3); double ln=lat::norm(x), cs=lat::dot(y,z)/lat::norm(y)/lat::norm(z);
          M.check(close(len[i],ln,ln)&&l.length(lu,i)==len[i]&&l.vector(lu,i)==x&&close(len[i],ec.len[i],10*ln), k+"lengths", [&]{return cat(id,": ",i," ",len[i]," expected ",ln," and ",ec.len[i]);});
          M.check(close(std::cos(an[i]),cs,1)&&an[i]>0&&an[i]<lat::PI&&close(ad[i],an[i]*180/lat::PI,180)&&close(ap[i],an[i]/lat::PI,1)&&std::abs(std::cos(an[i])-std::cos(ec.ang[i]*lat::PI/180))<1e-11*K, k+"angles", [&]{return cat(id,": ",i," ",ad[i]," expected ",ec.ang[i]);}); }
        double vol=l.volume(lu), want=std::sqrt(std::abs(lat::det(lu==LA?f.G:GS)));
        M.check(std::abs(vol-want)<=1e-11*K*want, k+"volume", [&]{return cat(id,": ",vol," expected ",want);});
        for (int n=0;n<3;++n) { V x{r.uni(-3,3),r.uni(-3,3),r.uni(-3,3)}; V y=lat::mulv(l.to_xyz(lu),x), z=lat::mulv(l.from_xyz(lu),y); M.check(lat::adiff(x,z)<=30*tol, k+"to-from-xyz", [&]{return cat(id,": ",lat::show(x)," became ",lat::show(z));});
          double n2=lat::dot(x,lat::mulv(l.metric(lu),x)), m=lu==LA?ma:mq; M.check(std::abs(n2-lat::dot(y,y))<=100*tol*m*m, k+"length-preserved", [&]{return cat(id,": ",lat::show(x));});
          // lattice vectors built on it agree
          auto lv=LVec<double>(lu,l,lat::arr({x})); auto back=from_xyz_like(lu,l,lv.xyz()); M.check(lat::adiff(lat::at(lv.xyz(),0),y)<=30*tol*m&&lat::adiff(lat::at(back.hkl(),0),x)<=100*tol&&std::abs(lv.norm(0)-lat::norm(y))<=30*tol*m, k+"vector-xyz", [&]{return cat(id,": ",lat::show(x));}); } }
      M.check(close(std::abs(l.volume(LA)*l.volume(LB)),8*lat::PI*lat::PI*lat::PI,250), k+"volume-product",[&]{return id;});
      std::vector<sym::Op> ops; M.check(sym::conv(l.spacegroup_symmetry(),ops)&&sym::toset(ops)==f.g&&ops.size()==f.g.size(), k+"spacegroup-carried", [&]{return cat(id,": ",ops.size());});
      auto pp=sym::convp(l.pointgroup_symmetry()); M.check(sym::toset(pp)==f.pg&&pp.size()==f.pg.size(), k+"pointgroup-carried", [&]{return cat(id,": ",pp.size());});
      auto bb=l.basis(); bool same=bb.size()==pos.size()&&bb.types()==typ; for (size_t i=0;same&&i<pos.size();++i) for (int j=0;j<3;++j) same=same&&std::abs(bb.position(i)[j]-pos[i][j])<1e-12; if (b.how!="copied"||true) M.check(same,k+"basis-carried",[&]{return cat(id,": ",bb.size());});
      M.check(l.bravais()==l.spacegroup_symmetry().getcentring(), k+"bravais", [&]{return id;});
      M.check(l==l&&!(l!=l)&&l.is_same(l), k+"equal:self", [&]{return id;}); }
    // cells known to a few digits: symmetrising keeps the cell and its orientation to within that noise
    M.site("noisy cells"); for (int rep=0;rep<2;++rep) { double e=std::pow(10.,r.uni(-9,-4)); auto len=f.c.len; auto an=deg; M9 N=A; for (auto& x : len) x*=1+e*r.uni(-1,1); for (auto& x : an) x+=e*r.uni(-1,1)*50; double ma=lat::amax(A); for (auto& x : N) x+=e*ma*r.uni(-1,1); if (e*K*K>1e-2) continue; std::string id=cat(f.id," noise ",e); M.eval(); M.event("noisy cells");
      const double lim=40*e*K*K; M9 in=lat::upper({len[0]*len[0],len[0]*len[1]*std::cos(an[2]*lat::PI/180),len[0]*len[2]*std::cos(an[1]*lat::PI/180),0,len[1]*len[1],len[1]*len[2]*std::cos(an[0]*lat::PI/180),0,0,len[2]*len[2]}); M9 gin=lat::mul(lat::tr(in),in);
      auto linked=[&](const lat::L& l){ bool ok=true; auto x=l.lengths(LA), y=l.lengths(LB); const sym::V3 e3[3]={{1,0,0},{0,1,0},{0,0,1}}; for (auto& w : f.pg) for (int i=0;i<3;++i) for (int j=0;j<3;++j) { auto u=sym::mulv(w,e3[i]), d=sym::mulv(sym::tr(w),e3[i]); if (u==e3[j]&&d==e3[j]) ok=ok&&std::abs(x[i]-x[j])<=1e-12*K*x[i]&&std::abs(y[i]-y[j])<=1e-12*K*y[i]; } return ok; };
      auto one=[&](const std::string& how, auto fn, const M9& want, bool o){ try { lat::L l=fn(); auto a=l.real_basis_vectors(); M9 d=lat::mul(lat::tr(a),l.reciprocal_basis_vectors()); for (int i=0;i<3;++i) d[4*i]-=2*lat::PI;
          M.check(lat::amax(d)<1e-11*K,"noisy:dual",[&]{return cat(id," ",how);}); if (o) M.check(lat::adiff(a,want)<=lim*ma,"noisy:orientation",[&]{return cat(id," ",how,": ",lat::show(a)," from ",lat::show(want));}); M.check(lat::adiff(lat::mul(lat::tr(a),a),lat::mul(lat::tr(want),want))<=lim*ma*ma,"noisy:cell",[&]{return cat(id," ",how,": ",lat::show(lat::mul(lat::tr(a),a)));});
          M.check(linked(l),"noisy:symmetrised",[&]{return cat(id," ",how,": ",lat::show(V(l.lengths(LA))));}); M.check(lat::adiff(l.metric(LA),lat::mul(lat::tr(a),a))<=tol*ma*ma,"noisy:metric",[&]{return cat(id," ",how);}); } catch (const std::exception& ex) { M.fail("noisy:throws",cat(id," ",how,": ",ex.what())); } };
      one("direct lengths and angles",[&]{return Direct<double>(len,an,name);},in,false); one("direct columns",[&]{return Direct<double>(N,MatrixVectors::column,name);},N,true); one("reciprocal rows",[&]{return Reciprocal<double>(lat::tr(lat::dual(N)),MatrixVectors::row,name);},N,true);
      { M9 q=lat::dual(in); auto cs=sym::cell(lat::mul(lat::tr(q),q)); one("reciprocal lengths and angles",[&]{return Reciprocal<double>(cs.len,cs.ang,name);},in,false); } }
    // equality: the same construction twice, and cells which differ
    M.site("equality");
    { auto b0=v.front(); auto again=Direct<double>(f.c.len,deg,name,bas,snap,AngleUnit::degree); if (b0.how.rfind("direct degrees",0)==0) M.check(again==b0.l&&!(again!=b0.l)&&again.is_same(b0.l)&&again.is_equivalent(b0.l)&&again.is_permuted(b0.l), "equal:same", [&]{return f.id;});
      size_t eq=0,n=0; for (auto& x : v) for (auto& y : v) if (&x<&y&&x.oriented==y.oriented) { ++n; bool e=x.l==y.l; eq+=e; M.check(e==(y.l==x.l)&&e!=(x.l!=y.l)&&e==x.l.is_same(y.l),"equal:symmetric",[&]{return f.id;}); }
      M.event("equal pairs built differently",eq); M.event("pairs built differently",n);
      auto l2=f.c.len; int w=int(r.integer(0,2)); double e=std::pow(10.,r.uni(-8,-0.5)); l2[w]*=1+e; auto g=std::string("P 1"); auto base=Direct<double>(f.c.len,deg,g), other=Direct<double>(l2,deg,g); M.check(!(base==other)&&base!=other, "equal:length-differs", [&]{return cat(f.id," ",w," ",e);});
      auto a2=deg; a2[w]+=r.chance(0.5)?1e-6:-0.01; try { auto o2=Direct<double>(f.c.len,a2,g); M.check(!(base==o2)&&base!=o2,"equal:angle-differs",[&]{return cat(f.id," ",w);}); } catch (const std::invalid_argument&) {}
      // rotated copies of a cell are different bases
      auto turned=Direct<double>(lat::mul(lat::rotation(r),f.A),MatrixVectors::column,g); M.check(!(turned==base),"equal:rotated",[&]{return f.id;}); }
    M.site("refusals"); { auto bad=deg; double s=deg[1]+deg[2]; bool threw=false; bad[0]=std::min(s,360-s)+r.uni(0.5,5); if (bad[0]<180) { try { (void)Direct<double>(f.c.len,bad,std::string("P 1")); } catch (const std::exception&) { threw=true; } M.check(threw,"impossible-angles",[&]{return cat(f.id," with alpha ",bad[0]);}); } }
  });

}
