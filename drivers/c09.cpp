// C09: primitive and conventional descriptions of a lattice and of vectors on it.
#include "mon.hpp"
#include "lat.hpp"
#include "transform.hpp"
#include "omp.h"
using namespace mon; using namespace brille; using namespace brille::lattice; using lat::M9; using lat::V;
constexpr auto LA=LengthUnit::angstrom, LB=LengthUnit::inverse_angstrom;
static std::vector<V> all(const bArray<double>& a) { std::vector<V> v; std::vector<double> f; for (auto x : a.subItr()) f.push_back(a[x]); for (size_t i=0;i+2<f.size();i+=3) v.push_back({f[i],f[i+1],f[i+2]}); return v; }
int main(int argc, char** argv) {
  Monitor M("C09", argc, argv); const auto& S=sym::settings();
  M.run(M.thorough() ? 150000 : 4240, [&](Rng& r, size_t c) {
    if (c<8) { // the tabulated matrices themselves
      const Bravais bs[8]{Bravais::P,Bravais::A,Bravais::B,Bravais::C,Bravais::I,Bravais::F,Bravais::R,Bravais::P}; const int n[8]{1,2,2,2,2,4,3,1}; auto b=bs[c]; PrimitiveTransform T(b); M.note(cat("centring ",bravais_string(b))); M.site("matrices");
      auto p=T.get_6P(), q=T.get_invP(); M.check(sym::mul(p,q)==(sym::R9{6,0,0,0,6,0,0,0,6})&&sym::mul(q,p)==(sym::R9{6,0,0,0,6,0,0,0,6}),"inverse",[&]{return cat(bravais_string(b),sym::show(p),sym::show(q));}); M.check(T.get_6Pt()==sym::tr(p)&&T.get_invPt()==sym::tr(q),"transpose",[&]{return cat(bravais_string(b));});
      M.check(sym::det(q)==n[c],"determinant",[&]{return cat(bravais_string(b)," ",sym::det(q));}); M.check(T.does_anything()==(b!=Bravais::P)&&T.does_nothing()==(b==Bravais::P),"does-anything",[&]{return cat(bravais_string(b));});
      bool threw=false; try { (void)PrimitiveTransform(Bravais::_).get_6P(); } catch (const std::runtime_error&) { threw=true; } M.check(threw,"no-centring",[&]{return std::string();}); }
    auto f=lat::make(c%S.size(), r); M.note(f.id); M.event("cells"); uint64_t h=hash_mix(9,f.si); for (auto x : f.G) h=hash_dbl(h,x); M.distinct(h);
    std::vector<std::array<double,3>> pos; std::vector<ind_t> typ; { sym::V3 p{int(r.integer(0,23)),int(r.integer(0,23)),int(r.integer(0,23))}; std::set<sym::V3> o; for (auto& op : f.g) { auto q=sym::mulv(op.r,p); for (int i=0;i<3;++i) q[i]=sym::md(q[i]+op.t[i]); o.insert(q); } if (o.size()<=24) for (auto& q : o) { pos.push_back({q[0]/24.,q[1]/24.,q[2]/24.}); typ.push_back(0); } }
    M9 A=lat::mul(lat::rotation(r),f.A); bool mat=r.chance(0.5); Basis bas(pos,typ);
    lat::L l = mat ? Direct<double>(A,MatrixVectors::column,std::string(S[f.si].symbol),bas) : Direct<double>(f.c.len,f.c.ang,std::string(S[f.si].symbol),bas);
    const double K=lat::cond(f.A), tol=2e-12*K; A=l.real_basis_vectors(); M9 B=l.reciprocal_basis_vectors();
    M.site("primitive lattice"); auto p=l.primitive(); M9 Ap=p.real_basis_vectors(), Bp=p.reciprocal_basis_vectors(); M.eval();
    std::set<std::array<int,3>> cen; for (auto& op : f.g) if (op.r==sym::E9) cen.insert(op.t); const double n=double(cen.size()); M.event(cat("centring ",n));
    M9 P=lat::mul(lat::inv(A),Ap); // the primitive vectors in conventional coordinates
    bool gen=std::abs(std::abs(lat::det(P))*n-1)<tol; for (int j=0;j<3;++j) { std::array<int,3> t; for (int i=0;i<3;++i) { double x=P[3*i+j]*24; gen=gen&&std::abs(x-std::round(x))<tol*24; t[i]=sym::md(int(std::lround(x))); } gen=gen&&cen.count(t); }
    M.check(gen,"generates-centred-lattice",[&]{return cat(f.id,": ",lat::show(P)," with ",n," lattice points per cell");});
    M.check(lat::det(P)>0,"handedness",[&]{return f.id;});
    M9 I=lat::mul(lat::tr(Ap),Bp); for (int i=0;i<3;++i) I[4*i]-=2*lat::PI; M.check(lat::amax(I)<tol*10,"dual",[&]{return cat(f.id,": ",lat::show(I));});
    M.check(std::abs(p.volume(LA)*n/l.volume(LA)-1)<tol&&std::abs(p.volume(LB)/n/l.volume(LB)-1)<tol,"volume-ratio",[&]{return cat(f.id,": ",p.volume(LA)," ",l.volume(LA));});
    double ma=lat::amax(Ap),mb=lat::amax(Bp); M.check(lat::adiff(p.metric(LA),lat::mul(lat::tr(Ap),Ap))<tol*ma*ma&&lat::adiff(p.metric(LB),lat::mul(lat::tr(Bp),Bp))<tol*mb*mb,"metric",[&]{return f.id;});
    std::vector<sym::Op> ops; M.check(sym::conv(p.spacegroup_symmetry(),ops)&&sym::toset(ops)==f.g,"spacegroup-carried",[&]{return f.id;}); M.check(sym::toset(sym::convp(p.pointgroup_symmetry()))==f.pg,"pointgroup-carried",[&]{return f.id;});
    { auto bb=p.basis(); bool ok=bb.size()==pos.size()&&bb.types()==typ; for (size_t i=0;ok&&i<pos.size();++i) for (int j=0;j<3;++j) ok=ok&&std::abs(bb.position(i)[j]-pos[i][j])<1e-12; M.check(ok,"basis-carried",[&]{return f.id;}); }
    M.check(p.bravais()==Bravais::P&&p.primitive()==p,"primitive-of-primitive",[&]{return f.id;}); M.check(l.real_basis_vectors()==A,"original-unchanged",[&]{return f.id;}); if (n==1) M.check(p==l,"primitive:P-identity",[&]{return f.id;}); else M.check(p!=l,"primitive:differs",[&]{return f.id;});
    // vectors
    const int threads=int(r.integer(1,4)); std::map<LengthUnit,std::vector<V>> kept;
    for (auto lu : {LA,LB}) { const M9& W=lu==LA?A:B; const M9& Wp=lu==LA?Ap:Bp; double m=std::max(lat::amax(W),lat::amax(Wp));
      for (int shape=0;shape<2;++shape) { int nv=int(r.integer(1,12)); std::vector<V> x; for (int i=0;i<nv;++i) { V y; int kind=int(r.integer(0,3)); for (auto& e : y) e=kind==0?double(r.integer(-4,4)):kind==1?r.integer(-12,12)/6.:r.uni(-5,5)*(kind==3?100:1); x.push_back(y); }
        double xm=0; for (auto& y : x) for (auto e : y) xm=std::max(xm,std::abs(e));
        bArray<double> dat=lat::arr(x);
        LVec<double> v(lu,l,dat); if (shape==1&&nv>3) { v=v.view(1,ind_t(nv-1)); x=std::vector<V>(x.begin()+1,x.end()-1); } 
        auto same=[&](const LVec<double>& o, const lat::L& wantl, const M9& ow, const std::string& k){ M.event("vectors transformed",x.size()); M.check(o.lattice()==wantl&&o.type()==lu&&o.shape()==v.shape(),k+":lattice",[&]{return cat(f.id);}); auto y=all(o.hkl()); bool ok=y.size()==x.size(); size_t bad=0; for (size_t i=0;ok&&i<x.size();++i) if (!(lat::adiff(lat::mulv(ow,y[i]),lat::mulv(W,x[i]))<=tol*m*xm)) { ok=false; bad=i; } M.check(ok,k,[&]{return cat(f.id," ",lu==LA?"direct":"reciprocal"," shape ",shape,": ",lat::show(x[bad])," became ",y.size()>bad?lat::show(y[bad]):std::string("nothing"));}); return y; };
        M.site("transform vectors"); auto tp=transform_to_primitive(l,v); auto y=same(tp,p,Wp,"to-primitive"); auto bk=transform_from_primitive(l,tp); auto z=same(bk,l,W,"round-trip"); bool id=true; for (size_t i=0;i<x.size()&&i<z.size();++i) id=id&&lat::adiff(x[i],z[i])<=1e-14*8*xm; M.check(id,"round-trip:components",[&]{return f.id;});
        same(transform_to_primitive(l,tp),p,Wp,"to-primitive:already"); same(transform_from_primitive(l,v),l,W,"from-primitive:already");
        M.site("transform vectors in parallel"); auto tq=parallel_transform_to_primitive(l,v,threads); same(tq,p,Wp,"parallel-to-primitive"); same(parallel_transform_from_primitive(l,tq,threads),l,W,"parallel-round-trip");
        if (shape==0) { kept[lu]=x; auto& k2=kept[LengthUnit(lu==LA?LA:LB)]; (void)k2;
          // numbers of lattice points: integer vectors of the primitive lattice are exactly lattice vectors
          M.site("integer vectors"); std::vector<std::array<int,3>> iv; for (auto& e : x) iv.push_back({int(std::lround(e[0])),int(std::lround(e[1])),int(std::lround(e[2]))}); auto ia=bArray<int>::from_std(iv); LVec<int> li(lu,p,ia);
          auto chk=[&](const LVec<int>& o, const M9& ow, const M9& iw, const std::string& k){ bool ok=o.size(0)==iv.size(); size_t bad=0; for (ind_t i=0;ok&&i<iv.size();++i) { V a{double(iv[i][0]),double(iv[i][1]),double(iv[i][2])}, b{double(o.val(i,0)),double(o.val(i,1)),double(o.val(i,2))}; if (!(lat::adiff(lat::mulv(iw,a),lat::mulv(ow,b))<=tol*m*xm)) { ok=false; bad=i; } } M.check(ok,k,[&]{return cat(f.id," ",lu==LA?"direct ":"reciprocal ",vstr(iv[bad])," became (",o.val(ind_t(bad),0)," ",o.val(ind_t(bad),1)," ",o.val(ind_t(bad),2),")");}); };
          auto guarded=[&](auto fn, const M9& ow, const M9& iw, const std::string& k, bool representable) { bool threw=false; try { chk(fn(),ow,iw,k); } catch (const std::runtime_error&) { threw=true; } M.check(!(threw&&representable),k+":throws",[&]{return f.id;}); };
          M9 T=lat::mul(lat::inv(W),Wp), Ti=lat::inv(T); auto whole=[&](const M9& t){ for (auto& e : iv) { V a=lat::mulv(t,V{double(e[0]),double(e[1]),double(e[2])}); for (auto q : a) if (std::abs(q-std::round(q))>1e-6) return false; } return true; };
          guarded([&]{return transform_from_primitive(l,li);},W,Wp,"integer-from-primitive",whole(T)); guarded([&]{return parallel_transform_from_primitive(l,li,threads);},W,Wp,"integer-from-primitive:parallel",whole(T));
          LVec<int> lc(lu,l,ia); guarded([&]{return transform_to_primitive(l,lc);},Wp,W,"integer-to-primitive",whole(Ti)); guarded([&]{return parallel_transform_to_primitive(l,lc,threads);},Wp,W,"integer-to-primitive:parallel",whole(Ti)); } } }
    // inner products between the two spaces
    { M.site("inner products"); auto& x=kept[LA]; auto& q=kept[LB]; size_t nn=std::min(x.size(),q.size()); x.resize(nn); q.resize(nn); LVec<double> vx(LA,l,lat::arr(x)), vq(LB,l,lat::arr(q)); auto px=transform_to_primitive(l,vx), pq=transform_to_primitive(l,vq); auto d1=dot(vx,vq), d2=dot(px,pq); for (ind_t i=0;i<nn;++i) { double w=2*lat::PI*lat::dot(x[i],q[i]); double sc=2*lat::PI*(lat::norm(x[i])*lat::norm(q[i])+1); M.check(std::abs(d1.val(i,0)-w)<=tol*sc&&std::abs(d2.val(i,0)-w)<=tol*sc,"inner-product",[&]{return cat(f.id,": ",lat::show(x[i])," . ",lat::show(q[i])," = ",d1.val(i,0)," and ",d2.val(i,0)," expected ",w);}); } }
    M.site("incompatible"); { auto len=f.c.len; len[1]*=1.01; auto o=Direct<double>(len,f.c.ang,std::string("P 1")); LVec<double> v(LA,o,lat::arr({V{1,2,3}})); int threw=0; auto t=[&](auto fn){ try { fn(); } catch (const std::runtime_error&) { ++threw; } }; t([&]{(void)transform_to_primitive(l,v);}); t([&]{(void)transform_from_primitive(l,v);}); t([&]{(void)parallel_transform_to_primitive(l,v,1);}); t([&]{(void)parallel_transform_from_primitive(l,v,1);}); M.check(threw==4,"incompatible-refused",[&]{return cat(f.id," refused ",threw," of 4");}); }
  });
}
