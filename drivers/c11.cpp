// C11: atoms of a unit cell under the symmetry operations of its lattice.
#include "mon.hpp"
#include "lat.hpp"
#include "basis.hpp"
#include "phonon.hpp"
using namespace mon; using namespace brille; using lat::V; using sym::Op;
using D3 = std::array<double,3>;
static D3 opmove(const Op& o, const D3& p) { D3 x; for (int i=0;i<3;++i) { long double s=o.t[i]/24.0L; for (int j=0;j<3;++j) s+=o.r[3*i+j]*(long double)p[j]; x[i]=double(s); } return x; }
static double off(const D3& a, const D3& b) { double m=0; for (int i=0;i<3;++i) { double d=a[i]-b[i]; m=std::max(m,std::abs(d-std::round(d))); } return m; }
int main(int argc, char** argv) {
  Monitor M("C11", argc, argv); const auto& S=sym::settings();
  M.run(M.thorough() ? 150000 : 4240, [&](Rng& r, size_t c) {
    const size_t si=c%S.size(); const auto& g=lat::group_of(si); std::vector<Op> ops(g.begin(),g.end()); std::string id=cat("setting ",si+1," ",S[si].symbol); M.note(id);
    // orbits of special and general positions; atoms of one type never closer than 0.02 to each other
    std::vector<D3> pos; std::vector<ind_t> typ; std::vector<int> orbit; std::vector<char> fixed; int norb=int(r.integer(1,4)), made=0; for (int k=0;k<norb;++k) { D3 p; int kind=int(r.integer(0,3)); for (auto& x : p) x = kind==0 ? r.integer(0,11)/12. : kind==1 ? r.integer(0,7)/8. : kind==2&&r.chance(0.5) ? r.integer(0,3)/4. : r.uni(0,1); if (kind==3&&r.chance(0.3)) { p[1]=p[0]; if (r.chance(0.4)) p[2]=p[0]; else if (r.chance(0.5)) p[2]=0; }
      if (r.chance(0.4)) { auto& op=r.pick(ops); lat::M9 w; for (int i=0;i<9;++i) w[i]=(i%4==0)-op.r[i]; if (std::abs(lat::det(w))>0.5) { V t; for (int i=0;i<3;++i) t[i]=op.t[i]/24.+double(r.integer(-1,1)); p=lat::mulv(lat::inv(w),t); } }
      std::vector<D3> o; bool good=true; std::array<double,9> avg{}; int stab=0; for (auto& op : ops) { auto q=opmove(op,p); bool seen=false; if (off(q,p)<1e-9) { ++stab; for (int i=0;i<9;++i) avg[i]+=op.r[i]; } for (auto& x : o) { double d=off(q,x); if (d<1e-9) seen=true; else if (d<0.05) good=false; } if (!seen) o.push_back(q); }
      if (!good||pos.size()+o.size()>96) continue; ind_t t=ind_t(r.integer(0,2)); for (auto& q : o) for (size_t i=0;i<pos.size();++i) if (off(q,pos[i])<0.05) good=false; if (!good) continue;
      bool fx=true; for (auto x : avg) fx=fx&&std::abs(x/stab)<1e-9; for (auto& q : o) { for (auto& x : q) { x-=std::floor(x+1e-9); if (r.chance(0.15)) x+=double(r.integer(-1,1)); } pos.push_back(q); typ.push_back(t); orbit.push_back(made); fixed.push_back(fx); } ++made; }
    if (pos.empty()) throw Skip("no orbit fits"); const size_t n=pos.size();
    { std::vector<size_t> p(n); for (size_t i=0;i<n;++i) p[i]=i; r.shuffle(p); auto a=pos; auto b=typ; auto o=orbit; auto f=fixed; for (size_t i=0;i<n;++i) { pos[i]=a[p[i]]; typ[i]=b[p[i]]; orbit[i]=o[p[i]]; fixed[i]=f[p[i]]; } }
    uint64_t h=11; h=hash_mix(h,si); for (auto& p : pos) for (auto x : p) h=hash_dbl(h,x); M.distinct(h); M.event("bases"); M.event("atoms",n);
    auto show=[&]{ std::string s=id+":"; for (size_t i=0;i<n&&i<8;++i) s+=cat(" ",typ[i],lat::show(V(pos[i]))); return s; };
    Basis b(pos,typ); M.site("images"); M.check(b.size()==n&&b.types()==typ&&b.positions()==pos,"stored",show);
    // images: every operation permutes the atoms of each type
    auto image=[&](const Op& o, size_t k){ auto q=opmove(o,pos[k]); for (size_t i=0;i<n;++i) if (typ[i]==typ[k]&&off(q,pos[i])<1e-9) return i; throw std::runtime_error("oracle: orbit not closed"); };
    std::vector<size_t> pick; for (int i=0;i<6;++i) pick.push_back(size_t(r.u64()%ops.size())); std::map<size_t,std::vector<size_t>> perm;
    auto permutation=[&](size_t oi){ auto& p=perm[oi]; if (p.empty()) { auto m=sym::back(ops[oi]); std::vector<char> hit(n,0); for (size_t k=0;k<n;++k) { auto [found,l]=b.equivalent_after_operation(k,m); size_t w=image(ops[oi],k); M.eval(); M.check(found&&l==w,"image",[&]{return cat(show()," atom ",k," under ",sym::show(ops[oi])," is ",found?std::to_string(l):std::string("lost")," expected ",w);}); p.push_back(found?l:n); if (found&&l<n) hit[l]++; } bool bij=true; for (auto x : hit) bij=bij&&x==1; M.check(bij,"permutation",[&]{return cat(show()," under ",sym::show(ops[oi]));}); M.event("permutations"); } return p; };
    for (size_t x=0;x+1<pick.size();x+=2) { auto A=permutation(pick[x]), B=permutation(pick[x+1]); Op ab=ops[pick[x]]*ops[pick[x+1]]; size_t ci=size_t(std::find(ops.begin(),ops.end(),ab)-ops.begin()); auto C=permutation(ci); bool ok=true; for (size_t k=0;k<n;++k) ok=ok&&B[k]<n&&A[B[k]]==C[k]; M.check(ok,"composition",[&]{return cat(show()," under ",sym::show(ops[pick[x]]),sym::show(ops[pick[x+1]]));}); }
    for (auto oi : pick) { bool symm=true; for (auto t : ops[oi].t) symm=symm&&t==0; if (symm) { std::array<int,9> w=ops[oi].r; for (size_t k=0;k<n;++k) { auto [found,l]=b.equivalent_after_operation(k,w); M.check(found&&l==image(ops[oi],k),"image:point-operation",[&]{return cat(show()," atom ",k," under ",sym::show(ops[oi]));}); } } }
    { bool threw=false; try { (void)b.equivalent_after_operation(n,sym::back(ops[0])); } catch (const std::runtime_error&) { threw=true; } M.check(threw,"image:range",show); }
    // lookup of points, with and without noise
    M.site("lookup"); for (int rep=0;rep<4;++rep) { size_t k=size_t(r.u64()%n); D3 q=pos[k]; for (auto& x : q) x+=double(r.integer(-2,2)); double e=std::pow(10.,r.uni(-10,-3)); D3 q2=q; for (auto& x : q2) x+=e*r.uni(-0.9,0.9); auto [f1,i1]=b.equivalent_to(typ[k],q,1e-12); M.check(f1&&i1==k,"lookup",[&]{return cat(show()," atom ",k," at ",lat::show(V(q)));}); auto [f2,i2]=b.equivalent_to(typ[k],q2,e); M.check(f2&&i2==k,"lookup:within-tolerance",[&]{return cat(show()," atom ",k," at ",lat::show(V(q2))," tolerance ",e);}); auto q3=q; q3[int(r.integer(0,2))]+=(r.chance(0.5)?1:-1)*e*r.uni(1.1,8); auto [f3,i3]=b.equivalent_to(typ[k],q3,e); M.check(!f3&&i3==n,"lookup:beyond-tolerance",[&]{return cat(show()," atom ",k," at ",lat::show(V(q3))," tolerance ",e);}); auto [f4,i4]=b.equivalent_to(typ[k]+7,q,1e-9); M.check(!f4&&i4==n,"lookup:type",show);
      auto [f5,i5,d5]=b.closest_to(typ[k],q2,e); M.check(f5&&i5==k&&lat::adiff(V(d5),lat::add(V(q2),V(q),-1))<1e-12,"closest:within",[&]{return cat(show()," ",lat::show(V(d5)));}); D3 far; for (auto& x : far) x=r.uni(-1,2); auto [f6,i6,d6]=b.closest_to(typ[k],far,1e-12); double best=1e9; auto sep=[&](size_t i){ double s=0; for (int j=0;j<3;++j) { double d=far[j]-pos[i][j]; d-=std::round(d); s+=d*d; } return s; }; for (size_t i=0;i<n;++i) if (typ[i]==typ[k]) best=std::min(best,sep(i)); M.check(!f6&&i6<n&&typ[i6]==typ[k]&&std::abs(sep(i6)-best)<1e-12,"closest",[&]{return cat(show()," to ",lat::show(V(far))," is ",i6);}); if (i6<n) { double s=0; for (int j=0;j<3;++j) { double d=far[j]-pos[i6][j]-d6[j]; s=std::max(s,std::abs(d-std::round(d))); s=std::max(s,std::abs(d6[j])-0.5); } M.check(s<1e-12,"closest:difference",[&]{return cat(show()," ",lat::show(V(d6)));}); } }
    // a noisy basis, compared within a tolerance, gives the noise-free permutations
    { M.site("noise"); double e=std::pow(10.,r.uni(-9,-3)); auto np=pos; for (auto& p : np) for (auto& x : p) x+=e*r.uni(-0.2,0.2); Basis nb(np,typ); for (auto oi : {pick[0],pick[1]}) for (size_t k=0;k<n;++k) { auto [f,l]=nb.equivalent_after_operation(k,sym::back(ops[oi]),e); M.check(f&&l==image(ops[oi],k),"image:noisy",[&]{return cat(show()," atom ",k," noise ",e);}); } M.event("noisy bases"); }
    // recorded images and lattice translations
    M.site("table"); { auto f=lat::make(si,r); try { auto l=lattice::Direct<double>(f.c.len,f.c.ang,std::string(S[si].symbol),b,r.chance(0.5)); GammaTable T(true,l,0,1e-10); auto ps=l.pointgroup_symmetry(); for (ind_t q=0;q<ps.size();++q) { auto R=ps.get(q); bool any=false; std::string why; for (auto& op : ops) if (op.r==R) { bool ok=true; V shift{0,0,0}; for (ind_t k=0;k<n&&ok;++k) { auto v=T.vector(k,q); D3 w{v.val(0,0)+pos[k][0],v.val(0,1)+pos[k][1],v.val(0,2)+pos[k][2]}; auto x=opmove(op,w); ind_t lk=T.F0(k,q); ok=lk<n&&typ[lk]==typ[k]; if (!ok) break; V dd=lat::add(V(x),V(pos[lk]),-1); if (k==0) shift=dd; ok=lat::adiff(dd,shift)<1e-9&&off(x,pos[lk])<1e-9; for (int i=0;i<3;++i) ok=ok&&std::abs(v.val(0,i)-std::round(v.val(0,i)))<1e-9; } if (ok) { any=true; break; } } M.check(any,"table",[&]{return cat(show()," operation ",sym::show(R));}); M.event("table rows"); } bool threw=false; try { (void)T.F0(n,0); } catch (const std::runtime_error&) { threw=true; } M.check(threw,"table:range",show); M.check(l.basis().positions()==pos||lat::adiff(V(l.basis().position(0)),V(pos[0]))<1e-12,"kept-by-lattice",show); } catch (const std::exception& ex) { M.fail("compatible-refused",cat(show(),": ",ex.what())); } }
    // snapping
    auto mots=[&]{ std::vector<Motion<int,double>> v; for (auto& o : ops) v.push_back(sym::back(o)); return v; }(); auto moved=[&](const Basis& q, const std::vector<D3>& from){ double m=0; for (size_t i=0;i<n;++i) m=std::max(m,lat::adiff(V(q.position(i)),V(from[i]))); return m; };
    auto closed=[&](const Basis& q, double tol){ for (auto& o : ops) for (size_t k=0;k<q.size();++k) { auto x=opmove(o,q.position(k)); bool hit=false; for (size_t i=0;i<q.size()&&!hit;++i) hit=q.types()[i]==q.types()[k]&&off(x,q.position(i))<tol; if (!hit) return false; } return true; };
    M.site("snapping"); if (n<=48) { { Basis q(pos,typ); bool ok=q.snap_to(mots); M.check(ok&&moved(q,pos)<1e-13,"snap:exact",[&]{return cat(show()," moved ",moved(q,pos));}); }
      double e=std::pow(10.,r.uni(-9,-3)); { // atoms without freedom carry arbitrary noise; the others stay
        auto np=pos; size_t cnt=0; for (size_t i=0;i<n;++i) if (fixed[i]) { ++cnt; for (auto& x : np[i]) x+=e*r.uni(-1,1); } if (cnt) { Basis q(np,typ); bool ok=q.snap_to(mots); M.event("snapped bases"); M.check(ok,"snap:special",[&]{return cat(show()," noise ",e);}); if (ok) { double m=0; for (size_t i=0;i<n;++i) m=std::max(m,off(q.position(i),pos[i])); M.check(m<1e-12&&moved(q,np)<=2*e,"snap:onto-special",[&]{return cat(show()," noise ",e," left ",m," moved ",moved(q,np));}); auto ll=lat::make(si,r); try { auto l=lattice::Direct<double>(ll.c.len,ll.c.ang,std::string(S[si].symbol),Basis(np,typ)); auto lb=l.basis(); double m2=0; for (size_t i=0;i<n;++i) m2=std::max(m2,off(lb.position(i),pos[i])); M.check(m2<1e-12,"snap:lattice",[&]{return cat(show()," noise ",e," left ",m2);}); } catch (const std::exception& ex) { M.fail("snap:lattice:throws",cat(show(),": ",ex.what())); } } } }
      { auto np=pos; for (auto& p : np) for (auto& x : p) x+=e*r.uni(-1,1); Basis q(np,typ); bool ok=q.snap_to(mots); M.check(moved(q,np)<=3*e,"snap:moved-little",[&]{return cat(show()," noise ",e," moved ",moved(q,np));}); if (ok) M.check(closed(q,1e-12),"snap:claims-success",[&]{return cat(show()," noise ",e);}); M.event(ok?"noisy bases snapped":"noisy bases refused"); M.check(q.types()==typ,"snap:types",show); }
      // incompatible bases: an atom missing, moved or of another type
      { auto np=pos; auto nt=typ; int what=int(r.integer(0,2)); size_t k=size_t(r.u64()%n); if (what==0) { np.erase(np.begin()+k); nt.erase(nt.begin()+k); } else if (what==1) { for (auto& x : np[k]) x+=r.uni(0.1,0.4); } else nt[k]=9; Basis q(np,nt); if (!np.empty()&&!closed(q,1e-3)) { double far=0; Basis q0=q; bool ok=q.snap_to(mots); for (size_t i=0;i<q.size();++i) far=std::max(far,lat::adiff(V(q.position(i)),V(q0.position(i)))); const char* w[3]={"an atom missing","an atom moved","an atom retyped"}; M.event("incompatible bases"); M.check(!ok,"incompatible:accepted",[&]{return cat(show()," with ",w[what]," (",k,") accepted after moving an atom by ",far);}); M.check(far<=0.02,"incompatible:moved",[&]{return cat(show()," with ",w[what]," (",k,"): moved ",far);}); auto ll=lat::make(si,r); bool threw=false; try { (void)lattice::Direct<double>(ll.c.len,ll.c.ang,std::string(S[si].symbol),q0); } catch (const std::runtime_error&) { threw=true; } M.check(threw,"incompatible:lattice-accepts",[&]{return cat(show()," with ",w[what]," (",k,")");}); threw=sym::centrings(g)>1; try { auto l=lattice::Direct<double>(ll.c.len,ll.c.ang,std::string(S[si].symbol),q0,false); GammaTable T(true,l,0,1e-6); } catch (const std::runtime_error&) { threw=true; } M.check(threw,"incompatible:table",[&]{return cat(show()," with ",w[what]);}); } } }
  });
}
