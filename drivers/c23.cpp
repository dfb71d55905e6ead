// C23: small linear algebra and trigonometric helpers against textbook definitions evaluated in wide arithmetic.
#include "mon.hpp"
#include <cassert>
#include "utilities.hpp"
#include "approx_float.hpp"
#include "linear_algebra.hpp"
#include "math.hpp"
#include "rotates.hpp"
#include <complex>
#include <numeric>
using namespace mon;
namespace U = brille::utils;
namespace LA = brille::linear_algebra;
using cd = std::complex<double>; using cl = std::complex<long double>;

template<class T> struct W { using t = long double; static constexpr bool exact=false; };
template<> struct W<int> { using t = __int128; static constexpr bool exact=true; };
template<> struct W<long long> { using t = __int128; static constexpr bool exact=true; };
template<> struct W<cd> { using t = cl; static constexpr bool exact=false; };
static long double mag(__int128 x){ return std::abs(static_cast<long double>(x)); }
static long double mag(long double x){ return std::abs(x); }
static long double mag(const cl& x){ return std::abs(x); }
template<class T> typename W<T>::t wide(const T& x){ return static_cast<typename W<T>::t>(x); }
template<> cl wide<cd>(const cd& x){ return cl(x.real(), x.imag()); }
template<class T> std::string pr(const T& x){ std::ostringstream s; s.precision(17); s<<x; return s.str(); }
template<class T> std::string prv(const std::vector<T>& v){ std::string o="["; for(size_t i=0;i<v.size();++i){ if(i)o+=","; o+=pr(v[i]); } return o+"]"; }

template<class T> T gen(Rng& r, int kind){
  if constexpr (std::is_same<T,cd>::value) return cd(gen<double>(r,kind), gen<double>(r,kind));
  else if constexpr (std::is_integral<T>::value) return static_cast<T>(kind==0? r.integer(-3,3): kind==1? r.integer(-1,1): r.integer(-20,20));
  else switch(kind){ case 0: return r.normal(); case 1: return static_cast<double>(r.integer(-2,2)); default: return r.normal()*std::pow(10., r.uni(-3,3)); }
}
// wide determinant by Leibniz permanent-style expansion, with magnitude sum for the error bound
template<class T> typename W<T>::t det_w(size_t n, const std::vector<typename W<T>::t>& a, long double& scale){
  using w = typename W<T>::t; std::vector<size_t> p(n); std::iota(p.begin(),p.end(),0); w d(0); scale=0;
  do { int inv=0; for(size_t i=0;i<n;++i) for(size_t j=i+1;j<n;++j) inv += p[i]>p[j]; w t(1); for(size_t i=0;i<n;++i) t = t*a[i*n+p[i]]; scale+=mag(t); d = inv%2? w(d-t) : w(d+t); } while(std::next_permutation(p.begin(),p.end()));
  return d;
}
template<class T> bool close(const T& got, const typename W<T>::t& want, long double scale){
  if constexpr (W<T>::exact) return static_cast<__int128>(got)==want;
  else return mag(typename W<T>::t(wide(got)-want)) <= 64*2.3e-16L*scale + 1e-300L;
}

template<class T, int N> void square(Monitor& m, Rng& r, const char* tn){
  using w = typename W<T>::t;
  int kind = static_cast<int>(r.integer(0,2));
  m.note(cat(tn," N=",N," kind=",kind));
  constexpr size_t n=N;
  std::vector<T> A(n*n), B(n*n), C(n*n), v(n), x(n); for(auto&q:A)q=gen<T>(r,kind); for(auto&q:B)q=gen<T>(r,kind); for(auto&q:v)q=gen<T>(r,kind);
  uint64_t h=hash_str(cat(tn,N,prv(A),prv(B))); m.distinct(h); m.eval();
  auto key=[&](const char* s){ return cat(s,":",tn); };
  auto det=[&]{ return cat(m.note()," A=",prv(A)," B=",prv(B)," v=",prv(v)); };
  std::vector<w> a(n*n), b(n*n), vv(n); for(size_t i=0;i<n*n;++i){a[i]=wide(A[i]); b[i]=wide(B[i]);} for(size_t i=0;i<n;++i)vv[i]=wide(v[i]);
  auto prodw=[&](const std::vector<w>& p, const std::vector<w>& q, size_t I, size_t K, size_t J, std::vector<long double>& sc){ std::vector<w> o(I*J); sc.assign(I*J,0); for(size_t i=0;i<I;++i)for(size_t j=0;j<J;++j){ w s(0); for(size_t k=0;k<K;++k){ w t=p[i*K+k]*q[k*J+j]; s=s+t; sc[i*J+j]+=mag(t);} o[i*J+j]=s; } return o; };
  auto cmp=[&](const std::vector<T>& got, const std::vector<w>& want, const std::vector<long double>& sc){ for(size_t i=0;i<want.size();++i) if(!close<T>(got[i],want[i],sc[i])) return false; return true; };
  std::vector<long double> sc;
  // trace
  m.site("trace"); { w t(0); long double s=0; for(size_t i=0;i<n;++i){t=t+a[i*n+i]; s+=mag(a[i*n+i]);} m.check(close<T>(U::trace<T,N>(A.data()),t,s), key("trace"), det); }
  m.site("product"); { auto p=prodw(a,b,n,n,n,sc); U::multiply_matrix_matrix<T,T,T,N>(C.data(),A.data(),B.data()); m.check(cmp(C,p,sc), key("matrix-matrix"), det);
    U::mul_mat_mat(C.data(), n, A.data(), B.data()); m.check(cmp(C,p,sc), key("mul_mat_mat"), det);
    auto q=prodw(a,vv,n,n,1,sc); U::multiply_matrix_vector<T,T,T,N>(x.data(),A.data(),v.data()); m.check(cmp(x,q,sc), key("matrix-vector"), det);
    U::mul_mat_vec(x.data(), n, A.data(), v.data()); m.check(cmp(x,q,sc), key("mul_mat_vec"), det);
    { auto y=v; U::mul_mat_vec_inplace(n, A.data(), y.data()); m.check(cmp(y,q,sc), key("mul_mat_vec_inplace"), det); }
    auto z=prodw(vv,a,1,n,n,sc); U::multiply_vector_matrix<T,T,T,N>(x.data(),v.data(),A.data()); m.check(cmp(x,z,sc), key("vector-matrix"), det);
    U::mul_vec_mat(x.data(), n, v.data(), A.data()); m.check(cmp(x,z,sc), key("mul_vec_mat"), det);
    U::add_matrix<T,T,T,N>(C.data(),A.data(),B.data()); bool ok=true; for(size_t i=0;i<n*n;++i) ok&= C[i]==T(A[i]+B[i]); m.check(ok,key("add"),det);
    U::subtract_matrix<T,T,T,N>(C.data(),A.data(),B.data()); ok=true; for(size_t i=0;i<n*n;++i) ok&= C[i]==T(A[i]-B[i]); m.check(ok,key("subtract"),det); }
  m.site("transpose"); { bool ok=true; U::matrix_transpose<T,N>(C.data(),A.data()); for(size_t i=0;i<n;++i)for(size_t j=0;j<n;++j) ok&= C[i*n+j]==A[j*n+i]; m.check(ok,key("transpose"),det);
    auto D=A; D.resize(n*n+16,T(7)); U::matrix_transpose<T,N>(D.data()); ok=true; for(size_t i=0;i<n;++i)for(size_t j=0;j<n;++j) ok&= D[i*n+j]==A[j*n+i]; for(size_t i=n*n;i<D.size();++i) ok&= D[i]==T(7); m.check(ok,key("transpose-in-place"),det);
    std::vector<T> R(n*(n+1)), Rt(n*(n+1)); for(auto&q:R)q=gen<T>(r,kind); U::array_transpose<T,N,N+1>(Rt.data(),R.data()); ok=true; for(size_t i=0;i<n+1;++i)for(size_t j=0;j<n;++j) ok&= Rt[i*n+j]==R[j*(n+1)+i]; m.check(ok,key("transpose-rectangular"),det); 
    if constexpr (std::is_same<T,cd>::value){ U::complex_conj_matrix_transpose<double,N>(C.data(),A.data()); ok=true; for(size_t i=0;i<n;++i)for(size_t j=0;j<n;++j) ok&= C[i*n+j]==std::conj(A[j*n+i]); m.check(ok,key("conjugate-transpose"),det); } }
  m.site("metric"); { std::vector<w> at(n*n); for(size_t i=0;i<n;++i)for(size_t j=0;j<n;++j) at[i*n+j]=a[j*n+i]; auto p=prodw(at,a,n,n,n,sc); U::matrix_metric<T,N>(C.data(),A.data()); m.check(cmp(C,p,sc), key("metric"), det); }
  m.site("copy"); { U::copy_matrix<T,N>(C.data(),A.data()); m.check(C==A,key("copy"),det); if constexpr(!std::is_same<T,cd>::value){ m.check(U::equal_matrix<T,N>(C.data(),A.data()),key("equal-same"),det); size_t i=static_cast<size_t>(r.integer(0,(long long)n*n-1)); C[i]+=T(2); m.check(!U::equal_matrix<T,N>(C.data(),A.data(),T(1)),key("equal-different"),det); m.check(U::equal_matrix<T,N>(C.data(),A.data(),T(3)),key("equal-within"),det);} }
  m.site("determinant"); long double ds; w d=det_w<T>(n,a,ds); T gd=U::matrix_determinant(A.data(),N); m.check(close<T>(gd,d,ds), key("determinant"), [&]{return cat(det()," got ",pr(gd));});
  m.site("adjoint"); { std::vector<T> J(n*n); U::matrix_adjoint(J.data(),A.data(),N); bool ok=true; std::vector<w> jw(n*n);
    for(size_t i=0;i<n;++i)for(size_t j=0;j<n;++j){ std::vector<w> mi; for(size_t p=0;p<n;++p)for(size_t q=0;q<n;++q) if(p!=j&&q!=i) mi.push_back(a[p*n+q]); long double s; w c = n==1? w(1): det_w<T>(n-1,mi,s); if(n==1)s=1; if((i+j)%2) c=w(0)-c; jw[i*n+j]=c; ok&=close<T>(J[i*n+j],c,s); }
    m.check(ok,key("adjoint"),[&]{return cat(det()," got ",prv(J));}); }
  m.site("inverse"); {
    std::vector<T> I(n*n, T(0)); bool ok=false;
    if constexpr (std::is_same<T,cd>::value) { ok=false; }
    else { T dd=U::matrix_determinant_and_inverse(I.data(),A.data(),T(0),N); m.check(close<T>(dd,d,ds),key("determinant_and_inverse"),det); std::vector<T> I2(n*n); ok=U::matrix_inverse(I2.data(),A.data(),T(0),N);
      if(W<T>::exact) m.check(ok==(d!=w(0)), key("singular-detected"), det);
      else if(mag(d)>1e-6L*ds) m.check(ok, key("regular-inverted"), det);
      if(ok) m.check(I2==I,key("inverse-consistent"),det); }
    bool unimod = W<T>::exact && (d==w(1)||d==w(-1));
    if(ok && ((!W<T>::exact && mag(d)>1e-3L*ds) || unimod)){ m.event(W<T>::exact?"integer inverses":"real inverses"); std::vector<w> iw(n*n); for(size_t i=0;i<n*n;++i) iw[i]=wide(I[i]); auto p=prodw(a,iw,n,n,n,sc); bool good=true; for(size_t i=0;i<n;++i)for(size_t j=0;j<n;++j){ w e=p[i*n+j]-w(i==j?1:0); good&= W<T>::exact? mag(e)==0 : mag(e)<=1e-9L*(1+sc[i*n+j]); } m.check(good,key("inverse"),[&]{return cat(det()," inverse=",prv(I));});
      if constexpr(!std::is_same<T,cd>::value){ // similarity B^-1 A B with B:=A's role swapped
        m.site("similar"); std::vector<T> S(n*n); bool k=U::similar_matrix<T,N>(S.data(),B.data(),A.data(),T(0)); m.check(k,key("similar-accepted"),det); auto p1=prodw(b,a,n,n,n,sc); std::vector<long double> s2; auto p2=prodw(iw,p1,n,n,n,s2); bool g2=true; for(size_t i=0;i<n*n;++i) g2&= W<T>::exact? wide(S[i])==p2[i] : mag(w(wide(S[i])-p2[i]))<=1e-9L*(1+s2[i]); m.check(g2,key("similar"),det); } }
    // exactly singular matrices of integers: repeated row
    if constexpr(n>1 && W<T>::exact){ auto S=A; for(size_t j=0;j<n;++j) S[n+j]=S[j]; std::vector<T> J(n*n); m.check(!U::matrix_inverse(J.data(),S.data(),T(0),N), key("singular-detected"), det); m.check(U::matrix_determinant(S.data(),N)==T(0), key("determinant"), det); }
  }
  // std::array versions
  if constexpr(!std::is_same<T,cd>::value){
    m.site("linear_algebra");
    std::array<T,n*n> aa, bb; std::array<T,n> va; std::copy(A.begin(),A.end(),aa.begin()); std::copy(B.begin(),B.end(),bb.begin()); std::copy(v.begin(),v.end(),va.begin());
    auto p=prodw(a,b,n,n,n,sc); auto c=LA::mul_mat_mat(aa,bb); m.check(cmp(std::vector<T>(c.begin(),c.end()),p,sc),key("array mul_mat_mat"),det);
    auto q=prodw(a,vv,n,n,1,sc); auto y=LA::mul_mat_vec(aa,va); m.check(cmp(std::vector<T>(y.begin(),y.end()),q,sc),key("array mul_mat_vec"),det);
    if constexpr(n==3){ auto z=prodw(vv,a,1,n,n,sc); auto y2=LA::mul_vec_mat(va,aa); m.check(cmp(std::vector<T>(y2.begin(),y2.end()),z,sc),key("array mul_vec_mat"),det); auto t=brille::transpose(aa); bool ok=true; for(size_t i=0;i<3;++i)for(size_t j=0;j<3;++j) ok&=t[i*3+j]==aa[j*3+i]; m.check(ok,key("array transpose"),det); }
    w s(0); long double ss=0; for(size_t i=0;i<n;++i){ w t=vv[i]*wide(B[i]); s=s+t; ss+=mag(t);} std::array<T,n> vb; std::copy(B.begin(),B.begin()+n,vb.begin());
    m.check(close<T>(LA::dot(va,vb),s,ss),key("array dot"),det); m.check(close<T>(LA::dot(v,std::vector<T>(B.begin(),B.begin()+n)),s,ss),key("vector dot"),det);
    m.check(close<T>(U::vector_dot<T,N>(v.data(),B.data()),s,ss),key("vector_dot<N>"),det); m.check(close<T>(U::vector_dot<T,T,T>(n,v.data(),B.data()),s,ss),key("vector_dot(n)"),det);
    w sq(0); for(size_t i=0;i<n;++i) sq=sq+vv[i]*vv[i]; m.check(close<T>(U::vector_norm_squared<T,N>(v.data()),sq,mag(sq)),key("norm squared"),det);
    if constexpr(!W<T>::exact){ long double nn=std::sqrt(static_cast<long double>(sq)); m.check(close<T>(LA::norm(va),nn,nn)&&close<T>(LA::norm(v),nn,nn),key("norm"),det); if(nn>0){ auto hh=LA::hat(va); bool ok=true; for(size_t i=0;i<n;++i) ok&=close<T>(hh[i],vv[i]/nn,1); m.check(ok,key("hat"),det);} 
      if(mag(d)>1e-3L*ds){ auto iv=LA::mat_inverse(aa); std::vector<w> iw(iv.begin(),iv.end()); auto pp=prodw(a,iw,n,n,n,sc); bool good=true; for(size_t i=0;i<n;++i)for(size_t j=0;j<n;++j) good&= mag(w(pp[i*n+j]-w(i==j?1:0)))<=1e-9L*(1+sc[i*n+j]); m.check(good,key("mat_inverse"),det);
        auto [nonsing, ludet, lu]=LA::LU_decomposition(aa); m.check(nonsing&&mag(w(wide(ludet)-d))<=1e-9L*ds,key("LU determinant"),[&]{return cat(det()," got ",ludet);}); } }
    if constexpr(n==3){ T c3[3]; U::vector_cross<T,T,T,3>(c3,v.data(),B.data()); bool ok=true; for(size_t i=0;i<3;++i){ size_t j=(i+1)%3,k=(i+2)%3; w p1=vv[j]*wide(B[k]), p2=vv[k]*wide(B[j]); ok&=close<T>(c3[i],w(p1-p2),mag(p1)+mag(p2)); } m.check(ok,key("cross"),det);
      // triple product = determinant of the rows
      std::vector<T> M3(9); std::copy(v.begin(),v.end(),M3.begin()); std::copy(B.begin(),B.begin()+6,M3.begin()+3); T bc[3]; U::vector_cross<T,T,T,3>(bc,B.data(),B.data()+3); T tp=U::vector_dot<T,3>(v.data(),bc); std::vector<w> m3(9); for(size_t i=0;i<9;++i)m3[i]=wide(M3[i]); long double s3; w d3=det_w<T>(3,m3,s3); m.check(close<T>(tp,d3,s3*4),key("triple"),det); }
  }
}

template<class TA, class TB, class TC> void rect(Monitor& m, Rng& r, const char* nm){
  size_t n=static_cast<size_t>(r.integer(1,5)), l=static_cast<size_t>(r.integer(1,5)), k=static_cast<size_t>(r.integer(1,5));
  m.note(cat(nm," ",n,"x",l,"x",k)); std::vector<TA> A(n*l); std::vector<TB> B(l*k); std::vector<TC> C(n*k, TC(99)); for(auto&q:A)q=gen<TA>(r,0); for(auto&q:B)q=gen<TB>(r,0);
  m.site(nm); U::mul_arrays(C.data(), n, l, k, A.data(), B.data());
  bool ok=true; for(size_t i=0;i<n;++i)for(size_t j=0;j<k;++j){ cl s(0,0); long double sc=0; for(size_t p=0;p<l;++p){ cl x=cl(cd(A[i*l+p]))*cl(cd(B[p*k+j])); s+=x; sc+=std::abs(x);} ok&= std::abs(cl(cd(C[i*k+j]))-s)<=1e-14L*sc; }
  m.check(ok,cat("mul_arrays:",nm),[&]{return cat(m.note()," A=",prv(A)," B=",prv(B)," C=",prv(C));}); m.distinct(hash_str(cat(nm,prv(A),prv(B))));
}

static void complexvec(Monitor& m, Rng& r){
  size_t n=static_cast<size_t>(r.integer(1,12)); m.note(cat("complex vectors n=",n));
  std::vector<cd> a(n), b(n); std::vector<double> x(n), y(n); int kind=static_cast<int>(r.integer(0,2)); for(auto&q:a)q=gen<cd>(r,kind); for(auto&q:b)q=gen<cd>(r,kind); for(auto&q:x)q=gen<double>(r,kind); for(auto&q:y)q=gen<double>(r,kind);
  if(r.chance(0.2)) b=a; if(r.chance(0.1)) for(auto&q:a)q=0; if(r.chance(0.1)) y=x; if(r.chance(0.1)) for(size_t i=0;i<n;++i)y[i]=-3*x[i];
  auto det=[&]{return cat(m.note()," a=",prv(a)," b=",prv(b)," x=",prv(x)," y=",prv(y));};
  auto herm=[&](auto const&p, auto const&q, long double& s){ cl o(0,0); s=0; for(size_t i=0;i<n;++i){ cl t=std::conj(cl(cd(p[i])))*cl(cd(q[i])); o+=t; s+=std::abs(t);} return o; };
  auto nrm=[&](auto const&p){ long double s=0; for(size_t i=0;i<n;++i) s+=std::norm(cl(cd(p[i]))); return std::sqrt(s); };
  long double s; cl h;
  auto okc=[&](cd g, cl wv, long double sc){ return std::abs(cl(g)-wv)<=1e-13L*sc+1e-300L; };
  m.site("hermitian_product"); h=herm(a,b,s); m.check(okc(U::hermitian_product(n,a.data(),b.data()),h,s),"hermitian_product:cc",det); m.check(std::abs(U::vector_product(n,a.data(),b.data())-(double)std::norm(h))<=1e-13*(double)(s*s)+1e-300,"vector_product:cc",det);
  h=herm(a,y,s); m.check(okc(U::hermitian_product(n,a.data(),y.data()),h,s),"hermitian_product:cr",det); m.check(std::abs(U::vector_product(n,a.data(),y.data())-(double)std::norm(h))<=1e-13*(double)(s*s)+1e-300,"vector_product:cr",det);
  h=herm(x,b,s); m.check(okc(U::hermitian_product(n,x.data(),b.data()),h,s),"hermitian_product:rc",det); m.check(std::abs(U::vector_product(n,x.data(),b.data())-(double)std::norm(h))<=1e-13*(double)(s*s)+1e-300,"vector_product:rc",det);
  h=herm(x,y,s); m.check(okc(cd(U::hermitian_product(n,x.data(),y.data())),h,s),"hermitian_product:rr",det); m.check(okc(cd(U::vector_product(n,x.data(),y.data())),h,s),"vector_product:rr",det);
  m.site("distance"); { long double d=0; for(size_t i=0;i<n;++i)d+=std::norm(cl(a[i])-cl(b[i])); d=std::sqrt(d); long double tot=nrm(a)+nrm(b); m.check(std::abs(U::vector_distance(n,a.data(),b.data())-d)<=1e-13L*tot,"vector_distance:c",det); d=0; for(size_t i=0;i<n;++i)d+=((long double)x[i]-y[i])*((long double)x[i]-y[i]); d=std::sqrt(d); m.check(std::abs(U::vector_distance(n,x.data(),y.data())-d)<=1e-13L*(nrm(x)+nrm(y)),"vector_distance:r",det);
    m.check(std::abs(U::squared_distance(a[0],b[0])-(double)std::norm(cl(a[0])-cl(b[0])))<=1e-13*(double)(std::norm(cl(a[0]))+std::norm(cl(b[0]))),"squared_distance:c",det); m.check(std::abs(U::magnitude(a[0])-(double)std::abs(cl(a[0])))<=1e-14*(double)std::abs(cl(a[0])),"magnitude:c",det); m.check(U::magnitude(x[0])==std::abs(x[0])&&U::squared_distance(x[0],y[0])==(x[0]-y[0])*(x[0]-y[0]),"magnitude:r",det);
    if(n>=4){ size_t k= n>=9?3:2; long double f=0; for(size_t i=0;i<k*k;++i)f+=std::norm(cl(a[i])-cl(b[i])); m.check(std::abs(U::frobenius_distance(k,a.data(),b.data())-std::sqrt(f))<=1e-13L*tot,"frobenius:c",det); f=0; for(size_t i=0;i<k*k;++i)f+=((long double)x[i]-y[i])*((long double)x[i]-y[i]); m.check(std::abs(U::frobenius_distance(k,x.data(),y.data())-std::sqrt(f))<=1e-13L*(nrm(x)+nrm(y)),"frobenius:r",det);} }
  // angles: cosine compared (acos is ill-conditioned near 1)
  auto angle=[&](const char* nm, double got, long double num, long double na, long double nb){ long double c = (na>0&&nb>0)? num/(na*nb) : ((na>0||nb>0)? 0.L: 1.L); m.check(std::isfinite(got)&&got>=0&&got<=3.1415926536&&std::abs(std::cos((long double)got)-c)<=1e-12L,cat("angle:",nm),[&]{return cat(det()," got ",got," cos ",(double)c);}); };
  m.site("angle"); long double sc; h=herm(x,y,sc); angle("vector real",U::vector_angle(n,x.data(),y.data()),h.real(),nrm(x),nrm(y)); angle("hermitian real",U::hermitian_angle(n,x.data(),y.data()),h.real(),nrm(x),nrm(y));
  h=herm(a,b,sc); angle("euclidean",U::euclidean_angle(n,a.data(),b.data()),h.real(),nrm(a),nrm(b)); angle("vector complex",U::vector_angle(n,a.data(),b.data()),h.real(),nrm(a),nrm(b)); angle("hermitian complex",U::hermitian_angle(n,a.data(),b.data()),std::abs(h),nrm(a),nrm(b));
  m.site("antiphase"); { cd z=a[0]; cd p=U::antiphase(z); m.check(std::abs(std::abs(p)-1)<1e-14,"antiphase:unit",det); if(std::abs(z)>0) m.check(std::abs(p*z-std::abs(z))<=1e-14*std::abs(z),"antiphase:scalar",det);
    cd pv=U::antiphase(n,a.data(),b.data()); m.check(std::abs(std::abs(pv)-1)<1e-14,"antiphase:unit",det); if(std::abs(h)>1e-6L*nrm(a)*nrm(b)&&nrm(a)*nrm(b)>0){ cl q=cl(pv)*h; m.check(std::abs(q-std::abs(h))<=1e-9L*std::abs(h),"antiphase:vector",det); std::vector<cd> o(n); U::inplace_antiphase(n,a.data(),b.data(),o.data()); bool ok=true; for(size_t i=0;i<n;++i) ok&=std::abs(o[i]-pv*b[i])<=1e-14*std::abs(b[i]); m.check(ok,"antiphase:in place",det);} }
  m.distinct(hash_str(prv(a)+prv(b))); m.eval();
}

template<class T> void trig(Monitor& m, Rng& r, const char* tn){
  namespace M = brille::math; const T eps=std::numeric_limits<T>::epsilon();
  const long double pil=3.141592653589793238462643383279502884L;
  for(int k=0;k<200;++k){
    T d; int what=static_cast<int>(r.integer(0,4));
    if(what==0) d=static_cast<T>(r.integer(-720,720)); else if(what==1) d=static_cast<T>(r.uni(-360,360)); else if(what==2) d=static_cast<T>(30*r.integer(-2000,2000)); else if(what==3) d=static_cast<T>(r.uni(-1,1)*std::pow(10.,r.uni(-8,6))); else d=static_cast<T>(15*r.integer(-48,48))+static_cast<T>(r.uni(-1e-6,1e-6));
    m.note(cat(tn," degrees ",pr(d))); m.site("cosd"); m.eval();
    T c=M::cosd(d), s=M::sind(d);
    long double rd=std::remainder(static_cast<long double>(d),360.0L), wc, ws; // exact reduction
    { long double a=std::abs(rd); int k = a>135? 2 : a>45? 1: 0; long double x=(a-90*k)*(pil/180), cx=std::cos(x), sx=std::sin(x); wc= k==0?cx:k==1?-sx:-cx; ws= k==0?sx:k==1?cx:-sx; if(rd<0) ws=-ws; }
    // reduced to the nearest quadrant the conversion to radian costs a few ulp of the reduced angle
    auto near=[&](T g,long double w){ return std::abs(static_cast<long double>(g)-w)<=4*eps*std::max<long double>(std::abs(w),eps) + 2*eps*std::abs(w) + (std::abs(w)<0.9L? 4*eps*std::abs(w):0) + 2.5L*eps*(std::abs(w)>0.1L); };
    auto det=[&]{return cat(m.note()," cosd=",pr(c)," sind=",pr(s));};
    m.check(near(c,wc)||(wc<1e-15L&&wc>-1e-15L&&std::abs(c)<1e-15L),cat("cosd:",tn),det); m.check(near(s,ws)||(ws<1e-15L&&ws>-1e-15L&&std::abs(s)<1e-15L),cat("sind:",tn),det);
    m.check(M::cosd(-d)==c,cat("cosd even:",tn),det); m.check(M::sind(-d)==-s,cat("sind odd:",tn),det);
    if(std::abs(d)<1e5 && static_cast<long double>(static_cast<T>(d+360))-360.0L==static_cast<long double>(d)){ m.check(M::cosd(static_cast<T>(d+360))==c,cat("cosd periodic:",tn),det); m.check(std::abs(M::sind(static_cast<T>(d+360))-s)<=4*eps*std::abs(s),cat("sind periodic:",tn),det); }
    long double q=std::remainder(static_cast<long double>(d),90.0L);
    if(q==0){ m.event("right angles"); long long k90=llround(static_cast<double>(rd/90)); k90=((k90%4)+4)%4; T ec= k90==0?1:k90==2?-1:0, es=k90==1?1:k90==3?-1:0; m.check(c==ec,cat("cosd exact at right angles:",tn),det); m.check(s==es,cat("sind exact at right angles:",tn),det);} 
    m.site("cos_and_sin_d"); auto [c2,s2]=M::cos_and_sin_d(d); m.check((near(c2,wc)||std::abs(wc)<1e-15L)&&(near(s2,ws)||std::abs(ws)<1e-15L),cat("cos_and_sin_d:",tn),[&]{return cat(m.note()," cos=",pr(c2)," sin=",pr(s2));});
    long long di=llround(static_cast<double>(d)); if(static_cast<T>(di)==d && di>=0&&di<=180){ T hf=T(0.5), r2=static_cast<T>(std::sqrt(0.5L)), r3=static_cast<T>(std::sqrt(0.75L)); bool known=true; T ec=0,es=0; switch(di){case 0:ec=1;es=0;break;case 30:ec=r3;es=hf;break;case 45:ec=r2;es=r2;break;case 60:ec=hf;es=r3;break;case 90:ec=0;es=1;break;case 120:ec=-hf;es=r3;break;case 135:ec=-r2;es=r2;break;case 150:ec=-r3;es=hf;break;case 180:ec=-1;es=0;break;default:known=false;}
      if(known){ m.event("special angles"); m.check(std::abs(c2-ec)<=eps/4&&std::abs(s2-es)<=eps/4 && (ec!=hf||c2==ec)&&(es!=hf||s2==es)&&(ec!=-hf||c2==ec),cat("cos_and_sin_d exact:",tn),[&]{return cat(m.note()," cos=",pr(c2)," sin=",pr(s2));}); } }
    m.site("cos_and_sin"); T rad=M::degree_to_radian(d); m.check(std::abs(static_cast<long double>(rad)-static_cast<long double>(d)*pil/180)<=4*eps*std::abs(static_cast<long double>(rad)),cat("degree_to_radian:",tn),det);
    auto [c3,s3]=M::cos_and_sin(rad); long double rl=static_cast<long double>(rad); m.check(std::abs(c3-std::cos(rl))<=4*eps&&std::abs(s3-std::sin(rl))<=4*eps,cat("cos_and_sin:",tn),[&]{return cat(m.note()," rad=",pr(rad)," cos=",pr(c3)," sin=",pr(s3));});
    m.distinct(hash_dbl(hash_str(tn),static_cast<double>(d)));
  }
  using brille::math::cos_and_sin; for(auto [x,c,s]: std::vector<std::tuple<long double,double,double>>{{0.L,1,0},{pil/3,0.5,std::sqrt(0.75)},{pil/2,0,1},{2*pil/3,-0.5,std::sqrt(0.75)},{pil,-1,0}}){ auto [gc,gs]=cos_and_sin(static_cast<T>(x)); m.check(gc==static_cast<T>(c)&&std::abs(gs-static_cast<T>(s))<=eps/4,cat("cos_and_sin exact:",tn),[&]{return cat("x=",(double)x," cos=",pr(gc)," sin=",pr(gs));}); }
}

static void casts(Monitor& m, Rng& r){
  m.site("my_cast");
  for(int k=0;k<100;++k){
    long long base=r.integer(-1000000,1000000); if(r.chance(0.3)) base=r.integer(-3,3);
    double fr=r.chance(0.3)? 0.5 : r.chance(0.3)? (r.chance(0.5)?std::nextafter(0.5,0.):std::nextafter(0.5,1.)) : r.uni(); double x=static_cast<double>(base)+fr; if(r.chance(0.5)) x=-x;
    m.note(cat("my_cast ",pr(x))); int g=U::my_cast<int,double>(x); m.check(std::abs(static_cast<long double>(x)-g)<=0.5L,"my_cast nearest",[&]{return cat(pr(x)," -> ",g);}); m.eval(); m.distinct(hash_dbl(77,x));
    int i=static_cast<int>(r.integer(-100000,100000)); m.check(U::my_cast<double,int>(i)==i,"my_cast int to double"); m.check(U::my_cast<int,double>(i)==i,"my_cast integer exact");
    double md=U::mod1(x); m.check(md>=-1e-10-1e-16&&md<1 && std::abs(std::remainder(md-x,1.0))<1e-9,"mod1",[&]{return cat("mod1(",pr(x),")=",pr(md));});
  }
  double D[9]; int I[9]; double pert=r.uni(0,0.4); bool isint=true; double worst=0; for(int i=0;i<9;++i){ I[i]=(int)r.integer(-9,9); double e=r.uni(-pert,pert); worst=std::max(worst,std::abs(e)); D[i]=I[i]+e; } (void)isint;
  int C[9]; U::cast_matrix<int,double,3>(C,D); bool ok=true; for(int i=0;i<9;++i) ok&=C[i]==I[i]; m.check(ok,"cast_matrix"); double E[9]; U::cast_matrix<double,int,3>(E,I); ok=true; for(int i=0;i<9;++i) ok&=E[i]==I[i]; m.check(ok,"cast_matrix up"); int cv[3]; U::cast_vector<int,double,3>(cv,D); m.check(cv[0]==I[0]&&cv[1]==I[1]&&cv[2]==I[2],"cast_vector");
  m.site("is_int_matrix"); double tol=r.uni(0,0.4); if(std::abs(tol-worst)>1e-9){ bool g=U::is_int_matrix<double,double,3>(D,tol); m.check(g==(worst<=tol),"is_int_matrix",[&]{return cat("worst deviation ",worst," tol ",tol," says ",g);}); }
  m.site("u2s/s2u");
  auto thr=[&](auto f){ try { f(); return false; } catch(const std::overflow_error&){ return true; } };
  for(int k=0;k<40;++k){ unsigned long long u=r.u64()>>r.integer(0,63); m.note(cat("u=",u));
    auto tryu=[&](auto s, const char* nm){ using S=decltype(s); bool fits=u<=static_cast<unsigned long long>(std::numeric_limits<S>::max()); S got=0; bool t=thr([&]{got=U::u2s<S>(u);}); m.check(t==!fits && (t||static_cast<unsigned long long>(got)==u),cat("u2s:",nm),[&]{return cat("u=",u," threw=",t," got=",(long long)got);}); };
    tryu((signed char)0,"schar"); tryu((short)0,"short"); tryu(0,"int"); tryu(0LL,"long long");
    long long s=static_cast<long long>(r.u64())>>r.integer(0,63); m.note(cat("s=",s));
    auto trys=[&](auto v, const char* nm){ using V=decltype(v); bool fits=s>=0&&static_cast<unsigned long long>(s)<=std::numeric_limits<V>::max(); V got=0; bool t=thr([&]{got=U::s2u<V>(s);}); m.check(t==!fits && (t||static_cast<unsigned long long>(got)==static_cast<unsigned long long>(s)),cat("s2u:",nm),[&]{return cat("s=",s," threw=",t," got=",(unsigned long long)got);}); };
    trys((unsigned char)0,"uchar"); trys((unsigned short)0,"ushort"); trys(0u,"uint"); trys(0ULL,"ullong");
    unsigned ui=static_cast<unsigned>(u); int gi=0; bool t=thr([&]{gi=U::u2s<int>(ui);}); m.check(t==(ui>2147483647u)&&(t||(unsigned)gi==ui),"u2s:uint to int"); m.eval(2); }
  m.site("binomial"); { unsigned n=static_cast<unsigned>(r.integer(0,67)), k=static_cast<unsigned>(r.integer(0,80)); m.note(cat("binomial ",n," ",k)); if(k>n){ bool t=false; try{U::binomial_coefficient(n,k);}catch(const std::domain_error&){t=true;} m.check(t,"binomial refused"); } else { unsigned __int128 b=1; for(unsigned i=1;i<=k;++i) b=b*(n-k+i)/i; auto g=U::binomial_coefficient(n,k); m.check(g==(unsigned long long)b,"binomial",[&]{return cat(m.note()," got ",g," want ",(unsigned long long)b);}); } 
    unsigned big=static_cast<unsigned>(r.integer(100,4000)); auto g=U::binomial_coefficient(big,3u); m.check(g==(unsigned long long)big*(big-1)*(big-2)/6,"binomial n,3",[&]{return cat(big);} ); }
  m.site("gcd"); { unsigned a=static_cast<unsigned>(r.integer(0,100000)), b=static_cast<unsigned>(r.integer(0,100000)); m.check(U::gcd(a,b)==std::gcd(a,b),"gcd"); }
  m.site("coth"); { double en=r.uni(0.01,10)*(r.chance(0.5)?-1:1), be=r.uni(0.05,5); long double w=1/(std::tanh((long double)en*be/2)*en); m.check(std::abs(U::coth_over_en(en,be)-w)<=1e-13L*std::abs(w),"coth_over_en"); }
}

int main(int argc, char** argv){
  Monitor m("C23",argc,argv);
  return m.run(m.thorough()? 60000: 6000, [&](Rng& r, size_t i){
    switch(i%12){
      case 0: square<int,1+0>(m,r,"int"); square<double,1>(m,r,"double"); square<int,2>(m,r,"int"); break;
      case 1: square<int,3>(m,r,"int"); square<int,3>(m,r,"int"); break;
      case 2: square<int,4>(m,r,"int"); square<int,5>(m,r,"int"); break;
      case 3: square<long long,3>(m,r,"long long"); square<long long,2>(m,r,"long long"); break;
      case 4: square<double,3>(m,r,"double"); square<double,3>(m,r,"double"); break;
      case 5: square<double,2>(m,r,"double"); square<double,4>(m,r,"double"); break;
      case 6: square<cd,3>(m,r,"complex"); square<cd,2>(m,r,"complex"); break;
      case 7: rect<double,double,double>(m,r,"d*d"); rect<int,double,double>(m,r,"i*d"); rect<double,int,double>(m,r,"d*i"); rect<int,int,double>(m,r,"i*i->d"); rect<cd,double,cd>(m,r,"c*d"); rect<double,cd,cd>(m,r,"d*c"); rect<int,cd,cd>(m,r,"i*c"); rect<cd,int,cd>(m,r,"c*i"); rect<cd,cd,cd>(m,r,"c*c"); m.eval(9); break;
      case 8: complexvec(m,r); complexvec(m,r); break;
      case 9: trig<double>(m,r,"double"); break;
      case 10: trig<float>(m,r,"float"); break;
      default: casts(m,r); }
    if(i<3) m.sample(m.note());
  });
}
