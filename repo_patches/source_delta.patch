From 8bf59bc01069ebd98c40408536f00ef8393ac1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:25 +0000
Subject: [PATCH 001/104] fix: apply_inverse_permutation must move the popped
 object, not its index, into place

---
 src/permutation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/permutation.hpp b/src/permutation.hpp
index 419597d..de7b9ee 100644
--- a/src/permutation.hpp
+++ b/src/permutation.hpp
@@ -809,7 +809,7 @@ apply_inverse_permutation(ObjItr objects, ObjItr end, PermItr indices){
     objects[indices[i]] = std::move(objects[i]);
     indices[indices[i]] = indices[i];
     // and put the popped object and index back in here
-    objects[i] = std::move(pop_idx);
+    objects[i] = std::move(pop_obj);
     indices[i] = pop_idx;
   }
 }
-- 
2.43.0


From 85ca01c3e27d64b7e7fe2c6d5a0df40c9781c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:25 +0000
Subject: [PATCH 002/104] fix: stable matching must consult the preferences of
 the proposed-to column

---
 src/smp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smp.hpp b/src/smp.hpp
index f9c28c2..9b9b031 100644
--- a/src/smp.hpp
+++ b/src/smp.hpp
@@ -132,7 +132,7 @@ int smp(const T dim, const P *restrict prefs, T *restrict rsol, T *restrict csol
         // if the preferred column has a proposed match
         if (cmatched[thisc]){
           // and if the column prefers this row over the proposed row
-          if (cpref[i*dim + i] < cpref[i*dim + csol[thisc]]){
+          if (cpref[thisc*dim + i] < cpref[thisc*dim + csol[thisc]]){
             // unmatch the other row
             rmatched[csol[thisc]] = false;
             rsol[csol[thisc]] = T(0);
-- 
2.43.0


From aa10c4d588dfe690aefc7c96300726b17991c680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:41 +0000
Subject: [PATCH 003/104] fix: lapjv tolerance made its assignments suboptimal;
 bound the price reductions instead

---
 src/lapjv.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/lapjv.hpp b/src/lapjv.hpp
index f8db668..bc574bf 100644
--- a/src/lapjv.hpp
+++ b/src/lapjv.hpp
@@ -300,12 +300,6 @@ cost lapjv(idx dim, const cost *restrict assign_cost, bool verbose,
     matches[i] = 0;
   }
 
-  // Following https://github.com/Fil/lap-jv/blob/master/lap.js
-  // add an epsilon to comparisons to break infinite loops
-  cost total_cost{0};
-  for (idx tc=0; tc<dim*dim; ++tc) total_cost += assign_cost[tc];
-  cost cost_epsilon = total_cost / static_cast<cost>(10000*dim);
-
   // COLUMN REDUCTION
   //for (idx j = dim - 1; j >= 0; j--) {   // reverse order gives better results.
   for (idx j = dim; j-- > 0; ){
@@ -344,7 +338,7 @@ cost lapjv(idx dim, const cost *restrict assign_cost, bool verbose,
       cost min = (std::numeric_limits<cost>::max)();
       for (idx j = 0; j < dim; j++) {
         if (j != j1) {
-          if (local_cost[j] - v[j] < min + cost_epsilon) {
+          if (local_cost[j] - v[j] < min) {
             min = local_cost[j] - v[j];
           }
         }
@@ -363,7 +357,12 @@ cost lapjv(idx dim, const cost *restrict assign_cost, bool verbose,
     idx k = 0;
     idx prevnumfree = numfree;
     numfree = 0;  // start list of rows still free after augmenting row reduction.
+    // vanishingly small price changes could keep rows displacing one another
+    // (nearly) forever; limit the number of times that they are allowed to.
+    size_t reductions = 0;
+    const size_t max_reductions = static_cast<size_t>(dim) * static_cast<size_t>(prevnumfree);
     while (k < prevnumfree) {
+      const bool reduce = reductions++ < max_reductions;
       idx i = free[k++];
 
       // find minimum and second minimum reduced cost over columns.
@@ -372,9 +371,12 @@ cost lapjv(idx dim, const cost *restrict assign_cost, bool verbose,
       std::tie(umin, usubmin, j1, j2) = find_umins(dim, i, assign_cost, v);
 
       idx i0 = colsol[j1];
-      cost vj1_new = v[j1] - (usubmin + cost_epsilon - umin);
+      cost vj1_new = v[j1] - (usubmin - umin);
       bool vj1_lowers = vj1_new < v[j1];  // the trick to eliminate the epsilon bug
-      if (vj1_lowers) {
+      if (!reduce) {
+        // leave prices alone, any displaced row is augmented in the next phase
+        vj1_lowers = false;
+      } else if (vj1_lowers) {
         // change the reduction of the minimum column to increase the minimum
         // reduced cost in the row to the subminimum.
         v[j1] = vj1_new;
-- 
2.43.0


From dd90810e98a9b62d6eea3a372223f610591e3b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:29 +0000
Subject: [PATCH 004/104] fix: lin2sub skipped the last subscript of
 column-ordered arrays

---
 src/subscript.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subscript.hpp b/src/subscript.hpp
index af72b86..ef8171a 100644
--- a/src/subscript.hpp
+++ b/src/subscript.hpp
@@ -546,7 +546,7 @@ std::vector<I> lin2sub(I l, const std::vector<I>& stride){
   else if (1 < ndim) {
     sub.resize(ndim);
     if (stride[ndim-1] > stride[0])
-    for (I i=ndim-1; i--; ){
+    for (size_t i=ndim; i-- > 0; ){
       sub[i] = l/stride[i];
       l -= sub[i]*stride[i];
     }
-- 
2.43.0


From c4d5fb6f72919a65b845229b532d6a6f3d0a50ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:29 +0000
Subject: [PATCH 005/104] fix: subscript iteration over empty dimensions must
 visit nothing and stop

---
 src/subscript.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/subscript.hpp b/src/subscript.hpp
index ef8171a..a10de49 100644
--- a/src/subscript.hpp
+++ b/src/subscript.hpp
@@ -184,6 +184,8 @@ public:
     size_t n = this->ndim();
     holder val(n, T(0));
     for (size_t i=0; i<n; ++i) if (_fixed[i]) val[i] = _sub[i];
+    // an empty iterated dimension means there is nothing to visit
+    for (size_t i=0; i<n; ++i) if (!_fixed[i] && _shape[i] == T(0)) return this->begin();
     if (_first < n) val[_first] = _shape[_first];
     return {_shape, _inpt, std::move(val), _fixed};
   }
@@ -293,6 +295,8 @@ public:
     holder val({T(0), T(0)});
     if (_fixed[0]) val[0] = _sub[0];
     if (_fixed[1]) val[1] = _sub[1];
+    // an empty iterated dimension means there is nothing to visit
+    for (size_t i=0; i<2; ++i) if (!_fixed[i] && _shape[i] == T(0)) return this->begin();
     if (_first < 2) val[_first] = _shape[_first];
     return SubIt2<T>(_shape, _inpt, std::move(val), _fixed);
   }
@@ -355,7 +359,7 @@ public:
         msg += "} to a common shape";
         throw std::runtime_error(msg);
       } else {
-        _shapeO[i] = _shape0[i] < _shape1[i] ? _shape1[i] : _shape0[i];
+        _shapeO[i] = _shape0[i] == 1 ? _shape1[i] : _shape0[i];
       }
   }
   BroadcastIt(const holder& s0, const holder& s1, const holder & sO, const holder& i0, const holder& i1, const holder& iO)
@@ -411,7 +415,7 @@ public:
   BroadcastIt<T> end() const {
     size_t n = this->ndim();
     holder s0(n,0), s1(n,0), sO(n,0);
-    sO[0] = _shapeO[0];
+    if (this->size() > T(0)) sO[0] = _shapeO[0]; // otherwise there is nothing to visit
     if (_shape0[0] > 1) s0[0] = sO[0]; // not used in ==
     if (_shape1[0] > 1) s1[0] = sO[0]; // not used in ==
     return {_shape0, _shape1, _shapeO, std::move(s0), std::move(s1), std::move(sO)};
@@ -474,7 +478,7 @@ public:
         msg += "} to a common shape";
         throw std::runtime_error(msg);
       } else {
-        _shapeO[i] = _shape0[i] < _shape1[i] ? _shape1[i] : _shape0[i];
+        _shapeO[i] = _shape0[i] == 1 ? _shape1[i] : _shape0[i];
       }
   }
   BroadcastIt2(const holder& s0, const holder& s1, const holder & sO, const holder& i0, const holder& i1, const holder& iO)
@@ -520,7 +524,7 @@ public:
   }
   BroadcastIt2<T> end() const {
     holder s0({0,0}), s1({0,0}), sO({0,0});
-    sO[0] = _shapeO[0];
+    if (this->size() > T(0)) sO[0] = _shapeO[0]; // otherwise there is nothing to visit
     if (_shape0[0] > 1) s0[0] = sO[0]; // not used in ==
     if (_shape1[0] > 1) s1[0] = sO[0]; // not used in ==
     return {_shape0, _shape1, _shapeO, std::move(s0), std::move(s1), std::move(sO)};
-- 
2.43.0


From f433379a220e55f9e7d32605a6d84f23cfedc715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:35 +0000
Subject: [PATCH 006/104] fix: mat_inverse must invert the matrix size it is
 given, not always 3x3

---
 src/linear_algebra.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear_algebra.hpp b/src/linear_algebra.hpp
index 6d89717..cb59e85 100644
--- a/src/linear_algebra.hpp
+++ b/src/linear_algebra.hpp
@@ -120,7 +120,7 @@ namespace brille::linear_algebra {
   template<class T, size_t N> std::array<T, N> mat_inverse(const std::array<T,N>& A){
     assert(N == static_cast<size_t>(std::sqrt(N)) * static_cast<size_t>(std::sqrt(N)));
     std::array<T,N> inv; inv.fill(0);
-    utils::matrix_inverse(inv.data(), A.data());
+    utils::matrix_inverse(inv.data(), A.data(), T(0), static_cast<int>(std::sqrt(N)));
     return inv;
   }
 }
-- 
2.43.0


From 3b5f540ca63c9667282b92ba186a0512b46e8790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:35 +0000
Subject: [PATCH 007/104] fix: LU_decomposition indexed past its matrix and
 compared the wrong pivot

---
 src/linear_algebra.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/linear_algebra.hpp b/src/linear_algebra.hpp
index cb59e85..50976bf 100644
--- a/src/linear_algebra.hpp
+++ b/src/linear_algebra.hpp
@@ -87,13 +87,13 @@ namespace brille::linear_algebra {
     std::vector<size_t> refs(M);
     std::iota(refs.begin(), refs.end(), 0u);
     T det{1};
-    auto s2i = [&](const size_t & i, const size_t & j){return refs[i] * N + j;};
+    auto s2i = [&](const size_t & i, const size_t & j){return refs[i] * M + j;};
 
     // LU factorisation:
-    for (size_t p=0; p < N-1; ++p){
+    for (size_t p=0; p + 1 < M; ++p){
       // locate pivot element
-      for (size_t i=p; i < N; ++i){
-        if (std::abs(LU[s2i(i, p)]) > std::abs(LU[s2i(p, i)])) {
+      for (size_t i=p; i < M; ++i){
+        if (std::abs(LU[s2i(i, p)]) > std::abs(LU[s2i(p, p)])) {
           // switch the index for the p -1 pivot row
           std::swap(refs[p], refs[i]);
           det = -det;
@@ -105,15 +105,15 @@ namespace brille::linear_algebra {
       // multiply diagonal
       det *= LU[s2i(p, p)];
       // form multiplier
-      for (size_t i=p+1; i < N; ++i){
+      for (size_t i=p+1; i < M; ++i){
         LU[s2i(i, p)] /= LU[s2i(p, p)];
         // eliminate [p-1]
-        for (size_t j=p+1; j < N; ++j){
+        for (size_t j=p+1; j < M; ++j){
           LU[s2i(i, j)] -= LU[s2i(i, p)] * LU[s2i(p, j)];
         }
       }
     }
-    det = det * LU[s2i(N-1, N-1)];
+    det = det * LU[s2i(M-1, M-1)];
     return std::make_tuple(det != 0, det, LU);
   }
 
-- 
2.43.0


From 5b24e76001d490a46ae481388f19999540b2693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:35 +0000
Subject: [PATCH 008/104] fix: in-place transpose assumed a stride of three for
 every matrix size

---
 src/utilities.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 9a8dcb5..5cfc0e5 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -186,9 +186,9 @@ template<typename R, int N> void complex_conj_matrix_transpose(std::complex<R> *
 template<typename R, int N> void matrix_transpose(R *B){
   R t;
   for (int i=0; i<N; i++) for(int j=i+1; j<N; j++) {
-    t = B[i+j*3];
-    B[i+j*3] = B[j+i*3];
-    B[j+i*3] = t;
+    t = B[i+j*N];
+    B[i+j*N] = B[j+i*N];
+    B[j+i*N] = t;
   }
 }
 
-- 
2.43.0


From 9fb778823009b95abd15ae146c705d98dc078908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:06 +0000
Subject: [PATCH 009/104] fix: my_cast rounded values just below one half up to
 one

---
 src/utilities.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 5cfc0e5..27ec7d0 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -86,7 +86,7 @@ template<typename T, typename R, typename S, int N> void subtract_matrix(T *C, c
 // specialized casting of doubles to ints
 template<typename T,typename R> T my_cast(const R a){ return T(a); }
 // inlined to avoid redefining this specialization each time the header is called
-template<> inline int my_cast<int,double>(const double a){ return int( a<0 ? a-0.5 : a+0.5); }
+template<> inline int my_cast<int,double>(const double a){ return int(std::round(a)); }
 // element-wise re-(special)-casting of arrays
 template<typename T, typename R, int N, int M> void cast_array(T *A, const R *B){ for (int i=0; i<N*M; i++) A[i] = my_cast<T,R>(B[i]); }
 
-- 
2.43.0


From 1ce2d078113085a6a3be0950538dea1778d57b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:06 +0000
Subject: [PATCH 010/104] fix: s2u must refuse values too large for the
 unsigned type instead of truncating them

---
 src/utilities.tpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 27ec7d0..813aeaf 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -742,9 +742,9 @@ S u2s(const U u){
 
 template<typename U,typename S>
 U s2u(const S s){
+  using wide_t = std::common_type_t<std::make_unsigned_t<S>, U>;
   if (s < 0
-    //|| static_cast<U>((std::numeric_limits<S>::max)()) > (std::numeric_limits<U>::max)() // the largest element of type S is too big for U
-    //|| s > static_cast<S>((std::numeric_limits<U>::max)()) // s, specifically is too big to be expressed in type U
+    || static_cast<wide_t>(s) > static_cast<wide_t>((std::numeric_limits<U>::max)()) // s is too big to be expressed in type U
   ){
     std::string msg = "signed_to_unsiged:: Value " + std::to_string(s)
                     + " can not be stored in requested unsiged type"
-- 
2.43.0


From 87b4d5f30bdcde14e8afb306e22df59a38cabba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:24 +0000
Subject: [PATCH 011/104] fix: binomial_coefficient missed overflow of its
 numerator and returned wrong counts

---
 src/utilities.tpp | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 813aeaf..06007b5 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -689,7 +689,7 @@ indistinguishable objects can be chosen.
 template<class T, class R>
 std::enable_if_t<std::is_unsigned<T>::value&&std::is_unsigned<R>::value, unsigned long long>
 binomial_coefficient(const T n, const R k){
-  unsigned long long ans{1}, num{1}, den{1}, comdiv;
+  unsigned long long ans{1};
   if (k>n){
     std::string msg = "The binomial coefficient requires more choices than selections.";
     msg += "\n binomial_coefficient(" + std::to_string(n) + ":" + std::to_string(k) + ") is invalid";
@@ -697,31 +697,17 @@ binomial_coefficient(const T n, const R k){
   }
   // the Binomial coefficient is symmetric due to the denominator k!(n-k)!
   R m = (n-k < k) ? static_cast<R>(n-k) : k;
-  bool overflow = false;
   for (R i=0; i<m; ++i){
-    unsigned long long lastnum{num}, lastden{den};
-    num *= static_cast<unsigned long long>(n-i);
-    den *= static_cast<unsigned long long>(i)+1;
-    if (lastnum > num || lastden > den){
-      comdiv = gcd(lastnum, lastden);
-      if (comdiv > 1){
-        num = lastnum/comdiv;
-        den = lastden/comdiv;
-        --i;
-      } else {
-        overflow = true;
-      }
+    // ans is C(n,i); ans*(n-i)/(i+1) is C(n,i+1), an integer, so cancel before multiplying
+    auto num = static_cast<unsigned long long>(n-i);
+    auto den = static_cast<unsigned long long>(i)+1;
+    auto comdiv = gcd(ans, den);
+    ans /= comdiv;
+    num /= den/comdiv;
+    if (ans > (std::numeric_limits<unsigned long long>::max)()/num){
+      throw std::overflow_error("binomial_coefficient(" + std::to_string(n) + ":" + std::to_string(k) + ") is too large");
     }
-    if (overflow) break;
-  }
-
-  if (overflow){
-    long double dans{1};
-    for (T i=0; i<m; ++i)
-      dans *= static_cast<long double>(n-i)/(static_cast<long double>(i)+1);
-    ans = std::llround(dans);
-  } else {
-    ans = num/den;
+    ans *= num;
   }
   return ans;
 }
-- 
2.43.0


From 41fbf4780791d57181ed06a63eeae9841197a597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:30 +0000
Subject: [PATCH 012/104] fix: a copied Comparer used the tolerances of the
 object it was copied from, even after its destruction

---
 src/comparisons.hpp | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/src/comparisons.hpp b/src/comparisons.hpp
index cf21627..afa8d10 100644
--- a/src/comparisons.hpp
+++ b/src/comparisons.hpp
@@ -62,46 +62,50 @@ public:
     // predetermine tolerances and which we should use:
     bool c;
     std::tie(c, this->useT, this->relT, this->relR, this->absT, this->absR) = approx_float::tols<T,R>(Ttol, Rtol, tol);
+    // the comparison functions hold copies of what they need: capturing `this` would not survive copying this object
+    const auto same = [uT=this->useT, rT=this->relT, rR=this->relR, aT=this->absT, aR=this->absR](const T& a, const R& b){
+      return approx_float::_scalar(a,b,uT,rT,rR,aT,aR);
+    };
     // set the comparison function
     switch(op){
       case cmp::lt:
-      scalar = [&](const T& a, const R& b){
-        return !approx_float::_scalar(a,b,useT,relT,relR,absT,absR) && a<b;
+      scalar = [same](const T& a, const R& b){
+        return !same(a,b) && a<b;
       };
       break;
       case cmp::gt:
-      scalar = [&](const T& a, const R& b){
-        return !approx_float::_scalar(a,b,useT,relT,relR,absT,absR) && a>b;
+      scalar = [same](const T& a, const R& b){
+        return !same(a,b) && a>b;
       };
       break;
       case cmp::le:
-      scalar = [&](const T& a, const R& b){
-        return approx_float::_scalar(a,b,useT,relT,relR,absT,absR) || a<b;
+      scalar = [same](const T& a, const R& b){
+        return same(a,b) || a<b;
       };
       break;
       case cmp::ge:
-      scalar = [&](const T& a, const R& b){
-        return approx_float::_scalar(a,b,useT,relT,relR,absT,absR) || a>b;
+      scalar = [same](const T& a, const R& b){
+        return same(a,b) || a>b;
       };
       break;
       case cmp::eq:
-      scalar = [&](const T& a, const R& b){
-        return approx_float::_scalar(a,b,useT,relT,relR,absT,absR);
+      scalar = [same](const T& a, const R& b){
+        return same(a,b);
       };
       break;
       case cmp::nle:
-      scalar = [&](const T& a, const R& b){
-        return !approx_float::_scalar(a,b,useT,relT,relR,absT,absR) && a>b;
+      scalar = [same](const T& a, const R& b){
+        return !same(a,b) && a>b;
       };
       break;
       case cmp::nge:
-      scalar = [&](const T& a, const R& b){
-        return !approx_float::_scalar(a,b,useT,relT,relR,absT,absR) && a<b;
+      scalar = [same](const T& a, const R& b){
+        return !same(a,b) && a<b;
       };
       break;
       case cmp::neq:
-      scalar = [&](const T& a, const R& b){
-        return !approx_float::_scalar(a,b,useT,relT,relR,absT,absR);
+      scalar = [same](const T& a, const R& b){
+        return !same(a,b);
       };
       break;
       default:
@@ -112,25 +116,25 @@ public:
       case cmp::neq:
       case cmp::nge:
       case cmp::nle:
-      vector = [&](const size_t n, const T* a, const size_t sa, const R* b, const size_t sb){
+      vector = [compare=this->scalar](const size_t n, const T* a, const size_t sa, const R* b, const size_t sb){
         /* Replace this by a short-cutting variant:
         bool ret{false};
         for (size_t i=0; i<n; ++i) ret |= this->scalar(a[i*sa], b[i*sb]);
         return ret;
         */
-        for (size_t i=0; i<n; ++i) if (this->scalar(a[i*sa], b[i*sb])) return true;
+        for (size_t i=0; i<n; ++i) if (compare(a[i*sa], b[i*sb])) return true;
         return false;
       };
       break;
       // A vector IS X if all of the elements ARE X
       default:
-      vector = [&](const size_t n, const T* a, const size_t sa, const R* b, const size_t sb){
+      vector = [compare=this->scalar](const size_t n, const T* a, const size_t sa, const R* b, const size_t sb){
         /* Replace this by a short-cutting variant:
         bool ret{true};
         for (size_t i=0; i<n; ++i) ret &= this->scalar(a[i*sa], b[i*sb]);
         return ret;
         */
-        for (size_t i=0; i<n; ++i) if (!this->scalar(a[i*sa], b[i*sb])) return false;
+        for (size_t i=0; i<n; ++i) if (!compare(a[i*sa], b[i*sb])) return false;
         return true;
       };
     }
-- 
2.43.0


From ec550f35cf5d52706385922de0a5e416c1045640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:30 +0000
Subject: [PATCH 013/104] fix: Array2::all(le_ge) ignored its tolerances

---
 src/array2.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index 5b2bf32..ceba019 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -664,7 +664,7 @@ bool Array2<T>::match(const ind_t i, const ind_t j, brille::ops op, T val, const
 template<class T>
 bool Array2<T>::all(const brille::cmp expr, const T val, const T Ttol, const int tol) const {
   if (brille::cmp::le_ge == expr)
-    return this->all(brille::cmp::le, val) || this->all(brille::cmp::ge, val);
+    return this->all(brille::cmp::le, val, Ttol, tol) || this->all(brille::cmp::ge, val, Ttol, tol);
   ind_t no = this->numel();
   brille::Comparer<T,T> op(expr, Ttol, Ttol, tol);
   for (ind_t k=0; k<no; ++k) if(!op(_data[this->l2l_d(k)], val)) return false;
-- 
2.43.0


From 0c251d22ec8d24bf9d1a445adca9ce31c319ab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:30 +0000
Subject: [PATCH 014/104] fix: chaining after Config::direct(value) modified a
 temporary copy

---
 src/approx_config.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/approx_config.hpp b/src/approx_config.hpp
index e325946..91b5553 100644
--- a/src/approx_config.hpp
+++ b/src/approx_config.hpp
@@ -24,7 +24,7 @@ public:
 
   // setters returning a set object reference (to, hopefully, allow chaining)
   Config & digit(int i) {digit_=i; return *this;}
-  template<class T> Config direct(T value){
+  template<class T> Config & direct(T value){
     direct_ = static_cast<double>(value);
     return *this;
   }
-- 
2.43.0


From 5cec91cc771f2eedceac74c05b8341f2eea61885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:04 +0000
Subject: [PATCH 015/104] fix: Array2::each_is walked past the rows of arrays
 with more than one column

---
 src/array2.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index ceba019..cffe1a7 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -930,7 +930,7 @@ Array2<T>::each_is(const brille::cmp expr, const std::vector<R>& vals, const T T
   out.reserve(no);
   // loop over whole array in linear-index order
   for (ind_t i=0; i<no; ++i)
-    out.push_back(op(this->val(i), vals[i]));
+    out.push_back(op(_data[this->l2l_d(i)], vals[i]));
   return out;
 }
 
-- 
2.43.0


From 00bf72fa8b172674f14887ab7b66068e276b9f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:39 +0000
Subject: [PATCH 016/104] fix: linear indexing of a non-contiguous array
 addressed elements outside of the view

---
 src/array.hpp  | 16 +++++++++++++++-
 src/array2.hpp |  5 ++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index f67eae3..3b4ca92 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -340,7 +340,21 @@ protected: // so inherited classes can calculate subscript indexes into their da
   //   return offset_sub2lin(_offset, s, _stride);
   // }
   ind_t l2l_d(const ind_t l) const {
-    return l + _shift;
+    if (this->is_contiguous()) return l + _shift;
+    // the elements of a strided view are not adjacent to each other
+    ind_t rest{l}, out{_shift};
+    if (_stride.front() < _stride.back()){
+      for (size_t i=0; i<_shape.size(); ++i){
+        out += (rest % _shape[i]) * _stride[i];
+        rest /= _shape[i];
+      }
+    } else {
+      for (size_t i=_shape.size(); i--;){
+        out += (rest % _shape[i]) * _stride[i];
+        rest /= _shape[i];
+      }
+    }
+    return out;
   }
   ind_t s2l_d(const shape_t& s) const {
     return sub2lin(s, _stride) + _shift;
diff --git a/src/array2.hpp b/src/array2.hpp
index 7e2abcf..f5c6a83 100644
--- a/src/array2.hpp
+++ b/src/array2.hpp
@@ -309,7 +309,10 @@ public:
   const T& operator[](const shape_t& sub) const {return _data[this->s2l_d(sub)];}
 protected: // so inherited classes can calculate subscript indexes into their data
   [[nodiscard]] ind_t l2l_d(const ind_t l) const {
-    return l + _shift;
+    if (this->is_contiguous()) return l + _shift;
+    // the elements of a strided view are not adjacent to each other
+    if (_stride[0] < _stride[1]) return ij2l_d(l % _shape[0], l / _shape[0]);
+    return ij2l_d(l / _shape[1], l % _shape[1]);
   }
   [[nodiscard]] ind_t ij2l_d(const ind_t x, const ind_t y) const {
     return sub2lin(x, y, _stride) + _shift;
-- 
2.43.0


From 26eb81f9d1954486a4e26d66f4e33966bc92dcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:40 +0000
Subject: [PATCH 017/104] fix: results derived from strided views were
 allocated too small for their stride

---
 src/array.tpp  | 10 +++++-----
 src/array2.tpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index 0cdc9b8..c5c75d6 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -503,7 +503,7 @@ Array<T>::last(const T val, const ind_t n) const{
 #define ARRAY_ELEMENTWISE_INT_TRANSFORM(X) template<class T>\
 Array<int>\
 Array<T>:: X () const {\
-  Array<int> out(_shape, _stride);\
+  Array<int> out(_shape, this->calculate_stride(_shape));\
   for (auto x: SubIt(out.shape()))\
     out[x] = static_cast<int>(std:: X (_data[this->s2l_d(x)]));\
   return out;\
@@ -734,7 +734,7 @@ Array<T>::count(const brille::cmp expr, const T val) const {
 template<class T>
 Array<bool>
 Array<T>::is(const brille::cmp expr, const T val) const {
-  Array<bool> out(_shape, _stride, true);
+  Array<bool> out(_shape, this->calculate_stride(_shape), true);
   ind_t no = this->numel();
   brille::Comparer<T,T> op(expr);
   for (ind_t k=0; k<no; ++k) out[k] = op(_data[this->l2l_d(k)], val);
@@ -765,7 +765,7 @@ Array<T>::is(const brille::cmp expr, const Array<R>& that) const {
     msg += ").";
     throw std::runtime_error(msg);
   }
-  Array<bool> out(_shape, _stride, true);
+  Array<bool> out(_shape, this->calculate_stride(_shape), true);
   size_t ndim = _shape.size();
   if (std::equal(_shape.begin(), _shape.end(), tsize.begin())){
     // No broadcast
@@ -847,7 +847,7 @@ Array<T>::unique() const {
   size_t u_count = std::count(isu.begin(), isu.end(), true);
   shape_t osize{_shape};
   osize[0] = static_cast<ind_t>(u_count);
-  Array<T> out(osize, _stride);
+  Array<T> out(osize, this->calculate_stride(osize));
   for (ind_t i=0,u=0; i<_shape[0]; ++i) if (isu[i]) out.set(u++, this->view(i));
   return out;
 }
@@ -877,7 +877,7 @@ T Array<T>::norm(ind_t i) const {
 template<class T>
 Array<T>
 Array<T>::operator-() const{
-  Array<T> neg(_shape, _stride);
+  Array<T> neg(_shape, this->calculate_stride(_shape));
   for (auto s: SubIt(_shape)) neg[s] = -_data[this->s2l_d(s)];
   return neg;
 }
diff --git a/src/array2.tpp b/src/array2.tpp
index cffe1a7..a7c0eee 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -497,7 +497,7 @@ Array2<T>::last(const T val, const ind_t n) const{
 #define ARRAY_ELEMENTWISE_INT_TRANSFORM(X) template<class T>\
 Array2<int>\
 Array2<T>:: X () const {\
-  Array2<int> out(_shape, _stride);\
+  Array2<int> out(_shape, this->calculate_stride(_shape));\
   for (auto x: out.subItr())\
     out[x] = static_cast<int>(std:: X (_data[this->s2l_d(x)]));\
   return out;\
@@ -703,7 +703,7 @@ Array2<T>::count(const brille::cmp expr, const T val, const T Ttol, const int to
 template<class T>
 Array2<bool>
 Array2<T>::is(const brille::cmp expr, const T val, const T Ttol, const int tol) const {
-  Array2<bool> out(_shape, _stride, true);
+  Array2<bool> out(_shape, this->calculate_stride(_shape), true);
   ind_t no = this->numel();
   brille::Comparer<T,T> op(expr, Ttol, Ttol, tol);
   for (ind_t k=0; k<no; ++k) out[k] = op(_data[this->l2l_d(k)], val);
@@ -735,7 +735,7 @@ Array2<T>::is(const brille::cmp expr, const Array2<R>& that, const T Ttol, const
     msg += ").";
     throw std::runtime_error(msg);
   }
-  Array2<bool> out(_shape, _stride, true);
+  Array2<bool> out(_shape, this->calculate_stride(_shape), true);
   if (std::equal(_shape.begin(), _shape.end(), tsize.begin())){
     // No broadcast
     brille::Comparer<T,R> op(expr, Ttol, Rtol, tol);
@@ -984,7 +984,7 @@ Array2<T>::unique(const T Ttol, const int tol) const {
   size_t u_count = std::count(isu.begin(), isu.end(), true);
   shape_t osize{_shape};
   osize[0] = static_cast<ind_t>(u_count);
-  Array2<T> out(osize, _stride);
+  Array2<T> out(osize, this->calculate_stride(osize));
   for (ind_t i=0,u=0; i<_shape[0]; ++i) if (isu[i]) out.set(u++, this->view(i));
   return out;
 }
@@ -1009,7 +1009,7 @@ T Array2<T>::norm(ind_t i) const {
 template<class T>
 Array2<T>
 Array2<T>::operator-() const{
-  Array2<T> neg(_shape, _stride);
+  Array2<T> neg(_shape, this->calculate_stride(_shape));
   for (auto s: this->subItr()) neg[s] = -_data[this->s2l_d(s)];
   return neg;
 }
-- 
2.43.0


From 8ee52e6cf932ab3de7fe2a2f5ce511f18ab9340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:40 +0000
Subject: [PATCH 018/104] fix: Array2::contiguous_row_ordered_copy kept the
 column order of its source

---
 src/array2.tpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index a7c0eee..5286548 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -1240,7 +1240,7 @@ Array2<T> Array2<T>::contiguous_copy() const {
 template<class T>
 Array2<T> Array2<T>::contiguous_row_ordered_copy() const {
   if (this->is_row_ordered() && this->is_contiguous()) return Array2<T>(*this);
-  Array2<T> out(_shape, this->calculate_stride(_shape));
+  Array2<T> out(_shape); // always row ordered
   for (auto x : this->subItr()) out[x] = (*this)[x];
   return out;
 }
-- 
2.43.0


From 674e70cf974dad578e3cd0c92fc561dbedb89dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:40 +0000
Subject: [PATCH 019/104] fix: assigning an array of another element type
 leaked the previous data

---
 src/array.hpp  | 9 +--------
 src/array2.hpp | 8 +-------
 2 files changed, 2 insertions(+), 15 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index 3b4ca92..9643430 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -306,14 +306,7 @@ public:
   }
   template<class R>
   Array<T>& operator=(const Array<R>& other){
-    _mutable = true;
-    _shape = other.shape();
-    // _offset = shape_t(_shape.size(), 0);
-    _shift = 0u;
-    this->set_stride();
-    this->construct();
-    for (auto x: SubIt(_shape)) _data[s2l_d(x)] = static_cast<T>(other[x]);
-    return *this;
+    return *this = Array<T>(other); // releases any presently held data
   }
 
   // modifiers
diff --git a/src/array2.hpp b/src/array2.hpp
index f5c6a83..bc2639f 100644
--- a/src/array2.hpp
+++ b/src/array2.hpp
@@ -284,13 +284,7 @@ public:
   }
   template<class R>
   Array2<T>& operator=(const Array2<R>& other){
-    _mutable = true;
-    _shape = other.shape();
-    _shift = 0;
-    this->set_stride();
-    this->construct();
-    for (const auto & x: this->subItr()) _data[s2l_d(x)] = static_cast<T>(other[x]);
-    return *this;
+    return *this = Array2<T>(other); // releases any presently held data
   }
 
   // modifiers
-- 
2.43.0


From 70d284ea277c9dda159cf497bbe3914c00194b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:40 +0000
Subject: [PATCH 020/104] fix: decoupling a strided Array wrote outside the new
 allocation or mixed up its elements

---
 src/array.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index 9643430..ff797a3 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -421,17 +421,18 @@ private:
   Array<T> _decouple() const {
     ind_t nnum = this->size_from_shape(_shape);
     T* new_data = new T[nnum]();
-    if (nnum == _num) {
+    shape_t new_st{_stride};
+    if (this->is_contiguous() && nnum == _num) {
       std::copy(_data, _data+_num, new_data);
     } else {
+      new_st = this->calculate_stride(_shape);
       //subscript conversion necessary due to offset
-      //                                   vvv(no offset)vvvv          vvv(offset)vvv
-      for (auto x: SubIt(_shape)) new_data[sub2lin(x,_stride)] = _data[this->s2l_d(x)];
+      for (auto x: SubIt(_shape)) new_data[sub2lin(x,new_st)] = _data[this->s2l_d(x)];
     }
     bool new_own = true; // always take ownership of C++ allocated memory
     auto new_ref = std::make_shared<char>(); // always use the default with C++ created arrays
     bool new_mut = true; // new allocated memory should be mutable
-    return Array<T>(new_data, nnum, new_own, new_ref, _shape, _stride, new_mut);
+    return Array<T>(new_data, nnum, new_own, new_ref, _shape, new_st, new_mut);
   }
 public:
   // sub-array access
-- 
2.43.0


From 035a46b92c9f81ad778e29ed62305c201161875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:40 +0000
Subject: [PATCH 021/104] fix: a refused resize of an offset array leaked its
 new allocation

---
 src/array.tpp  | 4 ++--
 src/array2.tpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index c5c75d6..268fa4e 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -350,6 +350,8 @@ Array<T>::resize(const shape_t& ns, const T init) {
     msg += "}";
     throw std::runtime_error(msg);
   }
+  if (_shift > 0)
+    throw std::runtime_error("Resizing only works for zero-offset Arrays at present. Please extend.");
   // make the new array
   T* nd = new T[nnum]();
   // fill the whole thing instead of trying to figure out difference indices
@@ -361,8 +363,6 @@ Array<T>::resize(const shape_t& ns, const T init) {
   // ensure our simple indexing will work
   // ind_t linoffset = sub2lin(_offset, _stride);
   // if (linoffset > 0)
-  if (_shift > 0)
-    throw std::runtime_error("Resizing only works for zero-offset Arrays at present. Please extend.");
   // copy into the new array if the old array isn't the null pointer
   if (_data != nullptr && nd != nullptr)
     for (auto x : SubIt(inside)) nd[sub2lin(x, nt)] = _data[sub2lin(x, _stride)];
diff --git a/src/array2.tpp b/src/array2.tpp
index 5286548..b604ee5 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -344,6 +344,8 @@ Array2<T>::resize(const shape_t& ns, const T init) {
     msg += "}";
     throw std::runtime_error(msg);
   }
+  if (_shift > 0)
+    throw std::runtime_error("Resizing only works for zero-offset Array2s at present. Please extend.");
   // make the new array
   T* nd = new T[nnum]();
   // fill the whole thing instead of trying to figure out difference indices
@@ -353,8 +355,6 @@ Array2<T>::resize(const shape_t& ns, const T init) {
   // find the new stride (maintaining row or column order)
   shape_t nt = calculate_stride(ns);
   // ensure our simple indexing will work
-  if (_shift > 0)
-    throw std::runtime_error("Resizing only works for zero-offset Array2s at present. Please extend.");
   // copy into the new array if the old array isn't the null pointer
   if (_data != nullptr && nd != nullptr)
     for (auto x : SubIt2(inside)) nd[sub2lin(x, nt)] = _data[sub2lin(x, _stride)];
-- 
2.43.0


From b3c9c0c2520c4db7f06c1a4115cdbb9915d01ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:40 +0000
Subject: [PATCH 022/104] fix: is_permutation ignored its tolerances and
 permutation_vector repeated indices of duplicate rows

---
 src/array2.tpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/array2.tpp b/src/array2.tpp
index b604ee5..99f0017 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -1045,9 +1045,9 @@ bool Array2<T>::is_permutation(const Array2<R>& other, const T Ttol, const R Rto
     const auto x{this->view(i)};
     // if *this contains the same thing more than once, other must as well:
     // NaN values would break this functionality since NaN == NaN is never true
-    if (this->count(cmp::eq, x) != other.count(cmp::eq, x, Ttol, Rtol, tol)) {
-      info_update(x.to_string(0), " is in \n", this->to_string(), this->count(cmp::eq, x), " times but in\n",
-                  other.to_string(), other.count(cmp::eq, x, tol), " times!");
+    // other has a different element type, so the tolerances swap their roles
+    if (this->count(cmp::eq, x, Ttol, Ttol, tol) != other.count(cmp::eq, x, Rtol, Ttol, tol)) {
+      info_update(x.to_string(0), " is not equally often in \n", this->to_string(), " and in\n", other.to_string());
       return false;
     }
 //    // the reverse should be true too, but is extraneous
@@ -1064,15 +1064,16 @@ std::vector<ind_t> Array2<T>::permutation_vector(const Array2<R>& other, const T
   auto not_present = [](const auto & a, const auto & b){
     if (a.size() == 0) throw std::runtime_error("Can not find a not in b since a is empty");
     if (b.size() == 0) return a[0];
-    const auto ptr = std::find_first_of(a.begin(), a.end(), b.begin(), b.end(),
-                                        [](const auto & x, const auto & y){return x != y;});
+    const auto ptr = std::find_if(a.begin(), a.end(), [&b](const auto & x){
+      return std::find(b.begin(), b.end(), x) == b.end();
+    });
     if (ptr == a.end())
       throw std::runtime_error("b contains all of a!");
     return *ptr;
   };
   std::vector<ind_t> perm;
   for (ind_t i=0; i < _shape[0]; ++i){
-    auto others = other.find(cmp::eq, this->view(i), Ttol, Rtol, tol);
+    auto others = other.find(cmp::eq, this->view(i), Rtol, Ttol, tol);
     perm.push_back(not_present(others, perm));
   }
   return perm;
-- 
2.43.0


From 3cc869651c3b950b6109f10afd4ec3ddd9ad3129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:40 +0000
Subject: [PATCH 023/104] fix: scalar - array was calculated as array - scalar

---
 src/array_functions.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/array_functions.hpp b/src/array_functions.hpp
index 92d659f..93a32bb 100644
--- a/src/array_functions.hpp
+++ b/src/array_functions.hpp
@@ -98,10 +98,18 @@ operator X (const R b, const A<T>& a){\
   return out;\
 }
 SCALAR_ARRAY_OP(+,+=)
-SCALAR_ARRAY_OP(-,-=)
 SCALAR_ARRAY_OP(*,*=)
 #undef SCALAR_ARRAY_OP
 
+// subtraction does not commute, b - a can not be calculated as a - b
+template<class T, class R, template<class> class A, class S = std::common_type_t<T,R>>
+std::enable_if_t<isArray<T,A>, A<S>>
+operator - (const R b, const A<T>& a){
+  A<S> out = A<S>(a).decouple();
+  for (auto & x: out.valItr()) x = static_cast<S>(b) - x;
+  return out;
+}
+
 // any derived bArray<T> with a copy constructor [+-*/] std::array<R,N>
 // broadcasts the std::array but only if N matches the size of the last dimension of the bArray
 #define ARRAY_STDA_OP(X,Y) template<class T, template<class> class A, class R, class S = std::common_type_t<T,R>, size_t Nel>\
-- 
2.43.0


From a805e372a8f80331631b23ee799f005efbe2806a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:40 +0000
Subject: [PATCH 024/104] fix: extracting Array rows by a list of index tuples
 wrote outside its result

---
 src/array.tpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index 268fa4e..e69f640 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -120,18 +120,19 @@ Array<T>::extract(const std::vector<std::array<I,Nel>>& i) const
   for (ind_t j=1; j<this->ndim(); ++j)
     osh.push_back(_shape[j]);
   Array<T> out(osh);
-  shape_t xi{_shape};
+  shape_t row{_shape};
+  row[0] = 1u;
   for (ind_t a=0; a<i.size(); ++a)
   {
     osh[0] = a;
     for (ind_t b=0; b<Nel; ++b)
     {
       osh[1] = b;
-      xi[0] = static_cast<ind_t>(i[a][b]);
-      for (auto sub: SubIt(_shape, xi))
+      for (auto sub: SubIt<ind_t>(row))
       {
-        for (ind_t j=0; j<_shape.size(); ++j) osh[j+1]=sub[j];
-        out[sub] = _data[this->s2l_d(xi)];
+        for (ind_t j=1; j<_shape.size(); ++j) osh[j+1]=sub[j];
+        sub[0] = static_cast<ind_t>(i[a][b]);
+        out[osh] = _data[this->s2l_d(sub)];
       }
     }
   }
-- 
2.43.0


From 8f840afc5af68c7941243040eadc5f4b4b86b2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 025/104] fix: reductions of a strided Array were allocated too
 small for their stride

---
 src/array.tpp | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index e69f640..6ba3d9b 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -519,14 +519,9 @@ Array<T>
 Array<T>::sum(const ind_t dim) const{
   size_t ndim = _shape.size();
   assert(dim < ndim);
-  shape_t ostride = this->stride();
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize);
   Array<T> out(osize, ostride);
   for (auto oidx: SubIt<ind_t>(osize)) {
     T tmp{0};
@@ -545,14 +540,9 @@ Array<T>
 Array<T>::prod(const ind_t dim) const{
   size_t ndim = _shape.size();
   assert(dim < ndim);
-  shape_t ostride = this->stride();
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize);
   Array<T> out(osize, ostride);
   for (auto oidx: SubIt<ind_t>(osize)) {
     T tmp{1};
@@ -571,14 +561,9 @@ Array<T>
 Array<T>::min(const ind_t dim) const{
   size_t ndim = _shape.size();
   assert(dim < ndim);
-  shape_t ostride = this->stride();
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize);
   Array<T> out(osize, ostride);
   for (auto oidx: SubIt<ind_t>(osize)) {
     T tmp{(std::numeric_limits<T>::max)()};
@@ -598,14 +583,9 @@ Array<T>
 Array<T>::max(const ind_t dim) const{
   size_t ndim = _shape.size();
   assert(dim < ndim);
-  shape_t ostride = this->stride();
   shape_t osize = this->shape();
   osize[dim] = 1u;
-  if (this->is_row_ordered()){
-    for (ind_t i=0; i<dim; ++i) ostride[i] /= _shape[dim];
-  } else {
-    for (ind_t i=dim+1; i<ndim; ++i) ostride[i] /= _shape[dim];
-  }
+  shape_t ostride = this->calculate_stride(osize);
   // the stride along any dimension can not be zero. protect against it:
   for (ind_t i=0; i<ndim; ++i) if (ostride[i] < 1u) ostride[i] = 1u;
 
-- 
2.43.0


From 47dace633fe7221a69e37b862b78b18931c7948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 026/104] fix: swapping sub-arrays of a single element threw
 instead of swapping

---
 src/array.tpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/array.tpp b/src/array.tpp
index 6ba3d9b..17e0b7d 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -888,20 +888,17 @@ void Array<T>::permute(std::vector<I>& p){
 template<class T>
 bool Array<T>::swap(const ind_t a, const ind_t b){
   assert(a<_shape[0] && b<_shape[0]);
-  shape_t sub{_shape};
-  sub[0] = a; // fix the 0th index to 'a' in the iterator
-  auto itr = SubIt<ind_t>(_shape, sub);
-  for (auto aidx: itr){
-    // for each of the [a,...] subscripted indices, construct [b,...]
+  shape_t row{_shape};
+  row[0] = 1u; // iterate over the elements of one sub-array, even if there is only one
+  for (auto aidx: SubIt<ind_t>(row)){
     shape_t bidx{aidx};
+    aidx[0] = a;
     bidx[0] = b;
-    // precalculate the offset/stride/shaped subscripts:
     auto sa = this->s2l_d(aidx);
     auto sb = this->s2l_d(bidx);
-    // perform the actual swap:
-    T store = _data[sa];
+    T _store_ = _data[sa];
     _data[sa] = _data[sb];
-    _data[sb] = store;
+    _data[sb] = _store_;
   }
   return true;
 }
-- 
2.43.0


From 332c2b2e3c7f6a96a465a7b3acd9805cde4dbb51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:46 +0000
Subject: [PATCH 027/104] fix: contiguous column ordered Arrays with equal
 strides were taken for strided

---
 src/array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/array.hpp b/src/array.hpp
index ff797a3..ad44607 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -117,7 +117,8 @@ public:
       for (auto s = _shape.rbegin(); s!=_shape.rend(); ++s)
         expected.push_back(expected.back()*(*s));
       expected.pop_back();
-      return std::equal(_stride.begin(), _stride.end(), expected.rbegin());
+      if (std::equal(_stride.begin(), _stride.end(), expected.rbegin())) return true;
+      expected = shape_t(1, 1); // equal strides are both row and column ordered
     }
     if (this->is_column_ordered()){
       for (auto s : _shape) expected.push_back(expected.back()*s);
-- 
2.43.0


From ff82cf479743cc4839f15d101c3ad71997b349dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 028/104] fix: look up international table number 230 by number
 (C05)

---
 src/spg_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index a158e4f..9d3497f 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -612,7 +612,7 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
 bool brille::hall_number_ok(const int h) {return h>0 && h<531;}
 
 int brille::international_number_to_hall_number(const int n, const std::string& c){
-	if (n>=0 && n<230) for (int i=1; i<531; i++){
+	if (n>0 && n<=230) for (int i=1; i<531; i++){
 		Spacegroup spg(ALL_SPACEGROUPS[i]);
     if (n==spg.number && (0==c.size() || 0==c.compare(spg.choice))) return i;
 	}
-- 
2.43.0


From 4c30703c44b68004084602414c3401cbbe2900ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 029/104] fix: keep the normalised axis of a Hall symbol's ''
 and ''' and forget earlier contents when parsing (C05)

---
 src/hall_symbol.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hall_symbol.cpp b/src/hall_symbol.cpp
index 1dccc68..74f65e0 100644
--- a/src/hall_symbol.cpp
+++ b/src/hall_symbol.cpp
@@ -23,6 +23,9 @@ bool HallSymbol::from_ascii(const std::string& s){
   char c;
   bool hassubsup;
   this->L = Bravais::_;
+  this->centrosymmetric = false;
+  this->symbols.clear();
+  this->V = {{1,0,0, 0,1,0, 0,0,1}, {0,0,0}};
   hassubsup = s.find('^') != std::string::npos;
   hassubsup |= s.find('_') != std::string::npos;
   // bool hasspace = s.find(' ') != std::string::npos;
@@ -105,7 +108,7 @@ bool HallSymbol::from_ascii(const std::string& s){
 bool HallSymbol::validate(){
   // verify that everything went ok
   bool ok = brille::bravais_is_known(this->L);
-  for (auto ss: this->symbols) ok &= ss.validate();
+  for (auto & ss: this->symbols) ok &= ss.validate();
   // further validation could be possible by finding the full spacegroup
   return ok;
 }
-- 
2.43.0


From 85bd72981302c61b25d46a5f5594f232447da4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 030/104] fix: include the origin shift in the text form of a
 Hall symbol (C05)

---
 src/hall_symbol.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hall_symbol.cpp b/src/hall_symbol.cpp
index 74f65e0..2802d79 100644
--- a/src/hall_symbol.cpp
+++ b/src/hall_symbol.cpp
@@ -167,6 +167,13 @@ std::string HallSymbol::to_ascii() const {
   if (this->centrosymmetric) s += "-";
   s += brille::bravais_letter(this->L);
   for (auto z: this->symbols) s += " " + z.to_ascii();
+  if (!this->V.has_identity_translation()) {
+    // the origin shift is given in units of one twelfth
+    std::string shift;
+    for (const auto & v: this->V.gett())
+      shift += (shift.empty() ? "" : " ") + std::to_string(static_cast<int>(std::round(12 * v)));
+    s += " (" + shift + ")";
+  }
   return s;
 }
 
-- 
2.43.0


From eb90fa1fda9671df4b1f9759945af4de2c94a3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 031/104] fix: give the implicit a-b axis of a Hall symbol its
 screw translations (C05)

---
 src/hall_symbol.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hall_symbol.cpp b/src/hall_symbol.cpp
index 2802d79..b7a7dfe 100644
--- a/src/hall_symbol.cpp
+++ b/src/hall_symbol.cpp
@@ -283,6 +283,8 @@ Vector<double> SeitzSymbol::inner_gett(const int an, const char ax, const char p
       case 'y': a = {0,1,0}; break;
       case 'z': a = {0,0,1}; break;
       case '*': a = {1,1,1}; break;
+      // the special 2 preceeded by 3 or 6 case -> a-b (same as 2' preceeded by z)
+      case '?': a = {1,-1,0}; break;
       case '\'': switch (pax) {
         case 'x': a = {0,1,-1}; break;
         case 'y': a = {1,0,-1}; break;
-- 
2.43.0


From 514e33ca9959b1f06b5bf78c2ac62a548d10b07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 032/104] fix: write the translation part of a Motion as the
 fraction it is (C06)

---
 src/motion.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/motion.hpp b/src/motion.hpp
index 8c47988..48cd948 100644
--- a/src/motion.hpp
+++ b/src/motion.hpp
@@ -144,11 +144,11 @@ operations.
             if (v != T(0)){
                 // try finding a rational number:
                 int num{0}, den{0};
-                for (; num<256; ++num){
-                    den = T(num)/v;
-                    if (brille::approx_float::scalar(v, T(num)/T(den))) break;
+                for (den=1; den<256; ++den){
+                    num = static_cast<int>(std::round(v * T(den)));
+                    if (num != 0 && brille::approx_float::scalar(v, T(num)/T(den))) break;
                 }
-                lout += (num < 256) ? (std::to_string(num) + "/" + std::to_string(den)) : std::to_string(v);
+                lout += (den < 256) ? (std::to_string(num) + "/" + std::to_string(den)) : std::to_string(v);
             }
             std::vector<std::string> es{"x","y","z"};
             for (int i=0; i<3; ++i) if (e[i] != 0)
-- 
2.43.0


From 0c187b8a93689782fef35b660bd3569fbfdca256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:21 +0000
Subject: [PATCH 033/104] fix: allow spaces within the components of a Motion
 and refuse a fourth component (C06)

---
 src/motion.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/motion.hpp b/src/motion.hpp
index 48cd948..000be8b 100644
--- a/src/motion.hpp
+++ b/src/motion.hpp
@@ -192,6 +192,10 @@ operations.
                 break;
             }
             ++ret; // we've read another character
+            if (n > 2u) {
+                if (' ' == c || ';' == c) continue; // trailing characters after a complete motion
+                throw std::runtime_error("String representation of a Motion has more than three components.");
+            }
             switch (c){
                 case ' ': // end of motion component in the special case, otherwise nothing
                     if (special) {
@@ -221,12 +225,13 @@ operations.
                     debug_update_if(special, "which is not one of ';,xyz ' so search until one of '",nosearch,"' is found next");
                     std::stringstream tmp;
                     tmp << c; // if a number, tmp might be the sign.
-                    bool haspoint{false}, hasslash{false}, hasdigit{digits.find(c)!=std::string::npos};
+                    bool haspoint{'.'==c}, hasslash{false}, hasdigit{digits.find(c)!=std::string::npos};
                     while (nosearch.find(char(stream.peek()))==std::string::npos && stream.good()){
                         hasdigit |= digits.find(char(stream.peek()))!=std::string::npos;
                         hasslash |= '/'==stream.peek();
                         haspoint |= '.'==stream.peek();
-                        tmp << char(stream.get()); // without char() the output of stream.get() is interpreted as an integer (under MSVC, at least)
+                        char next = char(stream.get()); // without char() the output of stream.get() is interpreted as an integer (under MSVC, at least)
+                        if (' ' != next) tmp << next; // spaces between a sign and its number are not significant
                     }
                     // Make sure the end-of-motion character is next even if we're at the end of the string
                     if (!stream.good()) stream.putback(special ? ' ' : ';');
-- 
2.43.0


From 025d4e8ddc9c1791d212e3f813cecb54e8c367c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:55 +0000
Subject: [PATCH 034/104] fix: decode every component of an xyz-encoded
 pointgroup operation (C07)

---
 src/pointsymmetry.cpp | 52 +++++--------------------------------------
 1 file changed, 6 insertions(+), 46 deletions(-)

diff --git a/src/pointsymmetry.cpp b/src/pointsymmetry.cpp
index fb4c0f3..4b2fea0 100644
--- a/src/pointsymmetry.cpp
+++ b/src/pointsymmetry.cpp
@@ -37,56 +37,16 @@ size_t PointSymmetry::add(const Matrix<int>& r){
   return this->R.size();
 }
 size_t PointSymmetry::add(const std::string& s){
-  Matrix<int> newR{0,0,0,0,0,0,0,0,0};
   // a valid encoded Motion will be of the form
   // ∑ₙiₙαₙ + f where each iₙ is an integer, αₙ∈{x,y,z}
-  // and f one of 0, ±1/12, ±1/6, ±1/4, ±1/3, ±1/2
-  // but we should support any rational or floating point value for f
-  int n{0}, i{1};
-  char c{' '};
+  // any translation part, f, does not belong in a pointgroup operation and is
+  // ignored. Motions are separated by semicolons.
+  size_t ret{this->size()};
   std::istringstream stream(s);
-  size_t ret{0};
-  while (stream.good()){
-    c = char(stream.get());
-    switch (c){
-      case ';': // end of one motion
-        ret = this->add(newR);
-        newR = {0,0,0,0,0,0,0,0,0};
-        n=0;
-        i=1;
-        break;
-      case ',': // end of motion component
-        i=1;
-        break;
-      case 'x':
-        newR[n*3] = i;
-        i=1;
-        break;
-      case 'y':
-        newR[n*3+1] = i;
-        i=1;
-        break;
-      case 'z':
-        newR[n*3+2] = i;
-        i=1;
-        break;
-      default: // not ;,xyz
-        std::stringstream tmp;
-        tmp << c;
-        bool haspoint{false}, hasslash{false};
-        while (std::strchr(";,xyz-+",stream.peek())==nullptr){
-          hasslash |= '/'==stream.peek();
-          haspoint |= '.'==stream.peek();
-          tmp << stream.get();
-        }
-        if (haspoint && hasslash) throw std::logic_error("Number has both point and slash?!");
-        if (!(haspoint^hasslash)) tmp >> i; // TT (error) or FF (integer)
-        // either floating point or rational numbers represent part of the
-        // translation which strictly shouldn't be here for pointgroup
-        // operations, but we should just skip for now
-    }
+  for (std::string m; std::getline(stream, m, ';');){
+    if (m.find_first_not_of(" \t\r\n") == std::string::npos) continue;
+    ret = this->add(Motion<int,double>(m).getr());
   }
-  if (';'!=c) ret = this->add(newR);
   return ret;
 }
 bool PointSymmetry::set(const size_t i, const int *r){
-- 
2.43.0


From d54d576743c9d6a53e9f1d72ffebdb30cfcdd3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:55 +0000
Subject: [PATCH 035/104] fix: compare rotations only with the unique ones
 already found (C07)

---
 src/pointgroup.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pointgroup.cpp b/src/pointgroup.cpp
index 5a90f89..61173e1 100644
--- a/src/pointgroup.cpp
+++ b/src/pointgroup.cpp
@@ -229,7 +229,7 @@ PointSymmetry brille::ptg_get_pointsymmetry(const int *rotations, const int num_
   // so that our outer for loop can start from the second one
   for (int i = 1; i < num_rotations; i++) {
     bool isunique = true;
-    for (int j = 0; j < num_rotations; j++)
+    for (size_t j = 0; j < pointsym.size(); j++)
       if ( brille::utils::equal_matrix(rotations+i*9, pointsym.data(j)) ){
        isunique = false;
        break;
-- 
2.43.0


From f63580ab03964cbf93782d2cba07291356b84e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:55 +0000
Subject: [PATCH 036/104] fix: generate the whole group from any set of
 generators (C06)

---
 src/pointsymmetry.cpp | 33 +++++++++++++++++++--------------
 src/symmetry.cpp      | 31 ++++++++++++++++++-------------
 2 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/src/pointsymmetry.cpp b/src/pointsymmetry.cpp
index 4b2fea0..a7774c1 100644
--- a/src/pointsymmetry.cpp
+++ b/src/pointsymmetry.cpp
@@ -258,22 +258,27 @@ PointSymmetry PointSymmetry::generate() const {
   Matrix<int> x, y, E{1,0,0, 0,1,0, 0,0,1}; // E, the identity operation
   PointSymmetry gen;
   gen.add(E); // any generated operations always need the identity operation
-  size_t gensize;
-  for (size_t i=0; i<this->size(); ++i){
-    x = E;
-    // for each of R, R¹,…, Rⁿ⁻¹
-    for (int count=this->order(i); count--;){ // post-decrimate to run the loop count times
-      brille::utils::multiply_matrix_matrix(y.data(), this->data(i), x.data());
-      x = y;
-      // multiply Rⁱ by the operators in gen
-      gensize = gen.size(); // only multiply against pre-existing operations
-      for (size_t j=0; j<gensize; ++j){
-        brille::utils::multiply_matrix_matrix(y.data(), x.data(), gen.data(j));
-        // and add them to gen if they are not already present
-        if (!gen.has(y)) gen.add(y);
+  size_t gensize, before;
+  const size_t most{48}; // no finite group of integer 3×3 matrices has more elements
+  // a product can require any sequence of the operations, so keep going until nothing new is found
+  do {
+    before = gen.size();
+    for (size_t i=0; i<this->size(); ++i){
+      x = E;
+      // for each of R, R¹,…, Rⁿ⁻¹
+      for (int count=this->order(i); count--;){ // post-decrimate to run the loop count times
+        brille::utils::multiply_matrix_matrix(y.data(), this->data(i), x.data());
+        x = y;
+        // multiply Rⁱ by the operators in gen
+        gensize = gen.size(); // only multiply against pre-existing operations
+        for (size_t j=0; j<gensize; ++j){
+          brille::utils::multiply_matrix_matrix(y.data(), x.data(), gen.data(j));
+          // and add them to gen if they are not already present
+          if (!gen.has(y)) gen.add(y);
+        }
       }
     }
-  }
+  } while (before < gen.size() && gen.size() <= most);
   return gen;
 }
 PointSymmetry PointSymmetry::generators() const {
diff --git a/src/symmetry.cpp b/src/symmetry.cpp
index 8eb1aaf..232434a 100644
--- a/src/symmetry.cpp
+++ b/src/symmetry.cpp
@@ -127,21 +127,26 @@ Symmetry Symmetry::generate() const {
   Motion<int,double> e({1,0,0, 0,1,0, 0,0,1}, {0,0,0});
   Symmetry gen;
   gen.add(e);
-  size_t gensize;
-  for (size_t i=0; i<this->size(); ++i){
-    auto x = e;
-    // for each of {W,w}, {W²,Ww+w}, {W³,W²w+Ww+w}, …
-    for (int count=this->order(i); count--;) /* loop runs count times */ {
-      x = getm(i)*x;
-      // multiply {Wⁱ,Wⁱ⁻¹w+…} by the motions in gen
-      gensize = gen.size(); // only multiply against pre-existing motions
-      for (size_t j=0; j<gensize; ++j){
-        auto y = x * gen.getm(j);
-        // add missing motions to gen
-        if (!gen.has(y)) gen.add(y);
+  size_t gensize, before, passes{0};
+  const size_t most{48*4*27}; // cubic, face centred, described in a 3×3×3 supercell
+  // a product can require any sequence of the motions, so keep going until nothing new is found
+  do {
+    before = gen.size();
+    for (size_t i=0; i<this->size(); ++i){
+      auto x = e;
+      // for each of {W,w}, {W²,Ww+w}, {W³,W²w+Ww+w}, …
+      for (int count=this->order(i); count--;) /* loop runs count times */ {
+        x = getm(i)*x;
+        // multiply {Wⁱ,Wⁱ⁻¹w+…} by the motions in gen
+        gensize = gen.size(); // only multiply against pre-existing motions
+        for (size_t j=0; j<gensize; ++j){
+          auto y = x * gen.getm(j);
+          // add missing motions to gen
+          if (!gen.has(y)) gen.add(y);
+        }
       }
     }
-  }
+  } while (before < gen.size() && gen.size() <= most && ++passes < 48);
   return gen;
 }
 Symmetry Symmetry::generators() const{
-- 
2.43.0


From 7d5ec971331429d46b1153f11f4c19626ba1d405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 037/104] fix: record the lattice centring of the 40 B-centred
 settings (C05)

---
 src/spg_database.cpp | 80 ++++++++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 40 deletions(-)

diff --git a/src/spg_database.cpp b/src/spg_database.cpp
index 9d3497f..3bebdf9 100644
--- a/src/spg_database.cpp
+++ b/src/spg_database.cpp
@@ -89,9 +89,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  5, "C2^3"  , "A 2y"            , "C 2 = A 1 2 1"                  , "A 1 2 1"            , "C2"        , "b2"   , Bravais::A,  3,  10},
   {  5, "C2^3"  , "I 2y"            , "C 2 = I 1 2 1"                  , "I 1 2 1"            , "C2"        , "b3"   , Bravais::I,  3,  11},
   {  5, "C2^3"  , "A 2"             , "C 2 = A 1 1 2"                  , "A 1 1 2"            , "C2"        , "c1"   , Bravais::A,  3,  12},
-  {  5, "C2^3"  , "B 2"             , "C 2 = B 1 1 2 = B 2"            , "B 1 1 2"            , "C2"        , "c2"   , Bravais::P,  3,  13},
+  {  5, "C2^3"  , "B 2"             , "C 2 = B 1 1 2 = B 2"            , "B 1 1 2"            , "C2"        , "c2"   , Bravais::B,  3,  13},
   {  5, "C2^3"  , "I 2"             , "C 2 = I 1 1 2"                  , "I 1 1 2"            , "C2"        , "c3"   , Bravais::I,  3,  14},
-  {  5, "C2^3"  , "B 2x"            , "C 2 = B 2 1 1"                  , "B 2 1 1"            , "C2"        , "a1"   , Bravais::P,  3,  15},
+  {  5, "C2^3"  , "B 2x"            , "C 2 = B 2 1 1"                  , "B 2 1 1"            , "C2"        , "a1"   , Bravais::B,  3,  15},
   {  5, "C2^3"  , "C 2x"            , "C 2 = C 2 1 1"                  , "C 2 1 1"            , "C2"        , "a2"   , Bravais::C,  3,  16},
   {  5, "C2^3"  , "I 2x"            , "C 2 = I 2 1 1"                  , "I 2 1 1"            , "C2"        , "a3"   , Bravais::I,  3,  17},
   {  6, "Cs^1"  , "P -2y"           , "P m = P 1 m 1"                  , "P 1 m 1"            , "Pm"        , "b"    , Bravais::P,  4,  18},
@@ -110,9 +110,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  8, "Cs^3"  , "A -2y"           , "C m = A 1 m 1"                  , "A 1 m 1"            , "Cm"        , "b2"   , Bravais::A,  4,  31},
   {  8, "Cs^3"  , "I -2y"           , "C m = I 1 m 1"                  , "I 1 m 1"            , "Cm"        , "b3"   , Bravais::I,  4,  32},
   {  8, "Cs^3"  , "A -2"            , "C m = A 1 1 m"                  , "A 1 1 m"            , "Cm"        , "c1"   , Bravais::A,  4,  33},
-  {  8, "Cs^3"  , "B -2"            , "C m = B 1 1 m = B m"            , "B 1 1 m"            , "Cm"        , "c2"   , Bravais::P,  4,  34},
+  {  8, "Cs^3"  , "B -2"            , "C m = B 1 1 m = B m"            , "B 1 1 m"            , "Cm"        , "c2"   , Bravais::B,  4,  34},
   {  8, "Cs^3"  , "I -2"            , "C m = I 1 1 m"                  , "I 1 1 m"            , "Cm"        , "c3"   , Bravais::I,  4,  35},
-  {  8, "Cs^3"  , "B -2x"           , "C m = B m 1 1"                  , "B m 1 1"            , "Cm"        , "a1"   , Bravais::P,  4,  36},
+  {  8, "Cs^3"  , "B -2x"           , "C m = B m 1 1"                  , "B m 1 1"            , "Cm"        , "a1"   , Bravais::B,  4,  36},
   {  8, "Cs^3"  , "C -2x"           , "C m = C m 1 1"                  , "C m 1 1"            , "Cm"        , "a2"   , Bravais::C,  4,  37},
   {  8, "Cs^3"  , "I -2x"           , "C m = I m 1 1"                  , "I m 1 1"            , "Cm"        , "a3"   , Bravais::I,  4,  38},
   {  9, "Cs^4"  , "C -2yc"          , "C c = C 1 c 1"                  , "C 1 c 1"            , "Cc"        , "b1"   , Bravais::C,  4,  39},
@@ -122,16 +122,16 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   {  9, "Cs^4"  , "C -2ybc"         , "C c = C 1 n 1"                  , "C 1 n 1"            , "Cc"        , "-b2"  , Bravais::C,  4,  43},
   {  9, "Cs^4"  , "I -2yc"          , "C c = I 1 c 1"                  , "I 1 c 1"            , "Cc"        , "-b3"  , Bravais::I,  4,  44},
   {  9, "Cs^4"  , "A -2a"           , "C c = A 1 1 a"                  , "A 1 1 a"            , "Cc"        , "c1"   , Bravais::A,  4,  45},
-  {  9, "Cs^4"  , "B -2bc"          , "C c = B 1 1 n"                  , "B 1 1 n"            , "Cc"        , "c2"   , Bravais::P,  4,  46},
+  {  9, "Cs^4"  , "B -2bc"          , "C c = B 1 1 n"                  , "B 1 1 n"            , "Cc"        , "c2"   , Bravais::B,  4,  46},
   {  9, "Cs^4"  , "I -2b"           , "C c = I 1 1 b"                  , "I 1 1 b"            , "Cc"        , "c3"   , Bravais::I,  4,  47},
-  {  9, "Cs^4"  , "B -2b"           , "C c = B 1 1 b = B b"            , "B 1 1 b"            , "Cc"        , "-c1"  , Bravais::P,  4,  48},
+  {  9, "Cs^4"  , "B -2b"           , "C c = B 1 1 b = B b"            , "B 1 1 b"            , "Cc"        , "-c1"  , Bravais::B,  4,  48},
   {  9, "Cs^4"  , "A -2ac"          , "C c = A 1 1 n"                  , "A 1 1 n"            , "Cc"        , "-c2"  , Bravais::A,  4,  49},
   {  9, "Cs^4"  , "I -2a"           , "C c = I 1 1 a"                  , "I 1 1 a"            , "Cc"        , "-c3"  , Bravais::I,  4,  50},
-  {  9, "Cs^4"  , "B -2xb"          , "C c = B b 1 1"                  , "B b 1 1"            , "Cc"        , "a1"   , Bravais::P,  4,  51},
+  {  9, "Cs^4"  , "B -2xb"          , "C c = B b 1 1"                  , "B b 1 1"            , "Cc"        , "a1"   , Bravais::B,  4,  51},
   {  9, "Cs^4"  , "C -2xbc"         , "C c = C n 1 1"                  , "C n 1 1"            , "Cc"        , "a2"   , Bravais::C,  4,  52},
   {  9, "Cs^4"  , "I -2xc"          , "C c = I c 1 1"                  , "I c 1 1"            , "Cc"        , "a3"   , Bravais::I,  4,  53},
   {  9, "Cs^4"  , "C -2xc"          , "C c = C c 1 1"                  , "C c 1 1"            , "Cc"        , "-a1"  , Bravais::C,  4,  54},
-  {  9, "Cs^4"  , "B -2xbc"         , "C c = B n 1 1"                  , "B n 1 1"            , "Cc"        , "-a2"  , Bravais::P,  4,  55},
+  {  9, "Cs^4"  , "B -2xbc"         , "C c = B n 1 1"                  , "B n 1 1"            , "Cc"        , "-a2"  , Bravais::B,  4,  55},
   {  9, "Cs^4"  , "I -2xb"          , "C c = I b 1 1"                  , "I b 1 1"            , "Cc"        , "-a3"  , Bravais::I,  4,  56},
   { 10, "C2h^1" , "-P 2y"           , "P 2/m = P 1 2/m 1"              , "P 1 2/m 1"          , "P2/m"      , "b"    , Bravais::P,  5,  57},
   { 10, "C2h^1" , "-P 2"            , "P 2/m = P 1 1 2/m"              , "P 1 1 2/m"          , "P2/m"      , "c"    , Bravais::P,  5,  58},
@@ -143,9 +143,9 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 12, "C2h^3" , "-A 2y"           , "C 2/m = A 1 2/m 1"              , "A 1 2/m 1"          , "C2/m"      , "b2"   , Bravais::A,  5,  64},
   { 12, "C2h^3" , "-I 2y"           , "C 2/m = I 1 2/m 1"              , "I 1 2/m 1"          , "C2/m"      , "b3"   , Bravais::I,  5,  65},
   { 12, "C2h^3" , "-A 2"            , "C 2/m = A 1 1 2/m"              , "A 1 1 2/m"          , "C2/m"      , "c1"   , Bravais::A,  5,  66},
-  { 12, "C2h^3" , "-B 2"            , "C 2/m = B 1 1 2/m = B 2/m"      , "B 1 1 2/m"          , "C2/m"      , "c2"   , Bravais::P,  5,  67},
+  { 12, "C2h^3" , "-B 2"            , "C 2/m = B 1 1 2/m = B 2/m"      , "B 1 1 2/m"          , "C2/m"      , "c2"   , Bravais::B,  5,  67},
   { 12, "C2h^3" , "-I 2"            , "C 2/m = I 1 1 2/m"              , "I 1 1 2/m"          , "C2/m"      , "c3"   , Bravais::I,  5,  68},
-  { 12, "C2h^3" , "-B 2x"           , "C 2/m = B 2/m 1 1"              , "B 2/m 1 1"          , "C2/m"      , "a1"   , Bravais::P,  5,  69},
+  { 12, "C2h^3" , "-B 2x"           , "C 2/m = B 2/m 1 1"              , "B 2/m 1 1"          , "C2/m"      , "a1"   , Bravais::B,  5,  69},
   { 12, "C2h^3" , "-C 2x"           , "C 2/m = C 2/m 1 1"              , "C 2/m 1 1"          , "C2/m"      , "a2"   , Bravais::C,  5,  70},
   { 12, "C2h^3" , "-I 2x"           , "C 2/m = I 2/m 1 1"              , "I 2/m 1 1"          , "C2/m"      , "a3"   , Bravais::I,  5,  71},
   { 13, "C2h^4" , "-P 2yc"          , "P 2/c = P 1 2/c 1"              , "P 1 2/c 1"          , "P2/c"      , "b1"   , Bravais::P,  5,  72},
@@ -173,16 +173,16 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 15, "C2h^6" , "-C 2ybc"         , "C 2/c = C 1 2/n 1"              , "C 1 2/n 1"          , "C2/c"      , "-b2"  , Bravais::C,  5,  94},
   { 15, "C2h^6" , "-I 2yc"          , "C 2/c = I 1 2/c 1"              , "I 1 2/c 1"          , "C2/c"      , "-b3"  , Bravais::I,  5,  95},
   { 15, "C2h^6" , "-A 2a"           , "C 2/c = A 1 1 2/a"              , "A 1 1 2/a"          , "C2/c"      , "c1"   , Bravais::A,  5,  96},
-  { 15, "C2h^6" , "-B 2bc"          , "C 2/c = B 1 1 2/n"              , "B 1 1 2/n"          , "C2/c"      , "c2"   , Bravais::P,  5,  97},
+  { 15, "C2h^6" , "-B 2bc"          , "C 2/c = B 1 1 2/n"              , "B 1 1 2/n"          , "C2/c"      , "c2"   , Bravais::B,  5,  97},
   { 15, "C2h^6" , "-I 2b"           , "C 2/c = I 1 1 2/b"              , "I 1 1 2/b"          , "C2/c"      , "c3"   , Bravais::I,  5,  98},
-  { 15, "C2h^6" , "-B 2b"           , "C 2/c = B 1 1 2/b = B 2/b"      , "B 1 1 2/b"          , "C2/c"      , "-c1"  , Bravais::P,  5,  99},
+  { 15, "C2h^6" , "-B 2b"           , "C 2/c = B 1 1 2/b = B 2/b"      , "B 1 1 2/b"          , "C2/c"      , "-c1"  , Bravais::B,  5,  99},
   { 15, "C2h^6" , "-A 2ac"          , "C 2/c = A 1 1 2/n"              , "A 1 1 2/n"          , "C2/c"      , "-c2"  , Bravais::A,  5, 100},
   { 15, "C2h^6" , "-I 2a"           , "C 2/c = I 1 1 2/a"              , "I 1 1 2/a"          , "C2/c"      , "-c3"  , Bravais::I,  5, 101},
-  { 15, "C2h^6" , "-B 2xb"          , "C 2/c = B 2/b 1 1"              , "B 2/b 1 1"          , "C2/c"      , "a1"   , Bravais::P,  5, 102},
+  { 15, "C2h^6" , "-B 2xb"          , "C 2/c = B 2/b 1 1"              , "B 2/b 1 1"          , "C2/c"      , "a1"   , Bravais::B,  5, 102},
   { 15, "C2h^6" , "-C 2xbc"         , "C 2/c = C 2/n 1 1"              , "C 2/n 1 1"          , "C2/c"      , "a2"   , Bravais::C,  5, 103},
   { 15, "C2h^6" , "-I 2xc"          , "C 2/c = I 2/c 1 1"              , "I 2/c 1 1"          , "C2/c"      , "a3"   , Bravais::I,  5, 104},
   { 15, "C2h^6" , "-C 2xc"          , "C 2/c = C 2/c 1 1"              , "C 2/c 1 1"          , "C2/c"      , "-a1"  , Bravais::C,  5, 105},
-  { 15, "C2h^6" , "-B 2xbc"         , "C 2/c = B 2/n 1 1"              , "B 2/n 1 1"          , "C2/c"      , "-a2"  , Bravais::P,  5, 106},
+  { 15, "C2h^6" , "-B 2xbc"         , "C 2/c = B 2/n 1 1"              , "B 2/n 1 1"          , "C2/c"      , "-a2"  , Bravais::B,  5, 106},
   { 15, "C2h^6" , "-I 2xb"          , "C 2/c = I 2/b 1 1"              , "I 2/b 1 1"          , "C2/c"      , "-a3"  , Bravais::I,  5, 107},
   { 16, "D2^1"  , "P 2 2"           , "P 2 2 2"                        , "P 2 2 2"            , "P222"      , ""     , Bravais::P,  6, 108},
   { 17, "D2^2"  , "P 2c 2"          , "P 2 2 2_1"                      , "P 2 2 2_1"          , "P222_1"    , ""     , Bravais::P,  6, 109},
@@ -194,10 +194,10 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 19, "D2^4"  , "P 2ac 2ab"       , "P 2_1 2_1 2_1"                  , "P 2_1 2_1 2_1"      , "P2_12_12_1", ""     , Bravais::P,  6, 115},
   { 20, "D2^5"  , "C 2c 2"          , "C 2 2 2_1"                      , "C 2 2 2_1"          , "C222_1"    , ""     , Bravais::C,  6, 116},
   { 20, "D2^5"  , "A 2a 2a"         , "A 2_1 2 2"                      , "A 2_1 2 2"          , "A2_122"    , "cab"  , Bravais::A,  6, 117},
-  { 20, "D2^5"  , "B 2 2b"          , "B 2 2_1 2"                      , "B 2 2_1 2"          , "B22_12"    , "bca"  , Bravais::P,  6, 118},
+  { 20, "D2^5"  , "B 2 2b"          , "B 2 2_1 2"                      , "B 2 2_1 2"          , "B22_12"    , "bca"  , Bravais::B,  6, 118},
   { 21, "D2^6"  , "C 2 2"           , "C 2 2 2"                        , "C 2 2 2"            , "C222"      , ""     , Bravais::C,  6, 119},
   { 21, "D2^6"  , "A 2 2"           , "A 2 2 2"                        , "A 2 2 2"            , "A222"      , "cab"  , Bravais::A,  6, 120},
-  { 21, "D2^6"  , "B 2 2"           , "B 2 2 2"                        , "B 2 2 2"            , "B222"      , "bca"  , Bravais::P,  6, 121},
+  { 21, "D2^6"  , "B 2 2"           , "B 2 2 2"                        , "B 2 2 2"            , "B222"      , "bca"  , Bravais::B,  6, 121},
   { 22, "D2^7"  , "F 2 2"           , "F 2 2 2"                        , "F 2 2 2"            , "F222"      , ""     , Bravais::F,  6, 122},
   { 23, "D2^8"  , "I 2 2"           , "I 2 2 2"                        , "I 2 2 2"            , "I222"      , ""     , Bravais::I,  6, 123},
   { 24, "D2^9"  , "I 2b 2c"         , "I 2_1 2_1 2_1"                  , "I 2_1 2_1 2_1"      , "I2_12_12_1", ""     , Bravais::I,  6, 124},
@@ -251,37 +251,37 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 34, "C2v^10", "P -2n -2n"       , "P n 2 n"                        , "P n 2 n"            , "Pn2n"      , "bca"  , Bravais::P,  7, 172},
   { 35, "C2v^11", "C 2 -2"          , "C m m 2"                        , "C m m 2"            , "Cmm2"      , ""     , Bravais::C,  7, 173},
   { 35, "C2v^11", "A -2 2"          , "A 2 m m"                        , "A 2 m m"            , "A2mm"      , "cab"  , Bravais::A,  7, 174},
-  { 35, "C2v^11", "B -2 -2"         , "B m 2 m"                        , "B m 2 m"            , "Bm2m"      , "bca"  , Bravais::P,  7, 175},
+  { 35, "C2v^11", "B -2 -2"         , "B m 2 m"                        , "B m 2 m"            , "Bm2m"      , "bca"  , Bravais::B,  7, 175},
   { 36, "C2v^12", "C 2c -2"         , "C m c 2_1"                      , "C m c 2_1"          , "Cmc2_1"    , ""     , Bravais::C,  7, 176},
   { 36, "C2v^12", "C 2c -2c"        , "C c m 2_1"                      , "C c m 2_1"          , "Ccm2_1"    , "ba-c" , Bravais::C,  7, 177},
   { 36, "C2v^12", "A -2a 2a"        , "A 2_1 m a"                      , "A 2_1 m a"          , "A2_1ma"    , "cab"  , Bravais::A,  7, 178},
   { 36, "C2v^12", "A -2 2a"         , "A 2_1 a m"                      , "A 2_1 a m"          , "A2_1am"    , "-cba" , Bravais::A,  7, 179},
-  { 36, "C2v^12", "B -2 -2b"        , "B b 2_1 m"                      , "B b 2_1 m"          , "Bb2_1m"    , "bca"  , Bravais::P,  7, 180},
-  { 36, "C2v^12", "B -2b -2"        , "B m 2_1 b"                      , "B m 2_1 b"          , "Bm2_1b"    , "a-cb" , Bravais::P,  7, 181},
+  { 36, "C2v^12", "B -2 -2b"        , "B b 2_1 m"                      , "B b 2_1 m"          , "Bb2_1m"    , "bca"  , Bravais::B,  7, 180},
+  { 36, "C2v^12", "B -2b -2"        , "B m 2_1 b"                      , "B m 2_1 b"          , "Bm2_1b"    , "a-cb" , Bravais::B,  7, 181},
   { 37, "C2v^13", "C 2 -2c"         , "C c c 2"                        , "C c c 2"            , "Ccc2"      , ""     , Bravais::C,  7, 182},
   { 37, "C2v^13", "A -2a 2"         , "A 2 a a"                        , "A 2 a a"            , "A2aa"      , "cab"  , Bravais::A,  7, 183},
-  { 37, "C2v^13", "B -2b -2b"       , "B b 2 b"                        , "B b 2 b"            , "Bb2b"      , "bca"  , Bravais::P,  7, 184},
+  { 37, "C2v^13", "B -2b -2b"       , "B b 2 b"                        , "B b 2 b"            , "Bb2b"      , "bca"  , Bravais::B,  7, 184},
   { 38, "C2v^14", "A 2 -2"          , "A m m 2"                        , "A m m 2"            , "Amm2"      , ""     , Bravais::A,  7, 185},
-  { 38, "C2v^14", "B 2 -2"          , "B m m 2"                        , "B m m 2"            , "Bmm2"      , "ba-c" , Bravais::P,  7, 186},
-  { 38, "C2v^14", "B -2 2"          , "B 2 m m"                        , "B 2 m m"            , "B2mm"      , "cab"  , Bravais::P,  7, 187},
+  { 38, "C2v^14", "B 2 -2"          , "B m m 2"                        , "B m m 2"            , "Bmm2"      , "ba-c" , Bravais::B,  7, 186},
+  { 38, "C2v^14", "B -2 2"          , "B 2 m m"                        , "B 2 m m"            , "B2mm"      , "cab"  , Bravais::B,  7, 187},
   { 38, "C2v^14", "C -2 2"          , "C 2 m m"                        , "C 2 m m"            , "C2mm"      , "-cba" , Bravais::C,  7, 188},
   { 38, "C2v^14", "C -2 -2"         , "C m 2 m"                        , "C m 2 m"            , "Cm2m"      , "bca"  , Bravais::C,  7, 189},
   { 38, "C2v^14", "A -2 -2"         , "A m 2 m"                        , "A m 2 m"            , "Am2m"      , "a-cb" , Bravais::A,  7, 190},
   { 39, "C2v^15", "A 2 -2c"         , "A e m 2"                        , "A e m 2"            , "Aem2"      , ""     , Bravais::A,  7, 191},
-  { 39, "C2v^15", "B 2 -2c"         , "B m e 2"                        , "B m e 2"            , "Bme2"      , "ba-c" , Bravais::P,  7, 192},
-  { 39, "C2v^15", "B -2c 2"         , "B 2 e m"                        , "B 2 e m"            , "B2em"      , "cab"  , Bravais::P,  7, 193},
+  { 39, "C2v^15", "B 2 -2c"         , "B m e 2"                        , "B m e 2"            , "Bme2"      , "ba-c" , Bravais::B,  7, 192},
+  { 39, "C2v^15", "B -2c 2"         , "B 2 e m"                        , "B 2 e m"            , "B2em"      , "cab"  , Bravais::B,  7, 193},
   { 39, "C2v^15", "C -2b 2"         , "C 2 m e"                        , "C 2 m e"            , "C2me"      , "-cba" , Bravais::C,  7, 194},
   { 39, "C2v^15", "C -2b -2b"       , "C m 2 e"                        , "C m 2 e"            , "Cm2e"      , "bca"  , Bravais::C,  7, 195},
   { 39, "C2v^15", "A -2c -2c"       , "A e 2 m"                        , "A e 2 m"            , "Ae2m"      , "a-cb" , Bravais::A,  7, 196},
   { 40, "C2v^16", "A 2 -2a"         , "A m a 2"                        , "A m a 2"            , "Ama2"      , ""     , Bravais::A,  7, 197},
-  { 40, "C2v^16", "B 2 -2b"         , "B b m 2"                        , "B b m 2"            , "Bbm2"      , "ba-c" , Bravais::P,  7, 198},
-  { 40, "C2v^16", "B -2b 2"         , "B 2 m b"                        , "B 2 m b"            , "B2mb"      , "cab"  , Bravais::P,  7, 199},
+  { 40, "C2v^16", "B 2 -2b"         , "B b m 2"                        , "B b m 2"            , "Bbm2"      , "ba-c" , Bravais::B,  7, 198},
+  { 40, "C2v^16", "B -2b 2"         , "B 2 m b"                        , "B 2 m b"            , "B2mb"      , "cab"  , Bravais::B,  7, 199},
   { 40, "C2v^16", "C -2c 2"         , "C 2 c m"                        , "C 2 c m"            , "C2cm"      , "-cba" , Bravais::C,  7, 200},
   { 40, "C2v^16", "C -2c -2c"       , "C c 2 m"                        , "C c 2 m"            , "Cc2m"      , "bca"  , Bravais::C,  7, 201},
   { 40, "C2v^16", "A -2a -2a"       , "A m 2 a"                        , "A m 2 a"            , "Am2a"      , "a-cb" , Bravais::A,  7, 202},
   { 41, "C2v^17", "A 2 -2ac"        , "A e a 2"                        , "A e a 2"            , "Aea2"      , ""     , Bravais::A,  7, 203},
-  { 41, "C2v^17", "B 2 -2bc"        , "B b e 2"                        , "B b e 2"            , "Bbe2"      , "ba-c" , Bravais::P,  7, 204},
-  { 41, "C2v^17", "B -2bc 2"        , "B 2 e b"                        , "B 2 e b"            , "B2eb"      , "cab"  , Bravais::P,  7, 205},
+  { 41, "C2v^17", "B 2 -2bc"        , "B b e 2"                        , "B b e 2"            , "Bbe2"      , "ba-c" , Bravais::B,  7, 204},
+  { 41, "C2v^17", "B -2bc 2"        , "B 2 e b"                        , "B 2 e b"            , "B2eb"      , "cab"  , Bravais::B,  7, 205},
   { 41, "C2v^17", "C -2bc 2"        , "C 2 c e"                        , "C 2 c e"            , "C2ce"      , "-cba" , Bravais::C,  7, 206},
   { 41, "C2v^17", "C -2bc -2bc"     , "C c 2 e"                        , "C c 2 e"            , "Cc2e"      , "bca"  , Bravais::C,  7, 207},
   { 41, "C2v^17", "A -2ac -2ac"     , "A e 2 a"                        , "A e 2 a"            , "Ae2a"      , "a-cb" , Bravais::A,  7, 208},
@@ -378,26 +378,26 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 63, "D2h^17", "-C 2c 2c"        , "C c m m"                        , "C 2/c 2/m 2_1/m"    , "Ccmm"      , "ba-c" , Bravais::C,  8, 299},
   { 63, "D2h^17", "-A 2a 2a"        , "A m m a"                        , "A 2_1/m 2/m 2/a"    , "Amma"      , "cab"  , Bravais::A,  8, 300},
   { 63, "D2h^17", "-A 2 2a"         , "A m a m"                        , "A 2_1/m 2/a 2/m"    , "Amam"      , "-cba" , Bravais::A,  8, 301},
-  { 63, "D2h^17", "-B 2 2b"         , "B b m m"                        , "B 2/b 2_1/m 2/m"    , "Bbmm"      , "bca"  , Bravais::P,  8, 302},
-  { 63, "D2h^17", "-B 2b 2"         , "B m m b"                        , "B 2/m 2_1/m 2/b"    , "Bmmb"      , "a-cb" , Bravais::P,  8, 303},
+  { 63, "D2h^17", "-B 2 2b"         , "B b m m"                        , "B 2/b 2_1/m 2/m"    , "Bbmm"      , "bca"  , Bravais::B,  8, 302},
+  { 63, "D2h^17", "-B 2b 2"         , "B m m b"                        , "B 2/m 2_1/m 2/b"    , "Bmmb"      , "a-cb" , Bravais::B,  8, 303},
   { 64, "D2h^18", "-C 2bc 2"        , "C m c e"                        , "C 2/m 2/c 2_1/e"    , "Cmce"      , ""     , Bravais::C,  8, 304},
   { 64, "D2h^18", "-C 2bc 2bc"      , "C c m e"                        , "C 2/c 2/m 2_1/e"    , "Ccme"      , "ba-c" , Bravais::C,  8, 305},
   { 64, "D2h^18", "-A 2ac 2ac"      , "A e m a"                        , "A 2_1/e 2/m 2/a"    , "Aema"      , "cab"  , Bravais::A,  8, 306},
   { 64, "D2h^18", "-A 2 2ac"        , "A e a m"                        , "A 2_1/e 2/a 2/m"    , "Aeam"      , "-cba" , Bravais::A,  8, 307},
-  { 64, "D2h^18", "-B 2 2bc"        , "B b e m"                        , "B 2/b 2_1/e 2/m"    , "Bbem"      , "bca"  , Bravais::P,  8, 308},
-  { 64, "D2h^18", "-B 2bc 2"        , "B m e b"                        , "B 2/m 2_1/e 2/b"    , "Bmeb"      , "a-cb" , Bravais::P,  8, 309},
+  { 64, "D2h^18", "-B 2 2bc"        , "B b e m"                        , "B 2/b 2_1/e 2/m"    , "Bbem"      , "bca"  , Bravais::B,  8, 308},
+  { 64, "D2h^18", "-B 2bc 2"        , "B m e b"                        , "B 2/m 2_1/e 2/b"    , "Bmeb"      , "a-cb" , Bravais::B,  8, 309},
   { 65, "D2h^19", "-C 2 2"          , "C m m m"                        , "C 2/m 2/m 2/m"      , "Cmmm"      , ""     , Bravais::C,  8, 310},
   { 65, "D2h^19", "-A 2 2"          , "A m m m"                        , "A 2/m 2/m 2/m"      , "Ammm"      , "cab"  , Bravais::A,  8, 311},
-  { 65, "D2h^19", "-B 2 2"          , "B m m m"                        , "B 2/m 2/m 2/m"      , "Bmmm"      , "bca"  , Bravais::P,  8, 312},
+  { 65, "D2h^19", "-B 2 2"          , "B m m m"                        , "B 2/m 2/m 2/m"      , "Bmmm"      , "bca"  , Bravais::B,  8, 312},
   { 66, "D2h^20", "-C 2 2c"         , "C c c m"                        , "C 2/c 2/c 2/m"      , "Cccm"      , ""     , Bravais::C,  8, 313},
   { 66, "D2h^20", "-A 2a 2"         , "A m a a"                        , "A 2/m 2/a 2/a"      , "Amaa"      , "cab"  , Bravais::A,  8, 314},
-  { 66, "D2h^20", "-B 2b 2b"        , "B b m b"                        , "B 2/b 2/m 2/b"      , "Bbmb"      , "bca"  , Bravais::P,  8, 315},
+  { 66, "D2h^20", "-B 2b 2b"        , "B b m b"                        , "B 2/b 2/m 2/b"      , "Bbmb"      , "bca"  , Bravais::B,  8, 315},
   { 67, "D2h^21", "-C 2b 2"         , "C m m e"                        , "C 2/m 2/m 2/e"      , "Cmme"      , ""     , Bravais::C,  8, 316},
   { 67, "D2h^21", "-C 2b 2b"        , "C m m e"                        , "C 2/m 2/m 2/e"      , "Cmme"      , "ba-c" , Bravais::C,  8, 317},
   { 67, "D2h^21", "-A 2c 2c"        , "A e m m"                        , "A 2/e 2/m 2/m"      , "Aemm"      , "cab"  , Bravais::A,  8, 318},
   { 67, "D2h^21", "-A 2 2c"         , "A e m m"                        , "A 2/e 2/m 2/m"      , "Aemm"      , "-cba" , Bravais::A,  8, 319},
-  { 67, "D2h^21", "-B 2 2c"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "bca"  , Bravais::P,  8, 320},
-  { 67, "D2h^21", "-B 2c 2"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "a-cb" , Bravais::P,  8, 321},
+  { 67, "D2h^21", "-B 2 2c"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "bca"  , Bravais::B,  8, 320},
+  { 67, "D2h^21", "-B 2c 2"         , "B m e m"                        , "B 2/m 2/e 2/m"      , "Bmem"      , "a-cb" , Bravais::B,  8, 321},
   { 68, "D2h^22", "C 2 2 -1bc"      , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "1"    , Bravais::C,  8, 322},
   { 68, "D2h^22", "-C 2b 2bc"       , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "2"    , Bravais::C,  8, 323},
   { 68, "D2h^22", "C 2 2 -1bc"      , "C c c e"                        , "C 2/c 2/c 2/e"      , "Ccce"      , "1ba-c", Bravais::C,  8, 324},
@@ -406,10 +406,10 @@ static const Spacegroup ALL_SPACEGROUPS[] = {
   { 68, "D2h^22", "-A 2a 2c"        , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "2cab" , Bravais::A,  8, 327},
   { 68, "D2h^22", "A 2 2 -1ac"      , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "1-cba", Bravais::A,  8, 328},
   { 68, "D2h^22", "-A 2ac 2c"       , "A e a a"                        , "A 2/e 2/a 2/a"      , "Aeaa"      , "2-cba", Bravais::A,  8, 329},
-  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1bca" , Bravais::P,  8, 330},
-  { 68, "D2h^22", "-B 2bc 2b"       , "B b c b"                        , "B 2/b 2/e 2/b"      , "Bbcb"      , "2bca" , Bravais::P,  8, 331},
-  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1a-cb", Bravais::P,  8, 332},
-  { 68, "D2h^22", "-B 2b 2bc"       , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "2a-cb", Bravais::P,  8, 333},
+  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1bca" , Bravais::B,  8, 330},
+  { 68, "D2h^22", "-B 2bc 2b"       , "B b c b"                        , "B 2/b 2/e 2/b"      , "Bbcb"      , "2bca" , Bravais::B,  8, 331},
+  { 68, "D2h^22", "B 2 2 -1bc"      , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "1a-cb", Bravais::B,  8, 332},
+  { 68, "D2h^22", "-B 2b 2bc"       , "B b e b"                        , "B 2/b 2/e 2/b"      , "Bbeb"      , "2a-cb", Bravais::B,  8, 333},
   { 69, "D2h^23", "-F 2 2"          , "F m m m"                        , "F 2/m 2/m 2/m"      , "Fmmm"      , ""     , Bravais::F,  8, 334},
   { 70, "D2h^24", "F 2 2 -1d"       , "F d d d"                        , "F 2/d 2/d 2/d"      , "Fddd"      , "1"    , Bravais::F,  8, 335},
   { 70, "D2h^24", "-F 2uv 2vw"      , "F d d d"                        , "F 2/d 2/d 2/d"      , "Fddd"      , "2"    , Bravais::F,  8, 336},
-- 
2.43.0


From c4023e79ec87a7a3310b6d75d0cf6502ec4102f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:35 +0000
Subject: [PATCH 038/104] fix: accumulate the powers of a rotation without
 overwriting it (C07)

---
 src/pointgroup.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pointgroup.cpp b/src/pointgroup.cpp
index 61173e1..1de01a1 100644
--- a/src/pointgroup.cpp
+++ b/src/pointgroup.cpp
@@ -573,9 +573,10 @@ static int get_orthogonal_axis(int ortho_axes[], const int *proper_rot, const in
 {
   int i, num_ortho_axis=0;
   int vec[3];
-  int sum_rot[9]={0,0,0, 0,0,0, 0,0,0}, rot[9]={1,0,0, 0,1,0, 0,0,1};
+  int sum_rot[9]={0,0,0, 0,0,0, 0,0,0}, rot[9]={1,0,0, 0,1,0, 0,0,1}, last[9];
   for (i = 0; i < rot_order; i++) {
-    brille::utils::multiply_matrix_matrix(rot, proper_rot, rot);
+    brille::utils::copy_matrix(last, rot);
+    brille::utils::multiply_matrix_matrix(rot, proper_rot, last);
     brille::utils::add_matrix(sum_rot, rot, sum_rot);
   }
   for (i = 0; i < NUM_ROT_AXES; i++) {
-- 
2.43.0


From 9b78ecadb771e871d25392844086b4dc4b9f2881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:44 +0000
Subject: [PATCH 039/104] fix: Snapping basis vectors to symmetry keeps their
 orientation (C08)

---
 src/lattice_dual.hpp | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/src/lattice_dual.hpp b/src/lattice_dual.hpp
index acceaf6..907747f 100644
--- a/src/lattice_dual.hpp
+++ b/src/lattice_dual.hpp
@@ -25,29 +25,21 @@ standard_orientation_matrix(const std::array<T, 9>& bv){
    *   Find the rotation matrix which takes us to the standard upper triangular
    *   form with flattened matrix {a, bx, cx, 0, by, cy, 0, 0, cz}
    * */
-	// Avoid (0, -1) -> pi in std::atan2:
-	auto arctan = [](T x, T y){return std::abs(x) ? std::atan2(x, y) : 0.;};
-  // tan(mu) = -ay / az
-  S mu = arctan(-bv[3], bv[6]);
-  auto [c_mu, s_mu] = math::cos_and_sin(mu);
-
-  // tan(nu) = -az / (ax * cos(mu))
-  S nu = arctan(-bv[6], bv[0] * c_mu);
-  auto [c_nu, s_nu] = math::cos_and_sin(nu);
-
-  // tan(xi) = (bx sin(nu) - by cos(nu) sin(mu) + bz cos(nu) cos(mu)) / (by cos(mu) + bz sin(mu))
-  S num = bv[1] * s_nu - bv[4] * c_nu * s_mu + bv[7] * c_nu * c_mu;
-  S den = bv[4] * c_mu + bv[7] * s_mu;
-  S xi = arctan(num, den);
-  auto [c_xi, s_xi] = math::cos_and_sin(xi);
-
-  // Rotation matrix, verified 'by hand' multiple times.
-  std::array<S,9> rotation_matrix{
-      {c_nu,                              s_nu * s_mu,                      -s_nu * c_mu,
-       s_xi * s_nu,  c_xi * c_mu - s_xi * c_nu * s_mu,  c_xi * s_mu + s_xi * c_nu * c_mu,
-       c_xi * s_nu, -s_xi * c_mu - c_xi * c_nu * s_mu, -s_xi * s_mu + c_xi * c_nu * c_mu}
-  };
-  return rotation_matrix;
+  using vec = std::array<S,3>;
+  auto column = [&](int i){ return vec{{S(bv[i]), S(bv[3+i]), S(bv[6+i])}}; };
+  auto dot = [](const vec& x, const vec& y){ return x[0]*y[0] + x[1]*y[1] + x[2]*y[2]; };
+  auto unit = [&](vec x){ S n = std::sqrt(dot(x, x)); for (auto & y: x) y /= n; return x; };
+  // The standard axes, expressed in the provided orientation: e1 is along a
+  auto e1 = unit(column(0));
+  // e2 is the direction of the part of b which is perpendicular to a
+  auto b = column(1);
+  auto along = dot(b, e1);
+  for (int i=0; i<3; ++i) b[i] -= along * e1[i];
+  auto e2 = unit(b);
+  // and e3 is normal to both, on the same side as c (even if a, b, c are left handed)
+  vec e3{{e1[1]*e2[2] - e1[2]*e2[1], e1[2]*e2[0] - e1[0]*e2[2], e1[0]*e2[1] - e1[1]*e2[0]}};
+  if (dot(e3, column(2)) < S(0)) for (auto & x: e3) x = -x;
+  return {e1[0], e1[1], e1[2], e2[0], e2[1], e2[2], e3[0], e3[1], e3[2]};
 }
 
 template<class T, class S=std::common_type_t<T, double>> S unit_parallelpiped_volume(const std::array<T,3>& cosines){
-- 
2.43.0


From 25a809a9594e9003daa8a77dd10d17a3c093114c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:44 +0000
Subject: [PATCH 040/104] fix: The volume of a lattice with left-handed basis
 vectors is positive (C08)

---
 src/lattice_dual.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lattice_dual.hpp b/src/lattice_dual.hpp
index 907747f..4be1a8f 100644
--- a/src/lattice_dual.hpp
+++ b/src/lattice_dual.hpp
@@ -613,9 +613,9 @@ public:
   [[nodiscard]] T volume(LengthUnit lu) const {
     switch (lu){
     case LengthUnit::angstrom:
-      return utils::matrix_determinant(_real_vectors.data());
+      return std::abs(utils::matrix_determinant(_real_vectors.data()));
     case LengthUnit::inverse_angstrom:
-      return utils::matrix_determinant(_reciprocal_vectors.data());
+      return std::abs(utils::matrix_determinant(_reciprocal_vectors.data()));
     default:
       throw std::logic_error("Not implemented length unit for volume");
     }
-- 
2.43.0


From da5296e672ff07114c0c9135a86f6b947c9de3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:58 +0000
Subject: [PATCH 041/104] fix: PrimitiveTransform::get_6P is six times the
 identity for a primitive centring (C09)

---
 src/primitive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/primitive.hpp b/src/primitive.hpp
index d87794a..546c62c 100644
--- a/src/primitive.hpp
+++ b/src/primitive.hpp
@@ -118,7 +118,7 @@ public:
     case Bravais::B: return { 3, 0,-3,  0, 6, 0,  3, 0, 3};
     case Bravais::C: return { 3, 3, 0, -3, 3, 0,  0, 0, 6};
     case Bravais::R: return { 4,-2,-2,  2, 2,-4,  2, 2, 2};
-    default: return {6,6,6, 6,6,6, 6,6,6};
+    default: return {6,0,0, 0,6,0, 0,0,6};
     }
   }
   /*! \brief Return the inverse of the transformation matrix P
-- 
2.43.0


From b34ff31fb6adc9d2b97b9ccfd0493f215496a809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:58 +0000
Subject: [PATCH 042/104] fix: Integer vectors are not truncated by primitive
 transformations (C09)

---
 src/transform.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/transform.hpp b/src/transform.hpp
index fc76602..d152e93 100644
--- a/src/transform.hpp
+++ b/src/transform.hpp
@@ -35,6 +35,15 @@ using sixPtype = PrimitiveTraits::sixP;
 //! The datatype of the inverse P PrimitiveTransform matrix
 using invPtype = PrimitiveTraits::invP;
 
+//! Complete a transformation by six times a matrix, refusing to truncate integer components
+template<class S> void divide_by_six(LVec<S>& out){
+  if constexpr (std::is_integral_v<S>) {
+    for (const auto & v: out.valItr()) if (v % S(6))
+      throw std::runtime_error("The transformed vectors can not be represented by integers");
+  }
+  out /= S(6);
+}
+
 /*! \brief transform_to_primitive(Reciprocal, LQVec)
 
   Takes a Reciprocal lattice, plus a reciprocal lattice
@@ -94,7 +103,7 @@ LVec<S> transform_to_primitive(const Lattice<double>& lat, const LVec<T>& a){
   for (auto x: a.subItr(sh))
     brille::utils::multiply_matrix_vector(out.ptr(x), transform.data(), a.ptr(x));
   if (LengthUnit::inverse_angstrom == lu){
-    out /= S(6); // correct for having used 6 * Pt
+    divide_by_six(out); // correct for having used 6 * Pt
   }
   return out;
 }
@@ -152,7 +161,7 @@ LVec<S> transform_from_primitive(const Lattice<double>& lat, const LVec<T>& a){
   for (auto x: a.subItr(sh))
     brille::utils::multiply_matrix_vector(out.ptr(x), transform.data(), a.ptr(x));
   if (LengthUnit::angstrom == lu){
-    out /= S(6); // since we used 6P instead of P
+    divide_by_six(out); // since we used 6P instead of P
   }
   return out;
 }
@@ -186,7 +195,7 @@ LVec<S> parallel_transform_to_primitive(const Lattice<double>& lat, const LVec<T
   }
 
   if (LengthUnit::inverse_angstrom == lu){
-    out /= S(6); // correct for having used 6 * Pt
+    divide_by_six(out); // correct for having used 6 * Pt
   }
   return out;
 }
@@ -226,7 +235,7 @@ LVec<S> parallel_transform_from_primitive(const Lattice<double>& lat, const LVec
   }
 
   if (LengthUnit::angstrom == lu){
-    out /= S(6); // since we used 6P instead of P
+    divide_by_six(out); // since we used 6P instead of P
   }
   return out;
 }
-- 
2.43.0


From 79741792a642c58a8fa98edad896175aa3ad1c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:57 +0000
Subject: [PATCH 043/104] fix: Arithmetic between vectors of different lattices
 is refused in every build (C10)

---
 src/array_functions.hpp | 6 ++++--
 src/array_lvec.hpp      | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/array_functions.hpp b/src/array_functions.hpp
index 93a32bb..ba2363c 100644
--- a/src/array_functions.hpp
+++ b/src/array_functions.hpp
@@ -57,7 +57,8 @@ ARRAY_ARRAY_OP(/)
 #define ARRAY_ARRAY_OP(X) template<class T, class R, template<class> class A, class S = std::common_type_t<T,R>>\
 std::enable_if_t<bothLatVecs<T,A,R,A>, A<S>>\
 operator X (const A<T>& a, const A<R>& b){\
-  assert(a.same_lattice(b));\
+  if (!a.same_lattice(b))\
+    throw std::runtime_error("Lattice Vector addition and subtraction require vectors in the same lattice");\
   auto itr = a.broadcastItr(b);\
   A<S> out(a.type(), a.lattice(), itr.shape());\
   for (auto [ox, ax, bx]: itr) out[ox] = a[ax] X b[bx];\
@@ -198,7 +199,8 @@ ARRAY_LATVEC_BINARY_OP(/)
   template<class T, class R, template<class> class L, class S=std::common_type_t<std::common_type_t<T, R>, double>>
   std::enable_if_t<bothLatVecs<T,L,R,L>, L<S>>
   cross(const L<T>& a, const L<R>& b) {
-    assert( a.same_lattice(b) );
+    if (!a.same_lattice(b))
+      throw std::runtime_error("the cross product of Lattice Vectors requires vectors in the same lattice");
     auto oarray = cross(a.hkl(), b.hkl());
     // setup the output array
     auto lat = a.lattice();
diff --git a/src/array_lvec.hpp b/src/array_lvec.hpp
index 263f347..50a2286 100644
--- a/src/array_lvec.hpp
+++ b/src/array_lvec.hpp
@@ -62,6 +62,8 @@ operator X (const T& v){\
 template<template<class> class A>\
 std::enable_if_t<isArray<T,A>, L <T>>&\
 operator X (const A<T>& b){\
+  if constexpr (isLatVec<T,A>) if (!same_lattice(b))\
+    throw std::runtime_error(std::string(#L) + " operation " + std::string(#X) + " requires vectors in the same lattice");\
   auto itr = this->broadcastItr(b.shape());\
   if (!equal_shapes(itr.shape(), this->shape())) { \
     std::string msg="Incompatible shaped " + std::string(#L) + " arrays ";  \
-- 
2.43.0


From 008fd990ebe39208c69cae031aa61e25a386172e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:57 +0000
Subject: [PATCH 044/104] fix: star() keeps the magnitude of the vectors
 expressed in the dual lattice (C10)

---
 src/array_functions.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/array_functions.hpp b/src/array_functions.hpp
index ba2363c..c087338 100644
--- a/src/array_functions.hpp
+++ b/src/array_functions.hpp
@@ -416,6 +416,7 @@ star(const L<T>& v){
   vsh.back() = 0;
   for (auto x: v.subItr(vsh)) // iterate over all but the last dimension
     brille::utils::multiply_matrix_vector(vstar.ptr(x), covariant_metric.data(), v.ptr(x));
+  vstar /= static_cast<S>(math::two_pi); // as for LVec::star
   return vstar;
 }
 
-- 
2.43.0


From 392df366f1f9cc3eec18708eef6ad50ad3d562a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:57 +0000
Subject: [PATCH 045/104] fix: Cross products of left-handed lattice vectors
 keep using the signed cell volume (C10)

---
 src/array_functions.hpp    | 2 +-
 src/array_lvec_methods.tpp | 2 +-
 src/lattice_dual.hpp       | 9 ++++++---
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/array_functions.hpp b/src/array_functions.hpp
index c087338..3c72e71 100644
--- a/src/array_functions.hpp
+++ b/src/array_functions.hpp
@@ -206,7 +206,7 @@ ARRAY_LATVEC_BINARY_OP(/)
     auto lat = a.lattice();
     auto lu = a.type() == LengthUnit::angstrom ? LengthUnit::inverse_angstrom : LengthUnit::angstrom;
     auto cross_star = L<S>(lu, lat, oarray);
-    cross_star *= static_cast<S>(lat.volume(a.type())/brille::math::two_pi);
+    cross_star *= static_cast<S>(lat.signed_volume(a.type())/brille::math::two_pi);
     return cross_star.star();
   }
 #else
diff --git a/src/array_lvec_methods.tpp b/src/array_lvec_methods.tpp
index 91ba0d8..fc820e3 100644
--- a/src/array_lvec_methods.tpp
+++ b/src/array_lvec_methods.tpp
@@ -75,7 +75,7 @@ namespace brille::lattice {
       auto lu = LengthUnit::angstrom == _type ? LengthUnit::inverse_angstrom : LengthUnit::angstrom;
       LVec<double> ldv(lu, _lattice, 1u);
       brille::utils::vector_cross<double, T, T, 3>(ldv.ptr(0), this->ptr(i), this->ptr(j));
-      ldv *= _lattice.volume(_type) / brille::math::two_pi;
+      ldv *= _lattice.signed_volume(_type) / brille::math::two_pi;
       out = ldv.star();
     }
     return out;
diff --git a/src/lattice_dual.hpp b/src/lattice_dual.hpp
index 4be1a8f..30dcc5c 100644
--- a/src/lattice_dual.hpp
+++ b/src/lattice_dual.hpp
@@ -610,16 +610,18 @@ public:
     // this could be more efficient by reusing vi, vj, vk; but maybe its ok.
     return {angle(lu, 0u, au), angle(lu, 1u, au), angle(lu, 2u, au)};
   }
-  [[nodiscard]] T volume(LengthUnit lu) const {
+  //! The triple product of the basis vectors, which is negative if they are left handed
+  [[nodiscard]] T signed_volume(LengthUnit lu) const {
     switch (lu){
     case LengthUnit::angstrom:
-      return std::abs(utils::matrix_determinant(_real_vectors.data()));
+      return utils::matrix_determinant(_real_vectors.data());
     case LengthUnit::inverse_angstrom:
-      return std::abs(utils::matrix_determinant(_reciprocal_vectors.data()));
+      return utils::matrix_determinant(_reciprocal_vectors.data());
     default:
       throw std::logic_error("Not implemented length unit for volume");
     }
   }
+  [[nodiscard]] T volume(LengthUnit lu) const { return std::abs(signed_volume(lu)); }
 
   template<class R>
   [[nodiscard]] bool is_same(const Impl<R>& o) const {
@@ -814,6 +816,7 @@ public:
   LATTICE_FORWARD_METHOD(vector_t, lengths)
   LATTICE_FORWARD_METHOD(vector_t, angles)
   LATTICE_FORWARD_METHOD(T, volume)
+  LATTICE_FORWARD_METHOD(T, signed_volume)
   template<class R> bool is_same(const Lattice<R>& l) const {
     if (ptr == l.pointer()) return true;
     return ptr->is_same(*l.pointer());
-- 
2.43.0


From c072f9cef6bc77fba09309fd200a180c50bfdb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:58 +0000
Subject: [PATCH 046/104] fix: Snapping a basis does not move atoms far enough
 to hide a missing or mistyped atom (C11)

---
 src/basis.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/basis.hpp b/src/basis.hpp
index ad12958..ddb9149 100644
--- a/src/basis.hpp
+++ b/src/basis.hpp
@@ -204,6 +204,12 @@ public:
     }
     if (all_ok(is_ok)) return true;
     // not all ok; figure out *which* need to be snapped
+    // Only a slightly wrong position can be made right: an image which is further than this
+    // (in fractions of a lattice vector) from its atom belongs to a different, possibly missing, atom
+    const element_t furthest{0.01};
+    auto is_near = [furthest](const point& d){
+      return std::all_of(d.begin(), d.end(), [furthest](const element_t& x){return std::abs(x) < furthest;});
+    };
     for (size_t k=0; k<positions_.size(); ++k){
       if (!is_ok[k]){
         // we know the k-th atom position is (slightly) wrong, find how much
@@ -213,7 +219,7 @@ public:
         for (const auto & op: ops){
           point K_pos = op.move_point(positions_[k]);
           auto c = closest_to(types_[k], K_pos, e_tol, n_tol); // (found_or_not, closest_atom_index, difference_vector)
-          if (std::get<ind_t>(c) == k){
+          if (std::get<ind_t>(c) == k && is_near(std::get<point>(c))){
             count++;
             for (size_t xi=0; xi<3; ++xi) delta[xi] += std::get<point>(c)[xi];
           }
-- 
2.43.0


From 08bb50df7fa847bd97a3c70428e2e11773bafc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:20 +0000
Subject: [PATCH 047/104] fix: Edges of a malformed polyhedron are not written
 past the end of their array (C12)

---
 src/polyhedron_faces.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/polyhedron_faces.cpp b/src/polyhedron_faces.cpp
index e194d10..cab1ee8 100644
--- a/src/polyhedron_faces.cpp
+++ b/src/polyhedron_faces.cpp
@@ -76,8 +76,10 @@ bool Faces::operator!=(const Faces& that) const {
       auto b = known[face[(i+1) % face.size()]];
       if (unseen[a * n_vert + b] && unseen[a + b * n_vert]) {
         unseen[a * n_vert + b] = unseen[a + b * n_vert] = false;
-        edges[{found, 0}] = face[i];
-        edges[{found, 1}] = face[(i+1) % face.size()];
+        if (found < edge_count) { // otherwise the faces are not those of a closed polyhedron
+          edges[{found, 0}] = face[i];
+          edges[{found, 1}] = face[(i+1) % face.size()];
+        }
         ++found;
       }
     }
-- 
2.43.0


From ad7a5371a23e34f739e8fea53428c30ef8348f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:20 +0000
Subject: [PATCH 048/104] fix: Polyhedra expressed in left-handed lattices can
 be cut (C01)

---
 src/polyhedron_faces.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index c5aacef..129a2aa 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -23,6 +23,16 @@ namespace brille::polyhedron{
   }
 
 
+  // the sign of a triple product of vector components relative to that of the vectors
+  template<class T, template<class> class A> std::enable_if_t<isBareArray<T,A>, T>
+  get_handedness(const A<T>&){
+    return T(1);
+  }
+  template<class T, template<class> class A> std::enable_if_t<isLatVec<T,A>, T>
+  get_handedness(const A<T>& x){
+    return x.lattice().signed_volume(x.type()) < 0 ? T(-1) : T(1);
+  }
+
   // The vertex indices pointing into an external vertex array for a Polyhedron
   class Faces {
   public:
@@ -388,8 +398,9 @@ namespace brille::polyhedron{
       auto z = get_hkl(c);
       auto w = get_hkl(v);
       // using orient3d, w is 0 if its on the plane and > 0 if it's 'beneath' it
+      const auto sign = get_handedness(a);
       auto is_negative = [&](const auto & i){
-        return orient3d(x.ptr(0), y.ptr(0), z.ptr(0), w.ptr(i)) < 0;
+        return sign * orient3d(x.ptr(0), y.ptr(0), z.ptr(0), w.ptr(i)) < 0;
       };
       // so all negative means no points are behind the plane and all
       // should be removed!
-- 
2.43.0


From 09d37eec381a7cf3d811073d2720b3a4f8396d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:54 +0000
Subject: [PATCH 049/104] fix: The first Brillouin zone of strongly non-reduced
 lattices is found (C01)

---
 src/bz.cpp | 39 +++++++++++++++++++++++++++++++++++++--
 src/bz.hpp | 18 +++++++++++++++++-
 2 files changed, 54 insertions(+), 3 deletions(-)

diff --git a/src/bz.cpp b/src/bz.cpp
index 9895b38..e1c6faa 100644
--- a/src/bz.cpp
+++ b/src/bz.cpp
@@ -194,10 +194,45 @@ void BrillouinZone::print() const {
   std::cout << msg << std::endl;
 }
 
-void BrillouinZone::voro_search(const int extent, const bool divide_primitive){
+// Find integer combinations of the basis vectors of a lattice with metric tensor g which
+// span the same lattice and which, with the negative of their sum, have pairwise
+// non-positive dot products [Selling's reduction]. All vectors which bound the Voronoi cell
+// of the lattice are then sums of some of them.
+static std::array<std::array<int,3>,3> selling_reduced(const std::array<double,9> & g){
+  std::array<std::array<int,3>,4> v {{{{1,0,0}}, {{0,1,0}}, {{0,0,1}}, {{-1,-1,-1}}}};
+  auto dot = [&](const std::array<int,3> & a, const std::array<int,3> & b){
+    double d{0};
+    for (int i=0; i<3; ++i) for (int j=0; j<3; ++j) d += a[i] * g[3*i+j] * b[j];
+    return d;
+  };
+  bool changed{true};
+  for (int step=0; changed && step < 1000; ++step){
+    changed = false;
+    for (int i=0; i<3 && !changed; ++i) for (int j=i+1; j<4 && !changed; ++j) {
+      if (dot(v[i], v[j]) > 1e-10 * std::sqrt(dot(v[i], v[i]) * dot(v[j], v[j]))) {
+        for (int k=0; k<4; ++k) if (k != i && k != j) for (int m=0; m<3; ++m) v[k][m] += v[i][m];
+        for (int m=0; m<3; ++m) v[i][m] *= -1;
+        changed = true;
+      }
+    }
+  }
+  return {{v[0], v[1], v[2]}};
+}
+
+void BrillouinZone::voro_search(const int extent, const bool divide_primitive, const bool reduce){
   profile_update("Start BrillouinZone::voro_search with ",extent," extent");
   using namespace brille;
-  LVec<int> primitive_tau(LengthUnit::inverse_angstrom, _inner, make_relative_neighbour_indices(extent));
+  auto neighbours = make_relative_neighbour_indices(extent);
+  if (reduce) {
+    auto basis = selling_reduced(_inner.metric(LengthUnit::inverse_angstrom));
+    for (ind_t i=0; i<neighbours.size(0); ++i) {
+      std::array<int,3> n{{neighbours.val(i,0), neighbours.val(i,1), neighbours.val(i,2)}};
+      for (ind_t j=0; j<3u; ++j) {
+        neighbours[{i,j}] = n[0] * basis[0][j] + n[1] * basis[1][j] + n[2] * basis[2][j];
+      }
+    }
+  }
+  LVec<int> primitive_tau(LengthUnit::inverse_angstrom, _inner, neighbours);
   std::vector<ind_t> perm(primitive_tau.size(0));
   std::iota(perm.begin(), perm.end(), 0u); // {0u, 1u, 2u, ..., ntau-1}
   std::sort(perm.begin(), perm.end(), [&](ind_t a, ind_t b){
diff --git a/src/bz.hpp b/src/bz.hpp
index 470f858..0462ed0 100644
--- a/src/bz.hpp
+++ b/src/bz.hpp
@@ -150,6 +150,22 @@ public:
     } while (!approx_float::scalar(new_volume, old_volume, float_tolerance,
                                    float_tolerance, approx_tolerance));
 
+    // The volume can stop changing before all lattice points which bound the
+    // first Brillouin zone were used if the lattice basis is far from reduced.
+    // Its volume is that of the unit cell once all of them were.
+    const auto cell_volume = _inner.volume(LengthUnit::inverse_angstrom);
+    if (new_volume > cell_volume &&
+        !approx_float::scalar(new_volume, cell_volume, float_tolerance,
+                              float_tolerance, approx_tolerance)) {
+      this->voro_search(1, divide_primitive, true);
+      new_volume = _first.volume();
+    }
+    if (new_volume > 0. && std::abs(new_volume - cell_volume) > 1e-3 * cell_volume) {
+      throw std::runtime_error(
+          "The first Brillouin zone does not have the volume of the unit cell. "
+          "Consider changing tolerances.");
+    }
+
     if (brille::approx_float::scalar(new_volume, 0., float_tolerance,
                                      float_tolerance, approx_tolerance)) {
       throw std::runtime_error(
@@ -617,7 +633,7 @@ public:
   software library [Voro++]([http://math.lbl.gov/voro++/), especially
   [voro::voronoicell_base](http://math.lbl.gov/voro++/doc/refman/classvoro_1_1voronoicell__base.html).
   */
-  void voro_search(int scale = 1, bool divide_primitive = false);
+  void voro_search(int scale = 1, bool divide_primitive = false, bool reduce = false);
   //! Return true if the lattice used to find the vertices is not the same as
   //! the one passed at construction, and is therefore primitive
   [[nodiscard]] bool isprimitive() const { return is_primitive; };
-- 
2.43.0


From 63678308ed4aef3d3bfbe6010edd2c74c54a94d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:08 +0000
Subject: [PATCH 050/104] fix: Points in the middle of an edge are not kept as
 corners of a face (C12)

---
 src/geometry.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 812a614..cd2006f 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -821,7 +821,9 @@ namespace brille {
       auto prev = points.view(sorted[i]) - points.view(sorted[j]);
       j = static_cast<ind_t>((sorted.size() + i + 1) % sorted.size());
       auto next = points.view(sorted[j]) - points.view(sorted[i]);
-      if (dot(normal, cross(prev, next)).all(cmp::gt, 0.)){ // FIXME add tolerance?
+      // points which are in the middle of an edge, to within rounding errors, are not corners of the face
+      const auto turn = dot(normal, cross(prev, next)).sum();
+      if (turn > 1e-10 * norm(prev).sum() * norm(next).sum()){
         // left turn; we keep this point
         ++i;
       } else{
-- 
2.43.0


From da3e1531d9d3f291f5652135c958db04889231eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:08 +0000
Subject: [PATCH 051/104] fix: Zone surfaces are not mistaken for wedge
 surfaces because of rounding (C03)

---
 src/bz.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/bz.cpp b/src/bz.cpp
index e1c6faa..32681dd 100644
--- a/src/bz.cpp
+++ b/src/bz.cpp
@@ -26,8 +26,7 @@ LVec<double> BrillouinZone::get_ir_polyhedron_wedge_normals() const {
   auto bz_p = this->get_points();
   for (ind_t i=0; i<bz_n.size(0); ++i){
     // check if the irBZ face point is on a first BZ zone face too
-    // FIXME Add tolerance here
-    auto not_bz = dot(bz_n.view(i), ir_p - bz_p.view(i)).is(brille::cmp::neq, 0.);
+    auto not_bz = dot(bz_n.view(i), ir_p - bz_p.view(i)).is(brille::cmp::neq, 0., float_tolerance, approx_tolerance);
     if (!not_bz.any())
       throw std::runtime_error("Why are all of the points on the first BZ surface?!");
     ir_n = ir_n.extract(not_bz);
@@ -42,8 +41,7 @@ LVec<double> BrillouinZone::get_ir_polyhedron_wedge_normals() const {
     std::vector<bool> no_inverse(ir_n.size(0), true), keep(ir_n.size(0), true);
     for (ind_t i=0; i<ir_n.size(0)-1; ++i) if (no_inverse[i])
     for (ind_t j=i+1; j<ir_n.size(0); ++j) if (no_inverse[j])
-    if ((ir_n.view(i)+ir_n.view(j)).all(brille::cmp::eq, 0.)) {
-      // FIXME Consider adding tolerance                             ^^^
+    if ((ir_n.view(i)+ir_n.view(j)).all(brille::cmp::eq, 0., float_tolerance, approx_tolerance)) {
       no_inverse[i] = no_inverse[j] = keep[j] = false;
       break;
     }
-- 
2.43.0


From a6f7c5b0906d9e916166aaa24c0fe18c47d753ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:22 +0000
Subject: [PATCH 052/104] fix: isinside_wedge is free of data races and
 tolerates rounding on the wedge surface (C03)

---
 src/bz.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/bz.hpp b/src/bz.hpp
index 0462ed0..c962bbe 100644
--- a/src/bz.hpp
+++ b/src/bz.hpp
@@ -683,7 +683,8 @@ public:
       msg += "used to define the BrillouinZone object";
       throw std::runtime_error(msg);
     }
-    std::vector<bool> out(p.size(0), true);
+    // (neighbouring elements of a std::vector<bool> can not be set by different threads)
+    std::vector<char> inside(p.size(0), 1);
     auto normals =
         isouter ? get_ir_wedge_normals() : get_primitive_ir_wedge_normals();
     if (normals.size(
@@ -707,12 +708,14 @@ public:
       // so when identifying whether a point is inside of the irreducible
       // Brillouin zone we must allow for the ≤0 case as well.
       cmp c = pos || no_ir_mirroring ? cmp::ge : cmp::le_ge;
-#pragma omp parallel for default(none) shared(out, normals, p, c)              \
+#pragma omp parallel for default(none) shared(inside, normals, p, c)           \
     schedule(dynamic)
       for (long long i = 0; i < p.size(0); ++i) // separately changed to ind_t
-        //TODO Add tolerance here?
-        out[i] = dot(normals, p.view(i)).all(c, 0.);
+        inside[i] = dot(normals, p.view(i)).all(c, 0., float_tolerance, approx_tolerance) ? 1 : 0;
     }
+    std::vector<bool> out;
+    out.reserve(inside.size());
+    for (const auto & x: inside) out.push_back(x != 0);
     return out;
   }
   /*! \brief Find q and τ such that Q=q+τ and τ is a reciprocal lattice vector
-- 
2.43.0


From d51301f91bb4c76afdced205342aaf43cdb2abcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:24 +0000
Subject: [PATCH 053/104] fix: The tolerance on the wedge surface follows the
 length of the wave vector (C03)

---
 src/bz.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bz.hpp b/src/bz.hpp
index c962bbe..1d985b2 100644
--- a/src/bz.hpp
+++ b/src/bz.hpp
@@ -711,7 +711,7 @@ public:
 #pragma omp parallel for default(none) shared(inside, normals, p, c)           \
     schedule(dynamic)
       for (long long i = 0; i < p.size(0); ++i) // separately changed to ind_t
-        inside[i] = dot(normals, p.view(i)).all(c, 0., float_tolerance, approx_tolerance) ? 1 : 0;
+        inside[i] = (dot(normals, p.view(i)) / (std::max)(1.0, static_cast<double>(p.norm(i)))).all(c, 0., float_tolerance, approx_tolerance) ? 1 : 0;
     }
     std::vector<bool> out;
     out.reserve(inside.size());
@@ -778,7 +778,10 @@ private:
     brille::cmp c =
         pos || no_ir_mirroring ? brille::cmp::ge : brille::cmp::le_ge;
     auto normals = get_ir_wedge_normals();
-    return normals.size(0) == 0 || dot(normals, p).all(c, T(0), float_tolerance, approx_tolerance);
+    if (normals.size(0) == 0) return true;
+    // the rounding error of the dot product is proportional to the vector length
+    const auto scale = (std::max)(1.0, static_cast<double>(p.norm(0)));
+    return (dot(normals, p) / scale).all(c, 0., float_tolerance, approx_tolerance);
   }
 
   void shrink_and_prune_outside(const size_t cnt, lattice::LVec<double> &vrt,
-- 
2.43.0


From f5905f86bc63adb580b0c2ed1368975709d92538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:39 +0000
Subject: [PATCH 054/104] fix: A wedge is found when the zone high-symmetry
 points can not provide one (C03)

---
 src/bz.hpp       | 12 +++++++++++-
 src/bz_wedge.cpp | 25 +++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/src/bz.hpp b/src/bz.hpp
index 1d985b2..20bfdf0 100644
--- a/src/bz.hpp
+++ b/src/bz.hpp
@@ -194,7 +194,9 @@ public:
             // do not handle 2-folds or mirrors first; start with highest-order (non-inverting) operation
             || this->wedge_brute_force(false, false, false)
             // also do not sort list of equivalent remaining points when identifying the order>2 wedges
-            || this->wedge_brute_force(false, false, false, false);
+            || this->wedge_brute_force(false, false, false, false)
+            // the high-symmetry points can not be used, start from a general one
+            || this->wedge_general_point();
         // other combinations of special_2_folds, special_mirrors,
         // and sort_by_length are possible but not necessarily useful.
       }
@@ -597,6 +599,14 @@ public:
                          bool special_mirrors = true,
                          bool sort_by_length = true, bool sort_one_sym = true);
   bool wedge_triclinic();
+  /*! \brief Find an irreducible section of reciprocal space from a general point
+
+  All points at least as close to a general point as to any of its images under
+  the pointgroup operations form a wedge which holds exactly one of every set of
+  equivalent directions. It has no preference for high-symmetry surfaces, so it
+  is only used if the first Brillouin zone high-symmetry points fail.
+  */
+  bool wedge_general_point();
   //  /*!
   //  With the first Brillouin zone and *an* irreducible section of reciprocal
   //  space already identified, this method finds all intersections of
diff --git a/src/bz_wedge.cpp b/src/bz_wedge.cpp
index 00485f7..558ecf8 100644
--- a/src/bz_wedge.cpp
+++ b/src/bz_wedge.cpp
@@ -454,6 +454,31 @@ bool BrillouinZone::wedge_brute_force(const bool special_2_folds, const bool spe
 }
 
 
+bool BrillouinZone::wedge_general_point(){
+  auto ps = _outer.pointgroup_symmetry();
+  if (time_reversal) ps = ps.add_space_inversion();
+  const std::vector<std::array<double,3>> general{{{0.29, 0.17, 0.11}}, {{0.13, -0.07, 0.31}}, {{-0.19, 0.23, 0.37}}};
+  for (const auto & point: general) {
+    std::vector<std::array<double,3>> difference;
+    for (size_t i=0; i<ps.size(); ++i) if (ps.order(i) > 1 || ps.isometry(i) < 0) {
+      std::array<double,3> image;
+      brille::utils::multiply_matrix_vector(image.data(), transpose(ps.get(i)).data(), point.data());
+      for (size_t j=0; j<3u; ++j) image[j] = point[j] - image[j];
+      difference.push_back(image);
+    }
+    auto normals = LQVec<double>(_outer, bArray<double>::from_std(difference));
+    normals /= norm(normals);
+    auto [a, b, c] = plane_points_from_normal(-1.0 * normals, 0.0 * normals);
+    _irreducible = _first.cut(a, b, c, float_tolerance, approx_tolerance);
+    if (this->check_ir_polyhedron()) {
+      this->set_ir_wedge_normals(this->get_ir_polyhedron_wedge_normals());
+      return true;
+    }
+  }
+  return false;
+}
+
+
 bool BrillouinZone::wedge_triclinic(){
   /* Assuming that this is spacegroup P -1 we have inversion symmetry only.
      We always want to find a set of planes that divides symmetry equivalent
-- 
2.43.0


From edf719d2074bdce897741f0a8a5fc6e0d201938e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:55 +0000
Subject: [PATCH 055/104] fix: Faces of a convex hull are not lost because of
 rounding (C12)

---
 src/geometry.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index cd2006f..dafddfc 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -658,19 +658,38 @@ namespace brille {
     auto ibc = static_cast<ind_t>(bc);
     A<T> n(ibc, 3u), a(ibc, 3u), b(ibc, 3u), c(ibc, 3u);
     ind_t count{0}, no{points.size(0)};
+    // Rounding must not move a point that is on a plane to its wrong side: any
+    // closer to the plane than a fraction of the extent of the points is on it
+    T extent{0};
+    for (ind_t i=1; i < no; ++i) extent = (std::max)(extent, norm(points.view(i) - points.view(0)).sum());
+    const T on_plane = (std::max)(Ttol, T(1e-11)) * extent;
+    std::vector<std::vector<ind_t>> members;
     for (ind_t i=0; i < no-2; ++i) for (ind_t j=i+1; j < no-1; ++j) for (ind_t k=j+1; k<no; ++k) {
       if (pseudo_colinear(points.view(i), points.view(j), points.view(k), Ttol, tol)[0]) {
         continue;
       }
+      // all planes through these three points which were found already are this one
+      auto has_ijk = [i,j,k](const std::vector<ind_t> & m){
+        auto has = [&m](const ind_t x){return std::find(m.begin(), m.end(), x) != m.end();};
+        return has(i) && has(j) && has(k);
+      };
+      if (std::any_of(members.begin(), members.end(), has_ijk)) continue;
+      const auto area = norm(cross(points.view(j) - points.view(i), points.view(k) - points.view(i))).sum();
+      std::vector<ind_t> on{i, j, k};
       bool positive{true}, negative{true};
       for (ind_t r=0; (positive || negative) && r < no; ++r){
         if (r == i || r == j || r == k) continue;
         auto d = pseudo_orient3d(points.view(i), points.view(j), points.view(k), points.view(r))[0];
 //        auto d = orient3d(points.ptr(i), points.ptr(j), points.ptr(k), points.ptr(r));
-        positive &= d >= 0;
-        negative &= d <= 0;
+        if (std::abs(d) <= on_plane * area) {
+          on.push_back(r);
+          continue;
+        }
+        positive &= d > 0;
+        negative &= d < 0;
       }
       if (positive ^ negative) {
+        members.push_back(on);
         // (T,T) -> co-linear (i,j,k) => all points are co-planar
         // (F,F) -> plane (i,j,k) does not divide space into point-full and point-less
         a.set(count, points.view(positive ? i : j));
-- 
2.43.0


From db2b01a3cb92aafd632c983392c25da0c2867cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:07 +0000
Subject: [PATCH 056/104] fix: Face normals use the whole face rather than its
 first three corners (C12)

---
 src/geometry.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index dafddfc..3cff9d1 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -260,7 +260,12 @@ namespace brille {
   template<class T, template<class> class A, class I>
   inline std::enable_if_t<isArray<T,A>, A<T>>
   three_point_normal(const A<T> &p, const std::vector<I> &f) {
-    return three_point_normal(p.view(f[0]), p.view(f[1]), p.view(f[2]));
+    // use the area of the whole polygon: the first three points alone can be
+    // too close to one another to give the direction of a face precisely
+    auto n = cross(p.view(f[1]) - p.view(f[0]), p.view(f[2]) - p.view(f[1]));
+    for (size_t i=2; i + 1 < f.size(); ++i)
+      n += cross(p.view(f[i]) - p.view(f[0]), p.view(f[i+1]) - p.view(f[0]));
+    return n / norm(n);
   }
 
   template<class T, class I, template<class> class A, template<class> class B>
-- 
2.43.0


From 27c280520c2905c618d424515abba26ed757adef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:17 +0000
Subject: [PATCH 057/104] fix: Faces too small to have distinguishable corners
 do not stop a cut (C13)

---
 src/geometry.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 3cff9d1..c62da72 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -784,6 +784,8 @@ namespace brille {
     } else {
       std::copy(face.begin(), face.end(), std::back_inserter(pruned));
     }
+    // a face which is too small to tell its corners apart can not be sorted
+    if (pruned.size() < 3) return pruned;
     // this is why we removed the bad point(s)
     vectors -= centre;
     vectors /= norm(vectors);
-- 
2.43.0


From 5b1529e68a38aea9bfcacf39c9199c0f45f200f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:39 +0000
Subject: [PATCH 058/104] fix: Membership of a polyhedron is decided in an
 orthonormal frame with a relative tolerance (C12)

---
 src/geometry.hpp         | 32 ++++++++++++++++++++++----------
 src/polyhedron_faces.hpp | 15 +++++++++++++++
 2 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index c62da72..0d19137 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -116,7 +116,7 @@ namespace brille {
      *       their multiplicities must match.
      */
     template<class T, template<class> class A>
-    std::enable_if_t<isArray<T,A>, std::vector<T>>
+    std::enable_if_t<isBareArray<T,A>, std::vector<T>>
     pseudo_orient3d(const A<T>& a, const A<T>& b, const A<T>& c, const A<T>& d){
       assert(a.ndim() == 2u && b.ndim() == 2u && c.ndim() == 2u && d.ndim() == 2u);
       assert(a.size(1u) == 3u && b.size(1u) == 3u && c.size(1u) == 3u && d.size(1u) == 3u);
@@ -136,12 +136,14 @@ namespace brille {
       }
       return out;
     }
-//    template<class T, template<class> class A>
-//    std::enable_if_t<isLatVec<T,A>, std::vector<T>>
-//    pseudo_orient3d(const A<T>& a, const A<T>& b, const A<T>& c, const A<T>& d){
-//      assert(a.same_lattice(b) && a.same_lattice(c) && d.same_lattice(d));
-//      return pseudo_orient3d(a.xyz(), b.xyz(), c.xyz(), d.xyz());
-//    }
+    // the products of lattice components with the metric lose most of their
+    // precision if the lattice basis is far from orthogonal, so use xyz
+    template<class T, template<class> class A>
+    std::enable_if_t<isLatVec<T,A>, std::vector<T>>
+    pseudo_orient3d(const A<T>& a, const A<T>& b, const A<T>& c, const A<T>& d){
+      assert(a.same_lattice(b) && a.same_lattice(c) && a.same_lattice(d));
+      return pseudo_orient3d(a.xyz(), b.xyz(), c.xyz(), d.xyz());
+    }
 
   template<class T, template<class> class A>
   std::enable_if_t<isArray<T,A>, std::vector<bool>>
@@ -415,11 +417,21 @@ namespace brille {
   }
 
   template<class T, template<class> class A>
-  std::enable_if_t<isArray<T,A>, bool>
+  std::enable_if_t<isBareArray<T,A>, bool>
   point_inside_all_planes(const A<T>& a, const A<T>& b, const A<T>& c, const A<T>& x, const T tol=T(0), const int no=1){
       auto o3d = pseudo_orient3d(a, b, c, x);
-      auto v = std::min_element(o3d.begin(), o3d.end());
-      return *v > 0 || approx_float::scalar(*v, T(0), tol, tol, no);
+      for (ind_t i=0; i < static_cast<ind_t>(o3d.size()); ++i) if (!(o3d[i] > 0)) {
+        // the rounding error depends on the lengths which were multiplied
+        const auto ab = b.view(i) - a.view(i), ac = c.view(i) - a.view(i), ax = x - a.view(i);
+        const auto scale = norm(cross(ab, ac)).sum() * (std::max)(norm(ax).sum(), (std::max)(norm(ab).sum(), norm(ac).sum()));
+        if (!(scale > T(0)) || !approx_float::scalar(o3d[i] / scale, T(0), tol, tol, no)) return false;
+      }
+      return true;
+  }
+  template<class T, template<class> class A>
+  std::enable_if_t<isLatVec<T,A>, bool>
+  point_inside_all_planes(const A<T>& a, const A<T>& b, const A<T>& c, const A<T>& x, const T tol=T(0), const int no=1){
+    return point_inside_all_planes(a.xyz(), b.xyz(), c.xyz(), x.xyz(), tol, no);
   }
 
   template<class T, class R, template<class> class A, template<class> class B>
diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index 129a2aa..e24fc7f 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -164,6 +164,21 @@ namespace brille::polyhedron{
     std::enable_if_t<isArray<T,A>, std::tuple<A<T>, A<T>, A<T>>>
     planes(const A<T>& x) const{
       auto p = this->planes();
+      // three corners which are close to each other or nearly on one line do
+      // not give a precise plane, so use the three with the largest area
+      const auto points = get_xyz(x);
+      for (ind_t i=0; i<p.size(0); ++i){
+        const auto & f = _faces[i];
+        double largest{0};
+        for (size_t j=1; j + 1 < f.size(); ++j) for (size_t k=j+1; k < f.size(); ++k) {
+          const auto area = norm(cross(points.view(f[j]) - points.view(f[0]), points.view(f[k]) - points.view(f[0]))).sum();
+          if (area > largest * (1 + 1e-6)) {
+            largest = area;
+            p[{i, 1}] = f[j];
+            p[{i, 2}] = f[k];
+          }
+        }
+      }
       auto a = 0 * x.view(0); a.resize(p.size(0));
       auto b = 0 * x.view(0); b.resize(p.size(0));
       auto c = 0 * x.view(0); c.resize(p.size(0));
-- 
2.43.0


From f6e049acdab83de0d5b4aaea3337ade7960592d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:39 +0000
Subject: [PATCH 059/104] fix: The intersections of edges and planes are found
 in an orthonormal frame (C13)

---
 src/geometry.hpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 0d19137..b0998ce 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -190,18 +190,18 @@ namespace brille {
     A<T> a(n.shape(), T(1)), b;
     auto n_norm = norm(n); // this *should* be all 1, but maybe it's not
     auto nn = n / n_norm;
-    auto a_dot_n = dot(a, nn) * nn;
-    auto is_n = a_dot_n.row_is(brille::cmp::eq, a); // FIXME add tolerances
-    if (is_n.any()) {
-      for (ind_t i = 0; i < a.size(0); ++i)
-        if (is_n.val(i)) {
-          // set to (2, 0, 1) so that subtracting (1, 1, 1) gives (1, -1, 0)
-          a[{i, 0}] = T(2);
-          a[{i, 1}] = T(0);
-          for (ind_t j = 2; j < a.size(1); ++j) a[{i, j}] = T(1);
-        }
+    // use (2, 0, 1) for normals along or close to (1, 1, 1) since the part of
+    // (1, 1, 1) which is perpendicular to them is lost to rounding
+    for (ind_t i = 0; i < a.size(0); ++i) {
+      auto along = dot(a.view(i), nn.view(i)).sum();
+      if (along * along > T(0.999) * static_cast<T>(a.size(1))) {
+        // so that subtracting (1, 1, 1) gives (1, -1, 0)
+        a[{i, 0}] = T(2);
+        a[{i, 1}] = T(0);
+        for (ind_t j = 2; j < a.size(1); ++j) a[{i, j}] = T(1);
+      }
     }
-    a -= a_dot_n;
+    a -= dot(a, nn) * nn;
     a /= norm(a);
     b = cross(nn, a);  // so that the points (p, a, b) define a plane with normal n
     // the returned a, b, c should have the property (x - p) . n == 0
@@ -625,7 +625,7 @@ namespace brille {
    * defined by (a, b, c).
    * */
   template<class T, template<class> class A, class I>
-  std::enable_if_t<isArray<T,A>, std::vector<std::tuple<size_t, size_t, std::pair<I,I>, A<T>>>>
+  std::enable_if_t<isBareArray<T,A>, std::vector<std::tuple<size_t, size_t, std::pair<I,I>, A<T>>>>
   valid_edge_plane_intersections(const A<T>& a, const A<T>& b, const A<T>& c, const A<T>& v, const std::vector<std::tuple<size_t, size_t, std::pair<I,I>>>& edges){
     auto plane_n = three_point_normal(a, b, c);
     std::vector<std::tuple<size_t, size_t, std::pair<I,I>, A<T>>> out;
@@ -663,6 +663,15 @@ namespace brille {
     }
     return out;
   }
+  // find the intersections in an orthonormal frame for the sake of their precision
+  template<class T, template<class> class A, class I>
+  std::enable_if_t<isLatVec<T,A>, std::vector<std::tuple<size_t, size_t, std::pair<I,I>, A<T>>>>
+  valid_edge_plane_intersections(const A<T>& a, const A<T>& b, const A<T>& c, const A<T>& v, const std::vector<std::tuple<size_t, size_t, std::pair<I,I>>>& edges){
+    std::vector<std::tuple<size_t, size_t, std::pair<I,I>, A<T>>> out;
+    for (const auto & [first, second, edge, at]: valid_edge_plane_intersections(a.xyz(), b.xyz(), c.xyz(), v.xyz(), edges))
+      out.emplace_back(first, second, edge, from_xyz_like(v, at));
+    return out;
+  }
 
   template<class T, template<class> class A>
   std::enable_if_t<isBareArray<T, A>, std::tuple<Array2<T>, Array2<T>, Array2<T>>>
-- 
2.43.0


From 8f6d8099d63869581ab2c265fb1e2297472fae4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:26 +0000
Subject: [PATCH 060/104] fix: Edges which meet next to the cutting plane can
 share their intersection (C13)

---
 src/polyhedron_faces.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index e24fc7f..2d0267b 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -455,6 +455,11 @@ namespace brille::polyhedron{
       auto v = T(1) * vin; // make a copy,  I hope
       auto f = this->faces(); // ditto
       auto pre_v_count = v.size(0);
+      using edge_t = std::pair<ind_t, ind_t>;
+      std::vector<edge_t> new_edges; // cut to make the new vertices
+      const auto meet = [](const edge_t & x, const edge_t & y) {
+        return x.first == y.first || x.first == y.second || x.second == y.first || x.second == y.second;
+      };
       for (auto [first, second, edge, at]: intersections){
         auto index = v.first(cmp::eq, at, Rtol, Rtol, tol); // == v.size(0) if not found)
         if (index < keep.size()) {
@@ -462,7 +467,9 @@ namespace brille::polyhedron{
           // ensure existing vertices which are 'cut' because they're on the plane are retained
           keep[index] = true;
         }
-        if (pre_v_count <= index && index < v.size(0)) {
+        // the plane can pass so close to a vertex that rounding does not let
+        // its intersections with the edges which meet there be told apart
+        if (pre_v_count <= index && index < v.size(0) && !meet(edge, new_edges[index - pre_v_count])) {
           // this should be impossible, since two edges which intersect a plane at the same point *must*
           // intersect it at *their* intersection point, which was a pre-existing vertex
           std::string msg =  "Duplicate intersection point for edge ";
@@ -485,6 +492,7 @@ namespace brille::polyhedron{
         if (index == v.size(0)) {
 //          debug_update("Edge ", my_to_string(edge), " intersection ", at.to_string(0), " which is a new vertex at ", index);
           v.append(0, at);
+          new_edges.push_back(edge);
           ++vertex_count;
         }
         utils::add_between_if_missing(f[first], edge.first, edge.second, index);
-- 
2.43.0


From 087ef082e4fc0d0cb344de074568cd2d6bf019ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:26 +0000
Subject: [PATCH 061/104] fix: The search for the first Brillouin zone starts
 from a box which contains it (C01)

---
 src/bz.cpp | 7 ++++++-
 src/bz.hpp | 4 ++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/bz.cpp b/src/bz.cpp
index 32681dd..06d23fd 100644
--- a/src/bz.cpp
+++ b/src/bz.cpp
@@ -251,7 +251,12 @@ void BrillouinZone::voro_search(const int extent, const bool divide_primitive, c
   auto [plane_a, plane_b, plane_c] = plane_points_from_normal(tau / norm(tau), tau / 2.0);
   // and then use the reciprocal lattice points to subdivide the cell until
   // only the first Brillouin zone is left:
-  auto box = polyhedron::bounding_box(1.0 * tau);
+  // no point of the first Brillouin zone is further from the origin than half
+  // the length of the longest diagonal of any unit cell, but it can be further
+  // along an axis than any of the lattice points is
+  const auto reach = 0.6 * norm(tau).max(0).sum() / extent;
+  const std::vector<std::array<double,3>> corners{{{-reach, -reach, -reach}}, {{reach, reach, reach}}};
+  auto box = polyhedron::bounding_box(from_xyz_like(1.0 * tau, bArray<double>::from_std(corners)));
 //  verbose_update("bounding box\n", box.python_string());
 //  throw std::runtime_error("time to halt is now!");
   _first = box.cut(plane_a, plane_b, plane_c, float_tolerance, approx_tolerance);
diff --git a/src/bz.hpp b/src/bz.hpp
index 20bfdf0..38ccfb0 100644
--- a/src/bz.hpp
+++ b/src/bz.hpp
@@ -154,8 +154,8 @@ public:
     // first Brillouin zone were used if the lattice basis is far from reduced.
     // Its volume is that of the unit cell once all of them were.
     const auto cell_volume = _inner.volume(LengthUnit::inverse_angstrom);
-    if (new_volume > cell_volume &&
-        !approx_float::scalar(new_volume, cell_volume, float_tolerance,
+    // If it is smaller then rounding errors removed too much of it.
+    if (!approx_float::scalar(new_volume, cell_volume, float_tolerance,
                               float_tolerance, approx_tolerance)) {
       this->voro_search(1, divide_primitive, true);
       new_volume = _first.volume();
-- 
2.43.0


From 4d631984b801944efbfd3f1150744dc1aeb2364d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:33 +0000
Subject: [PATCH 062/104] fix: moveinto works for the conventional zone of a
 centred lattice (C02)

---
 src/bz_move.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/bz_move.cpp b/src/bz_move.cpp
index efe713c..4439989 100644
--- a/src/bz_move.cpp
+++ b/src/bz_move.cpp
@@ -108,7 +108,9 @@ bool BrillouinZone::moveinto(const LVec<double>& Q, LVec<double>& q, LVec<int>&
   LVec<double> qprim(q.type(), _inner);
   LVec<int> tauprim(tau.type(), _inner);
   PrimitiveTransform PT(_outer.bravais());
-  bool transform_needed = PT.does_anything() && _outer.is_same(Q.lattice());
+  // a conventional-lattice zone needs no transformation, even for centred lattices
+  const bool primitive_zone = this->isprimitive();
+  bool transform_needed = primitive_zone && PT.does_anything() && _outer.is_same(Q.lattice());
   if (!(already_same || transform_needed)){
     std::string msg = "Q points provided to BrillouinZone::moveinto must be ";
     msg += "in the standard or primitive lattice used to define ";
@@ -121,9 +123,9 @@ bool BrillouinZone::moveinto(const LVec<double>& Q, LVec<double>& q, LVec<int>&
 //  auto & tausl = transform_needed? tauprim : tau;
 
   auto [a, b, c] = _first.planes();
-  auto pa = parallel_transform_to_primitive(_outer, a, threads);
-  auto pb = parallel_transform_to_primitive(_outer, b, threads);
-  auto pc = parallel_transform_to_primitive(_outer, c, threads);
+  auto pa = primitive_zone ? parallel_transform_to_primitive(_outer, a, threads) : a;
+  auto pb = primitive_zone ? parallel_transform_to_primitive(_outer, b, threads) : b;
+  auto pc = primitive_zone ? parallel_transform_to_primitive(_outer, c, threads) : c;
 
 //  // more than one thread == slow??
 //  this->_moveinto_prim(Qsl, qsl, tausl, pa, pb, pc, threads);
-- 
2.43.0


From de2017318a78f1a5323e54105f0f6488c3f50655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:33 +0000
Subject: [PATCH 063/104] fix: moveinto converges for every lattice basis and
 on the zone surface (C02)

---
 src/bz_move.cpp | 52 ++++++++++++++++++++++++++++---------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/src/bz_move.cpp b/src/bz_move.cpp
index 4439989..af27ec6 100644
--- a/src/bz_move.cpp
+++ b/src/bz_move.cpp
@@ -13,38 +13,47 @@ using namespace brille::lattice;
  * */
 std::pair<LVec<double>, LVec<int>>
 part_moveinto_prim(const LVec<double> & Q, const LVec<double> & normals,
-                   const LVec<int> & taus, const Array2<double> & tau_lens,
+                   const LVec<int> & taus,
                    double ftol, int atol, const LVec<double> & pa,
                    const LVec<double> & pb, const LVec<double> & pc) {
   LVec<double> q(Q.type(), Q.lattice(), Q.size(0));
   LVec<int> tau(Q.type(), Q.lattice(), Q.size(0));
-  auto max_count = taus.size(0);
+  // every shift shortens q but many can be needed for a far from reduced lattice
+  // basis since the first is to the nearest integer multiples of its vectors
+  auto max_count = 1000 * taus.size(0);
+  // the components of the dot product with a lattice basis that is far from
+  // orthogonal can cancel, so decide which shift to make in an orthonormal frame
+  const auto xyz_normals = normals.xyz();
+  const auto xyz_lens = norm(taus.xyz());
   for (ind_t i=0; i<Q.size(0); ++i){
     auto Q_i = Q.view(i); // avoid fetching from the shared array multiple times
     auto tau_i = Q_i.round();
     auto q_i = Q_i - tau_i;
     auto last_shift = tau_i;
     auto count = 0 * max_count;
+    int on_surface{0};
     while (count++ < max_count && !point_inside_all_planes(pa, pb, pc, q_i, ftol, atol)){
-      auto qi_dot_normals = dot(q_i, normals);
-      auto N_hkl = (qi_dot_normals / tau_lens).round().to_std();
-      if (std::any_of(N_hkl.begin(), N_hkl.end(), [](int a){return a > 0.;})) {
-        int max_nm{0};
-        ind_t max_at{0};
-        for (ind_t j=0; j<N_hkl.size(); ++j) {
-          // protect against oscillating by ±τ
-          if (N_hkl[j] > 0 && N_hkl[j] >= max_nm &&
-              (0 == max_nm ||
-               (norm(taus.view(j) + last_shift).all(brille::cmp::gt, 0.) &&
-                qi_dot_normals[j] > qi_dot_normals[max_at]))
-          ) {
-            max_nm = N_hkl[max_at = j];
-          }
-        }
-        q_i -= taus.view(max_at) * static_cast<double>(max_nm); // ensure we subtract LVec<double>
-        tau_i += taus.view(max_at) * max_nm; // but add LVec<int>
-        last_shift = taus.view(max_at) * max_nm;
+      auto in_tau = dot(xyz_normals, q_i.xyz()) / xyz_lens;
+      std::vector<ind_t> by_size(in_tau.size(0));
+      std::iota(by_size.begin(), by_size.end(), 0u);
+      std::stable_sort(by_size.begin(), by_size.end(), [&](ind_t j, ind_t k){return in_tau[j] > in_tau[k];});
+      auto max_at = by_size[0];
+      int times{1};
+      if (in_tau[max_at] > 0.5 + 1e-9) {
+        // any shift which q is past the middle of makes it shorter
+        times = (std::max)(1, static_cast<int>(std::lround(in_tau[max_at])));
+      } else {
+        // only rounding can put q outside of the zone if it is not past the
+        // middle of any shift; then its image on the opposite face is as good
+        // (it can be on more than one face if it is on an edge or a corner)
+        if (on_surface++ > 5) break;
+        // do not go straight back if there is another choice
+        if (by_size.size() > 1u && in_tau[by_size[1]] > 0.5 - 1e-9 &&
+            norm(taus.view(max_at) + last_shift).all(brille::cmp::eq, 0.)) max_at = by_size[1];
       }
+      q_i -= taus.view(max_at) * static_cast<double>(times); // ensure we subtract LVec<double>
+      tau_i += taus.view(max_at) * times; // but add LVec<int>
+      last_shift = taus.view(max_at) * times;
     }
     q.set(i, q_i);
     tau.set(i, tau_i);
@@ -139,8 +148,7 @@ bool BrillouinZone::moveinto(const LVec<double>& Q, LVec<double>& q, LVec<int>&
   auto normals = this->get_primitive_normals();
   normals = normals/norm(normals); // ensure they're normalised
   auto taus = (2.0*this->get_primitive_points()).round(); // the points *must* be the face center vectors!
-  auto tau_lens = norm(taus);
-  auto q_tau = part_moveinto_prim(Qsl, normals, taus, tau_lens, float_tolerance, approx_tolerance, pa, pb, pc);
+  auto q_tau = part_moveinto_prim(Qsl, normals, taus, float_tolerance, approx_tolerance, pa, pb, pc);
   if (transform_needed){ // then we need to transform back q and tau
     q   = parallel_transform_from_primitive(_outer, q_tau.first, threads);
     tau = parallel_transform_from_primitive(_outer, q_tau.second, threads);
-- 
2.43.0


From 5bba6b76e00638dc615649a9999da7fc60f3850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:58 +0000
Subject: [PATCH 064/104] fix: The hull planes which contain a point are found
 whatever the scale of the points (C12)

---
 src/geometry.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index b0998ce..1e8f724 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -773,13 +773,20 @@ namespace brille {
   find_planes_containing_point(const A<T>& a, const A<T>& b, const A<T>& c, const A<T>& points, const T Ttol=T(0), const int tol=1){
     std::vector<std::vector<ind_t>> result;
     result.reserve(points.size(0));
+    // the same distance to a plane which find_convex_hull_planes allows
+    T extent{0};
+    for (ind_t i=1; i < points.size(0); ++i) extent = (std::max)(extent, norm(points.view(i) - points.view(0)).sum());
+    const T on_plane = (std::max)(Ttol, T(1e-11)) * extent;
+    std::vector<T> area;
+    area.reserve(a.size(0));
+    for (ind_t j=0; j < a.size(0); ++j) area.push_back(norm(cross(b.view(j) - a.view(j), c.view(j) - a.view(j))).sum());
     for (ind_t i=0; i < points.size(0); ++i){
       const auto d{points.view(i)};
       std::vector<ind_t> plane;
       plane.reserve(a.size(0));
       auto vol = pseudo_orient3d(a, b, c, d);
       for (ind_t j=0; j < vol.size(); ++j) {
-        if (approx_float::scalar(vol[j], T(0), Ttol, Ttol, tol)) {
+        if (std::abs(vol[j]) <= on_plane * area[j] || approx_float::scalar(vol[j], T(0), Ttol, Ttol, tol)) {
           plane.push_back(j);
         }
       }
-- 
2.43.0


From 09338f98100d63753701eb2afcffed1de469a276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:58 +0000
Subject: [PATCH 065/104] fix: Faces of points given more than once refer to
 the points as given (C12)

---
 src/polyhedron_faces.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index 2d0267b..f42cb6e 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -69,7 +69,7 @@ namespace brille::polyhedron{
       if (max > 2u) {
         _faces = polygon_faces(a, b, c, fpv, unique_vertices);
         debug_update("First-pass faces:\n", _faces);
-        if (polygon_face_vertex_purge(unique_vertices, _faces)) {
+        if (polygon_face_vertex_purge(unique_vertices, _faces) || unique_vertices.size(0) < vertices.size(0)) {
           debug_update("Some vertices purged. Now vertices\nnp.array(\n",
                        get_xyz(unique_vertices).to_string(), "),\n", _faces);
           // the _faces vectors point into the smaller unique_vertices, so we
@@ -77,7 +77,7 @@ namespace brille::polyhedron{
           // vertex in unique_vertices
           std::vector<ind_t> map(unique_vertices.size(0), vertices.size(0));
           for (ind_t i = 0; i < unique_vertices.size(0); ++i) {
-            map[i] = vertices.first(cmp::eq, unique_vertices.view(i));
+            map[i] = vertices.first(cmp::eq, unique_vertices.view(i), Ttol, Ttol, tol);
           }
           for (auto &face : _faces)
             for (auto &idx : face)
@@ -97,7 +97,7 @@ namespace brille::polyhedron{
       auto v = T(1) * vertices;
       std::tie(v, _faces) = remove_duplicate_points_and_update_face_indexing(v, _faces);
       _faces = polygon_faces(_faces, v);
-      if (polygon_face_vertex_purge(v, _faces)){
+      if (polygon_face_vertex_purge(v, _faces) || v.size(0) < vertices.size(0)){
         debug_update("Some vertices purged. Now vertices\nnp.array(\n", get_xyz(v).to_string(), "),\n", _faces);
         // the _faces vectors point into the smaller unique_vertices, so we
         // need to find *an* equivalent vertex in vertices for each retained
-- 
2.43.0


From e83a55f024c895330bad6271d443ebfce3856de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:10 +0000
Subject: [PATCH 066/104] fix: Every point which is not a corner is removed
 from the faces of a convex hull (C12)

---
 src/geometry.hpp         |  5 ++++-
 src/polyhedron_faces.hpp | 23 ++++++++++++++---------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 1e8f724..8aa9907 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -870,7 +870,8 @@ namespace brille {
 //    verbose_update("The permutation", perm, " sorts the vertices to ", sorted);
 
     // finally, go through sorted to ensure there are no extraneous points hanging about
-    for (ind_t i=0, j; sorted.size() > 3 && i < sorted.size();){
+    // removing one can uncover another, so continue until every remaining point is known to be a corner
+    for (ind_t i=0, j, kept=0; sorted.size() > 3 && kept < sorted.size(); i %= static_cast<ind_t>(sorted.size())){
       j = static_cast<ind_t>((sorted.size() + i - 1) % sorted.size()); // why not just (i-1) % sorted.size()?
       auto prev = points.view(sorted[i]) - points.view(sorted[j]);
       j = static_cast<ind_t>((sorted.size() + i + 1) % sorted.size());
@@ -880,9 +881,11 @@ namespace brille {
       if (turn > 1e-10 * norm(prev).sum() * norm(next).sum()){
         // left turn; we keep this point
         ++i;
+        ++kept;
       } else{
         // right turn, we remove this point
         sorted.erase(sorted.begin() + i);
+        kept = 0;
       }
     }
     return sorted;
diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index f42cb6e..b4e815f 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -243,18 +243,23 @@ namespace brille::polyhedron{
         if (!_faces.empty()) throw std::runtime_error("No vertices provided for centroid");
         return x;
       }
-      auto cen = 0 * x.view(0);
+      if (_faces.empty()) return 0 * x.view(0);
+      // the mean of the centroids of the tetrahedra made by the triangles of
+      // the faces and one corner, weighted by volume, in any linear coordinates
+      const auto o{x.view(_faces[0][0])};
+      auto cen = 0 * o;
+      T total{0};
       for (const auto & face: _faces) {
-        const auto a{x.view(face[0])};
-        for (ind_t i=1; i < face.size() - 1; ++i) {
-          const auto b{x.view(face[i])};
-          const auto c{x.view(face[i + 1])};
-          auto cr = cross(b-a, c-a);
-          auto sq = (((a+b)^T(2))+ ((b+c)^T(2)) + ((c+a)^T(2)));
-          for (ind_t j=0; j<3; ++j) cen[j] += cr[j] * sq[j];
+        const auto a{x.view(face[0]) - o};
+        for (ind_t i=1; i + 1 < face.size(); ++i) {
+          const auto b{x.view(face[i]) - o};
+          const auto c{x.view(face[i + 1]) - o};
+          const T weight = dot(cross(b - a, c - a), a).sum();
+          cen += weight * (a + b + c);
+          total += weight;
         }
       }
-      return cen / (T(48) * this->volume(x));
+      return o + cen / (T(4) * total);
     }
     template<class T, template<class> class A>
     std::enable_if_t<isArray<T,A>, A<T>> rand_rejection(const A<T>& x, const ind_t n, const unsigned int seed) const {
-- 
2.43.0


From a71c3277de56f6bddfddea44e4b8eab11a7d9dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:25 +0000
Subject: [PATCH 067/104] fix: The hull of points which include points on one
 line is found in any order (C12)

---
 src/geometry.hpp         | 33 +++++++++++++++++++++++++++++----
 src/polyhedron_faces.hpp |  7 ++++++-
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 8aa9907..0f75bee 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -689,6 +689,10 @@ namespace brille {
     T extent{0};
     for (ind_t i=1; i < no; ++i) extent = (std::max)(extent, norm(points.view(i) - points.view(0)).sum());
     const T on_plane = (std::max)(Ttol, T(1e-11)) * extent;
+    // the points themselves are not more precise than this
+    T rounding{0};
+    for (ind_t i=0; i < no; ++i) rounding = (std::max)(rounding, norm(points.view(i)).sum());
+    rounding *= T(16) * std::numeric_limits<T>::epsilon();
     std::vector<std::vector<ind_t>> members;
     for (ind_t i=0; i < no-2; ++i) for (ind_t j=i+1; j < no-1; ++j) for (ind_t k=j+1; k<no; ++k) {
       if (pseudo_colinear(points.view(i), points.view(j), points.view(k), Ttol, tol)[0]) {
@@ -701,16 +705,25 @@ namespace brille {
       };
       if (std::any_of(members.begin(), members.end(), has_ijk)) continue;
       const auto area = norm(cross(points.view(j) - points.view(i), points.view(k) - points.view(i))).sum();
+      const auto longest = (std::max)({norm(points.view(j) - points.view(i)).sum(), norm(points.view(k) - points.view(i)).sum(), norm(points.view(k) - points.view(j)).sum()});
+      // three points nearly on one line do not give a precise plane
+      const T near = on_plane * area + rounding * longest * longest;
+      T furthest{0};
+      ind_t off{no};
       std::vector<ind_t> on{i, j, k};
       bool positive{true}, negative{true};
       for (ind_t r=0; (positive || negative) && r < no; ++r){
         if (r == i || r == j || r == k) continue;
         auto d = pseudo_orient3d(points.view(i), points.view(j), points.view(k), points.view(r))[0];
 //        auto d = orient3d(points.ptr(i), points.ptr(j), points.ptr(k), points.ptr(r));
-        if (std::abs(d) <= on_plane * area) {
+        if (std::abs(d) <= near) {
           on.push_back(r);
           continue;
         }
+        if (std::abs(d) > furthest) {
+          furthest = std::abs(d);
+          off = r;
+        }
         positive &= d > 0;
         negative &= d < 0;
       }
@@ -718,9 +731,21 @@ namespace brille {
         members.push_back(on);
         // (T,T) -> co-linear (i,j,k) => all points are co-planar
         // (F,F) -> plane (i,j,k) does not divide space into point-full and point-less
-        a.set(count, points.view(positive ? i : j));
-        b.set(count, points.view(positive ? j : i));
-        c.set(count, points.view(k));
+        // of the points on the plane, use the three which determine it most precisely
+        ind_t second{j}, third{k};
+        T largest{area};
+        for (size_t x=1; x < on.size(); ++x) for (size_t y=x+1; y < on.size(); ++y) {
+          const auto xy = norm(cross(points.view(on[x]) - points.view(i), points.view(on[y]) - points.view(i))).sum();
+          if (xy > largest * (1 + T(1e-6))) {
+            largest = xy;
+            second = on[x];
+            third = on[y];
+          }
+        }
+        if (pseudo_orient3d(points.view(i), points.view(second), points.view(third), points.view(off))[0] < 0) std::swap(second, third);
+        a.set(count, points.view(i));
+        b.set(count, points.view(second));
+        c.set(count, points.view(third));
         n.set(count, three_point_normal(a.view(count), b.view(count), c.view(count)));
         ++count;
       }
diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index b4e815f..bd25834 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -379,6 +379,11 @@ namespace brille::polyhedron{
       auto y = get_hkl(b);
       auto z = get_hkl(c);
       auto w = get_hkl(v);
+      // the rounding error of orient3d depends on the lengths which it multiplies
+      auto area = norm(cross(y - x, z - x)).sum();
+      double extent{0};
+      for (ind_t i=0; i < w.size(0); ++i) extent = (std::max)(extent, static_cast<double>(norm(w.view(i) - x).sum()));
+      const auto on_plane = 1e-11 * extent * static_cast<double>(area);
       for (size_t i=0; i< _faces.size(); ++i) {
         const auto & face{_faces[i]};
         std::vector<double> o3d;
@@ -386,7 +391,7 @@ namespace brille::polyhedron{
         for (const auto & vertex: face){
           o3d.push_back(orient3d(x.ptr(0), y.ptr(0), z.ptr(0), w.ptr(vertex)));
         }
-        auto all_zero = std::all_of(o3d.begin(), o3d.end(), [](const auto & q){return approx_float::scalar(q, 0.);});
+        auto all_zero = std::all_of(o3d.begin(), o3d.end(), [on_plane](const auto & q){return std::abs(q) <= on_plane || approx_float::scalar(q, 0.);});
         if (all_zero) {
           all_zero = dot(three_point_normal(v, face[0], face[1], face[2]), three_point_normal(a, b, c)).all(cmp::gt, 0.);
         }
-- 
2.43.0


From 1b721f72067641a89c36208c50fadb112544bdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:25 +0000
Subject: [PATCH 068/104] fix: Points nearly on one line do not disturb the
 search for a convex hull (C12)

---
 src/geometry.hpp | 103 ++++++++++++++++++++++++++++-------------------
 1 file changed, 62 insertions(+), 41 deletions(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 0f75bee..5c89628 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -351,9 +351,29 @@ namespace brille {
     // move to the 2-D face coordinate system so that we can use orient2d
     auto centre = points.sum(0) / static_cast<T>(points.size(0));
     auto facet = points - centre;
-    // pick the first on-face vector to be our x-axis
-    auto x = facet.view(0).decouple(); // decouple since we're going to normalise this
-    auto z = three_point_normal(facet, 0, 1, 2);
+    // pick the longest on-face vector to be our x-axis, the first could be the centre itself
+    ind_t first{0}, other{0};
+    T longest{0}, widest{0};
+    for (ind_t i=0; i < facet.size(0); ++i) {
+      const auto length = norm(facet.view(i)).sum();
+      if (length > longest) {
+        longest = length;
+        first = i;
+      }
+    }
+    for (ind_t i=0; i < facet.size(0); ++i) {
+      const auto width = norm(cross(facet.view(first), facet.view(i))).sum();
+      if (width > widest) {
+        widest = width;
+        other = i;
+      }
+    }
+    // there is no face if all points are on one line
+    if (!(widest > T(1e-10) * longest * longest)) return false;
+    if (!strict) return true;
+    auto x = facet.view(first).decouple(); // decouple since we're going to normalise this
+    auto z = cross(facet.view(first), facet.view(other));
+    z /= norm(z);
     auto y = cross(z, x);
     x /= norm(x);
     y /= norm(y);
@@ -362,9 +382,7 @@ namespace brille {
     for (ind_t i = 1; i < facet.size(0) - 1; ++i) {
       on_plane_vector(x, y, facet.view(i), b);
       on_plane_vector(x, y, facet.view(i+1), c);
-      auto piece = orient2d(a, b, c);
-      if (!strict) piece = std::abs(piece);
-      s += piece;
+      s += orient2d(a, b, c);
     }
     return (s > T(0));
   }
@@ -693,6 +711,25 @@ namespace brille {
     T rounding{0};
     for (ind_t i=0; i < no; ++i) rounding = (std::max)(rounding, norm(points.view(i)).sum());
     rounding *= T(16) * std::numeric_limits<T>::epsilon();
+    auto doubled_area = [&](const ind_t x, const ind_t y, const ind_t z) -> T {
+      return norm(cross(points.view(y) - points.view(x), points.view(z) - points.view(x))).sum();
+    };
+    // find which points are on the plane of three points and on which sides of it the others are
+    auto sort_points = [&](const ind_t x, const ind_t y, const ind_t z, const T near){
+      std::vector<ind_t> on{x, y, z};
+      bool positive{true}, negative{true};
+      for (ind_t r=0; (positive || negative) && r < no; ++r){
+        if (r == x || r == y || r == z) continue;
+        auto d = pseudo_orient3d(points.view(x), points.view(y), points.view(z), points.view(r))[0];
+        if (std::abs(d) <= near) {
+          on.push_back(r);
+          continue;
+        }
+        positive &= d > 0;
+        negative &= d < 0;
+      }
+      return std::make_tuple(on, positive, negative);
+    };
     std::vector<std::vector<ind_t>> members;
     for (ind_t i=0; i < no-2; ++i) for (ind_t j=i+1; j < no-1; ++j) for (ind_t k=j+1; k<no; ++k) {
       if (pseudo_colinear(points.view(i), points.view(j), points.view(k), Ttol, tol)[0]) {
@@ -704,48 +741,32 @@ namespace brille {
         return has(i) && has(j) && has(k);
       };
       if (std::any_of(members.begin(), members.end(), has_ijk)) continue;
-      const auto area = norm(cross(points.view(j) - points.view(i), points.view(k) - points.view(i))).sum();
+      const auto area = doubled_area(i, j, k);
       const auto longest = (std::max)({norm(points.view(j) - points.view(i)).sum(), norm(points.view(k) - points.view(i)).sum(), norm(points.view(k) - points.view(j)).sum()});
-      // three points nearly on one line do not give a precise plane
-      const T near = on_plane * area + rounding * longest * longest;
-      T furthest{0};
-      ind_t off{no};
-      std::vector<ind_t> on{i, j, k};
-      bool positive{true}, negative{true};
-      for (ind_t r=0; (positive || negative) && r < no; ++r){
-        if (r == i || r == j || r == k) continue;
-        auto d = pseudo_orient3d(points.view(i), points.view(j), points.view(k), points.view(r))[0];
-//        auto d = orient3d(points.ptr(i), points.ptr(j), points.ptr(k), points.ptr(r));
-        if (std::abs(d) <= near) {
-          on.push_back(r);
-          continue;
-        }
-        if (std::abs(d) > furthest) {
-          furthest = std::abs(d);
-          off = r;
+      // three points on one line to within rounding errors do not give a plane
+      if (area <= T(1e-7) * longest * longest) continue;
+      // and if they are close to one line they do not give it precisely
+      auto [on, positive, negative] = sort_points(i, j, k, on_plane * area + rounding * longest * longest);
+      if (positive == negative) continue;
+      // of the points on the plane, use the three which determine it most precisely
+      ind_t second{j}, third{k};
+      T largest{area};
+      for (size_t x=1; x < on.size(); ++x) for (size_t y=x+1; y < on.size(); ++y) {
+        const auto xy = doubled_area(i, on[x], on[y]);
+        if (xy > largest * (1 + T(1e-6))) {
+          largest = xy;
+          second = on[x];
+          third = on[y];
         }
-        positive &= d > 0;
-        negative &= d < 0;
       }
+      if (second != j || third != k) std::tie(on, positive, negative) = sort_points(i, second, third, on_plane * largest);
       if (positive ^ negative) {
-        members.push_back(on);
         // (T,T) -> co-linear (i,j,k) => all points are co-planar
         // (F,F) -> plane (i,j,k) does not divide space into point-full and point-less
-        // of the points on the plane, use the three which determine it most precisely
-        ind_t second{j}, third{k};
-        T largest{area};
-        for (size_t x=1; x < on.size(); ++x) for (size_t y=x+1; y < on.size(); ++y) {
-          const auto xy = norm(cross(points.view(on[x]) - points.view(i), points.view(on[y]) - points.view(i))).sum();
-          if (xy > largest * (1 + T(1e-6))) {
-            largest = xy;
-            second = on[x];
-            third = on[y];
-          }
-        }
-        if (pseudo_orient3d(points.view(i), points.view(second), points.view(third), points.view(off))[0] < 0) std::swap(second, third);
+        members.push_back(on);
         a.set(count, points.view(i));
-        b.set(count, points.view(second));
-        c.set(count, points.view(third));
+        b.set(count, points.view(positive ? second : third));
+        c.set(count, points.view(positive ? third : second));
         n.set(count, three_point_normal(a.view(count), b.view(count), c.view(count)));
         ++count;
       }
-- 
2.43.0


From b85bbf8ceedeec2390b13775042e69c74b39e0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:25 +0000
Subject: [PATCH 069/104] fix: The orientation of points of different lattices
 is refused (C10)

---
 src/geometry.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/geometry.hpp b/src/geometry.hpp
index 5c89628..c12f6d6 100644
--- a/src/geometry.hpp
+++ b/src/geometry.hpp
@@ -141,7 +141,8 @@ namespace brille {
     template<class T, template<class> class A>
     std::enable_if_t<isLatVec<T,A>, std::vector<T>>
     pseudo_orient3d(const A<T>& a, const A<T>& b, const A<T>& c, const A<T>& d){
-      assert(a.same_lattice(b) && a.same_lattice(c) && a.same_lattice(d));
+      if (!(a.same_lattice(b) && a.same_lattice(c) && a.same_lattice(d)))
+        throw std::runtime_error("The orientation of points requires that they are all in the same lattice");
       return pseudo_orient3d(a.xyz(), b.xyz(), c.xyz(), d.xyz());
     }
 
-- 
2.43.0


From 0f3894355b772c8326adb1d7e49c580495a8cf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:57 +0000
Subject: [PATCH 070/104] fix: Cutting by a plane through corners is not
 disturbed by rounding errors (C13)

---
 src/polyhedron_faces.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index bd25834..d978527 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -453,6 +453,15 @@ namespace brille::polyhedron{
         return std::make_tuple(vin, Faces());
       }
       auto keep = point_inside_plane(a, b, c, vin);
+      // vertices on the plane to within rounding errors are on its kept side
+      T extent{0};
+      for (ind_t i=1; i < vin.size(0); ++i) extent = (std::max)(extent, norm(vin.view(i) - vin.view(0)).sum());
+      const T on_plane = T(1e-11) * extent;
+      {
+        const auto off = pseudo_orient3d(get_xyz(a), get_xyz(b), get_xyz(c), get_xyz(vin));
+        const auto area = norm(cross(b - a, c - a)).sum();
+        for (size_t i=0; i < keep.size(); ++i) if (std::abs(off[i]) <= on_plane * area) keep[i] = true;
+      }
 //      verbose_update("keep ", keep, " of vertices\n", vin.to_string());
       if (std::find(keep.begin(), keep.end(), false) == keep.end()) return std::make_tuple(vin, *this);
       if (std::find(keep.begin(), keep.end(), true) == keep.end()) return std::make_tuple(vin, Faces());
@@ -472,6 +481,9 @@ namespace brille::polyhedron{
       };
       for (auto [first, second, edge, at]: intersections){
         auto index = v.first(cmp::eq, at, Rtol, Rtol, tol); // == v.size(0) if not found)
+        // its components can differ by more if they are much smaller than the polyhedron
+        for (ind_t i=0; index == v.size(0) && i < v.size(0); ++i)
+          if (norm(v.view(i) - at).sum() <= on_plane) index = i;
         if (index < keep.size()) {
           debug_update("Edge ", my_to_string(edge), " intersection ", at.to_string(0), " which is pre-existing vertex ", index, ": ", v.view(index).to_string(0));
           // ensure existing vertices which are 'cut' because they're on the plane are retained
-- 
2.43.0


From 920696803aa77c778f69c0307cf87978a2c820e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:40 +0000
Subject: [PATCH 071/104] fix: A plane which cuts nothing is recognised before
 anything is computed for it (C13)

---
 src/polyhedron_faces.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/polyhedron_faces.hpp b/src/polyhedron_faces.hpp
index d978527..0b308ba 100644
--- a/src/polyhedron_faces.hpp
+++ b/src/polyhedron_faces.hpp
@@ -380,10 +380,17 @@ namespace brille::polyhedron{
       auto z = get_hkl(c);
       auto w = get_hkl(v);
       // the rounding error of orient3d depends on the lengths which it multiplies
-      auto area = norm(cross(y - x, z - x)).sum();
+      const auto from_x = [x=x.ptr(0)](const auto * p){
+        return std::array<double,3>{{static_cast<double>(p[0] - x[0]), static_cast<double>(p[1] - x[1]), static_cast<double>(p[2] - x[2])}};
+      };
+      const auto xy = from_x(y.ptr(0)), xz = from_x(z.ptr(0));
+      const auto area = std::hypot(xy[1]*xz[2] - xy[2]*xz[1], xy[2]*xz[0] - xy[0]*xz[2], xy[0]*xz[1] - xy[1]*xz[0]);
       double extent{0};
-      for (ind_t i=0; i < w.size(0); ++i) extent = (std::max)(extent, static_cast<double>(norm(w.view(i) - x).sum()));
-      const auto on_plane = 1e-11 * extent * static_cast<double>(area);
+      for (ind_t i=0; i < w.size(0); ++i) {
+        const auto xw = from_x(w.ptr(i));
+        extent = (std::max)(extent, std::hypot(xw[0], xw[1], xw[2]));
+      }
+      const auto on_plane = 1e-11 * extent * area;
       for (size_t i=0; i< _faces.size(); ++i) {
         const auto & face{_faces[i]};
         std::vector<double> o3d;
@@ -453,6 +460,7 @@ namespace brille::polyhedron{
         return std::make_tuple(vin, Faces());
       }
       auto keep = point_inside_plane(a, b, c, vin);
+      if (std::find(keep.begin(), keep.end(), false) == keep.end()) return std::make_tuple(vin, *this);
       // vertices on the plane to within rounding errors are on its kept side
       T extent{0};
       for (ind_t i=1; i < vin.size(0); ++i) extent = (std::max)(extent, norm(vin.view(i) - vin.view(0)).sum());
-- 
2.43.0


From a0239449dc438369b0993a2d6b5fe79ecb3eeecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:33 +0000
Subject: [PATCH 072/104] fix: A vertex of a nest is found in a leaf which has
 it as a vertex (C14)

---
 src/nest.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/nest.hpp b/src/nest.hpp
index cd18613..18c4e99 100644
--- a/src/nest.hpp
+++ b/src/nest.hpp
@@ -190,17 +190,18 @@ public:
     }
     // No solution found:
     if (solutions.empty()) return {};
-    // More than one sol -- find the 'best' one:
+    auto is_zero = [t_tol, n_tol](double x){return approx_float::scalar(x, 0., t_tol, t_tol, n_tol);};
+    // More than one sol -- the 'best' one uses the fewest vertices. The branches
+    // are divided independently, so a vertex of one can be on a face or an edge
+    // of a leaf of another which does not have it as a vertex.
+    auto vertices_used = [is_zero](const std::vector<std::pair<ind_t, double>> & s){
+      return std::count_if(s.begin(), s.end(), [is_zero](const auto & p){return !is_zero(p.second);});
+    };
     size_t best{0};
-    if (solutions.size() > 1u) {
-      for (size_t i=0; i<solutions.size(); ++i){
-        bool better{true};
-        for (auto & j : solutions[i]) if (j.second <= 0) better = false;
-        if (better) best = i;
-      }
+    for (size_t i=1; i<solutions.size(); ++i) {
+      if (vertices_used(solutions[i]) < vertices_used(solutions[best])) best = i;
     }
     // (Attempt to) deal with slightly-negative weights by reducing maximum
-    auto is_zero = [t_tol, n_tol](double x){return approx_float::scalar(x, 0., t_tol, t_tol, n_tol);};
     auto sol = solutions[best];
     for (size_t i=0; i<4u; ++i){
       // check this in the loop incase sol[i] modified in previous loop
-- 
2.43.0


From f95dc1c30ccb3230f3a0f2ccbdca8b262b0310dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:25 +0000
Subject: [PATCH 073/104] fix: A Gamma point on the surface of a trellis node
 is made one of its vertices (C14)

---
 src/triangulation_poly.hpp | 67 ++++++++++++++++++++++++++++++--------
 1 file changed, 54 insertions(+), 13 deletions(-)

diff --git a/src/triangulation_poly.hpp b/src/triangulation_poly.hpp
index 1b30221..c28b923 100644
--- a/src/triangulation_poly.hpp
+++ b/src/triangulation_poly.hpp
@@ -27,6 +27,57 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 
 namespace brille::polyhedron {
 
+/*! \brief Make a point a vertex of a triangulation
+
+TetGen inserts additional points less reliably than this if they are on the
+surface of the triangulated polyhedron.
+
+\param[in,out] points     the triangulated vertex positions
+\param[in,out] tetrahedra the vertices of each of the triangulated tetrahedra
+\param        x           the one point, which is ignored if in no tetrahedron
+
+Every tetrahedron which contains the point is replaced by those which have the
+point instead of one of its vertices, as long as they are not flat.
+*/
+template<class T, template<class> class A>
+std::enable_if_t<isBareArray<T,A>, void>
+insert_point(A<T>& points, Array2<ind_t>& tetrahedra, const A<T>& x) {
+  const T tol{1e-10};
+  std::vector<std::array<ind_t,4>> kept;
+  bool inside{false};
+  for (ind_t i=0; i<tetrahedra.size(0); ++i) {
+    std::array<ind_t,4> one;
+    std::array<const T*,4> p;
+    for (ind_t j=0; j<4u; ++j) {
+      one[j] = tetrahedra.val(i, j);
+      p[j] = points.ptr(one[j]);
+    }
+    const auto volume = orient3d(p[0], p[1], p[2], p[3]);
+    std::array<T,4> weight;
+    for (size_t j=0; j<4u; ++j) {
+      auto q = p;
+      q[j] = x.ptr(0);
+      weight[j] = orient3d(q[0], q[1], q[2], q[3]) / volume;
+    }
+    if (std::all_of(weight.begin(), weight.end(), [tol](const T w){return w >= -tol;})) {
+      // the point is already a vertex of the triangulation
+      if (std::any_of(weight.begin(), weight.end(), [tol](const T w){return w >= 1 - tol;})) return;
+      inside = true;
+      for (size_t j=0; j<4u; ++j) if (weight[j] > tol) {
+        auto replaced = one;
+        replaced[j] = points.size(0);
+        kept.push_back(replaced);
+      }
+    } else {
+      kept.push_back(one);
+    }
+  }
+  if (inside) {
+    points = cat(0, points, x);
+    tetrahedra = Array2<ind_t>::from_std(kept);
+  }
+}
+
 template<class T, template<class> class A>
 std::enable_if_t<isBareArray<T,A>, std::tuple<int, A<T>, Array2<ind_t>>>
 triangulate(const T max_volume, const bool addGamma, const A<T>& points, const Faces& faces){
@@ -85,18 +136,7 @@ triangulate(const T max_volume, const bool addGamma, const A<T>& points, const F
   // so we can call tetrahedralize:
   debug_update("Calling tetgen::tetrahedralize");
   try {
-    if (addGamma && !gammaPresent){
-      tgb.insertaddpoints = 1;
-      tetgenio add_in;
-      add_in.numberofpoints = 1;
-      add_in.pointlist = new double[3];
-      add_in.pointmarkerlist = new int[1];
-      for (int j=0; j<3; ++j) add_in.pointlist[j] = 0.;
-      add_in.pointmarkerlist[0] = points.size(0);
-      tetrahedralize(&tgb, &tgi, &tgo, &add_in);
-    } else {
-      tetrahedralize(&tgb, &tgi, &tgo);
-    }
+    tetrahedralize(&tgb, &tgi, &tgo);
   } catch (const std::logic_error& e) {
     std::string msg = "tetgen threw a logic error with message\n" + std::string(e.what());
     throw std::runtime_error(msg);
@@ -122,7 +162,8 @@ triangulate(const T max_volume, const bool addGamma, const A<T>& points, const F
     }
   }
   auto extra = tgo.numberofpoints - tgi.numberofpoints;
-  if (addGamma && !gammaPresent) extra -= 1; // we know about Gamma already
+  // we know about Gamma already, so it is not an extra point
+  if (addGamma && !gammaPresent) insert_point(position, tetrahedra, 0 * position.view(0));
   return std::make_tuple(extra, position, tetrahedra);
 }
 template<class T, template<class> class A>
-- 
2.43.0


From 1b51a54de6f683ac8f821cad4a0f74488eda6049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:26 +0000
Subject: [PATCH 074/104] fix: A point on the surface of a tetrahedron is found
 in every layer of a mesh (C14)

---
 src/triangulation_layers.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index a9379ec..fd6e7b0 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -252,7 +252,9 @@ public:
   }
 protected:
   [[nodiscard]] bool unsafe_might_contain(const ind_t tet, const bArray<double>& x) const {
-    return norm(x-circum_centres.view(tet)).all(brille::cmp::le, circum_radii[tet]);
+    const auto distance = norm(x-circum_centres.view(tet)).sum();
+    // every vertex is at the radius of the sphere to within rounding errors
+    return distance < circum_radii[tet] || brille::approx_float::scalar(distance, circum_radii[tet]);
   }
   [[nodiscard]] bool unsafe_contains(const ind_t tet, const bArray<double>& x) const {
     std::array<double,4> w{0.,0.,0.,0.};
@@ -410,8 +412,11 @@ public:
     ind_t idx = layers[0].unsafe_locate(x,vw);
     // use the layer-connection map to restrict the search in the next layer's tetrahedra
     for (size_t i=1; i<layers.size(); ++i){
-      const TetSet& tosearch = connections[i-1][idx];
-      idx = layers[i].unsafe_locate(tosearch, x, vw);
+      auto found = layers[i].number_of_tetrahedra();
+      if (idx < connections[i-1].size()) found = layers[i].unsafe_locate(connections[i-1][idx], x, vw);
+      // a point on the surface of a tetrahedron can be missed in one layer only
+      if (found >= layers[i].number_of_tetrahedra()) found = layers[i].unsafe_locate(x, vw);
+      idx = found;
     }
     return vw;
   }
-- 
2.43.0


From 9e8d3409dfb3e69a86a2e8fd9803e9778035ad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:26 +0000
Subject: [PATCH 075/104] fix: Points outside of a mesh are refused with any
 number of threads (C15)

---
 src/mesh.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index dd33755..4716379 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -175,11 +175,19 @@ public:
     brille::Array2<DataVectors> vecs2(vecs);
     // OpenMP < v3.0 (VS uses v2.0) requires signed indexes for omp parallel
     long xsize = brille::utils::u2s<long, ind_t>(x.size(0));
-#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize) schedule(dynamic)
+    ind_t unfound{0};
+#pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize) reduction(+:unfound) schedule(dynamic)
     for (long si=0; si<xsize; ++si){
       auto i = brille::utils::s2u<ind_t, long>(si);
       auto verts_weights = this->mesh.locate(x.view(i));
-      data_.interpolate_at(verts_weights, vals2, vecs2, i);
+      if (verts_weights.empty()) {
+        ++unfound;
+      } else {
+        data_.interpolate_at(verts_weights, vals2, vecs2, i);
+      }
+    }
+    if (unfound > 0){
+      throw std::runtime_error(std::to_string(unfound) + " points not found in tetrahedral mesh");
     }
     return std::make_tuple(vals, vecs);
   }
-- 
2.43.0


From ac9c063626eccdf304b52775f213ea0ca552fcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:26 +0000
Subject: [PATCH 076/104] fix: A nest interpolates vectors without threads in
 their own shape (C15)

---
 src/nest.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nest.hpp b/src/nest.hpp
index 18c4e99..ec3a269 100644
--- a/src/nest.hpp
+++ b/src/nest.hpp
@@ -359,7 +359,7 @@ public:
   interpolate_at(const vert_t& x) const {
     this->check_before_interpolating(x);
     auto valsh = data_.values().shape();
-    auto vecsh = data_.values().shape();
+    auto vecsh = data_.vectors().shape();
     valsh[0] = x.size(0);
     vecsh[0] = x.size(0);
     brille::Array<DataValues> vals(valsh);
@@ -374,6 +374,7 @@ public:
     for (ind_t i=0; i<x.size(0); ++i){
       // auto iw = root_.indices_weights(vertices_, map_, x.extract(i));
       auto iw = root_.indices_weights(vertices_, x.extract(i), t, n);
+      if (iw.empty()) throw std::runtime_error("Point not found in Nest");
       data_.interpolate_at(iw, vals2, vecs2, i);
     }
     return std::make_tuple(vals, vecs);
-- 
2.43.0


From 86ebd696a239703be938a7e8558702aecc7643ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:59 +0000
Subject: [PATCH 077/104] fix: A mesh locates points with the tolerance of the
 other grids (C14)

---
 src/mesh.hpp                 |  2 ++
 src/triangulation_layers.hpp | 12 +++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index 4716379..d73b797 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -85,6 +85,7 @@ public:
   Mesh3(const class_t& other){
     this->mesh = other.mesh;
     this->data_ = other.data_;
+    this->approx_ = other.approx_;
   }
   //Mesh3(TetTri  m, const data_t& d): mesh(std::move(m)), data_(d) {}
   Mesh3(mesh_t m, data_t d, approx_t a): mesh(std::move(m)), data_(std::move(d)), approx_(a) {}
@@ -93,6 +94,7 @@ public:
   auto& operator=(const class_t& other){
     this->mesh = other.mesh;
     this->data_ = other.data_;
+    this->approx_ = other.approx_;
     return *this;
   }
   [[nodiscard]] approx_t approx_config() const {return approx_;}
diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index fd6e7b0..925c52f 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -180,7 +180,7 @@ public:
     for (ind_t idx: tosearch){
       if (this->unsafe_might_contain(idx, x) && this->unsafe_contains(idx, x, ws)){
         // unsafe_contains sets the weights in ws
-        for (ind_t i=0; i<4u; ++i) if (!brille::approx_float::scalar(ws[i], 0.))
+        for (ind_t i=0; i<4u; ++i) if (!is_zero(ws[i]))
           vw.emplace_back(vertices_per_tetrahedron.val(idx,i), ws[i]);
         return idx;
       }
@@ -254,7 +254,8 @@ protected:
   [[nodiscard]] bool unsafe_might_contain(const ind_t tet, const bArray<double>& x) const {
     const auto distance = norm(x-circum_centres.view(tet)).sum();
     // every vertex is at the radius of the sphere to within rounding errors
-    return distance < circum_radii[tet] || brille::approx_float::scalar(distance, circum_radii[tet]);
+    const auto tol = brille::approx_float::config.reciprocal<double>();
+    return distance < circum_radii[tet] || brille::approx_float::scalar(distance, circum_radii[tet], tol, tol, brille::approx_float::config.digit());
   }
   [[nodiscard]] bool unsafe_contains(const ind_t tet, const bArray<double>& x) const {
     std::array<double,4> w{0.,0.,0.,0.};
@@ -262,7 +263,12 @@ protected:
   }
   bool unsafe_contains(const ind_t tet, const bArray<double>& x, std::array<double,4>& w) const {
     this->weights(tet, x, w);
-    return std::all_of(w.begin(), w.end(), [](double z){ return (z>0.||brille::approx_float::scalar(z,0.)); });
+    return std::all_of(w.begin(), w.end(), [](double z){ return (z>0.||is_zero(z)); });
+  }
+  //! The same comparison as used for the weights of a trellis or nest
+  static bool is_zero(const double w) {
+    const auto tol = brille::approx_float::config.reciprocal<double>();
+    return brille::approx_float::scalar(w, 0., tol, tol, brille::approx_float::config.digit());
   }
   void weights(const ind_t tet, const bArray<double>& x, std::array<double,4>& w) const {
     const ind_t* i = vertices_per_tetrahedron.ptr(tet);
-- 
2.43.0


From 8a3d7c0285d582c165c528578f7350986d28ebd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:29 +0000
Subject: [PATCH 078/104] fix: Barely overlapping tetrahedra of mesh layers do
 not end the program (C14)

---
 src/triangulation_layers.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index 925c52f..c32ff12 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -493,7 +493,16 @@ private:
         // can overlap -- and checking for this overlap is complicated.
         // make the Polyhedron class do the heavy lifting.
         // if (add || tethi.intersects(ll.get_tetrahedron(j))) map[i].push_back(j);
-        if (add || layers[low].get_tetrahedron(j).intersects(tethi)) map[i].push_back(j);
+        if (!add) {
+          try {
+            add = layers[low].get_tetrahedron(j).intersects(tethi);
+          } catch (const std::runtime_error &) {
+            // too little of them overlaps for it to be found precisely, so they
+            // must be treated as overlapping. Nor can exceptions leave this region
+            add = true;
+          }
+        }
+        if (add) map[i].push_back(j);
       }
     }
     if (brille::printer.datetime()) stopwatch.toc();
-- 
2.43.0


From 63ee9e05901c9f6cc04daed253873c2dc75655bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:29 +0000
Subject: [PATCH 079/104] fix: A vertex of a nest found via different
 tetrahedra is stored once (C14)

---
 src/nest.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/nest.tpp b/src/nest.tpp
index 594c10f..fdf8184 100644
--- a/src/nest.tpp
+++ b/src/nest.tpp
@@ -68,7 +68,9 @@ void Nest<T,S,V,A>::subdivide(
     // If we're clever we can possibly simplify this
     bool notfound{true};
     if (nVerts > 0){
-      auto idx = norm(vertices_.view(0,nVerts)-vi).find(brille::cmp::eq,0.);
+      // the same vertex can be found via different tetrahedra
+      const auto same = 1e-9 * std::cbrt(max_volume);
+      auto idx = norm(vertices_.view(0,nVerts)-vi).find(brille::cmp::le, same);
       if (idx.size()>1)
         throw std::runtime_error("Multiple matching vertices?!");
       if (idx.size()==1){
-- 
2.43.0


From 97e35d0d79aa7d536bc05b5010528f9459bb57c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:29 +0000
Subject: [PATCH 080/104] fix: The Gamma point on the surface of a polyhedron
 is always a vertex of its trellis (C14)

---
 src/trellis_poly_parallel.tpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trellis_poly_parallel.tpp b/src/trellis_poly_parallel.tpp
index 1dbec3f..64dbb59 100644
--- a/src/trellis_poly_parallel.tpp
+++ b/src/trellis_poly_parallel.tpp
@@ -229,7 +229,7 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
       /* FIXME A less-strict comparison might be useful but, at present, causes
        *       not-in-trellis errors */
       auto test1 = this_node_poly.volume() == intersection.volume();
-      auto test2 = !this_node_poly.contains(Gamma)[0];
+      auto test2 = !this_node_poly.contains(Gamma, s_tol, d_tol)[0];
       node_type[i] = (test0 && test1 && test2) ? NodeType::cube : NodeType::poly;
       auto indexes = this_node_faces.indexes();
       if (NodeType::cube == node_type[i]) {
@@ -270,7 +270,7 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
       // this was protected by a not-null check; but now if the node is null
       // there will have been a runtime error raised above, so there's no need
       // for a guard
-      auto gamma_in = intersection.contains(Gamma);
+      auto gamma_in = intersection.contains(Gamma, s_tol, d_tol);
       if (std::count(gamma_in.begin(), gamma_in.end(), true)) {
         auto int_vertices_are_gamma = intersection.vertices().row_is(brille::cmp::eq, Gamma, s_tol, s_tol, d_tol);
         auto no = int_vertices_are_gamma.count();
@@ -379,7 +379,7 @@ PolyTrellis<T,R,S,A>::part_two(
 
     // get a reference the stashed Polyhedron from before:
     const auto & this_node{poly_stash.at(i)};
-    auto gin = this_node.contains(Gamma);
+    auto gin = this_node.contains(Gamma, s_tol, d_tol);
     bool contains_Gamma = std::count(gin.begin(), gin.end(), true) == 1;
     // Triangulate the node polyhedron into tetrahedra (the class name LQPolyTet is misleading...)
     polyhedron::LQPolyTet<S,A> tri_cut{};
-- 
2.43.0


From 48077f8b90a5a5875acccda6bb36b138e5193fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:17 +0000
Subject: [PATCH 081/104] fix: A mesh can be used without any other header
 (C14)

---
 src/triangulation_layers.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/triangulation_layers.hpp b/src/triangulation_layers.hpp
index c32ff12..e7476e5 100644
--- a/src/triangulation_layers.hpp
+++ b/src/triangulation_layers.hpp
@@ -28,6 +28,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 #include <omp.h>
 // #include <cassert>
 // #include <algorithm>
+#include "approx_config.hpp"
 #include "array_.hpp" // defines bArray
 #include "tetgen.h"
 #include "polyhedron_flex.hpp"
-- 
2.43.0


From a97b72f0eedd843363042e4049d6bff51f7a0e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:52 +0000
Subject: [PATCH 082/104] fix: A point outside of the trellis is refused
 instead of looked up beyond its nodes (C15)

---
 src/trellis_poly.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trellis_poly.hpp b/src/trellis_poly.hpp
index 74a2dc6..9136b87 100644
--- a/src/trellis_poly.hpp
+++ b/src/trellis_poly.hpp
@@ -423,7 +423,9 @@ public:
         bad = !subscript_ok_and_not_null(newsub);
       }
       if (!bad) sub = newsub;
-      else {
+      else if (!this->subscript_ok(sub)) {
+        throw std::runtime_error("The point " + p.to_string(0u) + " is outside of the trellis");
+      } else {
         auto node_type = nodes_.node_type_string(sub2idx(sub));
         info_update("The node subscript ", sub, " for the point\n\t(hkl) ",
                     p.to_string(0u), "\n\t(xyz) [[", pos, "]]\n",
-- 
2.43.0


From 823974fd6a230004bf83fd00801a4d25b3802258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:45 +0000
Subject: [PATCH 083/104] fix: A node too thin for TetGen is triangulated from
 its first vertex (C14)

---
 src/triangulation_poly.hpp | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/triangulation_poly.hpp b/src/triangulation_poly.hpp
index c28b923..23e529c 100644
--- a/src/triangulation_poly.hpp
+++ b/src/triangulation_poly.hpp
@@ -78,6 +78,32 @@ insert_point(A<T>& points, Array2<ind_t>& tetrahedra, const A<T>& x) {
   }
 }
 
+/*! \brief Triangulate a convex polyhedron from its first vertex
+
+\param points the vertices of the polyhedron
+\param faces  the vertices of each of the faces
+\returns the vertices of each of the tetrahedra which are not flat
+*/
+template<class T, template<class> class A>
+std::enable_if_t<isBareArray<T,A>, Array2<ind_t>>
+triangulate_convex(const A<T>& points, const std::vector<std::vector<ind_t>>& faces) {
+  std::vector<std::array<ind_t,4>> tetrahedra;
+  std::vector<T> volumes;
+  const auto apex = faces.front().front();
+  for (const auto& face: faces) {
+    if (std::find(face.begin(), face.end(), apex) != face.end()) continue;
+    for (size_t i=2; i<face.size(); ++i) {
+      tetrahedra.push_back({{apex, face[0], face[i-1], face[i]}});
+      const auto& t{tetrahedra.back()};
+      volumes.push_back(std::abs(orient3d(points.ptr(t[0]), points.ptr(t[1]), points.ptr(t[2]), points.ptr(t[3]))));
+    }
+  }
+  const auto total = std::accumulate(volumes.begin(), volumes.end(), T(0));
+  std::vector<std::array<ind_t,4>> kept;
+  for (size_t i=0; i<tetrahedra.size(); ++i) if (volumes[i] > total * T(1e-10)) kept.push_back(tetrahedra[i]);
+  return kept.empty() ? Array2<ind_t>(0u, 4u) : Array2<ind_t>::from_std(kept);
+}
+
 template<class T, template<class> class A>
 std::enable_if_t<isBareArray<T,A>, std::tuple<int, A<T>, Array2<ind_t>>>
 triangulate(const T max_volume, const bool addGamma, const A<T>& points, const Faces& faces){
@@ -144,8 +170,15 @@ triangulate(const T max_volume, const bool addGamma, const A<T>& points, const F
     std::string msg = "tetgen threw a runtime_error with message\n" + std::string(e.what());
     throw std::runtime_error(msg);
   } catch (...) {
-    std::string msg = "tetgen threw an undetermined error";
-    throw std::runtime_error(msg);
+    if (max_volume > 0) {
+      std::string msg = "tetgen threw an undetermined error";
+      throw std::runtime_error(msg);
+    }
+    // the features of the polyhedron are too small for TetGen
+    A<T> position(points);
+    auto tetrahedra = triangulate_convex(points, f);
+    if (addGamma && !gammaPresent) insert_point(position, tetrahedra, 0 * points.view(0));
+    return std::make_tuple(0, position, tetrahedra);
   }
   debug_update("Copy generated tetgen vertices to SimpleTet object");
   Array2<T> position(tgo.numberofpoints, 3u);
-- 
2.43.0


From 8486c06288c520b866937cef87f954a74a0815a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:04 +0000
Subject: [PATCH 084/104] fix: Errors while a trellis is built reach the caller
 and added points are no data race (C25)

---
 src/trellis_poly_parallel.tpp | 36 ++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/trellis_poly_parallel.tpp b/src/trellis_poly_parallel.tpp
index 64dbb59..5bb4303 100644
--- a/src/trellis_poly_parallel.tpp
+++ b/src/trellis_poly_parallel.tpp
@@ -220,7 +220,7 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
     // stash our thread number to access this thread's pair
     int thread = omp_get_thread_num();
 #pragma omp for
-    for (long long s_i = 0; s_i < s_count; ++s_i) {
+    for (long long s_i = 0; s_i < s_count; ++s_i) thread_ex.run([&]{ // any part of the body might throw
       auto i = cube_indexes[utils::s2u<ind_t>(s_i)];
       auto this_node_faces = trellis_node_faces(i);
       // this limits all_points to have the knots *first*
@@ -240,7 +240,7 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
       } else {
         if (intersection.face_count() < 4 || intersection.volume() <= 0.) {
           node_type[i] = NodeType::found_null;
-          continue; // we don't want to re-wrap the following code block
+          return; // we don't want to re-wrap the following code block
         }
         // find which of the vertices of the intersection are knots as well.
         const auto &iv{intersection.vertices()};
@@ -257,14 +257,11 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
         auto & node_map = thread_pairs[thread].second.get(i);
         node_map.resize(iv.size(0));
         for (ind_t iv_index = 0; iv_index < iv.size(0); ++iv_index) {
-          thread_ex.run([&]{
           if (auto search = i2p.find(iv_index); search != i2p.end()) {
             node_map[iv_index] = thread_pairs[thread].first.preserve(search->second);
           } else {
-					  // might-throw:
             node_map[iv_index] = thread_pairs[thread].first.add(iv.view(iv_index), AddVertexType::Crafted);
           }
-					}); // end might-throw handler ThreadException runner
         }
       }
       // this was protected by a not-null check; but now if the node is null
@@ -279,10 +276,9 @@ PolyTrellis<T,R,S,A>::part_one(const poly_t& poly, const A<S>& all_points, std::
         if (no == 0) thread_pairs[thread].second.append(i, thread_pairs[thread].first.origin_index());
       }
       // Storing the intersection into the std::map is likely not thread safe
-      stash_mutex.lock();
+      std::lock_guard<std::mutex> stash_lock(stash_mutex);
       poly_stash.emplace(i, intersection);
-      stash_mutex.unlock();
-    } // end parallel for-loop
+    }); // end parallel for-loop
   } // end parallel region -- back to single-thread execution
   thread_ex.rethrow(); //Now handle any encountered errors if they exist
 
@@ -369,8 +365,13 @@ PolyTrellis<T,R,S,A>::part_two(
   // Handle all polyhedron nodes (this almost certainly needs to be parallel)
   ind_t fatal_tri{0}, fatal_miss{0}, fatal_match{0}, hiccups{0};
   auto p_count = utils::u2s<long long>(poly_indexes.size());
-#pragma omp parallel for default(none) shared(std::cout, n_kept, poly_stash, poly_indexes, p_count, node_index_map, s_tol, d_tol) reduction(+:fatal_tri, fatal_miss, fatal_match, hiccups)
-  for (long long s_i=0; s_i<p_count; ++s_i) {
+  // points added in triangulation are appended to vertices_ when no thread uses it
+  const auto n_known = vertices_.size(0);
+  auto added_points = 0 * vertices_.view(0); // the first entry is not used
+  std::mutex added_mutex;
+  ThreadException thread_ex;
+#pragma omp parallel for default(none) shared(std::cout, n_kept, poly_stash, poly_indexes, p_count, node_index_map, s_tol, d_tol, n_known, added_points, added_mutex, thread_ex) reduction(+:fatal_tri, fatal_miss, fatal_match, hiccups)
+  for (long long s_i=0; s_i<p_count; ++s_i) thread_ex.run([&]{ // any part of the body might throw
     auto i = poly_indexes[utils::s2u<ind_t>(s_i)];
     //
     auto Gamma = 0 * vertices_.view(0);
@@ -420,8 +421,15 @@ PolyTrellis<T,R,S,A>::part_two(
         if (punt.count() < 1 && added_in_triangulation > 0){
           // we've *ADDED* a new point to the triangulation, so we need to
           // add it to all points as well. hopefully this doesn't happen often
-          local_map.push_back(vertices_.size(0));
-          vertices_ = cat(0, vertices_, trij);
+          std::lock_guard<std::mutex> added_lock(added_mutex);
+          auto index = added_points.size(0);
+          if (index > 1) {
+            auto before = added_points.row_is(brille::cmp::eq, trij, s_tol, s_tol, d_tol);
+            before[0] = false; // the unused entry
+            if (before.count()) index = before.first();
+          }
+          if (index == added_points.size(0)) added_points = cat(0, added_points, trij);
+          local_map.push_back(n_known + index - 1);
           --added_in_triangulation;
         } else {
           if (punt.count() < 1) {
@@ -451,7 +459,9 @@ PolyTrellis<T,R,S,A>::part_two(
       throw std::runtime_error("Triangulated node is actually Null!");
     }
     nodes_.set(i, PolyNode(idx_per_tet, cci_per_tet, vol_per_tet));
-  }
+  });
+  thread_ex.rethrow(); // only throws if error(s) were caught
+  for (ind_t i=1; i<added_points.size(0); ++i) vertices_ = cat(0, vertices_, added_points.view(i));
 
   profile_update("Poly node vertexes stored");
 
-- 
2.43.0


From ef27861ce870c2f7fe28957ac38cf4c424309705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:18 +0000
Subject: [PATCH 085/104] fix: Vectors and matrices in the real lattice are
 rotated with the wave vector (C16)

---
 src/interpolator_real.tpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/interpolator_real.tpp b/src/interpolator_real.tpp
index 3e31f0f..f878c8f 100644
--- a/src/interpolator_real.tpp
+++ b/src/interpolator_real.tpp
@@ -42,18 +42,18 @@ bool Interpolator<T>::rip_real(
       for (ind_t b=0; b<b_; ++b){
         // scalar elements do not need to be rotated, so skip them
         ind_t o = b*s_ + no[0];
-        // rotate real vectors: since Q = Rᵀq + τ → Rv
+        // rotate real vectors: since Q = Rᵀq + τ → R⁻¹v
         for (ind_t v=0; v<no[1]; ++v){
-          brille::utils::mul_mat_vec(tmp_v, 3u, ptsym.get(r[i]).data(), xi+o);
+          brille::utils::mul_mat_vec(tmp_v, 3u, ptsym.get(invR[i]).data(), xi+o);
           for (int j=0; j<3; ++j) x.val(i,o+j) = tmp_v[j];
           o += 3u; // shift 3 for each vector
         }
         for (ind_t m=0; m<no[2]; ++m){
-          // Calculate R*M*R⁻¹ in two steps
-          // first calculate M*R⁻¹, storing in tmp_m
-          brille::utils::mul_mat_mat(tmp_m, 3u, xi+o, ptsym.get(invR[i]).data());
-          // next calculate R*tmp_m, storing back in the x array
-          brille::utils::mul_mat_mat(xi+o, 3u, ptsym.get(r[i]).data(), tmp_m);
+          // Calculate R⁻¹*M*R in two steps
+          // first calculate M*R, storing in tmp_m
+          brille::utils::mul_mat_mat(tmp_m, 3u, xi+o, ptsym.get(r[i]).data());
+          // next calculate R⁻¹*tmp_m, storing back in the x array
+          brille::utils::mul_mat_mat(xi+o, 3u, ptsym.get(invR[i]).data(), tmp_m);
           o += 9u; // shift 9 for each matrix
         }
       }
-- 
2.43.0


From 38fa0046cf45243218103dd9db8972cf477515da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:45 +0000
Subject: [PATCH 086/104] fix: A point just outside of a grid by no more than
 the tolerance of the zone is found (C16)

---
 src/mesh.hpp | 15 +++++++++++++--
 src/nest.hpp | 17 ++++++++++++++---
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index d73b797..ed6c253 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -106,6 +106,17 @@ public:
   [[nodiscard]] const vert_t& get_mesh_xyz() const{ return this->mesh.get_vertex_positions(); }
   //! Return the tetrahedron indices of the mesh
   [[nodiscard]] const bArray<ind_t>& get_mesh_tetrehedra() const{ return this->mesh.get_vertices_per_tetrahedron();}
+  //! Find one point, which the Brillouin zone might have considered inside despite being just outside
+  [[nodiscard]] std::vector<std::pair<ind_t,double>> locate(const vert_t& x) const {
+    auto found = this->mesh.locate(x);
+    if (!found.empty()) return found;
+    const auto& v{this->get_mesh_xyz()};
+    const auto inward = v.sum(0) / static_cast<double>(v.size(0)) - x;
+    for (double part = 1e-12; found.empty() && part < 1e-7; part *= 10) {
+      found = this->mesh.locate(x + part * inward);
+    }
+    return found;
+  }
   // Get a constant reference to the stored data
   const data_t& data() const {return data_;}
   // Replace the data stored in the object
@@ -149,7 +160,7 @@ public:
     brille::Array2<DataVectors> vecs2(vecs);
     for (ind_t i=0; i<x.size(0); ++i){
       verbose_update("Locating ",x.to_string(i));
-      auto verts_weights = this->mesh.locate(x.view(i));
+      auto verts_weights = this->locate(x.view(i));
       if (verts_weights.size()<1){
         debug_update("Point ",x.to_string(i)," not found in tetrahedra!");
         throw std::runtime_error("Point not found in tetrahedral mesh");
@@ -181,7 +192,7 @@ public:
 #pragma omp parallel for default(none) shared(x, vals2, vecs2, xsize) reduction(+:unfound) schedule(dynamic)
     for (long si=0; si<xsize; ++si){
       auto i = brille::utils::s2u<ind_t, long>(si);
-      auto verts_weights = this->mesh.locate(x.view(i));
+      auto verts_weights = this->locate(x.view(i));
       if (verts_weights.empty()) {
         ++unfound;
       } else {
diff --git a/src/nest.hpp b/src/nest.hpp
index ec3a269..fb7ead1 100644
--- a/src/nest.hpp
+++ b/src/nest.hpp
@@ -337,13 +337,24 @@ public:
     /* (do this later) */
     return all_tet;
   }
+  //! Find one point, which the Brillouin zone might have considered inside despite being just outside
+  std::vector<std::pair<ind_t,double>>
+  locate(const vert_t& x, const double t, const int n) const {
+    auto iw = root_.indices_weights(vertices_, x, t, n);
+    if (!iw.empty()) return iw;
+    const auto inward = vertices_.sum(0) / static_cast<double>(vertices_.size(0)) - x;
+    for (double part = 1e-12; iw.empty() && part < 1e-7; part *= 10) {
+      iw = root_.indices_weights(vertices_, x + part * inward, t, n);
+    }
+    return iw;
+  }
   std::vector<std::pair<ind_t,double>>
   indices_weights(const vert_t &x) const {
     if (x.ndim()!=2 || x.size(0) != 1u || x.size(1) != 3u)
       throw std::runtime_error("The indices and weights can only be found for one point at a time.");
     auto t = approx_.reciprocal<double>();
     auto n = approx_.digit();
-    return root_.indices_weights(vertices_, x, t, n);
+    return this->locate(x, t, n);
   }
   unsigned check_before_interpolating(const vert_t& x) const{
     unsigned int mask = 0u;
@@ -373,7 +384,7 @@ public:
     auto n = approx_.digit();
     for (ind_t i=0; i<x.size(0); ++i){
       // auto iw = root_.indices_weights(vertices_, map_, x.extract(i));
-      auto iw = root_.indices_weights(vertices_, x.extract(i), t, n);
+      auto iw = this->locate(x.extract(i), t, n);
       if (iw.empty()) throw std::runtime_error("Point not found in Nest");
       data_.interpolate_at(iw, vals2, vecs2, i);
     }
@@ -404,7 +415,7 @@ public:
   #pragma omp parallel for default(none) shared(x, vals2, vecs2) reduction(+:unfound) firstprivate(xsize, t, n) schedule(dynamic)
     for (long long si=0; si<xsize; ++si){
       auto i = brille::utils::s2u<ind_t, long long>(si);
-      auto iw = root_.indices_weights(vertices_, x.extract(i), t, n);
+      auto iw = this->locate(x.extract(i), t, n);
       if (iw.size()){
         data_.interpolate_at(iw, vals2, vecs2, i);
       } else {
-- 
2.43.0


From 879065df5e16c3035a93c3d8a811f53821ac7790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:17 +0000
Subject: [PATCH 087/104] fix: A point just off a trellis boundary at the
 origin is found (C16)

---
 src/trellis_poly.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/trellis_poly.hpp b/src/trellis_poly.hpp
index 9136b87..85a5fa7 100644
--- a/src/trellis_poly.hpp
+++ b/src/trellis_poly.hpp
@@ -73,10 +73,12 @@ static size_t find_bin(const std::vector<T>& bin_edges, const T x){
 }
 template<class T>
 static int on_boundary(const std::vector<T>& bin_edges, const T x, const size_t i){
+  // a point which the Brillouin zone considered inside can be this far off an edge, even one at zero
+  const T off = (bin_edges.back() - bin_edges.front()) * T(1e-8);
   // if (i==0) then above d was *either* 0 or 1, otherwise d = i + 1;
   // if (i==0) we can't go lower in either case, so no problem.
-  if (i+2<bin_edges.size() && brille::approx_float::scalar(bin_edges[i+1],x)) return  1;
-  if (i  >0                && brille::approx_float::scalar(bin_edges[i  ],x)) return -1;
+  if (i+2<bin_edges.size() && std::abs(bin_edges[i+1]-x) <= off) return  1;
+  if (i  >0                && std::abs(bin_edges[i  ]-x) <= off) return -1;
   return 0;
 }
 
-- 
2.43.0


From fc7ff5c54f2f8f629573c3f0856ec98d2b11152a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:15 +0000
Subject: [PATCH 088/104] fix: Matrices between pairs of atoms are transformed
 like their eigenvectors (C17)

---
 src/interpolator_gamma.tpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/interpolator_gamma.tpp b/src/interpolator_gamma.tpp
index c45db2e..dc03d74 100644
--- a/src/interpolator_gamma.tpp
+++ b/src/interpolator_gamma.tpp
@@ -64,8 +64,8 @@ bool Interpolator<T>::rip_gamma_complex(
   if (!std::any_of(no.begin()+1, no.end(), [](ind_t n){return n>0;}))
     return false;
   // for Γ transformations of tensors, there *must* be N×N in total:
-  ind_t Nmat = static_cast<ind_t>(std::sqrt(no[2]))/3;
-  if (no[2] != 9*Nmat*Nmat){
+  ind_t Nmat = static_cast<ind_t>(std::lround(std::sqrt(static_cast<double>(no[2]))));
+  if (no[2] != Nmat*Nmat){
     std::cout << "Atomic displacement Gamma transformation requires NxN 3x3 tensors!" << std::endl;
     return false;
   }
@@ -116,10 +116,11 @@ bool Interpolator<T>::rip_gamma_complex(
       if (no[2]>0){
         if (tA.size() < no[2]*9u) tA.resize(no[2]*9u);
         for (ind_t n=0; n<Nmat; ++n){
-          T Rph = e_iqd_gt(i, n, Rii);
-          ind_t v = static_cast<ind_t>(pgt.F0(n, Rii));
+          // both atom indices transform like the eigenvectors, ϵₙ ϵₘ†
+          T Rph = e_iqd_gt(i, n, iRii);
+          ind_t v = static_cast<ind_t>(pgt.F0(n, iRii));
           for (ind_t m=0; m<Nmat; ++m){
-            T iRph = e_iqd_gt(i, m, iRii);
+            T iRph = std::conj(e_iqd_gt(i, m, iRii));
             ind_t k = static_cast<ind_t>(pgt.F0(m, iRii));
             // Calculate R⁻¹*M*R in two steps
             // first calculate M*R, storing in t0
-- 
2.43.0


From 1be5103c0c532cd0ec6bc6c2b9a2380b55c103f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:49 +0000
Subject: [PATCH 089/104] fix: The Gamma table is made also if only the values
 need it (C17)

---
 src/bz_mesh.hpp    | 3 ++-
 src/bz_nest.hpp    | 3 ++-
 src/bz_trellis.hpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bz_mesh.hpp b/src/bz_mesh.hpp
index 19d2a6d..d1731ba 100644
--- a/src/bz_mesh.hpp
+++ b/src/bz_mesh.hpp
@@ -122,7 +122,8 @@ public:
     auto cfg = this->approx_config();
     auto s_tol = cfg.template direct<double>();
     auto n_tol = cfg.digit();
-    bool needed = RotatesLike::Gamma == this->data().vectors().rotateslike();
+    bool needed = RotatesLike::Gamma == this->data().values().rotateslike()
+               || RotatesLike::Gamma == this->data().vectors().rotateslike();
     auto pgt = GammaTable(needed, bz_.get_lattice(), bz_.add_time_reversal(), s_tol, n_tol);
     //
     brille::Array2<T> vals2(vals);
diff --git a/src/bz_nest.hpp b/src/bz_nest.hpp
index d35f264..6634c4f 100644
--- a/src/bz_nest.hpp
+++ b/src/bz_nest.hpp
@@ -114,7 +114,8 @@ public:
     auto cfg = this->approx_config();
     auto s_tol = cfg.template direct<double>();
     auto n_tol = cfg.digit();
-    bool needed = RotatesLike::Gamma == this->data().vectors().rotateslike();
+    bool needed = RotatesLike::Gamma == this->data().values().rotateslike()
+               || RotatesLike::Gamma == this->data().vectors().rotateslike();
     auto pgt = GammaTable(needed, bz_.get_lattice(), bz_.add_time_reversal(), s_tol, n_tol);
     //
     brille::Array2<T> vals2(vals);
diff --git a/src/bz_trellis.hpp b/src/bz_trellis.hpp
index 77de7ff..1d18a33 100644
--- a/src/bz_trellis.hpp
+++ b/src/bz_trellis.hpp
@@ -182,7 +182,8 @@ public:
     auto cfg = this->approx_config();
     auto s_tol = cfg.template direct<double>();
     auto n_tol = cfg.digit();
-    bool needed = RotatesLike::Gamma == this->data().vectors().rotateslike();
+    bool needed = RotatesLike::Gamma == this->data().values().rotateslike()
+               || RotatesLike::Gamma == this->data().vectors().rotateslike();
     auto pgt = GammaTable(needed, bz_.get_lattice(), bz_.add_time_reversal(), s_tol, n_tol);
     // make data-sharing Array2 objects for the rotation functions
     brille::Array2<T> vals2(vals);
-- 
2.43.0


From 41874500df862c453f44c2b34f5c68b4fab9699a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:04 +0000
Subject: [PATCH 090/104] fix: Sorting real valued vectors does not use
 uninitialised memory (C18)

---
 src/utilities.tpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utilities.tpp b/src/utilities.tpp
index 06007b5..4299193 100644
--- a/src/utilities.tpp
+++ b/src/utilities.tpp
@@ -527,7 +527,9 @@ template<class T> T magnitude(const std::complex<T> a){
   // undocumented real-valued (default) functions:
   template<class T> T antiphase(const T){return T(1);}
   template<class I, class T> T antiphase(const I, const T*, const T*){return T(1);}
-  template<class I, class T> void inplace_antiphase(const I, const T*, const T*, T*) {}
+  template<class I, class T> void inplace_antiphase(const I n, const T*, const T* b, T* phased) {
+    for (I i=0; i<n; ++i) phased[i] = b[i];
+  }
   template<class T, template<class> class A> T unsafe_antiphase(const A<T>&, const A<T>&){return T(1);}
 #endif
 /*! \brief Find the reciprocal phase of a complex number
-- 
2.43.0


From 9736c0ecff9a36a834c04a470a56c98294a2a7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:14 +0000
Subject: [PATCH 091/104] fix: The vector cost function of saved data is the
 same when it is read (C24)

---
 src/interpolator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interpolator.hpp b/src/interpolator.hpp
index 7fcba0b..12a40d2 100644
--- a/src/interpolator.hpp
+++ b/src/interpolator.hpp
@@ -260,28 +260,28 @@ public:
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
         return brille::utils::vector_distance(n, i, j);
       };
-      _funtype[0] = 1;
+      _funtype[1] = 1;
       break;
       case 2:
       debug_update("selecting 1-brille::utils::vector_product");
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
         return 1-brille::utils::vector_product(n, i, j);
       };
-      _funtype[0] = 2;
+      _funtype[1] = 2;
       break;
       case 3:
       debug_update("selecting brille::utils::vector_angle");
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
         return brille::utils::vector_angle(n, i, j);
       };
-      _funtype[0] = 3;
+      _funtype[1] = 3;
       break;
       case 4:
       debug_update("selecting brille::utils::hermitian_angle");
       this->_vectorfun = [](ind_t n, const T* i, const T* j){
          return brille::utils::hermitian_angle(n,i,j);
       };
-      _funtype[0] = 4;
+      _funtype[1] = 4;
       break;
       default:
       debug_update("selecting sin**2(brille::utils::hermitian_angle)");
-- 
2.43.0


From b27769c6b1258f0f8a5d374030017a237ada201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:14 +0000
Subject: [PATCH 092/104] fix: The order of saved point group operations is
 kept when they are read (C24)

---
 src/pointsymmetry.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pointsymmetry.hpp b/src/pointsymmetry.hpp
index 58383bf..de80a86 100644
--- a/src/pointsymmetry.hpp
+++ b/src/pointsymmetry.hpp
@@ -109,7 +109,10 @@ public:
         obj.getDataSet(entry).read(hfm);
         Matrices<int> m;
         for (const auto& x: hfm) m.push_back(x.array());
-        return PointSymmetry(m);
+        // the constructor would sort the operations, which changes the order of those with equal order
+        PointSymmetry out;
+        out.R = std::move(m);
+        return out;
     }
 
 };
-- 
2.43.0


From 7689e488e87d5cc30b04e278e9c05963ba8288c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:49 +0000
Subject: [PATCH 093/104] fix: A vertex map without vertices can be made and
 consolidated (C27)

---
 src/vertex_map_set.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vertex_map_set.h b/src/vertex_map_set.h
index 05808c9..ab0efe4 100644
--- a/src/vertex_map_set.h
+++ b/src/vertex_map_set.h
@@ -224,7 +224,8 @@ private:
     construct_appended();
   }
   void construct_appended() {
-    appended_ = 0 * pristine_.view(0); // 0 * forces a new array to be created
+    // 0 * forces a new array to be created; an empty set has no first vertex
+    appended_ = pristine_.size(0) ? 0 * pristine_.view(0) : 0 * pristine_;
     appended_.resize(pristine_.size(0) >> 1u);
   }
 
-- 
2.43.0


From c4474d02e644608a18dec01bc41ec44487552b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:49 +0000
Subject: [PATCH 094/104] fix: The first vertex added to a vertex map of one
 finds room (C27)

---
 src/vertex_map_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vertex_map_set.h b/src/vertex_map_set.h
index ab0efe4..33b6291 100644
--- a/src/vertex_map_set.h
+++ b/src/vertex_map_set.h
@@ -230,7 +230,7 @@ private:
   }
 
   rel_t insert(const A<T>& vertex){
-    if (appended_.size(0) < appended_count_ + 1u) appended_.resize(2 * appended_count_);
+    if (appended_.size(0) < appended_count_ + 1u) appended_.resize(2 * appended_count_ + 1u);
     appended_.set(appended_count_, vertex);
     //return pristine_count() + appended_count_++;
     return std::make_pair(MapVertexType::Appended, appended_count_++);
-- 
2.43.0


From d29205e6c097183bd3c8eefe2e8be8b5c30cbe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:59 +0000
Subject: [PATCH 095/104] fix: The robust predicates do not read past the end
 of an expansion (C26)

---
 lib/tetgen/predicates.cxx | 56 +++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/lib/tetgen/predicates.cxx b/lib/tetgen/predicates.cxx
index bba534b..4811560 100644
--- a/lib/tetgen/predicates.cxx
+++ b/lib/tetgen/predicates.cxx
@@ -702,29 +702,29 @@ int expansion_sum_zeroelim2(int elen, REAL *e, int flen, REAL *f, REAL *h)
 //  eindex = findex = 0;
 //  if ((fnow > enow) == (fnow > -enow)) {
 //    Q = enow;
-//    enow = e[++eindex];
+//    enow = ++eindex < elen ? e[eindex] : 0.0;
 //  } else {
 //    Q = fnow;
-//    fnow = f[++findex];
+//    fnow = ++findex < flen ? f[findex] : 0.0;
 //  }
 //  hindex = 0;
 //  if ((eindex < elen) && (findex < flen)) {
 //    if ((fnow > enow) == (fnow > -enow)) {
 //      Fast_Two_Sum(enow, Q, Qnew, h[0]);
-//      enow = e[++eindex];
+//      enow = ++eindex < elen ? e[eindex] : 0.0;
 //    } else {
 //      Fast_Two_Sum(fnow, Q, Qnew, h[0]);
-//      fnow = f[++findex];
+//      fnow = ++findex < flen ? f[findex] : 0.0;
 //    }
 //    Q = Qnew;
 //    hindex = 1;
 //    while ((eindex < elen) && (findex < flen)) {
 //      if ((fnow > enow) == (fnow > -enow)) {
 //        Two_Sum(Q, enow, Qnew, h[hindex]);
-//        enow = e[++eindex];
+//        enow = ++eindex < elen ? e[eindex] : 0.0;
 //      } else {
 //        Two_Sum(Q, fnow, Qnew, h[hindex]);
-//        fnow = f[++findex];
+//        fnow = ++findex < flen ? f[findex] : 0.0;
 //      }
 //      Q = Qnew;
 //      hindex++;
@@ -732,13 +732,13 @@ int expansion_sum_zeroelim2(int elen, REAL *e, int flen, REAL *f, REAL *h)
 //  }
 //  while (eindex < elen) {
 //    Two_Sum(Q, enow, Qnew, h[hindex]);
-//    enow = e[++eindex];
+//    enow = ++eindex < elen ? e[eindex] : 0.0;
 //    Q = Qnew;
 //    hindex++;
 //  }
 //  while (findex < flen) {
 //    Two_Sum(Q, fnow, Qnew, h[hindex]);
-//    fnow = f[++findex];
+//    fnow = ++findex < flen ? f[findex] : 0.0;
 //    Q = Qnew;
 //    hindex++;
 //  }
@@ -776,19 +776,19 @@ int fast_expansion_sum_zeroelim(int elen, REAL *e, int flen, REAL *f, REAL *h)
   eindex = findex = 0;
   if ((fnow > enow) == (fnow > -enow)) {
     Q = enow;
-    enow = e[++eindex];
+    enow = ++eindex < elen ? e[eindex] : 0.0;
   } else {
     Q = fnow;
-    fnow = f[++findex];
+    fnow = ++findex < flen ? f[findex] : 0.0;
   }
   hindex = 0;
   if ((eindex < elen) && (findex < flen)) {
     if ((fnow > enow) == (fnow > -enow)) {
       Fast_Two_Sum(enow, Q, Qnew, hh);
-      enow = e[++eindex];
+      enow = ++eindex < elen ? e[eindex] : 0.0;
     } else {
       Fast_Two_Sum(fnow, Q, Qnew, hh);
-      fnow = f[++findex];
+      fnow = ++findex < flen ? f[findex] : 0.0;
     }
     Q = Qnew;
     if (hh != 0.0) {
@@ -797,10 +797,10 @@ int fast_expansion_sum_zeroelim(int elen, REAL *e, int flen, REAL *f, REAL *h)
     while ((eindex < elen) && (findex < flen)) {
       if ((fnow > enow) == (fnow > -enow)) {
         Two_Sum(Q, enow, Qnew, hh);
-        enow = e[++eindex];
+        enow = ++eindex < elen ? e[eindex] : 0.0;
       } else {
         Two_Sum(Q, fnow, Qnew, hh);
-        fnow = f[++findex];
+        fnow = ++findex < flen ? f[findex] : 0.0;
       }
       Q = Qnew;
       if (hh != 0.0) {
@@ -810,7 +810,7 @@ int fast_expansion_sum_zeroelim(int elen, REAL *e, int flen, REAL *f, REAL *h)
   }
   while (eindex < elen) {
     Two_Sum(Q, enow, Qnew, hh);
-    enow = e[++eindex];
+    enow = ++eindex < elen ? e[eindex] : 0.0;
     Q = Qnew;
     if (hh != 0.0) {
       h[hindex++] = hh;
@@ -818,7 +818,7 @@ int fast_expansion_sum_zeroelim(int elen, REAL *e, int flen, REAL *f, REAL *h)
   }
   while (findex < flen) {
     Two_Sum(Q, fnow, Qnew, hh);
-    fnow = f[++findex];
+    fnow = ++findex < flen ? f[findex] : 0.0;
     Q = Qnew;
     if (hh != 0.0) {
       h[hindex++] = hh;
@@ -858,28 +858,28 @@ int linear_expansion_sum(int elen, REAL *e, int flen, REAL *f, REAL *h)
   eindex = findex = 0;
   if ((fnow > enow) == (fnow > -enow)) {
     g0 = enow;
-    enow = e[++eindex];
+    enow = ++eindex < elen ? e[eindex] : 0.0;
   } else {
     g0 = fnow;
-    fnow = f[++findex];
+    fnow = ++findex < flen ? f[findex] : 0.0;
   }
   if ((eindex < elen) && ((findex >= flen)
                           || ((fnow > enow) == (fnow > -enow)))) {
     Fast_Two_Sum(enow, g0, Qnew, q);
-    enow = e[++eindex];
+    enow = ++eindex < elen ? e[eindex] : 0.0;
   } else {
     Fast_Two_Sum(fnow, g0, Qnew, q);
-    fnow = f[++findex];
+    fnow = ++findex < flen ? f[findex] : 0.0;
   }
   Q = Qnew;
   for (hindex = 0; hindex < elen + flen - 2; hindex++) {
     if ((eindex < elen) && ((findex >= flen)
                             || ((fnow > enow) == (fnow > -enow)))) {
       Fast_Two_Sum(enow, q, R, h[hindex]);
-      enow = e[++eindex];
+      enow = ++eindex < elen ? e[eindex] : 0.0;
     } else {
       Fast_Two_Sum(fnow, q, R, h[hindex]);
-      fnow = f[++findex];
+      fnow = ++findex < flen ? f[findex] : 0.0;
     }
     Two_Sum(Q, R, Qnew, q);
     Q = Qnew;
@@ -921,28 +921,28 @@ int linear_expansion_sum_zeroelim(int elen, REAL *e, int flen, REAL *f,
   hindex = 0;
   if ((fnow > enow) == (fnow > -enow)) {
     g0 = enow;
-    enow = e[++eindex];
+    enow = ++eindex < elen ? e[eindex] : 0.0;
   } else {
     g0 = fnow;
-    fnow = f[++findex];
+    fnow = ++findex < flen ? f[findex] : 0.0;
   }
   if ((eindex < elen) && ((findex >= flen)
                           || ((fnow > enow) == (fnow > -enow)))) {
     Fast_Two_Sum(enow, g0, Qnew, q);
-    enow = e[++eindex];
+    enow = ++eindex < elen ? e[eindex] : 0.0;
   } else {
     Fast_Two_Sum(fnow, g0, Qnew, q);
-    fnow = f[++findex];
+    fnow = ++findex < flen ? f[findex] : 0.0;
   }
   Q = Qnew;
   for (count = 2; count < elen + flen; count++) {
     if ((eindex < elen) && ((findex >= flen)
                             || ((fnow > enow) == (fnow > -enow)))) {
       Fast_Two_Sum(enow, q, R, hh);
-      enow = e[++eindex];
+      enow = ++eindex < elen ? e[eindex] : 0.0;
     } else {
       Fast_Two_Sum(fnow, q, R, hh);
-      fnow = f[++findex];
+      fnow = ++findex < flen ? f[findex] : 0.0;
     }
     Two_Sum(Q, R, Qnew, q);
     Q = Qnew;
-- 
2.43.0


From 0411b0be2b5eb040713a410cd77486fd8645a425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:40 +0000
Subject: [PATCH 096/104] fix: Values and wave vectors which have no integer
 part are refused (C26)

---
 src/array.hpp   | 4 +++-
 src/array.tpp   | 7 ++++++-
 src/array2.hpp  | 2 ++
 src/array2.tpp  | 7 ++++++-
 src/bz_move.cpp | 3 +++
 5 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/array.hpp b/src/array.hpp
index ad44607..1eb427e 100644
--- a/src/array.hpp
+++ b/src/array.hpp
@@ -20,7 +20,9 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 */
 #ifndef BRILLE_ARRAY_HPP_
 #define BRILLE_ARRAY_HPP_
-// #include <functional>
+// #include <limits>
+#include <stdexcept>
+#include <functional>
 // #include <algorithm>
 // #include <numeric>
 // #include <vector>
diff --git a/src/array.tpp b/src/array.tpp
index 17e0b7d..224a74c 100644
--- a/src/array.tpp
+++ b/src/array.tpp
@@ -506,7 +506,12 @@ Array<int>\
 Array<T>:: X () const {\
   Array<int> out(_shape, this->calculate_stride(_shape));\
   for (auto x: SubIt(out.shape()))\
-    out[x] = static_cast<int>(std:: X (_data[this->s2l_d(x)]));\
+  {\
+    const auto v = std:: X (_data[this->s2l_d(x)]);\
+    if (!(v >= (std::numeric_limits<int>::min)() && v <= (std::numeric_limits<int>::max)()))\
+      throw std::overflow_error("A value is not representable as an integer");\
+    out[x] = static_cast<int>(v);\
+  }\
   return out;\
 }
 ARRAY_ELEMENTWISE_INT_TRANSFORM(round)
diff --git a/src/array2.hpp b/src/array2.hpp
index bc2639f..0254019 100644
--- a/src/array2.hpp
+++ b/src/array2.hpp
@@ -21,6 +21,8 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
 */
 #ifndef BRILLE_ARRAY2_HPP
 #define BRILLE_ARRAY2_HPP
+#include <limits>
+#include <stdexcept>
 #include <memory>
 #include <atomic>
 #include "subscript.hpp"
diff --git a/src/array2.tpp b/src/array2.tpp
index 99f0017..f6f3247 100644
--- a/src/array2.tpp
+++ b/src/array2.tpp
@@ -499,7 +499,12 @@ Array2<int>\
 Array2<T>:: X () const {\
   Array2<int> out(_shape, this->calculate_stride(_shape));\
   for (auto x: out.subItr())\
-    out[x] = static_cast<int>(std:: X (_data[this->s2l_d(x)]));\
+  {\
+    const auto v = std:: X (_data[this->s2l_d(x)]);\
+    if (!(v >= (std::numeric_limits<int>::min)() && v <= (std::numeric_limits<int>::max)()))\
+      throw std::overflow_error("A value is not representable as an integer");\
+    out[x] = static_cast<int>(v);\
+  }\
   return out;\
 }
 ARRAY_ELEMENTWISE_INT_TRANSFORM(round)
diff --git a/src/bz_move.cpp b/src/bz_move.cpp
index af27ec6..c716574 100644
--- a/src/bz_move.cpp
+++ b/src/bz_move.cpp
@@ -21,6 +21,9 @@ part_moveinto_prim(const LVec<double> & Q, const LVec<double> & normals,
   // every shift shortens q but many can be needed for a far from reduced lattice
   // basis since the first is to the nearest integer multiples of its vectors
   auto max_count = 1000 * taus.size(0);
+  // only points which are finite and not too far away differ from a point in the zone by integers
+  if (Q.size(0) && !abs(Q).all(brille::cmp::le, 1e9))
+    throw std::overflow_error("A point is too far from the first Brillouin zone to be moved into it");
   // the components of the dot product with a lattice basis that is far from
   // orthogonal can cancel, so decide which shift to make in an orthonormal frame
   const auto xyz_normals = normals.xyz();
-- 
2.43.0


From 8bb6529e777aebf1896b433890c340d8a67006e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:40 +0000
Subject: [PATCH 097/104] fix: Data which is refused does not leave values and
 vectors of different sizes (C26)

---
 src/interpolatordual.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/interpolatordual.hpp b/src/interpolatordual.hpp
index 50bdca0..091e3c5 100644
--- a/src/interpolatordual.hpp
+++ b/src/interpolatordual.hpp
@@ -195,13 +195,17 @@ public:
   }
   //! Replace only the eigenvalue data, possibly producing faked eigenvector data
   template<typename... A> void replace_value_data(A... args) {
-    values_.replace_data(args...);
+    auto replaced = values_; // the data held stays as it was if it can not be replaced
+    replaced.replace_data(args...);
+    values_ = std::move(replaced);
     this->validate_vectors();
     this->update_permutation_table();
   }
   //! Replace only the eigenvector data, possibly producing faked eigenvalue data
   template<typename... A> void replace_vector_data(A... args) {
-    vectors_.replace_data(args...);
+    auto replaced = vectors_; // the data held stays as it was if it can not be replaced
+    replaced.replace_data(args...);
+    vectors_ = std::move(replaced);
     this->validate_values();
     this->update_permutation_table();
   }
-- 
2.43.0


From 75f9774b46e54af05891eaca22b3e5b05ec50d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:40 +0000
Subject: [PATCH 098/104] fix: Sorting data without finite costs is refused as
 an ordinary error (C26)

---
 src/interpolatordual.hpp |  7 +++++--
 src/permutation.hpp      | 12 +++++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/interpolatordual.hpp b/src/interpolatordual.hpp
index 091e3c5..25dec57 100644
--- a/src/interpolatordual.hpp
+++ b/src/interpolatordual.hpp
@@ -20,6 +20,7 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
     \author Greg Tucker
     \brief A class to hold two related Interpolator objects
 */
+#include "thread_exception.h"
 #include "interpolator.hpp"
 namespace brille {
 /*! \brief A class to hold two Interpolator objects related to the same
@@ -416,11 +417,13 @@ DualInterpolator<T,R>::sort(){
   // now find the permutations in parallel
   std::mutex m;
   auto nok = brille::utils::u2s<long long, size_t>(tri_ij.size());
-  #pragma omp parallel for default(none) shared(tri_ij, m, nok)
+  ThreadException except; // an exception must not leave the parallel region
+  #pragma omp parallel for default(none) shared(tri_ij, m, nok, except)
   for (long long sk=0; sk<nok; ++sk){
     auto k = brille::utils::s2u<size_t, long long>(sk);
-    this->determine_permutation_ij(tri_ij[k][0], tri_ij[k][1], m);
+    except.run([&]{ this->determine_permutation_ij(tri_ij[k][0], tri_ij[k][1], m); });
   }
+  except.rethrow();
   debug_update("Done");
 }
 
diff --git a/src/permutation.hpp b/src/permutation.hpp
index de7b9ee..579ed9b 100644
--- a/src/permutation.hpp
+++ b/src/permutation.hpp
@@ -23,7 +23,9 @@ along with brille. If not, see <https://www.gnu.org/licenses/>.            */
     \author Greg Tucker
     \brief Various functions finding optimal permutation vectors given a cost matrix
 */
-// #include <complex>
+// #include <cmath>
+#include <stdexcept>
+#include <complex>
 #include <cstdint>
 #include "array_.hpp" // defines bArray
 #include "sorting_status.hpp"
@@ -552,6 +554,11 @@ delete[] colsol;
 return true;
 }
 
+//! Without finite costs the assignment problem has no solution and its solver no end
+template<class T> void require_finite_costs(const std::vector<T>& cost){
+  for (const auto & c: cost) if (!std::isfinite(static_cast<double>(c)))
+    throw std::runtime_error("A cost which is not finite can not be assigned");
+}
 /*! \brief Use Junker-Volgenant algorithm to determine a permutation from a cost matrix
 
 @param cost A square matrix held in a std::vector of the costs for each assignment
@@ -564,6 +571,7 @@ std::vector<I> jv_permutation(const std::vector<T>& cost){
   std::vector<T> usol(Nobj,T(0)), vsol(Nobj,T(0));
   std::vector<I> rows(Nobj,I(0)), cols(Nobj,I(0));
 
+  require_finite_costs(cost);
   brille::assignment::lapjv(Nobj, cost.data(), false, rows.data(), cols.data(), usol.data(), vsol.data());
   return rows;
 }
@@ -587,6 +595,7 @@ bool jv_permutation_fill(const std::vector<T>& cost, std::vector<I>& row){
   std::vector<T> u(Nobj,T(0)), v(Nobj,T(0));
   std::vector<I> col(Nobj,0);
   row.resize(Nobj);
+  require_finite_costs(cost);
   brille::assignment::lapjv(Nobj, cost.data(), false, row.data(), col.data(), u.data(), v.data());
   return true;
 }
@@ -604,6 +613,7 @@ bool jv_permutation_fill(const std::vector<T>& cost, std::vector<I>& row, std::v
   std::vector<T> u(Nobj,T(0)), v(Nobj,T(0));
   row.resize(Nobj);
   col.resize(Nobj);
+  require_finite_costs(cost);
   brille::assignment::lapjv(Nobj, cost.data(), false, row.data(), col.data(), u.data(), v.data());
   return true;
 }
-- 
2.43.0


From ba24b64e5437d66b9bf6c496f25eb7e2cd7f63b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:40 +0000
Subject: [PATCH 099/104] fix: A polyhedron without faces has no edges (C26)

---
 src/polyhedron_faces.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/polyhedron_faces.cpp b/src/polyhedron_faces.cpp
index cab1ee8..40cac28 100644
--- a/src/polyhedron_faces.cpp
+++ b/src/polyhedron_faces.cpp
@@ -63,6 +63,7 @@ bool Faces::operator!=(const Faces& that) const {
   ind_t n_vert{0};
   for (const auto & face: _faces) for (const auto & v: face) if(known.count(v) == 0) known[v] = n_vert++;
   assert(known.size() == n_vert);
+  if (_faces.empty()) return {0u, 2u};
   size_t edge_count = _faces.size() + known.size() - 2u;
   Array2<ind_t> edges(static_cast<ind_t>(edge_count), 2u);
 //  auto add_to_no = [](const size_t & x, const std::vector<ind_t>& v){return x + v.size();};
-- 
2.43.0


From f22b6bfe6aa6fe01c47e0fe7ea05674b339f6f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:53 +0000
Subject: [PATCH 100/104] fix: Generating operations which form no group stops
 before their matrices overflow (C26)

---
 src/symmetry.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/symmetry.cpp b/src/symmetry.cpp
index 232434a..af45cd8 100644
--- a/src/symmetry.cpp
+++ b/src/symmetry.cpp
@@ -14,6 +14,7 @@ See the GNU Affero General Public License for more details.
 
 You should have received a copy of the GNU Affero General Public License
 along with brille. If not, see <https://www.gnu.org/licenses/>.            */
+#include <cstdlib>
 #include <cstring>
 #include <string>
 #include <sstream>
@@ -137,10 +138,13 @@ Symmetry Symmetry::generate() const {
       // for each of {W,w}, {W²,Ww+w}, {W³,W²w+Ww+w}, …
       for (int count=this->order(i); count--;) /* loop runs count times */ {
         x = getm(i)*x;
+        // no power of a motion of finite order grows, so these generate no group
+        for (const auto & entry: x.getr()) if (std::abs(entry) > 10000) return gen;
         // multiply {Wⁱ,Wⁱ⁻¹w+…} by the motions in gen
         gensize = gen.size(); // only multiply against pre-existing motions
         for (size_t j=0; j<gensize; ++j){
           auto y = x * gen.getm(j);
+          for (const auto & entry: y.getr()) if (std::abs(entry) > 10000) return gen;
           // add missing motions to gen
           if (!gen.has(y)) gen.add(y);
         }
-- 
2.43.0


From 9e44947e6a9e4dfa0c3cfad7701ddae3cddb9d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:58 +0000
Subject: [PATCH 101/104] fix: Sorting a grid which holds no data is not a
 division by zero (C26)

---
 src/interpolatordual.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/interpolatordual.hpp b/src/interpolatordual.hpp
index 25dec57..22b2f60 100644
--- a/src/interpolatordual.hpp
+++ b/src/interpolatordual.hpp
@@ -408,6 +408,7 @@ DualInterpolator<T,R>::sort(){
   std::vector<std::array<ind_t,2>> tri_ij;
   tri_ij.reserve(keys.size()/2);
   ind_t no = this->size();
+  if (no < 1u) return; // without data there is nothing to sort
   for (const auto & key: keys){
     auto i = static_cast<ind_t>(key/no);
     if (static_cast<size_t>(i)*static_cast<size_t>(no+1) < key)
-- 
2.43.0


From b683235019580ffd73195b60a3fd7e36ee5ef238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:58 +0000
Subject: [PATCH 102/104] fix: Interpolating data which is short of vertices is
 refused (C26)

---
 src/mesh.hpp         | 2 ++
 src/nest.hpp         | 2 ++
 src/trellis_poly.hpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/mesh.hpp b/src/mesh.hpp
index ed6c253..c72fbbb 100644
--- a/src/mesh.hpp
+++ b/src/mesh.hpp
@@ -133,6 +133,8 @@ public:
     unsigned int mask = 0u;
     if (data_.size()==0)
       throw std::runtime_error("The interpolation data must be filled before interpolating.");
+    if (data_.size() < this->vertex_count())
+      throw std::runtime_error("The interpolation data must have an entry for every vertex.");
     if (x.ndim()!=2 || x.size(1)!=3u)
       throw std::runtime_error("Only (n,3) two-dimensional Q vectors supported in interpolating.");
     if (x.stride().back()!=1)
diff --git a/src/nest.hpp b/src/nest.hpp
index fb7ead1..56005fb 100644
--- a/src/nest.hpp
+++ b/src/nest.hpp
@@ -360,6 +360,8 @@ public:
     unsigned int mask = 0u;
     if (data_.size()==0)
       throw std::runtime_error("The interpolation data must be filled before interpolating.");
+    if (data_.size() < this->vertex_count())
+      throw std::runtime_error("The interpolation data must have an entry for every vertex.");
     if (x.ndim()!=2 || x.size(1)!=3u)
       throw std::runtime_error("Only (n,3) two-dimensional Q vectors supported in interpolating.");
     if (x.stride().back()!=1)
diff --git a/src/trellis_poly.hpp b/src/trellis_poly.hpp
index 85a5fa7..21ef68e 100644
--- a/src/trellis_poly.hpp
+++ b/src/trellis_poly.hpp
@@ -260,6 +260,8 @@ public:
     unsigned int mask = 0u;
     if (data_.size()==0)
       throw std::runtime_error("The interpolation data must be filled before interpolating.");
+    if (data_.size() < this->vertex_count())
+      throw std::runtime_error("The interpolation data must have an entry for every vertex.");
     if (x.ndim()!=2 || x.size(1)!=3u)
       throw std::runtime_error("Only (n,3) two-dimensional Q vectors supported in interpolating.");
     if (x.stride().back()!=1)
-- 
2.43.0


From 885e35799ea01a7eaf8b8aa6398ab45e99500be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:58 +0000
Subject: [PATCH 103/104] fix: Faked values are zeros instead of whatever was
 in memory (C26)

---
 src/interpolator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolator.hpp b/src/interpolator.hpp
index 12a40d2..f5badca 100644
--- a/src/interpolator.hpp
+++ b/src/interpolator.hpp
@@ -211,7 +211,7 @@ public:
         fake dataset for the second Interpolator.
   */
   void setup_fake(const ind_t sz, const ind_t br){
-    data_ = bArray<T>(sz, br);
+    data_ = bArray<T>(sz, br, T(0)); // nothing else gives them values
     shape_ = {sz, br};
     _elements = {1u,0u,0u};
   }
-- 
2.43.0


From 19da05a865f4c799385aef9d06e32cc2504221e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:19 +0000
Subject: [PATCH 104/104] fix: The order and group of operations which form
 none are found without overflow (C26)

---
 src/symmetry.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/symmetry.cpp b/src/symmetry.cpp
index af45cd8..382a8ef 100644
--- a/src/symmetry.cpp
+++ b/src/symmetry.cpp
@@ -115,6 +115,9 @@ int Symmetry::order(const size_t i) const {
     // info_update(t.getr());
     // info_update("|",t.gett(),"}");
     t = getm(i)*t;
+    // no power of a motion of finite order grows
+    const auto r = t.getr();
+    if (std::any_of(r.begin(), r.end(), [](const int x){return std::abs(x) > 10000;})) ord = 9;
   }
   info_update_if(t!=e,"Order not found for Motion {\n",this->getr(i),"|\n",this->gett(i),"\n}");
   return ord;
@@ -145,6 +148,7 @@ Symmetry Symmetry::generate() const {
         for (size_t j=0; j<gensize; ++j){
           auto y = x * gen.getm(j);
           for (const auto & entry: y.getr()) if (std::abs(entry) > 10000) return gen;
+          if (gen.size() > most) return gen;
           // add missing motions to gen
           if (!gen.has(y)) gen.add(y);
         }
-- 
2.43.0

