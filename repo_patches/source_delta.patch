From cec4a33d28a63b448e11c2c395286ca43de9fd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:23 +0000
Subject: [PATCH 1/7] fix: ell parallel cut no longer divides 0/0 when beta0 ==
 -beta1 or beta1 == 0

---
 lib/src/ell.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/ell.cpp b/lib/src/ell.cpp
index 7f57f1f..fdfcda3 100644
--- a/lib/src/ell.cpp
+++ b/lib/src/ell.cpp
@@ -50,8 +50,9 @@ auto ell::_calc_ll_core(const double& b0, const double& b1) -> CUTStatus
     const auto bav = bsum / 2.;
     const auto tempn = this->_halfN * bsumn * bdiff;
     const auto xi = std::sqrt(t0n * t1n + tempn * tempn);
-    this->_sigma =
-        this->_c3 + (1. + b0b1n - xi) / (bsumn * bav) / this->_nPlus1;
+    const auto temp2n = this->_halfN * bdiff;
+    this->_sigma = this->_c3 +
+        this->_c2 * (1. - temp2n * (temp2n / this->_tsq)) / (1. + b0b1n + xi);
     this->_rho = this->_sigma * bav;
     this->_delta = this->_c1 * ((t0n + t1n) / 2. + xi / this->_nFloat);
     return CUTStatus::success;
@@ -68,7 +69,8 @@ void ell::_calc_ll_cc(const double& b1, const double& b1sqn)
 {
     const auto temp = this->_halfN * b1sqn;
     const auto xi = std::sqrt(1. - b1sqn + temp * temp);
-    this->_sigma = this->_c3 + this->_c2 * (1. - xi) / b1sqn;
+    this->_sigma =
+        this->_c3 + this->_c2 * (1. - this->_halfN * temp) / (1. + xi);
     this->_rho = this->_sigma * b1 / 2;
     this->_delta = this->_c1 * (1. - b1sqn / 2. + xi / this->_nFloat);
 }
-- 
2.43.0


From 27c0380162c1e9270625c991ab3832ed215426e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:23 +0000
Subject: [PATCH 2/7] fix: qmi_oracle takes F_k's columns, as it does for F0,
 in the gradient

---
 lib/src/qmi_oracle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/qmi_oracle.cpp b/lib/src/qmi_oracle.cpp
index 79b7285..ea64231 100644
--- a/lib/src/qmi_oracle.cpp
+++ b/lib/src/qmi_oracle.cpp
@@ -53,7 +53,8 @@ std::optional<Cut> qmi_oracle::operator()(const Arr& x)
     auto g = zeros({this->_nx});
     for (auto k = 0U; k != this->_nx; ++k)
     {
-        const auto Fkp = ROW(this->_F[k], xt::range(start, stop));
+        const auto Fkp = Arr {
+            xt::transpose(COLUMN(this->_F[k], xt::range(start, stop)))};
         g(k) = -2 * dot(dot(v, Fkp), Av)();
     }
     return {{std::move(g), ep}};
-- 
2.43.0


From 034e889073ffd0df00cd515da799315ec9204cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:23 +0000
Subject: [PATCH 3/7] fix: Fraction keeps its denominator positive; gcd and lcm
 do not narrow to int

---
 lib/include/py2cpp/fractions.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/include/py2cpp/fractions.hpp b/lib/include/py2cpp/fractions.hpp
index c3686e5..b092f17 100644
--- a/lib/include/py2cpp/fractions.hpp
+++ b/lib/include/py2cpp/fractions.hpp
@@ -7,6 +7,7 @@
 
 #include <boost/operators.hpp>
 #include <cmath>
+#include <cstdlib>
 #include <numeric>
 #include <type_traits>
 
@@ -24,6 +25,7 @@ namespace fun
 template <typename Mn>
 constexpr auto gcd(Mn _m, Mn _n) -> Mn
 {
+    using std::abs; // not only ::abs(int)
     return _m == 0 ? abs(_n) : _n == 0 ? abs(_m) : gcd(_n, _m % _n);
 }
 
@@ -38,6 +40,7 @@ constexpr auto gcd(Mn _m, Mn _n) -> Mn
 template <typename Mn>
 constexpr auto lcm(Mn _m, Mn _n) -> Mn
 {
+    using std::abs; // not only ::abs(int)
     return (_m != 0 && _n != 0) ? (abs(_m) / gcd(_m, _n)) * abs(_n) : 0;
 }
 
@@ -79,15 +82,15 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
     constexpr void normalize()
     {
         auto common = gcd(this->_numerator, this->_denominator);
-        if (common == Z(1))
-        {
-            return;
-        }
         // if (common == Z(0)) [[unlikely]] return; // both num and den are zero
         if (this->_denominator < Z(0))
         {
             common = -common;
         }
+        if (common == Z(1))
+        {
+            return;
+        }
         this->_numerator /= common;
         this->_denominator /= common;
     }
@@ -151,6 +154,11 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
     constexpr void reciprocal()
     {
         std::swap(_numerator, _denominator);
+        if (this->_denominator < Z(0)) // keep the denominator positive
+        {
+            this->_numerator = -this->_numerator;
+            this->_denominator = -this->_denominator;
+        }
     }
 
     /*!
@@ -379,6 +387,11 @@ struct Fraction : boost::totally_ordered<Fraction<Z>,
             this->_denominator *= (i / common);
             this->_numerator /= common;
         }
+        if (this->_denominator < Z(0)) // keep the denominator positive
+        {
+            this->_numerator = -this->_numerator;
+            this->_denominator = -this->_denominator;
+        }
         return *this;
     }
 
-- 
2.43.0


From 62ff72db49ae5cbb857a41685af82fb44452ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:23 +0000
Subject: [PATCH 4/7] fix: csd picks the leading digit for 2/3 < |x| < 1;
 to_csdfixed terminates

---
 lib/src/csd.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/src/csd.cpp b/lib/src/csd.cpp
index 86f9775..e192839 100644
--- a/lib/src/csd.cpp
+++ b/lib/src/csd.cpp
@@ -22,8 +22,8 @@ auto to_csd(double num, int places = 0) noexcept -> string
         return "0";
     }
     auto absnum = fabs(num);
-    auto n = absnum < 1. ? 0 : int(ceil(log2(absnum * 1.5)));
-    auto csd_str = string {absnum < 1. ? "0" : ""};
+    auto n = absnum * 1.5 <= 1. ? 0 : int(ceil(log2(absnum * 1.5)));
+    auto csd_str = string {n == 0 ? "0" : ""};
     auto limit = pow(2., n) / 3.;
     while (n > -places)
     {
@@ -108,11 +108,15 @@ auto to_csdfixed(double num, unsigned int nnz = 4) noexcept -> string
         return "0";
     }
     auto an = fabs(num);
-    auto n = an < 1. ? 0 : int(ceil(log2(an * 1.5)));
-    auto csd_str = string {an < 1. ? "0" : ""};
+    auto n = an * 1.5 <= 1. ? 0 : int(ceil(log2(an * 1.5)));
+    auto csd_str = string {n == 0 ? "0" : ""};
     auto limit = pow(2., n) / 3.;
-    while (n > 0 || nnz > 0)
+    while (n > 0 || (nnz > 0 && num != 0.))
     {
+        if (nnz == 0)
+        {
+            num = 0;
+        }
         if (n == 0)
         {
             csd_str += '.';
@@ -135,10 +139,6 @@ auto to_csdfixed(double num, unsigned int nnz = 4) noexcept -> string
             csd_str += '0';
         }
         limit /= 2.;
-        if (nnz == 0)
-        {
-            num = 0;
-        }
     }
     return csd_str;
 }
-- 
2.43.0


From de19fe3e21b7ea95317ba28dae89353980d769e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:23 +0000
Subject: [PATCH 5/7] fix: cutting-plane methods stop at once for max_it == 0

---
 lib/include/ellcpp/cutting_plane.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/ellcpp/cutting_plane.hpp b/lib/include/ellcpp/cutting_plane.hpp
index 56d5bc9..a309aab 100644
--- a/lib/include/ellcpp/cutting_plane.hpp
+++ b/lib/include/ellcpp/cutting_plane.hpp
@@ -39,7 +39,7 @@ auto cutting_plane_feas(
     auto status = CUTStatus::success;
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         const auto cut = Omega(S.xc()); // query the oracle at S.xc()
         if (!cut)
@@ -83,7 +83,7 @@ auto cutting_plane_dc(
     auto status = CUTStatus::success;
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         const auto [cut, shrunk] = Omega(S.xc(), t);
         if (shrunk)
@@ -143,7 +143,7 @@ auto cutting_plane_q(
     auto status = CUTStatus::nosoln; // note!!!
 
     auto niter = 0U;
-    while (++niter != options.max_it)
+    while (++niter < options.max_it)
     {
         auto retry = (status == CUTStatus::noeffect);
         const auto [cut, x0, shrunk, more_alt] = Omega(S.xc(), t, retry);
-- 
2.43.0


From 96392e64069a3caf878699715c1d516c46c915d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:23 +0000
Subject: [PATCH 6/7] fix: cutting_plane_q reports and acts on the status of
 the last update

---
 lib/include/ellcpp/cutting_plane.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/ellcpp/cutting_plane.hpp b/lib/include/ellcpp/cutting_plane.hpp
index a309aab..cbfcd6d 100644
--- a/lib/include/ellcpp/cutting_plane.hpp
+++ b/lib/include/ellcpp/cutting_plane.hpp
@@ -153,6 +153,7 @@ auto cutting_plane_q(
             x_best = x0;
         }
         const auto [cutstatus, tsq] = S.update(cut);
+        status = cutstatus;
         if (cutstatus == CUTStatus::noeffect)
         {
             if (!more_alt)
@@ -162,7 +163,6 @@ auto cutting_plane_q(
         }
         if (cutstatus == CUTStatus::nosoln)
         {
-            status = cutstatus;
             break;
         }
         if (tsq < options.tol)
-- 
2.43.0


From cf2d40752e251902293d576590953dff7547b2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:30 +0000
Subject: [PATCH 7/7] fix: ell_stable divided by zero for a cut that just
 reaches the no-effect limit (sigma 0)

---
 lib/src/ell_stable.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/src/ell_stable.cpp b/lib/src/ell_stable.cpp
index 8ba9199..987ebe9 100644
--- a/lib/src/ell_stable.cpp
+++ b/lib/src/ell_stable.cpp
@@ -71,17 +71,18 @@ auto ell_stable::update(const std::tuple<Arr, T>& cut) -> std::tuple<CUTStatus,
 
     // rank-one update: 3*n + (n-1)*n/2
     // const auto r = this->_sigma / omega;
-    const auto mu = this->_sigma / (1. - this->_sigma);
-    auto oldt = omega / mu; // initially
+    // (t is scaled by sigma, which may be zero)
+    const auto sigma = this->_sigma;
+    auto oldt = (1. - sigma) * omega; // initially
     const auto m = this->_n - 1;
     for (auto j = 0; j != m; ++j)
     {
         // p=sqrt(k)*vv(j);
         // const auto p = invLg(j);
         // const auto mup = mu * p;
-        const auto t = oldt + gQg(j);
+        const auto t = oldt + sigma * gQg(j);
         // this->_Q(j, j) /= t; // update invD
-        const auto beta2 = invDinvLg(j) / t;
+        const auto beta2 = sigma * invDinvLg(j) / t;
         this->_Q(j, j) *= oldt / t; // update invD
         for (auto l = j + 1; l != this->_n; ++l)
         {
@@ -93,7 +94,7 @@ auto ell_stable::update(const std::tuple<Arr, T>& cut) -> std::tuple<CUTStatus,
 
     // const auto p = invLg(n1);
     // const auto mup = mu * p;
-    const auto t = oldt + gQg(m);
+    const auto t = oldt + sigma * gQg(m);
     this->_Q(m, m) *= oldt / t; // update invD
 
 
-- 
2.43.0

