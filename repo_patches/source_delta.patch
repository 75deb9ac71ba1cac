From e62268d133813a649c2fe90fc3fa170b9930b52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 01/26] fix: declare decoration::is_valid inline so that the
 header can be used in several translation units

---
 p1788/decoration/decoration.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p1788/decoration/decoration.hpp b/p1788/decoration/decoration.hpp
index 8f18f59..502a9e6 100644
--- a/p1788/decoration/decoration.hpp
+++ b/p1788/decoration/decoration.hpp
@@ -64,7 +64,7 @@ enum class decoration : uint8_t
 
 
 
-bool is_valid(decoration dec)
+inline bool is_valid(decoration dec)
 {
     switch(dec)
     {
-- 
2.43.0


From 7f82fd767045959d6595194768cccb30ea21ad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:52 +0000
Subject: [PATCH 02/26] fix: tan must not miss a pole when the width of the
 operand is just below pi

---
 ...mpfr_bin_ieee754_flavor_elem_func_impl.hpp | 31 +++++++------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp
index 14166f8..1fee681 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_elem_func_impl.hpp
@@ -2613,12 +2613,19 @@ mpfr_bin_ieee754_flavor<T>::tan(mpfr_bin_ieee754_flavor<T>::representation const
     if (mpfr_cmp(w(), pi()) > 0)
         return entire();
 
+    mpfr_var tl;
+    tl.subnormalize(mpfr_tan(tl(), xl(), MPFR_RNDU), MPFR_RNDU);
+
     xl.subnormalize(mpfr_tan(xl(), xl(), MPFR_RNDD), MPFR_RNDD);
     xu.subnormalize(mpfr_tan(xu(), xu(), MPFR_RNDU), MPFR_RNDU);
 
     if (mpfr_cmp(xl(), xu()) > 0)
         return entire();
 
+    // If the width is close to pi then the outward rounded values do not reveal that there is a pole in between
+    if (mpfr_cmp_ui(w(), 1) > 0 && mpfr_cmp(tl(), xu()) >= 0)
+        return entire();
+
     return representation(xl.template get<T>(MPFR_RNDD), xu.template get<T>(MPFR_RNDU));
 }
 
@@ -2658,27 +2665,13 @@ mpfr_bin_ieee754_flavor<T>::tan(mpfr_bin_ieee754_flavor<T>::representation_dec c
     if (is_empty(x))
         return empty_dec();
 
-    mpfr_var::setup();
-
-    mpfr_var xl(x.first.first, MPFR_RNDD);
-    mpfr_var xu(x.first.second, MPFR_RNDU);
-
-    mpfr_var pi;
-    mpfr_const_pi(pi(), MPFR_RNDD);
-
-    mpfr_var w;
-    mpfr_sub(w(), xu(), xl(), MPFR_RNDU);
-
-    if (mpfr_cmp(w(), pi()) > 0)
-        return representation_dec(entire(), p1788::decoration::decoration::trv);
-
-    xl.subnormalize(mpfr_tan(xl(), xl(), MPFR_RNDD), MPFR_RNDD);
-    xu.subnormalize(mpfr_tan(xu(), xu(), MPFR_RNDU), MPFR_RNDU);
+    // compute bare result
+    representation bare = tan(x.first);
 
-    if (mpfr_cmp(xl(), xu()) > 0)
-        return representation_dec(entire(), p1788::decoration::decoration::trv);
+    // the result is only unbounded if there is a pole
+    if (is_entire(bare))
+        return representation_dec(bare, p1788::decoration::decoration::trv);
 
-    representation bare(xl.template get<T>(MPFR_RNDD), xu.template get<T>(MPFR_RNDU));
     p1788::decoration::decoration dec  = std::min(x.second,
                                          is_common_interval(bare) ? p1788::decoration::decoration::com :
                                          p1788::decoration::decoration::dac);
-- 
2.43.0


From 64af051e8164641b7c0edb872444d8884e0bf234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:58 +0000
Subject: [PATCH 03/26] fix: abs_rev for bound types other than double

std::max(0.0, c.first) does not compile unless T is double, so abs_rev
could not be used with float or long double intervals.
---
 .../infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index a9289fb..3dd334c 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -207,7 +207,7 @@ mpfr_bin_ieee754_flavor<T>::abs_rev(mpfr_bin_ieee754_flavor<T>::representation c
     if (c.second < 0.0)
         return empty();
 
-    representation p(std::max(0.0, c.first), c.second);
+    representation p(std::max(T(0.0), c.first), c.second);
     representation n = neg(p);
 
     return convex_hull(intersection(p, x), intersection(n, x));
-- 
2.43.0


From 21f5a79848cd1707d0ff46c173fb8af63ff63787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:59 +0000
Subject: [PATCH 04/26] fix: pown_rev with the smallest int as exponent

-p overflows for the smallest int and its conversion gave a root index near
2^64, so that pown_rev looped (practically) forever. Take the root index as
unsigned value.
---
 .../mpfr_bin_ieee754_flavor_rev_func_impl.hpp | 26 +++----------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index 3dd334c..5617a28 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -323,17 +323,8 @@ int mpfr_bin_ieee754_flavor<T>::pown_rev_inf(mpfr_var const& c,
         mpfr_var& x,
         int p)
 {
-    int t1;
-    if (p != -p)
-    {
-        t1 = -mpfr_root(x(), c(), -p, MPFR_RNDU);
-    }
-    else
-    {
-        int t2 = -mpfr_sqrt(x(), c(), MPFR_RNDU);
-        t1 = -mpfr_root(x(), x(), -(p >> 1), MPFR_RNDU);
-        if (t1 == 0) t1 = t2;
-    }
+    // -p as unsigned value, p may be the smallest int
+    int t1 = -mpfr_root(x(), c(), 0ul - static_cast<unsigned long>(p), MPFR_RNDU);
     int t = mpfr_ui_div(x(), 1, x(), MPFR_RNDD);
     if (t == 0) t = t1;
     if (p == -1 || t == 0) return t;
@@ -359,17 +350,8 @@ int mpfr_bin_ieee754_flavor<T>::pown_rev_sup(mpfr_var const& c,
         mpfr_var& x,
         int p)
 {
-    int t1;
-    if (p != -p)
-    {
-        t1 = -mpfr_root(x(), c(), -p, MPFR_RNDD);
-    }
-    else
-    {
-        int t2 = -mpfr_sqrt(x(), c(), MPFR_RNDD);
-        t1 = -mpfr_root(x(), x(), -(p >> 1), MPFR_RNDD);
-        if (t1 == 0) t1 = t2;
-    }
+    // -p as unsigned value, p may be the smallest int
+    int t1 = -mpfr_root(x(), c(), 0ul - static_cast<unsigned long>(p), MPFR_RNDD);
     int t = mpfr_ui_div(x(), 1, x(), MPFR_RNDU);
     if (t == 0) t = t1;
     if (p == -1 || t == 0) return t;
-- 
2.43.0


From 696b50d5c5a8f651542bf0bd894cca2b5f00b012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 05/26] fix: pown_rev is tightest for positive exponents, too

A rounded root which coincides with a bound of x is no solution and must be
ignored, as it is done for negative exponents and in sqr_rev.
---
 .../mpfr_bin_ieee754_flavor_rev_func_impl.hpp | 37 +++++++++++--------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index 5617a28..e651b2a 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -433,23 +433,24 @@ mpfr_bin_ieee754_flavor<T>::pown_rev(mpfr_bin_ieee754_flavor<T>::representation
 
             mpfr_var::setup();
 
-            if (c.first <= 0.0)
-            {
-                mpfr_var cu(c.second, MPFR_RNDU);
+            mpfr_var cl(c.first <= 0.0 ? 0.0 : c.first, MPFR_RNDD);
+            mpfr_var cu(c.second, MPFR_RNDU);
 
-                cu.subnormalize(mpfr_root(cu(), cu(), p, MPFR_RNDU), MPFR_RNDU);
+            int t_l = cl.subnormalize(mpfr_root(cl(), cl(), p, MPFR_RNDD), MPFR_RNDD);
+            int t_u = cu.subnormalize(mpfr_root(cu(), cu(), p, MPFR_RNDU), MPFR_RNDU);
 
-                return intersection(x, representation(-cu.template get<T>(MPFR_RNDU), cu.template get<T>(MPFR_RNDU)));
-            }
+            representation rp = representation(cl.template get<T>(MPFR_RNDD), cu.template get<T>(MPFR_RNDU));
+            representation rn = neg(rp);
 
-            mpfr_var cl(c.first, MPFR_RNDD);
-            mpfr_var cu(c.second, MPFR_RNDU);
+            if ((rp.second == x.first && t_u != 0)
+                    || (x.second == rp.first && t_l != 0))
+                rp = empty();
 
-            cl.subnormalize(mpfr_root(cl(), cl(), p, MPFR_RNDD), MPFR_RNDD);
-            cu.subnormalize(mpfr_root(cu(), cu(), p, MPFR_RNDU), MPFR_RNDU);
+            if ((rn.second == x.first && t_l != 0)
+                    || (x.second == rn.first && t_u != 0))
+                rn = empty();
 
-            return convex_hull(intersection(x, representation(-cu.template get<T>(MPFR_RNDU), -cl.template get<T>(MPFR_RNDD))),
-                               intersection(x, representation(cl.template get<T>(MPFR_RNDD), cu.template get<T>(MPFR_RNDU))));
+            return convex_hull(intersection(rp, x), intersection(rn, x));
         }
     }
     else    // odd
@@ -528,10 +529,16 @@ mpfr_bin_ieee754_flavor<T>::pown_rev(mpfr_bin_ieee754_flavor<T>::representation
             mpfr_var cl(c.first, MPFR_RNDD);
             mpfr_var cu(c.second, MPFR_RNDU);
 
-            cl.subnormalize(mpfr_root(cl(), cl(), p, MPFR_RNDD), MPFR_RNDD);
-            cu.subnormalize(mpfr_root(cu(), cu(), p, MPFR_RNDU), MPFR_RNDU);
+            int t_l = cl.subnormalize(mpfr_root(cl(), cl(), p, MPFR_RNDD), MPFR_RNDD);
+            int t_u = cu.subnormalize(mpfr_root(cu(), cu(), p, MPFR_RNDU), MPFR_RNDU);
+
+            representation r = representation(cl.template get<T>(MPFR_RNDD), cu.template get<T>(MPFR_RNDU));
+
+            if ((r.second == x.first && t_u != 0)
+                    || (x.second == r.first && t_l != 0))
+                r = empty();
 
-            return intersection(x, representation(cl.template get<T>(MPFR_RNDD), cu.template get<T>(MPFR_RNDU)));
+            return intersection(x, r);
         }
     }
 }
-- 
2.43.0


From 3e6d21ae6839d72f5c68e657f4e132c3bb04cd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 06/26] fix: sin_rev, cos_rev and tan_rev must not lose
 solutions

The multiple of pi found with the rounded value of pi can be off by one, so
one more period has to be examined, and for arguments beyond the precision of
the bound type the multiple is meaningless, so that no reduction at that bound
is possible. E.g. tan_rev lost the solution x = 2^65 for c around tan(2^65).
---
 .../mpfr_bin_ieee754_flavor_rev_func_impl.hpp | 94 ++++++++++++++-----
 1 file changed, 68 insertions(+), 26 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
index e651b2a..a83aaa2 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_rev_func_impl.hpp
@@ -695,6 +695,10 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
     mpfr_var tmp;
     long n;
 
+    // up to this limit n * pi is enclosed well enough such that n below
+    // differs at most by 1 from the exact value (it is never beyond x)
+    T const limit = std::ldexp(T(1.0), std::min(std::numeric_limits<T>::digits, std::numeric_limits<long>::digits) - 2);
+
 
     // move result of asin(c) to the left bound of x (pi-stepwise)
     // to compute the left box of the result
@@ -708,6 +712,11 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
         lbox.first = -std::numeric_limits<T>::infinity();
         lbox.second = -std::numeric_limits<T>::max();
     }
+    // too large to be reduced with this pi
+    else if (std::abs(x.first) > limit)
+    {
+        lbox.first = lbox.second = x.first;
+    }
     else
     {
         // Compute max integer n with: n * pi <= lower bound of x
@@ -715,14 +724,14 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
         if (mpfr_cmp_si(tmp(),0) < 0)
             --n;
 
-        for (int i = 0; is_empty(lbox) && i <= 1; i++)
+        for (int i = 0; is_empty(lbox) && i <= 2; i++)
         {
             if ((n + i) % 2 == 0)     // n is even => move asin(c)
             {
                 tmp.set(n + i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.first < 0.0 ? piu() : pid(), cl(), MPFR_RNDD);
-                mpfr_fma(ru(), tmp(), x.first < 0.0 ? pid() : piu(), cu(), MPFR_RNDU);
+                mpfr_fma(rl(), tmp(), n + i < 0 ? piu() : pid(), cl(), MPFR_RNDD);
+                mpfr_fma(ru(), tmp(), n + i < 0 ? pid() : piu(), cu(), MPFR_RNDU);
 
                 lbox.first = rl.template get<T>(MPFR_RNDD);
                 lbox.second = ru.template get<T>(MPFR_RNDU);
@@ -731,8 +740,8 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
             {
                 tmp.set(-n - i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.first < 0.0 ? piu() : pid(), cu(), MPFR_RNDU);
-                mpfr_fma(ru(), tmp(), x.first < 0.0 ? pid() : piu(), cl(), MPFR_RNDD);
+                mpfr_fma(rl(), tmp(), n + i < 0 ? piu() : pid(), cu(), MPFR_RNDU);
+                mpfr_fma(ru(), tmp(), n + i < 0 ? pid() : piu(), cl(), MPFR_RNDD);
 
                 lbox.first = -rl.template get<T>(MPFR_RNDD);
                 lbox.second = -ru.template get<T>(MPFR_RNDU);
@@ -756,6 +765,11 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
         rbox.first = std::numeric_limits<T>::max();
         rbox.second = std::numeric_limits<T>::infinity();
     }
+    // too large to be reduced with this pi
+    else if (std::abs(x.second) > limit)
+    {
+        rbox.first = rbox.second = x.second;
+    }
     else
     {
         // Compute min integer n with: n * pi >= upper bound of x
@@ -763,14 +777,14 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
         if (mpfr_cmp_si(tmp(),0) > 0)
             ++n;
 
-        for (int i = 0; is_empty(rbox) && i <= 1; i++)
+        for (int i = 0; is_empty(rbox) && i <= 2; i++)
         {
             if ((n - i) % 2 == 0)     // n is even => move asin(c)
             {
                 tmp.set(n - i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.second > 0.0 ? pid() : piu(), cl(), MPFR_RNDD);
-                mpfr_fma(ru(), tmp(), x.second > 0.0 ? piu() : pid(), cu(), MPFR_RNDU);
+                mpfr_fma(rl(), tmp(), n - i > 0 ? pid() : piu(), cl(), MPFR_RNDD);
+                mpfr_fma(ru(), tmp(), n - i > 0 ? piu() : pid(), cu(), MPFR_RNDU);
 
                 rbox.first = rl.template get<T>(MPFR_RNDD);
                 rbox.second = ru.template get<T>(MPFR_RNDU);
@@ -779,8 +793,8 @@ mpfr_bin_ieee754_flavor<T>::sin_rev(mpfr_bin_ieee754_flavor<T>::representation c
             {
                 tmp.set(-n + i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.second > 0.0 ? pid() : piu(), cu(), MPFR_RNDU);
-                mpfr_fma(ru(), tmp(), x.second > 0.0 ? piu() : pid(), cl(), MPFR_RNDD);
+                mpfr_fma(rl(), tmp(), n - i > 0 ? pid() : piu(), cu(), MPFR_RNDU);
+                mpfr_fma(ru(), tmp(), n - i > 0 ? piu() : pid(), cl(), MPFR_RNDD);
 
                 rbox.first = -rl.template get<T>(MPFR_RNDD);
                 rbox.second = -ru.template get<T>(MPFR_RNDU);
@@ -942,6 +956,10 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
     mpfr_var tmp;
     long n;
 
+    // up to this limit n * pi is enclosed well enough such that n below
+    // differs at most by 1 from the exact value (it is never beyond x)
+    T const limit = std::ldexp(T(1.0), std::min(std::numeric_limits<T>::digits, std::numeric_limits<long>::digits) - 2);
+
 
     // move result of acos(c) to the left bound of x (pi-stepwise)
     // to compute the left box of the result
@@ -955,6 +973,11 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
         lbox.first = -std::numeric_limits<T>::infinity();
         lbox.second = -std::numeric_limits<T>::max();
     }
+    // too large to be reduced with this pi
+    else if (std::abs(x.first) > limit)
+    {
+        lbox.first = lbox.second = x.first;
+    }
     else
     {
         // Compute max integer n with: n * pi <= lower bound of x
@@ -962,14 +985,14 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
         if (mpfr_cmp_si(tmp(),0) < 0)
             --n;
 
-        for (int i = 0; is_empty(lbox) && i <= 1; i++)
+        for (int i = 0; is_empty(lbox) && i <= 2; i++)
         {
             if ((n + i) % 2 == 0)     // n is even => move acos(c)
             {
                 tmp.set(n + i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.first < 0.0 ? piu() : pid(), cl(), MPFR_RNDD);
-                mpfr_fma(ru(), tmp(), x.first < 0.0 ? pid() : piu(), cu(), MPFR_RNDU);
+                mpfr_fma(rl(), tmp(), n + i < 0 ? piu() : pid(), cl(), MPFR_RNDD);
+                mpfr_fma(ru(), tmp(), n + i < 0 ? pid() : piu(), cu(), MPFR_RNDU);
 
                 lbox.first = rl.template get<T>(MPFR_RNDD);
                 lbox.second = ru.template get<T>(MPFR_RNDU);
@@ -978,8 +1001,8 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
             {
                 tmp.set(-n - i - 1, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.first < 0.0 ? piu() : pid(), cu(), MPFR_RNDU);
-                mpfr_fma(ru(), tmp(), x.first < 0.0 ? pid() : piu(), cl(), MPFR_RNDD);
+                mpfr_fma(rl(), tmp(), n + i < 0 ? piu() : pid(), cu(), MPFR_RNDU);
+                mpfr_fma(ru(), tmp(), n + i < 0 ? pid() : piu(), cl(), MPFR_RNDD);
 
                 lbox.first = -rl.template get<T>(MPFR_RNDD);
                 lbox.second = -ru.template get<T>(MPFR_RNDU);
@@ -1003,6 +1026,11 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
         rbox.first = std::numeric_limits<T>::max();
         rbox.second = std::numeric_limits<T>::infinity();
     }
+    // too large to be reduced with this pi
+    else if (std::abs(x.second) > limit)
+    {
+        rbox.first = rbox.second = x.second;
+    }
     else
     {
         // Compute max integer n with: n * pi <= upper bound of x
@@ -1010,14 +1038,14 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
         if (mpfr_cmp_si(tmp(),0) < 0)
             --n;
 
-        for (int i = 0; is_empty(rbox) && i <= 1; i++)
+        for (int i = 0; is_empty(rbox) && i <= 2; i++)
         {
             if ((n - i) % 2 == 0)     // n is even => move acos(c)
             {
                 tmp.set(n - i, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.second > 0.0 ? pid() : piu(), cl(), MPFR_RNDD);
-                mpfr_fma(ru(), tmp(), x.second > 0.0 ? piu() : pid(), cu(), MPFR_RNDU);
+                mpfr_fma(rl(), tmp(), n - i > 0 ? pid() : piu(), cl(), MPFR_RNDD);
+                mpfr_fma(ru(), tmp(), n - i > 0 ? piu() : pid(), cu(), MPFR_RNDU);
 
                 rbox.first = rl.template get<T>(MPFR_RNDD);
                 rbox.second = ru.template get<T>(MPFR_RNDU);
@@ -1026,8 +1054,8 @@ mpfr_bin_ieee754_flavor<T>::cos_rev(mpfr_bin_ieee754_flavor<T>::representation c
             {
                 tmp.set(-n + i - 1, MPFR_RNDN);
 
-                mpfr_fma(rl(), tmp(), x.second > 0.0 ? pid() : piu(), cu(), MPFR_RNDU);
-                mpfr_fma(ru(), tmp(), x.second > 0.0 ? piu() : pid(), cl(), MPFR_RNDD);
+                mpfr_fma(rl(), tmp(), n - i > 0 ? pid() : piu(), cu(), MPFR_RNDU);
+                mpfr_fma(ru(), tmp(), n - i > 0 ? piu() : pid(), cl(), MPFR_RNDD);
 
                 rbox.first = -rl.template get<T>(MPFR_RNDD);
                 rbox.second = -ru.template get<T>(MPFR_RNDU);
@@ -1177,6 +1205,10 @@ mpfr_bin_ieee754_flavor<T>::tan_rev(mpfr_bin_ieee754_flavor<T>::representation c
     mpfr_var tmp;
     long n;
 
+    // up to this limit n * pi is enclosed well enough such that n below
+    // differs at most by 1 from the exact value (it is never beyond x)
+    T const limit = std::ldexp(T(1.0), std::min(std::numeric_limits<T>::digits, std::numeric_limits<long>::digits) - 2);
+
 
     // move result of atan(c) to the left bound of x (pi-stepwise)
     // to compute the left box of the result
@@ -1190,6 +1222,11 @@ mpfr_bin_ieee754_flavor<T>::tan_rev(mpfr_bin_ieee754_flavor<T>::representation c
         lbox.first = -std::numeric_limits<T>::infinity();
         lbox.second = -std::numeric_limits<T>::max();
     }
+    // too large to be reduced with this pi
+    else if (std::abs(x.first) > limit)
+    {
+        lbox.first = lbox.second = x.first;
+    }
     else
     {
         // Compute max integer n with: n * pi <= lower bound of x
@@ -1198,12 +1235,12 @@ mpfr_bin_ieee754_flavor<T>::tan_rev(mpfr_bin_ieee754_flavor<T>::representation c
             --n;
 
         // move atan(c)
-        for (int i = 0; is_empty(lbox) && i <= 1; i++)
+        for (int i = 0; is_empty(lbox) && i <= 2; i++)
         {
             tmp.set(n + i, MPFR_RNDN);
 
-            mpfr_fma(rl(), tmp(), x.first < 0.0 ? piu() : pid(), cl(), MPFR_RNDD);
-            mpfr_fma(ru(), tmp(), x.first < 0.0 ? pid() : piu(), cu(), MPFR_RNDU);
+            mpfr_fma(rl(), tmp(), n + i < 0 ? piu() : pid(), cl(), MPFR_RNDD);
+            mpfr_fma(ru(), tmp(), n + i < 0 ? pid() : piu(), cu(), MPFR_RNDU);
 
             lbox.first = rl.template get<T>(MPFR_RNDD);
             lbox.second = ru.template get<T>(MPFR_RNDU);
@@ -1226,6 +1263,11 @@ mpfr_bin_ieee754_flavor<T>::tan_rev(mpfr_bin_ieee754_flavor<T>::representation c
         rbox.first = std::numeric_limits<T>::max();
         rbox.second = std::numeric_limits<T>::infinity();
     }
+    // too large to be reduced with this pi
+    else if (std::abs(x.second) > limit)
+    {
+        rbox.first = rbox.second = x.second;
+    }
     else
     {
         // Compute min integer n with: n * pi >= upper bound of x
@@ -1234,12 +1276,12 @@ mpfr_bin_ieee754_flavor<T>::tan_rev(mpfr_bin_ieee754_flavor<T>::representation c
             ++n;
 
         // move atan(c)
-        for (int i = 0; is_empty(rbox) && i <= 1; i++)
+        for (int i = 0; is_empty(rbox) && i <= 2; i++)
         {
             tmp.set(n - i, MPFR_RNDN);
 
-            mpfr_fma(rl(), tmp(), x.second > 0.0 ? pid() : piu(), cl(), MPFR_RNDD);
-            mpfr_fma(ru(), tmp(), x.second > 0.0 ? piu() : pid(), cu(), MPFR_RNDU);
+            mpfr_fma(rl(), tmp(), n - i > 0 ? pid() : piu(), cl(), MPFR_RNDD);
+            mpfr_fma(ru(), tmp(), n - i > 0 ? piu() : pid(), cu(), MPFR_RNDU);
 
             rbox.first = rl.template get<T>(MPFR_RNDD);
             rbox.second = ru.template get<T>(MPFR_RNDU);
-- 
2.43.0


From bdd3df08beff2fcb70fa9a6668bb95d653bdae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:30 +0000
Subject: [PATCH 07/26] fix: mixed-type cancel_plus must negate in the type of
 the second operand

neg of the result type rounds y outwards to the result type first, which
changes the width of y and, therefore, gives wrong or useless results.
---
 .../setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
index c92b805..ca57dac 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
@@ -56,7 +56,7 @@ mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representati
     static_assert(std::numeric_limits<T1>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
-    return cancel_minus(x, neg(y));
+    return cancel_minus(x, mpfr_bin_ieee754_flavor<T2>::neg(y));
 }
 
 template<typename T>
@@ -76,7 +76,7 @@ mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representati
     static_assert(std::numeric_limits<T1>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
-    return cancel_minus(x, neg(y));
+    return cancel_minus(x, mpfr_bin_ieee754_flavor<T2>::neg(y));
 }
 
 
-- 
2.43.0


From 529fbc6d39b782b06f50ea26598ff5c9894eec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:40 +0000
Subject: [PATCH 08/26] fix: accept a leading plus sign in interval literals

---
 .../mpfr_bin_ieee754_flavor_io_impl.hpp       | 20 +++++++++----------
 p1788/util/io.hpp                             |  6 ++++++
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 3697d20..7891667 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -683,7 +683,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
 
                                 // parse number as integer
                                 mpz_var n;
-                                int i = mpz_set_str(n.var_, n_str.c_str(), 10);
+                                int i = mpz_set_str(n.var_, p1788::util::remove_plus(n_str).c_str(), 10);
 
                                 // everything ok
                                 if (i == 0)
@@ -743,7 +743,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
 
                                 // parse number as integer
                                 mpz_var n;
-                                int i = mpz_set_str(n.var_, n_str.c_str(), 0);
+                                int i = mpz_set_str(n.var_, p1788::util::remove_plus(n_str).c_str(), 0);
 
                                 // everything ok
                                 if (i == 0)
@@ -784,7 +784,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             {
                                 mpq_var q;
 
-                                int i = mpq_set_str(q.var_, (match[6].str() + "/" + match[7].str()).c_str(), 10);
+                                int i = mpq_set_str(q.var_, (p1788::util::remove_plus(match[6].str()) + "/" + match[7].str()).c_str(), 10);
 
                                 mpfr_var l;
                                 mpfr_var u;
@@ -842,7 +842,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 }
 
                                 // parse number as integer
-                                int i = mpz_set_str(zl.var_, n_str.c_str(), 10);
+                                int i = mpz_set_str(zl.var_, p1788::util::remove_plus(n_str).c_str(), 10);
 
                                 // everything ok
                                 if (i == 0)
@@ -891,7 +891,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 p *= 4;
 
                                 // parse number as integer
-                                int i = mpz_set_str(zl.var_, n_str.c_str(), 0);
+                                int i = mpz_set_str(zl.var_, p1788::util::remove_plus(n_str).c_str(), 0);
 
                                 // everything ok
                                 if (i == 0)
@@ -919,7 +919,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             }
                             else if (match[16].length() > 0) // rational
                             {
-                                int i = mpq_set_str(ql.var_, (match[16].str() + "/" + match[17].str()).c_str(), 10);
+                                int i = mpq_set_str(ql.var_, (p1788::util::remove_plus(match[16].str()) + "/" + match[17].str()).c_str(), 10);
 
                                 if (i == 0)
                                     l.subnormalize(mpfr_set_q(l(), ql.var_, MPFR_RNDD), MPFR_RNDD);
@@ -954,7 +954,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 }
 
                                 // parse number as integer
-                                int i = mpz_set_str(zu.var_, n_str.c_str(), 10);
+                                int i = mpz_set_str(zu.var_, p1788::util::remove_plus(n_str).c_str(), 10);
 
                                 // everything ok
                                 if (i == 0)
@@ -1003,7 +1003,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 p *= 4;
 
                                 // parse number as integer
-                                int i = mpz_set_str(zu.var_, n_str.c_str(), 0);
+                                int i = mpz_set_str(zu.var_, p1788::util::remove_plus(n_str).c_str(), 0);
 
                                 // everything ok
                                 if (i == 0)
@@ -1031,7 +1031,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             }
                             else if (match[25].length() > 0) // rational
                             {
-                                int i = mpq_set_str(qu.var_, (match[25].str() + "/" + match[26].str()).c_str(), 10);
+                                int i = mpq_set_str(qu.var_, (p1788::util::remove_plus(match[25].str()) + "/" + match[26].str()).c_str(), 10);
 
                                 if (i == 0)
                                     u.subnormalize(mpfr_set_q(u(), qu.var_, MPFR_RNDU), MPFR_RNDU);
@@ -1218,7 +1218,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
 
                         // parse number as integer
                         mpz_var m;
-                        int im = mpz_set_str(m.var_, m_str.c_str(), 10);
+                        int im = mpz_set_str(m.var_, p1788::util::remove_plus(m_str).c_str(), 10);
 
                         mpz_var ulps;
                         int iu = 0;
diff --git a/p1788/util/io.hpp b/p1788/util/io.hpp
index ce3bf2f..b9b0d17 100644
--- a/p1788/util/io.hpp
+++ b/p1788/util/io.hpp
@@ -56,6 +56,12 @@ inline void ascii_to_lower(std::string& s)
                   );
 }
 
+// remove a leading plus sign, which the conversion functions of GMP do not accept
+inline std::string remove_plus(std::string const& s)
+{
+    return !s.empty() && s[0] == '+' ? s.substr(1) : s;
+}
+
 } // namespace util
 
 } // namespace p1788
-- 
2.43.0


From 78f0cb3578c5c3676b33c7a428b313893dbcccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 09/26] fix: reject literals whose exponent is out of range
 instead of throwing std::out_of_range

---
 p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp  | 1 +
 .../infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp   | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
index c34828b..12ce279 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
@@ -35,6 +35,7 @@
 #include <cctype>
 #include <sstream>
 #include <regex>
+#include <stdexcept>
 
 #include <gmp.h>
 #include <mpfr.h>
diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 7891667..eb7b7b3 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -547,6 +547,9 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
     }
 
 
+    // std::stoi throws if an exponent is out of range
+    try
+    {
     if (is)
     {
         //---------------------------------------------------------------------------------
@@ -1401,6 +1404,11 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
             }
         }
     }
+    }
+    catch (std::out_of_range const&)
+    {
+        // the exponent is too large to be converted: treated as a failure
+    }
 
     // failed
     is.setstate(std::ios_base::failbit);
-- 
2.43.0


From 1be2b7d7117fad6acf4f344ee011229e38108165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 10/26] fix: size the buffer of mpfr_var::get_str by the length
 of the text

---
 p1788/util/mpfr_var_impl.hpp | 72 +-----------------------------------
 1 file changed, 1 insertion(+), 71 deletions(-)

diff --git a/p1788/util/mpfr_var_impl.hpp b/p1788/util/mpfr_var_impl.hpp
index 1b15392..5ab518c 100644
--- a/p1788/util/mpfr_var_impl.hpp
+++ b/p1788/util/mpfr_var_impl.hpp
@@ -234,97 +234,27 @@ std::string mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_>::get_str(mpfr_rnd_t rnd,
 {
     std::string format = width > 0 ? "%" + std::to_string(width) : "%";
 
-    size_t req_string_width =  0;
-
     switch (rep)
     {
     case p1788::io::decimal_representation:
         format += precision > 0 ? "." + std::to_string(precision) : ".6";   // default precision is 6
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "F" : "f";
-
-        {
-            // Compute  upper bound for required integer digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_digits;
-            mpfr_abs(req_digits(), var_, MPFR_RNDU);
-            mpfr_log10(req_digits(), req_digits(), MPFR_RNDU);
-
-            req_string_width = 1                                                             // for the sign
-                               + req_digits.template get<unsigned long int>(MPFR_RNDD) + 1   // for the digits
-                               + 3                                                           // for dot
-                               + precision > 0 ? precision : 6;                              // for the digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     case p1788::io::scientific_representation:
         format += precision > 0 ? "." + std::to_string(precision) : ".6";   // default precision is 6
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "E" : "e";
-        {
-            // Compute  upper bound of required exponent digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_exp(std::max(-EMIN_, EMAX_) + 1, MPFR_RNDU);
-            mpfr_div_d(req_exp(), req_exp(), 3.0, MPFR_RNDU);     // 1/3 is an upper bound for log10(2)
-            mpfr_log10(req_exp(), req_exp(), MPFR_RNDU);
-
-            req_string_width = 3                                                            // for the pattern "-1."
-                               + precision > 0 ? precision : 6                              // for the digits
-                               + 2                                                          // for the pattern "E+"
-                               + req_exp.template get<unsigned long int>(MPFR_RNDD) + 1;    // for exponent digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     case p1788::io::hex_representation:
         format += precision > 0 ? "." + std::to_string(precision) : "";     // no precision prints sufficient digits for an exact rep
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "A" : "a";
-        {
-            // Compute  upper bound of required hex digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_prec(PREC_, MPFR_RNDU);
-            mpfr_div_d(req_prec(), req_prec(), 4.0, MPFR_RNDU);     // 4 mantissa bits per hex digit
-
-            // Compute  upper bound of required exponent digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_exp(std::max(-EMIN_, EMAX_) + 1, MPFR_RNDU);
-            mpfr_div_d(req_exp(), req_exp(), 3.0, MPFR_RNDU);     // 1/3 is an upper bound for log10(2)
-            mpfr_log10(req_exp(), req_exp(), MPFR_RNDU);
-
-            req_string_width = 5                                                            // for the pattern "-0X1."
-                               + req_prec.template get<unsigned long int>(MPFR_RNDU) + 1    // for the hex digits
-                               + 2                                                          // for the pattern "P+"
-                               + req_exp.template get<unsigned long int>(MPFR_RNDD) + 1;    // for exponent digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     default:    // decimal_scientific
         format += precision > 0 ? "." + std::to_string(precision) : ".6";   // default precision is 6
         format += "R*";
         format += text_rep == p1788::io::upper_case_text_representation ? "G" : "g";
-        {
-            // Compute  upper bound of required integer digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_digits;
-            mpfr_abs(req_digits(), var_, MPFR_RNDU);
-            mpfr_log10(req_digits(), req_digits(), MPFR_RNDU);
-
-            // Compute  upper bound of required exponent digits
-            mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_> req_exp(std::max(-EMIN_, EMAX_) + 1, MPFR_RNDU);
-            mpfr_div_d(req_exp(), req_exp(), 3.0, MPFR_RNDU);     // 1/3 is an upper bound for log10(2)
-            mpfr_log10(req_exp(), req_exp(), MPFR_RNDU);
-
-            req_string_width = 1                                                             // for the sign
-                               + req_digits.template get<unsigned long int>(MPFR_RNDD) + 1   // for the digits
-                               + 3                                                           // for dot
-                               + precision > 0 ? precision : 6                               // for the digits
-                               + 2                                                           // for the pattern "E+"
-                               + req_exp.template get<unsigned long int>(MPFR_RNDD) + 1;     // for exponent digits
-
-            if (width > req_string_width)
-                req_string_width = width;
-        }
         break;
     }
 
@@ -342,7 +272,7 @@ std::string mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_>::get_str(mpfr_rnd_t rnd,
         {
             delete[] data;
         };
-    } buffer(req_string_width);
+    } buffer(mpfr_snprintf(nullptr, 0, format.c_str(), rnd, var_));
 
     // generate string
     mpfr_sprintf(buffer.data, format.c_str(), rnd, var_ );
-- 
2.43.0


From 112e20560ddbba56e0f50760fd29ad82289c4414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 11/26] fix: read the whole exponent of the midpoint in
 uncertain form output

---
 .../flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index eb7b7b3..f5294cd 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -186,7 +186,7 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
                 tmp_m.erase(tmp_m.size() - prec - 1, 1);
 
                 // compute exponent difference
-                int exp_m = p_m >= 0 ? std::stoi(exp_str.substr(1, tmp_m.size() - 1)) : 0;
+                int exp_m = p_m >= 0 ? std::stoi(exp_str.substr(1)) : 0;
                 int ulp_l = 0;
                 int ulp_u = 0;
                 if (p_l >= 0)
-- 
2.43.0


From aca10a3c4d79e687f2195a28843abc04173e9219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:41 +0000
Subject: [PATCH 12/26] fix: compute the radius of the uncertain form with
 integers of arbitrary size

---
 .../setbased/mpfr_bin_ieee754_flavor.hpp      |   2 +
 .../mpfr_bin_ieee754_flavor_io_impl.hpp       | 134 +++++++++---------
 2 files changed, 67 insertions(+), 69 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
index 12ce279..19160cd 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor.hpp
@@ -36,6 +36,8 @@
 #include <sstream>
 #include <regex>
 #include <stdexcept>
+#include <string>
+#include <vector>
 
 #include <gmp.h>
 #include <mpfr.h>
diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index f5294cd..c7c2003 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -158,7 +158,46 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
 
             std::string exp_str = "";
 
-            long long int ulps = 0;
+            std::string ulps;
+
+            // integer value of a digit string multiplied by 10^exp and rounded downwards or upwards
+            class scaled_int
+            {
+            public:
+                mpz_t var_;
+
+                scaled_int(std::string const& digits, int exp, bool up)
+                {
+                    mpz_init_set_str(var_, digits.c_str(), 10);
+
+                    mpz_t scale;
+                    mpz_init(scale);
+                    mpz_ui_pow_ui(scale, 10, std::abs(exp));
+
+                    if (exp >= 0)
+                        mpz_mul(var_, var_, scale);
+                    else if (up)
+                        mpz_cdiv_q(var_, var_, scale);
+                    else
+                        mpz_fdiv_q(var_, var_, scale);
+
+                    mpz_clear(scale);
+                }
+
+                ~scaled_int()
+                {
+                    mpz_clear(var_);
+                }
+
+                scaled_int(scaled_int const&) = delete;
+                scaled_int& operator=(scaled_int const&) = delete;
+
+                std::string str() const
+                {
+                    std::vector<char> buf(mpz_sizeinbase(var_, 10) + 2);
+                    return mpz_get_str(buf.data(), 10, var_);
+                }
+            };
 
             // symmetric
             if (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_representation)
@@ -187,59 +226,35 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
 
                 // compute exponent difference
                 int exp_m = p_m >= 0 ? std::stoi(exp_str.substr(1)) : 0;
-                int ulp_l = 0;
-                int ulp_u = 0;
+                int exp_l = 0;
+                int exp_u = 0;
                 if (p_l >= 0)
                 {
-                    int exp_l = std::stoi(tmp_l.substr(p_l + 1, tmp_l.size() - p_l - 1)) - exp_m;
-                    // remove exponent and seperator
+                    exp_l = std::stoi(tmp_l.substr(p_l + 1)) - exp_m;
+                    // remove exponent
                     tmp_l.erase(p_l);
-                    tmp_l.erase(tmp_l.size() - prec - 1, 1);
-
-                    if (exp_l < 0)
-                    {
-                        // remove trailing digits and remind ulp if necessary
-                        ulp_l = std::stoll(tmp_l.substr(tmp_l.size() + exp_l)) != 0 && x.first < 0.0 ? 1 : 0;
-                        tmp_l.resize(tmp_l.size() + exp_l);
-                    }
-                    else if (exp_l > 0)
-                        // add some digits
-                        tmp_l.append(exp_l, '0');
-
-                }
-                else
-                {
-                    // remove seperator
-                    tmp_l.erase(tmp_l.size() - prec - 1, 1);
                 }
 
                 if (p_u >= 0)
                 {
-                    int exp_u = exp_m - std::stoi(tmp_u.substr(p_u + 1, tmp_u.size() - p_u - 1));
-                    // remove exponent and seperator
+                    exp_u = std::stoi(tmp_u.substr(p_u + 1)) - exp_m;
+                    // remove exponent
                     tmp_u.erase(p_u);
-                    tmp_u.erase(tmp_u.size() - prec - 1, 1);
-                    if (exp_u > 0)
-                    {
-                        // remove trailing digits and remind ulp if necessary
-                        ulp_u = std::stoll(tmp_u.substr(tmp_u.size() - exp_u)) != 0 && x.second > 0.0  ? 1 : 0;
-                        tmp_u.resize(tmp_u.size() - exp_u);
-                    }
-                    else if (exp_u < 0)
-                        // add some digits
-                        tmp_u.append(-exp_u, '0');
-                }
-                else
-                {
-                    // remove seperator
-                    tmp_u.erase(tmp_u.size() - prec - 1, 1);
                 }
 
+                // remove seperator
+                tmp_l.erase(tmp_l.size() - prec - 1, 1);
+                tmp_u.erase(tmp_u.size() - prec - 1, 1);
+
                 // compute max ulps to lower and upper bound
-                long long int tmp = std::stoll(tmp_m);
+                scaled_int m_int(tmp_m, 0, false);
+                scaled_int l_int(tmp_l, exp_l, false);
+                scaled_int u_int(tmp_u, exp_u, true);
 
-                ulps = std::max(-std::stoll(tmp_l) + tmp + ulp_l,
-                                -tmp + std::stoll(tmp_u) + ulp_u);
+                mpz_sub(l_int.var_, m_int.var_, l_int.var_);
+                mpz_sub(u_int.var_, u_int.var_, m_int.var_);
+
+                ulps = mpz_cmp(l_int.var_, u_int.var_) >= 0 ? l_int.str() : u_int.str();
             }
             else // downward or upward
             {
@@ -275,37 +290,18 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
                 tmp_l.erase(tmp_l.size() - prec - 1, 1);
                 tmp_u.erase(tmp_u.size() - prec - 1, 1);
 
-                // adjust string length to balance exponent difference
-                if (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_down_representation)
-                {
-                    if (exp < 0)
-                    {
-                        // remove trailing digits and adjust ulps if necessary
-                        ulps += std::stoll(tmp_l.substr(tmp_l.size() + exp)) != 0 && x.first < 0.0 ? 1 : 0;
-                        tmp_l.resize(tmp_l.size() + exp);
-                    }
-                    else if (exp > 0)
-                        // add some digits
-                        tmp_l.append(exp, '0');
-                }
-                else if (os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_up_representation)
-                {
-                    if (exp > 0)
-                    {
-                        // remove trailing digits and adjust ulps if necessary
-                        ulps += std::stoll(tmp_u.substr(tmp_u.size() - exp)) != 0 && x.second > 0.0  ? 1 : 0;
-                        tmp_u.resize(tmp_u.size() - exp);
-                    }
-                    else if (exp < 0)
-                        // add some digits
-                        tmp_u.append(-exp, '0');
-                }
+                // balance exponent difference
+                bool down = os.iword(p1788::io::representation_manip_id) == p1788::io::uncertain_down_representation;
+                scaled_int l_int(tmp_l, down ? exp : 0, false);
+                scaled_int u_int(tmp_u, down ? 0 : -exp, true);
 
                 // compute ulps
-                ulps += -std::stoll(tmp_l) +  std::stoll(tmp_u);
+                mpz_sub(u_int.var_, u_int.var_, l_int.var_);
+
+                ulps = u_int.str();
             }
 
-            str += "?" + std::to_string(ulps);
+            str += "?" + ulps;
 
             // add downward or upward flag
             switch(os.iword(p1788::io::representation_manip_id))
-- 
2.43.0


From e956e9b8cfb8b680d8e4daa95420c85bbe341162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:28 +0000
Subject: [PATCH 13/26] fix: reductions over- or underflowed on intermediate
 products and sums

dot, sum_sqr and the sums rounded the terms and the exact sum within the exponent
range of the intermediate format, so that a product below that range was lost and
one above it became infinite although the final result is representable.
---
 p1788/reduction/reduction.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/p1788/reduction/reduction.hpp b/p1788/reduction/reduction.hpp
index a56a01e..2e6f542 100644
--- a/p1788/reduction/reduction.hpp
+++ b/p1788/reduction/reduction.hpp
@@ -91,7 +91,10 @@ public:
     // perform op on one iterator
     reduction_sum_op(void (*op) (Iter, mpfr_ptr*), Iter begin, Iter end, rnd_mode rnd) : n_(end - begin)
     {
-        mpfr_var::setup();
+        // form and accumulate the terms without intermediate over- or underflow
+        mpfr_set_emin(mpfr_get_emin_min());
+        mpfr_set_emax(mpfr_get_emax_max());
+
         tab_ = new mpfr_ptr[n_];    // array of elemets
 
         mpfr_ptr* p = tab_;
@@ -103,7 +106,12 @@ public:
         mpfr_var res;
 
         // accumulate
-        res.subnormalize(mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
+        int t = mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd));
+
+        // round the sum into the exponent range of the result type
+        mpfr_var::setup();
+        t = mpfr_check_range(res(), t, get_mpfr_rnd_mode(rnd));
+        res.subnormalize(t, get_mpfr_rnd_mode(rnd));
 
         // get result
         result_ = res.template get<typename std::iterator_traits<Iter>::value_type>(get_mpfr_rnd_mode(rnd));
@@ -115,7 +123,10 @@ public:
     // perform op on two interators
     reduction_sum_op(void (*op) (Iter, Iter, mpfr_ptr*), Iter begin_a, Iter end_a, Iter begin_b, rnd_mode rnd) : n_(end_a - begin_a)
     {
-        mpfr_var::setup();
+        // form and accumulate the terms without intermediate over- or underflow
+        mpfr_set_emin(mpfr_get_emin_min());
+        mpfr_set_emax(mpfr_get_emax_max());
+
         tab_ = new mpfr_ptr[n_];    // array of elemets
 
         mpfr_ptr* p = tab_;
@@ -127,7 +138,12 @@ public:
         mpfr_var res;
 
         // accumulate
-        res.subnormalize(mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd)), get_mpfr_rnd_mode(rnd));
+        int t = mpfr_sum(res(), tab_, n_, get_mpfr_rnd_mode(rnd));
+
+        // round the sum into the exponent range of the result type
+        mpfr_var::setup();
+        t = mpfr_check_range(res(), t, get_mpfr_rnd_mode(rnd));
+        res.subnormalize(t, get_mpfr_rnd_mode(rnd));
 
         // get result
         result_ = res.template get<typename std::iterator_traits<Iter>::value_type>(get_mpfr_rnd_mode(rnd));
-- 
2.43.0


From 01605e370b33f4d485342570a592f554f24f94ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:46 +0000
Subject: [PATCH 14/26] fix: reductions leaked the storage of every term

---
 p1788/reduction/reduction.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/p1788/reduction/reduction.hpp b/p1788/reduction/reduction.hpp
index 2e6f542..e9d18a9 100644
--- a/p1788/reduction/reduction.hpp
+++ b/p1788/reduction/reduction.hpp
@@ -156,7 +156,10 @@ public:
     ~reduction_sum_op()
     {
         for(mpfr_ptr* b = tab_; b != tab_ + n_; ++b)
+        {
             mpfr_clear(*b);
+            delete[] *b;
+        }
 
         delete[] tab_;
 
-- 
2.43.0


From e29fd2591277e1352aa8531551f1aa1e23f56fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 15/26] fix: cancel_minus and cancel_plus did not reject an
 invalid second operand

cancel_minus tested its first operand twice; cancel_plus replaced the invalid
operand by the empty set, for which cancel_minus returns the entire line.
---
 .../setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
index ca57dac..d028bb0 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_cancel_func_impl.hpp
@@ -44,6 +44,9 @@ typename mpfr_bin_ieee754_flavor<T>::representation
 mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representation const& x,
                                         mpfr_bin_ieee754_flavor<T>::representation const& y)
 {
+    if (!is_valid(x) || !is_valid(y))
+        return empty();
+
     return cancel_minus(x, neg(y));
 }
 
@@ -56,6 +59,9 @@ mpfr_bin_ieee754_flavor<T>::cancel_plus(mpfr_bin_ieee754_flavor<T>::representati
     static_assert(std::numeric_limits<T1>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
+    if (!mpfr_bin_ieee754_flavor<T1>::is_valid(x) || !mpfr_bin_ieee754_flavor<T2>::is_valid(y))
+        return empty();
+
     return cancel_minus(x, mpfr_bin_ieee754_flavor<T2>::neg(y));
 }
 
@@ -86,7 +92,7 @@ typename mpfr_bin_ieee754_flavor<T>::representation
 mpfr_bin_ieee754_flavor<T>::cancel_minus(mpfr_bin_ieee754_flavor<T>::representation const& x,
         mpfr_bin_ieee754_flavor<T>::representation const& y)
 {
-    if (!is_valid(x) || !is_valid(x))
+    if (!is_valid(x) || !is_valid(y))
         return empty();
 
     if (x.first == -std::numeric_limits<T>::infinity()
-- 
2.43.0


From 5ee2646a14659ac56f05f83edc5e77e36ea01873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 16/26] fix: mixed-type mul_rev_to_pair ignored invalid
 operands

The result for invalid (and NaI) operands was formed but not returned.
---
 .../mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp
index 0b42476..fb45a75 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp
@@ -267,7 +267,7 @@ mpfr_bin_ieee754_flavor<T>::mul_rev_to_pair(mpfr_bin_ieee754_flavor<T>::represen
     static_assert(std::numeric_limits<T2>::is_iec559, "Only IEEE 754 binary compliant types are supported!");
 
     if (!mpfr_bin_ieee754_flavor<T1>::is_valid(b) || !mpfr_bin_ieee754_flavor<T2>::is_valid(c))
-        std::pair<representation, representation>(empty(), empty());
+        return std::pair<representation, representation>(empty(), empty());
 
     // determine max. precision
     typedef typename p1788::util::max_precision_type<T,T1,T2>::type T_MAX;
@@ -318,7 +318,7 @@ mpfr_bin_ieee754_flavor<T>::mul_rev_to_pair(mpfr_bin_ieee754_flavor<T>::represen
 
     if (!mpfr_bin_ieee754_flavor<T1>::is_valid(b) || !mpfr_bin_ieee754_flavor<T2>::is_valid(c)
             || mpfr_bin_ieee754_flavor<T1>::is_nai(b) || mpfr_bin_ieee754_flavor<T2>::is_nai(c))
-        std::pair<representation_dec, representation_dec>(nai(), nai());
+        return std::pair<representation_dec, representation_dec>(nai(), nai());
 
     // determine max. precision
     typedef typename p1788::util::max_precision_type<T,T1,T2>::type T_MAX;
-- 
2.43.0


From fddd5088d9174a99a348dc75ffc21ecfe352f49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 17/26] fix: exception state and control word were shared by
 all threads

They are documented as thread local but were plain static variables, so that
threads saw, cleared and raced on each other's flags.
---
 p1788/exception/exception.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/p1788/exception/exception.hpp b/p1788/exception/exception.hpp
index c63100b..83bae89 100644
--- a/p1788/exception/exception.hpp
+++ b/p1788/exception/exception.hpp
@@ -100,7 +100,7 @@ inline exception_bits& operator^= (exception_bits& x, exception_bits y)
 inline exception_bits& cwd()
 {
     // Thread local cwd
-    static exception_bits exception_cwd_ = none_bit;
+    static thread_local exception_bits exception_cwd_ = none_bit;
 
     return exception_cwd_;
 }
@@ -183,7 +183,7 @@ public:
 inline exception_bits& state()
 {
     // Thread local exception state
-    static exception_bits exception_state_ = none_bit;
+    static thread_local exception_bits exception_state_ = none_bit;
 
     return exception_state_;
 }
-- 
2.43.0


From 3a591d994aa2e37a293d4c868e8e38795522bccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:45 +0000
Subject: [PATCH 18/26] fix: use the same manipulator IDs in all translation
 units

Every translation unit allocated its own stream indices, so a manipulator that
was instantiated in one unit had no effect on output done in another one.
---
 p1788/io/io_manip.hpp | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/p1788/io/io_manip.hpp b/p1788/io/io_manip.hpp
index 84327b7..4e96878 100644
--- a/p1788/io/io_manip.hpp
+++ b/p1788/io/io_manip.hpp
@@ -34,8 +34,18 @@ namespace p1788
 namespace io
 {
 
+// Unique IDs for the manipulators which are the same in all translation units
+// of a program, because manipulators are set and read in different ones
+template<typename Tag>
+int unique_manip_id()
+{
+    static int const id = std::ios_base::xalloc();
+    return id;
+}
+
 // Unique ID for a manipulator to choose between lower and upper case
-int const text_representation_manip_id =  std::ios_base::xalloc();
+struct text_representation_manip_tag;
+int const text_representation_manip_id = unique_manip_id<text_representation_manip_tag>();
 
 enum text_representation_flags
 {
@@ -77,7 +87,8 @@ std::basic_ostream<CharT, Traits>& upper_case(std::basic_ostream<CharT, Traits>&
 
 
 // Unique ID for a manipulator to choose the preferred string width of an interval or decorated interval
-int const string_width_manip_id =  std::ios_base::xalloc();
+struct string_width_manip_tag;
+int const string_width_manip_id = unique_manip_id<string_width_manip_tag>();
 
 ///@name Output manipulators to choose the preferred width of the whole interval or decorated interval string.
 ///
@@ -105,7 +116,8 @@ std::basic_ostream<CharT, Traits>& operator<< (std::basic_ostream<CharT, Traits>
 
 
 // Unique ID for a manipulator to choose between inf sup and uncertain representation
-int const representation_manip_id =  std::ios_base::xalloc();
+struct representation_manip_tag;
+int const representation_manip_id = unique_manip_id<representation_manip_tag>();
 
 enum representation_flags
 {
@@ -170,7 +182,8 @@ std::basic_ostream<CharT, Traits>& uncertain_down_form(std::basic_ostream<CharT,
 
 
 // Unique ID for a manipulator to choose between decimal, scientifc or hex representation
-int const number_representation_manip_id =  std::ios_base::xalloc();
+struct number_representation_manip_tag;
+int const number_representation_manip_id = unique_manip_id<number_representation_manip_tag>();
 
 enum number_representation_flags
 {
@@ -235,7 +248,8 @@ std::basic_ostream<CharT, Traits>& hex(std::basic_ostream<CharT, Traits>& os)
 
 
 // Unique ID for a manipulator to choose the preferred width of a number
-int const width_manip_id =  std::ios_base::xalloc();
+struct width_manip_tag;
+int const width_manip_id = unique_manip_id<width_manip_tag>();
 
 ///@name Output manipulators to choose the preferred width of a number.
 ///
@@ -265,7 +279,8 @@ std::basic_ostream<CharT, Traits>& operator<< (std::basic_ostream<CharT, Traits>
 
 
 // Unique ID for a manipulator to choose the preferred precision of a number
-int const precision_manip_id =  std::ios_base::xalloc();
+struct precision_manip_tag;
+int const precision_manip_id = unique_manip_id<precision_manip_tag>();
 
 ///@name Output manipulators to choose the precision of a number.
 ///
@@ -294,7 +309,8 @@ std::basic_ostream<CharT, Traits>& operator<< (std::basic_ostream<CharT, Traits>
 
 
 // Unique ID for a manipulator to choose between different text representaions for special intervals
-int const special_representation_manip_id =  std::ios_base::xalloc();
+struct special_representation_manip_tag;
+int const special_representation_manip_id = unique_manip_id<special_representation_manip_tag>();
 
 enum interval_special_representation_flags
 {
@@ -347,7 +363,8 @@ std::basic_ostream<CharT, Traits>& special_no_bounds(std::basic_ostream<CharT, T
 
 
 // Unique ID for a manipulator to choose between interval representaions with or without punctuation
-int const punctuation_manip_id =  std::ios_base::xalloc();
+struct punctuation_manip_tag;
+int const punctuation_manip_id = unique_manip_id<punctuation_manip_tag>();
 
 enum interval_punctuation_flags
 {
@@ -389,7 +406,8 @@ std::basic_ostream<CharT, Traits>& no_punctuation(std::basic_ostream<CharT, Trai
 
 
 // Unique ID for a manipulator to choose if an exponent is shown in uncertain mode
-int const uncertain_exponent_manip_id =  std::ios_base::xalloc();
+struct uncertain_exponent_manip_tag;
+int const uncertain_exponent_manip_id = unique_manip_id<uncertain_exponent_manip_tag>();
 
 enum uncertain_exponent_flags
 {
@@ -434,7 +452,8 @@ std::basic_ostream<CharT, Traits>& uncertain_exponent(std::basic_ostream<CharT,
 //-----------------------------------------------------------------------------
 
 // Unique ID for a manipulator to print decorations
-int const dec_manip_id =  std::ios_base::xalloc();
+struct dec_manip_tag;
+int const dec_manip_id = unique_manip_id<dec_manip_tag>();
 
 // enum for the manipulator to print decorations
 enum dec_manip_flags
@@ -481,7 +500,8 @@ std::basic_ostream<CharT, Traits>& dec_numeric(std::basic_ostream<CharT, Traits>
 //-----------------------------------------------------------------------------
 
 // Unique ID for a manipulator to print decorations
-int const overlapping_manip_id =  std::ios_base::xalloc();
+struct overlapping_manip_tag;
+int const overlapping_manip_id = unique_manip_id<overlapping_manip_tag>();
 
 // enum for the manipulator to print decorations
 enum overlapping_manip_flags
-- 
2.43.0


From a2e6831a10d40e9f7f19f93a6a4a0f4b3f7f9001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:31 +0000
Subject: [PATCH 19/26] fix: include <cstdint> and <limits> where they are
 needed

p1788/reduction/reduction.hpp did not compile as the first header of a file.
---
 p1788/reduction/reduction.hpp | 1 +
 p1788/util/mpfr_var.hpp       | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/p1788/reduction/reduction.hpp b/p1788/reduction/reduction.hpp
index e9d18a9..ce00722 100644
--- a/p1788/reduction/reduction.hpp
+++ b/p1788/reduction/reduction.hpp
@@ -28,6 +28,7 @@
 #define LIBIEEEP1788_P1788_REDUCTION_REDUCTION_HPP
 
 #include <iterator>
+#include <limits>
 #include <initializer_list>
 
 #include "p1788/util/mpfr_var.hpp"
diff --git a/p1788/util/mpfr_var.hpp b/p1788/util/mpfr_var.hpp
index 490d93d..0db0885 100644
--- a/p1788/util/mpfr_var.hpp
+++ b/p1788/util/mpfr_var.hpp
@@ -26,6 +26,9 @@
 #ifndef LIBIEEEP1788_P1788_UTIL_MPFR_VAR_HPP
 #define LIBIEEEP1788_P1788_UTIL_MPFR_VAR_HPP
 
+// declares intmax_t, which is needed by mpfr.h
+#include <cstdint>
+
 #define MPFR_USE_INTMAX_T
 
 #include <mpfr.h>
-- 
2.43.0


From 47fcdae9d4eaf477322a47db5f7ce740e6928e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:19 +0000
Subject: [PATCH 20/26] fix: reject literals whose exponent overflows together
 with the position of the point

[1.5e-2147483648] was read as an interval of huge numbers.
---
 .../setbased/mpfr_bin_ieee754_flavor_io_impl.hpp | 16 ++++++++--------
 p1788/util/io.hpp                                | 13 +++++++++++++
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index c7c2003..90819ce 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -543,7 +543,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
     }
 
 
-    // std::stoi throws if an exponent is out of range
+    // an exception is thrown if an exponent is out of range
     try
     {
     if (is)
@@ -690,7 +690,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                     // exponent (and precision)
                                     if (match[3].length() > 0)
                                     {
-                                        p += std::stoi(match[3].str());
+                                        p = p1788::util::add_exponent(p, match[3].str());
                                     }
 
                                     mpz_var e;
@@ -748,7 +748,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 if (i == 0)
                                 {
                                     // exponent (and precision)
-                                    p += std::stoi(match[5].str());
+                                    p = p1788::util::add_exponent(p, match[5].str());
 
 
                                     mpz_var e;
@@ -849,7 +849,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                     // exponent (and precision)
                                     if (match[13].length() > 0)
                                     {
-                                        p += std::stoi(match[13].str());
+                                        p = p1788::util::add_exponent(p, match[13].str());
                                     }
 
                                     mpz_var e;
@@ -896,7 +896,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 if (i == 0)
                                 {
                                     // exponent (and precision)
-                                    p += std::stoi(match[15].str());
+                                    p = p1788::util::add_exponent(p, match[15].str());
 
                                     mpz_var e;
                                     mpz_ui_pow_ui(e.var_, 2, std::abs(p));
@@ -961,7 +961,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                     // exponent (and precision)
                                     if (match[22].length() > 0)
                                     {
-                                        p += std::stoi(match[22].str());
+                                        p = p1788::util::add_exponent(p, match[22].str());
                                     }
 
                                     mpz_var e;
@@ -1008,7 +1008,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 if (i == 0)
                                 {
                                     // exponent (and precision)
-                                    p += std::stoi(match[24].str());
+                                    p = p1788::util::add_exponent(p, match[24].str());
 
                                     mpz_var e;
                                     mpz_ui_pow_ui(e.var_, 2, std::abs(p));
@@ -1239,7 +1239,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             // exponent (and precision)
                             if (match[6].length() > 0)
                             {
-                                p += std::stoi(match[6].str());
+                                p = p1788::util::add_exponent(p, match[6].str());
                             }
 
                             mpz_var e;
diff --git a/p1788/util/io.hpp b/p1788/util/io.hpp
index b9b0d17..ff1d826 100644
--- a/p1788/util/io.hpp
+++ b/p1788/util/io.hpp
@@ -26,6 +26,8 @@
 #include <iostream>
 #include <cctype>
 #include <ctype.h>
+#include <limits>
+#include <stdexcept>
 #include <string>
 #include <algorithm>
 
@@ -56,6 +58,17 @@ inline void ascii_to_lower(std::string& s)
                   );
 }
 
+// add the exponent of a number literal, throws if the sum or its absolute value is out of range
+inline int add_exponent(int p, std::string const& exponent)
+{
+    long long const e = static_cast<long long>(std::stoi(exponent)) + p;
+
+    if (e < -std::numeric_limits<int>::max() || e > std::numeric_limits<int>::max())
+        throw std::out_of_range("exponent");
+
+    return e;
+}
+
 // remove a leading plus sign, which the conversion functions of GMP do not accept
 inline std::string remove_plus(std::string const& s)
 {
-- 
2.43.0


From 9f3168d6b38e0eb87223c9e55795afed955d34f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:39 +0000
Subject: [PATCH 21/26] fix: keep a decoration with its interval whatever the
 standard format of the stream

---
 .../setbased/mpfr_bin_ieee754_flavor_io_impl.hpp    | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 90819ce..3b99e6a 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -450,6 +450,12 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
     // generate the decoration string
     std::stringstream buf;
     buf.copyfmt(os);
+
+    // standard format settings must not change or split the literal
+    buf.imbue(std::locale::classic());
+    buf.setf(std::ios_base::dec, std::ios_base::basefield);
+    buf.width(0);
+
     buf << ((os.iword(p1788::io::punctuation_manip_id) == p1788::io::show_no_punctuation) ? " " : "_") << x.second;
 
 
@@ -474,10 +480,13 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
     } swh(os, buf.str().size());
 
     // generate bare output
-    operator_interval_to_text(os, x.first);
+    std::stringstream bare;
+    bare.copyfmt(os);
+    bare.width(0);
+    operator_interval_to_text(bare, x.first);
 
     // append decoration
-    return os << buf.str();
+    return os << bare.str() + buf.str();
 }
 
 
-- 
2.43.0


From e4b3afdba9e7dd421b4e3ab9c3a896059d7fe154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:45 +0000
Subject: [PATCH 22/26] fix: print a period as decimal point whatever the
 locale of the process

---
 p1788/util/mpfr_var.hpp      | 2 ++
 p1788/util/mpfr_var_impl.hpp | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/p1788/util/mpfr_var.hpp b/p1788/util/mpfr_var.hpp
index 0db0885..90022e3 100644
--- a/p1788/util/mpfr_var.hpp
+++ b/p1788/util/mpfr_var.hpp
@@ -32,6 +32,8 @@
 #define MPFR_USE_INTMAX_T
 
 #include <mpfr.h>
+#include <algorithm>
+#include <clocale>
 #include <string>
 
 #include "p1788/io/io_manip.hpp"
diff --git a/p1788/util/mpfr_var_impl.hpp b/p1788/util/mpfr_var_impl.hpp
index 5ab518c..cb183fe 100644
--- a/p1788/util/mpfr_var_impl.hpp
+++ b/p1788/util/mpfr_var_impl.hpp
@@ -276,7 +276,11 @@ std::string mpfr_var<PREC_,EMIN_,EMAX_,SUBNORMALIZE_>::get_str(mpfr_rnd_t rnd,
 
     // generate string
     mpfr_sprintf(buffer.data, format.c_str(), rnd, var_ );
-    return buffer.data;
+
+    // MPFR takes the decimal point of the current locale, literals always have a period
+    std::string str(buffer.data);
+    std::replace(str.begin(), str.end(), std::localeconv()->decimal_point[0], '.');
+    return str;
 }
 
 // Reference to the underlying mpfr_t
-- 
2.43.0


From 0e7d278bab9cbb6dca241ebc1fb63f3fae432750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:42 +0000
Subject: [PATCH 23/26] fix: read literals the same way whatever the global
 locale

---
 .../setbased/mpfr_bin_ieee754_flavor_io_impl.hpp    |  4 ++--
 p1788/util/io.hpp                                   | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 3b99e6a..064ee76 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -615,7 +615,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                     //    [25] :  rational representation: nominator
                     //    [26] :  rational representation: denominator
                     //    [27] :  string if second argument is "+inf" or "+infinity"
-                    static std::regex inf_sup_regex(
+                    static std::regex inf_sup_regex = p1788::util::classic_regex(
                         //one argument or empty
                         "(?:\\[\\s*("
                         "|(?:([+-]?(?:(?:[0-9]*\\.[0-9]+)|(?:[0-9]+[\\.])|(?:[0-9]+)))(?:e([+-]?[0-9]+))?)"             // float
@@ -1186,7 +1186,7 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                     // [4]   direction upward
                     // [5]   direction downward
                     // [6]   exponent
-                    static std::regex uncertain_regex(
+                    static std::regex uncertain_regex = p1788::util::classic_regex(
                         "([+-]?(?:(?:[0-9]*\\.[0-9]+)|(?:[0-9]+[\\.])|(?:[0-9]+)))"          // number
                         "\\?"                                                               // ?
                         "(?:(\\?)|([0-9]+))?"                                               // radius
diff --git a/p1788/util/io.hpp b/p1788/util/io.hpp
index ff1d826..bd7dfe8 100644
--- a/p1788/util/io.hpp
+++ b/p1788/util/io.hpp
@@ -27,6 +27,8 @@
 #include <cctype>
 #include <ctype.h>
 #include <limits>
+#include <locale>
+#include <regex>
 #include <stdexcept>
 #include <string>
 #include <algorithm>
@@ -53,11 +55,20 @@ inline void ascii_to_lower(std::string& s)
     std::transform(s.begin(), s.end(), s.begin(),
                    [](int const c)
     {
-        return (c >= 0 && c < 128 ) ? std::tolower(c) : c;
+        return (c >= 'A' && c <= 'Z') ? c - 'A' + 'a' : c;
     }
                   );
 }
 
+// regular expression that does not depend on the global locale
+inline std::regex classic_regex(std::string const& s, std::regex::flag_type flags)
+{
+    std::regex r;
+    r.imbue(std::locale::classic());
+    r.assign(s, flags);
+    return r;
+}
+
 // add the exponent of a number literal, throws if the sum or its absolute value is out of range
 inline int add_exponent(int p, std::string const& exponent)
 {
-- 
2.43.0


From 1727f533debd263398ae0dc08c7dbf40ef95aa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:54 +0000
Subject: [PATCH 24/26] fix: reductions release their memory when an exception
 leaves them

---
 p1788/reduction/reduction.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/p1788/reduction/reduction.hpp b/p1788/reduction/reduction.hpp
index ce00722..4aaf214 100644
--- a/p1788/reduction/reduction.hpp
+++ b/p1788/reduction/reduction.hpp
@@ -90,14 +90,12 @@ class reduction_sum_op
 public:
 
     // perform op on one iterator
-    reduction_sum_op(void (*op) (Iter, mpfr_ptr*), Iter begin, Iter end, rnd_mode rnd) : n_(end - begin)
+    reduction_sum_op(void (*op) (Iter, mpfr_ptr*), Iter begin, Iter end, rnd_mode rnd) : reduction_sum_op(end - begin)
     {
         // form and accumulate the terms without intermediate over- or underflow
         mpfr_set_emin(mpfr_get_emin_min());
         mpfr_set_emax(mpfr_get_emax_max());
 
-        tab_ = new mpfr_ptr[n_];    // array of elemets
-
         mpfr_ptr* p = tab_;
 
         // perform op on iterator
@@ -122,14 +120,12 @@ public:
     }
 
     // perform op on two interators
-    reduction_sum_op(void (*op) (Iter, Iter, mpfr_ptr*), Iter begin_a, Iter end_a, Iter begin_b, rnd_mode rnd) : n_(end_a - begin_a)
+    reduction_sum_op(void (*op) (Iter, Iter, mpfr_ptr*), Iter begin_a, Iter end_a, Iter begin_b, rnd_mode rnd) : reduction_sum_op(end_a - begin_a)
     {
         // form and accumulate the terms without intermediate over- or underflow
         mpfr_set_emin(mpfr_get_emin_min());
         mpfr_set_emax(mpfr_get_emax_max());
 
-        tab_ = new mpfr_ptr[n_];    // array of elemets
-
         mpfr_ptr* p = tab_;
 
         // perform op on iterator
@@ -158,6 +154,10 @@ public:
     {
         for(mpfr_ptr* b = tab_; b != tab_ + n_; ++b)
         {
+            // not set if an exception left op
+            if (!*b)
+                continue;
+
             mpfr_clear(*b);
             delete[] *b;
         }
@@ -174,6 +174,11 @@ public:
     }
 
 private:
+    // the destructor cleans up as soon as this constructor has ended, even if the ones that delegate to it are left by an exception
+    explicit reduction_sum_op(size_t n) : n_(n), result_(), tab_(new mpfr_ptr[n]())    // array of elemets
+    {
+    }
+
     size_t const n_;
     typename std::iterator_traits<Iter>::value_type result_;
     mpfr_ptr* tab_;
-- 
2.43.0


From da623a707e3e438142237b37ec7f30ace801aa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:54 +0000
Subject: [PATCH 25/26] fix: a decorated interval is written completely or the
 stream gets bad

---
 .../infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 064ee76..22bf225 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -452,6 +452,7 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
     buf.copyfmt(os);
 
     // standard format settings must not change or split the literal
+    buf.exceptions(std::ios_base::goodbit);
     buf.imbue(std::locale::classic());
     buf.setf(std::ios_base::dec, std::ios_base::basefield);
     buf.width(0);
@@ -482,9 +483,17 @@ mpfr_bin_ieee754_flavor<T>::operator_interval_to_text(std::basic_ostream<CharT,
     // generate bare output
     std::stringstream bare;
     bare.copyfmt(os);
+    bare.exceptions(std::ios_base::goodbit);
     bare.width(0);
     operator_interval_to_text(bare, x.first);
 
+    // do not write a part of the literal only
+    if (!buf || !bare)
+    {
+        os.setstate(std::ios_base::badbit);
+        return os;
+    }
+
     // append decoration
     return os << bare.str() + buf.str();
 }
-- 
2.43.0


From f8e4851521dcd73c4a25c9e277b0ff066b1ade7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:54 +0000
Subject: [PATCH 26/26] fix: the variable keeps its value if the stream fails
 behind the bounds of a literal

---
 .../infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp   | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
index 22bf225..f64de87 100644
--- a/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
+++ b/p1788/flavor/infsup/setbased/mpfr_bin_ieee754_flavor_io_impl.hpp
@@ -1093,6 +1093,10 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                             // default decoration
                             if (!read_decoration)
                             {
+                                // the stream failed before the end of the literal was found
+                                if (is.bad())
+                                    return is;
+
                                 // if is.peek() == '_' reached eof than reset state
                                 if (is.eof())
                                     is.clear(std::ios_base::goodbit);
@@ -1380,6 +1384,10 @@ mpfr_bin_ieee754_flavor<T>::operator_text_to_interval(std::basic_istream<CharT,
                                 // default decoration
                                 if (!read_decoration)
                                 {
+                                    // the stream failed before the end of the literal was found
+                                    if (is.bad())
+                                        return is;
+
                                     // if is.peek() == '_' reached eof than reset state
                                     if (is.eof())
                                         is.clear(std::ios_base::goodbit);
-- 
2.43.0

