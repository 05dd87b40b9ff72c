From 6fc279638f5eec6c0ab2a66be1a7c0ea3beecc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 01/14] fix: outperformance payoff divides by Q2*S2 instead of
 multiplying by S2/Q2

---
 src/finoptions/spread_options/bitree3d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index bbaafd2..f89be5a 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -219,7 +219,7 @@ class BionomialSpreadAllTypes(_Option):
         elif option == 7: # Exchange option
             return _np.maximum(0, z*(Q2*S2 - Q1*S1))
         elif option == 8: # Outperformance option
-            return _np.maximum(0, z*((Q1*S1 / Q2*S2) - K))
+            return _np.maximum(0, z*((Q1*S1) / (Q2*S2) - K))
         elif option == 9: # Product option
             return _np.maximum(0, z*((Q1*S1 * Q2*S2) - K))
         
-- 
2.43.0


From 6fb04a73d51231e686598c73e627d43fdf75eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 02/14] fix: symmetric Heston-Nandi likelihood sets gamma to
 zero (~True is truthy)

---
 src/finoptions/heston_nandi_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/heston_nandi_options/__init__.py b/src/finoptions/heston_nandi_options/__init__.py
index dcd5431..2709d6c 100644
--- a/src/finoptions/heston_nandi_options/__init__.py
+++ b/src/finoptions/heston_nandi_options/__init__.py
@@ -259,7 +259,7 @@ def _llhHNGarch(x0, trace, symmetric, rfr, x, ret_obj=False):
     beta = 1 / (1 + _np.exp(-beta))
 
     # Add gamma if selected:
-    if ~symmetric:
+    if not symmetric:
         gam = gamma
     else:
         gam = 0
-- 
2.43.0


From 659c29be23768acc83023461f1f02a5719e7dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 03/14] fix: Monte Carlo trace prints the running average of
 the loops so far

---
 src/finoptions/monte_carlo_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/monte_carlo_options/__init__.py b/src/finoptions/monte_carlo_options/__init__.py
index acd98fb..a1bad93 100644
--- a/src/finoptions/monte_carlo_options/__init__.py
+++ b/src/finoptions/monte_carlo_options/__init__.py
@@ -293,7 +293,7 @@ class MonteCarloOption:  # _Option
                 i,
                 "\t:",
                 iteration[i],
-                _np.sum(iteration) / (i + 1),
+                _np.sum(iteration[: i + 1]) / (i + 1),
                 end="",
             )
         print("\n")
-- 
2.43.0


From bd02e4b6d980894e76dc371c6697cb70a82aa90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:20 +0000
Subject: [PATCH 04/14] fix: redraw Sobol innovations that contain minus
 infinity as well

---
 src/finoptions/monte_carlo_options/mc_innovations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/monte_carlo_options/mc_innovations.py b/src/finoptions/monte_carlo_options/mc_innovations.py
index a1e356e..d2d6793 100644
--- a/src/finoptions/monte_carlo_options/mc_innovations.py
+++ b/src/finoptions/monte_carlo_options/mc_innovations.py
@@ -35,7 +35,7 @@ class NormalSobolInnovations(Innovations):
         sobol = self._get_sobol(scramble)
 
         # avoid inf
-        while _np.abs(_np.max(sobol)) == _np.inf:
+        while not _np.all(_np.isfinite(sobol)):
             sobol = self._get_sobol(scramble)
 
         if self._eps is None:
-- 
2.43.0


From a13b27c1b5d04256d34dd2c17268297e8792aa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 05/14] fix: options report their own class name and title in
 repr and summary

---
 src/finoptions/binomial_tree_options/__init__.py | 3 +++
 src/finoptions/spread_options/bitree3d.py        | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/binomial_tree_options/__init__.py b/src/finoptions/binomial_tree_options/__init__.py
index b2010f1..fbec3b5 100644
--- a/src/finoptions/binomial_tree_options/__init__.py
+++ b/src/finoptions/binomial_tree_options/__init__.py
@@ -504,6 +504,9 @@ class TIANBinomialTreeOption(CRRBinomialTreeOption):
     [1] Haug E.G., The Complete Guide to Option Pricing Formulas
     """
 
+    __name__ = "TIANBinomialTreeOption"
+    __title__ = "TIAN Binomial Tree Model"
+
     def _calc_price(self, z, n, type, tree=False):
         dt = self._t / n
         M = _np.exp(self._b * dt)
diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index f89be5a..53c82b0 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -110,7 +110,7 @@ class BionomialSpreadAllTypes(_Option):
     ----------
     [1] Haug E.G., The Complete Guide to Option Pricing Formulas
     """
-    __name__ = "BionomialSpreadOption"
+    __name__ = "BionomialSpreadAllTypes"
     __title__ = "Rubinstein Binomial Tree Spread Option Model"
 
     def __init__(
@@ -745,7 +745,7 @@ class BionomialSpreadOption(BionomialSpreadAllTypes):
     >>> opt.put()
     >>> opt.greeks(call=True)
     """
-    __name__ = "BionomialMinOption"
+    __name__ = "BionomialSpreadOption"
     __title__ = "Binomial Tree Spread Option Model"
 
     def __init__(
-- 
2.43.0


From 38cc2f699a3ef6e5893206c84af1de4491783243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:35 +0000
Subject: [PATCH 06/14] fix: finite-difference greeks of Black76Option accept
 the underlying S as FT

---
 src/finoptions/vanillaoptions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index 0479872..55b5428 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -587,6 +587,9 @@ class Black76Option(GBSOption):
         None
         """
 
+        if x == "S":
+            x = "FT"  # the futures price is the underlying in this model
+
         tmp = self.get_params()
         tmp[x] = value
 
-- 
2.43.0


From 9d6b9d7a584aedec4cbc506fcda3a0274201f497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:49 +0000
Subject: [PATCH 07/14] fix: clip the reduced correlations of the bivariate
 normal against rounding

---
 src/finoptions/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index 713d069..4805717 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -123,6 +123,9 @@ class _Base(ABC):
                 * _np.sign(b)
                 / _np.sqrt(a ** 2 - 2 * rho * a * b + b ** 2)
             )
+            # rounding may push a correlation just outside of [-1, 1]
+            rho1 = _np.clip(rho1, -1, 1)
+            rho2 = _np.clip(rho2, -1, 1)
             delta = (1 - _np.sign(a) * _np.sign(b)) / 4
             result = self._CBND(a, 0, rho1) + self._CBND(b, 0, rho2) - delta
             return result
-- 
2.43.0


From 2ee6b42c66b337682ecef9ffd78f3738d0c7ce3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 08/14] fix: BAW critical price iteration switches to the exact
 slope when it cycles

---
 src/finoptions/basic_american_options/__init__.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 50b60bc..9d9adbd 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -435,6 +435,7 @@ class BAWAmericanApproxOption(_Option):
             / Q2
         )
         E = 0.000001
+        iterations = 0
 
         # Newton Raphson algorithm for finding critical price Si
         while abs(LHS - RHS) / self._K > E:
@@ -447,12 +448,16 @@ class BAWAmericanApproxOption(_Option):
                 _GBSOption(Si, self._K, self._t, self._r, self._b, self._sigma).call()
                 + (1 - _np.exp((self._b - self._r) * self._t) * self._CND(d1)) * Si / Q2
             )
+            # this slope has the distribution function in place of the density and
+            # can cycle for ever: switch to the exact one when it does not converge
+            iterations += 1
+            slope = self._CND(d1) if iterations < 50 else self._NDF(d1)
             bi = (
                 _np.exp((self._b - self._r) * self._t) * self._CND(d1) * (1 - 1 / Q2)
                 + (
                     1
                     - _np.exp((self._b - self._r) * self._t)
-                    * self._CND(d1)
+                    * slope
                     / (self._sigma * _np.sqrt(self._t))
                 )
                 / Q2
@@ -496,6 +501,7 @@ class BAWAmericanApproxOption(_Option):
             / Q1
         )
         E = 0.000001
+        iterations = 0
 
         # Newton Raphson algorithm for finding critical price Si
         while abs(LHS - RHS) / self._K > E:
@@ -510,12 +516,16 @@ class BAWAmericanApproxOption(_Option):
                 * Si
                 / Q1
             )
+            # this slope has the distribution function in place of the density and
+            # can cycle for ever: switch to the exact one when it does not converge
+            iterations += 1
+            slope = self._CND(-d1) if iterations < 50 else self._NDF(d1)
             bi = (
                 -_np.exp((self._b - self._r) * self._t) * self._CND(-d1) * (1 - 1 / Q1)
                 - (
                     1
                     + _np.exp((self._b - self._r) * self._t)
-                    * self._CND(-d1)
+                    * slope
                     / (self._sigma * _np.sqrt(self._t))
                 )
                 / Q1
-- 
2.43.0


From d2bea5be6315d4d05ff820ee6cc6ce6d21269787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:47 +0000
Subject: [PATCH 09/14] fix: BAW critical price seed stays inside the exercise
 region

---
 src/finoptions/basic_american_options/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 9d9adbd..29e5cf8 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -413,7 +413,8 @@ class BAWAmericanApproxOption(_Option):
             * self._K
             / (Su - self._K)
         )
-        Si = self._K + (Su - self._K) * (1 - _np.exp(h2))
+        # the seed formula leaves the exercise region when b is very negative
+        Si = max(self._K, self._K + (Su - self._K) * (1 - _np.exp(h2)))
         X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
         d1 = (_np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
@@ -479,7 +480,8 @@ class BAWAmericanApproxOption(_Option):
             * self._K
             / (self._K - Su)
         )
-        Si = Su + (self._K - Su) * _np.exp(h1)
+        # the seed formula leaves the exercise region when b is very large
+        Si = min(self._K, Su + (self._K - Su) * _np.exp(h1))
         X = 2 * self._r / (self._sigma ** 2 * (1 - _np.exp(-self._r * self._t)))
         d1 = (_np.log(Si / self._K) + (self._b + self._sigma ** 2 / 2) * self._t) / (
             self._sigma * _np.sqrt(self._t)
-- 
2.43.0


From 14599e91fecb11d3e22329e2a6a3a52d03027cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:25 +0000
Subject: [PATCH 10/14] fix: rho accepts an array of costs of carry like the
 other greeks

---
 src/finoptions/vanillaoptions.py | 35 ++++++++++++++------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/finoptions/vanillaoptions.py b/src/finoptions/vanillaoptions.py
index 55b5428..51c311f 100644
--- a/src/finoptions/vanillaoptions.py
+++ b/src/finoptions/vanillaoptions.py
@@ -300,31 +300,26 @@ class GBSOption(Option):
         if method == "analytic":
             if call == True:
                 price = self.call()
-                if self._b != 0:
-                    result = (
-                        self._t
-                        * self._K
-                        * _np.exp(-self._r * self._t)
-                        * self._CND(self._d2)
-                    )
-                else:
-                    result = -self._t * price
+                result = (
+                    self._t
+                    * self._K
+                    * _np.exp(-self._r * self._t)
+                    * self._CND(self._d2)
+                )
             else:
                 price = self.put()
-                if self._b != 0:
-                    result = (
-                        -self._t
-                        * self._K
-                        * _np.exp(-self._r * self._t)
-                        * self._CND(-self._d2)
-                    )
-                else:
-                    result = -self._t * price
+                result = (
+                    -self._t
+                    * self._K
+                    * _np.exp(-self._r * self._t)
+                    * self._CND(-self._d2)
+                )
 
-            return result
+            # element by element if b is an array, multiply by 1 to return float vs array for scalars
+            return _np.where(self._b != 0, result, -self._t * price) * 1
         elif method == "fdm":
             # This only works if the cost to carry b is zero....
-            if self._b == 0:
+            if _np.all(self._b == 0):
                 return self._greeks.rho(call=call)
             else:
                 raise ValueError(
-- 
2.43.0


From f4394afa6afb5c3e4b08d7584649d39beb39b8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:41 +0000
Subject: [PATCH 11/14] fix: RollGeskeWhaleyOption prices an option whose
 critical price is out of reach

The European price on the escrowed spot was computed and then thrown away
for a ValueError, so that volatility(), whose bracket reaches sigma = 10,
failed for about half of all options.
---
 src/finoptions/basic_american_options/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/finoptions/basic_american_options/__init__.py b/src/finoptions/basic_american_options/__init__.py
index 29e5cf8..3355bc3 100644
--- a/src/finoptions/basic_american_options/__init__.py
+++ b/src/finoptions/basic_american_options/__init__.py
@@ -134,7 +134,7 @@ class RollGeskeWhaleyOption(_Option):
             result = _GBSOption(
                 Sx, self._K, self._t, self._r, b=self._r, sigma=self._sigma
             ).call()
-            raise ValueError("HighS > big setting")
+            return result
 
         LowS = 0
         I = HighS * 0.5
-- 
2.43.0


From d56a9b06d77db0a895624c1bacffa55f0c39e985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:39 +0000
Subject: [PATCH 12/14] fix: trinomial and two-asset trees reject an unknown
 exercise type

They returned a number for any other type: the trinomial tree the lowest
terminal payoff, the two-asset tree the European price.
---
 src/finoptions/binomial_tree_options/__init__.py | 2 ++
 src/finoptions/spread_options/bitree3d.py        | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/finoptions/binomial_tree_options/__init__.py b/src/finoptions/binomial_tree_options/__init__.py
index fbec3b5..faa22b3 100644
--- a/src/finoptions/binomial_tree_options/__init__.py
+++ b/src/finoptions/binomial_tree_options/__init__.py
@@ -582,6 +582,8 @@ class TrinomialTreeOption(CRRBinomialTreeOption):
     __title__ = "Trinomial Tree Model"
 
     def _calc_price(self, z, n, type, tree):
+        if type not in ("european", "american"):
+            raise ValueError("type must be 'european' or 'american'")
 
         dt = self._t / n
 
diff --git a/src/finoptions/spread_options/bitree3d.py b/src/finoptions/spread_options/bitree3d.py
index 53c82b0..f9940d3 100644
--- a/src/finoptions/spread_options/bitree3d.py
+++ b/src/finoptions/spread_options/bitree3d.py
@@ -159,6 +159,9 @@ class BionomialSpreadAllTypes(_Option):
         self._greeks = GreeksFDM(self)
 
     def _calc_price(self, z, n, otype, tree):
+        if otype not in ("european", "american"):
+            raise ValueError("otype must be 'european' or 'american'")
+
         # fmt: off
         
         OptionValue = _np.zeros((n+2,n+2))
-- 
2.43.0


From dfb2d5544447ea189160f5a378f3a80cf3038204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:25 +0000
Subject: [PATCH 13/14] fix: tree options reject array arguments

An array of length n + 1 was broadcast against the terminal nodes and priced
silently wrong; other lengths raised by accident.
---
 src/finoptions/binomial_tree_options/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finoptions/binomial_tree_options/__init__.py b/src/finoptions/binomial_tree_options/__init__.py
index faa22b3..7f83b50 100644
--- a/src/finoptions/binomial_tree_options/__init__.py
+++ b/src/finoptions/binomial_tree_options/__init__.py
@@ -157,6 +157,9 @@ class CRRBinomialTreeOption(_Option):
         type: str = "european",
         n: int = 5,
     ):
+        if self._check_array(S, K, t, r, b, sigma) == True:
+            raise TypeError("Arrays not supported as arguments for this option class")
+
         self._S = S
         self._K = K
         self._t = t
-- 
2.43.0


From 41a3bd0d1d94c3bab30b869099c465bb18025f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:26 +0000
Subject: [PATCH 14/14] fix: bivariate normal of undefined arguments is nan,
 not None (finite-difference greeks of low-priced Roll-Geske-Whaley options
 raised TypeError)

---
 src/finoptions/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/finoptions/base.py b/src/finoptions/base.py
index 4805717..5a8a668 100644
--- a/src/finoptions/base.py
+++ b/src/finoptions/base.py
@@ -130,6 +130,9 @@ class _Base(ABC):
             result = self._CBND(a, 0, rho1) + self._CBND(b, 0, rho2) - delta
             return result
 
+        # undefined arguments, e.g. finite difference steps to a negative price
+        return _np.nan
+
 
 class Derivative(_Base):
     pass
-- 
2.43.0

