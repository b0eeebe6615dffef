From d39f216bb513adee6b7d6a9bb73ca41c5b10cb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:51 +0000
Subject: [PATCH 001/102] fix: cyclic products over groups larger than the
 cyclic group lost powers of invariant factors

---
 triples/utils/expression/cyclic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index 0e71db3..4522310 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -618,7 +618,7 @@ class CyclicProduct(CyclicExpr):
 
         if isinstance(expr, Mul):
             cyc_args = list(filter(lambda x: is_cyclic_expr(x, symbols, perm), expr.args))
-            cyc_args = [arg ** len(symbols) for arg in cyc_args]
+            cyc_args = [arg ** perm.order() for arg in cyc_args]
             uncyc_args = list(filter(lambda x: not is_cyclic_expr(x, symbols, perm), expr.args))
             obj0 = Mul(*[cls(arg, symbols, perm) for arg in uncyc_args])
             obj = Mul(obj0, *cyc_args)
@@ -629,7 +629,7 @@ class CyclicProduct(CyclicExpr):
         c, p = self.args[0].as_content_primitive(radical=radical, clear=clear)
         if c is S.One:
             return S.One, self
-        return c ** len(self.symbols), CyclicProduct(p, *self.args[1:])
+        return c ** self.perm.order(), CyclicProduct(p, *self.args[1:])
 
 
 def SymmetricSum(expr, symbols, **kwargs):
-- 
2.43.0


From a32711a65301d92826dd8c22c87e96d42abde571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:23 +0000
Subject: [PATCH 002/102] fix: xreplace on a cyclic expression captured symbols
 outside its symbol tuple

---
 triples/utils/expression/cyclic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index 4522310..c5bf773 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -340,7 +340,11 @@ class CyclicExpr(sp.Expr):
             other_rules = [fs(k) | fs(v) for k, v in rule.items() if not k in changed_vars]
             if not any(_.intersection(self_vars) for _ in other_rules):
                 new_symbols = tuple(rule.get(s, s) for s in self.symbols)
-                if len(set(new_symbols)) == len(new_symbols):
+                # symbols of the summand that are not permuted should not be mixed up with the new ones
+                outer_vars = set.union(set(),
+                    *(fs(rule.get(s, s)) for s in self.args[0].free_symbols - self_vars),
+                    *(fs(v) for k, v in rule.items() if not isinstance(k, Symbol)))
+                if len(set(new_symbols)) == len(new_symbols) and outer_vars.isdisjoint(new_symbols):
                     # distinct new symbols
                     return _xreplace_arg0(self, rule, new_symbols)
 
-- 
2.43.0


From f74b31c1389d8a153062bb4cf80460f4960d2f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:27 +0000
Subject: [PATCH 003/102] fix: partial xreplace on a cyclic expression dropped
 terms when the group is not a direct product

---
 triples/utils/expression/cyclic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index c5bf773..8241ef4 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -380,6 +380,9 @@ class CyclicExpr(sp.Expr):
             new_args = []
             changed = False
             stab_perp = self.perm.pointwise_stabilizer(list(unchanged_inds))
+            if stab.order() * stab_perp.order() != self.perm.order():
+                # the group is not the direct product of the two stabilizers
+                return _fallback_xreplace(self, rule)
             for p in stab_perp.elements:
                 # make every unchanged inds unchanged
                 # i.e. stab_perp.contains(p)
-- 
2.43.0


From efa9b34761d0654f6abaebd196aea01f226d2a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:43 +0000
Subject: [PATCH 004/102] fix: s(a^n)*p(a) was certified by twice its value

---
 triples/core/structsos/ternary/sparse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/sparse.py b/triples/core/structsos/ternary/sparse.py
index 5a6ee2b..d7c0ef4 100644
--- a/triples/core/structsos/ternary/sparse.py
+++ b/triples/core/structsos/ternary/sparse.py
@@ -405,7 +405,9 @@ def _sos_struct_sparse_amgm(coeff):
     monoms = list(monoms)
     if len(monoms) == 1:
         degree = coeff.degree()
-        monoms.append(CoeffMonom(degree, 0, 0))
+        vertex = CoeffMonom(degree, 0, 0)
+        # the second monomial (of zero coefficient) must differ from the first one
+        monoms.append(vertex if monoms[0] != vertex else CoeffMonom(degree - 1, 1, 0))
 
     def getv(m):
         v = coeff(m)
-- 
2.43.0


From 2f213af46d5746d9a72897074b5d0f0ce17598a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:38 +0000
Subject: [PATCH 005/102] fix: quintic certificates contained floats when
 dividing an integer 1

---
 triples/core/structsos/ternary/quintic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index 44e7a93..cb0527c 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -64,7 +64,7 @@ def _solve_sa2minusab_mul_cubic(x, y, mul = sp.S(1)):
     When (x, y) is not on the curve, it would be a linear combination of two points on the curve.
     """
     if x >= 0 and y >= 0:
-        cubic_poly = Coeff({(3,0,0): 1, (2,1,0): x, (1,2,0): y, (1,1,1): -3*(x+y+1)})
+        cubic_poly = Coeff({(3,0,0): sp.S(1), (2,1,0): x, (1,2,0): y, (1,1,1): -3*(x+y+1)})
         return sp.Rational(1,2) * mul * CyclicSum((a-b)**2) * sos_struct_cubic(cubic_poly)
 
     def _solve_t(t):
-- 
2.43.0


From 5826a8c488649a3e3cd22770cb338aefcfe373ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:32 +0000
Subject: [PATCH 006/102] fix: a sextic symmetric certificate dropped the
 a^2b^2c^2 remainder

---
 triples/core/structsos/ternary/sextic_symmetric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index 32eead5..3403c5a 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -703,7 +703,8 @@ def _sos_struct_sextic_symmetric_schur_split(coeff, real = False):
         c411 + 2*c420 + 4*c510 + 3*c600,
         2*c321 + 2*c330 + 2*c411 + 4*c420 + 6*c510 + 4*c600,
         c330 + 2*c420 + 2*c510 + 2*c600,
-        -c330/3 - c411/3 - c420/3 - 2*c510 - 2*c600
+        -c330/3 - c411/3 - c420/3 - 2*c510 - 2*c600,
+        c222 + 6*c321 + 3*c330 + 3*c411 + 6*c420 + 6*c510 + 3*c600
     ])
     if all(_ >= 0 for _ in y):
         # Case 3.
@@ -713,7 +714,8 @@ def _sos_struct_sextic_symmetric_schur_split(coeff, real = False):
             CyclicSum(a**2*(a*b+a*c-b**2-c**2)**2)/6,
             CyclicSum(a**2*b*c*(b-c)**2)/2,
             CyclicSum((a*b**2+a*c**2-b**2*c-b*c**2)**2)/6,
-            CyclicProduct((a-b)**2)
+            CyclicProduct((a-b)**2),
+            CyclicProduct(a**2)
         ]
         return sum_y_exprs(y, exprs)
 
-- 
2.43.0


From a8e9b20373dbca40df195c0f0445a24521d2be7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:14 +0000
Subject: [PATCH 007/102] fix: uncentered quartic added None to the remainder
 when the core failed

---
 triples/core/structsos/ternary/quartic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quartic.py b/triples/core/structsos/ternary/quartic.py
index fb2c99d..caeaf80 100644
--- a/triples/core/structsos/ternary/quartic.py
+++ b/triples/core/structsos/ternary/quartic.py
@@ -449,7 +449,10 @@ def _sos_struct_quartic_uncentered(coeff):
         # then it is directly handled by the core function after subtracting enough s(a^2bc)
         # (so that the remaining polynomial has zero at (1,1,1))
         new_coeff = Coeff({(4,0,0):m, (3,1,0):p, (2,2,0):n, (1,3,0):q, (2,1,1):-(m+p+n+q)})
-        return _sos_struct_quartic_core(new_coeff) + rem * CyclicSum(a**2*b*c)
+        solution = _sos_struct_quartic_core(new_coeff)
+        if solution is None:
+            return None
+        return solution + rem * CyclicSum(a**2*b*c)
 
     # assume the inequality holds, then on the border it must >= 0
     if 2*p + q >= 0 or 2*q + p >= 0 or radsimp((2*p+q)*(2*q+p) - 9*m**2) <= 0:
-- 
2.43.0


From 977650e0511525a9dc72ac15b04b3c17641ce48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:21 +0000
Subject: [PATCH 008/102] fix: symmetric sextic hexagon called its validity
 test on an undetermined parameter

---
 triples/core/structsos/ternary/sextic_symmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index 3403c5a..6671c79 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -198,7 +198,7 @@ def _sos_struct_sextic_hexagon_symmetric_sdp(coeff):
             # when l22 == 0, there is no degree of freedom
             u = radsimp(6*w2/denom)
 
-        if l22 > 0 and not _is_valid(u):
+        if l22 > 0 and (u is None or not _is_valid(u)):
             eq_u = sp.Poly.from_list(
                 [-2*c321 + 10*c420 + 3*w1 - 9*w2, -9*c321 + 36*c420 + 9*w1 - 45*w2, -9*c321 + 36*c420 + 9*w1 - 81*w2, -54*w2],
                 sp.Symbol('u')
-- 
2.43.0


From 802945b83a0fcf842eca2cc36f79305559c7ac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:54 +0000
Subject: [PATCH 009/102] fix: bivariate solver divided by zero when two
 constraints bound a line

---
 triples/core/structsos/pivoting/bivariate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/core/structsos/pivoting/bivariate.py b/triples/core/structsos/pivoting/bivariate.py
index 854a21e..eb6570a 100644
--- a/triples/core/structsos/pivoting/bivariate.py
+++ b/triples/core/structsos/pivoting/bivariate.py
@@ -174,6 +174,9 @@ def _sos_struct_bivariate_linear_ineq(poly, ineq_constraints, eq_constraints):
         # a = (v*y - z*x) / (v*w - u*z), b = (u*y - w*x) / (u*z - v*w)
         (u, v), expr1 = bound[0]
         (w, z), expr2 = bound[1]
+        if v*w - u*z == 0:
+            # the feasible region degenerates to a line
+            return None
         y = uniquely_named_symbol('y', (a, b, *expr1.free_symbols, *expr2.free_symbols))
         poly2 = poly.subs({a: (v*y - z)/(v*w - u*z), b: (u*y - w)/(u*z - v*w)}).as_poly(y)
         sol = prove_univariate_interval(poly2, (0, sp.oo), return_raw=True)
-- 
2.43.0


From 79bd3491749c980e500535b48557bc94c4e0190c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:42 +0000
Subject: [PATCH 010/102] fix: symmetric octic certificate contained nan when a
 kernel denominator vanished

---
 .../core/structsos/ternary/octic_symmetric.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/triples/core/structsos/ternary/octic_symmetric.py b/triples/core/structsos/ternary/octic_symmetric.py
index 58ec3da..f4a6dfe 100644
--- a/triples/core/structsos/ternary/octic_symmetric.py
+++ b/triples/core/structsos/ternary/octic_symmetric.py
@@ -308,12 +308,21 @@ def _sos_struct_octic_symmetric_hexagon_sdp(coeff):
         if t is None:
             return None
 
-        u210 = sp.S(1)
-        u201 = t
-        u102 = -(t + 1)*(3*t*w2 - t*w4 + 2*w4)/(3*t*w2 - t*w4 - w4)
-        u111 = -(3*t**2*w2 - t**2*w4 - 3*t*w2 + 3*t*w4 - 5*w4)/(3*t*w2 - t*w4 - w4)
         reg = 162*t**2*w4
-        r = (3*t*w2 - t*w4 - w4)**2 / reg
+        p = 3*t*w2 - t*w4 - w4
+        if p != 0:
+            u210 = sp.S(1)
+            u201 = t
+            u102 = -(t + 1)*(3*t*w2 - t*w4 + 2*w4)/p
+            u111 = -(3*t**2*w2 - t**2*w4 - 3*t*w2 + 3*t*w4 - 5*w4)/p
+            r = p**2 / reg
+        else:
+            # multiply the kernel by p and take limit p -> 0
+            u210 = sp.S(0)
+            u201 = sp.S(0)
+            u102 = -(t + 1)*(3*t*w2 - t*w4 + 2*w4)
+            u111 = -(3*t**2*w2 - t**2*w4 - 3*t*w2 + 3*t*w4 - 5*w4)
+            r = 1 / reg
         M00t, M01t, M02t, M22t = [f(t)/reg for f in (M00t, M01t, M02t, M22t)]
         quad_form = stack_quad_form(M00t, M01t, M02t, M22t)
         return u210, u102, u201, u111, r, quad_form
-- 
2.43.0


From 42b7c839fa0160d22364515c5f0d1630515719b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:42 +0000
Subject: [PATCH 011/102] fix: odd degree univariate proofs crashed when the
 leading coefficient was rounded

---
 triples/core/structsos/pivoting/univariate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index af312ba..65da13d 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -311,6 +311,9 @@ def _determine_diagonal_entries(M: Union[sp.Matrix, List[sp.Matrix]], poly: sp.P
 
         M = M[1]
         n = M.shape[0]
+        if poly.degree() == 2*n - 1:
+            # the leading term of an odd-degree polynomial is only in the minor matrix
+            M[0, 0] = poly.LC()
         all_coeffs = [0] * (M.shape[1] * 2 - 1)
         for i in range(len(all_coeffs)):
             m = i // 2
-- 
2.43.0


From fbd39a5d066ec7b6754c65ea395ace7afc3b6054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:09 +0000
Subject: [PATCH 012/102] fix: acyclic quartic certificate ignored an asymmetry
 in one monomial pair

---
 triples/core/structsos/ternary/quartic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quartic.py b/triples/core/structsos/ternary/quartic.py
index caeaf80..99dd311 100644
--- a/triples/core/structsos/ternary/quartic.py
+++ b/triples/core/structsos/ternary/quartic.py
@@ -628,7 +628,7 @@ def _sos_struct_acyclic_quartic_symmetric(coeff, real = True):
     mappings = [(lambda i, j: (i,j,4-i-j)), (lambda i, j: (i,4-i-j,j)), (lambda i, j: (4-i-j,i,j))]
     symbol_orders = [sp.symbols("a b c"), sp.symbols("a c b"), sp.symbols("b c a")]
     for symbol_order, mapping in zip(symbol_orders, mappings):
-        if all(coeff(mapping(i,j)) == coeff(mapping(j,i)) for i,j in ((4,0),(3,1),(3,0),(2,1),(2,0))):
+        if all(coeff(mapping(i,j)) == coeff(mapping(j,i)) for i,j in ((4,0),(3,1),(3,0),(2,1),(2,0),(1,0))):
             break
     else:
         return None
-- 
2.43.0


From e7f2bfce1d8b13efe33c4fdf61af38be804843b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:51 +0000
Subject: [PATCH 013/102] fix: septic hexagon solver crashed when a determinant
 had no real root

---
 triples/core/structsos/ternary/septic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/ternary/septic.py b/triples/core/structsos/ternary/septic.py
index 2d292d4..0a8a36d 100644
--- a/triples/core/structsos/ternary/septic.py
+++ b/triples/core/structsos/ternary/septic.py
@@ -395,7 +395,8 @@ def _sos_struct_septic_hexagon(coeff):
                     break
 
         if isinstance(z, sp.Symbol):
-            z = min(nroots(det, method = 'factor', real = True))
+            z_candidates = nroots(det, method = 'factor', real = True)
+            z = min(z_candidates) if len(z_candidates) else None
 
         # check whether we succeed if we subtract s(ab)s(a^4b + pa^3b^2 + qa^2b^3 + ab^4 + za^3bc - (p+q+z+2)a^2b^2c)
         # Theorem 2.
@@ -437,7 +438,7 @@ def _sos_struct_septic_hexagon(coeff):
             return False
 
         # print(_compute_mpnq(z))
-        if _verify(z, check_quintic_det = False):
+        if z is not None and _verify(z, check_quintic_det = False):
             if isinstance(z, sp.Float):
                 for z_ in rationalize_bound(z, direction = 1, compulsory = True):
                     if _verify(z_):
-- 
2.43.0


From 88d46e6469295b72cf201b075d4b2e04cb9f87e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:51 +0000
Subject: [PATCH 014/102] fix: uncentered quintic certificate dropped the
 surplus of s(a^2b^2c)

---
 triples/core/structsos/ternary/quintic.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index cb0527c..6ae7ac1 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -1473,6 +1473,16 @@ def _sos_struct_quintic_uncentered(coeff):
             CyclicSum(a*c*(a-b)**2*((r1-r1_)*c + (r2-r2_)/2*b)) * multiplier
         ]
 
+        if rem > 0:
+            # u, v are determined by r1, r2, and they fix the value at a = b = c.
+            # The rest is a multiple of s(a^2b^2c).
+            center = {a: 1, b: 1, c: 1}
+            rest = 3*rem - sum(y_ * expr.doit().subs(center) for y_, expr in zip(y, exprs)) / multiplier.doit().subs(center)
+            if rest < 0:
+                return None
+            y.append(rest / 3)
+            exprs.append(CyclicSum(a*b) * CyclicProduct(a) * multiplier)
+
         return sum_y_exprs(y, exprs) / multiplier
 
     return None
-- 
2.43.0


From ffeb2f3896761315f35c62ba69da2609db2f7c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:46 +0000
Subject: [PATCH 015/102] fix: symmetric acyclic cubic crashed on a positive
 mixed term

---
 triples/core/structsos/ternary/cubic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/triples/core/structsos/ternary/cubic.py b/triples/core/structsos/ternary/cubic.py
index 0a5ad28..01dec32 100644
--- a/triples/core/structsos/ternary/cubic.py
+++ b/triples/core/structsos/ternary/cubic.py
@@ -413,9 +413,12 @@ def _sos_struct_acyclic_cubic_symmetric(coeff):
             if not (x4 >= 0 and x2 >= 0 and 4*sp.sqrt(x4*x1) + 2*x2 + x5 >= 0):
                 return None
             p1 = x2 * c*(a-b)**2
-            p2 = quadratic_weighting(x4, x5/2 + x2, x1, a=a, b=c) * b
-            p3 = quadratic_weighting(x4, x5/2 + x2, x1, a=b, b=c) * a
-            return p1 + p2 + p3
+            # nonnegative mixed term x*a*b*c is already nonnegative and leaves the quadratic form
+            x = x5/2 + x2
+            w = x if x > 0 else sp.S(0)
+            p2 = quadratic_weighting(x4, x - w, x1, a=a, b=c) * b
+            p3 = quadratic_weighting(x4, x - w, x1, a=b, b=c) * a
+            return p1 + p2 + p3 + 2*w*a*b*c
         if x2 < 0 and 4*x1*x3 < x2**2:
             return None
         # The following x40 makes the symmetric axis have a multiplicity root (a,b,c) = (1,1,sym_c)
-- 
2.43.0


From ebf2fc8a9eccaeb43238fabd59bb2e427b8b92de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:00 +0000
Subject: [PATCH 016/102] fix: solve_csr_linear ignored free and inconsistent
 rows of separated systems

Property: C15
---
 triples/sdp/arithmetic.py | 71 ++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/triples/sdp/arithmetic.py b/triples/sdp/arithmetic.py
index 5245375..aa0b74a 100644
--- a/triples/sdp/arithmetic.py
+++ b/triples/sdp/arithmetic.py
@@ -392,7 +392,8 @@ def solve_column_separated_linear(A: sp.Matrix, b: sp.Matrix, x0_equal_indices:
     """
     This is a function that solves a special linear system Ax = b => x = x_0 + C * y
     where each column of A has at most 1 nonzero element. For more general cases, use solve_csr_linear.
-    Further, we could require some of entries of x to be equal.
+    Further, we could require some of entries of x to be equal. In this case columns of equal entries
+    should have their nonzero elements in the same row.
 
     Parameters
     ----------
@@ -440,53 +441,45 @@ def solve_column_separated_linear(A: sp.Matrix, b: sp.Matrix, x0_equal_indices:
     A = A._rep.convert_to(domain).rep.to_sdm() # SDM
     b = b._rep.convert_to(domain).rep.to_sdm() # SDM
 
+    for i, bi in b.items():
+        if bi.get(0, zero) and not A.get(i):
+            raise ValueError("Linear system has no solution")
+
     x0 = []
     spaces = []
+    used = set()
     for i, row in A.items():
-        row = list(row.items())
+        # merge the columns that are required to be equal
+        merged = {}
+        for j, v in row.items():
+            merged[ufs[j]] = merged.get(ufs[j], zero) + toK(v)
+        row = [(head, w) for head, w in merged.items() if w]
+        used.update(head for head, _ in row)
+
+        bi = b.get(i, {}).get(0, zero)
         if len(row):
-            pivot = row[0]
-            head = ufs[pivot[0]]
+            head, w = row[0]
             group = groups[head]
-            w = len(group) * toK(pivot[1])
-            bi = b.get(i, 0)
             if bi:
-                bi = bi.get(0, zero)
                 v = bi / w
                 for k in group:
                     x0.append((k, {0: v}))
 
-            for j in range(1, len(row)):
-                pivot2 = row[j]
-                head2 = ufs[pivot2[0]]
-                if pivot2[0] != head2 or head2 == head:
-                    continue
-                # only handle the case that pivot is the head of the group
-                group2 = groups[head2]
-                w2 = len(group2) * toK(pivot2[1])
-
+            for head2, w2 in row[1:]:
                 space = {}
-                if w2:
-                    for k in group:
-                        space[k] = w2
-                if w:
-                    for k in group2:
-                        space[k] = -w
+                for k in group:
+                    space[k] = w2
+                for k in groups[head2]:
+                    space[k] = -w
                 spaces.append(space)
 
-        else:
-            bi = b.get(i, 0)
-            if bi != 0 and bi.get(0, zero) != zero:
-                raise ValueError("Linear system has no solution")
-
-            for j in range(len(row)):
-                if ufs[row[j][0]] == row[j][0]:
-                    group = groups[row[j][0]]
+        elif bi:
+            raise ValueError("Linear system has no solution")
 
-                    space = {}
-                    for k in group:
-                        space[k] = one
-                    spaces.append(space)
+    # columns that do not appear in any equation are free
+    for head, group in groups.items():
+        if head not in used:
+            spaces.append({k: one for k in group})
 
     x0 = dict(x0)
     spaces = dict(enumerate(spaces))
@@ -536,13 +529,13 @@ def solve_csr_linear(A: sp.Matrix, b: sp.Matrix, x0_equal_indices: List[List[int
     # check whether there is at most one nonzero element in each column
     if isinstance(A, RepMatrix) and isinstance(b, RepMatrix):
         _column_separated = True
+        heads = {i: group[0] for group in x0_equal_indices for i in group}
         seen_cols = set()
         for row in Arep.values():
-            for col, _ in row.items():
-                if col in seen_cols:
-                    _column_separated = False
-                    break
-                seen_cols.add(col)
+            row_cols = set(heads.get(col, col) for col in row)
+            if not seen_cols.isdisjoint(row_cols):
+                _column_separated = False
+            seen_cols.update(row_cols)
             if not _column_separated:
                 break
 
-- 
2.43.0


From a54349e94a189cb80134c1838484c16f2386979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:11 +0000
Subject: [PATCH 017/102] fix: matrix products overflowed silently on the entry
 -2**63

Property: C15
---
 triples/sdp/arithmetic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/triples/sdp/arithmetic.py b/triples/sdp/arithmetic.py
index aa0b74a..43672c1 100644
--- a/triples/sdp/arithmetic.py
+++ b/triples/sdp/arithmetic.py
@@ -611,6 +611,10 @@ def _cast_sympy_matrix_to_numpy(sympy_mat_rep, dtype: str = 'int64'):
         col_indices[k] = j
         data_list[k] = v.__int__()
 
+    if data_list and dtype == 'int64' and min(data_list) < -_INT64_MAX:
+        # abs(-2**63) is not representable, which defeats the magnitude guards
+        raise OverflowError("Python int too large to convert to int64.")
+
     arr = np_zeros((rows, cols), dtype=dtype)
     if data_list:
         arr[row_indices, col_indices] = data_list
-- 
2.43.0


From ee2aa050a9bef3f93bc07fe90f8803faa4f720fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:38 +0000
Subject: [PATCH 018/102] fix: symmetric_bilinear_multiple crashed on empty
 matrices

Property: C15
---
 triples/sdp/arithmetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/arithmetic.py b/triples/sdp/arithmetic.py
index 43672c1..abb11c7 100644
--- a/triples/sdp/arithmetic.py
+++ b/triples/sdp/arithmetic.py
@@ -821,8 +821,8 @@ def symmetric_bilinear_multiple(U: sp.Matrix, A: sp.Matrix) -> sp.Matrix:
         return eq_mat
 
     N = A.shape[0]
-    if N == 0:
-        return sp.Matrix.zeros(0, U.shape[1]**2)
+    if N == 0 or U.shape[0] == 0 or U.shape[1] == 0:
+        return sp.Matrix.zeros(N, U.shape[1]**2)
 
     if not (is_zz_qq_mat(A) and is_zz_qq_mat(U)):
         return default(A0, U0)
-- 
2.43.0


From c5b4abc32c0420dfe1cece3f256cecf29f212064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:45 +0000
Subject: [PATCH 019/102] fix: Mat2Vec.mat2vec returned a generator for the
 upper mode

Property: C16
---
 triples/sdp/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/utils.py b/triples/sdp/utils.py
index cfe922e..b940efa 100644
--- a/triples/sdp/utils.py
+++ b/triples/sdp/utils.py
@@ -2,7 +2,7 @@ from contextlib import contextmanager
 from math import sqrt
 from typing import Union, Optional, Tuple, List, Dict, Callable, Generator, Any
 
-from numpy import zeros as np_zeros
+from numpy import array as np_array, zeros as np_zeros
 from numpy import ndarray
 from sympy import Matrix, MatrixBase, Expr, Rational, Symbol, re, eye, collect
 from sympy.core.relational import GreaterThan, StrictGreaterThan, LessThan, StrictLessThan, Equality, Relational
@@ -170,7 +170,8 @@ class Mat2Vec:
             elif isinstance(S, ndarray):
                 return S.flatten()
         elif mode == cls.UPPER:
-            return cls.upper_vec_of_symmetric_matrix(S)
+            vec = list(cls.upper_vec_of_symmetric_matrix(S))
+            return np_array(vec) if isinstance(S, ndarray) else Matrix(vec)
         elif mode == cls.ISOMETRIC:
             raise NotImplementedError("Isometric mode is not implemented yet.")
 
-- 
2.43.0


From 945f2a220e5394524141cf978e62abf966348023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:47 +0000
Subject: [PATCH 020/102] fix: coefficient vectors of zero univariate
 polynomials and wrong arities crashed

Property: C13
---
 triples/utils/monomials.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/triples/utils/monomials.py b/triples/utils/monomials.py
index 9031e45..63fc099 100644
--- a/triples/utils/monomials.py
+++ b/triples/utils/monomials.py
@@ -206,15 +206,16 @@ class MonomialManager():
     #     return self.standard_monom(monom)
 
     def _assert_equal_nvars(self, t: Union[int, Tuple[int, ...]]) -> bool:
-        if (t if isinstance(t, int) else len(t)) != self.nvars:
-            raise ValueError("Number of variables does not match. Expected %d but received %d." % (self.nvars, len(t)))
+        n = t if isinstance(t, int) else len(t)
+        if n != self.nvars:
+            raise ValueError("Number of variables does not match. Expected %d but received %d." % (self.nvars, n))
             return False
         return True
 
     def _arraylize_list(self, poly: Union[sp.Poly, DMP], expand_cyc: bool = False) -> List:
         rep = _poly_rep(poly)
         self._assert_equal_nvars(rep.lev + 1)
-        degree = rep.total_degree()
+        degree = max(rep.total_degree(), 0) # the degree of a zero polynomial can be -oo
         dict_monoms = self.dict_monoms(degree)
         array = [rep.dom.zero] * len(dict_monoms)
         if not expand_cyc:
-- 
2.43.0


From f42840e6dc9e705d2b324b3420e89cd8a4b13e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:30 +0000
Subject: [PATCH 021/102] fix: the zero polynomial was not recognised by
 coefficient views

Property: C14
---
 triples/utils/expression/coeff.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/triples/utils/expression/coeff.py b/triples/utils/expression/coeff.py
index 058903c..2875a57 100644
--- a/triples/utils/expression/coeff.py
+++ b/triples/utils/expression/coeff.py
@@ -27,6 +27,8 @@ class Coeff():
             poly = coeffs
             coeffs = {}
             for monom, coeff in poly.terms():
+                if coeff == 0: # the zero polynomial has one term with zero coefficient
+                    continue
                 if not isinstance(coeff, sp.Rational): #isinstance(coeff, sp.Float): # and degree > 4
                     # if isinstance(coeff, sp.Float):
                     #     coeff = rationalize(coeff, reliable = True)
@@ -72,6 +74,9 @@ class Coeff():
         >>> coeff.is_cyclic()
         True
         """
+        if self.is_zero: # the number of variables could be unknown
+            return True
+
         if perm_group is None:
             perm_group = CyclicGroup(self.nvars)
 
@@ -110,7 +115,7 @@ class Coeff():
         >>> coeff.is_symmetric()
         False
         """
-        if perm_group is None:
+        if perm_group is None and not self.is_zero:
             perm_group = SymmetricGroup(self.nvars)
         return self.is_cyclic(perm_group)
 
@@ -170,7 +175,7 @@ class Coeff():
         """
         Return the total degree of the polynomial.
         """
-        return max(sum(k) for k in self.coeffs)
+        return max((sum(k) for k in self.coeffs), default=0)
 
     @property
     def is_zero(self) -> bool:
-- 
2.43.0


From 3b3b9e25ac8485983efbbaf80ade981083eea2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:09 +0000
Subject: [PATCH 022/102] fix: common region of proportional conics used a
 dictionary as a point

Property: C20
---
 triples/utils/roots/rationalize.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/triples/utils/roots/rationalize.py b/triples/utils/roots/rationalize.py
index 132c58b..deaa30d 100644
--- a/triples/utils/roots/rationalize.py
+++ b/triples/utils/roots/rationalize.py
@@ -325,9 +325,12 @@ def rationalize_quadratic_curve(
     else:
         curve = curve.as_poly(x)
         if curve.degree() == 1:
-            x = (-curve.coeffs()[1] / curve.coeffs()[0]).factor()
-            return (x, y)
-        elif curve.degree() > 2:
+            a, b = curve.all_coeffs()
+            if not one_point:
+                return {x: (-b / a).subs(y, gen).factor(), y: gen}
+            y_ = next((v for v in (sp.S(0), sp.S(1)) if a.subs(y, v) != 0), None)
+            return {x: (-b / a).subs(y, y_), y: y_} if y_ is not None else None
+        elif curve.degree() != 2:
             return
         if curve.all_coeffs()[0] < 0:
             curve = -curve
@@ -335,13 +338,18 @@ def rationalize_quadratic_curve(
         # curve = a*(x-...)^2 + curve_y
         curve_y = -curve.all_coeffs()[1]**2/4/curve.all_coeffs()[0] + curve.all_coeffs()[2]
         curve_y = curve_y.as_poly(y)
+        if curve_y.degree() != 2:
+            return
 
         # curve = a*(x-...)^2 + b*(y-...)^2 + const = 0
         const = -curve_y.all_coeffs()[1]**2/4/curve_y.all_coeffs()[0] + curve_y.all_coeffs()[2]
         x0 = -curve.all_coeffs()[1]/2/curve.all_coeffs()[0]
         y0 = -curve_y.all_coeffs()[1]/2/curve_y.all_coeffs()[0]
         a, b, c = curve.all_coeffs()[0], curve_y.all_coeffs()[0], const
-        
+        if c == 0:
+            # degenerate to a pair of lines that meet at (x0, y0)
+            return {x: x0.subs(y, y0), y: y0} if one_point else None
+
         # cancel the denominator
         r = cancel_denominator((a,b,c))
         a, b, c = a / r, b / r, c / r
@@ -425,7 +433,9 @@ def common_region_of_conics(polys: List[sp.Poly], _tol = 1e-10) -> Optional[Tupl
         gcd = sp.gcd(f1, f2).as_poly(x, y)
         if gcd.total_degree() == 2:
             # f1 is a multiple of f2
-            yield rationalize_quadratic_curve(f1, one_point=True)
+            w = rationalize_quadratic_curve(f1, one_point=True)
+            if w is not None:
+                yield w[x], w[y]
         elif gcd.total_degree() == 1:
             a, b, c = [gcd.coeff_monomial(_) for _ in [(1,0),(0,1),(0,0)]]
             # ax + by + c = 0
-- 
2.43.0


From 5ce03e4df696907613cf6c8eff494d8f27f140e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:16 +0000
Subject: [PATCH 023/102] fix: common region of conics got nan from a vanishing
 gradient

Property: C20
---
 triples/utils/roots/rationalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/utils/roots/rationalize.py b/triples/utils/roots/rationalize.py
index deaa30d..53c7414 100644
--- a/triples/utils/roots/rationalize.py
+++ b/triples/utils/roots/rationalize.py
@@ -460,8 +460,8 @@ def common_region_of_conics(polys: List[sp.Poly], _tol = 1e-10) -> Optional[Tupl
         def _grad(f, x_, y_):
             return f.diff(x)(x_, y_), f.diff(y)(x_, y_)
         def _norm(v):
-            if v[0] == 0 and v[1] == 0: return 0, 0
             m = (v[0]**2 + v[1]**2)**.5
+            if m == 0: return 0, 0
             return v[0]/m, v[1]/m
 
         # find the intersection of the two conics
-- 
2.43.0


From 32c898d74cbd05789e712155921e469d2ce0624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:48 +0000
Subject: [PATCH 024/102] fix: a constant equality constraint crashed the input
 normalisation

Property: C07
---
 triples/core/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/shared.py b/triples/core/shared.py
index 3ad4e17..81ef115 100644
--- a/triples/core/shared.py
+++ b/triples/core/shared.py
@@ -234,7 +234,7 @@ def _std_eq_constraints(p: sp.Poly, e: sp.Expr) -> Tuple[sp.Poly, sp.Expr]:
     c, lst = _sqf_list(p)
     ret = sp.S(1 if c > 0 else -1).as_poly(*p.gens, domain=p.domain)
     e = e / c
-    max_d = sp.Integer(max(1, *(d for q, d in lst)))
+    max_d = sp.Integer(max([1] + [d for q, d in lst]))
     for q, d in lst:
         ret *= q
         e = e * q.as_expr()**(max_d - d)
-- 
2.43.0


From c02532f26eab3d2482385ea245ec5b22ab31ea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:40 +0000
Subject: [PATCH 025/102] fix: the even form of a linear basis lost the odd
 powers in its polynomial

Property: C19
LinearBasisTangent.to_even moves the odd powers into the tangent; its
as_expr kept them, but as_poly and the coefficient vectors did not.
---
 triples/core/linsos/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/linsos/basis.py b/triples/core/linsos/basis.py
index a5dd767..3b0e2b0 100644
--- a/triples/core/linsos/basis.py
+++ b/triples/core/linsos/basis.py
@@ -115,7 +115,7 @@ class LinearBasisTangent(LinearBasis):
         rem_powers = tuple(d % 2 for d in self._powers)
         even_powers = tuple(d - r for d, r in zip(self._powers, rem_powers))
         def _new_tangent(s, poly=False):
-            if poly: return self._tangent(s, poly=True)
+            if poly: return self._tangent(s, poly=True) * sp.Poly.from_dict({rem_powers: 1}, s)
             monom = sp.Mul(*(symbols[i] for i, d in enumerate(rem_powers) if d))
             return self._tangent(s, poly=False).as_expr() * monom
         return LinearBasisTangentEven.from_callable_expr(even_powers, _callable_expr(_new_tangent))
-- 
2.43.0


From 9e9dcf76305ea9522a67ed21544352108be2cc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:45 +0000
Subject: [PATCH 026/102] fix: unknown LaTeX commands were read as products of
 variables

Property: C11
2\cdot a was parsed as 2*c*d*o*t*a and a\geq b as a*b*e*g*q. Support
\cdot and \times, and reject other commands.
---
 triples/utils/text_process.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index fafefb4..529db92 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -1,6 +1,6 @@
 from typing import Union, List, Tuple, Optional
 from functools import partial
-# import re
+import re
 
 from sympy import Expr, Poly, Rational, Float, Symbol, sympify, fraction, cancel, latex
 from sympy import symbols as sp_symbols
@@ -55,8 +55,15 @@ def _preprocess_text_delatex(poly: str) -> str:
     Convert a latex formula to standard representation.
     """
 
+    # reject commands that are unknown, as their letters would be read as variables
+    unknown = re.search(r'\\(?!frac\s*{|sqrt\s*[{(]|sum|prod|left|right|cdot|times|[^a-z])', poly)
+    if unknown is not None:
+        raise ValueError(f'Unsupported LaTeX command: {poly[unknown.start():]}')
+
     # \frac{..}{...} -> (..)/(...)
     poly = poly.replace(' ','')
+    poly = poly.replace('\\cdot','*')
+    poly = poly.replace('\\times','*')
     poly = poly.replace('left','')
     poly = poly.replace('right','')
     poly = poly.replace('}{' , ')/(')
-- 
2.43.0


From 7d2e8598b3206d39520882b03ef68b01c296de4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:45 +0000
Subject: [PATCH 027/102] fix: the end of a LaTeX sum was missed in parentheses
 and near the end of the text

Property: C11
\sum a-b was parsed as s(a-b), and 3(\sum a)+b as 3(s(a)+b).
---
 triples/utils/text_process.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index 529db92..6838ecd 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -76,7 +76,7 @@ def _preprocess_text_delatex(poly: str) -> str:
     parenthesis = 0
     paren_depth = [-1]
     i = 0
-    while i < len(poly) - 4:
+    while i < len(poly):
         if poly[i:i+3] == 'sum':
             parenthesis += 1
             paren_depth.append(parenthesis)
@@ -87,14 +87,15 @@ def _preprocess_text_delatex(poly: str) -> str:
             paren_depth.append(parenthesis)
             poly = poly[:i] + 'p(' + poly[i+4:]
             i += 1
+        elif parenthesis == paren_depth[-1] and poly[i] in '+-)':
+            # the sum ends here, close it before the current character
+            poly = poly[:i] + ')' + poly[i:]
+            parenthesis -= 1
+            paren_depth.pop()
         elif poly[i] == '(':
             parenthesis += 1
         elif poly[i] == ')':
             parenthesis -= 1
-        elif parenthesis == paren_depth[-1] and (poly[i] == '+' or poly[i] == '-'):
-            poly = poly[:i] + ')' + poly[i:]
-            parenthesis -= 1
-            paren_depth.pop()
         i += 1
     poly += ')' * (len(paren_depth) - 1)
 
-- 
2.43.0


From b07ab8a450b303f8c5ad24a678d41294c2aafa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:45 +0000
Subject: [PATCH 028/102] fix: cyclic sums permuted the letters of sqrt and
 cbrt

Property: C11
s(cbrt(2)a) over a,b,c and s(sqrt(2)t) over t,u,v renamed the letters of
the function.
---
 triples/utils/text_process.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index 6838ecd..821ec38 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -12,7 +12,8 @@ def cycle_expansion(
         f: str,
         symbol: str = 's',
         gens: Tuple[Symbol] = sp_symbols("a b c"),
-        perm: Optional[PermutationGroup] = None
+        perm: Optional[PermutationGroup] = None,
+        preserve: Tuple[str, ...] = ('sqrt',)
     ) -> str:
     """
     Parameters
@@ -29,6 +30,8 @@ def cycle_expansion(
         The generators of the polynomial.
     perm: Optional[PermutationGroup]
         The permutation group of the expression. If None, it will be cyclic group.
+    preserve: Tuple[str, ...]
+        Names of functions, of which the letters are not variables.
 
     Return
     -------
@@ -42,7 +45,12 @@ def cycle_expansion(
         dict(zip(original_names, p(original_names))) for p in perm.elements
     ]
     symbol = ' * ' if symbol == 'p' else ' + '
-    return symbol.join(f.translate(t) for t in translations)
+    if len(preserve) == 0:
+        return symbol.join(f.translate(t) for t in translations)
+    # odd items are the names of functions
+    parts = re.split(r'((?:%s)(?=\())'%'|'.join(preserve), f)
+    return symbol.join(
+        ''.join(x if i % 2 else x.translate(t) for i, x in enumerate(parts)) for t in translations)
 
 ##########################################################################
 #
@@ -102,7 +110,8 @@ def _preprocess_text_delatex(poly: str) -> str:
     return poly
 
 
-def _preprocess_text_expansion(poly: str, gens: Tuple[Symbol], perm: PermutationGroup) -> str:
+def _preprocess_text_expansion(poly: str, gens: Tuple[Symbol], perm: PermutationGroup,
+        preserve: Tuple[str, ...] = ('sqrt',)) -> str:
     """
     Expand the polynomial with cycle expansion.
 
@@ -113,7 +122,7 @@ def _preprocess_text_expansion(poly: str, gens: Tuple[Symbol], perm: Permutation
     parenthesis = 0
     paren_depth = [-1]
     cycle_begin = []
-    _cyc_expand = partial(cycle_expansion, gens=gens, perm=perm)
+    _cyc_expand = partial(cycle_expansion, gens=gens, perm=perm, preserve=preserve)
 
     i = 0
     while i < len(poly):
@@ -223,7 +232,8 @@ def preprocess_text(
         perm = CyclicGroup(len(gens))
 
     poly = _preprocess_text_delatex(poly)
-    poly = _preprocess_text_expansion(poly, gens, perm)
+    preserve = (('sqrt',) if preserve_sqrt else ()) + (('cbrt',) if preserve_cbrt else ())
+    poly = _preprocess_text_expansion(poly, gens, perm, preserve)
     poly = _preprocess_text_completion(poly,
         scientific_notation=scientific_notation,
         preserve_sqrt=preserve_sqrt,
@@ -314,7 +324,8 @@ def degree_of_zero(
         perm = CyclicGroup(len(gens))
 
     poly = _preprocess_text_delatex(poly)
-    poly = _preprocess_text_expansion(poly, gens, perm)
+    preserve = (('sqrt',) if preserve_sqrt else ()) + (('cbrt',) if preserve_cbrt else ())
+    poly = _preprocess_text_expansion(poly, gens, perm, preserve)
     poly = _preprocess_text_completion(poly,
         scientific_notation=scientific_notation,
         preserve_sqrt=preserve_sqrt,
-- 
2.43.0


From e38aabb61e0983a2a08f7470d501945542daee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:45 +0000
Subject: [PATCH 029/102] fix: degree_of_zero counted the degree in parameters

Property: C11
x(a-a) vanishes in degree 1 of a,b,c, but degree 2 was reported.
---
 triples/utils/text_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index 821ec38..5929d5f 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -373,9 +373,9 @@ def degree_of_zero(
     #     degree = deg(Poly(poly))
         poly = fraction(sympify(poly))
         if poly[1].is_constant():
-            degree = deg(Poly(poly[0]))
+            degree = deg(Poly(poly[0], gens))
         else:
-            degree = deg(Poly(poly[0])) - deg(Poly(poly[1]))
+            degree = deg(Poly(poly[0], gens)) - deg(Poly(poly[1], gens))
     except:
         degree = 0
         
-- 
2.43.0


From d04cec7256c997e28d2b69925ff8749148045ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:59 +0000
Subject: [PATCH 030/102] fix: LaTeX fractions were not kept together

Property: C11
1/\frac{a}{b} was parsed as 1/a/b.
---
 triples/utils/text_process.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index 5929d5f..b151601 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -74,6 +74,18 @@ def _preprocess_text_delatex(poly: str) -> str:
     poly = poly.replace('\\times','*')
     poly = poly.replace('left','')
     poly = poly.replace('right','')
+    while 'frac{' in poly:
+        # wrap the innermost fraction by parentheses
+        start = poly.rindex('frac{')
+        middle = poly.find('}{', start)
+        end = middle + 1
+        depth = 1 if middle >= 0 else 0
+        while depth and end + 1 < len(poly):
+            end += 1
+            depth += {'{': 1, '}': -1}.get(poly[end], 0)
+        if depth or middle < 0:
+            break
+        poly = poly[:start] + '((' + poly[start+5:middle] + ')/(' + poly[middle+2:end] + '))' + poly[end+1:]
     poly = poly.replace('}{' , ')/(')
     poly = poly.replace('frac' , '')
     poly = poly.translate({123: 40, 125: 41, 92: 32, 36: 32}) # { -> ( , } -> ) , \ -> space, $ -> space
-- 
2.43.0


From 04a6307a85e6326fdcf9966dd9d3352ec08a53b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:59 +0000
Subject: [PATCH 031/102] fix: degree_of_zero miscounted adjacent parentheses

Property: C11
((-4a+4a)b) was reported to have degree 0.
---
 triples/utils/text_process.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index b151601..698600b 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -373,12 +373,9 @@ def degree_of_zero(
         elif poly[i] == '(':
             bracket += 1
             # e.g. a*(-b*c) ,    a*(--+-b*c)
-            i += 1
-            while i < length and (poly[i] == '-' or poly[i] == '+'):
+            while i + 1 < length and (poly[i+1] == '-' or poly[i+1] == '+'):
                 i += 1
-            if i == length:
-                break 
-            
+
         i += 1
         
     try:
-- 
2.43.0


From 8e2fc89e666e83f6360141522d224301d276f5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:00 +0000
Subject: [PATCH 032/102] fix: comments and logical operators were accepted in
 polynomials

Property: C11
a|a and a#b were parsed as a.
---
 triples/utils/text_process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index 698600b..84d70df 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -255,6 +255,9 @@ def preprocess_text(
     if return_type == 'text':
         return poly
 
+    if any(_ in poly for _ in '#&|~'):
+        # comments and logical operators would be accepted by sympify
+        raise ValueError('Unexpected characters in the polynomial: %s'%poly)
     poly = sympify(poly)
     if return_type == 'expr':
         return poly
-- 
2.43.0


From 4dbaa6352c5e28576806c082a09c9345b7175431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:32 +0000
Subject: [PATCH 033/102] fix: remainders, floor division and quotes were
 accepted in polynomials

Property: C11
a%a was parsed as 0, 3//2 as 1 and 'a;' as a.
---
 triples/utils/text_process.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index 84d70df..f1221f7 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -255,8 +255,8 @@ def preprocess_text(
     if return_type == 'text':
         return poly
 
-    if any(_ in poly for _ in '#&|~'):
-        # comments and logical operators would be accepted by sympify
+    if any(_ in poly for _ in ('#', '&', '|', '~', '%', '//', '"', "'")):
+        # comments, logical operators, remainders and quotes would be accepted by sympify
         raise ValueError('Unexpected characters in the polynomial: %s'%poly)
     poly = sympify(poly)
     if return_type == 'expr':
-- 
2.43.0


From e84888d52f268111ac129badc0166a79558d77e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:31 +0000
Subject: [PATCH 034/102] fix: factor form of antisymmetric products could have
 the wrong sign

Property: C12
The cyclic product is written with another representative than the factor
whose images were counted.
---
 triples/utils/expression/form.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/triples/utils/expression/form.py b/triples/utils/expression/form.py
index 0f96e34..5a2bc1b 100644
--- a/triples/utils/expression/form.py
+++ b/triples/utils/expression/form.py
@@ -212,12 +212,12 @@ def _reduce_factor_list(poly: Poly, perm_group: PermutationGroup) -> Tuple[Expr,
     for base, power in factors:
         subdict = defaultdict(int)
         representative = base
-        sign = 1
+        sign, representative_sign = 1, 1
         for p in perm_group.elements:
             permed_base = base.reorder(*p(poly.gens)).rep
-            permed_poly = rep_dict.get(permed_base)
+            permed_poly, permed_sign = rep_dict.get(permed_base), 1
             if permed_poly is None:
-                permed_poly = rep_dict.get(-permed_base)
+                permed_poly, permed_sign = rep_dict.get(-permed_base), -1
                 sign *= -1
             if permed_poly is None:
                 break
@@ -225,8 +225,11 @@ def _reduce_factor_list(poly: Poly, perm_group: PermutationGroup) -> Tuple[Expr,
             if pow_dict[permed_poly] < subdict[permed_poly]:
                 break
             if permed_poly.compare(representative) < 0:
-                representative = permed_poly
+                representative, representative_sign = permed_poly, permed_sign
         else:
+            if representative_sign == -1 and perm_group.order() % 2 == 1:
+                # the product runs over the images of the representative
+                sign *= -1
             # get max common power
             d = min(pow_dict[p]//v for p, v in subdict.items())
             if sign == -1 and d % 2 == 1: coeff = -coeff
-- 
2.43.0


From a6fb97dae4322ae22703e924c162fc1dc2137c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:31 +0000
Subject: [PATCH 035/102] fix: factor form without factors ended with a
 multiplication sign

Property: C12
---
 triples/utils/expression/form.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/utils/expression/form.py b/triples/utils/expression/form.py
index 5a2bc1b..7013127 100644
--- a/triples/utils/expression/form.py
+++ b/triples/utils/expression/form.py
@@ -301,7 +301,7 @@ def poly_get_factor_form(
         strings.append(get_cyc_pow_string(base, power))
 
     strings = sorted(strings, key = lambda x: (len(x), x))
-    s = _get_coeff_str(coeff, MUL) + MUL.join(strings)
+    s = _get_coeff_str(coeff, MUL if strings else '') + MUL.join(strings)
     if s.startswith('+'): s = s[1:]
     return s
 
-- 
2.43.0


From 2f105b267258247783b4fe2952818ae1459546a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:38 +0000
Subject: [PATCH 036/102] fix: coefficients with cube roots were shown with
 digits run together

Property: C12
2*3^(1/3) was shown as 23^(1/3).
---
 triples/utils/text_process.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index f1221f7..f4f1bd5 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -409,7 +409,8 @@ def short_constant_parser(x):
         if len(txt) > 10 and not isinstance(x, Float):
             txt = '%.4f'%(x)
     else:
-        txt = str(x).replace('**','^').replace('*','').replace(' ','')
+        # keep the multiplication sign in front of a number, e.g. 2*3^(1/3)
+        txt = re.sub(r'\*(?!\d)', '', str(x).replace('**','^').replace(' ',''))
     return txt
 
 
-- 
2.43.0


From 1ecd770384fe89b24f1cb4ff4034afdd9444da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:27 +0000
Subject: [PATCH 037/102] fix: rewriting for a subgroup that is not normal
 changed the value

Property: C09
The sum over the symmetric group of a, rewritten for the group generated by
the transposition of a and b, became 3 times the sum of a and b.
---
 triples/utils/expression/cyclic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index 8241ef4..e6c3f15 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -934,7 +934,8 @@ def _get_rewriting_replacement(symbols: Tuple[Symbol], perm_group: PermutationGr
                 #         return x.func(x.args[0], x.args[1], perm_group) ** (1/mul)
             elif perm_group.is_subgroup(x.args[2]):
                 # 3. check whether the given permutation group is a subgroup of the expression's permutation group
-                transversals = x.args[2].coset_transversal(perm_group)
+                # left cosets are needed: the translations are followed by those of perm_group
+                transversals = [~p for p in x.args[2].coset_transversal(perm_group)]
                 translations = [dict(zip(x.args[1], p(x.args[1]))) for p in transversals]
                 trans_perm_group = [dict(zip(x.args[1], p(x.args[1]))) for p in perm_group.elements]
                 exprs = [x.args[0].xreplace(t) for t in translations]
-- 
2.43.0


From 3241f5dac94ce48b7ff2d6006f5d0d871b8b1651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:44 +0000
Subject: [PATCH 038/102] fix: rewriting nested cyclic expressions left other
 groups behind

Property: C09
Rewriting the cyclic product of a cyclic sum for the symmetric group kept the
product over the cyclic group, which short notation then misrepresents.
---
 triples/utils/expression/cyclic.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index e6c3f15..39bb418 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -986,4 +986,16 @@ def rewrite_symmetry(expr: Expr, symbols: Tuple[Symbol], perm_group: Permutation
     {PermutationGroup([
      (0 1 2 3)])}
     """
-    return expr.replace(lambda x: isinstance(x, CyclicExpr), _get_rewriting_replacement(symbols, perm_group))
\ No newline at end of file
+    replacement = _get_rewriting_replacement(symbols, perm_group)
+    expr = expr.replace(lambda x: isinstance(x, CyclicExpr), replacement)
+
+    # rewriting nested cyclic expressions can leave cyclic expressions of other groups
+    std_symbols = _std_seq(tuple(symbols), perm_group)
+    def is_other(x):
+        return isinstance(x, CyclicExpr) and not (x.args[1] == std_symbols and x.args[2] == perm_group)
+    while any(is_other(x) for x in expr.atoms(CyclicExpr)):
+        expr2 = expr.replace(is_other, replacement)
+        if expr2 == expr:
+            expr2 = expr.doit()
+        expr = expr2
+    return expr
\ No newline at end of file
-- 
2.43.0


From 6421adb65b0e11b2619436c45acf2754f9dab4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:38 +0000
Subject: [PATCH 039/102] fix: cyclic products followed by other factors were
 ambiguous in LaTeX

Property: C10
(prod a)(prod b) was printed as \prod a \prod b, which reads as a nested product.
---
 triples/utils/expression/cyclic.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index 39bb418..e1ec1a4 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -655,6 +655,11 @@ def SymmetricProduct(expr, symbols, **kwargs):
 setattr(LatexPrinter, '_print_CyclicSum', lambda self, expr: CyclicSum._str_latex(self, expr))
 setattr(LatexPrinter, '_print_CyclicProduct', lambda self, expr: CyclicProduct._str_latex(self, expr))
 
+# the signs extend over the rest of a product, so wrap them unless they are the last factor
+_old_needs_mul_brackets = LatexPrinter._needs_mul_brackets
+setattr(LatexPrinter, '_needs_mul_brackets', lambda self, expr, first=False, last=False:
+    (isinstance(expr, CyclicExpr) and not last) or _old_needs_mul_brackets(self, expr, first=first, last=last))
+
 setattr(StrPrinter, '_print_CyclicSum', lambda self, expr: CyclicSum._str_str(self, expr))
 setattr(StrPrinter, '_print_CyclicProduct', lambda self, expr: CyclicProduct._str_str(self, expr))
 
-- 
2.43.0


From 447f6f147de09d3ef7d0d94ff136ab04db94a3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:09 +0000
Subject: [PATCH 040/102] fix: certificates with cube roots were printed with
 digits run together

Property: C10
2*3^(1/3) was printed as 23^(1/3).
---
 triples/utils/expression/solution.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/triples/utils/expression/solution.py b/triples/utils/expression/solution.py
index 7594421..311d3b8 100644
--- a/triples/utils/expression/solution.py
+++ b/triples/utils/expression/solution.py
@@ -44,6 +44,13 @@ def _solution_latex_to_txt(s: str) -> str:
     return s
 
 
+def _omit_mul(s: str, sep: str = '') -> str:
+    """
+    Omit multiplication signs, except for those in front of digits, e.g. 2*3^(1/3).
+    """
+    return re.sub(r'\*(?!\d)', sep, s)
+
+
 def _multiline_equation_latex(
         s: List = [], 
         head: str = '',
@@ -164,11 +171,11 @@ class Solution():
         equal_sign = '=' if self.is_equal else '≈'
         replacements = dict([
             ('**', '^'),
-            ('*', ' '),
             *map(lambda x: ('^%d'%(x[0]+2), x[1]), enumerate('²³⁴⁵⁶⁷⁸⁹'))
         ])
         for old, new in replacements.items():
             s = s.replace(old, new)
+        s = _omit_mul(s, ' ')
         s = '%s %s %s'%(self._str_f(), equal_sign, s)
         return s
 
@@ -180,12 +187,12 @@ class Solution():
         replacements = dict([
             (' ',''),
             ('**','^'),
-            ('*',''),
             ('Σ', 's'),
             ('∏', 'p'),
         ])
         for old, new in replacements.items():
             s = s.replace(old, new)
+        s = _omit_mul(s)
         s = '%s %s %s'%(self._str_f(), equal_sign, s)
         return s
 
@@ -347,7 +354,7 @@ class SolutionSimple(Solution):
                 def _convert_superscript(s):
                     pow_trans = str.maketrans('0123456789', '⁰¹²³⁴⁵⁶⁷⁸⁹')
                     return re.sub(r'\^(\d+)', lambda m: m.group(1).translate(pow_trans), s)
-                to_str = lambda x: _convert_superscript(_to_str(x).replace('*',''))
+                to_str = lambda x: _convert_superscript(_omit_mul(_to_str(x)))
             else:
                 to_str = lambda x: _to_str(x)
         else:
@@ -409,7 +416,10 @@ class SolutionSimple(Solution):
             elif precedence_traditional(x_as_coeff_Mul[1]) < PRECEDENCE["Mul"]:
                 s_args.append(get_str(x_as_coeff_Mul[0]) + '%s'%add_paren(get_str(x_as_coeff_Mul[1])))
             else:
-                s_args.append(get_str(x_as_coeff_Mul[0]) + get_str(x_as_coeff_Mul[1]))
+                s_rest = get_str(x_as_coeff_Mul[1])
+                if s_rest[:1].isdigit(): # e.g. 2*3^(1/3)
+                    s_rest = add_paren(s_rest)
+                s_args.append(get_str(x_as_coeff_Mul[0]) + s_rest)
 
         return s_args
 
@@ -456,12 +466,11 @@ class SolutionSimple(Solution):
         replacements = dict([
             (' ',''),
             ('**', '^'),
-            ('*', ''),
             *map(lambda x: ('^%d'%(x[0]+2), x[1]), enumerate('²³⁴⁵⁶⁷⁸⁹'))
         ])
         for old, new in replacements.items():
             s = s.replace(old, new)
-        return s
+        return _omit_mul(s)
 
     @property
     def str_formatted(self):
@@ -477,12 +486,12 @@ class SolutionSimple(Solution):
         replacements = dict([
             (' ',''),
             ('**','^'),
-            ('*',''),
             ('Σ', 's'),
             ('∏', 'p'),
         ])
         for old, new in replacements.items():
             s = s.replace(old, new)
+        s = _omit_mul(s)
         return s
 
     def dehomogenize(self, homogenizer: Optional[sp.Symbol] = None):
-- 
2.43.0


From 7305486d3a0d2e84e9ef35c98801bc211f12b215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:59 +0000
Subject: [PATCH 041/102] fix: factors of negative products of cyclic
 expressions were printed without parentheses

Property: C10
-7*(prod a)/3 was printed as -7*prod a/3 and -3*(prod(a+b))*(sum a^3) as a nested
product.
---
 triples/utils/expression/cyclic.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index e1ec1a4..3a9191d 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -660,6 +660,14 @@ _old_needs_mul_brackets = LatexPrinter._needs_mul_brackets
 setattr(LatexPrinter, '_needs_mul_brackets', lambda self, expr, first=False, last=False:
     (isinstance(expr, CyclicExpr) and not last) or _old_needs_mul_brackets(self, expr, first=first, last=last))
 
+def _str_print_mul(self, expr):
+    if expr.as_coeff_Mul()[0] < 0 and expr.has(CyclicExpr):
+        # SymPy does not wrap the factors of a negative product properly
+        return '-' + self.parenthesize(-expr, PRECEDENCE['Mul'], strict=True)
+    return _old_str_print_mul(self, expr)
+
+_old_str_print_mul = StrPrinter._print_Mul
+setattr(StrPrinter, '_print_Mul', _str_print_mul)
 setattr(StrPrinter, '_print_CyclicSum', lambda self, expr: CyclicSum._str_str(self, expr))
 setattr(StrPrinter, '_print_CyclicProduct', lambda self, expr: CyclicProduct._str_str(self, expr))
 
-- 
2.43.0


From b8cc6c90dbddb232de9122b072213c3c44d47a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:01 +0000
Subject: [PATCH 042/102] fix: printing a solution changed how all cyclic
 expressions are shown

Property: C10
str_formatted and str_txt set the global CyclicExpr.PRINT_WITH_PARENS.
---
 triples/utils/expression/solution.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/triples/utils/expression/solution.py b/triples/utils/expression/solution.py
index 311d3b8..e783389 100644
--- a/triples/utils/expression/solution.py
+++ b/triples/utils/expression/solution.py
@@ -165,9 +165,8 @@ class Solution():
 
     @property
     def str_txt(self) -> str:
-        CyclicExpr.PRINT_WITH_PARENS = False
         # s = _solution_latex_to_txt(self.str_latex)
-        s = str(self.solution)
+        s = _print_str(self.solution)
         equal_sign = '=' if self.is_equal else '≈'
         replacements = dict([
             ('**', '^'),
@@ -181,8 +180,7 @@ class Solution():
 
     @property
     def str_formatted(self):
-        CyclicExpr.PRINT_WITH_PARENS = True
-        s = str(self.solution)
+        s = _print_str(self.solution, with_cyclic_parens=True)
         equal_sign = '=' if self.is_equal else '≈'
         replacements = dict([
             (' ',''),
@@ -454,12 +452,12 @@ class SolutionSimple(Solution):
 
     @property
     def str_txt(self):
-        CyclicExpr.PRINT_WITH_PARENS = False
         equal_sign = '=' if self.is_equal else '≈'
 
         parener = lambda x: "(%s)"%x
-        s_multiplier = self._str_multiplier(add_paren = parener, get_str = lambda x: str(x))
-        s_args = self._str_extract_constant_afront(add_paren = parener, get_str = lambda x: str(x))
+        get_str = lambda x: _print_str(x)
+        s_multiplier = self._str_multiplier(add_paren = parener, get_str = get_str)
+        s_args = self._str_extract_constant_afront(add_paren = parener, get_str = get_str)
         s = '+'.join(s_args)
         s = '%s%s%s'%(s_multiplier, equal_sign, s)
 
@@ -474,12 +472,12 @@ class SolutionSimple(Solution):
 
     @property
     def str_formatted(self):
-        CyclicExpr.PRINT_WITH_PARENS = True
         equal_sign = '=' if self.is_equal else '≈'
 
         parener = lambda x: "(%s)"%x
-        s_multiplier = self._str_multiplier(add_paren = parener, get_str = lambda x: str(x))
-        s_args = self._str_extract_constant_afront(add_paren = parener, get_str = lambda x: str(x))
+        get_str = lambda x: _print_str(x, with_cyclic_parens=True)
+        s_multiplier = self._str_multiplier(add_paren = parener, get_str = get_str)
+        s_args = self._str_extract_constant_afront(add_paren = parener, get_str = get_str)
         s = '+'.join(s_args)
         s = '%s%s%s'%(s_multiplier, equal_sign, s)
 
-- 
2.43.0


From 09dcae97a0c8f6e04ca0cb43f9f36b23ae89711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:01 +0000
Subject: [PATCH 043/102] fix: dehomogenizing a solution that is a single
 symbol raised

Property: C10
---
 triples/utils/expression/solution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/utils/expression/solution.py b/triples/utils/expression/solution.py
index e783389..8113b1a 100644
--- a/triples/utils/expression/solution.py
+++ b/triples/utils/expression/solution.py
@@ -512,7 +512,7 @@ class SolutionSimple(Solution):
                 return expr.func(f, symbols[:n-1], new_perm)
             return expr
         def dehom(f):
-            f = f.xreplace({homogenizer: 1})
+            f = f.xreplace({homogenizer: S.One})
             f = f.replace(lambda x: isinstance(x, CyclicExpr), _deflat_perm_group)
             return f
         self.solution = dehom(self.solution)
-- 
2.43.0


From be8cd7259bd02df7adf33e2e367830e279992880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:44 +0000
Subject: [PATCH 044/102] fix: constraints symmetric to each other were
 normalised differently and rejected

Rational constraints were reduced to monic factors and compared across different
domains, so that a symmetric set of constraints was not recognised as symmetric
and a symmetry given by the user raised ValueError.

Property: C02
---
 triples/core/shared.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/triples/core/shared.py b/triples/core/shared.py
index 81ef115..333010d 100644
--- a/triples/core/shared.py
+++ b/triples/core/shared.py
@@ -1,5 +1,5 @@
 from datetime import datetime
-from functools import wraps
+from functools import reduce, wraps
 from inspect import signature
 from typing import Tuple, Dict, List, Union, Optional
 
@@ -211,12 +211,21 @@ def clear_polys_by_symmetry(polys: List[Union[sp.Expr, Tuple[sp.Expr, ...]]],
     return list(representation.values())
 
 
-# fix the bug in sqf_list before 1.13.0
-# https://github.com/sympy/sympy/pull/26182
-if sp.__version__ >= '1.13.0':
-    _sqf_list = lambda p: p.sqf_list()
-else:
-    _sqf_list = lambda p: p.factor_list() # it would be slower, but correct
+def _sqf_list(p: sp.Poly) -> Tuple[sp.Expr, List[Tuple[sp.Poly, int]]]:
+    """
+    Square-free factorization. The factors of rational polynomials are primitive over ZZ rather
+    than monic, so that the factors of permuted polynomials are permuted factors up to the sign.
+    """
+    denom = sp.S.One
+    if p.domain.is_QQ:
+        denom, p = p.clear_denoms(convert=True)
+    # fix the bug in sqf_list before 1.13.0
+    # https://github.com/sympy/sympy/pull/26182
+    if sp.__version__ >= '1.13.0':
+        c, lst = p.sqf_list()
+    else:
+        c, lst = p.factor_list() # it would be slower, but correct
+    return c / denom, lst
 
 def _std_ineq_constraints(p: sp.Poly, e: sp.Expr) -> Tuple[sp.Poly, sp.Expr]:
     if p.is_zero: return p, e
@@ -388,6 +397,10 @@ def _get_constraints_wrapper(symbols: Tuple[int, ...], ineq_constraints: Dict[sp
     def _get_dicts(constraints, name='_G'):
         dt = dict()
         inv = dict()
+        if constraints:
+            # compare the constraints over a common domain, e.g. both ZZ and QQ might be present
+            domain = reduce(lambda x, y: x.unify(y), (p.domain for p in constraints))
+            constraints = dict((p.set_domain(domain), v) for p, v in constraints.items())
         rep_dict = dict((p.rep, v) for p, v in constraints.items())
         counter = 0  
         for base in constraints.keys():
-- 
2.43.0


From 568aa85da4a42de60e1d05ccc86738fbea2edee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:36 +0000
Subject: [PATCH 045/102] fix: LinearSOS answered with multipliers that cancel
 to zero

With opposite linear constraints the multipliers could sum up to zero, giving
0 as a certificate of any polynomial.

Property: C02
---
 triples/core/linsos/linsos.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/triples/core/linsos/linsos.py b/triples/core/linsos/linsos.py
index 8abb0a0..b4e4d37 100644
--- a/triples/core/linsos/linsos.py
+++ b/triples/core/linsos/linsos.py
@@ -14,7 +14,7 @@ from scipy import __version__ as _SCIPY_VERSION
 from .basis import LinearBasis, LinearBasisTangent, LinearBasisTangentEven
 from .tangents import root_tangents
 from .correction import linear_correction
-from .updegree import lift_degree
+from .updegree import LinearBasisMultiplier, lift_degree
 from .solution import SolutionLinear
 from ..shared import homogenize_expr_list, clear_polys_by_symmetry, sanitize_input, sanitize_output
 from ...utils import findroot, RootsInfo, RootTangent
@@ -248,6 +248,16 @@ def _get_qmodule_list(poly: Poly, ineq_constraints: Dict[Poly, Expr],
     return (qmodule)
 
 
+def _is_vanishing_multiplier(y: List[Expr], basis: List[LinearBasis], symmetry: MonomialManager) -> bool:
+    """
+    Check whether the multipliers in the solution sum up to zero, e.g. when two
+    linear constraints are opposite to each other.
+    """
+    arrays = [v * b.as_array_sp(expand_cyc=True, symmetry=symmetry)
+                for v, b in zip(y, basis) if isinstance(b, LinearBasisMultiplier) and not b.poly.is_zero]
+    return len(arrays) > 0 and not any(sum(arrays[1:], arrays[0]))
+
+
 @sanitize_output()
 @sanitize_input(homogenize=True, infer_symmetry=True, wrap_constraints=True)
 def LinearSOS(
@@ -420,6 +430,11 @@ def _LinearSOS(
                 num_multipliers = len(lift_degree_info['basis']),
                 symmetry = symmetry
             )
+            if _is_vanishing_multiplier(y, basis, symmetry):
+                # 0 * poly == sum(y_i * basis_i) proves nothing
+                if verbose:
+                    print('Multipliers cancel out.')
+                continue
             if is_equal or allow_numer > 0:
                 basis = _odd_basis_to_even(basis, poly.gens, ineq_constraints)
                 solution = SolutionLinear._from_y_basis(
-- 
2.43.0


From c2d736ac3639886786c9bc6d84214a59205614ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:56 +0000
Subject: [PATCH 046/102] fix: merge repeated and overlapping equal-index
 groups in the sparse linear solvers

Groups sharing an index were not merged, and the head of a group that had been
joined to another stayed a free variable, so the solution family was wrong.

Property: C15
---
 triples/sdp/arithmetic.py | 59 ++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/triples/sdp/arithmetic.py b/triples/sdp/arithmetic.py
index abb11c7..949b393 100644
--- a/triples/sdp/arithmetic.py
+++ b/triples/sdp/arithmetic.py
@@ -13,7 +13,7 @@
 from collections import defaultdict
 from math import gcd
 from time import time
-from typing import List, Tuple, Union, Optional
+from typing import Dict, List, Tuple, Union, Optional
 
 from numpy import array as np_array, around as np_round, zeros as np_zeros, iinfo as np_iinfo
 from numpy import isnan, inf, unique
@@ -388,6 +388,35 @@ def solve_nullspace(A: sp.Matrix) -> sp.Matrix:
 
 
 
+def _merge_equal_indices(cols: int, x0_equal_indices: List[List[int]]) -> Tuple[List[int], Dict[int, List[int]]]:
+    """
+    Merge lists of equal indices, which may repeat or overlap each other, to disjoint groups.
+
+    Returns
+    ---------
+    ufs: List[int]
+        The head of the group for each index.
+    groups: Dict[int, List[int]]
+        The members of each group, labeled by its head. Every index is in exactly one group.
+    """
+    ufs = list(range(cols))
+    def find(i: int) -> int:
+        while ufs[i] != i:
+            ufs[i] = ufs[ufs[i]]
+            i = ufs[i]
+        return i
+
+    for group in x0_equal_indices:
+        for i in group:
+            ufs[find(i)] = find(group[0])
+
+    groups = defaultdict(list)
+    for i in range(cols):
+        ufs[i] = find(i)
+        groups[ufs[i]].append(i)
+    return ufs, dict(groups)
+
+
 def solve_column_separated_linear(A: sp.Matrix, b: sp.Matrix, x0_equal_indices: List[List[int]] = []):
     """
     This is a function that solves a special linear system Ax = b => x = x_0 + C * y
@@ -420,17 +449,7 @@ def solve_column_separated_linear(A: sp.Matrix, b: sp.Matrix, x0_equal_indices:
         time0 = time()
 
     # form the equal indices as a UFS
-    ufs = list(range(cols))
-    groups = {}
-    for group in x0_equal_indices:
-        for i in group:
-            ufs[i] = group[0]
-        groups[group[0]] = group
-    for i in range(cols):
-        if ufs[i] == i:
-            group = groups.get(i)
-            if group is None:
-                groups[i] = [i]
+    ufs, groups = _merge_equal_indices(cols, x0_equal_indices)
 
     if _VERBOSE_SOLVE_CSR_LINEAR:
         print('>> UFS construction time', time() - time0) # 0 sec, can be ignored
@@ -529,10 +548,10 @@ def solve_csr_linear(A: sp.Matrix, b: sp.Matrix, x0_equal_indices: List[List[int
     # check whether there is at most one nonzero element in each column
     if isinstance(A, RepMatrix) and isinstance(b, RepMatrix):
         _column_separated = True
-        heads = {i: group[0] for group in x0_equal_indices for i in group}
+        heads, _ = _merge_equal_indices(cols, x0_equal_indices)
         seen_cols = set()
         for row in Arep.values():
-            row_cols = set(heads.get(col, col) for col in row)
+            row_cols = set(heads[col] for col in row)
             if not seen_cols.isdisjoint(row_cols):
                 _column_separated = False
             seen_cols.update(row_cols)
@@ -547,17 +566,7 @@ def solve_csr_linear(A: sp.Matrix, b: sp.Matrix, x0_equal_indices: List[List[int
     # convert to dense matrix
 
     # form the equal indices as a UFS
-    ufs = list(range(cols))
-    groups = {}
-    for group in x0_equal_indices:
-        for i in group:
-            ufs[i] = group[0]
-        groups[group[0]] = group
-    for i in range(cols):
-        if ufs[i] == i:
-            group = groups.get(i)
-            if group is None:
-                groups[i] = [i]
+    ufs, groups = _merge_equal_indices(cols, x0_equal_indices)
     group_keys = list(groups.keys())
     group_inds = {k: i for i, k in enumerate(group_keys)}
 
-- 
2.43.0


From 69243a70849d0f6a1b4f87ce82e0a087853f51de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:56 +0000
Subject: [PATCH 047/102] fix: SDPSOS with preordering='none' passes a list of
 constraints

dict_items + list raised TypeError.

Property: C03
---
 triples/core/sdpsos/sdpsos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/sdpsos/sdpsos.py b/triples/core/sdpsos/sdpsos.py
index 815d8cb..38e6a1d 100644
--- a/triples/core/sdpsos/sdpsos.py
+++ b/triples/core/sdpsos/sdpsos.py
@@ -589,7 +589,7 @@ def _SDPSOS(
 
     sos_problem = SOSProblem(poly, symmetry=symmetry)
 
-    qmodule_list = _get_qmodule_list(poly, ineq_constraints.items(),
+    qmodule_list = _get_qmodule_list(poly, list(ineq_constraints.items()),
                         ineq_constraints_with_trivial=ineq_constraints_with_trivial, preordering=preordering)
 
     # odd_degree_vars = [i for i in range(nvars) if poly.degree(i) % 2 == 1]
-- 
2.43.0


From 1c7588520454043f09333826a8280193e39326d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:25 +0000
Subject: [PATCH 048/102] fix: RootAlgebraic of coordinates that do not share a
 field generated by one of them

Constructing such a ternary root raised AttributeError (K is None), which made
SDPSOS raise on polynomials with such a zero.

Property: C03
---
 triples/utils/roots/roots.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/triples/utils/roots/roots.py b/triples/utils/roots/roots.py
index 4a20887..7cc8ef8 100644
--- a/triples/utils/roots/roots.py
+++ b/triples/utils/roots/roots.py
@@ -204,6 +204,17 @@ class RootAlgebraic(Root):
                     self.K = None
                 if self.K is not None:
                     break
+        if self.root_anp is None:
+            irrationals = [r for r in root if not isinstance(r, sp.Rational)]
+            if len(irrationals) > 1:
+                # no entry generates the others, find a primitive element
+                try:
+                    self.K = sp.QQ.algebraic_field(*irrationals)
+                    self.root_anp = [
+                        self.K.from_sympy(r) for r in root
+                    ]
+                except Exception as e: # Not algebraic
+                    self.K = None
         if self.root_anp is None:
             self.root_anp = self.root
     
@@ -361,7 +372,7 @@ class TernaryMixin():
             self._uv = (sp.oo, sp.oo)
         else:
             a, b, c = self.root if not hasattr(self, 'root_anp') else self.root_anp
-            one = sp.S(1) if not hasattr(self, 'K') else self.K.one
+            one = sp.S(1) if getattr(self, 'K', None) is None else self.K.one
             sa2b2 = a**2*b**2 + b**2*c**2 + c**2*a**2
             sa2bc = a*b*c * (a + b + c)
             sab3 = a*b**3 + b*c**3 + c*a**3
-- 
2.43.0


From 3aee388d0c4f01a93921dc1d5f6029b0737adea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:25 +0000
Subject: [PATCH 049/102] fix: SOSProblem counted repeated constraints twice

Blocks are keyed by the constraint, so columns of repeated constraints were
attributed to other blocks and the certificate was wrong. Equality constraints
of too high degree, which are skipped, no longer raise KeyError.

Property: C03
---
 triples/core/sdpsos/sdpsos.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/triples/core/sdpsos/sdpsos.py b/triples/core/sdpsos/sdpsos.py
index 38e6a1d..7db375c 100644
--- a/triples/core/sdpsos/sdpsos.py
+++ b/triples/core/sdpsos/sdpsos.py
@@ -157,8 +157,7 @@ def _form_sdp(ineq_constraints: List[Poly], eq_constraints: List[Poly], nvars: i
 
     eq_vec = {}
     cnt = sum(n**2 for n in splits_ineq.values())
-    for eq in eq_constraints:
-        s = splits_eq[eq]
+    for eq, s in splits_eq.items():
         eq_vec[eq] = (x0[cnt:cnt+s, :], space[cnt:cnt+s, :])
         cnt += s
     return sdp, eq_vec
@@ -362,8 +361,9 @@ class SOSProblem():
             The SDP problem to solve.
         """
         gens = self.poly.gens
-        ineq_constraints = [Poly(ineq, *gens) for ineq in ineq_constraints]
-        eq_constraints = [Poly(eq, *gens) for eq in eq_constraints]
+        # repeated constraints share the same key and must not be counted twice
+        ineq_constraints = list(dict.fromkeys(Poly(ineq, *gens) for ineq in ineq_constraints))
+        eq_constraints = list(dict.fromkeys(Poly(eq, *gens) for eq in eq_constraints))
         if self.is_homogeneous and (not all(eq.is_homogeneous for eq in eq_constraints) 
                             or not all(ineq.is_homogeneous for ineq in ineq_constraints)):
             raise ValueError("Expecting all constraints to be homogeneous.")
-- 
2.43.0


From 854619efd8416043a688ae1318a5fbb6e97fe813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 050/102] fix: default configurations of a dual SDP whose
 matrices are all empty

IndexError when reductions left no matrix but some parameters.

Property: C17
---
 triples/sdp/dual.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/dual.py b/triples/sdp/dual.py
index f644538..6d12fe9 100644
--- a/triples/sdp/dual.py
+++ b/triples/sdp/dual.py
@@ -272,8 +272,11 @@ class SDPProblem(DualTransformMixin):
         if self.dof == 0:
             objective_and_min_eigens = [(0, 0)]
         else:
-            obj_key = self.keys(filter_none = True)[0]
-            min_trace = min_trace_objective(self._x0_and_space[obj_key][1])
+            obj_keys = self.keys(filter_none = True)
+            if len(obj_keys):
+                min_trace = min_trace_objective(self._x0_and_space[obj_keys[0]][1])
+            else:
+                min_trace = np.zeros(self.dof) # all matrices are empty
             objective_and_min_eigens = [
                 (min_trace, 0),
                 (np.zeros(self.dof), 0), # feasible solution
-- 
2.43.0


From 41235133bef6542fce9e0c846ba6450084924990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 051/102] fix: min_eigen as a dictionary of floats and empty
 blocks in SDP backends

A dictionary with plain numbers raised TypeError when scaling, and zero size
blocks of a primal problem raised IndexError.

Property: C17
---
 triples/sdp/backend/caller.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/backend/caller.py b/triples/sdp/backend/caller.py
index 5ff9a5b..eb9e667 100644
--- a/triples/sdp/backend/caller.py
+++ b/triples/sdp/backend/caller.py
@@ -71,7 +71,7 @@ def _create_numerical_dual_sdp(
 
     if isinstance(min_eigen, (float, int, tuple)):
         min_eigen = {key: min_eigen for key in x0_and_space.keys()}
-        min_eigen = {key: (0, b) if not isinstance(b, tuple) else b for key, b in min_eigen.items()}
+    min_eigen = {key: (0, b) if not isinstance(b, tuple) else b for key, b in min_eigen.items()}
 
 
     if scaling > 0:
@@ -178,7 +178,7 @@ def _create_numerical_primal_sdp(
 
     if isinstance(min_eigen, (float, int, tuple)):
         min_eigen = {key: min_eigen for key in space.keys()}
-        min_eigen = {key: (0, b) if not isinstance(b, tuple) else b for key, b in min_eigen.items()}
+    min_eigen = {key: (0, b) if not isinstance(b, tuple) else b for key, b in min_eigen.items()}
 
     x0 = np_array(x0, flatten=True)
     space = {key: np_array(space_mat) for key, space_mat in space.items()}
@@ -195,6 +195,8 @@ def _create_numerical_primal_sdp(
 
     backend: PrimalBackend = _PRIMAL_BACKENDS[solver](x0)
     for key, space_mat in space.items():
+        if space_mat.shape[1] == 0:
+            continue
         backend.add_linear_matrix_equality(space_mat, min_eigen.get(key, 0))
 
     if add_relax_var_nonnegative_inequality:
-- 
2.43.0


From 50137da7eb178f5282e59b3c6705d19919644a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 052/102] fix: composition of SDP subspace reductions

Nullspaces passed through a subspace reduction were multiplied by U' instead of
(U'U)^{-1} U', so the constraint was not imposed on the original matrices (or cut
off feasible points). Full column spaces raised ShapeError, empty ones lost the
block and its parameters, and an unsolved masked primal problem raised TypeError.

Property: C17
---
 triples/sdp/transform.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 0291108..1794d88 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -196,9 +196,14 @@ class DualMatrixTransform(SDPMatrixTransform):
 
 
         # eq * y + x0 = 0 => y = trans_x0 + trans_space * z
-        eq_list = sp.Matrix.vstack(*eq_list)
-        x0_list = sp.Matrix(x0_list)
-        trans_x0, trans_space = solve_undetermined_linear(eq_list, -x0_list)
+        dof = parent_node.dof
+        if len(eq_list):
+            eq_list = sp.Matrix.vstack(*eq_list)
+            x0_list = sp.Matrix(x0_list)
+            trans_x0, trans_space = solve_undetermined_linear(eq_list, -x0_list)
+        else:
+            # the columnspaces are the full spaces
+            trans_x0, trans_space = sp.zeros(dof, 1), sp.eye(dof)
         self._trans_x0, self._trans_space = trans_x0, trans_space
 
         # Sum(Ui' * Aij * Ui * (trans_x0 + trans_space * z)[j]) >> 0
@@ -206,6 +211,7 @@ class DualMatrixTransform(SDPMatrixTransform):
         for key, (x0, space) in parent_node._x0_and_space.items():
             U = self._columnspace[key]
             if is_empty_matrix(U):
+                new_x0_and_space[key] = (sp.zeros(0, 1), sp.zeros(0, trans_space.shape[1]))
                 continue
             eq_mat = symmetric_bilinear_multiple(U, space.T).T
             new_space = eq_mat * trans_space
@@ -231,8 +237,12 @@ class DualMatrixTransform(SDPMatrixTransform):
         return parent_node
 
     def propagate_nullspace_to_child(self, nullspace: Dict[str, sp.Matrix]):
-        nullspace = {key: matmul(self._columnspace[key].T, nullspace[key]) for key in self.child_node.keys()}
-        return nullspace
+        # child = U' * S * U where S = U * M * U', so S * N = 0 iff child * (U'U)^{-1} * U' * N = 0
+        def _coordinates(U, N):
+            if is_empty_matrix(U) or is_empty_matrix(N):
+                return sp.zeros(U.shape[1], N.shape[1])
+            return (U.T * U).LUsolve(matmul(U.T, N))
+        return {key: _coordinates(self._columnspace[key], nullspace[key]) for key in self.child_node.keys()}
 
 class PrimalMatrixTransform(SDPMatrixTransform, SDPCopyTransform):
     """
@@ -430,6 +440,8 @@ class PrimalRowMasking(SDPRowMasking):
 
     def propagate_to_parent(self, recursive: bool = True):
         parent_node, child_node = self.parent_node, self.child_node
+        if child_node.y is None:
+            return parent_node
         mats = {key: sp.zeros(m, m) for key, m in parent_node.size.items()}
         y = sp.zeros(parent_node.dof, 1)
         y_offset = 0
-- 
2.43.0


From 4715674b6a6fdc0c68137531fa67eb64723bbefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:23 +0000
Subject: [PATCH 053/102] fix: facial reduction by vanishing derivatives with
 active non-monomial constraints A vanishing derivative of f at a zero was
 taken to make every term vanish, which needs all terms to be nonnegative on
 the same side of the zero. With constraints active there (or equality
 constraints) terms cancel, e.g. b*c^2 + a^3 = a*c^2 + (b-a)*c^2 + a*a^2 at
 (0,0,1), and the only representation was excluded.

Property: C18
---
 triples/core/sdpsos/manifold.py | 40 ++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/triples/core/sdpsos/manifold.py b/triples/core/sdpsos/manifold.py
index 6020c9f..e57df24 100644
--- a/triples/core/sdpsos/manifold.py
+++ b/triples/core/sdpsos/manifold.py
@@ -170,12 +170,16 @@ def _compute_diff_orders(poly: Poly, root: Root, mixed=False, only_binary_roots=
 
 
 def _compute_nonvanishing_diff_orders(poly: Poly, root: Root, monomial: Tuple[int, ...],
-                                        only_binary_roots=True) -> List[Tuple[int, ...]]:
+                                        only_binary_roots=True, higher_orders=True) -> List[Tuple[int, ...]]:
     """
     Compute the differential orders that the root do not vanish at
-    the given quadratic module (monomial).    
+    the given quadratic module (monomial). If `higher_orders` is False,
+    only the value of the polynomial at the root is used but not its derivatives.
     """
-    orders = _compute_diff_orders(poly, root, only_binary_roots=only_binary_roots)
+    if higher_orders:
+        orders = _compute_diff_orders(poly, root, only_binary_roots=only_binary_roots)
+    else:
+        orders = [(0,) * len(poly.gens)]
     # if len(orders) <= 0 or (len(orders) == 1 and not any(orders[0])):
     #     return orders
     nvars = len(poly.gens)
@@ -220,7 +224,26 @@ def _compute_nonvanishing_diff_orders(poly: Poly, root: Root, monomial: Tuple[in
     return handled_zeros
 
 
-def _root_space(manifold: 'RootSubspace', root: RootAlgebraic, constraint: Poly) -> sp.Matrix:
+def _is_derivative_regular(root: Root, ineq_constraints: List[Poly], eq_constraints: List[Poly]) -> bool:
+    """
+    Check whether a vanishing derivative of f = sum(g_i * x'M_ix) + sum(h_j * p_j) at the root
+    implies that the derivative of every single term vanishes. The implication requires every
+    term to be nonnegative on the same side of the root along each axis. It is not
+    true in general, e.g. f = b*c^2 + a^3 = a*c^2 + (b-a)*c^2 + a*a^2 at (0,0,1).
+    """
+    if len(eq_constraints):
+        return False
+    nonnegative = all(_ >= 0 for _ in root.root)
+    for ineq in ineq_constraints:
+        if nonnegative and ineq.is_monomial and ineq.LC() > 0:
+            continue
+        if not (root.subs(ineq, ineq.gens) > 0):
+            return False
+    return True
+
+
+def _root_space(manifold: 'RootSubspace', root: RootAlgebraic, constraint: Poly,
+        ineq_constraints: List[Poly] = [], eq_constraints: List[Poly] = []) -> sp.Matrix:
     """
     Compute the constraint nullspace spaned by a given root.
 
@@ -238,9 +261,10 @@ def _root_space(manifold: 'RootSubspace', root: RootAlgebraic, constraint: Poly)
     spans = []
     if isinstance(root, RootRational) and constraint.is_monomial:
         monomial = tuple(constraint.monoms()[0])
-        for r_ in symmetry.permute(root.root):
-            new_r = RootRational(r_)
-            orders = _compute_nonvanishing_diff_orders(manifold.poly, new_r, monomial)
+        permed_roots = [RootRational(r_) for r_ in symmetry.permute(root.root)]
+        higher_orders = all(_is_derivative_regular(r_, ineq_constraints, eq_constraints) for r_ in permed_roots)
+        for new_r in permed_roots:
+            orders = _compute_nonvanishing_diff_orders(manifold.poly, new_r, monomial, higher_orders=higher_orders)
             for order in orders:
                 spans.append(new_r.span(d, order, symmetry=base_symmetry))
 
@@ -383,7 +407,7 @@ class RootSubspace():
             if not is_feasible:
                 continue
 
-            span = _root_space(self, root, constraint)
+            span = _root_space(self, root, constraint, ineq_constraints, eq_constraints)
 
             if span.shape[1] > 0:
                 span = sp.Matrix.hstack(*span.columnspace())
-- 
2.43.0


From aeb2f62cb03b02121e7870903fc4fe2dc38c1198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:29 +0000
Subject: [PATCH 054/102] fix: StructuralSOS certified odd monomials without
 nonnegativity constraints

A monomial such as 3*x or x**3 was returned as its own certificate although
nothing says x >= 0. Odd powers now need a declared constraint, as in the
three and four variable solvers.

Property: C05
---
 triples/core/structsos/pivoting/univariate.py |  3 +-
 triples/core/structsos/structsos.py           | 28 ++++++++++++++++---
 triples/utils/roots/findroot.py               |  8 +++---
 triples/utils/roots/rationalize.py            | 22 +++++++++++++--
 4 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index 65da13d..22ca30f 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -5,6 +5,7 @@ import sympy as sp
 
 from ..utils import radsimp
 from ....sdp import congruence as _congruence
+from ....utils.roots.rationalize import nroots_polys
 
 def congruence(M: sp.Matrix) -> Optional[Tuple[sp.Matrix, sp.Matrix]]:
     """
@@ -475,7 +476,7 @@ def _prove_univariate_irreducible(
     if poly.degree() <= 2:
         return _prove_univariate_simple(poly)
 
-    roots = sp.polys.nroots(poly, n = n)
+    roots = nroots_polys(poly, n = n)
     real_roots, complex_roots = _classify_roots(roots)
 
     # a mark of whether the polynomial is positive only over R+ (True) or over R (False)
diff --git a/triples/core/structsos/structsos.py b/triples/core/structsos/structsos.py
index 02ea9ca..d774a19 100644
--- a/triples/core/structsos/structsos.py
+++ b/triples/core/structsos/structsos.py
@@ -48,6 +48,25 @@ def StructuralSOS(
     return solution
 
 
+def _sos_struct_monomial(poly: sp.Poly, ineq_constraints: Dict[sp.Poly, sp.Expr] = {}) -> Optional[sp.Expr]:
+    """
+    Solve a monomial with nonnegative coefficient. Every variable with an odd exponent
+    must be declared nonnegative by one of the inequality constraints.
+    """
+    signs = {}
+    for k, v in ineq_constraints.items():
+        if len(k.free_symbols) == 1 and k.is_monomial and k.is_linear and k.LC() >= 0:
+            signs[next(iter(k.free_symbols))] = v/k.LC()
+
+    solution = poly.LC()
+    for gen, exponent in zip(poly.gens, poly.monoms()[0]):
+        if exponent % 2 == 1:
+            if gen not in signs:
+                return None
+            solution = solution * signs[gen]
+        solution = solution * gen**(exponent//2*2)
+    return solution
+
 def _structural_sos(poly: sp.Poly, ineq_constraints: Dict[sp.Poly, sp.Expr] = {}, eq_constraints: Dict[sp.Poly, sp.Expr] = {}) -> sp.Expr:
     """
     Internal function of StructuralSOS, returns a sympy expression only.
@@ -56,10 +75,11 @@ def _structural_sos(poly: sp.Poly, ineq_constraints: Dict[sp.Poly, sp.Expr] = {}
     d = poly.total_degree()
     nvars = len(poly.gens)
     if poly.is_monomial:
-        if poly.LC() >= 0:
-            # since the poly is homogeneous, it must be a monomial
-            return poly.as_expr()
-        return None
+        if not poly.LC() >= 0:
+            return None
+        solution = _sos_struct_monomial(poly, ineq_constraints)
+        if solution is not None:
+            return solution
 
     poly, ineq_constraints, eq_constraints = clear_free_symbols(poly, ineq_constraints, eq_constraints)
     d = poly.total_degree()
diff --git a/triples/utils/roots/findroot.py b/triples/utils/roots/findroot.py
index 031e471..1070b1b 100644
--- a/triples/utils/roots/findroot.py
+++ b/triples/utils/roots/findroot.py
@@ -10,7 +10,7 @@ from sympy.plotting.experimental_lambdify import vectorized_lambdify
 from scipy.optimize import minimize
 
 from .grid import GridRender, GridPoly
-from .rationalize import nroots, rationalize
+from .rationalize import nroots, nroots_polys, rationalize
 from .roots import Root, RootAlgebraic, RootRational
 from .rootsinfo import RootsInfo
 from ..polytools import deg, verify_hom_cyclic
@@ -695,7 +695,7 @@ class _findroot_helper_resultant():
         all_roots = []
         all_roots_inv = []
         for i, factor_ in enumerate(factors):
-            for r in sp.polys.nroots(factor_[0], n = prec):
+            for r in nroots_polys(factor_[0], n = prec):
                 if r.is_real:
                     all_roots.append((r, i))
                     if r != 0:
@@ -743,11 +743,11 @@ class _findroot_helper_resultant():
         all_roots1 = []
         all_roots2 = []
         for i, factor_ in enumerate(factors1):
-            for r in sp.polys.nroots(factor_[0], n = prec):
+            for r in nroots_polys(factor_[0], n = prec):
                 if r.is_real:
                     all_roots1.append((r, i))
         for i, factor_ in enumerate(factors2):
-            for r in sp.polys.nroots(factor_[0], n = prec):
+            for r in nroots_polys(factor_[0], n = prec):
                 if r.is_real:
                     all_roots2.append((r, i))
 
diff --git a/triples/utils/roots/rationalize.py b/triples/utils/roots/rationalize.py
index 53c7414..be559c4 100644
--- a/triples/utils/roots/rationalize.py
+++ b/triples/utils/roots/rationalize.py
@@ -1,8 +1,26 @@
 from typing import Optional, Tuple, List, Dict, Union, Generator
 
 import sympy as sp
+from mpmath.libmp.libhyper import NoConvergence
 from numpy import roots as nproots
 
+def nroots_polys(poly: sp.Poly, n: int = 15) -> List[sp.Expr]:
+    """
+    Wrapper of sympy.polys.nroots that also handles very large roots. The tolerance of
+    sympy.polys.nroots is absolute, so the iteration never stops when the roots are too large
+    for the working precision. In this case the variable is scaled so that roots are within the unit disk.
+    """
+    try:
+        return sp.polys.nroots(poly, n = n)
+    except NoConvergence:
+        coeffs = poly.all_coeffs()
+        # Fujiwara's bound
+        ratios = [sp.N(abs(c/coeffs[0]), 30)**sp.Rational(1, k) for k, c in enumerate(coeffs) if k > 0]
+        scale = sp.Integer(2)**int(sp.ceiling(sp.log(2*max(ratios), 2).n(15)))
+        scaled = sp.Poly.from_list([c / scale**k for k, c in enumerate(coeffs)], poly.gen)
+        return [r * scale for r in sp.polys.nroots(scaled, n = n, maxsteps = 500)]
+
+
 def nroots(poly, method = 'numpy', real = False, nonnegative = False):
     """
     Wrapper function to find the numerical roots of a sympy polynomial.
@@ -23,7 +41,7 @@ def nroots(poly, method = 'numpy', real = False, nonnegative = False):
     if method == 'numpy':
         roots = [sp.S(_) for _ in nproots(poly.all_coeffs())]
     elif method == 'sympy':
-        roots = sp.polys.nroots(poly)
+        roots = nroots_polys(poly)
     elif method == 'factor':
         roots_rational = []
         roots = []
@@ -31,7 +49,7 @@ def nroots(poly, method = 'numpy', real = False, nonnegative = False):
             if part.degree() == 1:
                 roots_rational.append(-part.all_coeffs()[1] / part.all_coeffs()[0])
             else:
-                roots.extend(sp.polys.nroots(part))
+                roots.extend(nroots_polys(part))
         roots = roots_rational + roots
 
     if real:
-- 
2.43.0


From 97163129d3e63b4384b46af27eda884710320ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:18 +0000
Subject: [PATCH 055/102] fix: sextic full-SDP heuristic raised on degenerate
 parameters

Vanishing denominators (r1 + r2 + 3, 2*r1 + 1, z) produced zoo entries, and a
form that is not positive semidefinite was unpacked from None.

Property: C01
---
 triples/core/structsos/ternary/sextic.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/sextic.py b/triples/core/structsos/ternary/sextic.py
index 52115cc..a0c776d 100644
--- a/triples/core/structsos/ternary/sextic.py
+++ b/triples/core/structsos/ternary/sextic.py
@@ -850,7 +850,10 @@ def _sos_struct_sextic_full_sdp(coeff):
     # ]
     
     def _compute_quad_form_sol(quad_form):
-        q, ss = congruence(quad_form)
+        cong = congruence(quad_form)
+        if cong is None:
+            return None
+        q, ss = cong
         quad_form_sol = [
             (q[0,0]*(a**3-a*b*c)+q[0,1]*(a**2*b-a*b*c)+q[0,2]*(a*b**2-a*b*c)),
             (q[1,1]*(a**2*b-a*b*c)+q[1,2]*(a*b**2-a*b*c)),
@@ -880,6 +883,8 @@ def _sos_struct_sextic_full_sdp(coeff):
     if rest_form[0] != 0:
         r1, r2 = rest_form[1] / rest_form[0], rest_form[2] / rest_form[0]
         denom = ((r1 + 2*r2 + sp.Rational(9,2))**2 + sp.Rational(27,4))
+        if r1 + r2 + 3 == 0:
+            return None
 
         # We shall subtract r/z * \sum f(a,b,c)^2 from the original polynomial to make rest_form == 0
         # where z = x^2 + x(y-3) + y^2 + 3 is a variable
@@ -893,6 +898,8 @@ def _sos_struct_sextic_full_sdp(coeff):
     elif rest_form[1] != 0:
         r1 = rest_form[2] / rest_form[1]
         denom = 2*r1 + 1
+        if denom == 0 or r1 + 1 == 0:
+            return None
 
         r = rest_form[1] * denom**2/(54*(r1 + 1))
         u = (r1 + 2)*x + (r1 + 2)*y + (-5*r1 - 4)
@@ -957,9 +964,13 @@ def _sos_struct_sextic_full_sdp(coeff):
     # symmetrize as Hermitian matrix
     quad_form = quad_form.subs({x:x_, y:y_})
     z_ = z.subs({x:x_, y:y_})
+    if z_ == 0:
+        return None
     quad_form = ((quad_form + quad_form.T) - sp.diag(*quad_form.diagonal())) / z_
 
     quad_form_sol = _compute_quad_form_sol(quad_form)
+    if quad_form_sol is None:
+        return None
 
     u_, v_ = u.subs({x:x_, y:y_}), v.subs({x:x_, y:y_})
     main_sol = CyclicSum((a**3 + a**2*b*u_ + a**2*c*y_ + a*b**2*x_ + a*c**2*(-u_ - v_) - b**3 + b**2*c*v_ + b*c**2*(-x_ - y_)).together()**2)
-- 
2.43.0


From 1fdd91de295e25d0e13beb4909de8f0701ca7a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:29 +0000
Subject: [PATCH 056/102] fix: symmetric octic hexagon certificate with an
 unmatched coefficient

With 2*c620 + c611 == 0 the parameter y is arbitrary and the terms a^5b^3,
a^5b^2c were never compared, e.g. a false inequality
s(a5b2c+a5bc2)-s(a5b3+a5c3)/10 >= 0 was certified.

Property: C05
---
 triples/core/structsos/ternary/octic_symmetric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/octic_symmetric.py b/triples/core/structsos/ternary/octic_symmetric.py
index f4a6dfe..9137daf 100644
--- a/triples/core/structsos/ternary/octic_symmetric.py
+++ b/triples/core/structsos/ternary/octic_symmetric.py
@@ -579,7 +579,9 @@ def _sos_struct_octic_symmetric_hexagon(coeff):
             y_ = -2*(2*c1 + c2 + c3 + c4)/(2*c1 + c3) if 2*c1 + c3 != 0 else sp.S(0)
             z_ = (2*c1 - c3)/4
             w_ = (10*c1 + 6*c2 + c3 + 2*c4)/4
-            if x_ >= 0 and z_ >= 0 and z_ + w_ >= 0:
+            # when x_ == 0 there is no freedom of y_ and the coefficients must match by themselves
+            is_matched = x_ != 0 or 2*c1 + c2 + c3 + c4 == 0
+            if is_matched and x_ >= 0 and z_ >= 0 and z_ + w_ >= 0:
                 m_ = coeff((4,4,0)) - (-2*w_ + 2*x_*y_**2 - 4*x_*y_ + 2*z_)
                 p_ = coeff((4,3,1)) - (w_ - 4*x_*y_**2 + 6*x_*y_ + 2*x_)
                 n_ = coeff((4,2,2)) - (2*w_ + 6*x_*y_**2 + 20*x_*y_ + 4*x_ - 4*z_)
-- 
2.43.0


From d7e484a77ed2034d34ada54a42edb95f62a47088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:03 +0000
Subject: [PATCH 057/102] fix: zero polynomial in the four-variable symmetric
 transformation

The content of the zero polynomial is 0, so sym_representation returned a
zoo denominator.

Property: C04
---
 triples/core/symsos/symmetric.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triples/core/symsos/symmetric.py b/triples/core/symsos/symmetric.py
index 2347e6e..0f6a330 100644
--- a/triples/core/symsos/symmetric.py
+++ b/triples/core/symsos/symmetric.py
@@ -311,7 +311,9 @@ def _symmetric_real_4vars(poly_pqr, original_symbols, new_symbols, return_poly=T
     ker1, ker2 = w + (y - z)**2, (8*w*y + w*z + 8*y**3 + 12*y**2*z + 6*y*z**2 + z**3)
     numerator = numerator(ker1, ker2).as_poly(x, y, z, w)
     inv_denominator, numerator = numerator.primitive()
-    if inv_denominator < 0:
+    if inv_denominator == 0: # zero polynomial
+        inv_denominator = sp.S.One
+    elif inv_denominator < 0:
         inv_denominator, numerator = -inv_denominator, -numerator
     denominator = 1/inv_denominator
 
-- 
2.43.0


From 87311f7335bd49ace5c07751c7fa2084ecf1bb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:50 +0000
Subject: [PATCH 058/102] fix: evaluate and approximate roots with irrational
 coordinates

Root.eval(poly, rational=True) and TernaryMixin.approximate raised TypeError
on radicals, because sympy.Rational does not accept them.

Property: C21
---
 triples/utils/roots/roots.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/triples/utils/roots/roots.py b/triples/utils/roots/roots.py
index 7cc8ef8..2f2f76a 100644
--- a/triples/utils/roots/roots.py
+++ b/triples/utils/roots/roots.py
@@ -123,7 +123,7 @@ class Root():
         """
         root = self.root
         if rational:
-            root = tuple(map(sp.Rational, root))
+            root = tuple(r if isinstance(r, sp.Rational) else sp.Rational(r.n()) for r in root)
         return poly(*root)
 
     def as_vec(self,
@@ -581,7 +581,8 @@ class TernaryMixin():
                 r[perm[1]] = 1
 
         for i in range(3):
-            v = rationalize(r[i], rounding=.1, reliable=False)
+            v = sp.S(r[i])
+            v = rationalize(v if v.is_Rational else v.n(), rounding=.1, reliable=False)
             if n(v, r[i], approximate_tolerance):
                 r[i] = v
 
-- 
2.43.0


From be0c5902a50a0472a05833a1f4ff17b3b1a04131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:50 +0000
Subject: [PATCH 059/102] fix: cyclic sums of corner roots, generating
 polynomial with CRootOf

Corner roots have infinite (u, v), which gave nan. RootAlgebraicTernary.poly
returned None if the coefficients contain CRootOf in the same symbol.

Property: C21
---
 triples/utils/roots/roots.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/triples/utils/roots/roots.py b/triples/utils/roots/roots.py
index 2f2f76a..1fc2c07 100644
--- a/triples/utils/roots/roots.py
+++ b/triples/utils/roots/roots.py
@@ -434,8 +434,8 @@ class TernaryMixin():
         Return a polynomial whose three roots are (proportional to) a, b, c.
         """
         x = x or sp.Symbol('x')
-        poly = x**3 - x**2 + self.cyclic_sum((1,1,0)) * x - self.cyclic_sum((1,1,1)) / 3
-        return poly.as_poly(x)
+        # do not use as_poly, since the coefficients might be CRootOf in x
+        return sp.Poly.from_list([1, -1, self.cyclic_sum((1,1,0)), -self.cyclic_sum((1,1,1)) / 3], x)
 
     def cyclic_sum(self, monom: Tuple[int, int, int], to_sympy = True) -> sp.Expr:
         """
@@ -446,6 +446,9 @@ class TernaryMixin():
         """
         _cyclic_sum_cache = self._cyclic_sum_cache if hasattr(self, '_cyclic_sum_cache') else {}
         i, j, k = monom
+        if self.is_corner:
+            # u and v are infinite, the standardized root is (1,0,0) up to rotation
+            return sp.S(max(0, sum(_ == 0 for _ in monom) - 1) if any(monom) else 3)
         m = min(monom)
         u, v = self.uv()
         if m >= 1:
-- 
2.43.0


From 27a05a212618b24b6c53f12024c81d09d6d311aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:50 +0000
Subject: [PATCH 060/102] fix: standardizing an algebraic root in place left
 stale field elements

span, subs and cyclic sums still referred to the point before the rotation and
scaling. Also support roots whose coordinates turn out to be rational.

Property: C21
---
 triples/utils/roots/roots.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/triples/utils/roots/roots.py b/triples/utils/roots/roots.py
index 1fc2c07..49e28d2 100644
--- a/triples/utils/roots/roots.py
+++ b/triples/utils/roots/roots.py
@@ -273,7 +273,7 @@ class RootAlgebraic(Root):
             for ind, monom in enumerate(monoms):
                 vec[ind] = _single_power(monom)
         else:
-            zero = self.K.zero
+            zero = self.K.zero if self.K is not None else sp.S(0)
             for ind, monom in enumerate(monoms):
                 if any(order_m < order_diff for order_m, order_diff in zip(monom, diff)):
                     vec[ind] = zero
@@ -321,7 +321,7 @@ class RootAlgebraic(Root):
                 s = expr0.subs(zip(gens, self.root))
             results.append(s)
 
-        if to_sympy:
+        if to_sympy and self.K is not None:
             results = [self.K.to_sympy(r) for r in results]
         if is_single_expr:
             return results[0]
@@ -549,7 +549,11 @@ class TernaryMixin():
                             break
 
         if inplace:
-            self.root = root
+            if isinstance(self, RootAlgebraic):
+                # also update the field elements and the cached powers
+                self.__init__(root)
+            else:
+                self.root = root
             return self
         return RootTernary(root)
 
-- 
2.43.0


From d9630713cc4e16db36fb49dbcb8bdf6c8d79ea81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:11 +0000
Subject: [PATCH 061/102] fix: local minima of cyclic grids skipped the last
 row of candidates

Property: C24
---
 triples/utils/roots/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/utils/roots/grid.py b/triples/utils/roots/grid.py
index 879cf5d..4856e74 100644
--- a/triples/utils/roots/grid.py
+++ b/triples/utils/roots/grid.py
@@ -164,8 +164,8 @@ class GridPoly():
         if not cyc:
             iterator = zip(grid_coor, grid_value)
         else:
-            # trunc = (2*n + 3 - n // 3) * (n // 3) // 2
-            trunc = (2*n//3) * (2*n//3 + 1) // 2
+            # keep the points with i >= n/3, including those where i == n/3
+            trunc = (2*n//3 + 1) * (2*n//3 + 2) // 2
             iterator = zip(grid_coor[:trunc], grid_value[:trunc])
 
         def _get_local_checker(cyc = True):
-- 
2.43.0


From 88486b814cea8401c370a1c82cbfaab496d12c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:11 +0000
Subject: [PATCH 062/102] fix: value table of constant polynomials with
 lambdify

Property: C24
---
 triples/utils/roots/grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/triples/utils/roots/grid.py b/triples/utils/roots/grid.py
index 4856e74..e18e2fd 100644
--- a/triples/utils/roots/grid.py
+++ b/triples/utils/roots/grid.py
@@ -263,6 +263,8 @@ class GridRender():
             f = sp.lambdify(poly.gens, poly.as_expr())
             grid_coor_np = np.array(grid_coor) / cls.degree_limit # normalize
             grid_value = f(*grid_coor_np.T)
+            if np.ndim(grid_value) == 0: # constant polynomial
+                grid_value = np.full(len(grid_coor), grid_value)
 
         return grid_value
 
-- 
2.43.0


From 9f2df2e611f469ad2d3b0f4431fedf096a7838bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:41 +0000
Subject: [PATCH 063/102] fix: monotone decomposition of univariate polynomials
 and with fractional bounds

Property: C23
---
 triples/utils/roots/monotonic_opt.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index 889fffb..91d298e 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -375,17 +375,25 @@ def poly_as_dm(poly: sp.Poly, a=None):
     f1, f2 : sympy.Poly
         Two polynomials such that poly = f1 - f2.
     """
+    def shift(poly, a):
+        # shift_list of univariate polynomials is broken in some versions of SymPy
+        return poly.shift(a[0]) if len(a) == 1 else poly.shift_list(a)
+
     if a is not None:
         a = [min(ai, 0) for ai in a]
-        poly = poly.shift_list(a)
+        if poly.domain.is_Exact:
+            a = [sp.Rational(ai) for ai in a]
+            if any(not ai.is_Integer for ai in a):
+                poly = poly.to_field()
+        poly = shift(poly, a)
     terms = poly.terms()
     pos = [t for t in terms if t[1] >= 0]
     neg = [t for t in terms if t[1] < 0]
     f1 = sp.Poly.from_dict(dict(pos), poly.gens, domain=poly.domain)
     f2 = -sp.Poly.from_dict(dict(neg), poly.gens, domain=poly.domain)
     if a is not None:
-        f1 = f1.shift_list([-ai for ai in a])
-        f2 = f2.shift_list([-ai for ai in a])
+        f1 = shift(f1, [-ai for ai in a])
+        f2 = shift(f2, [-ai for ai in a])
     return f1, f2
 
 
-- 
2.43.0


From e7524f730c0423a712fe064122a7c38520d5c5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:41 +0000
Subject: [PATCH 064/102] fix: global optimization ignored constraints free of
 the first variable

Property: C23
---
 triples/utils/roots/monotonic_opt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index 91d298e..b576a38 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -480,11 +480,11 @@ def rpa_polyopt(f: sp.Poly, ineq_constraints: List[sp.Poly]=[], eq_constraints:
         ineq_constraints.append(-eq + eqtol)
     for ineq in ineq_constraints:
         ineq = sp.Poly(ineq, gens)
-        if ineq.degree() <= 0:
+        if ineq.total_degree() <= 0:
             if ineq.LC() < 0:
                 return RPAResult(None, np.inf, 1, True, a, b)
             continue
-        elif ineq.degree() == 1 and len(ineq.free_symbols) == 1: # linear
+        elif ineq.total_degree() == 1 and len(ineq.free_symbols) == 1: # linear
             s = ineq.free_symbols.pop()
             ind = gens.index(s)
             lc = ineq.coeff_monomial(s)
-- 
2.43.0


From df1a4b3079c660f51fa447519583bd69e0af5dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:41 +0000
Subject: [PATCH 065/102] fix: global optimization modified the bounds of the
 caller and rejected tuples

Property: C23
---
 triples/utils/roots/monotonic_opt.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index b576a38..565860a 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -467,6 +467,7 @@ def rpa_polyopt(f: sp.Poly, ineq_constraints: List[sp.Poly]=[], eq_constraints:
         a = [a] * nvars
     if not hasattr(b, '__iter__'):
         b = [b] * nvars
+    a, b = list(a), list(b) # do not modify the arguments
 
     from sympy.plotting.experimental_lambdify import vectorized_lambdify
     def wrap(gens, f):
-- 
2.43.0


From 9b6fcf1c73c6c64b9492f0bf5fe444a59f3b5d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:41 +0000
Subject: [PATCH 066/102] fix: reverse polyblock algorithm dropped vertices
 below the reduced domain

Domains that become infeasible are discarded instead of raising.

Property: C23
---
 triples/utils/roots/monotonic_opt.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index 565860a..47e5365 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -101,7 +101,7 @@ def _red(f, g, h, a, b, cbv, root_solver=_find_sup):
         b[i] = ai + res * (b[i] - ai) # inplace update
         a[i] = ai
 
-    if h(b) <= -_rtol: # infeasible
+    if h(b) < 0: # infeasible
         return b, b
 
     for i in range(n):
@@ -192,7 +192,7 @@ def rpa_monotonic(f, g, h, a, b, tol=1e-5, max_iter=2000, cbv=np.inf, root_solve
         x_best, cbv, k, T = None, np.inf, 0, []
     else:
         a, b = _red(f, g, h, a, b, cbv, root_solver=root_solver)
-        T = [a]
+        T = [a] if h(b) >= 0 else []
 
     for k in range(1, 1 + max_iter):
         if not T:  # Step 2: If T is empty, terminate
@@ -216,7 +216,9 @@ def rpa_monotonic(f, g, h, a, b, tol=1e-5, max_iter=2000, cbv=np.inf, root_solve
                 cbv = f(x_k)
                 x_best = x_k
                 a, b = _red(f, g, h, a, b, cbv, root_solver=root_solver)
-                T = [z for z in T if np.all(z >= a) and np.all(z <= b) and f(z) < cbv - tol and g(z) <= 0]
+                # a vertex z stands for the points above it, of which only those above a remain
+                T = [np.maximum(z, a) for z in T]
+                T = [z for z in T if np.all(z <= b) and f(z) < cbv - tol and g(z) <= 0] if h(b) >= 0 else []
                 if verbose:
                     print(k, 'New best:', cbv, 'x =', x_best, 'L =', len(T))
                     print('New bounds:', a, b)
-- 
2.43.0


From 5c048d7d3dd3cb7f25c67f45a68dfaad95ffe238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 067/102] fix: global optimization lost feasible points by
 rounding errors

Property: C23
---
 triples/utils/roots/monotonic_opt.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index 47e5365..408c417 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -18,6 +18,8 @@ def _find_sup(f, a, b, xtol=_xtol, maxiter=100):
     """
     if -_rtol <= f(b) <= _rtol:
         return b
+    if f(a) > 0: # f(a) <= 0 is violated by rounding errors
+        return a
 
     # Step 1: Apply Brent's method (using scipy.optimize.root_scalar with brentq)
     result = root_scalar(f, bracket=(a, b), method='brentq', xtol=xtol, maxiter=maxiter)
@@ -331,9 +333,11 @@ def rpa_gmop(f1_and_f2, g_and_h, a, b, tol=1e-5, max_iter=2000, cbv=np.inf, root
     def F(x_t_u):
         return f1(x_t_u[:n]) + x_t_u[n+1]
 
-    # Define the transformed constraints
+    # Define the transformed constraints. Tolerate rounding errors because
+    # g(x) + t is identically zero when g is constant.
+    eps = 16 * np.finfo(float).eps * max(1, abs(g(a)), abs(g(b)))
     def G(x_t_u):
-        return g(x_t_u[:n]) + x_t_u[n]
+        return g(x_t_u[:n]) + x_t_u[n] - eps
 
     def H(x_t_u):
         hx_plus_t = h(x_t_u[:n]) + x_t_u[n]
-- 
2.43.0


From ac3d8da9f68da6dda018873cd6c1347f8cae494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:00 +0000
Subject: [PATCH 068/102] fix: global optimization over boxes emptied by linear
 constraints

Property: C23
---
 triples/utils/roots/monotonic_opt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/utils/roots/monotonic_opt.py b/triples/utils/roots/monotonic_opt.py
index 408c417..d603522 100644
--- a/triples/utils/roots/monotonic_opt.py
+++ b/triples/utils/roots/monotonic_opt.py
@@ -506,6 +506,9 @@ def rpa_polyopt(f: sp.Poly, ineq_constraints: List[sp.Poly]=[], eq_constraints:
         f1, f2 = poly_as_dm(ineq, a)
         g_and_h.append((wrap(gens, f2), wrap(gens, f1))) # f2 - f1 <= 0
 
+    if any(ai > bi for ai, bi in zip(a, b)): # linear constraints leave an empty box
+        return RPAResult(None, np.inf, 1, True, a, b)
+
     f1, f2 = poly_as_dm(f, a)
     f1, f2 = wrap(gens, f1), wrap(gens, f2)
     result = rpa_gmop((f1, f2), g_and_h, a, b, tol=tol, max_iter=max_iter, cbv=cbv, root_solver=root_solver, verbose=verbose)
-- 
2.43.0


From 59f055430f4c41d452c03e395123e47a95919212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:37 +0000
Subject: [PATCH 069/102] fix: findroot listed points of negative value as
 zeros

Points where the polynomial is far below zero were listed in strict_roots (v < reg
instead of |v| < reg), so tangents and filters were built from points that are no zeros.

Property: C22
---
 triples/utils/roots/findroot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/utils/roots/findroot.py b/triples/utils/roots/findroot.py
index 1070b1b..a7d16ca 100644
--- a/triples/utils/roots/findroot.py
+++ b/triples/utils/roots/findroot.py
@@ -302,7 +302,7 @@ def findroot(
 
     reg = max(abs(i) for i in poly.coeffs()) * deg(poly) * 5e-9
 
-    strict_roots = [roots[i] for v, i in vals if v < reg]
+    strict_roots = [roots[i] for v, i in vals if abs(v) < reg]
     roots = [roots[i] for v, i in vals]
 
     if verbose:
-- 
2.43.0


From db059a77c1505ce9e419b4b9dc3039a3ed75ee60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:49 +0000
Subject: [PATCH 070/102] fix: a batch run changed the reader options of its
 caller

sum_of_squares_multiple added 'ignore_errors' to the dictionary passed as
poly_reader_configs, or to the default one shared by all calls.

Property: C25
---
 triples/core/sum_of_squares.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/triples/core/sum_of_squares.py b/triples/core/sum_of_squares.py
index ca73026..c9783bc 100644
--- a/triples/core/sum_of_squares.py
+++ b/triples/core/sum_of_squares.py
@@ -197,8 +197,7 @@ def sum_of_squares_multiple(
         if key in ('LinearSOS', 'SDPSOS'):
             configs[key]['verbose'] = verbose_sos
 
-    if 'ignore_errors' not in poly_reader_configs:
-        poly_reader_configs['ignore_errors'] = True
+    poly_reader_configs = {'ignore_errors': True, **poly_reader_configs}
     read_polys = PolyReader(polys, **poly_reader_configs)
     read_polys_zip = zip(read_polys.polys, read_polys)
     if verbose_progress:
-- 
2.43.0


From dc2a0c5ce311faaa79ed90e7564b040991d8aa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:49 +0000
Subject: [PATCH 071/102] fix: results of a batch run could not be saved in the
 current directory

The directory to create was the empty string for a file name without
directory, and for problems read from such a file.

Property: C25
---
 triples/core/sum_of_squares.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/triples/core/sum_of_squares.py b/triples/core/sum_of_squares.py
index c9783bc..c507ddb 100644
--- a/triples/core/sum_of_squares.py
+++ b/triples/core/sum_of_squares.py
@@ -305,7 +305,8 @@ def _process_records(
             filename = save_result
         else:
             raise ValueError('save_result must be a directory / csv file name / True.')
-        os.makedirs(os.path.dirname(filename), exist_ok=True)
+        if os.path.dirname(filename):
+            os.makedirs(os.path.dirname(filename), exist_ok=True)
         records_save.to_csv(filename)
 
     return records_pd
-- 
2.43.0


From 9da2bae2fe65bfc0b602099cf2f64522553b6744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:58 +0000
Subject: [PATCH 072/102] fix: a batch run without problems had no columns

The table of results had no columns then, and could not be saved.

Property: C25
---
 triples/core/sum_of_squares.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/triples/core/sum_of_squares.py b/triples/core/sum_of_squares.py
index c507ddb..2fbf0c6 100644
--- a/triples/core/sum_of_squares.py
+++ b/triples/core/sum_of_squares.py
@@ -282,7 +282,8 @@ def _process_records(
         save_solution_method = lambda x: getattr(x, attr) if x is not None else None
 
     import pandas as pd
-    records_pd = pd.DataFrame(records, index = range(1, len(records)+1))
+    columns = ['problem', 'deg', 'status', 'solution', 'method', 'time']
+    records_pd = pd.DataFrame(records, index = range(1, len(records)+1), columns = columns)
     if save_result:
         records_save = records_pd.copy()
         records_save['solution'] = records_save['solution'].apply(save_solution_method)
-- 
2.43.0


From 21edf7c6079b748eb626bac50a7613f836b5680b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:00 +0000
Subject: [PATCH 073/102] fix: zeros of polynomials with large coefficients
 were missed

findroot_resultant compared values of a polynomial with an absolute
tolerance, which values computed with 20 digits exceed when the integer
coefficients are large.

Property: C22
---
 triples/utils/roots/findroot.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/triples/utils/roots/findroot.py b/triples/utils/roots/findroot.py
index a7d16ca..1a2ca16 100644
--- a/triples/utils/roots/findroot.py
+++ b/triples/utils/roots/findroot.py
@@ -656,6 +656,18 @@ class _findroot_helper_resultant():
             roots_clear.append(root)
         return roots_clear
 
+    @classmethod
+    def _is_root_pair(cls, poly, a_, b_, tolerance = 1e-12):
+        """
+        Whether a polynomial of two variables vanishes at (a_, b_) numerically. The tolerance
+        is relative to the terms of the polynomial when they are large.
+        """
+        v = abs(poly(a_, b_))
+        if v < tolerance:
+            return True
+        scale = sum(abs(coeff * a_**i * b_**j) for (i, j), coeff in poly.terms())
+        return bool(v < tolerance * scale)
+
     @classmethod
     def _ternary_cyclic_root_pairs(cls, poly, factors, prec = 20, tolerance = 1e-12):
         """
@@ -709,8 +721,7 @@ class _findroot_helper_resultant():
                     # we could assume |c| = max{|a|, |b|, |c|} = 1
                     # as the polynomial is cyclic
                     continue
-                v = poly(a_, b_)
-                if abs(v) < tolerance:
+                if cls._is_root_pair(poly, a_, b_, tolerance):
                     pairs.append(((a_, b_), (i, j)))
         return pairs
 
@@ -753,8 +764,7 @@ class _findroot_helper_resultant():
 
         for a_, i in all_roots1:
             for b_, j in all_roots2:
-                v = poly(a_, b_)
-                if abs(v) < tolerance:
+                if cls._is_root_pair(poly, a_, b_, tolerance):
                     pairs.append(((a_, b_), (i, j)))
         return pairs
 
-- 
2.43.0


From 596649b450790d7c3044cb8b606790d39d1de33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:27 +0000
Subject: [PATCH 074/102] fix: typed text could access attributes of Python
 objects

A dot followed by a name was handed over to sympify, which evaluates it as
an attribute, e.g. '(1/2).q' was read as 2, and letters outside ASCII were
enough to call arbitrary methods.

Property: C26
---
 triples/utils/text_process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index f4f1bd5..5fd1295 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -258,6 +258,9 @@ def preprocess_text(
     if any(_ in poly for _ in ('#', '&', '|', '~', '%', '//', '"', "'")):
         # comments, logical operators, remainders and quotes would be accepted by sympify
         raise ValueError('Unexpected characters in the polynomial: %s'%poly)
+    if re.search(r'\.(?!e[+-]?\d)\s*[^\W\d]|\.\s*_', poly):
+        # attributes would be accepted and evaluated by sympify
+        raise ValueError('Unexpected dot in the polynomial: %s'%poly)
     poly = sympify(poly)
     if return_type == 'expr':
         return poly
-- 
2.43.0


From ff730cdd3e7c8a87f29ccace993bd780d58fbdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:27 +0000
Subject: [PATCH 075/102] fix: text of a fraction was kept when its denominator
 lacks the first variable

The polynomial is the numerator of the typed fraction, and the text is
rewritten in this case, but only if the first variable is in the denominator.

Property: C26
---
 triples/gui/sos_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index 835367e..92bce60 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -138,7 +138,7 @@ class SOS_Manager():
                 elif standardize_text == 'expand':
                     triv_group = PermutationGroup([Permutation(list(range(len(poly.gens))))])
                     txt2 = poly_get_standard_form(poly, triv_group, omit_mul=omit_mul, omit_pow=omit_pow)
-            elif not denom.degree() == 0:
+            elif not denom.total_degree() == 0:
                 txt2 = poly_get_standard_form(poly, perm)
             if isinstance(txt2, str):
                 txt = txt2
-- 
2.43.0


From c8e4d5c22984f14b0c993d3da7e826a7778c01fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:27 +0000
Subject: [PATCH 076/102] fix: dehomogenization evaluated its text as Python
 code

The value comes from the request of a client. Polynomials of one variable
and polynomials that become zero could not be dehomogenized either.

Property: C26
---
 triples/gui/sos_manager.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index 92bce60..10817e1 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -116,13 +116,15 @@ class SOS_Manager():
 
         if dehomogenize is not None and dehomogenize is not False:
             try:
+                if isinstance(dehomogenize, str):
+                    dehomogenize = preprocess_text(dehomogenize, gens=gens, perm=perm, return_type='expr')
                 dehomogenize = sp.S(dehomogenize)
-                if len(dehomogenize.free_symbols) == 0: # dehomogenize is a number
+                if len(dehomogenize.free_symbols) == 0 and dehomogenize.is_finite: # dehomogenize is a number
                     for i in range(len(poly.gens)-1, -1, -1):
                         if poly.degree(i) != 0:
-                            poly = poly.eval(poly.gens[i], dehomogenize)
-                            poly = poly.as_poly(*gens, domain=poly.domain)
-                            n = poly.total_degree()
+                            value = poly.eval(poly.gens[i], dehomogenize)
+                            poly = Poly(value.as_expr(), *gens, extension=True)
+                            n = poly.total_degree() if not poly.is_zero else 0
                             if not standardize_text:
                                 standardize_text = 'sort'
                             break
-- 
2.43.0


From 266311d4e5177c79b06535917f7cb6779f9c36b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:54 +0000
Subject: [PATCH 077/102] fix: SOS_Manager.sum_of_squares raised errors instead
 of answering

It should return None when no solution is found, but symmetrized it. It
could not be called without a list of methods or with more than ten variables.

Property: C26
---
 triples/gui/sos_manager.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index 10817e1..7c35a50 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -12,7 +12,7 @@ from ..utils import (
 )
 from ..utils.text_process import preprocess_text, degree_of_zero, coefficient_triangle
 from ..utils.roots import RootsInfo, GridRender, findroot
-from ..core.sum_of_squares import sum_of_squares, DEFAULT_CONFIGS
+from ..core.sum_of_squares import sum_of_squares, DEFAULT_CONFIGS, METHOD_ORDER
 from ..core.linsos import root_tangents
 
 
@@ -26,7 +26,7 @@ def _default_polynomial_check(poly: Poly, method_order: List[str]) -> List[str]:
     nvars = len(poly.gens) + (1 - is_hom)
     degree = poly.total_degree()
     upper_bounds = [30, 30, 30, 12, 11, 8, 6, 4, 4, 4, 4]
-    if degree > upper_bounds[nvars]:
+    if degree > upper_bounds[min(nvars, len(upper_bounds) - 1)]:
         # remove LinearSOS and SDPSOS
         method_order = [method for method in method_order if method not in ('LinearSOS', 'SDPSOS')]
     return method_order
@@ -215,7 +215,7 @@ class SOS_Manager():
             eq_constraints: List[Poly] = [],
             gens = CONFIG_DEFAULT_GENS,
             perm = CONFIG_DEFAULT_PERM,
-            method_order = None,
+            method_order = METHOD_ORDER,
             configs = DEFAULT_CONFIGS
         ):
         """
@@ -248,7 +248,7 @@ class SOS_Manager():
             method_order = method_order,
             configs = configs
         )
-        if cls.CONFIG_STANDARDIZE_CYCLICEXPR:
+        if solution is not None and cls.CONFIG_STANDARDIZE_CYCLICEXPR:
             solution = solution.rewrite_symmetry(gens, perm)
         return solution
 
-- 
2.43.0


From b8cbaad1717e07e4178df78e035cf2b13ad3804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:54 +0000
Subject: [PATCH 078/102] fix: SOS_Manager.sum_of_squares changed the
 configurations of its caller

With verbose disabled it wrote to the dictionaries it was given, or to the
default configurations shared by all calls.

Property: C26
---
 triples/gui/sos_manager.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index 7c35a50..8cd984a 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -235,10 +235,9 @@ class SOS_Manager():
                 poly = poly.as_poly(*nonzero_gens)
 
         if cls.verbose is False:
+            configs = dict(configs)
             for method in ('LinearSOS', 'SDPSOS'):
-                if configs.get(method) is None:
-                    configs[method] = {}
-                configs[method]['verbose'] = False
+                configs[method] = {**(configs.get(method) or {}), 'verbose': False}
         method_order = cls.CONFIG_METHOD_CHECK(poly, method_order)
 
         solution = sum_of_squares(
-- 
2.43.0


From 79caa913e2d32fd66b9931b7bbd65f497070da3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:11 +0000
Subject: [PATCH 079/102] fix: requests without a permutation group were
 answered only partially

The group defaults to the cyclic group when the text is read, but was
missing when texts were standardized and solutions or tangents symmetrized.

Property: C26
---
 triples/gui/sos_manager.py |   6 +
 web_main.py                | 713 +++++++++++++++++++------------------
 2 files changed, 364 insertions(+), 355 deletions(-)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index 8cd984a..0575012 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -94,6 +94,9 @@ class SOS_Manager():
             if not all(ord(_) < 128 for _ in txt):
                 return None
 
+        if perm is None:
+            perm = CyclicGroup(len(gens))
+
         try:
             poly, denom = preprocess_text(txt, gens=gens, perm=perm, return_type='frac')
 
@@ -225,6 +228,9 @@ class SOS_Manager():
         if poly is None or (not isinstance(poly, Poly)):
             return None
 
+        if perm is None:
+            perm = CyclicGroup(len(gens))
+
         if cls.CONFIG_ALLOW_NONSTANDARD_GENS:
             if len(poly.free_symbols_in_domain) > 0:
                 poly = poly.as_poly(*sorted(list(poly.gens) + list(poly.free_symbols_in_domain), key=lambda x:x.name))
diff --git a/web_main.py b/web_main.py
index 8c91930..1285edf 100644
--- a/web_main.py
+++ b/web_main.py
@@ -1,356 +1,359 @@
-# import inspect
-# import ctypes
-# import threading
-
-from flask import Flask, render_template, request, jsonify
-from flask_socketio import SocketIO, join_room, leave_room
-from flask_cors import CORS
-
-import sympy as sp
-
-from triples.utils.roots import RootTangent, RootsInfo
-from triples.utils.text_process import pl
-from triples.utils.expression.solution import SolutionSimple
-from triples.gui.sos_manager import SOS_Manager
-
-# def _async_raise(tid, exctype):
-#     '''Raises an exception in the threads with id tid'''
-#     if not inspect.isclass(exctype):
-#         raise TypeError("Only types can be raised (not instances)")
-#     res = ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_long(tid),
-#                                                      ctypes.py_object(exctype))
-#     if res == 0:
-#         raise ValueError("invalid thread id")
-#     elif res != 1:
-#         # "if it returns a number greater than one, you're in trouble,
-#         # and you should call it again with exc=NULL to revert the effect"
-#         ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_long(tid), None)
-#         raise SystemError("PyThreadState_SetAsyncExc failed")
-
-# class ThreadWithExc(threading.Thread):
-#     '''A thread class that supports raising an exception in the thread from
-#        another thread.
-#     '''
-#     def _get_my_tid(self):
-#         """determines this (self's) thread id
-
-#         CAREFUL: this function is executed in the context of the caller
-#         thread, to get the identity of the thread represented by this
-#         instance.
-#         """
-#         if not self.is_alive(): # Note: self.isAlive() on older version of Python
-#             raise threading.ThreadError("the thread is not active")
-
-#         # do we have it cached?
-#         if hasattr(self, "_thread_id"):
-#             return self._thread_id
-
-#         # no, look for it in the _active dict
-#         for tid, tobj in threading._active.items():
-#             if tobj is self:
-#                 self._thread_id = tid
-#                 return tid
-
-#         # TODO: in python 2.6, there's a simpler way to do: self.ident
-
-#         raise AssertionError("could not determine the thread's id")
-
-#     def raise_exc(self, exctype):
-#         """Raises the given exception type in the context of this thread.
-
-#         If the thread is busy in a system call (time.sleep(),
-#         socket.accept(), ...), the exception is simply ignored.
-
-#         If you are sure that your exception should terminate the thread,
-#         one way to ensure that it works is:
-
-#             t = ThreadWithExc( ... )
-#             ...
-#             t.raise_exc( SomeException )
-#             while t.isAlive():
-#                 time.sleep( 0.1 )
-#                 t.raise_exc( SomeException )
-
-#         If the exception is to be caught by the thread, you need a way to
-#         check that your thread has caught it.
-
-#         CAREFUL: this function is executed in the context of the
-#         caller thread, to raise an exception in the context of the
-#         thread represented by this instance.
-#         """
-#         _async_raise( self._get_my_tid(), exctype )
-
-class SOS_WEB(Flask):
-    def __init__(self, *args, **kwargs):
-        super().__init__(*args, **kwargs)
-
-app = SOS_WEB(__name__, template_folder = './')
-CORS(app, supports_credentials=True)
-socketio = SocketIO(app, cors_allowed_origins="*")
-
-@socketio.on('connect')
-def on_connect():
-    sid = request.sid
-    join_room(sid)
-    print('Joined Room', sid)
-
-@socketio.on('disconnect')
-def on_disconnect():
-    sid = request.sid
-    leave_room(sid)
-    print('Left Room', sid)
-
-@app.route('/process/preprocess', methods=['POST'])
-def preprocess():
-    """
-    Process the input polynomial and emit the result to the client.
-    The parameters are passed as a JSON object in the request body.
-
-    Parameters
-    ----------
-    sid : str
-        The session ID.
-    poly : str
-        The input polynomial.
-    standardize_text : str
-        The standardization of the text. If None, the text is not standardized.
-        See `SOS_Manager.set_poly` for more information.
-    actions : list[str]
-        Additional actions to perform.
-
-    Returns
-    ----------
-    n : int
-        The degree of the polynomial.
-    txt : str
-        The formatted polynomial.
-    triangle : str
-        The coefficients formatted as a triangle.
-    heatmap : list[tuple[int, int, int, int]]
-        The heatmap of the polynomial coefficients in RGBA format.
-    """
-    req = request.get_json()
-
-    gens = req.get('gens', 'abc')
-    gens = tuple(sp.Symbol(_) for _ in gens)
-    perm = SOS_Manager._parse_perm_group(req.get('perm'))
-    req['gens'] = gens
-    req['perm'] = perm
-
-    result = SOS_Manager.set_poly(
-        req['poly'],
-        gens = gens,
-        perm = perm,
-        render_triangle = True if 3 <= len(gens) <= 4 else False,
-        render_grid = True,
-        homogenize = req.get('homogenize', False),
-        dehomogenize = req.get('dehomogenize', None),
-        standardize_text = req.get('standardize_text', None),
-        omit_mul = req.get('omit_mul', True),
-        omit_pow = req.get('omit_pow', True),
-    )
-    if result is None:
-        return jsonify()
-
-    n = result['degree']
-    txt = result['txt']
-    triangle = result.get('triangle', None)
-    grid = result.get('grid', None)
-    grid_color = grid.grid_color if grid is not None else None
- 
-    sid = req.pop('sid')
-    req.update(result)
-    socketio.start_background_task(findroot, sid, **req)
-    # thread = ThreadWithExc(target=findroot, args=(sid,), kwargs=req)
-    # thread.daemon = True
-    # thread.start()
-    # socketio.sleep(3)
-    # thread.raise_exc(SystemExit)
-
-    return jsonify(n = n, txt = txt, triangle = triangle, heatmap = grid_color)
-
-def findroot(sid, **kwargs):
-    """
-    Find the root information of the polynomial and emit the result to the client.
-
-    Parameters
-    ----------
-    sid : str
-        The session ID.
-    poly : str
-        The input polynomial.
-    grid : Grid
-        The grid of the polynomial coefficients. This is passed in
-        internally by the `preprocess` function.
-    tangents : list[str]
-        The tangents to the roots. If provided, the tangents are not recalculated.
-    actions : list[str]
-        Additional actions to perform.
-
-    Returns
-    ----------
-    rootsinfo : str
-        The string representation of the roots information.
-    tangents : list[str]
-        The tangents to the roots.    
-    """
-    if 'findroot' in kwargs['actions']:
-        poly = kwargs['poly']
-        grid = kwargs.get('grid', None)
-        rootsinfo = SOS_Manager.findroot(poly, grid, verbose=False)
-        tangents = kwargs.get('tangents')
-        if tangents is None:
-            tangents = [_.as_factor_form(remove_minus_sign=True, perm=kwargs['perm']) for _ in rootsinfo.tangents]
-            socketio.emit(
-                'rootangents',
-                {
-                    'rootsinfo': rootsinfo.gui_description,
-                    'tangents': tangents,
-                    'timestamp': kwargs.get('timestamp', 0)
-                },
-                to=sid
-            )
-        elif 'sos' in kwargs['actions']:
-            tangents = []
-            for tg in kwargs['tangents'].split('\n'):
-                if len(tg) > 0:
-                    try:
-                        tg = pl(tg, gens=kwargs['gens'], perm=kwargs['perm'])
-                        if tg is not None:
-                            # and (tg.domain in (sp.ZZ, sp.QQ)):
-                            tg = tg.as_expr()
-                            # tangents.append(RootTangent(tg))
-                            if 'configs' not in kwargs:
-                                kwargs['configs'] = {'LinearSOS': {'tangents': []}}
-                            elif 'LinearSOS' not in kwargs['configs']:
-                                kwargs['configs']['LinearSOS'] = {'tangents': []}
-                            elif 'tangents' not in kwargs['configs']['LinearSOS']:
-                                kwargs['configs']['LinearSOS']['tangents'] = []
-                            kwargs['configs']['LinearSOS']['tangents'].append(tg**2)
-                    except:
-                        pass
-            rootsinfo.tangents = tangents
-    if 'sos' in kwargs['actions']:
-        kwargs['rootsinfo'] = rootsinfo
-        sum_of_squares(sid, **kwargs)
-
-
-def sum_of_squares(sid, **kwargs):
-    """
-    Perform the sum of square decomposition, and emit the result to the client.
-    Always emit the result to the client, even if the solution is None or an error occurs.
-
-    Parameters
-    ----------
-    sid : str
-        The session ID.
-    poly : str
-        The input polynomial.
-    methods : dict[str, bool]
-        The methods to use.
-    configs : dict[str, dict]
-        The configurations for each method.
-    rootsinfo : RootsInfo
-        The roots information. This is passed in internally by the `findroot` function.
-
-    Returns
-    ----------
-    latex : str
-        The LaTeX representation of the solution.
-    txt : str
-        The text representation of the solution.
-    formatted : str
-        The formatted representation of the solution.
-    success : bool
-        Whether the solution was found.
-    """
-    rootsinfo = kwargs['rootsinfo'] or RootsInfo()
-    try:
-        method_order = [key for key, value in kwargs['methods'].items() if value]
-
-        if 'LinearSOS' in method_order:
-            if 'LinearSOS' not in kwargs['configs']:
-                kwargs['configs']['LinearSOS'] = {}
-            kwargs['configs']['LinearSOS']['rootsinfo'] = rootsinfo
-
-        gens = kwargs['gens']
-        ineq_constraints = kwargs['poly'].free_symbols if SOS_Manager.CONFIG_ALLOW_NONSTANDARD_GENS else gens
-        solution = SOS_Manager.sum_of_squares(
-            kwargs['poly'],
-            ineq_constraints = list(ineq_constraints),
-            eq_constraints = [],
-            gens = gens,
-            perm = kwargs['perm'],
-            method_order = method_order,
-            configs = kwargs['configs']
-        )
-
-        assert solution is not None, 'No solution found.'
-    except Exception as e:
-        # raise e
-        return socketio.emit(
-            'sos',
-            {'latex': '', 'txt': '', 'formatted': '', 'success': False,
-                'timestamp': kwargs.get('timestamp', 0)},
-            to=sid
-        )
-
-    if isinstance(solution, SolutionSimple):
-        # # remove the aligned environment
-        # latex_ = '$$%s$$'%solution.str_latex[17:-15].replace('&','')
-        latex_ = solution.str_latex#.replace('aligned', 'align*')
-
-    return socketio.emit(
-        'sos',
-        {'latex': latex_, 'txt': solution.str_txt, 'formatted': solution.str_formatted, 'success': True,
-            'timestamp': kwargs.get('timestamp', 0)},
-        to=sid
-    )
-
-@app.route('/process/latexcoeffs', methods=['POST'])
-def get_latex_coeffs():
-    """
-    Get the LaTeX representation of the coefficient triangle.
-
-    Parameters
-    ----------
-    poly : str
-        The input polynomial.
-    gens : str
-        The generator variables.
-    perm : str
-        The permutation group.
-
-    Returns
-    ----------
-    coeffs : str
-        The LaTeX representation of the coefficients
-    """
-    req = request.get_json()
-    poly = req['poly']
-    gens = tuple(sp.Symbol(_) for _ in req.get('gens', 'abc'))
-    perm = SOS_Manager._parse_perm_group(req.get('perm'))
-    coeffs = SOS_Manager.latex_coeffs(poly, gens, perm,
-                tabular = True, document = True, zeros='\\textcolor{lightgray}')
-    return jsonify(coeffs = coeffs)
-
-
-@app.route('/')
-def index():
-    return render_template('triples.html')
-
-
-if __name__ == '__main__':
-    # For deployment, please also configure the "host" variable in triples.html!!!
-    DEPLOY = False
-
-    HOST = '127.0.0.1'
-    PORT = 5000
-    if DEPLOY:
-        HOST = '0.0.0.0'
-        SOS_Manager.verbose = False
-
-    print('=' * 50)
-    print('Running the server at http://%s:%d'%(HOST, PORT))    
-    print('=' * 50)
+# import inspect
+# import ctypes
+# import threading
+
+from flask import Flask, render_template, request, jsonify
+from flask_socketio import SocketIO, join_room, leave_room
+from flask_cors import CORS
+
+import sympy as sp
+from sympy.combinatorics import CyclicGroup
+
+from triples.utils.roots import RootTangent, RootsInfo
+from triples.utils.text_process import pl
+from triples.utils.expression.solution import SolutionSimple
+from triples.gui.sos_manager import SOS_Manager
+
+# def _async_raise(tid, exctype):
+#     '''Raises an exception in the threads with id tid'''
+#     if not inspect.isclass(exctype):
+#         raise TypeError("Only types can be raised (not instances)")
+#     res = ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_long(tid),
+#                                                      ctypes.py_object(exctype))
+#     if res == 0:
+#         raise ValueError("invalid thread id")
+#     elif res != 1:
+#         # "if it returns a number greater than one, you're in trouble,
+#         # and you should call it again with exc=NULL to revert the effect"
+#         ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_long(tid), None)
+#         raise SystemError("PyThreadState_SetAsyncExc failed")
+
+# class ThreadWithExc(threading.Thread):
+#     '''A thread class that supports raising an exception in the thread from
+#        another thread.
+#     '''
+#     def _get_my_tid(self):
+#         """determines this (self's) thread id
+
+#         CAREFUL: this function is executed in the context of the caller
+#         thread, to get the identity of the thread represented by this
+#         instance.
+#         """
+#         if not self.is_alive(): # Note: self.isAlive() on older version of Python
+#             raise threading.ThreadError("the thread is not active")
+
+#         # do we have it cached?
+#         if hasattr(self, "_thread_id"):
+#             return self._thread_id
+
+#         # no, look for it in the _active dict
+#         for tid, tobj in threading._active.items():
+#             if tobj is self:
+#                 self._thread_id = tid
+#                 return tid
+
+#         # TODO: in python 2.6, there's a simpler way to do: self.ident
+
+#         raise AssertionError("could not determine the thread's id")
+
+#     def raise_exc(self, exctype):
+#         """Raises the given exception type in the context of this thread.
+
+#         If the thread is busy in a system call (time.sleep(),
+#         socket.accept(), ...), the exception is simply ignored.
+
+#         If you are sure that your exception should terminate the thread,
+#         one way to ensure that it works is:
+
+#             t = ThreadWithExc( ... )
+#             ...
+#             t.raise_exc( SomeException )
+#             while t.isAlive():
+#                 time.sleep( 0.1 )
+#                 t.raise_exc( SomeException )
+
+#         If the exception is to be caught by the thread, you need a way to
+#         check that your thread has caught it.
+
+#         CAREFUL: this function is executed in the context of the
+#         caller thread, to raise an exception in the context of the
+#         thread represented by this instance.
+#         """
+#         _async_raise( self._get_my_tid(), exctype )
+
+class SOS_WEB(Flask):
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+
+app = SOS_WEB(__name__, template_folder = './')
+CORS(app, supports_credentials=True)
+socketio = SocketIO(app, cors_allowed_origins="*")
+
+@socketio.on('connect')
+def on_connect():
+    sid = request.sid
+    join_room(sid)
+    print('Joined Room', sid)
+
+@socketio.on('disconnect')
+def on_disconnect():
+    sid = request.sid
+    leave_room(sid)
+    print('Left Room', sid)
+
+@app.route('/process/preprocess', methods=['POST'])
+def preprocess():
+    """
+    Process the input polynomial and emit the result to the client.
+    The parameters are passed as a JSON object in the request body.
+
+    Parameters
+    ----------
+    sid : str
+        The session ID.
+    poly : str
+        The input polynomial.
+    standardize_text : str
+        The standardization of the text. If None, the text is not standardized.
+        See `SOS_Manager.set_poly` for more information.
+    actions : list[str]
+        Additional actions to perform.
+
+    Returns
+    ----------
+    n : int
+        The degree of the polynomial.
+    txt : str
+        The formatted polynomial.
+    triangle : str
+        The coefficients formatted as a triangle.
+    heatmap : list[tuple[int, int, int, int]]
+        The heatmap of the polynomial coefficients in RGBA format.
+    """
+    req = request.get_json()
+
+    gens = req.get('gens', 'abc')
+    gens = tuple(sp.Symbol(_) for _ in gens)
+    perm = SOS_Manager._parse_perm_group(req.get('perm'))
+    if perm is None:
+        perm = CyclicGroup(len(gens))
+    req['gens'] = gens
+    req['perm'] = perm
+
+    result = SOS_Manager.set_poly(
+        req['poly'],
+        gens = gens,
+        perm = perm,
+        render_triangle = True if 3 <= len(gens) <= 4 else False,
+        render_grid = True,
+        homogenize = req.get('homogenize', False),
+        dehomogenize = req.get('dehomogenize', None),
+        standardize_text = req.get('standardize_text', None),
+        omit_mul = req.get('omit_mul', True),
+        omit_pow = req.get('omit_pow', True),
+    )
+    if result is None:
+        return jsonify()
+
+    n = result['degree']
+    txt = result['txt']
+    triangle = result.get('triangle', None)
+    grid = result.get('grid', None)
+    grid_color = grid.grid_color if grid is not None else None
+ 
+    sid = req.pop('sid')
+    req.update(result)
+    socketio.start_background_task(findroot, sid, **req)
+    # thread = ThreadWithExc(target=findroot, args=(sid,), kwargs=req)
+    # thread.daemon = True
+    # thread.start()
+    # socketio.sleep(3)
+    # thread.raise_exc(SystemExit)
+
+    return jsonify(n = n, txt = txt, triangle = triangle, heatmap = grid_color)
+
+def findroot(sid, **kwargs):
+    """
+    Find the root information of the polynomial and emit the result to the client.
+
+    Parameters
+    ----------
+    sid : str
+        The session ID.
+    poly : str
+        The input polynomial.
+    grid : Grid
+        The grid of the polynomial coefficients. This is passed in
+        internally by the `preprocess` function.
+    tangents : list[str]
+        The tangents to the roots. If provided, the tangents are not recalculated.
+    actions : list[str]
+        Additional actions to perform.
+
+    Returns
+    ----------
+    rootsinfo : str
+        The string representation of the roots information.
+    tangents : list[str]
+        The tangents to the roots.    
+    """
+    if 'findroot' in kwargs['actions']:
+        poly = kwargs['poly']
+        grid = kwargs.get('grid', None)
+        rootsinfo = SOS_Manager.findroot(poly, grid, verbose=False)
+        tangents = kwargs.get('tangents')
+        if tangents is None:
+            tangents = [_.as_factor_form(remove_minus_sign=True, perm=kwargs['perm']) for _ in rootsinfo.tangents]
+            socketio.emit(
+                'rootangents',
+                {
+                    'rootsinfo': rootsinfo.gui_description,
+                    'tangents': tangents,
+                    'timestamp': kwargs.get('timestamp', 0)
+                },
+                to=sid
+            )
+        elif 'sos' in kwargs['actions']:
+            tangents = []
+            for tg in kwargs['tangents'].split('\n'):
+                if len(tg) > 0:
+                    try:
+                        tg = pl(tg, gens=kwargs['gens'], perm=kwargs['perm'])
+                        if tg is not None:
+                            # and (tg.domain in (sp.ZZ, sp.QQ)):
+                            tg = tg.as_expr()
+                            # tangents.append(RootTangent(tg))
+                            if 'configs' not in kwargs:
+                                kwargs['configs'] = {'LinearSOS': {'tangents': []}}
+                            elif 'LinearSOS' not in kwargs['configs']:
+                                kwargs['configs']['LinearSOS'] = {'tangents': []}
+                            elif 'tangents' not in kwargs['configs']['LinearSOS']:
+                                kwargs['configs']['LinearSOS']['tangents'] = []
+                            kwargs['configs']['LinearSOS']['tangents'].append(tg**2)
+                    except:
+                        pass
+            rootsinfo.tangents = tangents
+    if 'sos' in kwargs['actions']:
+        kwargs['rootsinfo'] = rootsinfo
+        sum_of_squares(sid, **kwargs)
+
+
+def sum_of_squares(sid, **kwargs):
+    """
+    Perform the sum of square decomposition, and emit the result to the client.
+    Always emit the result to the client, even if the solution is None or an error occurs.
+
+    Parameters
+    ----------
+    sid : str
+        The session ID.
+    poly : str
+        The input polynomial.
+    methods : dict[str, bool]
+        The methods to use.
+    configs : dict[str, dict]
+        The configurations for each method.
+    rootsinfo : RootsInfo
+        The roots information. This is passed in internally by the `findroot` function.
+
+    Returns
+    ----------
+    latex : str
+        The LaTeX representation of the solution.
+    txt : str
+        The text representation of the solution.
+    formatted : str
+        The formatted representation of the solution.
+    success : bool
+        Whether the solution was found.
+    """
+    rootsinfo = kwargs['rootsinfo'] or RootsInfo()
+    try:
+        method_order = [key for key, value in kwargs['methods'].items() if value]
+
+        if 'LinearSOS' in method_order:
+            if 'LinearSOS' not in kwargs['configs']:
+                kwargs['configs']['LinearSOS'] = {}
+            kwargs['configs']['LinearSOS']['rootsinfo'] = rootsinfo
+
+        gens = kwargs['gens']
+        ineq_constraints = kwargs['poly'].free_symbols if SOS_Manager.CONFIG_ALLOW_NONSTANDARD_GENS else gens
+        solution = SOS_Manager.sum_of_squares(
+            kwargs['poly'],
+            ineq_constraints = list(ineq_constraints),
+            eq_constraints = [],
+            gens = gens,
+            perm = kwargs['perm'],
+            method_order = method_order,
+            configs = kwargs['configs']
+        )
+
+        assert solution is not None, 'No solution found.'
+    except Exception as e:
+        # raise e
+        return socketio.emit(
+            'sos',
+            {'latex': '', 'txt': '', 'formatted': '', 'success': False,
+                'timestamp': kwargs.get('timestamp', 0)},
+            to=sid
+        )
+
+    if isinstance(solution, SolutionSimple):
+        # # remove the aligned environment
+        # latex_ = '$$%s$$'%solution.str_latex[17:-15].replace('&','')
+        latex_ = solution.str_latex#.replace('aligned', 'align*')
+
+    return socketio.emit(
+        'sos',
+        {'latex': latex_, 'txt': solution.str_txt, 'formatted': solution.str_formatted, 'success': True,
+            'timestamp': kwargs.get('timestamp', 0)},
+        to=sid
+    )
+
+@app.route('/process/latexcoeffs', methods=['POST'])
+def get_latex_coeffs():
+    """
+    Get the LaTeX representation of the coefficient triangle.
+
+    Parameters
+    ----------
+    poly : str
+        The input polynomial.
+    gens : str
+        The generator variables.
+    perm : str
+        The permutation group.
+
+    Returns
+    ----------
+    coeffs : str
+        The LaTeX representation of the coefficients
+    """
+    req = request.get_json()
+    poly = req['poly']
+    gens = tuple(sp.Symbol(_) for _ in req.get('gens', 'abc'))
+    perm = SOS_Manager._parse_perm_group(req.get('perm'))
+    coeffs = SOS_Manager.latex_coeffs(poly, gens, perm,
+                tabular = True, document = True, zeros='\\textcolor{lightgray}')
+    return jsonify(coeffs = coeffs)
+
+
+@app.route('/')
+def index():
+    return render_template('triples.html')
+
+
+if __name__ == '__main__':
+    # For deployment, please also configure the "host" variable in triples.html!!!
+    DEPLOY = False
+
+    HOST = '127.0.0.1'
+    PORT = 5000
+    if DEPLOY:
+        HOST = '0.0.0.0'
+        SOS_Manager.verbose = False
+
+    print('=' * 50)
+    print('Running the server at http://%s:%d'%(HOST, PORT))    
+    print('=' * 50)
     socketio.run(app, host=HOST, port=PORT, debug=False)
\ No newline at end of file
-- 
2.43.0


From b4aa9cd0a895adcd23f86b83c57de43e7e24a236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:11 +0000
Subject: [PATCH 080/102] fix: requests of the action 'sos' alone were never
 answered

The background task failed, as it passed on roots that were not searched.

Property: C26
---
 web_main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/web_main.py b/web_main.py
index 1285edf..fc64c4d 100644
--- a/web_main.py
+++ b/web_main.py
@@ -197,6 +197,7 @@ def findroot(sid, **kwargs):
     tangents : list[str]
         The tangents to the roots.    
     """
+    rootsinfo = None
     if 'findroot' in kwargs['actions']:
         poly = kwargs['poly']
         grid = kwargs.get('grid', None)
-- 
2.43.0


From 5c41c75787e5b072c52a9e1a5b9b9c0e15e88a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:10 +0000
Subject: [PATCH 081/102] fix: text of a fraction was kept when its denominator
 is a parameter

The polynomial is the numerator, so that 'a^2/x' was shown with the table
of a^2 and solved as such.

Property: C26
---
 triples/gui/sos_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index 0575012..1d1fb1c 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -143,7 +143,7 @@ class SOS_Manager():
                 elif standardize_text == 'expand':
                     triv_group = PermutationGroup([Permutation(list(range(len(poly.gens))))])
                     txt2 = poly_get_standard_form(poly, triv_group, omit_mul=omit_mul, omit_pow=omit_pow)
-            elif not denom.total_degree() == 0:
+            elif not denom.is_one:
                 txt2 = poly_get_standard_form(poly, perm)
             if isinstance(txt2, str):
                 txt = txt2
-- 
2.43.0


From 19154919e50b836b9d35d2407a52359637805864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:55 +0000
Subject: [PATCH 082/102] fix: texts that divide by zero were accepted as
 fractions

E.g. 'a/(b-b)' was presented as a polynomial with the coefficient zoo.

Property: C26
---
 triples/utils/text_process.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index 5fd1295..cb74347 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -2,7 +2,7 @@ from typing import Union, List, Tuple, Optional
 from functools import partial
 import re
 
-from sympy import Expr, Poly, Rational, Float, Symbol, sympify, fraction, cancel, latex
+from sympy import Expr, Poly, Rational, Float, S, Symbol, sympify, fraction, cancel, latex
 from sympy import symbols as sp_symbols
 from sympy.combinatorics import Permutation, PermutationGroup, CyclicGroup
 
@@ -267,6 +267,9 @@ def preprocess_text(
     elif return_type == 'frac':
         try:
             frac = fraction(cancel(poly))
+            if any(x.has(S.ComplexInfinity, S.Infinity, S.NegativeInfinity, S.NaN) for x in frac):
+                # division by zero
+                return None, None
 
             poly0 = Poly(frac[0], gens, extension = True)
             poly1 = Poly(frac[1], gens, extension = True)
-- 
2.43.0


From 59c67ed71b23bb6a1d4d548d96a063bfa906715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:57 +0000
Subject: [PATCH 083/102] fix: degree inferred of 0*x in one variable was minus
 infinity

Property: C26
Failed: degree_of_zero('0*q', gens=(q,)) returned -inf, so SOS_Manager.set_poly answered with degree -inf
---
 triples/utils/text_process.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/triples/utils/text_process.py b/triples/utils/text_process.py
index cb74347..14d0573 100644
--- a/triples/utils/text_process.py
+++ b/triples/utils/text_process.py
@@ -390,7 +390,10 @@ def degree_of_zero(
     try:
     #     degree = deg(Poly(poly))
         poly = fraction(sympify(poly))
-        if poly[1].is_constant():
+        if poly[0].is_zero:
+            # e.g. 0*a^2, of which the degree is not known
+            degree = 0
+        elif poly[1].is_constant():
             degree = deg(Poly(poly[0], gens))
         else:
             degree = deg(Poly(poly[0], gens)) - deg(Poly(poly[1], gens))
-- 
2.43.0


From cbd280efaf0187274f92d950cdb8d99dca7fc59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:52 +0000
Subject: [PATCH 084/102] fix: a vanishing fraction was answered with a
 negative degree and no table

SOS_Manager.set_poly('1/a-1/a') had the degree -1 and an empty triangle.

Property: C26
---
 triples/gui/sos_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/triples/gui/sos_manager.py b/triples/gui/sos_manager.py
index 1d1fb1c..c1e904f 100644
--- a/triples/gui/sos_manager.py
+++ b/triples/gui/sos_manager.py
@@ -101,7 +101,8 @@ class SOS_Manager():
             poly, denom = preprocess_text(txt, gens=gens, perm=perm, return_type='frac')
 
             if poly.is_zero:
-                n = degree_of_zero(txt, gens=gens, perm=perm)
+                # the inferred degree is negative if the text is a fraction, e.g. 1/a - 1/a
+                n = max(degree_of_zero(txt, gens=gens, perm=perm), 0)
             else:
                 n = poly.total_degree()
         except Exception as e:
-- 
2.43.0


From 3b28af1b02a74a1d2c074aa6c4619cfd3cc60b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:36 +0000
Subject: [PATCH 085/102] fix: print stayed indented after an error inside
 indented_print

The context manager did not restore builtins.print when its body raised.

Property: C27
---
 triples/sdp/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/utils.py b/triples/sdp/utils.py
index b940efa..e2f9604 100644
--- a/triples/sdp/utils.py
+++ b/triples/sdp/utils.py
@@ -555,5 +555,7 @@ def indented_print(indent = 4, indent_fill = ' ', verbose = True):
         old_print(*args, **kwargs)
 
     builtins.print = new_print
-    yield
-    builtins.print = old_print
\ No newline at end of file
+    try:
+        yield
+    finally:
+        builtins.print = old_print
\ No newline at end of file
-- 
2.43.0


From 6a0f285a5dcf6e50b524ff525d2c555298414319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:18 +0000
Subject: [PATCH 086/102] fix: keep the CRLF line endings of web_main.py

The two repairs of web_main.py had rewritten its line endings; only those are restored here.
Property: C26
---
 web_main.py | 720 ++++++++++++++++++++++++++--------------------------
 1 file changed, 360 insertions(+), 360 deletions(-)

diff --git a/web_main.py b/web_main.py
index fc64c4d..512dda0 100644
--- a/web_main.py
+++ b/web_main.py
@@ -1,360 +1,360 @@
-# import inspect
-# import ctypes
-# import threading
-
-from flask import Flask, render_template, request, jsonify
-from flask_socketio import SocketIO, join_room, leave_room
-from flask_cors import CORS
-
-import sympy as sp
-from sympy.combinatorics import CyclicGroup
-
-from triples.utils.roots import RootTangent, RootsInfo
-from triples.utils.text_process import pl
-from triples.utils.expression.solution import SolutionSimple
-from triples.gui.sos_manager import SOS_Manager
-
-# def _async_raise(tid, exctype):
-#     '''Raises an exception in the threads with id tid'''
-#     if not inspect.isclass(exctype):
-#         raise TypeError("Only types can be raised (not instances)")
-#     res = ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_long(tid),
-#                                                      ctypes.py_object(exctype))
-#     if res == 0:
-#         raise ValueError("invalid thread id")
-#     elif res != 1:
-#         # "if it returns a number greater than one, you're in trouble,
-#         # and you should call it again with exc=NULL to revert the effect"
-#         ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_long(tid), None)
-#         raise SystemError("PyThreadState_SetAsyncExc failed")
-
-# class ThreadWithExc(threading.Thread):
-#     '''A thread class that supports raising an exception in the thread from
-#        another thread.
-#     '''
-#     def _get_my_tid(self):
-#         """determines this (self's) thread id
-
-#         CAREFUL: this function is executed in the context of the caller
-#         thread, to get the identity of the thread represented by this
-#         instance.
-#         """
-#         if not self.is_alive(): # Note: self.isAlive() on older version of Python
-#             raise threading.ThreadError("the thread is not active")
-
-#         # do we have it cached?
-#         if hasattr(self, "_thread_id"):
-#             return self._thread_id
-
-#         # no, look for it in the _active dict
-#         for tid, tobj in threading._active.items():
-#             if tobj is self:
-#                 self._thread_id = tid
-#                 return tid
-
-#         # TODO: in python 2.6, there's a simpler way to do: self.ident
-
-#         raise AssertionError("could not determine the thread's id")
-
-#     def raise_exc(self, exctype):
-#         """Raises the given exception type in the context of this thread.
-
-#         If the thread is busy in a system call (time.sleep(),
-#         socket.accept(), ...), the exception is simply ignored.
-
-#         If you are sure that your exception should terminate the thread,
-#         one way to ensure that it works is:
-
-#             t = ThreadWithExc( ... )
-#             ...
-#             t.raise_exc( SomeException )
-#             while t.isAlive():
-#                 time.sleep( 0.1 )
-#                 t.raise_exc( SomeException )
-
-#         If the exception is to be caught by the thread, you need a way to
-#         check that your thread has caught it.
-
-#         CAREFUL: this function is executed in the context of the
-#         caller thread, to raise an exception in the context of the
-#         thread represented by this instance.
-#         """
-#         _async_raise( self._get_my_tid(), exctype )
-
-class SOS_WEB(Flask):
-    def __init__(self, *args, **kwargs):
-        super().__init__(*args, **kwargs)
-
-app = SOS_WEB(__name__, template_folder = './')
-CORS(app, supports_credentials=True)
-socketio = SocketIO(app, cors_allowed_origins="*")
-
-@socketio.on('connect')
-def on_connect():
-    sid = request.sid
-    join_room(sid)
-    print('Joined Room', sid)
-
-@socketio.on('disconnect')
-def on_disconnect():
-    sid = request.sid
-    leave_room(sid)
-    print('Left Room', sid)
-
-@app.route('/process/preprocess', methods=['POST'])
-def preprocess():
-    """
-    Process the input polynomial and emit the result to the client.
-    The parameters are passed as a JSON object in the request body.
-
-    Parameters
-    ----------
-    sid : str
-        The session ID.
-    poly : str
-        The input polynomial.
-    standardize_text : str
-        The standardization of the text. If None, the text is not standardized.
-        See `SOS_Manager.set_poly` for more information.
-    actions : list[str]
-        Additional actions to perform.
-
-    Returns
-    ----------
-    n : int
-        The degree of the polynomial.
-    txt : str
-        The formatted polynomial.
-    triangle : str
-        The coefficients formatted as a triangle.
-    heatmap : list[tuple[int, int, int, int]]
-        The heatmap of the polynomial coefficients in RGBA format.
-    """
-    req = request.get_json()
-
-    gens = req.get('gens', 'abc')
-    gens = tuple(sp.Symbol(_) for _ in gens)
-    perm = SOS_Manager._parse_perm_group(req.get('perm'))
-    if perm is None:
-        perm = CyclicGroup(len(gens))
-    req['gens'] = gens
-    req['perm'] = perm
-
-    result = SOS_Manager.set_poly(
-        req['poly'],
-        gens = gens,
-        perm = perm,
-        render_triangle = True if 3 <= len(gens) <= 4 else False,
-        render_grid = True,
-        homogenize = req.get('homogenize', False),
-        dehomogenize = req.get('dehomogenize', None),
-        standardize_text = req.get('standardize_text', None),
-        omit_mul = req.get('omit_mul', True),
-        omit_pow = req.get('omit_pow', True),
-    )
-    if result is None:
-        return jsonify()
-
-    n = result['degree']
-    txt = result['txt']
-    triangle = result.get('triangle', None)
-    grid = result.get('grid', None)
-    grid_color = grid.grid_color if grid is not None else None
- 
-    sid = req.pop('sid')
-    req.update(result)
-    socketio.start_background_task(findroot, sid, **req)
-    # thread = ThreadWithExc(target=findroot, args=(sid,), kwargs=req)
-    # thread.daemon = True
-    # thread.start()
-    # socketio.sleep(3)
-    # thread.raise_exc(SystemExit)
-
-    return jsonify(n = n, txt = txt, triangle = triangle, heatmap = grid_color)
-
-def findroot(sid, **kwargs):
-    """
-    Find the root information of the polynomial and emit the result to the client.
-
-    Parameters
-    ----------
-    sid : str
-        The session ID.
-    poly : str
-        The input polynomial.
-    grid : Grid
-        The grid of the polynomial coefficients. This is passed in
-        internally by the `preprocess` function.
-    tangents : list[str]
-        The tangents to the roots. If provided, the tangents are not recalculated.
-    actions : list[str]
-        Additional actions to perform.
-
-    Returns
-    ----------
-    rootsinfo : str
-        The string representation of the roots information.
-    tangents : list[str]
-        The tangents to the roots.    
-    """
-    rootsinfo = None
-    if 'findroot' in kwargs['actions']:
-        poly = kwargs['poly']
-        grid = kwargs.get('grid', None)
-        rootsinfo = SOS_Manager.findroot(poly, grid, verbose=False)
-        tangents = kwargs.get('tangents')
-        if tangents is None:
-            tangents = [_.as_factor_form(remove_minus_sign=True, perm=kwargs['perm']) for _ in rootsinfo.tangents]
-            socketio.emit(
-                'rootangents',
-                {
-                    'rootsinfo': rootsinfo.gui_description,
-                    'tangents': tangents,
-                    'timestamp': kwargs.get('timestamp', 0)
-                },
-                to=sid
-            )
-        elif 'sos' in kwargs['actions']:
-            tangents = []
-            for tg in kwargs['tangents'].split('\n'):
-                if len(tg) > 0:
-                    try:
-                        tg = pl(tg, gens=kwargs['gens'], perm=kwargs['perm'])
-                        if tg is not None:
-                            # and (tg.domain in (sp.ZZ, sp.QQ)):
-                            tg = tg.as_expr()
-                            # tangents.append(RootTangent(tg))
-                            if 'configs' not in kwargs:
-                                kwargs['configs'] = {'LinearSOS': {'tangents': []}}
-                            elif 'LinearSOS' not in kwargs['configs']:
-                                kwargs['configs']['LinearSOS'] = {'tangents': []}
-                            elif 'tangents' not in kwargs['configs']['LinearSOS']:
-                                kwargs['configs']['LinearSOS']['tangents'] = []
-                            kwargs['configs']['LinearSOS']['tangents'].append(tg**2)
-                    except:
-                        pass
-            rootsinfo.tangents = tangents
-    if 'sos' in kwargs['actions']:
-        kwargs['rootsinfo'] = rootsinfo
-        sum_of_squares(sid, **kwargs)
-
-
-def sum_of_squares(sid, **kwargs):
-    """
-    Perform the sum of square decomposition, and emit the result to the client.
-    Always emit the result to the client, even if the solution is None or an error occurs.
-
-    Parameters
-    ----------
-    sid : str
-        The session ID.
-    poly : str
-        The input polynomial.
-    methods : dict[str, bool]
-        The methods to use.
-    configs : dict[str, dict]
-        The configurations for each method.
-    rootsinfo : RootsInfo
-        The roots information. This is passed in internally by the `findroot` function.
-
-    Returns
-    ----------
-    latex : str
-        The LaTeX representation of the solution.
-    txt : str
-        The text representation of the solution.
-    formatted : str
-        The formatted representation of the solution.
-    success : bool
-        Whether the solution was found.
-    """
-    rootsinfo = kwargs['rootsinfo'] or RootsInfo()
-    try:
-        method_order = [key for key, value in kwargs['methods'].items() if value]
-
-        if 'LinearSOS' in method_order:
-            if 'LinearSOS' not in kwargs['configs']:
-                kwargs['configs']['LinearSOS'] = {}
-            kwargs['configs']['LinearSOS']['rootsinfo'] = rootsinfo
-
-        gens = kwargs['gens']
-        ineq_constraints = kwargs['poly'].free_symbols if SOS_Manager.CONFIG_ALLOW_NONSTANDARD_GENS else gens
-        solution = SOS_Manager.sum_of_squares(
-            kwargs['poly'],
-            ineq_constraints = list(ineq_constraints),
-            eq_constraints = [],
-            gens = gens,
-            perm = kwargs['perm'],
-            method_order = method_order,
-            configs = kwargs['configs']
-        )
-
-        assert solution is not None, 'No solution found.'
-    except Exception as e:
-        # raise e
-        return socketio.emit(
-            'sos',
-            {'latex': '', 'txt': '', 'formatted': '', 'success': False,
-                'timestamp': kwargs.get('timestamp', 0)},
-            to=sid
-        )
-
-    if isinstance(solution, SolutionSimple):
-        # # remove the aligned environment
-        # latex_ = '$$%s$$'%solution.str_latex[17:-15].replace('&','')
-        latex_ = solution.str_latex#.replace('aligned', 'align*')
-
-    return socketio.emit(
-        'sos',
-        {'latex': latex_, 'txt': solution.str_txt, 'formatted': solution.str_formatted, 'success': True,
-            'timestamp': kwargs.get('timestamp', 0)},
-        to=sid
-    )
-
-@app.route('/process/latexcoeffs', methods=['POST'])
-def get_latex_coeffs():
-    """
-    Get the LaTeX representation of the coefficient triangle.
-
-    Parameters
-    ----------
-    poly : str
-        The input polynomial.
-    gens : str
-        The generator variables.
-    perm : str
-        The permutation group.
-
-    Returns
-    ----------
-    coeffs : str
-        The LaTeX representation of the coefficients
-    """
-    req = request.get_json()
-    poly = req['poly']
-    gens = tuple(sp.Symbol(_) for _ in req.get('gens', 'abc'))
-    perm = SOS_Manager._parse_perm_group(req.get('perm'))
-    coeffs = SOS_Manager.latex_coeffs(poly, gens, perm,
-                tabular = True, document = True, zeros='\\textcolor{lightgray}')
-    return jsonify(coeffs = coeffs)
-
-
-@app.route('/')
-def index():
-    return render_template('triples.html')
-
-
-if __name__ == '__main__':
-    # For deployment, please also configure the "host" variable in triples.html!!!
-    DEPLOY = False
-
-    HOST = '127.0.0.1'
-    PORT = 5000
-    if DEPLOY:
-        HOST = '0.0.0.0'
-        SOS_Manager.verbose = False
-
-    print('=' * 50)
-    print('Running the server at http://%s:%d'%(HOST, PORT))    
-    print('=' * 50)
-    socketio.run(app, host=HOST, port=PORT, debug=False)
\ No newline at end of file
+# import inspect
+# import ctypes
+# import threading
+
+from flask import Flask, render_template, request, jsonify
+from flask_socketio import SocketIO, join_room, leave_room
+from flask_cors import CORS
+
+import sympy as sp
+from sympy.combinatorics import CyclicGroup
+
+from triples.utils.roots import RootTangent, RootsInfo
+from triples.utils.text_process import pl
+from triples.utils.expression.solution import SolutionSimple
+from triples.gui.sos_manager import SOS_Manager
+
+# def _async_raise(tid, exctype):
+#     '''Raises an exception in the threads with id tid'''
+#     if not inspect.isclass(exctype):
+#         raise TypeError("Only types can be raised (not instances)")
+#     res = ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_long(tid),
+#                                                      ctypes.py_object(exctype))
+#     if res == 0:
+#         raise ValueError("invalid thread id")
+#     elif res != 1:
+#         # "if it returns a number greater than one, you're in trouble,
+#         # and you should call it again with exc=NULL to revert the effect"
+#         ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_long(tid), None)
+#         raise SystemError("PyThreadState_SetAsyncExc failed")
+
+# class ThreadWithExc(threading.Thread):
+#     '''A thread class that supports raising an exception in the thread from
+#        another thread.
+#     '''
+#     def _get_my_tid(self):
+#         """determines this (self's) thread id
+
+#         CAREFUL: this function is executed in the context of the caller
+#         thread, to get the identity of the thread represented by this
+#         instance.
+#         """
+#         if not self.is_alive(): # Note: self.isAlive() on older version of Python
+#             raise threading.ThreadError("the thread is not active")
+
+#         # do we have it cached?
+#         if hasattr(self, "_thread_id"):
+#             return self._thread_id
+
+#         # no, look for it in the _active dict
+#         for tid, tobj in threading._active.items():
+#             if tobj is self:
+#                 self._thread_id = tid
+#                 return tid
+
+#         # TODO: in python 2.6, there's a simpler way to do: self.ident
+
+#         raise AssertionError("could not determine the thread's id")
+
+#     def raise_exc(self, exctype):
+#         """Raises the given exception type in the context of this thread.
+
+#         If the thread is busy in a system call (time.sleep(),
+#         socket.accept(), ...), the exception is simply ignored.
+
+#         If you are sure that your exception should terminate the thread,
+#         one way to ensure that it works is:
+
+#             t = ThreadWithExc( ... )
+#             ...
+#             t.raise_exc( SomeException )
+#             while t.isAlive():
+#                 time.sleep( 0.1 )
+#                 t.raise_exc( SomeException )
+
+#         If the exception is to be caught by the thread, you need a way to
+#         check that your thread has caught it.
+
+#         CAREFUL: this function is executed in the context of the
+#         caller thread, to raise an exception in the context of the
+#         thread represented by this instance.
+#         """
+#         _async_raise( self._get_my_tid(), exctype )
+
+class SOS_WEB(Flask):
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+
+app = SOS_WEB(__name__, template_folder = './')
+CORS(app, supports_credentials=True)
+socketio = SocketIO(app, cors_allowed_origins="*")
+
+@socketio.on('connect')
+def on_connect():
+    sid = request.sid
+    join_room(sid)
+    print('Joined Room', sid)
+
+@socketio.on('disconnect')
+def on_disconnect():
+    sid = request.sid
+    leave_room(sid)
+    print('Left Room', sid)
+
+@app.route('/process/preprocess', methods=['POST'])
+def preprocess():
+    """
+    Process the input polynomial and emit the result to the client.
+    The parameters are passed as a JSON object in the request body.
+
+    Parameters
+    ----------
+    sid : str
+        The session ID.
+    poly : str
+        The input polynomial.
+    standardize_text : str
+        The standardization of the text. If None, the text is not standardized.
+        See `SOS_Manager.set_poly` for more information.
+    actions : list[str]
+        Additional actions to perform.
+
+    Returns
+    ----------
+    n : int
+        The degree of the polynomial.
+    txt : str
+        The formatted polynomial.
+    triangle : str
+        The coefficients formatted as a triangle.
+    heatmap : list[tuple[int, int, int, int]]
+        The heatmap of the polynomial coefficients in RGBA format.
+    """
+    req = request.get_json()
+
+    gens = req.get('gens', 'abc')
+    gens = tuple(sp.Symbol(_) for _ in gens)
+    perm = SOS_Manager._parse_perm_group(req.get('perm'))
+    if perm is None:
+        perm = CyclicGroup(len(gens))
+    req['gens'] = gens
+    req['perm'] = perm
+
+    result = SOS_Manager.set_poly(
+        req['poly'],
+        gens = gens,
+        perm = perm,
+        render_triangle = True if 3 <= len(gens) <= 4 else False,
+        render_grid = True,
+        homogenize = req.get('homogenize', False),
+        dehomogenize = req.get('dehomogenize', None),
+        standardize_text = req.get('standardize_text', None),
+        omit_mul = req.get('omit_mul', True),
+        omit_pow = req.get('omit_pow', True),
+    )
+    if result is None:
+        return jsonify()
+
+    n = result['degree']
+    txt = result['txt']
+    triangle = result.get('triangle', None)
+    grid = result.get('grid', None)
+    grid_color = grid.grid_color if grid is not None else None
+ 
+    sid = req.pop('sid')
+    req.update(result)
+    socketio.start_background_task(findroot, sid, **req)
+    # thread = ThreadWithExc(target=findroot, args=(sid,), kwargs=req)
+    # thread.daemon = True
+    # thread.start()
+    # socketio.sleep(3)
+    # thread.raise_exc(SystemExit)
+
+    return jsonify(n = n, txt = txt, triangle = triangle, heatmap = grid_color)
+
+def findroot(sid, **kwargs):
+    """
+    Find the root information of the polynomial and emit the result to the client.
+
+    Parameters
+    ----------
+    sid : str
+        The session ID.
+    poly : str
+        The input polynomial.
+    grid : Grid
+        The grid of the polynomial coefficients. This is passed in
+        internally by the `preprocess` function.
+    tangents : list[str]
+        The tangents to the roots. If provided, the tangents are not recalculated.
+    actions : list[str]
+        Additional actions to perform.
+
+    Returns
+    ----------
+    rootsinfo : str
+        The string representation of the roots information.
+    tangents : list[str]
+        The tangents to the roots.    
+    """
+    rootsinfo = None
+    if 'findroot' in kwargs['actions']:
+        poly = kwargs['poly']
+        grid = kwargs.get('grid', None)
+        rootsinfo = SOS_Manager.findroot(poly, grid, verbose=False)
+        tangents = kwargs.get('tangents')
+        if tangents is None:
+            tangents = [_.as_factor_form(remove_minus_sign=True, perm=kwargs['perm']) for _ in rootsinfo.tangents]
+            socketio.emit(
+                'rootangents',
+                {
+                    'rootsinfo': rootsinfo.gui_description,
+                    'tangents': tangents,
+                    'timestamp': kwargs.get('timestamp', 0)
+                },
+                to=sid
+            )
+        elif 'sos' in kwargs['actions']:
+            tangents = []
+            for tg in kwargs['tangents'].split('\n'):
+                if len(tg) > 0:
+                    try:
+                        tg = pl(tg, gens=kwargs['gens'], perm=kwargs['perm'])
+                        if tg is not None:
+                            # and (tg.domain in (sp.ZZ, sp.QQ)):
+                            tg = tg.as_expr()
+                            # tangents.append(RootTangent(tg))
+                            if 'configs' not in kwargs:
+                                kwargs['configs'] = {'LinearSOS': {'tangents': []}}
+                            elif 'LinearSOS' not in kwargs['configs']:
+                                kwargs['configs']['LinearSOS'] = {'tangents': []}
+                            elif 'tangents' not in kwargs['configs']['LinearSOS']:
+                                kwargs['configs']['LinearSOS']['tangents'] = []
+                            kwargs['configs']['LinearSOS']['tangents'].append(tg**2)
+                    except:
+                        pass
+            rootsinfo.tangents = tangents
+    if 'sos' in kwargs['actions']:
+        kwargs['rootsinfo'] = rootsinfo
+        sum_of_squares(sid, **kwargs)
+
+
+def sum_of_squares(sid, **kwargs):
+    """
+    Perform the sum of square decomposition, and emit the result to the client.
+    Always emit the result to the client, even if the solution is None or an error occurs.
+
+    Parameters
+    ----------
+    sid : str
+        The session ID.
+    poly : str
+        The input polynomial.
+    methods : dict[str, bool]
+        The methods to use.
+    configs : dict[str, dict]
+        The configurations for each method.
+    rootsinfo : RootsInfo
+        The roots information. This is passed in internally by the `findroot` function.
+
+    Returns
+    ----------
+    latex : str
+        The LaTeX representation of the solution.
+    txt : str
+        The text representation of the solution.
+    formatted : str
+        The formatted representation of the solution.
+    success : bool
+        Whether the solution was found.
+    """
+    rootsinfo = kwargs['rootsinfo'] or RootsInfo()
+    try:
+        method_order = [key for key, value in kwargs['methods'].items() if value]
+
+        if 'LinearSOS' in method_order:
+            if 'LinearSOS' not in kwargs['configs']:
+                kwargs['configs']['LinearSOS'] = {}
+            kwargs['configs']['LinearSOS']['rootsinfo'] = rootsinfo
+
+        gens = kwargs['gens']
+        ineq_constraints = kwargs['poly'].free_symbols if SOS_Manager.CONFIG_ALLOW_NONSTANDARD_GENS else gens
+        solution = SOS_Manager.sum_of_squares(
+            kwargs['poly'],
+            ineq_constraints = list(ineq_constraints),
+            eq_constraints = [],
+            gens = gens,
+            perm = kwargs['perm'],
+            method_order = method_order,
+            configs = kwargs['configs']
+        )
+
+        assert solution is not None, 'No solution found.'
+    except Exception as e:
+        # raise e
+        return socketio.emit(
+            'sos',
+            {'latex': '', 'txt': '', 'formatted': '', 'success': False,
+                'timestamp': kwargs.get('timestamp', 0)},
+            to=sid
+        )
+
+    if isinstance(solution, SolutionSimple):
+        # # remove the aligned environment
+        # latex_ = '$$%s$$'%solution.str_latex[17:-15].replace('&','')
+        latex_ = solution.str_latex#.replace('aligned', 'align*')
+
+    return socketio.emit(
+        'sos',
+        {'latex': latex_, 'txt': solution.str_txt, 'formatted': solution.str_formatted, 'success': True,
+            'timestamp': kwargs.get('timestamp', 0)},
+        to=sid
+    )
+
+@app.route('/process/latexcoeffs', methods=['POST'])
+def get_latex_coeffs():
+    """
+    Get the LaTeX representation of the coefficient triangle.
+
+    Parameters
+    ----------
+    poly : str
+        The input polynomial.
+    gens : str
+        The generator variables.
+    perm : str
+        The permutation group.
+
+    Returns
+    ----------
+    coeffs : str
+        The LaTeX representation of the coefficients
+    """
+    req = request.get_json()
+    poly = req['poly']
+    gens = tuple(sp.Symbol(_) for _ in req.get('gens', 'abc'))
+    perm = SOS_Manager._parse_perm_group(req.get('perm'))
+    coeffs = SOS_Manager.latex_coeffs(poly, gens, perm,
+                tabular = True, document = True, zeros='\\textcolor{lightgray}')
+    return jsonify(coeffs = coeffs)
+
+
+@app.route('/')
+def index():
+    return render_template('triples.html')
+
+
+if __name__ == '__main__':
+    # For deployment, please also configure the "host" variable in triples.html!!!
+    DEPLOY = False
+
+    HOST = '127.0.0.1'
+    PORT = 5000
+    if DEPLOY:
+        HOST = '0.0.0.0'
+        SOS_Manager.verbose = False
+
+    print('=' * 50)
+    print('Running the server at http://%s:%d'%(HOST, PORT))    
+    print('=' * 50)
+    socketio.run(app, host=HOST, port=PORT, debug=False)
\ No newline at end of file
-- 
2.43.0


From 6a3ba14ff1e4b88a0d38d522d975ffbde3da89e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:30 +0000
Subject: [PATCH 087/102] fix: exponents of two digits printed as a superscript
 and a digit in str_txt

str_txt replaced every ^2 ... ^9 textually, so that a^23 was printed as a raised 2
followed by a 3.

Property: C10
---
 triples/utils/expression/solution.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/triples/utils/expression/solution.py b/triples/utils/expression/solution.py
index 8113b1a..6ee0fde 100644
--- a/triples/utils/expression/solution.py
+++ b/triples/utils/expression/solution.py
@@ -51,6 +51,13 @@ def _omit_mul(s: str, sep: str = '') -> str:
     return re.sub(r'\*(?!\d)', sep, s)
 
 
+def _raise_digits(s: str) -> str:
+    """
+    Convert exponents with a single digit to superscripts, e.g. a^2 -> a², while a^23 is left unchanged.
+    """
+    return re.sub(r'\^([2-9])(?!\d)', lambda m: '²³⁴⁵⁶⁷⁸⁹'[int(m.group(1)) - 2], s)
+
+
 def _multiline_equation_latex(
         s: List = [], 
         head: str = '',
@@ -168,12 +175,7 @@ class Solution():
         # s = _solution_latex_to_txt(self.str_latex)
         s = _print_str(self.solution)
         equal_sign = '=' if self.is_equal else '≈'
-        replacements = dict([
-            ('**', '^'),
-            *map(lambda x: ('^%d'%(x[0]+2), x[1]), enumerate('²³⁴⁵⁶⁷⁸⁹'))
-        ])
-        for old, new in replacements.items():
-            s = s.replace(old, new)
+        s = _raise_digits(s.replace('**', '^'))
         s = _omit_mul(s, ' ')
         s = '%s %s %s'%(self._str_f(), equal_sign, s)
         return s
@@ -461,13 +463,7 @@ class SolutionSimple(Solution):
         s = '+'.join(s_args)
         s = '%s%s%s'%(s_multiplier, equal_sign, s)
 
-        replacements = dict([
-            (' ',''),
-            ('**', '^'),
-            *map(lambda x: ('^%d'%(x[0]+2), x[1]), enumerate('²³⁴⁵⁶⁷⁸⁹'))
-        ])
-        for old, new in replacements.items():
-            s = s.replace(old, new)
+        s = _raise_digits(s.replace(' ', '').replace('**', '^'))
         return _omit_mul(s)
 
     @property
-- 
2.43.0


From cfbbd84a61d6b235994dc7f0bba360449af5978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:09 +0000
Subject: [PATCH 088/102] fix: a univariate polynomial over EX divisible by its
 symbol ended in an IndexError

Property: C01
Factors over algebraic fields and EX are not irreducible. A factor vanishing at zero with another
negative root gave a matrix too small for the polynomial; powers of the symbol are now split off first.
---
 triples/core/structsos/pivoting/univariate.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index 22ca30f..cc832a9 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -646,7 +646,19 @@ def prove_univariate(
     if lc < 0:
         return None
     mul = [(sp.S(1), [lc], [sp.S(1).as_poly(poly.gen)])]
+
+    # factors which are not irreducible (algebraic fields and EX) may still be divisible by the symbol
+    irreducibles = []
     for factor, multiplicity in factors:
+        (power,), factor = factor.terms_gcd()
+        if power > 0:
+            irreducibles.append((poly.gen.as_poly(poly.gen), power * multiplicity))
+        if factor.degree() > 0:
+            irreducibles.append((factor, multiplicity))
+        else:
+            mul[0][1][0] *= factor.LC()**multiplicity
+
+    for factor, multiplicity in irreducibles:
         if multiplicity % 2 == 0:
             mul.append([(sp.S(1), [sp.S(1)], [factor ** (multiplicity // 2)])])
         else:
-- 
2.43.0


From 2bc094c2f9ba0b1b92418d809c9d6a01e0c8a140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:54 +0000
Subject: [PATCH 089/102] fix: solutions given as a mapping were stored unread;
 the symbolic primal family had too few entries

register_y documents a dictionary of symbols to values, but stored the dictionary itself, so
as_params returned the symbols and the propagation to a parent ended in a TypeError.
SDPPrimal.S_from_y() listed the upper triangle only where vec2mat expects all entries.

Property: C17
---
 triples/sdp/dual.py   | 12 ++++++++++++
 triples/sdp/primal.py |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/triples/sdp/dual.py b/triples/sdp/dual.py
index 6d12fe9..8ee13bb 100644
--- a/triples/sdp/dual.py
+++ b/triples/sdp/dual.py
@@ -259,6 +259,18 @@ class SDPProblem(DualTransformMixin):
 
         return S_from_y(y, self._x0_and_space)
 
+    def register_y(self, y: Union[Matrix, np.ndarray, Dict], *args, **kwargs) -> None:
+        if isinstance(y, dict):
+            missing = [v for v in self.free_symbols if v not in y]
+            if missing:
+                raise ValueError(f"No values are given for {missing}.")
+            y = [y[v] for v in self.free_symbols]
+        elif isinstance(y, np.ndarray):
+            y = y.flatten().tolist()
+        if len(y) == self.dof:
+            y = Matrix(self.dof, 1, list(y))
+        super().register_y(y, *args, **kwargs)
+
     def as_params(self) -> Dict[Symbol, Rational]:
         """
         Return the free symbols and their values.
diff --git a/triples/sdp/primal.py b/triples/sdp/primal.py
index 5f6c801..9b4607e 100644
--- a/triples/sdp/primal.py
+++ b/triples/sdp/primal.py
@@ -101,7 +101,7 @@ class SDPPrimal(PrimalTransformMixin):
         if y is None:
             y = []
             for i, m in enumerate(self.size.values()):
-                y += [Symbol('x_{%d,%d,%d}'%(i, min(j,k), max(j,k))) for j in range(m) for k in range(j, m)]
+                y += [Symbol('x_{%d,%d,%d}'%(i, min(j,k), max(j,k))) for j in range(m) for k in range(m)]
             y = Matrix(y)
         else:
             m = sum(space.shape[1] for space in self._space.values())
-- 
2.43.0


From 3294f193eaa5b520b356ca995caa5e924d9bc918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:05 +0000
Subject: [PATCH 090/102] fix: cyclic cubics with three variables were proved
 as if symmetric (only one of the two coefficients was looked at)

---
 triples/core/structsos/quarternary/cubic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/quarternary/cubic.py b/triples/core/structsos/quarternary/cubic.py
index 4ddc289..485f582 100644
--- a/triples/core/structsos/quarternary/cubic.py
+++ b/triples/core/structsos/quarternary/cubic.py
@@ -68,7 +68,7 @@ def _quarternary_cubic_partial_symmetric(coeff, real = False):
 
     s(a2-ab)-2s(a)+4+2abc
     """
-    if coeff((3,0,0,0)) or coeff((2,1,0,0)):
+    if coeff((3,0,0,0)) or coeff((2,1,0,0)) or coeff((1,2,0,0)):
         return None
 
     c100, c000, c200, c110, c111 = [coeff(_) for _ in [(1,0,0,2), (0,0,0,3), (2,0,0,1), (1,1,0,1), (1,1,1,0)]]
-- 
2.43.0


From be291b723f1dd32484cdebbf60251b74097e2e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:05 +0000
Subject: [PATCH 091/102] fix: univariate certificate was shifted when the
 leading terms cancelled after subtracting the x*q(x)^2 part

---
 triples/core/structsos/pivoting/univariate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index cc832a9..74bb4f7 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -293,6 +293,8 @@ def _determine_diagonal_entries(M: Union[sp.Matrix, List[sp.Matrix]], poly: sp.P
         n = M.shape[0]
         if isinstance(poly, sp.Poly):
             all_coeffs = poly.all_coeffs()
+            # the leading terms might be cancelled after subtraction
+            all_coeffs = [sp.S.Zero] * (2*n - 1 - len(all_coeffs)) + all_coeffs
         for i in range(len(all_coeffs)):
             m = i // 2
             if i % 2 == 0:
-- 
2.43.0


From 77fc7d72ba057472ae60265d892ea0752d00dfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:05 +0000
Subject: [PATCH 092/102] fix: vanishing denominators in the uncentered
 windmill quintic ended in a TypeError

---
 triples/core/structsos/ternary/quintic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index 6ae7ac1..7acc743 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -1462,6 +1462,9 @@ def _sos_struct_quintic_uncentered(coeff):
         y.append(1 if (r1 != r1_ or r2 != r2_) else 0)
 
         y = [_ * t for _ in y]
+        if not all(_.is_finite for _ in y):
+            # some denominators vanish, e.g. u = v = 2
+            return None
 
         exprs = [
             CyclicSum(a*(m2*(-u*v*w+w)*a**2*c + m2*(u**2*v*w-u*w-u)*a*b**2 + m2*(u**3*w-u**2*v*w-u**2*w+u*v*w+u*w-v*w+v)*a*b*c\
-- 
2.43.0


From 8359e85a53df32b4193279cde748ea0c3c6ec5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:05 +0000
Subject: [PATCH 093/102] fix: coefficient of abcs(a(b-c)2) in a symmetric
 sextic case was wrong, so that the certificate differed from the polynomial

---
 triples/core/structsos/ternary/sextic_symmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index 6671c79..115cd18 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -888,7 +888,7 @@ def _sos_struct_sextic_iran96(coeff, real = False):
                 min(w2, q2),
                 q2 - min(w2, q2),
                 w2 - min(w2, q2),
-                radsimp(z - u_ * (u_ + 2) * m - 2*p + (w2 + q2 - 2 * min(w2, q2))),
+                radsimp(z - u_ * (u_ + 2) * m - 2*p + (w2 + q2 + min(w2, q2))),
                 rem
             ]
 
-- 
2.43.0


From 2a061799edd13c8a03fb09e429ccf824d0769f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:05 +0000
Subject: [PATCH 094/102] fix: s(a6+ua3b3+va4bc-3(1+u+v)a2b2c2) with u+v=-4
 ended in a TypeError

---
 triples/core/structsos/ternary/sextic_symmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index 115cd18..d10d7b1 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -624,7 +624,7 @@ def _sos_struct_sextic_tree(coeff):
         # with t = -(3u + v) / (v + 6)
         # note: (2, -6) is the singular node of the strophoid
         t = radsimp(-(3*u + v) / (v + 6))
-        if -1 <= t:
+        if -1 <= t and u + v + 4 != 0:
             # x = t**3 - 3*t
             w1 = radsimp((27*u**2 + 27*u*v + 54*u + v**3 + 18*v**2 + 54*v)/(27*(u - 2)*(u + v + 4)))
             w2 = 1 - w1
-- 
2.43.0


From 87a4f64de73de586beabd35c405fe096e847e7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:42 +0000
Subject: [PATCH 095/102] fix: univariate certificates over algebraic numbers
 ended in a TypeError when a zero pivot was not recognised

---
 triples/core/structsos/pivoting/univariate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index 74bb4f7..3c7a1c2 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -3,8 +3,7 @@ from itertools import product
 
 import sympy as sp
 
-from ..utils import radsimp
-from ....sdp import congruence as _congruence
+from ..utils import radsimp, congruence as _congruence
 from ....utils.roots.rationalize import nroots_polys
 
 def congruence(M: sp.Matrix) -> Optional[Tuple[sp.Matrix, sp.Matrix]]:
-- 
2.43.0


From 6be151d3a9b0e375c7d3e92fc837edaf862fd472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:20 +0000
Subject: [PATCH 096/102] fix: quintic kernel search raised IndexError when the
 discriminant has no real root

---
 triples/core/structsos/ternary/quintic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index 7acc743..b5c2698 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -535,8 +535,9 @@ def _sos_struct_quintic_full(coeff):
             else:
                 mul = None
                 # for index, ((left, right), __) in enumerate(det_z.intervals()[::-1]):
-                if True:
-                    (left, right), _ = det_z.intervals()[-1]
+                intervals = det_z.intervals()
+                if len(intervals) > 0:
+                    (left, right), _ = intervals[-1]
                     left, right = det_z.refine_root(left, right, eps = 1/rounding)#/24)
                     for val in (left, right):
                         if val >= z_min:
-- 
2.43.0


From 8f4c620664f9470b69880cacb337b3f1b5480344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:35 +0000
Subject: [PATCH 097/102] fix: a multiple of p(a-b)^2 among symmetric octics
 was answered with NaN (TypeError)

---
 triples/core/structsos/ternary/octic_symmetric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/ternary/octic_symmetric.py b/triples/core/structsos/ternary/octic_symmetric.py
index 9137daf..c41264b 100644
--- a/triples/core/structsos/ternary/octic_symmetric.py
+++ b/triples/core/structsos/ternary/octic_symmetric.py
@@ -497,7 +497,7 @@ def _sos_struct_octic_symmetric_hexagon_sdp(coeff):
         if c611 + 2*c620 == 0:
             # r = 0 is a must by the constraint M00 + M01 >= 0 and r >= 0.
             r = sp.S(0)
-            u111, u102, u201 = sp.S(0), sp.S(0), sp.S(0)
+            u102 = sp.S(0)
             M00t = c620
             M01t = -c620
             M02t = c530/2
@@ -516,7 +516,8 @@ def _sos_struct_octic_symmetric_hexagon_sdp(coeff):
             M22t = w5 / (c611 + 2*c620)
 
         u210 = sp.S(1)
-        u102 = -c530/(c611 + 2*c620)
+        if c611 + 2*c620 != 0:
+            u102 = -c530/(c611 + 2*c620)
         u201 = sp.S(0)
         u111 = -2*u102 - 1
         quad_form = stack_quad_form(M00t, M01t, M02t, M22t)
-- 
2.43.0


From ed0d3a7cb4df561e0641682b11b1c43d8b6e6e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:21 +0000
Subject: [PATCH 098/102] fix: a quintic with (u,v) on an asymptotic direction
 of the cubic ended in a TypeError (NaN comparison)

---
 triples/core/structsos/ternary/quintic_symmetric.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quintic_symmetric.py b/triples/core/structsos/ternary/quintic_symmetric.py
index b3dda5e..3a16778 100644
--- a/triples/core/structsos/ternary/quintic_symmetric.py
+++ b/triples/core/structsos/ternary/quintic_symmetric.py
@@ -227,7 +227,11 @@ def sos_struct_quintic_symmetric(coeff, real = True):
         # assume the second intersection has t > (1-2z)/3. It is also positive.
 
         t1 = (1 - 2*z) / 3
-        t2 = radsimp(-(2*u*z - u + v*z + 4*v + 2*z - 1)/(-6*u - 3*v + 4*z**2 - 4*z - 5))
+        t2_denom = radsimp(-6*u - 3*v + 4*z**2 - 4*z - 5)
+        if t2_denom == 0:
+            # the line through the node and (u,v) does not meet the curve again
+            return None
+        t2 = radsimp(-(2*u*z - u + v*z + 4*v + 2*z - 1)/t2_denom)
         y1 = radsimp(-t1**2*(2*t1 + 2*z - 1))
         y2 = radsimp(-t2**2*(2*t2 + 2*z - 1))
 
-- 
2.43.0


From c52a3d2fe263f989eff26e1dcb4fedf490c5da34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:54 +0000
Subject: [PATCH 099/102] fix: Schur-like form s(a(b^2+c^2)(a^2-b^2)(a^2-c^2))
 was given a certificate of another polynomial

---
 triples/core/structsos/ternary/sparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/sparse.py b/triples/core/structsos/ternary/sparse.py
index d7c0ef4..0cbde6c 100644
--- a/triples/core/structsos/ternary/sparse.py
+++ b/triples/core/structsos/ternary/sparse.py
@@ -622,7 +622,7 @@ class Hnmr:
                 else:
                     d = sp.gcd(n, r)
                     RESULT = {
-                        (1, 2): CyclicSum(a) * CyclicProduct((a-b)**2) + CyclicProduct(a) * CyclicSum((a-b)**2),
+                        (1, 2): CyclicSum(a) * CyclicProduct((a-b)**2) + CyclicProduct(a) * CyclicSum((a**2-b**2)**2),
                         (3, 2): CyclicProduct((a-b)**2) * (CyclicSum(a)*CyclicSum(a**2) + CyclicProduct(a+b)) + CyclicProduct(a) * CyclicSum((a**2-b**2)**2*(a+b-c)**2), # (s(a)s(a2)+p(a+b))p(a-b)2+p(a)s((a2-b2)2(a+b-c)2)
                         (5, 2): CyclicProduct((a-b)**2) * (CyclicSum(a)**2*CyclicSum(a**3) + CyclicSum(a*b)*CyclicProduct(a+b)) + CyclicProduct(a) * CyclicSum((a**2-b**2)**2*(a**2+b**2-c**2)**2), # p(a-b)2(s(a3)s(a)2+p(a+b)s(ab))+s((a2-b2)2(a2+b2-c2)2)p(a)
                     }
-- 
2.43.0


From 0331ab6276f7574a02cf54ccde3f2dec4cd2cf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:42 +0000
Subject: [PATCH 100/102] fix: univariate prover raised IndexError when a root
 rounds to zero in the working precision

---
 triples/core/structsos/pivoting/univariate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index 3c7a1c2..8303295 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -478,6 +478,12 @@ def _prove_univariate_irreducible(
         return _prove_univariate_simple(poly)
 
     roots = nroots_polys(poly, n = n)
+    precision = n
+    while any(root == 0 for root in roots):
+        # the polynomial is irreducible and has no zero roots, but some root is too close
+        # to zero to determine its sign in the working precision
+        precision *= 2
+        roots = nroots_polys(poly, n = precision)
     real_roots, complex_roots = _classify_roots(roots)
 
     # a mark of whether the polynomial is positive only over R+ (True) or over R (False)
-- 
2.43.0


From 42f17ba744652aadf49fb9600adae585e89ddd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:08 +0000
Subject: [PATCH 101/102] fix: nonic gear solver ended in a TypeError when a
 candidate weight is a division by zero

---
 triples/core/structsos/ternary/nonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/nonic.py b/triples/core/structsos/ternary/nonic.py
index c2911c3..3e04ac5 100644
--- a/triples/core/structsos/ternary/nonic.py
+++ b/triples/core/structsos/ternary/nonic.py
@@ -419,7 +419,7 @@ def _sos_struct_nonic_gear(coeff):
         # linear combination of vertex 1 and 2
 
         def _check_valid_weight(vertex1, vertex2, w):
-            if w is sp.nan or (not 0 <= w <= 1):
+            if w in (sp.nan, sp.zoo) or (not 0 <= w <= 1):
                 return False
             # w * vertex1 + (1 - w) * vertex2
             c41_, c33_, c32_ = [w*vertex1[1][i] + (1-w)*vertex2[1][i] for i in range(3)]
-- 
2.43.0


From 92591f5ddadf5610486eb570e6b559546dd61856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:07 +0000
Subject: [PATCH 102/102] fix: findroot_resultant reported a nearby non-root as
 an exact zero (relative tolerance too coarse)

---
 triples/utils/roots/findroot.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/triples/utils/roots/findroot.py b/triples/utils/roots/findroot.py
index 1a2ca16..229e989 100644
--- a/triples/utils/roots/findroot.py
+++ b/triples/utils/roots/findroot.py
@@ -657,7 +657,7 @@ class _findroot_helper_resultant():
         return roots_clear
 
     @classmethod
-    def _is_root_pair(cls, poly, a_, b_, tolerance = 1e-12):
+    def _is_root_pair(cls, poly, a_, b_, tolerance = 1e-30):
         """
         Whether a polynomial of two variables vanishes at (a_, b_) numerically. The tolerance
         is relative to the terms of the polynomial when they are large.
@@ -669,7 +669,7 @@ class _findroot_helper_resultant():
         return bool(v < tolerance * scale)
 
     @classmethod
-    def _ternary_cyclic_root_pairs(cls, poly, factors, prec = 20, tolerance = 1e-12):
+    def _ternary_cyclic_root_pairs(cls, poly, factors, prec = 50, tolerance = 1e-30):
         """
         Find the numerical root pairs of a polynomial using the resultant method.
         The polynomial should be of two variables. Factors are the minimal polynomial
@@ -726,7 +726,7 @@ class _findroot_helper_resultant():
         return pairs
 
     @classmethod
-    def _ternary_acyclic_root_pairs(cls, poly, factors1, factors2, prec = 20, tolerance = 1e-12):
+    def _ternary_acyclic_root_pairs(cls, poly, factors1, factors2, prec = 50, tolerance = 1e-30):
         """
         Find the numerical root pairs of a polynomial using the resultant method.
         The polynomial should be of two variables.
-- 
2.43.0

