From ab6e94ea4589afc45ee9200ad2a4f8b9b7c15e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:54 +0000
Subject: [PATCH 01/57] fix: number minus variable negates the variable

---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 686c074..1419dbc 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -203,7 +203,7 @@ class Transform():
     def __sub__(self, x):
         return self + (-1 * x)
     def __rsub__(self, x):
-        return self - x
+        return (-1 * self) + x
     # Negation.
     def __neg__(self):
         return -1 * self
-- 
2.43.0


From ddfb7f03a96695d51d6af77be3715bd411fdd498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 02/57] fix: group values by equality, not by hash (hash(-1) ==
 hash(-2))

---
 src/sym_util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sym_util.py b/src/sym_util.py
index 05d809a..9903ac2 100644
--- a/src/sym_util.py
+++ b/src/sym_util.py
@@ -45,10 +45,9 @@ def powerset(values, start=0):
 def partition_list_blocks(values):
     partition = OrderedDict([])
     for i, v in enumerate(values):
-        x = hash(v)
-        if x not in partition:
-            partition[x] = []
-        partition[x].append(i)
+        if v not in partition:
+            partition[v] = []
+        partition[v].append(i)
     return list(partition.values())
 
 def partition_finite_real_contiguous(x):
-- 
2.43.0


From 69cfcc42987d76afefb2b5d8462105304c8abfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 03/57] fix: compare and hash discrete leaves by their
 outcomes, and keywords in any order

---
 src/spe.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index d5f0856..bc301b7 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -821,16 +821,14 @@ class RealLeaf(LeafSPE):
         return AtomicLeaf(self.symbol, x)
 
     def __hash__(self):
-        d = (self.dist.dist.name, self.dist.args, tuple(self.dist.kwds.items()))
+        d = scipy_dist_key(self.dist)
         e = tuple(self.env.items())
         x = (self.__class__, self.symbol, d, self.support, self.conditioned, e)
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
             and self.symbol == x.symbol \
-            and self.dist.dist.name == x.dist.dist.name \
-            and self.dist.args == x.dist.args \
-            and self.dist.kwds == x.dist.kwds \
+            and scipy_dist_key(self.dist) == scipy_dist_key(x.dist) \
             and self.support == x.support \
             and self.conditioned == x.conditioned \
             and self.env == x.env
@@ -1035,6 +1033,14 @@ class NominalLeaf(LeafSPE):
 # ==============================================================================
 # Utilities.
 
+def scipy_dist_key(dist):
+    # Hashable key identifying a (frozen) scipy distribution; the outcomes of
+    # an rv_discrete built from values are not in its args or kwds.
+    values = (tuple(dist.dist.xk), tuple(dist.dist.pk)) \
+        if hasattr(dist.dist, 'xk') else None
+    kwds = tuple(sorted(dist.kwds.items()))
+    return (dist.dist.name, tuple(dist.args), kwds, values)
+
 class Memo():
     def __init__(self):
         self.logprob = {}
-- 
2.43.0


From 3052cf748d2321baa911aca9a4a51a1f81c9c7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 04/57] fix: round end points of integer queries down, also
 below zero

---
 src/math_util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/math_util.py b/src/math_util.py
index 09a6a66..98bf960 100644
--- a/src/math_util.py
+++ b/src/math_util.py
@@ -1,6 +1,7 @@
 # Copyright 2020 MIT Probabilistic Computing Project.
 # See LICENSE.txt
 
+from math import floor
 from math import isinf
 
 import numpy
@@ -52,4 +53,4 @@ def random(x):
 
 int_or_isinf_neg = lambda a: isinf_neg(a) or float(a) == int(a)
 int_or_isinf_pos = lambda a: isinf_pos(a) or float(a) == int(a)
-float_to_int = lambda a: a if isinf(a) else int(a)
+float_to_int = lambda a: a if isinf(a) else int(floor(a))
-- 
2.43.0


From 27573b644def7507f95fd42b3d8e662ca158db18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 05/57] fix: condition integer and real leaves on fractional
 end points and isolated points

---
 src/spe.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index bc301b7..ad3ee7a 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -8,7 +8,9 @@ from fractions import Fraction
 from functools import reduce
 from inspect import getfullargspec
 from itertools import chain
+from math import ceil
 from math import exp
+from math import floor
 from math import log
 
 from .dnf import dnf_factor
@@ -21,6 +23,7 @@ from .math_util import float_to_int
 from .math_util import int_or_isinf_neg
 from .math_util import int_or_isinf_pos
 from .math_util import isinf_neg
+from .math_util import isinf_pos
 from .math_util import logdiffexp
 from .math_util import logflip
 from .math_util import lognorm
@@ -772,16 +775,24 @@ class RealLeaf(LeafSPE):
 
     def flatten_values_contiguous(self, values):
         if isinstance(values, Interval):
-            return [values]
+            return self.flatten_interval(values)
         if isinstance(values, FiniteReal):
-            assert isinstance(self, DiscreteLeaf)
-            blocks = partition_finite_real_contiguous(values)
+            if not isinstance(self, DiscreteLeaf):
+                # Isolated points have measure zero.
+                return []
+            integers = [v for v in values if float(v) == int(v)]
+            if not integers:
+                return []
+            blocks = partition_finite_real_contiguous(FiniteReal(*integers))
             return [Range(min(v), max(v)) for v in blocks]
         if isinstance(values, Union):
             subvalues = (self.flatten_values_contiguous(v) for v in values)
             return list(chain(*subvalues))
         assert False
 
+    def flatten_interval(self, values):
+        return [values]
+
     def condition__(self, event):
         interval = event.solve()
         values_set = self.support & interval
@@ -911,6 +922,16 @@ class DiscreteLeaf(RealLeaf):
             return -inf
         return self.dist.logpmf(xf) - self.logZ
 
+    def flatten_interval(self, values):
+        if int_or_isinf_neg(values.left) and int_or_isinf_pos(values.right):
+            return [values]
+        # Shrink to the integers in the interval.
+        left = values.left if isinf_neg(values.left) else ceil(values.left)
+        right = values.right if isinf_pos(values.right) else floor(values.right)
+        left = left + (left == values.left and values.left_open)
+        right = right - (right == values.right and values.right_open)
+        return [Range(left, right)] if left <= right else []
+
     def logprob_finite__(self, values):
         logps = [self.logpdf__(x) for x in values]
         return logps[0] if len(logps) == 1 else logsumexp(logps)
-- 
2.43.0


From 7733081e212bb746a30d39fdd8c4d444d24132bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 06/57] fix: evaluate a logarithm to a number, not a set

---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 1419dbc..f06a72b 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -501,7 +501,7 @@ class Logarithm(Injective):
         return self.ffwd(x)
     def ffwd(self, x):
         assert x in self.domain()
-        return {sympy.log(x, self.base) if x > 0 else -oo}
+        return sympy.log(x, self.base) if x > 0 else -oo
     def finv(self, y):
         if not y in self.range():
             return EmptySet
-- 
2.43.0


From b31eba79612abfab7fa5d3de19f8497c8e2f8a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:37 +0000
Subject: [PATCH 07/57] fix: intersect a union with an interval touching one of
 its pieces

---
 src/sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index c15833f..f0ac4a9 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -330,7 +330,7 @@ class Union(Set):
                     return intervalsne[0]
             if not intervalsne:
                 return atoms
-            return Union(atoms, *intervalsne)
+            return make_union(atoms, *intervalsne)
         if isinstance(x, Union):
             terms = [self & v for v in x.values]
             return reduce(lambda a,b: a |b, terms)
-- 
2.43.0


From 44d048d66b686147b00d4ef864ef295c91cc7017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 08/57] fix: use plain integers for the end points of
 conditioned integer leaves

---
 src/spe.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index ad3ee7a..03e7085 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -926,10 +926,11 @@ class DiscreteLeaf(RealLeaf):
         if int_or_isinf_neg(values.left) and int_or_isinf_pos(values.right):
             return [values]
         # Shrink to the integers in the interval.
-        left = values.left if isinf_neg(values.left) else ceil(values.left)
-        right = values.right if isinf_pos(values.right) else floor(values.right)
-        left = left + (left == values.left and values.left_open)
-        right = right - (right == values.right and values.right_open)
+        (left, right) = (values.left, values.right)
+        if not isinf_neg(left):
+            left = int(ceil(left)) + int(left == ceil(left) and values.left_open)
+        if not isinf_pos(right):
+            right = int(floor(right)) - int(right == floor(right) and values.right_open)
         return [Range(left, right)] if left <= right else []
 
     def logprob_finite__(self, values):
-- 
2.43.0


From b140b1754ad65f8e78e8f67a162a276b95eef119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 09/57] fix: give equal nominal sets and equal intervals equal
 hashes

---
 src/sets.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index f0ac4a9..1f6062c 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -47,7 +47,7 @@ class FiniteNominal(Set):
     def __init__(self, *values, b=None):
         assert values or b
         self.values = frozenset(values)
-        self.b = b
+        self.b = bool(b)
     def __contains__(self, x):
         if self.b:
             return x not in self.values
@@ -178,8 +178,8 @@ class Interval(Set):
         assert a < b
         self.a = a
         self.b = b
-        self.left_open = left_open or isinf_neg(self.a)
-        self.right_open = right_open or isinf_pos(self.b)
+        self.left_open = bool(left_open or isinf_neg(self.a))
+        self.right_open = bool(right_open or isinf_pos(self.b))
         # SymPy compatibility.
         (self.left, self.right) = (a, b)
     def __contains__(self, x):
@@ -257,7 +257,9 @@ class Interval(Set):
             and bool(self.left_open) == bool(x.left_open) \
             and bool(self.right_open) == bool(x.right_open)
     def __hash__(self):
-        x = (self.__class__, self.a, self.b, self.left_open, self.right_open)
+        # Equal numbers of different types may hash differently.
+        (a, b) = (float(self.a), float(self.b))
+        x = (self.__class__, a, b, self.left_open, self.right_open)
         return hash(x)
     def __repr__(self):
         return 'Interval(%s, %s, left_open=%s, right_open=%s)' \
-- 
2.43.0


From 61d3b8b54de13365d4d6240e57c6690baa43fcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:25 +0000
Subject: [PATCH 10/57] fix: compare the elements of finite real sets as
 numbers, keep infinities

---
 src/sets.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index 1f6062c..a371248 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -107,7 +107,7 @@ class FiniteNominal(Set):
 class FiniteReal(Set):
     def __init__(self, *values):
         assert values
-        self.values = frozenset(values)
+        self.values = frozenset(unique_numbers(values))
     def __contains__(self, x):
         # inf == oo but hash(inf) != hash(oo)
         return any(x == v for v in self.values)
@@ -123,7 +123,7 @@ class FiniteReal(Set):
         return Union(*intervals)
     def __and__(self, x):
         if isinstance(x, FiniteReal):
-            values = self.values & x.values
+            values = {v for v in self.values if v in x}
             return FiniteReal(*values) if values else EmptySet
         if isinstance(x, Interval):
             values = {v for v in self.values if v in x}
@@ -141,13 +141,11 @@ class FiniteReal(Set):
             # Merge endpoints.
             values = set(self.values)
             interval = x
-            if interval.a in values and interval.left_open:
-                values.remove(interval.a)
+            if interval.a in self and interval.left_open and not isinf_neg(interval.a):
                 interval = Interval(interval.a, interval.b,
                     left_open=None,
                     right_open=interval.right_open)
-            if interval.b in values and interval.right_open:
-                values.remove(interval.b)
+            if interval.b in self and interval.right_open and not isinf_pos(interval.b):
                 interval = Interval(interval.a, interval.b,
                     left_open=interval.left_open,
                     right_open=None)
@@ -160,9 +158,10 @@ class FiniteReal(Set):
         return NotImplemented
     def __eq__(self, x):
         return isinstance(x, FiniteReal) \
-            and self.values == x.values
+            and len(self.values) == len(x.values) \
+            and all(v in x for v in self.values)
     def __hash__(self):
-        x = (self.__class__, self.values)
+        x = (self.__class__, frozenset(float(v) for v in self.values))
         return hash(x)
     def __repr__(self):
         return 'FiniteReal(%s)' % (', '.join(repr(x) for x in self.values))
@@ -401,6 +400,15 @@ def union_intervals_finite(intervals, finite):
         blocks_merged.append(finite_current)
     return blocks_merged
 
+def unique_numbers(values):
+    # Equal numbers of different types (float, sympy) may hash differently.
+    lookup = {}
+    for v in values:
+        same = lookup.setdefault(float(v), [])
+        if not any(v == w for w in same):
+            same.append(v)
+    return chain.from_iterable(lookup.values())
+
 def make_union(*args):
     return reduce(lambda a,b: a|b, args)
 def make_intersection(*args):
-- 
2.43.0


From 2779257888b3004741cef1fecb063636676be8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 11/57] fix: invert exponentials with base below one

---
 src/transforms.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index f06a72b..b1a6099 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -351,7 +351,11 @@ class Injective(Transform):
         (a, b) = (ys.left, ys.right)
         a_prime = next(iter(self.finv(a)))
         b_prime = next(iter(self.finv(b)))
-        ys_prime = transform_interval(ys, a_prime, b_prime)
+        if b_prime < a_prime:
+            # Decreasing transform.
+            ys_prime = transform_interval(ys, b_prime, a_prime, flip=True)
+        else:
+            ys_prime = transform_interval(ys, a_prime, b_prime)
         return self.subexpr.invert(ys_prime)
 
 class Identity(Injective):
@@ -463,9 +467,9 @@ class Exponential(Injective):
         if not y in self.range():
             return EmptySet
         if isinf_pos(y):
-            return FiniteReal(oo)
+            return FiniteReal(oo if 1 < self.base else -oo)
         if y <= 0:
-            return FiniteReal(-oo)
+            return FiniteReal(-oo if 1 < self.base else oo)
         return FiniteReal(sympy.log(y, self.base))
     def __eq__(self, x):
         return isinstance(x, Exponential) \
-- 
2.43.0


From 7a335c93a3064fbe5ed9286f94f97c9d0a4912af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 12/57] fix: add polynomials with irrational coefficients or a
 constant sum

---
 src/transforms.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index b1a6099..a4df293 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -102,10 +102,13 @@ class Transform():
         if poly_x.subexpr != poly_self.subexpr:
             raise ValueError('Incompatible subexpressions in "%s + %s"'
                 % (str(self), x))
-        sym_poly_a = sympy.Poly(poly_self.symexpr)
-        sym_poly_b = sympy.Poly(poly_x.symexpr)
+        sym_poly_a = sympy.Poly(poly_self.symexpr, symX)
+        sym_poly_b = sympy.Poly(poly_x.symexpr, symX)
         sym_poly_c = sym_poly_a + sym_poly_b
         coeffs = sym_poly_c.all_coeffs()[::-1]
+        if len(coeffs) == 1:
+            # Constant polynomial.
+            coeffs.append(0)
         return Poly(poly_self.subexpr, coeffs)
     def __add__(self, x):
         # Try to add x as a number.
-- 
2.43.0


From bc740c347683601fd3172514cc98f1f8f3a270ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 13/57] fix: divide a variable by an irrational number, reject
 division by zero

---
 src/transforms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transforms.py b/src/transforms.py
index a4df293..b91d8c9 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -179,6 +179,10 @@ class Transform():
     # Division by x.
     def __truediv__number(self, x):
         x_val = sympify_number(x)
+        if x_val == 0:
+            raise ZeroDivisionError('Cannot divide %s by zero' % (str(self),))
+        if isinstance(x_val, sympy.Expr) and not x_val.is_Rational:
+            return (1 / x_val) * self
         return sympy.Rational(1, x_val) * self
     def __truediv__(self, x):
         # Try to divide by x as a number.
-- 
2.43.0


From a510d847f8e029831fc3e4a323c5a938c1b081b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 14/57] fix: powers of one are constant

---
 src/transforms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transforms.py b/src/transforms.py
index b91d8c9..c43b8e7 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -273,6 +273,8 @@ class Transform():
         x_val = sympify_number(x)
         if x_val <= 0:
             raise ValueError('Base must be positive, not %s' % (x,))
+        if x_val == 1:
+            return Poly(self, (1, 0))
         return Exponential(self, x_val)
     def __rpow__(self, x):
         try:
-- 
2.43.0


From 6c50e071c340a795e1ea657167c772c4f2e4a354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:22 +0000
Subject: [PATCH 15/57] fix: convert the right end of unbounded sympy intervals

---
 src/sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index a371248..77f9bd5 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -439,7 +439,7 @@ def convert_sympy(x):
         return EmptySet
     if isinstance(x, sympy.Interval):
         left = -inf if x.left == -inf else x.left
-        right = inf if x.right == -inf else x.right
+        right = inf if x.right == inf else x.right
         return Interval(left, right, left_open=x.left_open, right_open=x.right_open)
     if isinstance(x, sympy.FiniteSet):
         return FiniteReal(*x.args)
-- 
2.43.0


From 0b7fc7c34888a2e78da727f63d7ade80e6fc2f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 16/57] fix: evaluate piecewise transforms, also with nested
 subexpressions

---
 src/transforms.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index c43b8e7..47f94f6 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -732,10 +732,15 @@ class Piecewise(Transform):
         events_prime = [event.subs(env) for event in self.events]
         return Piecewise(subexprs_prime, events_prime)
     def evaluate(self, assignment):
-        raise NotImplementedError()
+        (symbol,) = self.symbols
+        x = symbol.evaluate(assignment)
+        for subexpr, domain in zip(self.subexprs, self.domains):
+            if x in domain:
+                return subexpr.evaluate(assignment)
+        raise ValueError('Cannot evaluate %s on %s' % (str(self), assignment))
     def ffwd(self, x):
-        index = next(i for i, domain in enumerate(self.domains) if x in domain)
-        return self.subexprs[index].ffwd(x)
+        (symbol,) = self.symbols
+        return self.evaluate({symbol: x})
     def finv(self, y):
         xs_list = get_piecewise_inverse(lambda subexpr: subexpr.finv(y),
             self.subexprs, self.domains)
-- 
2.43.0


From 8f1148060fbd35654b83cf9787ac4b38e74dcb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 17/57] fix: piecewise transforms are hashable

---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 47f94f6..94b1b54 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -773,7 +773,7 @@ class Piecewise(Transform):
         ]
         return ' + '.join(strings)
     def __hash__(self):
-        x = (self.__class__, self.subexprs, self.events)
+        x = (self.__class__, tuple(self.subexprs), tuple(self.events))
         return hash(x)
 
 def get_piecewise_symbol(subexprs, events):
-- 
2.43.0


From ae787e5d27d5609bd155bc4e0c3aaf00e36ab1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 18/57] fix: numbers are not in nominal sets, strings are not
 in intervals

---
 src/sets.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index 77f9bd5..b8ea3da 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -50,7 +50,7 @@ class FiniteNominal(Set):
         self.b = bool(b)
     def __contains__(self, x):
         if self.b:
-            return x not in self.values
+            return isinstance(x, str) and x not in self.values
         return x in self.values
     def __invert__(self):
         if not self.values:
@@ -182,6 +182,8 @@ class Interval(Set):
         # SymPy compatibility.
         (self.left, self.right) = (a, b)
     def __contains__(self, x):
+        if isinstance(x, str):
+            return False
         if self.left_open and self.right_open:
             return self.a < x < self.b
         if self.left_open and not self.right_open:
-- 
2.43.0


From 4e2bf9906ea89272bc6fc3d09c992187639757d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:16 +0000
Subject: [PATCH 19/57] fix: give primitive distributions the support scipy
 gives them (location, scale)

---
 src/distributions.py | 58 +++++++++-----------------------------------
 1 file changed, 11 insertions(+), 47 deletions(-)

diff --git a/src/distributions.py b/src/distributions.py
index d1816f0..5e527c4 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -85,6 +85,9 @@ def UnitIntervalLocScale(kwargs):
 
 class ContinuousReal(RealDistribution):
     constructor = ContinuousLeaf
+    def get_domain(self):
+        (lo, hi) = self.dist(**self.kwargs).support()
+        return Interval(float(lo), float(hi))
 
 class alpha(ContinuousReal):
     """An alpha continuous random variable."""
@@ -94,7 +97,6 @@ class alpha(ContinuousReal):
 class anglit(ContinuousReal):
     """An anglit continuous random variable."""
     dist = scipy.stats.anglit
-    def get_domain(self): return Interval(-sympy.pi/4, sympy.pi/4)
 
 class arcsine(ContinuousReal):
     """An arcsine continuous random variable."""
@@ -149,7 +151,6 @@ class chi2(ContinuousReal):
 class cosine(ContinuousReal):
     """A cosine continuous random variable."""
     dist = scipy.stats.cosine
-    def get_domain(self): return Interval(-sympy.pi/2, sympy.pi/2)
 
 class crystalball(ContinuousReal):
     """Crystalball distribution."""
@@ -219,7 +220,6 @@ class foldnorm(ContinuousReal):
 class genlogistic(ContinuousReal):
     """A generalized logistic continuous random variable."""
     dist = scipy.stats.genlogistic
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class gennorm(ContinuousReal):
     """A generalized normal continuous random variable."""
@@ -239,15 +239,6 @@ class genexpon(ContinuousReal):
 class genextreme(ContinuousReal):
     """A generalized extreme value continuous random variable."""
     dist = scipy.stats.genextreme
-    def get_domain(self):
-        c = self.kwargs['c']
-        if c == 0:
-            return Reals
-        elif c > 0:
-            return Interval(-oo, 1/c)
-        elif c < 0:
-            return Interval(1/c, oo)
-        assert False, 'Bad argument "c" for genextreme: %s' % (self.kwargs,)
 
 class gausshyper(ContinuousReal):
     """A Gauss hypergeometric continuous random variable."""
@@ -267,9 +258,6 @@ class gengamma(ContinuousReal):
 class genhalflogistic(ContinuousReal):
     """A generalized half-logistic continuous random variable."""
     dist = scipy.stats.genhalflogistic
-    def get_domain(self):
-        assert self.kwargs['c'] > 0
-        return Interval(0, 1./self.kwargs['c'])
 
 class geninvgauss(ContinuousReal):
     """A Generalized Inverse Gaussian continuous random variable."""
@@ -294,7 +282,6 @@ class gumbel_r(ContinuousReal):
 class gumbel_l(ContinuousReal):
     """A left-skewed Gumbel continuous random variable."""
     dist = scipy.stats.gumbel_l
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class halfcauchy(ContinuousReal):
     """A Half-Cauchy continuous random variable."""
@@ -364,7 +351,6 @@ class ksone(ContinuousReal):
 class kstwobign(ContinuousReal):
     """Kolmogorov-Smirnov two-sided test for large N."""
     dist = scipy.stats.kstwobign
-    def get_domain(self): return Interval(0, sympy.sqrt(self.kwargs['n']))
 
 class laplace(ContinuousReal):
     """A Laplace continuous random variable."""
@@ -379,7 +365,6 @@ class levy(ContinuousReal):
 class levy_l(ContinuousReal):
     """A left-skewed Levy continuous random variable."""
     dist = scipy.stats.levy_l
-    def get_domain(self): return RealsNeg
 
 class levy_stable(ContinuousReal):
     """A Levy-stable continuous random variable."""
@@ -394,7 +379,6 @@ class logistic(ContinuousReal):
 class loggamma(ContinuousReal):
     """A log gamma continuous random variable."""
     dist = scipy.stats.loggamma
-    def get_domain(self): return RealsNeg
 
 class loglaplace(ContinuousReal):
     """A log-Laplace continuous random variable."""
@@ -409,7 +393,6 @@ class lognorm(ContinuousReal):
 class loguniform(ContinuousReal):
     """A loguniform or reciprocal continuous random variable."""
     dist = scipy.stats.loguniform
-    def get_domain(self): return Interval(self.kwargs['a'], self.kwargs['b'])
 
 class lomax(ContinuousReal):
     """A Lomax (Pareto of the second kind) continuous random variable."""
@@ -465,7 +448,6 @@ class norminvgauss(ContinuousReal):
 class pareto(ContinuousReal):
     """A Pareto continuous random variable."""
     dist = scipy.stats.pareto
-    def get_domain(self): return Interval(1, oo)
 
 class pearson3(ContinuousReal):
     """A pearson type III continuous random variable."""
@@ -485,12 +467,10 @@ class powerlognorm(ContinuousReal):
 class powernorm(ContinuousReal):
     """A power normal continuous random variable."""
     dist = scipy.stats.powernorm
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class rdist(ContinuousReal):
     """An R-distributed (symmetric beta) continuous random variable."""
     dist = scipy.stats.rdist
-    def get_domain(self): return Interval(-1, 1)
 
 class rayleigh(ContinuousReal):
     """A Rayleigh continuous random variable."""
@@ -510,7 +490,6 @@ class recipinvgauss(ContinuousReal):
 class semicircular(ContinuousReal):
     """A semicircular continuous random variable."""
     dist = scipy.stats.semicircular
-    def get_domain(self): return Interval(-1, 1)
 
 class skewnorm(ContinuousReal):
     """A skew-normal random variable."""
@@ -541,17 +520,14 @@ class triang(ContinuousReal):
 class truncexpon(ContinuousReal):
     """A truncated exponential continuous random variable."""
     dist = scipy.stats.truncexpon
-    def get_domain(self): return Interval(0, self.kwargs['b'])
 
 class truncnorm(ContinuousReal):
     """A truncated normal continuous random variable."""
     dist = scipy.stats.truncnorm
-    def get_domain(self): return Interval(self.kwargs['a'], self.kwargs['b'])
 
 class tukeylambda(ContinuousReal):
     """A Tukey-Lamdba continuous random variable."""
     dist = scipy.stats.tukeylambda
-    def get_domain(self): return RealsPosLoc(self.kwargs)
 
 class uniform(ContinuousReal):
     """A uniform continuous random variable."""
@@ -564,12 +540,15 @@ class uniform(ContinuousReal):
 class vonmises(ContinuousReal):
     """A Von Mises continuous random variable."""
     dist = scipy.stats.vonmises
-    def get_domain(self): return Interval(-sympy.pi, sympy.pi)
+    def get_domain(self):
+        # The cdf from scipy is that of one period.
+        loc = self.kwargs.get('loc', 0)
+        scale = self.kwargs.get('scale', 1)
+        return Interval(loc - scale*sympy.pi, loc + scale*sympy.pi)
 
 class vonmises_line(ContinuousReal):
     """A Von Mises continuous random variable."""
     dist = scipy.stats.vonmises_line
-    def get_domain(self): return Interval(-sympy.pi, sympy.pi)
 
 class wald(ContinuousReal):
     """A Wald continuous random variable."""
@@ -584,12 +563,10 @@ class weibull_min(ContinuousReal):
 class weibull_max(ContinuousReal):
     """Weibull maximum continuous random variable."""
     dist = scipy.stats.weibull_max
-    def get_domain(self): return RealsNeg
 
 class wrapcauchy(ContinuousReal):
     """A wrapped Cauchy continuous random variable."""
     dist = scipy.stats.wrapcauchy
-    def get_domain(self): return Interval(0, 2*sympy.pi)
 
 # ==============================================================================
 # DiscreteReal
@@ -602,26 +579,25 @@ from .spe import DiscreteLeaf
 
 class DiscreteReal(RealDistribution):
     constructor = DiscreteLeaf
+    def get_domain(self):
+        (lo, hi) = self.dist(**self.kwargs).support()
+        return Range(float(lo), float(hi))
 
 class bernoulli(DiscreteReal):
     """A Bernoulli discrete random variable."""
     dist = scipy.stats.bernoulli
-    def get_domain(self): return Range(0, 1)
 
 class betabinom(DiscreteReal):
     """A beta-binomial discrete random variable."""
     dist = scipy.stats.betabinom
-    def get_domain(self): return Range(0, self.kwargs['n'])
 
 class binom(DiscreteReal):
     """A binomial discrete random variable."""
     dist = scipy.stats.binom
-    def get_domain(self): return Range(0, self.kwargs['n'])
 
 class boltzmann(DiscreteReal):
     """A Boltzmann (Truncated Discrete Exponential) random variable."""
     dist = scipy.stats.boltzmann
-    def get_domain(self): return Range(0, self.kwargs['N'])
 
 class dlaplace(DiscreteReal):
     """A Laplacian discrete random variable."""
@@ -631,40 +607,30 @@ class dlaplace(DiscreteReal):
 class geom(DiscreteReal):
     """A geometric discrete random variable."""
     dist = scipy.stats.geom
-    def get_domain(self): return Integers
 
 class hypergeom(DiscreteReal):
     """A hypergeometric discrete random variable."""
     dist = scipy.stats.hypergeom
-    def get_domain(self):
-        low = max(0, self.kwargs['N'], self.kwargs['N']-self.kwargs['M']+self.kwargs['n'])
-        high = min(self.kwargs['n'], self.kwargs['N'])
-        return Range(low, high)
 
 class logser(DiscreteReal):
     """A Logarithmic (Log-Series, Series) discrete random variable."""
     dist = scipy.stats.logser
-    def get_domain(self): return IntegersPos
 
 class nbinom(DiscreteReal):
     """A negative binomial discrete random variable."""
     dist = scipy.stats.nbinom
-    def get_domain(self): return IntegersPos0
 
 class planck(DiscreteReal):
     """A Planck discrete exponential random variable."""
     dist = scipy.stats.planck
-    def get_domain(self): return IntegersPos0
 
 class poisson(DiscreteReal):
     """A Poisson discrete random variable."""
     dist = scipy.stats.poisson
-    def get_domain(self): return IntegersPos0
 
 class randint(DiscreteReal):
     """A uniform discrete random variable."""
     dist = scipy.stats.randint
-    def get_domain(self): return Interval.Ropen(self.kwargs['low'], self.kwargs['high'])
 
 class skellam(DiscreteReal):
     """A Skellam discrete random variable."""
@@ -674,12 +640,10 @@ class skellam(DiscreteReal):
 class zipf(DiscreteReal):
     """A Zipf discrete random variable."""
     dist = scipy.stats.zipf
-    def get_domain(self): return IntegersPos
 
 class yulesimon(DiscreteReal):
     """A Yule-Simon discrete random variable."""
     dist = scipy.stats.yulesimon
-    def get_domain(self): return IntegersPos
 
 class atomic(randint):
     """An atomic discrete random variable."""
-- 
2.43.0


From b801cd357e0f510338b866f98e56075d5de026e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 20/57] fix: constraining a leaf keeps its derived variables

---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 03e7085..77da6c0 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -829,7 +829,7 @@ class RealLeaf(LeafSPE):
 
     def constrain__(self, x):
         assert not isinf_neg(self.logpdf__(x))
-        return AtomicLeaf(self.symbol, x)
+        return AtomicLeaf(self.symbol, x, env=self.env)
 
     def __hash__(self):
         d = scipy_dist_key(self.dist)
-- 
2.43.0


From e5d3203d7da3bce1734331d40fc8c5af038e2f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 21/57] fix: densities, constraining and equality of atomic
 leaves

---
 src/spe.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 77da6c0..db3ee30 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -971,16 +971,25 @@ class AtomicLeaf(LeafSPE):
         return 0 if self.value in interval else -inf
     def condition__(self, event):
         interval = event.solve()
-        assert self.value in interval, 'Measure zero condition %s' % (event,)
+        if self.value not in interval:
+            raise ValueError('Conditioning event "%s" has probability zero'
+                % (str(event),))
+        return self
+    def logpdf__(self, x):
+        return 0 if x == self.value else -inf
+    def constrain__(self, x):
+        assert not isinf_neg(self.logpdf__(x))
         return self
 
     def __hash__(self):
-        x = (self.__class__, self.symbol, self.value)
+        e = tuple(self.env.items())
+        x = (self.__class__, self.symbol, float(self.value), e)
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
             and self.symbol == x.symbol \
-            and self.value == x.value
+            and self.value == x.value \
+            and self.env == x.env
 
 # ==============================================================================
 # Nominal distribution.
-- 
2.43.0


From f555e455acbe207e1a42babb1104b6c8097fcfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 22/57] fix: nominal outcomes of weight zero have density zero,
 weights are nonnegative

---
 src/spe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spe.py b/src/spe.py
index db3ee30..c6c7e9c 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -1007,12 +1007,15 @@ class NominalLeaf(LeafSPE):
         self.support = FiniteNominal(*dist.keys())
         self.outcomes = list(self.dist.keys())
         self.weights = list(self.dist.values())
+        assert all(0 <= w for w in self.weights)
         assert allclose(float(sum(self.weights)),  1)
 
     def logpdf__(self, x):
         if x not in self.dist:
             return -inf
         w = self.dist[x]
+        if w == 0:
+            return -inf
         return log(w.numerator) - log(w.denominator)
 
     def transform(self, symbol, expr):
-- 
2.43.0


From c270229bfaff02e320be448157d75bf60fae9ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 23/57] fix: samples of independent mixtures are independent

---
 src/spe.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index c6c7e9c..6296581 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -244,9 +244,11 @@ class SumSPE(BranchSPE):
     def sample_many(self, func, N, prng=None):
         selections = logflip(self.weights, self.indexes, N, prng)
         counts = Counter(selections)
-        samples = [func(i, counts[i]) for i in counts]
+        samples = list(chain.from_iterable(func(i, counts[i]) for i in counts))
+        # Shuffle individual samples, so that they are independent of their
+        # position (samples are merged by position in ProductSPE).
         random(prng).shuffle(samples)
-        return list(chain.from_iterable(samples))
+        return samples
 
     def transform(self, symbol, expr):
         children = [spe.transform(symbol, expr) for spe in self.children]
-- 
2.43.0


From 409b91cdcc5fd3e00b0d5da7d99a8053f373b0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 24/57] fix: simplify mixtures whose first component is a leaf
 and others are products

---
 src/spe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 6296581..df56bf5 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -362,9 +362,9 @@ class PartialSumSPE(SPE):
         return NotImplemented
 
 def spe_simplify_sum(spe):
-    if isinstance(spe.children[0], LeafSPE):
+    if all(isinstance(c, LeafSPE) for c in spe.children):
         return spe_simplify_sum_leaf(spe)
-    if isinstance(spe.children[0], ProductSPE):
+    if all(isinstance(c, (LeafSPE, ProductSPE)) for c in spe.children):
         return spe_simplify_sum_product(spe)
     assert False, 'Invalid children of SumSPE: %s' % (spe.children,)
 
-- 
2.43.0


From a86938737d1b5287577c01675e14128b36e626c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 25/57] fix: accept mixture weights whose floating-point sum
 slightly exceeds one

---
 src/distributions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/distributions.py b/src/distributions.py
index 5e527c4..aa3720c 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -4,6 +4,8 @@
 import scipy.stats
 import sympy
 
+from .math_util import allclose
+
 class Distribution():
     def __rmul__(self, x):
         from .sym_util import sympify_number
@@ -59,7 +61,8 @@ class DistributionMix():
             return NotImplemented
         weights = self.weights + x.weights
         cumsum = float(sum(weights))
-        assert 0 < cumsum <= 1
+        assert 0 < cumsum
+        assert cumsum <= 1 or allclose(cumsum, 1)
         distributions = self.distributions + x.distributions
         return DistributionMix(distributions, weights)
 
-- 
2.43.0


From f56c23fc177cb02a35b804050b4744a93a6b9f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 26/57] fix: a memo table outliving a model does not answer for
 another model

---
 src/spe.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index df56bf5..b11e98c 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -143,7 +143,7 @@ class SPE():
         return NotImplemented
 
     def get_memo_key(self, event_factor):
-        x = id(self)
+        x = SPEReference(self)
         y = tuple(event_factor.items()) \
                 if isinstance(event_factor, dict) \
                 else tuple(tuple(d.items()) for d in event_factor)
@@ -1077,6 +1077,16 @@ def scipy_dist_key(dist):
     kwds = tuple(sorted(dist.kwds.items()))
     return (dist.dist.name, tuple(dist.args), kwds, values)
 
+class SPEReference():
+    # Reference to an SPE compared by identity.  It keeps the SPE alive, since
+    # the id of an SPE may be used for another one after it is collected.
+    def __init__(self, spe):
+        self.spe = spe
+    def __eq__(self, x):
+        return isinstance(x, SPEReference) and self.spe is x.spe
+    def __hash__(self):
+        return id(self.spe)
+
 class Memo():
     def __init__(self):
         self.logprob = {}
-- 
2.43.0


From 069d183fb8021be679ab5d85223e2c4c688695d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 27/57] fix: disabling memoization (memo=False) evaluates the
 query

---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index b11e98c..6edd558 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -54,7 +54,7 @@ def memoize(f):
     def f_(*args):
         (spe, event_factor, memo) = args
         if memo is False:
-            return f(spe, event_factor_to_event, memo)
+            return f(spe, event_factor, memo)
         m = getattr(memo, table)
         key = spe.get_memo_key(event_factor)
         if key not in m:
-- 
2.43.0


From 9086e066d2e5b19aa276752a7131a278eb135734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:10 +0000
Subject: [PATCH 28/57] fix: the negation of an empty nominal event is every
 string

---
 src/transforms.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 94b1b54..5545821 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -885,6 +885,9 @@ class EventBasic(Event):
             if event.subexpr == self.subexpr:
                 intersection = self.values & event.values
                 if intersection is EmptySet:
+                    if isinstance(self, EventFiniteNominal) \
+                            and isinstance(event, EventFiniteNominal):
+                        return EventFiniteNominal(self.subexpr, EmptySet)
                     return EventFiniteReal(self.subexpr, EmptySet)
                 if isinstance(intersection, FiniteReal):
                     return EventFiniteReal(self.subexpr, intersection)
@@ -905,6 +908,9 @@ class EventBasic(Event):
             if event.subexpr == self.subexpr:
                 union = self.values | event.values
                 if union is EmptySet:
+                    if isinstance(self, EventFiniteNominal) \
+                            and isinstance(event, EventFiniteNominal):
+                        return EventFiniteNominal(self.subexpr, EmptySet)
                     return EventFiniteReal(self.subexpr, EmptySet)
                 if isinstance(union, FiniteReal):
                     return EventFiniteReal(self.subexpr, union)
@@ -1089,7 +1095,7 @@ class EventFiniteNominal(EventBasic):
     def __str__(self):
         return '%s << %s' % (str(self.subexpr), str(self.values))
     def __invert__(self):
-        values_not = ~self.values
+        values_not = Strings if self.values is EmptySet else ~self.values
         return EventFiniteNominal(self.subexpr, values_not)
 
 class EventCompound(Event):
-- 
2.43.0


From d3bc76d2889799c8645bcf214daf3e89f34ddbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 29/57] fix: condition on overlapping clauses over variables
 with both nominal and real values

---
 src/dnf.py | 22 +++++++++++++++++++---
 src/spe.py | 16 +++++++++++++++-
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/src/dnf.py b/src/dnf.py
index aef0777..f383158 100644
--- a/src/dnf.py
+++ b/src/dnf.py
@@ -6,8 +6,11 @@ from itertools import chain
 from itertools import combinations
 
 from .sets import EmptySet
+from .sets import Reals
+from .sets import Strings
 from .transforms import EventAnd
 from .transforms import EventBasic
+from .transforms import EventFiniteNominal
 from .transforms import EventOr
 from .transforms import Id
 
@@ -116,10 +119,23 @@ def dnf_non_disjoint_clauses(event):
 
     return overlap_dict
 
-def dnf_to_disjoint_union(event):
+def dnf_complement_clause(event, mixed):
+    # Complement of a clause.  Since the complement of a literal only has values
+    # of the same type as the literal, add the values of the other type for
+    # symbols in mixed, which take on both nominal and real values.
+    literals = event.subexprs if isinstance(event, EventAnd) else (event,)
+    complement = ~event
+    for literal in literals:
+        if literal.subexpr in mixed:
+            nominal = isinstance(literal, EventFiniteNominal)
+            complement |= literal.subexpr << (Reals if nominal else Strings)
+    return complement
+
+def dnf_to_disjoint_union(event, mixed=()):
     # Given an event in DNF, returns an event in DNF where all the
     # clauses are disjoint from one another, by recursively solving the
     # identity E = (A or B or C) = (A) or (B and ~A) or (C and ~A and ~B).
+    # The symbols in mixed have both nominal and real values.
     # Base case.
     if isinstance(event, (EventBasic, EventAnd)):
         return event
@@ -131,13 +147,13 @@ def dnf_to_disjoint_union(event):
     n_clauses = len(event.subexprs)
     clauses_disjoint = [
         reduce(
-            lambda state, event: state & ~event,
+            lambda state, event: state & dnf_complement_clause(event, mixed),
             (event.subexprs[j] for j in overlap_dict.get(i, [])),
             event.subexprs[i])
         for i in range(n_clauses)
     ]
     # Recursively find the solutions for each clause.
     clauses_normalized = [dnf_normalize(clause) for clause in clauses_disjoint]
-    solutions = [dnf_to_disjoint_union(c) for c in clauses_normalized if c]
+    solutions = [dnf_to_disjoint_union(c, mixed) for c in clauses_normalized if c]
     # Return the merged solution.
     return reduce(lambda a, b: a|b, solutions)
diff --git a/src/spe.py b/src/spe.py
index 6edd558..0c00bda 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -45,6 +45,7 @@ from .sets import FiniteNominal
 from .sets import FiniteReal
 from .sets import Interval
 from .sets import Range
+from .sets import Strings
 from .sets import Union
 
 inf = float('inf')
@@ -180,9 +181,22 @@ class BranchSPE(SPE):
             if not indexes:
                 raise ValueError('Zero probability event: %s' % (event,))
             event_dnf = EventOr([event_dnf.subexprs[i] for i in indexes])
-        event_disjoint = dnf_to_disjoint_union(event_dnf)
+        mixed = self.get_mixed_symbols(event_dnf, memo)
+        event_disjoint = dnf_to_disjoint_union(event_dnf, mixed)
         event_factor = dnf_factor(event_disjoint)
         return self.condition_mem(event_factor, memo)
+    def get_mixed_symbols(self, event, memo):
+        # Return symbols in the event with both nominal and real values.
+        if not isinstance(event, EventOr) or len(event.get_symbols()) == 1:
+            return []
+        logps = {
+            symbol: self.logprob_mem(({symbol: symbol << Strings},), memo)
+            for symbol in event.get_symbols()
+        }
+        return [
+            symbol for symbol, lp in logps.items()
+            if not isinf_neg(lp) and not allclose(lp, 0)
+        ]
     def logpdf(self, assignment, memo=None):
         if memo is None:
             memo = Memo()
-- 
2.43.0


From 9ff0ac6c8ea85b38cb819c730eff040cde30f747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 30/57] fix: query integer leaves at end points beyond 64 bits

---
 src/spe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 0c00bda..f2c5d32 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -759,12 +759,12 @@ class RealLeaf(LeafSPE):
 
     def logcdf(self, x):
         if not self.conditioned:
-            return self.dist.logcdf(x)
+            return self.dist.logcdf(float(x))
         if self.xu < x:
             return 0
         elif x < self.xl:
             return -inf
-        p = logdiffexp(self.dist.logcdf(x), self.logFl)
+        p = logdiffexp(self.dist.logcdf(float(x)), self.logFl)
         return p - self.logZ
 
     def logprob__(self, event):
-- 
2.43.0


From b9f97c274ae4b6c15883a6469d18b33f1e8e6560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:39 +0000
Subject: [PATCH 31/57] fix: logarithms of powers of a common base are exact

---
 src/sym_util.py   | 11 +++++++++++
 src/transforms.py |  5 +++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/sym_util.py b/src/sym_util.py
index 9903ac2..fe09d36 100644
--- a/src/sym_util.py
+++ b/src/sym_util.py
@@ -87,6 +87,17 @@ def sym_log(x):
         return float('inf')
     return sympy.log(x)
 
+def sym_log_base(x, base):
+    """Logarithm of x, exact when x and base are powers of the same number."""
+    (x, base) = (sympy.sympify(x), sympy.sympify(base))
+    y = sympy.log(x, base)
+    if y.is_Rational or not (x.is_Rational and base.is_Rational):
+        return y
+    r = sympy.Rational(float(y)).limit_denominator(64)
+    if abs(r.p) <= 64 and base**r.p == x**r.q:
+        return r
+    return y
+
 def sympy_solver(expr):
     # Sympy is buggy and slow.  Use Transforms.
     symbols = get_symbols(expr)
diff --git a/src/transforms.py b/src/transforms.py
index 5545821..c64cb1c 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -35,6 +35,7 @@ from .sets import make_union
 from .sets import oo
 
 from .sym_util import get_union
+from .sym_util import sym_log_base
 from .sym_util import sympify_number
 
 # ==============================================================================
@@ -479,7 +480,7 @@ class Exponential(Injective):
             return FiniteReal(oo if 1 < self.base else -oo)
         if y <= 0:
             return FiniteReal(-oo if 1 < self.base else oo)
-        return FiniteReal(sympy.log(y, self.base))
+        return FiniteReal(sym_log_base(y, self.base))
     def __eq__(self, x):
         return isinstance(x, Exponential) \
             and self.subexpr == x.subexpr \
@@ -514,7 +515,7 @@ class Logarithm(Injective):
         return self.ffwd(x)
     def ffwd(self, x):
         assert x in self.domain()
-        return sympy.log(x, self.base) if x > 0 else -oo
+        return sym_log_base(x, self.base) if x > 0 else -oo
     def finv(self, y):
         if not y in self.range():
             return EmptySet
-- 
2.43.0


From 5ad749133a12f9737addbdeb43ea902ffd6c8ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:35 +0000
Subject: [PATCH 32/57] fix: serialize the outcomes of discrete distributions
 and read symbolic numbers back

---
 src/compilers/spe_to_dict.py | 52 +++++++++++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/compilers/spe_to_dict.py b/src/compilers/spe_to_dict.py
index 671648b..c8ecea6 100644
--- a/src/compilers/spe_to_dict.py
+++ b/src/compilers/spe_to_dict.py
@@ -3,9 +3,13 @@
 
 """Convert SPE to JSON friendly dictionary."""
 
+import ast
+import numbers
+
 from fractions import Fraction
 
 import scipy.stats
+import sympy
 from sympy import E
 from sympy import sqrt
 
@@ -33,11 +37,30 @@ from ..transforms import EventFiniteNominal
 from ..transforms import EventOr
 from ..transforms import EventAnd
 
+class DivisionTransformer(ast.NodeTransformer):
+    """Read a quotient of integers as a rational number."""
+    def visit_BinOp(self, node):
+        self.generic_visit(node)
+        if not isinstance(node.op, ast.Div):
+            return node
+        func = ast.Name(id='divide', ctx=ast.Load())
+        return ast.Call(func=func, args=[node.left, node.right], keywords=[])
+
+def divide(a, b):
+    return sympy.sympify(a) / sympy.sympify(b)
+
+def eval_repr(x):
+    """Evaluate the repr of a number, set, transform or event."""
+    tree = DivisionTransformer().visit(ast.parse(x, mode='eval'))
+    code = compile(ast.fix_missing_locations(tree), '<repr>', 'eval')
+    # Numbers may be sympy expressions (log(2), pi, CRootOf(...)).
+    symbols = {s: sympy.Symbol(s) for s in ['x', 'X']}
+    return eval(code, {**symbols, **vars(sympy), **globals()})
+
 def env_from_dict(env):
     if env is None:
         return None
-    # Used in eval.
-    return {eval(k): eval(v) for k, v in env.items()}
+    return {eval_repr(k): eval_repr(v) for k, v in env.items()}
 
 def env_to_dict(env):
     if len(env) == 1:
@@ -46,15 +69,30 @@ def env_to_dict(env):
 
 def scipy_dist_from_dict(dist):
     constructor = getattr(scipy.stats, dist['name'])
+    if 'values' in dist:
+        constructor = constructor(values=dist['values'])
     return constructor(*dist['args'], **dist['kwds'])
 
 def scipy_dist_to_dict(dist):
+    if hasattr(dist.dist, 'xk'):
+        # Built from values, which are not in args or kwds.
+        return {
+            'name': 'rv_discrete',
+            'args': dist.args,
+            'kwds': dist.kwds,
+            'values': (dist.dist.xk.tolist(), dist.dist.pk.tolist()),
+        }
     return {
         'name': dist.dist.name,
         'args': dist.args,
         'kwds': dist.kwds
     }
 
+def value_to_dict(value):
+    if isinstance(value, (numbers.Integral, float)):
+        return float(value) if isinstance(value, float) else int(value)
+    return repr(value)
+
 def spe_from_dict(metadata):
     if metadata['class'] == 'NominalLeaf':
         symbol = Id(metadata['symbol'])
@@ -62,20 +100,22 @@ def spe_from_dict(metadata):
         return NominalLeaf(symbol, dist)
     if metadata['class'] == 'AtomicLeaf':
         symbol = Id(metadata['symbol'])
-        value = float(metadata['value'])
+        value = metadata['value']
+        if isinstance(value, str):
+            value = eval_repr(value)
         env = env_from_dict(metadata['env'])
         return AtomicLeaf(symbol, value, env=env)
     if metadata['class'] == 'ContinuousLeaf':
         symbol = Id(metadata['symbol'])
         dist = scipy_dist_from_dict(metadata['dist'])
-        support = eval(metadata['support'])
+        support = eval_repr(metadata['support'])
         conditioned = metadata['conditioned']
         env = env_from_dict(metadata['env'])
         return ContinuousLeaf(symbol, dist, support, conditioned, env=env)
     if metadata['class'] == 'DiscreteLeaf':
         symbol = Id(metadata['symbol'])
         dist = scipy_dist_from_dict(metadata['dist'])
-        support = eval(metadata['support'])
+        support = eval_repr(metadata['support'])
         conditioned = metadata['conditioned']
         env = env_from_dict(metadata['env'])
         return DiscreteLeaf(symbol, dist, support, conditioned, env=env)
@@ -104,7 +144,7 @@ def spe_to_dict(spe):
         return {
             'class'        : 'AtomicLeaf',
             'symbol'       : spe.symbol.token,
-            'value'        : spe.value,
+            'value'        : value_to_dict(spe.value),
             'env'          : env_to_dict(spe.env),
         }
     if isinstance(spe, ContinuousLeaf):
-- 
2.43.0


From 678801af4381186b957c7b7893746c39366793a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 33/57] fix: chained comparisons and and/or/not in source
 programs denote events

---
 src/compilers/sppl_to_python.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 31b5d7d..205e807 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -14,6 +14,7 @@ from types import SimpleNamespace
 from collections import namedtuple
 from collections import OrderedDict
 from contextlib import contextmanager
+from functools import reduce
 
 from astunparse import unparse
 
@@ -294,9 +295,15 @@ def unroll_ifexp(target, node):
 
 class SPPL_Transformer_Compare(ast.NodeTransformer):
     def visit_Compare(self, node):
-        # TODO: Implement or/and.
         if len(node.ops) > 1:
-            return node
+            # Python chains comparisons using "and", which drops all but the
+            # last event; write the conjunction of the pairs.
+            operands = [node.left] + node.comparators
+            pairs = [
+                ast.Compare(copy.deepcopy(left), [op], [right])
+                for left, op, right in zip(operands, node.ops, operands[1:])
+            ]
+            return self.visit(ast.BoolOp(ast.And(), pairs))
         if isinstance(node.ops[0], ast.In):
             return ast.BinOp(
                 left=node.left,
@@ -321,6 +328,16 @@ class SPPL_Transformer_Compare(ast.NodeTransformer):
                 operand=self.visit_Compare(node_copy))
         return node
 
+    def visit_BoolOp(self, node):
+        op = ast.BitAnd() if isinstance(node.op, ast.And) else ast.BitOr()
+        values = [self.visit(v) for v in node.values]
+        return reduce(lambda x, y: ast.BinOp(x, op, y), values)
+    def visit_UnaryOp(self, node):
+        self.generic_visit(node)
+        if isinstance(node.op, ast.Not):
+            return ast.UnaryOp(ast.Invert(), node.operand)
+        return node
+
 class SPPL_Visitor_Name(ast.NodeVisitor):
     def __init__(self, distributions, variables):
         self.distributions_lookup = distributions
-- 
2.43.0


From f46ac0c713e95a0b13d4a181cecfaf226e63d87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:56 +0000
Subject: [PATCH 34/57] fix: render atomic leaves, discrete outcomes, arrays
 and derived variables as parseable source

---
 src/compilers/spe_to_sppl.py | 163 +++++++++++++++++++++++++++++++----
 1 file changed, 145 insertions(+), 18 deletions(-)

diff --git a/src/compilers/spe_to_sppl.py b/src/compilers/spe_to_sppl.py
index d6714a0..5b49515 100644
--- a/src/compilers/spe_to_sppl.py
+++ b/src/compilers/spe_to_sppl.py
@@ -3,29 +3,123 @@
 
 """Convert SPE to SPPL."""
 
+import re
+
+from fractions import Fraction
 from io import StringIO
+from itertools import count
 from math import exp
 
+import sympy
+
+from ..math_util import isinf_neg
+from ..math_util import isinf_pos
+from ..sets import EmptySet
+from ..spe import AtomicLeaf
 from ..spe import RealLeaf
 from ..spe import NominalLeaf
 from ..spe import ProductSPE
 from ..spe import SumSPE
+from ..transforms import Abs
+from ..transforms import EventAnd
+from ..transforms import EventFiniteNominal
+from ..transforms import EventFiniteReal
+from ..transforms import EventInterval
+from ..transforms import EventOr
+from ..transforms import Exponential
+from ..transforms import Identity
+from ..transforms import Logarithm
+from ..transforms import Piecewise
+from ..transforms import Poly
+from ..transforms import Radical
+from ..transforms import Reciprocal
 
 get_indentation = lambda i: ' ' * i
 float_to_str = lambda x,fw: '%1.*f' % (fw, float(x)) if fw else str(x)
+
+def number_to_sppl(x):
+    if isinstance(x, float):
+        return repr(float(x))
+    x = sympy.sympify(x)
+    return str(x) if x.is_Rational else repr(float(x))
+
+def expr_to_sppl(expr):
+    """Source code of a transform or event."""
+    if isinstance(expr, Identity):
+        return expr.token
+    if isinstance(expr, Piecewise):
+        return ' + '.join([
+            '(%s)*(%s)' % (expr_to_sppl(subexpr), expr_to_sppl(event))
+            for subexpr, event in zip(expr.subexprs, expr.events)
+        ])
+    if isinstance(expr, (EventAnd, EventOr)):
+        op = ' & ' if isinstance(expr, EventAnd) else ' | '
+        return op.join(['(%s)' % (expr_to_sppl(e),) for e in expr.subexprs])
+    sub = expr_to_sppl(expr.subexpr)
+    if isinstance(expr, Abs):
+        return 'abs(%s)' % (sub,)
+    if isinstance(expr, Reciprocal):
+        return '1/(%s)' % (sub,)
+    if isinstance(expr, Radical):
+        return '(%s)**(1, %d)' % (sub, expr.degree)
+    if isinstance(expr, Exponential):
+        if expr.base == sympy.E:
+            return 'Exp(%s)' % (sub,)
+        return '(%s)**(%s)' % (number_to_sppl(expr.base), sub)
+    if isinstance(expr, Logarithm):
+        if expr.base == sympy.E:
+            return 'Log(%s)' % (sub,)
+        return 'Logarithm(%s, %s)' % (sub, number_to_sppl(expr.base))
+    if isinstance(expr, Poly):
+        coeffs = ', '.join([number_to_sppl(c) for c in expr.coeffs])
+        return 'Poly(%s, [%s])' % (sub, coeffs)
+    if isinstance(expr, EventInterval):
+        (left, right) = (expr.values.left, expr.values.right)
+        event = sub
+        if not isinf_neg(left):
+            comp = '<' if expr.values.left_open else '<='
+            event = '(%s %s (%s))' % (number_to_sppl(left), comp, event)
+        if not isinf_pos(right) or isinf_neg(left):
+            comp = '<' if expr.values.right_open else '<='
+            bound = 'float(\'inf\')' if isinf_pos(right) \
+                else number_to_sppl(right)
+            event = '((%s) %s %s)' % (event, comp, bound)
+        return event
+    if isinstance(expr, EventFiniteReal):
+        values = [] if expr.values is EmptySet else expr.values
+        return '((%s) << [%s])' % (sub, ', '.join(map(number_to_sppl, values)))
+    if isinstance(expr, EventFiniteNominal):
+        if expr.values is EmptySet:
+            return '((%s) << [])' % (sub,)
+        values = ', '.join([repr(v) for v in expr.values.values])
+        return '%s((%s) << [%s])' % ('~' if expr.values.b else '', sub, values)
+    assert False, 'Cannot render %s' % (expr,)
+
+def weights_to_str(weights, fwidth):
+    # Weights rounded to the given width, which still sum to one.
+    if not fwidth:
+        return [float_to_str(w, fwidth) for w in weights]
+    unit = 10**fwidth
+    units = [round(Fraction(w) * unit) for w in weights]
+    index = max(range(len(units)), key=units.__getitem__)
+    units[index] += unit - sum(units)
+    return [float_to_str(Fraction(u, unit), fwidth) for u in units]
+
 class _SPPL_Render_State:
     def __init__(self, stream=None, branches=None, indentation=None,
-            fwidth=None):
+            fwidth=None, tokens=()):
         self.stream = stream or StringIO()
         self.branches = branches or []
         self.indentation = indentation or 0
         self.fwidth = fwidth
+        # Branch variables, different from the variables in the model.
+        names = ('branch_var_%s' % (i,) for i in count())
+        self.branch_vars = (v for v in names if v not in tokens)
+
 def render_sppl_choice(symbol, dist, stream, indentation, fwidth):
     idt = get_indentation(indentation)
-    dist_pairs = [
-        '\'%s\' : %s' % (k, float_to_str(v, fwidth))
-        for (k, v) in dist.items()
-    ]
+    weights = weights_to_str(dist.values(), fwidth)
+    dist_pairs = ['%s : %s' % (repr(k), w) for (k, w) in zip(dist, weights)]
     # Write each outcome on new line.
     if sum(len(x) for x in dist_pairs) > 30:
         idt4 = get_indentation(indentation + 4)
@@ -41,6 +135,24 @@ def render_sppl_choice(symbol, dist, stream, indentation, fwidth):
     stream.write('%s%s ~= choice({%s%s%s})' %
         (idt, symbol, dist_op, dist_str, dist_cl))
     stream.write('\n')
+def dist_to_sppl(dist, fwidth):
+    if hasattr(dist.dist, 'xk'):
+        pairs = zip(dist.dist.xk.tolist(), dist.dist.pk.tolist())
+        return 'discrete({%s})' % (', '.join(['%s: %s' % p for p in pairs]),)
+    # Parameters may be given by position.
+    shapes = dist.dist.shapes.split(',') if dist.dist.shapes else []
+    names = [shape.strip() for shape in shapes] + ['loc', 'scale']
+    params = list(zip(names, dist.args)) + list(dist.kwds.items())
+    kwds = ', '.join(['%s=%s' % (k, float_to_str(v, fwidth)) for k, v in params])
+    return '%s(%s)' % (dist.dist.name, kwds)
+
+def render_sppl_env(env, state):
+    idt = get_indentation(state.indentation)
+    for i, (var, expr) in enumerate(env.items()):
+        if 1 <= i:
+            state.stream.write('%s%s ~= %s' % (idt, var, expr_to_sppl(expr)))
+            state.stream.write('\n')
+
 def render_sppl_helper(spe, state):
     if isinstance(spe, NominalLeaf):
         assert len(spe.env) == 1
@@ -52,23 +164,25 @@ def render_sppl_helper(spe, state):
             state.fwidth)
         return state
     if isinstance(spe, RealLeaf):
-        kwds = ', '.join([
-            '%s=%s' % (k, float_to_str(v, state.fwidth))
-            for k, v in spe.dist.kwds.items()
-        ])
-        dist = '%s(%s)' % (spe.dist.dist.name, kwds)
+        dist = dist_to_sppl(spe.dist, state.fwidth)
         idt = get_indentation(state.indentation)
         state.stream.write('%s%s ~= %s' % (idt, spe.symbol, dist))
         state.stream.write('\n')
         if spe.conditioned:
-            event = spe.symbol << spe.support
-            # TODO: Consider using repr(event)
+            event = expr_to_sppl(spe.symbol << spe.support)
             state.stream.write('%scondition(%s)' % (idt, event))
             state.stream.write('\n')
-        for i, (var, expr) in enumerate(spe.env.items()):
-            if 1 <= i:
-                state.stream.write('%s%s ~= %s' % (idt, var, expr))
-                state.stream.write('\n')
+        render_sppl_env(spe.env, state)
+        return state
+    if isinstance(spe, AtomicLeaf):
+        # An arbitrary distribution, observed to equal the value.
+        idt = get_indentation(state.indentation)
+        value = number_to_sppl(spe.value)
+        state.stream.write('%s%s ~= norm(loc=%s)' % (idt, spe.symbol, value))
+        state.stream.write('\n')
+        state.stream.write('%sconstrain({%s: %s})' % (idt, spe.symbol, value))
+        state.stream.write('\n')
+        render_sppl_env(spe.env, state)
         return state
     if isinstance(spe, ProductSPE):
         for child in spe.children:
@@ -79,7 +193,7 @@ def render_sppl_helper(spe, state):
             return state
         if len(spe.children) == 1:
             return render_sppl_helper(spe.children[0], state)
-        branch_var = 'branch_var_%s' % (len(state.branches))
+        branch_var = next(state.branch_vars)
         branch_idxs = [str(i) for i in range(len(spe.children))]
         branch_dist = {k: exp(w) for k, w in zip(branch_idxs, spe.weights)}
         state.branches.append((branch_var, branch_dist))
@@ -100,13 +214,26 @@ def render_sppl_helper(spe, state):
 def render_sppl(spe, stream=None, fwidth=None):
     if stream is None:
         stream = StringIO()
-    state = _SPPL_Render_State(fwidth=fwidth)
+    tokens = sorted(symbol.token for symbol in spe.get_symbols())
+    state = _SPPL_Render_State(fwidth=fwidth, tokens=tokens)
     state = render_sppl_helper(spe, state)
     assert state.indentation == 0
     # Write the import.
     stream.write('from sppl.distributions import *')
     stream.write('\n')
+    stream.write('from sppl.transforms import Exp, Log, Logarithm, Poly')
+    stream.write('\n')
     stream.write('\n')
+    # Write the array declarations (if any).
+    arrays = {}
+    for token in tokens:
+        match = re.match(r'^(\w+)\[(\d+)\]$', token)
+        if match:
+            (name, index) = (match.group(1), int(match.group(2)))
+            arrays[name] = max(arrays.get(name, 0), index + 1)
+    for name, size in arrays.items():
+        stream.write('%s = array(%d)' % (name, size))
+        stream.write('\n')
     # Write the branch variables (if any).
     for branch_var, branch_dist in state.branches:
         render_sppl_choice(branch_var, branch_dist, stream, 0, fwidth)
-- 
2.43.0


From 86143889acb2da2a1ffb5ea44aeaa7bd1a6cfbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:03 +0000
Subject: [PATCH 35/57] fix: unions of touching intervals are merged, unions
 without intervals accept points

---
 src/sets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index b8ea3da..36bc1b3 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -367,8 +367,9 @@ class Union(Set):
         return iter(self.args)
 
 def union_intervals(intervals):
-    intervals_sorted = sorted(intervals, key=lambda i:i.a)
-    blocks = [intervals_sorted[0]]
+    # Closed before open, so that touching intervals are adjacent.
+    intervals_sorted = sorted(intervals, key=lambda i: (i.a, i.left_open))
+    blocks = intervals_sorted[:1]
     for interval in intervals_sorted[1:]:
         interval_union = blocks[-1] | interval
         if isinstance(interval_union, Interval):
-- 
2.43.0


From 1c09802119cd7bf38559999bf9655de0fa192a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:16 +0000
Subject: [PATCH 36/57] fix: an unsatisfiable literal normalizes to None

---
 src/dnf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dnf.py b/src/dnf.py
index f383158..83aa009 100644
--- a/src/dnf.py
+++ b/src/dnf.py
@@ -69,7 +69,7 @@ def dnf_factor(event, lookup=None):
 def dnf_normalize(event):
     if isinstance(event, EventBasic):
         if isinstance(event.subexpr, Id):
-            return event
+            return event if event.values is not EmptySet else None
     # Given an arbitrary event, rewrite in terms of only Id by
     # solving the subexpressions and return the resulting DNF formula,
     # or None if all solutions evaluate to EmptySet.
-- 
2.43.0


From 6c744813eb5fdfed4a56fc7d10c469a5bdb80c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:04 +0000
Subject: [PATCH 37/57] fix: condition integer leaves on solutions that are
 floating-point integers

---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index f2c5d32..b17a594 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -796,7 +796,7 @@ class RealLeaf(LeafSPE):
             if not isinstance(self, DiscreteLeaf):
                 # Isolated points have measure zero.
                 return []
-            integers = [v for v in values if float(v) == int(v)]
+            integers = [int(v) for v in values if float(v) == int(v)]
             if not integers:
                 return []
             blocks = partition_finite_real_contiguous(FiniteReal(*integers))
-- 
2.43.0


From a37b22bdd299a68a2a9a5360f532752cb8675a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 38/57] fix: the whole support of a primitive distribution has
 probability one (rounding of the scipy cdf at its ends)

---
 src/spe.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index b17a594..7909e8a 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -11,6 +11,7 @@ from itertools import chain
 from math import ceil
 from math import exp
 from math import floor
+from math import isnan
 from math import log
 
 from .dnf import dnf_factor
@@ -757,14 +758,20 @@ class RealLeaf(LeafSPE):
         # Wrap result in a dictionary.
         return [{self.symbol : x} for x in xs]
 
+    def dist_logcdf(self, x):
+        # By rounding, the cdf from scipy may be slightly negative (so that
+        # its logarithm is undefined) at the left end of the support.
+        logp = self.dist.logcdf(x)
+        return -inf if isnan(logp) else logp
+
     def logcdf(self, x):
-        if not self.conditioned:
-            return self.dist.logcdf(float(x))
-        if self.xu < x:
+        if self.xu <= x:
             return 0
-        elif x < self.xl:
+        if not self.conditioned:
+            return self.dist_logcdf(float(x))
+        if x < self.xl:
             return -inf
-        p = logdiffexp(self.dist.logcdf(float(x)), self.logFl)
+        p = logdiffexp(self.dist_logcdf(float(x)), self.logFl)
         return p - self.logZ
 
     def logprob__(self, event):
@@ -873,8 +880,8 @@ class ContinuousLeaf(RealLeaf):
         if conditioned:
             self.Fl = self.dist.cdf(self.xl)
             self.Fu = self.dist.cdf(self.xu)
-            self.logFl = self.dist.logcdf(self.xl)
-            self.logFu = self.dist.logcdf(self.xu)
+            self.logFl = self.dist_logcdf(self.xl)
+            self.logFu = self.dist_logcdf(self.xu)
             self.logZ = logdiffexp(self.logFu, self.logFl)
         else:
             self.logFl = -inf
@@ -918,8 +925,8 @@ class DiscreteLeaf(RealLeaf):
         if conditioned:
             self.Fl = self.dist.cdf(self.xl - 1)
             self.Fu = self.dist.cdf(self.xu)
-            self.logFl = self.dist.logcdf(self.xl - 1)
-            self.logFu = self.dist.logcdf(self.xu)
+            self.logFl = self.dist_logcdf(self.xl - 1)
+            self.logFu = self.dist_logcdf(self.xu)
             self.logZ = logdiffexp(self.logFu, self.logFl)
         else:
             self.logFl = -inf
-- 
2.43.0


From 7094140ad608e4dd0113a67c6e8bfa214d84a2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:57 +0000
Subject: [PATCH 39/57] fix: sample binomial, beta-binomial and hypergeometric
 variables (integer parameters)

---
 src/distributions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/distributions.py b/src/distributions.py
index aa3720c..355e911 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -582,6 +582,12 @@ from .spe import DiscreteLeaf
 
 class DiscreteReal(RealDistribution):
     constructor = DiscreteLeaf
+    integers = ()          # Parameters scipy can only sample as integers.
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+        for k in self.integers:
+            if k in self.kwargs and self.kwargs[k] == int(self.kwargs[k]):
+                self.kwargs[k] = int(self.kwargs[k])
     def get_domain(self):
         (lo, hi) = self.dist(**self.kwargs).support()
         return Range(float(lo), float(hi))
@@ -593,10 +599,12 @@ class bernoulli(DiscreteReal):
 class betabinom(DiscreteReal):
     """A beta-binomial discrete random variable."""
     dist = scipy.stats.betabinom
+    integers = ('n',)
 
 class binom(DiscreteReal):
     """A binomial discrete random variable."""
     dist = scipy.stats.binom
+    integers = ('n',)
 
 class boltzmann(DiscreteReal):
     """A Boltzmann (Truncated Discrete Exponential) random variable."""
@@ -614,6 +622,7 @@ class geom(DiscreteReal):
 class hypergeom(DiscreteReal):
     """A hypergeometric discrete random variable."""
     dist = scipy.stats.hypergeom
+    integers = ('M', 'n', 'N')
 
 class logser(DiscreteReal):
     """A Logarithmic (Log-Series, Series) discrete random variable."""
-- 
2.43.0


From 0a5a3f5287c305e2f174c79de6fce9edcad75ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 40/57] fix: evaluate expressions of events (zero or one)

---
 src/transforms.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index c64cb1c..4444dd5 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -429,7 +429,7 @@ class Radical(Injective):
         subexpr_prime = self.subexpr.subs(env)
         return Radical(subexpr_prime, self.degree)
     def evaluate(self, assignment):
-        x = self.subexpr.evaluate(assignment)
+        x = evaluate_number(self.subexpr, assignment)
         return self.ffwd(x)
     def ffwd(self, x):
         assert x in self.domain()
@@ -468,7 +468,7 @@ class Exponential(Injective):
         subexpr_prime = self.subexpr.subs(env)
         return Exponential(subexpr_prime, self.base)
     def evaluate(self, assignment):
-        x = self.subexpr.evaluate(assignment)
+        x = evaluate_number(self.subexpr, assignment)
         return self.ffwd(x)
     def ffwd(self, x):
         assert x in self.domain()
@@ -511,7 +511,7 @@ class Logarithm(Injective):
         subexpr_prime = self.subexpr.subs(env)
         return Logarithm(subexpr_prime, self.base)
     def evaluate(self, assignment):
-        x = self.subexpr.evaluate(assignment)
+        x = evaluate_number(self.subexpr, assignment)
         return self.ffwd(x)
     def ffwd(self, x):
         assert x in self.domain()
@@ -555,7 +555,7 @@ class Abs(Transform):
         subexpr_prime = self.subexpr.subs(env)
         return Abs(subexpr_prime)
     def evaluate(self, assignment):
-        x = self.subexpr.evaluate(assignment)
+        x = evaluate_number(self.subexpr, assignment)
         return self.ffwd(x)
     def ffwd(self, x):
         assert x in self.domain()
@@ -600,7 +600,7 @@ class Reciprocal(Transform):
         subexpr_prime = self.subexpr.subs(env)
         return Reciprocal(subexpr_prime)
     def evaluate(self, assignment):
-        x = self.subexpr.evaluate(assignment)
+        x = evaluate_number(self.subexpr, assignment)
         return self.ffwd(x)
     def ffwd(self, x):
         assert x in self.domain()
@@ -662,7 +662,7 @@ class Poly(Transform):
         subexpr_prime = self.subexpr.subs(env)
         return Poly(subexpr_prime, self.coeffs)
     def evaluate(self, assignment):
-        x = self.subexpr.evaluate(assignment)
+        x = evaluate_number(self.subexpr, assignment)
         return self.ffwd(x)
     def ffwd(self, x):
         assert x in self.domain()
@@ -777,6 +777,11 @@ class Piecewise(Transform):
         x = (self.__class__, tuple(self.subexprs), tuple(self.events))
         return hash(x)
 
+def evaluate_number(subexpr, assignment):
+    # The value of an event in an expression is zero or one.
+    x = subexpr.evaluate(assignment)
+    return int(x) if isinstance(x, bool) else x
+
 def get_piecewise_symbol(subexprs, events):
     if len(subexprs) != len(events):
         raise ValueError('Piecewise requires same no. of subexprs and events.')
-- 
2.43.0


From c705a227847ef417613f5724c4083f2dfb38d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 41/57] fix: reject statements and calls without a meaning
 instead of dropping them

---
 src/compilers/sppl_to_python.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/compilers/sppl_to_python.py b/src/compilers/sppl_to_python.py
index 205e807..c397da9 100644
--- a/src/compilers/sppl_to_python.py
+++ b/src/compilers/sppl_to_python.py
@@ -24,6 +24,8 @@ def __load_spe_distributions():
     return frozenset(m for (m, v) in members if m[0].islower())
 
 DISTRIBUTIONS = __load_spe_distributions()
+SUPPORTED_STATEMENTS = (ast.Assign, ast.Expr, ast.For, ast.If,
+    ast.Import, ast.ImportFrom, ast.Pass)
 get_indentation = lambda i: ' ' * i
 
 @contextmanager
@@ -69,6 +71,20 @@ class SPPL_Visitor(ast.NodeVisitor):
             elif isinstance(value, ast.AST):
                 self.visit(value)
 
+    def visit(self, node):
+        # Statements without a meaning in SPPL must not be dropped silently.
+        if isinstance(node, ast.stmt):
+            assert isinstance(node, SUPPORTED_STATEMENTS), \
+                'unsupported statement %s' % (unparse(node),)
+        return super().visit(node)
+
+    def visit_Expr(self, node):
+        unode = unparse(node)
+        if isinstance(node.value, ast.Str): # docstring
+            return
+        assert isinstance(node.value, ast.Call), unode
+        self.visit(node.value)
+
     def visit_Import(self, node):
         str_node = unparse(node).replace(os.linesep, '')
         self.imports.append(str_node)
@@ -160,6 +176,7 @@ class SPPL_Visitor(ast.NodeVisitor):
 
     def visit_For(self, node):
         assert isinstance(node.iter, ast.Call)
+        assert not node.orelse, unparse(node)
         if node.iter.func.id == 'range':
             return self.visit_For_vanilla(node)
         if node.iter.func.id == 'switch':
@@ -254,6 +271,7 @@ class SPPL_Visitor(ast.NodeVisitor):
 
     def visit_Call(self, node):
         unode = unparse(node)
+        assert not node.keywords, unode
         if node.func.id == 'condition':
             assert len(node.args) == 1, unode
             idt = get_indentation(self.indentation)
@@ -269,6 +287,8 @@ class SPPL_Visitor(ast.NodeVisitor):
             src_assignment = unparse(assignment).strip()
             self.command.write('%sConstrain(%s),' % (idt, src_assignment))
             self.command.write('\n')
+        else:
+            assert False, 'unknown command %s' % (unode,)
 
 def unroll_if(node, current=None):
     current = [] if current is None else current
-- 
2.43.0


From d5d16e54e97952004bde3294773dd8a3001edb6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:09 +0000
Subject: [PATCH 42/57] fix: switch over values given by an iterator

---
 src/compilers/ast_to_spe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/compilers/ast_to_spe.py b/src/compilers/ast_to_spe.py
index 858e419..6fa93c2 100644
--- a/src/compilers/ast_to_spe.py
+++ b/src/compilers/ast_to_spe.py
@@ -113,8 +113,9 @@ class Switch(Command):
             sets = [self.value_to_set(v[1]) for v in values]
             subcommands = [self.f(*v) for v in values]
         else:
-            sets = [self.value_to_set(v) for v in self.values]
-            subcommands = [self.f(v) for v in self.values]
+            values = list(self.values) # possibly an iterator
+            sets = [self.value_to_set(v) for v in values]
+            subcommands = [self.f(v) for v in values]
         sets_disjoint = [
             reduce(lambda x, s: x & ~s, sets[:i], sets[i])
             for i in range(len(sets))]
-- 
2.43.0


From cd6254b8f2ba1f54119b7ca0f90e87915cfc39cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:35 +0000
Subject: [PATCH 43/57] fix: finite mutual information for events of
 probability zero or one

---
 src/spe.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 7909e8a..877d443 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -92,15 +92,17 @@ class SPE():
     def mutual_information(self, A, B, memo=None):
         if memo is None:
             memo = Memo()
-        lpA1 = self.logprob(A)
-        lpB1 = self.logprob(B)
-        lpA0 = logdiffexp(0, lpA1)
-        lpB0 = logdiffexp(0, lpB1)
         lp11 = self.logprob(A & B, memo)
         lp10 = self.logprob(A & ~B, memo)
         lp01 = self.logprob(~A & B, memo)
         # lp00 = self.logprob(~A & ~B, memo)
         lp00 = logdiffexp(0, logsumexp([lp11, lp10, lp01]))
+        # Marginals of the same joint, so that rounding cannot give positive
+        # probability to an outcome whose marginal probability is zero.
+        lpA1 = logsumexp([lp11, lp10])
+        lpB1 = logsumexp([lp11, lp01])
+        lpA0 = logsumexp([lp01, lp00])
+        lpB0 = logsumexp([lp10, lp00])
         m11 = exp(lp11) * (lp11 - (lpA1 + lpB1)) if not isinf_neg(lp11) else 0
         m10 = exp(lp10) * (lp10 - (lpA1 + lpB0)) if not isinf_neg(lp10) else 0
         m01 = exp(lp01) * (lp01 - (lpA0 + lpB1)) if not isinf_neg(lp01) else 0
-- 
2.43.0


From 20215bcdad8ea25c72c320f37313b119872c64b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 44/57] fix: equal expressions and nominal leaves have equal
 hashes

---
 src/spe.py        | 2 +-
 src/transforms.py | 8 +++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 877d443..31ac10f 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -1082,7 +1082,7 @@ class NominalLeaf(LeafSPE):
         return NominalLeaf(self.symbol, {x: 1})
 
     def __hash__(self):
-        x = (self.__class__, self.symbol, tuple(self.dist.items()))
+        x = (self.__class__, self.symbol, frozenset(self.dist.items()))
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
diff --git a/src/transforms.py b/src/transforms.py
index 4444dd5..7f434e9 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -493,7 +493,7 @@ class Exponential(Injective):
             return 'exp(%s)' % (str(self.subexpr),)
         return '%s**(%s)' % (self.base, str(self.subexpr))
     def __hash__(self):
-        x = (self.__class__, self.subexpr, self.base)
+        x = (self.__class__, self.subexpr, float(self.base))
         return hash(x)
 
 class Logarithm(Injective):
@@ -536,7 +536,7 @@ class Logarithm(Injective):
             return 'log2(%s)' % (str(self.subexpr),)
         return 'log(%s; %s)' % (str(self.subexpr), self.base)
     def __hash__(self):
-        x = (self.__class__, self.subexpr, self.base)
+        x = (self.__class__, self.subexpr, float(self.base))
         return hash(x)
 
 # ==============================================================================
@@ -708,7 +708,9 @@ class Poly(Transform):
         terms = [term_to_str(i, c)  for i, c in enumerate(self.coeffs)]
         return ' + '.join([t for t in terms if t])
     def __hash__(self):
-        x = (self.__class__, self.subexpr, self.coeffs)
+        # Equal numbers of different types may hash differently.
+        coeffs = tuple(float(c) for c in self.coeffs)
+        x = (self.__class__, self.subexpr, coeffs)
         return hash(x)
 
 # ==============================================================================
-- 
2.43.0


From 9ab2414c6a7a6a93c0a97310753e1b7bb81cf970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 45/57] fix: numeric solutions of polynomial inequalities
 without real zeros, with isolated solutions, with multiple roots

---
 src/poly.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/poly.py b/src/poly.py
index df634cd..18db594 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -58,28 +58,32 @@ def solve_poly_inequality_numerically(expr, b, strict):
     poly = expr - b
     symX = get_poly_symbol(expr)
     # Obtain numerical roots.
-    roots = sympy.nroots(poly)
-    zeros = sorted([r for r in roots if r.is_real])
-    if not zeros:
-        return sympy.EmptySet
+    zeros = get_real_zeros(poly, symX)
     # Construct intervals around roots.
     mk_intvl = lambda a, b: \
         Interval(a, b, left_open=strict, right_open=strict)
-    intervals = list(chain(
-        [mk_intvl(-oo, zeros[0])],
-        [mk_intvl(x, y) for x, y in zip(zeros, zeros[1:])],
-        [mk_intvl(zeros[-1], oo)]))
+    ends = list(chain([-oo], zeros, [oo]))
+    intervals = [mk_intvl(x, y) for x, y in zip(ends, ends[1:])]
     # Define probe points.
     xs_probe = list(chain(
         [zeros[0] - 1/2],
-        [(i.left + i.right)/2 for i in intervals[1:-1]
-            if isinstance(i, Interval)],
-        [zeros[-1] + 1/2]))
+        [(x + y)/2 for x, y in zip(zeros, zeros[1:])],
+        [zeros[-1] + 1/2])) if zeros else [0]
     # Evaluate poly at the probe points.
     f_xs_probe = [poly.subs(symX, x) for x in xs_probe]
     # Return intervals where poly is less than zero.
     idxs = [i for i, fx in enumerate(f_xs_probe) if fx < 0]
-    return make_union(*[intervals[i] for i in idxs])
+    # Zeros are solutions (possibly isolated) unless the inequality is strict.
+    points = FiniteReal(*zeros) if zeros and not strict else EmptySet
+    return make_union(points, *[intervals[i] for i in idxs])
+
+def get_real_zeros(poly, symX):
+    # Distinct real zeros; numerical root finding is inaccurate for multiple
+    # roots, which are removed exactly.
+    exact = lambda c: c if c.is_Rational else sympy.Rational(float(c))
+    coeffs = sympy.Poly(poly, symX).all_coeffs()
+    roots = sympy.Poly([exact(c) for c in coeffs], symX).sqf_part().nroots()
+    return sorted(r for r in roots if r.is_real)
 
 def solve_poly_inequality_inf(expr, b, strict, extended=None):
     # Minimum value of polynomial is negative infinity.
@@ -126,9 +130,8 @@ def solve_poly_equality_symbolically(expr, b):
     return sympy.Intersection(soln_lt, soln_gt)
 
 def solve_poly_equality_numerically(expr, b):
-    roots = sympy.nroots(expr-b)
-    zeros = [r for r in roots if r.is_real]
-    return FiniteReal(*zeros)
+    zeros = get_real_zeros(expr - b, get_poly_symbol(expr))
+    return FiniteReal(*zeros) if zeros else EmptySet
 
 def solve_poly_equality_inf(expr, b):
     assert isinf(b)
-- 
2.43.0


From a9cc34b523604afd371243c74a45eb4f5a0074b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:08 +0000
Subject: [PATCH 46/57] fix: solve polynomials numerically when the symbolic
 solver fails

---
 src/poly.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/poly.py b/src/poly.py
index 18db594..4fc1f64 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -8,6 +8,7 @@ from math import isinf
 
 import sympy
 
+from mpmath.libmp import NoConvergence
 from sympy.calculus.util import limit
 
 from .sets import EmptySet
@@ -23,6 +24,10 @@ from .timeout import timeout
 
 TIMEOUT_SYMBOLIC = 5
 
+# Failures of the symbolic solver, after which the numeric one is used; sympy
+# cannot compare some expressions (TypeError) or find roots (NoConvergence).
+SYMBOLIC_ERRORS = (TimeoutError, NoConvergence, NotImplementedError, TypeError)
+
 def get_poly_symbol(expr):
     symbols = tuple(get_symbols(expr))
     assert len(symbols) == 1
@@ -42,7 +47,7 @@ def solve_poly_inequality(expr, b, strict, extended=None):
     try:
         with timeout(seconds=TIMEOUT_SYMBOLIC):
             result_symbolic = solve_poly_inequality_symbolically(expr, b, strict)
-    except TimeoutError:
+    except SYMBOLIC_ERRORS:
         result_symbolic = None
     if result_symbolic is not None:
         if not isinstance(result_symbolic, (sympy.ConditionSet, sympy.Intersection)):
@@ -116,7 +121,7 @@ def solve_poly_equality(expr, b):
     try:
         with timeout(seconds=TIMEOUT_SYMBOLIC):
             result_symbolic = solve_poly_equality_symbolically(expr, b)
-    except TimeoutError:
+    except SYMBOLIC_ERRORS:
         result_symbolic = None
     if result_symbolic is not None:
         if not isinstance(result_symbolic, (sympy.ConditionSet, sympy.Intersection)):
-- 
2.43.0


From 56a3eee5936f5e1c12180771a730f0d22a20a8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:02 +0000
Subject: [PATCH 47/57] fix: invert disjunctions and conjunctions of events at
 zero

---
 src/transforms.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 7f434e9..7d4fcc0 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -1133,10 +1133,14 @@ class EventOr(EventCompound):
     def finv(self, y):
         # Cannot invert multi-symbol Event.
         xs_list = [event.finv(y) for event in self.subexprs]
-        return make_union(*xs_list)
+        return make_intersection(*xs_list) if y == 0 else make_union(*xs_list)
     def invert_finite(self, ys):
-        xs_list = [event.invert(ys) for event in self.subexprs]
-        return make_union(*xs_list)
+        # False if and only if all the events are false.
+        ones = make_union(*[
+            event.invert(ys & FiniteReal(1)) for event in self.subexprs])
+        zeros = make_intersection(*[
+            event.invert(ys & FiniteReal(0)) for event in self.subexprs])
+        return ones | zeros
 
     # Event methods.
     def to_dnf_list(self):
@@ -1183,10 +1187,14 @@ class EventAnd(EventCompound):
     def finv(self, y):
         # Cannot invert multi-symbol Event.
         xs_list = [event.finv(y) for event in self.subexprs]
-        return make_intersection(*xs_list)
+        return make_union(*xs_list) if y == 0 else make_intersection(*xs_list)
     def invert_finite(self, ys):
-        xs_list = [event.invert(ys) for event in self.subexprs]
-        return make_intersection(*xs_list)
+        # False if and only if some event is false.
+        ones = make_intersection(*[
+            event.invert(ys & FiniteReal(1)) for event in self.subexprs])
+        zeros = make_union(*[
+            event.invert(ys & FiniteReal(0)) for event in self.subexprs])
+        return ones | zeros
 
     # Event methods.
     def to_dnf_list(self):
-- 
2.43.0


From 5d804a33f6247d309534255f25e8260d88e03a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 48/57] fix: reject illegal parameters of primitive
 distributions

---
 src/distributions.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/distributions.py b/src/distributions.py
index 355e911..c4e9acb 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -1,6 +1,9 @@
 # Copyright 2020 MIT Probabilistic Computing Project.
 # See LICENSE.txt
 
+from math import inf
+from math import isnan
+
 import scipy.stats
 import sympy
 
@@ -27,8 +30,8 @@ class NominalDistribution(Distribution):
 choice = NominalDistribution
 
 def floatify(x):
-    try              : return float(x)
-    except TypeError : return x
+    # Values of discrete distributions are sequences.
+    return x if isinstance(x, (list, tuple)) else float(x)
 
 class RealDistribution(Distribution):
     # pylint: disable=not-callable
@@ -39,8 +42,13 @@ class RealDistribution(Distribution):
         assert not args, 'Only keyword arguments allowed for %s' % (self.dist.name,)
         self.kwargs = {k: floatify(v) for k, v in kwargs.items()}
     def __call__(self, symbol):
+        dist = self.dist(**self.kwargs)
+        # The cdf is nan everywhere if a parameter is illegal.
+        if isnan(dist.cdf(-inf)):
+            raise ValueError('illegal parameters for %s: %s'
+                % (self.dist.name, self.kwargs))
         domain = self.get_domain()
-        return self.constructor(symbol, self.dist(**self.kwargs), domain)
+        return self.constructor(symbol, dist, domain)
     def get_domain(self):
         raise NotImplementedError()
 
-- 
2.43.0


From c198510e0501fc95828f917c845db9b2996e3a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:28 +0000
Subject: [PATCH 49/57] fix: reject observations of unknown variables of a
 product

---
 src/spe.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spe.py b/src/spe.py
index 31ac10f..eec79e4 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -595,6 +595,7 @@ class ProductSPE(BranchSPE):
 
     @memoize
     def constrain_mem(self, assignment, memo):
+        assert all(symbol in self.get_symbols() for symbol in assignment)
         children = []
         for spe in self.children:
             spe_constrain = spe
-- 
2.43.0


From b8fc4d237c30f6248c9ebecd146661c031156c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:18 +0000
Subject: [PATCH 50/57] fix: reject nan, complex and infinite coefficients, and
 roots of degree not positive

---
 src/sets.py       | 1 +
 src/sym_util.py   | 7 +++++--
 src/transforms.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index 36bc1b3..4ef4198 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -107,6 +107,7 @@ class FiniteNominal(Set):
 class FiniteReal(Set):
     def __init__(self, *values):
         assert values
+        assert all(v == v for v in values), 'nan is not a number'
         self.values = frozenset(unique_numbers(values))
     def __contains__(self, x):
         # inf == oo but hash(inf) != hash(oo)
diff --git a/src/sym_util.py b/src/sym_util.py
index fe09d36..36928e4 100644
--- a/src/sym_util.py
+++ b/src/sym_util.py
@@ -64,16 +64,19 @@ def partition_finite_real_contiguous(x):
     return [FiniteReal(*v) for v in blocks]
 
 def sympify_number(x):
+    msg = 'Expected a numeric term, not %s' % (x,)
     if isinstance(x, (int, float)):
+        if x != x:
+            raise TypeError(msg)
         return x
-    msg = 'Expected a numeric term, not %s' % (x,)
     try:
         # String fallback in sympify has been deprecated since SymPy 1.6. Use
         # sympify(str(obj)) or sympy.core.sympify.converter or obj._sympy_
         # instead. See https://github.com/sympy/sympy/issues/18066 for more
         # info.
         sym = sympy.sympify(str(x))
-        if not sym.is_number:
+        if not sym.is_number or sym is sympy.nan \
+                or sym.is_extended_real is False:
             raise TypeError(msg)
         return sym
     except (sympy.SympifyError, AttributeError, TypeError):
diff --git a/src/transforms.py b/src/transforms.py
index 7d4fcc0..3101339 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -416,7 +416,7 @@ class Identity(Injective):
 
 class Radical(Injective):
     def __init__(self, subexpr, degree):
-        assert degree != 0
+        assert degree == int(degree) and degree > 0
         self.subexpr = make_subexpr(subexpr, self)
         self.degree = degree
     def domain(self):
@@ -643,6 +643,8 @@ class Reciprocal(Transform):
 class Poly(Transform):
     def __init__(self, subexpr, coeffs):
         assert len(coeffs) > 1
+        if any(c in (oo, -oo) for c in coeffs):
+            raise ValueError('Coefficients must be finite, not %s' % (coeffs,))
         self.subexpr = make_subexpr(subexpr, self)
         self.coeffs = tuple(coeffs)
         self.degree = len(coeffs) - 1
-- 
2.43.0


From c0900d1a417e6835a0ebd73d80ae5aba49b88a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:19 +0000
Subject: [PATCH 51/57] fix: Complement of a finite set of reals holding
 infinity

---
 src/sets.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index 4ef4198..c453902 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -3,6 +3,7 @@
 
 from functools import reduce
 from itertools import chain
+from math import isinf
 
 from .math_util import int_or_isinf_neg
 from .math_util import int_or_isinf_pos
@@ -113,7 +114,10 @@ class FiniteReal(Set):
         # inf == oo but hash(inf) != hash(oo)
         return any(x == v for v in self.values)
     def __invert__(self):
-        values = sorted(self.values)
+        # The complement is within the reals, which do not hold infinity.
+        values = sorted(x for x in self.values if not isinf(x))
+        if not values:
+            return Reals
         intervals = chain(
             # Left-infinity interval.
             [Interval.Ropen(-inf, values[0])],
-- 
2.43.0


From a15d44c648e4127057605309bba1be63a6780f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 52/57] fix: unique names of graph nodes whatever the clock

---
 magics/render.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/magics/render.py b/magics/render.py
index 98944fe..1aaa32f 100644
--- a/magics/render.py
+++ b/magics/render.py
@@ -1,9 +1,9 @@
 # Copyright 2020 MIT Probabilistic Computing Project.
 # See LICENSE.txt
 
+import itertools
 import os
 import tempfile
-import time
 
 from math import exp
 
@@ -16,7 +16,8 @@ from sppl.spe import ProductSPE
 from sppl.spe import RealLeaf
 from sppl.spe import SumSPE
 
-gensym = lambda: 'r%s' % (str(time.time()).replace('.', ''),)
+counter = itertools.count()
+gensym = lambda: 'r%d' % (next(counter),)
 
 def render_networkx_graph(spe):
     if isinstance(spe, NominalLeaf):
-- 
2.43.0


From 44538f3fa37106414e60136f93615019f8e6d24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 53/57] fix: show derived variables of atomic leaves in graphs

---
 magics/render.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/magics/render.py b/magics/render.py
index 1aaa32f..a00930a 100644
--- a/magics/render.py
+++ b/magics/render.py
@@ -19,6 +19,13 @@ from sppl.spe import SumSPE
 counter = itertools.count()
 gensym = lambda: 'r%d' % (next(counter),)
 
+def add_transforms(G, root, spe):
+    for k, v in spe.env.items():
+        if k != spe.symbol:
+            roott = gensym()
+            G.add_node(roott, label=str(v), style='filled')
+            G.add_edge(root, roott, label=' %s' % (str(k),), style='dashed')
+
 def render_networkx_graph(spe):
     if isinstance(spe, NominalLeaf):
         G = nx.DiGraph()
@@ -30,18 +37,14 @@ def render_networkx_graph(spe):
         root = gensym()
         G.add_node(root, label='%s\n%s(%s)'
             % (spe.symbol.token, 'Atomic', str(spe.value)))
+        add_transforms(G, root, spe)
         return G
     if isinstance(spe, RealLeaf):
         G = nx.DiGraph()
         root = gensym()
         kwds = '\n%s' % (tuple(spe.dist.kwds.values()),) if spe.dist.kwds else ''
         G.add_node(root, label='%s\n%s%s' % (spe.symbol.token, spe.dist.dist.name, kwds))
-        if len(spe.env) > 1:
-            for k, v in spe.env.items():
-                if k != spe.symbol:
-                    roott = gensym()
-                    G.add_node(roott, label=str(v), style='filled')
-                    G.add_edge(root, roott, label=' %s' % (str(k),), style='dashed')
+        add_transforms(G, root, spe)
         return G
     if isinstance(spe, SumSPE):
         G = nx.DiGraph()
-- 
2.43.0


From 9aa26e824398eade87f1cf90a4daf7232d178b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 54/57] fix: accept additional spaces around names in notebook
 commands

---
 magics/magics.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/magics/magics.py b/magics/magics.py
index d70a7ec..cacb9d7 100644
--- a/magics/magics.py
+++ b/magics/magics.py
@@ -25,11 +25,13 @@ class SPPL_Magics(Magics):
 
     @line_magic
     def sppl_get_spe(self, line):
+        line = line.strip()
         assert line in self.programs, 'unknown program %s' % (line,)
         return getattr(self.programs[line].namespace, line)
 
     @cell_magic
     def sppl(self, line, cell):
+        line = line.strip()
         if not line:
             sys.stderr.write('specify model name after %%sppl')
             return
@@ -41,14 +43,15 @@ class SPPL_Magics(Magics):
 
     @line_magic
     def sppl_to_python(self, line):
+        line = line.strip()
         assert line in self.programs, 'unknown program %s' % (line,)
         print(self.programs[line].compiler.render_module())
 
     @needs_local_scope
     @line_magic
     def sppl_to_graph(self, line, local_ns):
-        tokens = line.strip().split(' ')
-        line = tokens[0]
+        tokens = line.split()
+        line = tokens[0] if tokens else ''
         filename = tokens[1] if len(tokens) == 2 else None
         if line in self.programs:
             spe = self.sppl_get_spe(line)
@@ -60,5 +63,6 @@ class SPPL_Magics(Magics):
 
     @line_magic
     def sppl_get_namespace(self, line):
+        line = line.strip()
         assert line in self.programs, 'unknown program %s' % (line,)
         return self.programs[line].namespace
-- 
2.43.0


From 91b2ffbefcc4979c1f598146882812ccb90ffa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 55/57] fix: render outcomes and weights of discrete
 distributions

---
 magics/render.py |  6 ++++--
 src/render.py    | 11 +++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/magics/render.py b/magics/render.py
index a00930a..8e5a420 100644
--- a/magics/render.py
+++ b/magics/render.py
@@ -10,6 +10,7 @@ from math import exp
 import graphviz
 import networkx as nx
 
+from sppl.render import render_dist
 from sppl.spe import AtomicLeaf
 from sppl.spe import NominalLeaf
 from sppl.spe import ProductSPE
@@ -42,8 +43,9 @@ def render_networkx_graph(spe):
     if isinstance(spe, RealLeaf):
         G = nx.DiGraph()
         root = gensym()
-        kwds = '\n%s' % (tuple(spe.dist.kwds.values()),) if spe.dist.kwds else ''
-        G.add_node(root, label='%s\n%s%s' % (spe.symbol.token, spe.dist.dist.name, kwds))
+        name, _args, kwds = render_dist(spe.dist)
+        kwds = '\n%s' % (tuple(kwds.values()),) if kwds else ''
+        G.add_node(root, label='%s\n%s%s' % (spe.symbol.token, name, kwds))
         add_transforms(G, root, spe)
         return G
     if isinstance(spe, SumSPE):
diff --git a/src/render.py b/src/render.py
index 7493e8e..3cdb3e1 100644
--- a/src/render.py
+++ b/src/render.py
@@ -24,6 +24,13 @@ def render_nested_lists_concise(spe):
             [render_nested_lists_concise(c) for c in spe.children]
         ]
 
+def render_dist(dist):
+    if hasattr(dist.dist, 'xk'):
+        # Built from values, which are not in args or kwds.
+        values = (dist.dist.xk.tolist(), dist.dist.pk.tolist())
+        return ('rv_discrete', dist.args, dict(dist.kwds, values=values))
+    return (dist.dist.name, dist.args, dist.kwds)
+
 def render_nested_lists(spe):
     if isinstance(spe, NominalLeaf):
         return ['NominalLeaf', [
@@ -41,14 +48,14 @@ def render_nested_lists(spe):
         return ['RealLeaf', [
             ['symbol', spe.symbol],
             ['env', dict(spe.env)],
-            ['dist', (spe.dist.dist.name, spe.dist.args, spe.dist.kwds)],
+            ['dist', render_dist(spe.dist)],
             ['support', spe.support],
             ['conditioned', spe.conditioned]]
         ]
     if isinstance(spe, DiscreteLeaf):
         return ['DiscreteLeaf', [
             ['symbol', spe.symbol],
-            ['dist', (spe.dist.dist.name, spe.dist.args, spe.dist.kwds)],
+            ['dist', render_dist(spe.dist)],
             ['support', spe.support],
             ['conditioned', spe.conditioned]]
         ]
-- 
2.43.0


From 2d0ecd883b978098f7b78338c385fc42e694639e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:53 +0000
Subject: [PATCH 56/57] fix: logarithms of roots of rational numbers are exact

---
 src/sym_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sym_util.py b/src/sym_util.py
index 36928e4..5f51ef0 100644
--- a/src/sym_util.py
+++ b/src/sym_util.py
@@ -94,10 +94,10 @@ def sym_log_base(x, base):
     """Logarithm of x, exact when x and base are powers of the same number."""
     (x, base) = (sympy.sympify(x), sympy.sympify(base))
     y = sympy.log(x, base)
-    if y.is_Rational or not (x.is_Rational and base.is_Rational):
+    if y.is_Rational or x.is_Float or not (x.is_algebraic and base.is_Rational):
         return y
     r = sympy.Rational(float(y)).limit_denominator(64)
-    if abs(r.p) <= 64 and base**r.p == x**r.q:
+    if abs(r.p) <= 64 and base**r.p == sympy.expand(x**r.q):
         return r
     return y
 
-- 
2.43.0


From 8bf4d2b03cf59f9006ad29d347ecdc61d7dffb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:37 +0000
Subject: [PATCH 57/57] fix: compare interval ends by order, as numbers of
 different types may not compare equal

---
 src/sets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index c453902..86b5730 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -217,11 +217,11 @@ class Interval(Set):
             if (self.a in x) and (self.b in x):
                 return self
             if x.a in self:
-                if self.b == x.a:
+                if not x.a < self.b:
                     return FiniteReal(x.a) if x.a in x else EmptySet
                 return Interval(x.a, self.b, left_open=x.left_open, right_open=self.right_open)
             if x.b in self:
-                if self.a == x.b:
+                if not self.a < x.b:
                     return FiniteReal(x.b) if x.b in x else EmptySet
                 return Interval(self.a, x.b, left_open=self.left_open, right_open=x.right_open)
             if self.a == x.a:
-- 
2.43.0

