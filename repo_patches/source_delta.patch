From a4b87b1c9c35fc83f27b3684ec9b4404078ec182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 01/91] fix: deleting from a KeyDict keeps its name index
 consistent

Deleting a key that had not been indexed yet left its names behind, a failed
deletion by name made that name look present, deleting one element of a
vector made the others inaccessible, could write into an array shared with
another KeyDict, and did not accept the names of elements in substitutions.
---
 gpkit/keydict.py | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index bc86f5d..6fc5c67 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -250,33 +250,34 @@ class KeyDict(KeyMap, dict):
         "Overloads del [] to work with all keys"
         if not hasattr(key, "key"):  # not a keyed object
             self.update_keymap()
-            keys = self.keymap[key]
+            keys = self.keymap.get(key)
+            if not keys and self.cset is not None:
+                keys = self.cset.varkeys.keymap.get(key)  # name of an element?
             if not keys:
                 raise KeyError(key)
-            for k in keys:
+            for k in list(keys):
                 del self[k]
         else:
-            key = key.key
-            veckey, idx = self.parse_and_index(key)
-            if idx is None:
-                super().__delitem__(key)
-            else:
-                super().__getitem__(veckey)[idx] = np.nan
-                if isnan(super().__getitem__(veckey)).all():
-                    super().__delitem__(veckey)
-            copiedonwrite = set()  # to save time, .update() does not copy
+            key, idx = self.parse_and_index(key)
+            if idx is not None:
+                self._copyonwrite(key)
+                super().__getitem__(key)[idx] = np.nan
+                if not isnan(super().__getitem__(key)).all():
+                    return  # other elements still have values
+            super().__delitem__(key)
+            self.owned.discard(key)
+            self._unmapped_keys.discard(key)
             mapkeys = set([key])
             if key.keys:
                 mapkeys.update(key.keys)
             for mapkey in mapkeys:
                 if mapkey in self.keymap:
-                    if len(self.keymap[mapkey]) == 1:
+                    # to save time .update() does not copy, so we do it here
+                    otherkeys = self.keymap[mapkey] - {key}
+                    if otherkeys:
+                        self.keymap[mapkey] = otherkeys
+                    else:
                         del self.keymap[mapkey]
-                        continue
-                    if mapkey not in copiedonwrite:
-                        self.keymap[mapkey] = set(self.keymap[mapkey])
-                        copiedonwrite.add(mapkey)
-                    self.keymap[mapkey].remove(key)
 
 
 class KeySet(KeyMap, set):
-- 
2.43.0


From e15da3e884adc4810009e5867ce9e16b5ccf33f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 02/91] fix: names shared by several scalars are ambiguous in
 substitutions

They were resolved to the (absent) vector key of those scalars, None, so that
looking them up, setting or deleting them failed with unrelated errors.
---
 gpkit/keydict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 6fc5c67..879e909 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -69,7 +69,8 @@ class KeyMap:
             raise KeyError(key)
         newkey, *otherkeys = self.cset.varkeys[key]
         if otherkeys:
-            if all(k.veckey == newkey.veckey for k in otherkeys):
+            if newkey.veckey and all(k.veckey == newkey.veckey
+                                     for k in otherkeys):
                 return newkey.veckey, None
             raise ValueError("%s refers to multiple keys in this substitutions"
                              " KeyDict. Use `.variables_byname(%s)` to see all"
-- 
2.43.0


From bdb88868b282d8f6f19ff59ab38d10133f3350b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:24 +0000
Subject: [PATCH 03/91] fix: keep the values of vector variables at full
 precision

Broadcast scalars and integer arrays were stored in single precision, and
lists of integers as integers, truncating elements set later; replacing
linked functions by an array of numbers was a TypeError.
---
 gpkit/keydict.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 879e909..1065a08 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -227,12 +227,13 @@ class KeyDict(KeyMap, dict):
         if key.shape: # now if we're setting an array...
             if getattr(value, "shape", None):   # is the value an array?
                 if value.dtype == INT_DTYPE:
-                    value = np.array(value, "f")  # convert to float
+                    value = np.array(value, float)
                 if dict.__contains__(self, key):
                     old = super().__getitem__(key)
                     if old.dtype != value.dtype:
                         # e.g. replacing a number with a linked function
-                        newly_typed_array = np.array(old, dtype=value.dtype)
+                        dtype = np.result_type(old, value)
+                        newly_typed_array = np.array(old, dtype=dtype)
                         super().__setitem__(key, newly_typed_array)
                         self.owned.add(key)
                     self._copyonwrite(key)
@@ -241,9 +242,11 @@ class KeyDict(KeyMap, dict):
                     return  # successfully set only some indexes!
             elif not is_sweepvar(value): # or needs to be made one?
                 if not hasattr(value, "__len__"):
-                    value = np.full(key.shape, value, "f")
+                    value = np.full(key.shape, value, float)
                 elif not isinstance(value[0], np.ndarray):
                     value = np.array([clean_value(key, v) for v in value])
+                    if value.dtype == INT_DTYPE:
+                        value = np.array(value, float)
         super().__setitem__(key, value)
         self.owned.add(key)
 
-- 
2.43.0


From c583a7c4e4ae34a7765362c99a6bb1d7dace7b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 04/91] fix: KeyDicts never write to an array another KeyDict
 or the caller holds

Copying a KeyDict shared its arrays while the original still considered them
its own, and an array given as a value was stored without being copied.
---
 gpkit/keydict.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 1065a08..2b4d1aa 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -152,6 +152,8 @@ class KeyDict(KeyMap, dict):
             super().update(args[0])
             self.keymap.update(args[0].keymap)
             self._unmapped_keys.update(args[0]._unmapped_keys)  # pylint:disable=protected-access
+            # arrays are now shared, so neither may write to them in place
+            self.owned, args[0].owned = set(), set()
         else:
             for k, v in dict(*args, **kwargs).items():
                 self[k] = v
@@ -240,6 +242,7 @@ class KeyDict(KeyMap, dict):
                     goodvals = ~isnan(value)
                     super().__getitem__(key)[goodvals] = value[goodvals]
                     return  # successfully set only some indexes!
+                value = value.copy()  # the original may be used elsewhere
             elif not is_sweepvar(value): # or needs to be made one?
                 if not hasattr(value, "__len__"):
                     value = np.full(key.shape, value, float)
-- 
2.43.0


From 09b087ed4e89dff94ef40804eb4a50412ff1a82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:05 +0000
Subject: [PATCH 05/91] fix: looking up an unknown name in a KeySet does not
 add it

---
 gpkit/keydict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 2b4d1aa..0779779 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -301,4 +301,4 @@ class KeySet(KeyMap, set):
     def __getitem__(self, key):
         "Gets the keys corresponding to a particular key."
         key, _ = self.parse_and_index(key)
-        return self.keymap[key]
+        return self.keymap.get(key, set())
-- 
2.43.0


From beebc6d9e6392a2702043a8d7a415c8bc191305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:53 +0000
Subject: [PATCH 06/91] fix: substitutions can be deleted by the name of a
 vector's element

---
 gpkit/keydict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 0779779..ccecc4d 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -259,7 +259,7 @@ class KeyDict(KeyMap, dict):
             self.update_keymap()
             keys = self.keymap.get(key)
             if not keys and self.cset is not None:
-                keys = self.cset.varkeys.keymap.get(key)  # name of an element?
+                keys = self.cset.varkeys[key]  # the name of an element?
             if not keys:
                 raise KeyError(key)
             for k in list(keys):
-- 
2.43.0


From c6894c73182179b684aefd1c6bf9adcc1bc5af92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:28 +0000
Subject: [PATCH 07/91] fix: leaving a nested SignomialsEnabled keeps
 signomials enabled outside it

---
 gpkit/globals.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gpkit/globals.py b/gpkit/globals.py
index 62b5bff..1be7c53 100644
--- a/gpkit/globals.py
+++ b/gpkit/globals.py
@@ -65,9 +65,15 @@ class SignomialsEnabled(metaclass=SignomialsEnabledMeta):  # pylint: disable=no-
         >>> gpkit.Model(x, constraints).localsolve()
     """
     _true = False  # default signomial permissions
-    # pylint: disable=multiple-statements
-    def __enter__(self): SignomialsEnabled._true = True
-    def __exit__(self, type_, val, traceback): SignomialsEnabled._true = False
+    _enclosing = ()  # permissions outside each environment now entered
+
+    def __enter__(self):
+        SignomialsEnabled._enclosing += (SignomialsEnabled._true,)
+        SignomialsEnabled._true = True
+
+    def __exit__(self, type_, val, traceback):
+        *enclosing, SignomialsEnabled._true = SignomialsEnabled._enclosing
+        SignomialsEnabled._enclosing = tuple(enclosing)
 
 
 class Vectorize:
-- 
2.43.0


From 3cb2651f44d707666cd489f054be94780e575833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 08/91] fix: expressions that cancel completely are zero and
 can be used further; p**0 is one

---
 gpkit/nomials/map.py  | 4 ++++
 gpkit/nomials/math.py | 7 ++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 5c05a6a..6ed5b64 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -60,6 +60,10 @@ class NomialMap(HashVector):
             except (TypeError, AttributeError):  # if one of those is None
                 raise DimensionalityError(self.units, other.units)
         hmap = HashVector.__add__(self, other)
+        if not hmap:  # make sure it's never an empty hmap
+            hmap[EMPTY_HV] = 0.0
+        elif len(hmap) > 1 and not hmap.get(EMPTY_HV, 1):
+            del hmap[EMPTY_HV]  # remove zeros that became superfluous
         hmap.units = self.units
         return hmap
 
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index d9142b1..e14f217 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -218,6 +218,8 @@ class Signomial(Nomial):
                         hmap[exp] = accumulated + new
                     elif accumulated:
                         del hmap[exp]
+            if not hmap:  # make sure it's never an empty hmap
+                hmap[EMPTY_HV] = 0.0
             hmap.units_of_product(self.hmap.units, other.hmap.units)
             out = Signomial(hmap)
             out.ast = ("mul", astorder)
@@ -236,10 +238,9 @@ class Signomial(Nomial):
 
     def __pow__(self, expo):
         if isinstance(expo, int) and expo >= 0:
-            p = 1
-            while expo > 0:
+            p = Signomial(1)
+            for _ in range(expo):
                 p *= self
-                expo -= 1
             p.ast = ("pow", (self, expo))
             return p
         return NotImplemented
-- 
2.43.0


From 26e2939cf402e8f79aab5cf0054d7342063207ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 09/91] fix: comparing a monomial with something it can never
 equal gives False

---
 gpkit/nomials/math.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index e14f217..8275a6c 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -337,7 +337,8 @@ class Monomial(Posynomial):
         if isinstance(other, MONS):
             try:  # if both are monomials, return a constraint
                 return MonomialEquality(self, other)
-            except (DimensionalityError, ValueError) as e:
+            except (DimensionalityError, ValueError, ZeroDivisionError,
+                    InvalidPosynomial, PrimalInfeasible) as e:
                 print("Infeasible monomial equality: %s" % e)
                 return False
         return super().__eq__(other)
@@ -514,6 +515,8 @@ class MonomialEquality(PosynomialInequality):
     def __init__(self, left, right):
         # pylint: disable=super-init-not-called,non-parent-init-called
         ScalarSingleEquationConstraint.__init__(self, left, self.oper, right)
+        if self.left.any_nonpositive_cs or self.right.any_nonpositive_cs:
+            raise InvalidPosynomial("each c must be positive.")
         self.unsubbed = self._gen_unsubbed(self.left, self.right)
         self.bounded = set()
         self.meq_bounded = {}
-- 
2.43.0


From cbcd6ba4b5b0c90b9aba9943c95c6ba2b8dbf7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:45 +0000
Subject: [PATCH 10/91] fix: dividing zero by a monomial, and sums and products
 of arrays containing zeros

---
 gpkit/nomials/array.py | 4 +++-
 gpkit/nomials/math.py  | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index b276f5a..23ab622 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -164,6 +164,8 @@ class NomialArray(ReprMixin, np.ndarray):
                 elif hmap.units and p and not np.isnan(p):
                     p /= float(hmap.units)
                 hmap[EMPTY_HV] = p + hmap.get(EMPTY_HV, 0)
+        if len(hmap) > 1 and not hmap.get(EMPTY_HV, 1):
+            del hmap[EMPTY_HV]  # remove zeros that became superfluous
         out = Signomial(hmap)
         out.ast = ("sum", (self, None))
         return out
@@ -185,7 +187,7 @@ class NomialArray(ReprMixin, np.ndarray):
             exp += mexp
             if m.units:
                 hmap.units = (hmap.units or 1) * m.units
-        hmap[exp] = c
+        hmap[exp if c else EMPTY_HV] = c
         out = Signomial(hmap)
         out.ast = ("prod", (self, None))
         return out
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 8275a6c..1a6ed79 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -313,6 +313,8 @@ class Monomial(Posynomial):
 
     def __rtruediv__(self, other):
         "Divide other by this Monomial"
+        if isinstance(other, Numbers) and not other:  # other is zero
+            return other
         if isinstance(other, Numbers + (Signomial,)):
             out = other * self**-1
             out.ast = ("div", (other, self))
-- 
2.43.0


From 7aad4815d0d559b39818b633e0d397a86d120e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 11/91] fix: scalar quantities can be substituted for vector
 variables

---
 gpkit/nomials/substitution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/substitution.py b/gpkit/nomials/substitution.py
index 4e26b9a..eaef8ff 100644
--- a/gpkit/nomials/substitution.py
+++ b/gpkit/nomials/substitution.py
@@ -1,7 +1,7 @@
 "Scripts to parse and collate substitutions"
 import warnings as pywarnings
 import numpy as np
-from ..small_scripts import splitsweep
+from ..small_scripts import mag, splitsweep
 from ..keydict import KeySet
 
 
@@ -38,7 +38,9 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
     if sweepsub:  # if the whole key is swept
         sub = sweepval
     for key in keys:
-        if not key.shape or not getattr(sub, "shape", hasattr(sub, "__len__")):
+        magn = mag(sub)  # NOTE: all Quantities have a __len__ attribute
+        if not key.shape or not getattr(magn, "shape",
+                                        hasattr(magn, "__len__")):
             value = sub
         else:
             with pywarnings.catch_warnings():
-- 
2.43.0


From d43a588c1ed28b2d3f22d0c5f439218f3bb8cca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 12/91] fix: printed expressions keep all the parentheses they
 need

---
 gpkit/repr_conventions.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 1f07615..2097030 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -5,7 +5,10 @@ import numpy as np
 from .small_classes import Quantity, Numbers
 from .small_scripts import try_str_without
 
-INSIDE_PARENS = re.compile(r"\(.*\)")
+INSIDE_PARENS = re.compile(r"\([^()]*\)")
+
+BARE_POWER = re.compile("[%s]$|\\^[^()]*$" % "".join(
+    [chr(176+x) for x in (2, 3)] + [chr(8304+x) for x in range(4, 10)]))
 
 if sys.platform[:3] == "win":  # pragma: no cover
     MUL = "*"
@@ -72,7 +75,9 @@ def strify(val, excluded):
 
 def parenthesize(string, addi=True, mult=True):
     "Parenthesizes a string if it needs it and isn't already."
-    parensless = string if "(" not in string else INSIDE_PARENS.sub("", string)
+    parensless = string
+    while INSIDE_PARENS.search(parensless):  # from the innermost outwards
+        parensless = INSIDE_PARENS.sub("", parensless)
     bare_addi = (" + " in parensless or " - " in parensless)
     bare_mult = ("·" in parensless or "/" in parensless)
     if parensless and (addi and bare_addi) or (mult and bare_mult):
@@ -126,6 +131,8 @@ class ReprMixin:
             aststr = "-%s" % parenthesize(strify(values, excluded), mult=False)
         elif oper == "pow":
             left = parenthesize(strify(values[0], excluded))
+            if left[0] == "-" or BARE_POWER.search(left):
+                left = "(%s)" % left
             x = values[1]
             if left == "1":
                 aststr = "1"
-- 
2.43.0


From 7352677ef63c114f5de6306aa2a97b87cc234c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:36 +0000
Subject: [PATCH 13/91] fix: inequalities keep terms whose exponents coincide
 after division

---
 gpkit/nomials/math.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 1a6ed79..3b94cb1 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -461,9 +461,7 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
         except ValueError:
             raise TypeError("greater-than side '%s' is not monomial." % m_gt)
         m_c *= units.of_division(m_gt, p_lt)
-        hmap = p_lt.hmap.copy()
-        for exp in list(hmap):
-            hmap[exp-m_exp] = hmap.pop(exp)/m_c
+        hmap = NomialMap({exp-m_exp: c/m_c for exp, c in p_lt.hmap.items()})
         hmap = self._simplify_posy_ineq(hmap)
         return [Posynomial(hmap)] if hmap else []
 
-- 
2.43.0


From bb8079c3bb188b337ace291d7bf12cd0a23e4f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 14/91] fix: constraints whose every term is substituted with
 zero are always true

---
 gpkit/nomials/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 6ed5b64..cbce8e6 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -160,8 +160,8 @@ class NomialMap(HashVector):
         origexps = list(orig.keys())
         selfexps = list(self.keys())
         for orig_exp, self_exp in self.expmap.items():
-            if self_exp not in self:  # can occur in tautological constraints
-                continue              #     after substitution
+            if not self.get(self_exp):  # can occur in tautological constraints
+                continue                #     after substitution
             fraction = self.csmap.get(orig_exp, orig[orig_exp])/self[self_exp]
             orig_idx = origexps.index(orig_exp)
             pmap[selfexps.index(self_exp)][orig_idx] = fraction
-- 
2.43.0


From fbf7b134eb99468df78d7689b8604df67ca1a6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 15/91] fix: inequalities that are infeasible, one-sided or
 infeasible only at the default guess

---
 gpkit/nomials/math.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 3b94cb1..e0fd33d 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -415,6 +415,8 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
         else:
             raise ValueError("operator %s is not supported." % self.oper)
 
+        if self.left.any_nonpositive_cs or self.right.any_nonpositive_cs:
+            raise InvalidPosynomial("each c must be positive.")
         self.unsubbed = self._gen_unsubbed(p_lt, m_gt)
         self.bounded = set()
         for p in self.unsubbed:
@@ -433,7 +435,7 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
             self.const_coeff = coeff  # pylint: disable=attribute-defined-outside-init
         if coeff >= -self.feastol and len(hmap) == 1:
             return None   # a tautological monomial!
-        if coeff < -self.feastol:
+        if coeff < -self.feastol or (coeff <= 0 and len(hmap) > 1):
             msg = "'%s' is infeasible by %.2g%%" % (self, -coeff*100)
             if fixed:
                 msg += " after substituting %s." % fixed
@@ -580,7 +582,20 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         else:
             raise ValueError("operator %s is not supported." % self.oper)
         self.unsubbed = [plt - pgt]
-        self.bounded = self.as_gpconstr({}).bounded
+        self.bounded = set()
+        if self._two_sided:
+            posy, negy = self.unsubbed[0].posy_negy()
+            # as bounded by the approximation about the default guess of 1.0
+            approx = posy/negy.mono_lower_bound({vk: 1 for vk in negy.vks})
+            for exp in approx.hmap:
+                for vk, x in exp.items():
+                    self.bounded.add((vk, "upper" if x > 0 else "lower"))
+
+    @property
+    def _two_sided(self):
+        "False if the constraint is of the form 0 <= p or p <= 0"
+        cs = self.unsubbed[0].hmap.values()
+        return min(cs) < 0 < max(cs)
 
     def as_hmapslt1(self, substitutions):
         "Returns the posys <= 1 representation of this constraint."
@@ -679,7 +694,13 @@ class SingleSignomialEquality(SignomialInequality):
     def __init__(self, left, right):
         SignomialInequality.__init__(self, left, "<=", right)
         self.oper = "="
-        self.meq_bounded = self.as_gpconstr({}).meq_bounded
+        self.bounded = set()
+        if not self._two_sided:
+            raise PrimalInfeasible("'%s' can never hold" % self)
+        try:
+            self.meq_bounded = self.as_gpconstr({}).meq_bounded
+        except PrimalInfeasible:  # only about the default guess of 1.0
+            pass
 
     def as_hmapslt1(self, substitutions):
         "SignomialEquality is never considered GP-compatible"
@@ -691,6 +712,7 @@ class SingleSignomialEquality(SignomialInequality):
         posy, negy = siglt0.posy_negy()
         # default guess of 1.0 for unspecified negy variables
         x0 = {vk: x0.get(vk, 1) for vk in siglt0.vks}
-        mec = (posy.mono_lower_bound(x0) == negy.mono_lower_bound(x0))
+        mec = MonomialEquality(posy.mono_lower_bound(x0),
+                               negy.mono_lower_bound(x0))
         mec.generated_by = self
         return mec
-- 
2.43.0


From 8a75cdd31444ad321a21a54201614316b00e175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:31 +0000
Subject: [PATCH 16/91] fix: comparing a numpy number with an expression gives
 a constraint

---
 gpkit/nomials/math.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index e0fd33d..93552d7 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -35,6 +35,7 @@ class Signomial(Nomial):
         Monomial   (if the input has one term and only positive cs)
     """
     _c = _exp = None  # pylint: disable=invalid-name
+    __array_priority__ = -1  # above numpy's scalars, but below its arrays
 
     __hash__ = Nomial.__hash__
 
-- 
2.43.0


From dcf39a6e75bfe5765d37f431bc259d9b86f43edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 17/91] fix: sensitivities of a cost whose terms merge on
 substitution

---
 gpkit/constraints/gp.py | 9 ++++++---
 gpkit/nomials/map.py    | 3 +--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 06ed88b..828b9a9 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -5,7 +5,7 @@ from time import time
 from collections import defaultdict
 import numpy as np
 from ..repr_conventions import lineagestr
-from ..small_classes import CootMatrix, SolverLog, Numbers, FixedScalar
+from ..small_classes import CootMatrix, SolverLog, Numbers, FixedScalar, HashVector
 from ..keydict import KeyDict
 from ..solution_array import SolutionArray
 from .set import ConstraintSet
@@ -84,6 +84,7 @@ class GeometricProgram:
         cost_hmap = cost.hmap.sub(self.substitutions, cost.vks)
         if any(c <= 0 for c in cost_hmap.values()):
             raise InvalidPosynomial("a GP's cost must be Posynomial")
+        self.cost_mmap = cost_hmap.mmap(cost.hmap)  # terms may have merged
         hmapgen = ConstraintSet.as_hmapslt1(constraints, self.substitutions)
         self.hmaps = [cost_hmap] + list(hmapgen)
         self.gen()  # Generate various maps into the posy- and monomials
@@ -304,8 +305,10 @@ class GeometricProgram:
         result["variables"].update(result["constants"])
         result["sensitivities"] = {"constraints": {}}
         la, self.nu_by_posy = self._generate_nula(solver_out)
-        cost_senss = sum(nu_i*exp for (nu_i, exp) in zip(self.nu_by_posy[0],
-                                                         self.cost.hmap))
+        cost_exps, cost_senss = list(self.cost.hmap), HashVector()
+        for nu_i, mmap in zip(self.nu_by_posy[0], self.cost_mmap):
+            for idx, percentage in mmap.items():
+                cost_senss += percentage*nu_i*cost_exps[idx]
         gpv_ss = cost_senss.copy()
         m_senss = defaultdict(float)
         for las, nus, c in zip(la[1:], self.nu_by_posy[1:], self.hmaps[1:]):
diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index cbce8e6..7bf9fcc 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -110,8 +110,7 @@ class NomialMap(HashVector):
             fixed, _, _ = parse_subs(varkeys, substitutions)
 
         if not fixed:
-            if not self.expmap:
-                self.expmap, self.csmap = {exp: exp for exp in self}, {}
+            self.expmap, self.csmap = {exp: exp for exp in self}, {}
             return self
 
         cp = NomialMap()
-- 
2.43.0


From e6a8080f4c8f8386ad48c34757e9bb8358b17d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 18/91] fix: terms that merge before all of their constants are
 substituted keep their share

---
 gpkit/nomials/map.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 7bf9fcc..6c7a477 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -126,7 +126,6 @@ class NomialMap(HashVector):
                 if vk in fixed:
                     varlocs[vk].add((exp, new_exp))
 
-        squished = set()
         for vk in varlocs:
             exps, cval = varlocs[vk], fixed[vk]
             if hasattr(cval, "hmap"):
@@ -137,7 +136,7 @@ class NomialMap(HashVector):
             elif hasattr(cval, "to"):
                 cval = cval.to(vk.units or DIMLESS_QUANTITY).magnitude
             for o_exp, exp in exps:
-                subinplace(cp, exp, o_exp, vk, cval, squished)
+                subinplace(cp, exp, o_exp, vk, cval)
         return cp
 
     def mmap(self, orig):
@@ -168,7 +167,7 @@ class NomialMap(HashVector):
 
 
 # pylint: disable=invalid-name
-def subinplace(cp, exp, o_exp, vk, cval, squished):
+def subinplace(cp, exp, o_exp, vk, cval):
     "Modifies cp by substituing cval/expval for vk in exp"
     x = exp[vk]
     powval = float(cval)**x if cval != 0 or x >= 0 else np.sign(cval)*np.inf
@@ -179,7 +178,6 @@ def subinplace(cp, exp, o_exp, vk, cval, squished):
         del exp[vk]
         value = powval * c
         if exp in cp:
-            squished.add(exp.copy())
             currentvalue = cp[exp]
             if value != -currentvalue:
                 cp[exp] += value
@@ -189,6 +187,6 @@ def subinplace(cp, exp, o_exp, vk, cval, squished):
             cp[exp] = value
         if not cp:  # make sure it's never an empty hmap
             cp[EMPTY_HV] = 0.0
-    elif exp in squished:
+    else:  # already merged into, or cancelled by, another term
         exp.hashvalue ^= hash((vk, x))  # remove (key, value) from hashvalue
         del exp[vk]
-- 
2.43.0


From 0a3b1d7370b3d35066d143fc0709f85d4f17f2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:31 +0000
Subject: [PATCH 19/91] fix: a variable on both sides of a signomial constraint
 counts once in sensitivities

---
 gpkit/nomials/math.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 93552d7..fbfae3e 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -633,8 +633,7 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         self._negysig = Signomial(negy_hmap, require_positive=False)
         self._coeffsigs = {exp: Signomial(hmap, require_positive=False)
                            for exp, hmap in posy_hmaps.items()}
-        self._sigvars = {exp: (list(self._negysig.vks)
-                               + list(sig.vks))
+        self._sigvars = {exp: self._negysig.vks.union(sig.vks)
                          for exp, sig in self._coeffsigs.items()}
         return p_ineq.as_hmapslt1(substitutions)
 
-- 
2.43.0


From bfacb94cea0549d8a4444dbfc6c581e8294aaa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:18 +0000
Subject: [PATCH 20/91] fix: substituting zero into a negative power gives an
 infinite term, not nan

---
 gpkit/nomials/map.py  | 2 +-
 gpkit/nomials/math.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 6c7a477..68152ff 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -170,7 +170,7 @@ class NomialMap(HashVector):
 def subinplace(cp, exp, o_exp, vk, cval):
     "Modifies cp by substituing cval/expval for vk in exp"
     x = exp[vk]
-    powval = float(cval)**x if cval != 0 or x >= 0 else np.sign(cval)*np.inf
+    powval = float(cval)**x if cval != 0 or x >= 0 else np.inf
     cp.csmap[o_exp] *= powval
     if exp in cp:
         c = cp.pop(exp)
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index fbfae3e..a33496e 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -478,6 +478,9 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
             del hmap.expmap, hmap.csmap  # needed only for the mmap call above
             hmap = self._simplify_posy_ineq(hmap, self.pmap, fixed)
             if hmap is not None:
+                if any(c == np.inf for c in hmap.values()):
+                    raise PrimalInfeasible("'%s' is infeasible after"
+                                           " substituting %s." % (self, fixed))
                 if any(c <= 0 for c in hmap.values()):
                     raise InvalidGPConstraint("'%s' became Signomial after sub"
                                               "stituting %s" % (self, fixed))
-- 
2.43.0


From 5ceebe3e8e59ee971d8214bd7f6df5f63f766ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:41 +0000
Subject: [PATCH 21/91] fix: signomial constraints whose variables cancel out
 of the program

---
 gpkit/nomials/math.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index a33496e..f2233a9 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -658,12 +658,14 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         # pylint: disable=no-member
         def subval(posy):
             "Substitute solution into a posynomial and return the result"
-            hmap = posy.sub(result["variables"],
-                            require_positive=False).hmap
+            hmap = posy.sub(values, require_positive=False).hmap
             (key, value), = hmap.items()
             assert not key  # constant
             return value
 
+        # variables that cancelled out of the whole program have no value
+        values = {vk: result["variables"].get(vk, 1.0)
+                  for vk in self.unsubbed[0].vks}
         self.v_ss = {}
         invnegy_val = 1/subval(self._negysig)
         for i, nu_i in enumerate(nu):
@@ -671,10 +673,12 @@ class SignomialInequality(ScalarSingleEquationConstraint):
             inv_mon_val = 1/subval(mon)
             coeff = self._coeffsigs[mon.exp]
             for var in self._sigvars[mon.exp]:
+                if var not in result["variables"]:
+                    continue
                 d_mon_d_var = (subval(coeff.diff(var))*invnegy_val
                                - (subval(self._negysig.diff(var))
                                   * subval(coeff) * invnegy_val**2))
-                var_val = result["variables"][var]
+                var_val = values[var]
                 sens = (nu_i*inv_mon_val*d_mon_d_var*var_val)
                 assert isinstance(sens, float)
                 self.v_ss[var] = sens + self.v_ss.get(var, 0)
-- 
2.43.0


From 9d165eb126d0f726200a41b5872a0c1b1a824241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:45 +0000
Subject: [PATCH 22/91] fix: linked variables that depend on other linked
 variables

---
 gpkit/constraints/gp.py             | 10 ++--
 gpkit/constraints/prog_factories.py | 82 ++++++++++++++++++-----------
 2 files changed, 57 insertions(+), 35 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 828b9a9..6c39317 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -326,8 +326,10 @@ class GeometricProgram:
             m_senss[lineagestr(vk)] += abs(senss)
         result["sensitivities"]["models"] = dict(m_senss)
         # carry linked sensitivities over to their constants
-        for v in list(v for v in gpv_ss if v.gradients):
+        for v in [v for v in gpv_ss
+                  if v.gradients and v in self.substitutions]:
             dlogcost_dlogv = gpv_ss.pop(v)
+            cost_dlogv = cost_senss.pop(v, 0)
             val = np.array(result["constants"][v])
             for c, dv_dc in v.gradients.items():
                 with warnings.catch_warnings():  # skip pesky divide-by-zeros
@@ -335,11 +337,9 @@ class GeometricProgram:
                     dlogv_dlogc = dv_dc * result["constants"][c]/val
                     before = gpv_ss.get(c, 0)
                     gpv_ss[c] = before + dlogcost_dlogv*dlogv_dlogc
-                if v in cost_senss:
-                    if c in self.cost.vks:
-                        dlogcost_dlogv = cost_senss.pop(v)
+                    if cost_dlogv:
                         before = cost_senss.get(c, 0)
-                        cost_senss[c] = before + dlogcost_dlogv*dlogv_dlogc
+                        cost_senss[c] = before + cost_dlogv*dlogv_dlogc
         result["sensitivities"]["cost"] = cost_senss
         result["sensitivities"]["variables"] = KeyDict(gpv_ss)
         result["sensitivities"]["constants"] = \
diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 3468b0c..89e0251 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -11,35 +11,59 @@ from ..exceptions import Infeasible
 
 def evaluate_linked(constants, linked):
     "Evaluates the values and gradients of linked variables."
+    for v in constants:  # forget gradients from when these were linked
+        v.descr.pop("gradients", None)
+    if not linked:
+        return
     kdc = KeyDict({k: adnumber(maybe_flatten(v), k)
-                   for k, v in constants.items()})
-    kdc_plain = None
-    array_calulated = {}
-    for v, f in linked.items():
+                   for k, v in constants.items() if k not in linked})
+    remaining, failed = dict(linked), {}
+    while remaining:  # functions may use the values of other linked variables
+        array_calulated = {}
+        nremaining = len(remaining)
+        for v, f in list(remaining.items()):
+            try:
+                if v.veckey and v.veckey.original_fn:
+                    if v.veckey not in array_calulated:
+                        ofn = v.veckey.original_fn
+                        array_calulated[v.veckey] = np.array(ofn(kdc))
+                    out = array_calulated[v.veckey][v.idx]
+                else:
+                    out = f(kdc)
+                constants[v] = out.x
+                v.descr["gradients"] = {adn.tag: grad
+                                        for adn, grad in out.d().items()
+                                        if adn.tag}  # else it's user-created
+                kdc[v] = out
+                del remaining[v]
+            except Exception as exception:  # pylint: disable=broad-except
+                failed[v] = exception
+        if len(remaining) == nremaining:  # then automatic differentation failed
+            evaluate_plain(constants, remaining, failed, kdc)
+
+
+def evaluate_plain(constants, remaining, failed, kdc):
+    "Evaluates one of the remaining linked variables without its gradients."
+    from .. import settings
+    if settings.get("ad_errors_raise", None):
+        raise next(failed[v] for v in remaining)
+    kdc_plain = KeyDict({k: v for k, v in constants.items()
+                         if k not in remaining})
+    for v, f in remaining.items():
         try:
-            if v.veckey and v.veckey.original_fn:
-                if v.veckey not in array_calulated:
-                    ofn = v.veckey.original_fn
-                    array_calulated[v.veckey] = np.array(ofn(kdc))
-                out = array_calulated[v.veckey][v.idx]
-            else:
-                out = f(kdc)
-            constants[v] = out.x
-            v.descr["gradients"] = {adn.tag: grad
-                                    for adn, grad in out.d().items()
-                                    if adn.tag}  # else it's user-created
-        except Exception as exception:  # pylint: disable=broad-except
-            from .. import settings
-            if settings.get("ad_errors_raise", None):
-                raise
-            print("Warning: skipped auto-differentiation of linked variable"
-                  " %s because %s was raised. Set `gpkit.settings"
-                  "[\"ad_errors_raise\"] = True` to raise such Exceptions"
-                  " directly.\n" % (v, repr(exception)))
-            if kdc_plain is None:
-                kdc_plain = KeyDict(constants)
             constants[v] = f(kdc_plain)
-            v.descr.pop("gradients", None)
+        except Exception:  # pylint: disable=broad-except
+            if v is list(remaining)[-1]:
+                raise
+            continue
+        print("Warning: skipped auto-differentiation of linked variable"
+              " %s because %s was raised. Set `gpkit.settings"
+              "[\"ad_errors_raise\"] = True` to raise such Exceptions"
+              " directly.\n" % (v, repr(failed[v])))
+        v.descr.pop("gradients", None)
+        kdc[v] = adnumber(maybe_flatten(constants[v]), v)
+        del remaining[v]
+        return
 
 
 def progify(program, return_attr=None):
@@ -56,8 +80,7 @@ def progify(program, return_attr=None):
         "Return program version of self"
         if not constants:
             constants, _, linked = parse_subs(self.varkeys, self.substitutions)
-            if linked:
-                evaluate_linked(constants, linked)
+            evaluate_linked(constants, linked)
         prog = program(self.cost, self, constants, **initargs)
         prog.model = self  # NOTE SIDE EFFECTS
         if return_attr:
@@ -138,8 +161,7 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
     for i in range(N_passes):
         constants.update({var: sweep_vect[i]
                           for (var, sweep_vect) in sweep_vects.items()})
-        if linked:
-            evaluate_linked(constants, linked)
+        evaluate_linked(constants, linked)
         program, solvefn = genfunction(self, constants)
         self.program.append(program)  # NOTE: SIDE EFFECTS
         try:
-- 
2.43.0


From 34eef043f11b370c58d3b3445c30236bde4bef22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:28 +0000
Subject: [PATCH 23/91] fix: sensitivities do not depend on other compilations
 of a constraint

---
 gpkit/constraints/gp.py |  5 +--
 gpkit/nomials/math.py   | 79 ++++++++++++++++++++++-------------------
 2 files changed, 45 insertions(+), 39 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 6c39317..9a38289 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -311,10 +311,11 @@ class GeometricProgram:
                 cost_senss += percentage*nu_i*cost_exps[idx]
         gpv_ss = cost_senss.copy()
         m_senss = defaultdict(float)
-        for las, nus, c in zip(la[1:], self.nu_by_posy[1:], self.hmaps[1:]):
+        for las, nus, hmap in zip(la[1:], self.nu_by_posy[1:], self.hmaps[1:]):
+            c = hmap
             while getattr(c, "parent", None) is not None:
                 c = c.parent
-            v_ss, c_senss = c.sens_from_dual(las, nus, result)
+            v_ss, c_senss = c.sens_from_dual(las, nus, result, hmap)
             for vk, x in v_ss.items():
                 gpv_ss[vk] = x + gpv_ss.get(vk, 0)
             while getattr(c, "generated_by", None):
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index f2233a9..dd1f8a3 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -425,15 +425,11 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
                 for vk, x in exp.items():
                     self.bounded.add((vk, "upper" if x > 0 else "lower"))
 
-    def _simplify_posy_ineq(self, hmap, pmap=None, fixed=None):
+    def _simplify_posy_ineq(self, hmap, fixed=None):
         "Simplify a posy <= 1 by moving constants to the right side."
         if EMPTY_HV not in hmap:
             return hmap
         coeff = 1 - hmap[EMPTY_HV]
-        if pmap is not None:  # note constant term's mmap
-            const_idx = list(hmap.keys()).index(EMPTY_HV)
-            self.const_mmap = self.pmap.pop(const_idx)  # pylint: disable=attribute-defined-outside-init
-            self.const_coeff = coeff  # pylint: disable=attribute-defined-outside-init
         if coeff >= -self.feastol and len(hmap) == 1:
             return None   # a tautological monomial!
         if coeff < -self.feastol or (coeff <= 0 and len(hmap) > 1):
@@ -474,10 +470,16 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
         for posy in self.unsubbed:
             fixed, _, _ = parse_subs(posy.vks, substitutions, clean=True)
             hmap = posy.hmap.sub(fixed, posy.vks, parsedsubs=True)
-            self.pmap = hmap.mmap(posy.hmap)  # pylint: disable=attribute-defined-outside-init
+            pmap = hmap.mmap(posy.hmap)
             del hmap.expmap, hmap.csmap  # needed only for the mmap call above
-            hmap = self._simplify_posy_ineq(hmap, self.pmap, fixed)
+            const_mmap, const = {}, hmap.get(EMPTY_HV, 0)
+            if EMPTY_HV in hmap:  # note constant term's mmap
+                const_mmap = pmap.pop(list(hmap.keys()).index(EMPTY_HV))
+            hmap = self._simplify_posy_ineq(hmap, fixed)
             if hmap is not None:
+                if hmap is posy.hmap:  # several programs may share this
+                    units_, hmap = hmap.units, hmap.copy()
+                    hmap.units = units_
                 if any(c == np.inf for c in hmap.values()):
                     raise PrimalInfeasible("'%s' is infeasible after"
                                            " substituting %s." % (self, fixed))
@@ -485,30 +487,29 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
                     raise InvalidGPConstraint("'%s' became Signomial after sub"
                                               "stituting %s" % (self, fixed))
                 hmap.parent = self
+                hmap.presub_maps = posy.hmap, pmap, const_mmap, const
                 out.append(hmap)
         return out
 
-    def sens_from_dual(self, la, nu, _):
+    def sens_from_dual(self, la, nu, _, hmap=None):
         "Returns the variable/constraint sensitivities from lambda/nu"
-        presub, = self.unsubbed
-        if hasattr(self, "pmap"):
-            nu_ = np.zeros(len(presub.hmap))
-            for i, mmap in enumerate(self.pmap):
+        if hmap is None:
+            presub = self.unsubbed[0].hmap
+        else:  # distribute nu over the terms before substitution
+            presub, pmap, const_mmap, const = hmap.presub_maps
+            nu_ = np.zeros(len(presub))
+            for nu_i, mmap in zip(nu, pmap):
                 for idx, percentage in mmap.items():
-                    nu_[idx] += percentage*nu[i]
-            del self.pmap  # not needed after dual has been derived
-            if hasattr(self, "const_mmap"):
-                scale = (1-self.const_coeff)/self.const_coeff
-                for idx, percentage in self.const_mmap.items():
-                    nu_[idx] += percentage * la*scale
-                del self.const_mmap  # not needed after dual has been derived
+                    nu_[idx] += percentage*nu_i
+            for idx, percentage in const_mmap.items():
+                nu_[idx] += percentage * la*const/(1 - const)
             nu = nu_
         self.v_ss = HashVector()
         if self.parent:
             self.parent.v_ss = self.v_ss
         if self.generated_by:
             self.generated_by.v_ss = self.v_ss
-        for nu_i, exp in zip(nu, presub.hmap):
+        for nu_i, exp in zip(nu, presub):
             for vk, x in exp.items():
                 self.v_ss[vk] = nu_i*x + self.v_ss.get(vk, 0)
         return self.v_ss, la
@@ -550,6 +551,7 @@ class MonomialEquality(PosynomialInequality):
         out = super().as_hmapslt1(substitutions)
         for h in out:
             h.from_meq = True  # pylint: disable=attribute-defined-outside-init
+        self._las = []
         return out
 
     def __bool__(self):
@@ -557,7 +559,7 @@ class MonomialEquality(PosynomialInequality):
         return bool(self.left.c == self.right.c
                     and self.left.exp == self.right.exp)
 
-    def sens_from_dual(self, la, nu, _):
+    def sens_from_dual(self, la, nu, _, hmap=None):
         "Returns the variable/constraint sensitivities from lambda/nu"
         self._las.append(la)
         if len(self._las) == 1:
@@ -630,17 +632,19 @@ class SignomialInequality(ScalarSingleEquationConstraint):
                 negy_hmap[o_exp] = -siglt0_us.hmap[o_exp]
             else:
                 posy_hmaps[exp-negy.exp][o_exp] = siglt0_us.hmap[o_exp]
-        # pylint: disable=attribute-defined-outside-init
-        self._mons = [Monomial(NomialMap({k: v}))
-                      for k, v in (posy/negy).hmap.items()]
-        self._negysig = Signomial(negy_hmap, require_positive=False)
-        self._coeffsigs = {exp: Signomial(hmap, require_positive=False)
-                           for exp, hmap in posy_hmaps.items()}
-        self._sigvars = {exp: self._negysig.vks.union(sig.vks)
-                         for exp, sig in self._coeffsigs.items()}
-        return p_ineq.as_hmapslt1(substitutions)
-
-    def sens_from_dual(self, la, nu, result):
+        mons = [Monomial(NomialMap({k: v}))
+                for k, v in (posy/negy).hmap.items()]
+        negysig = Signomial(negy_hmap, require_positive=False)
+        coeffsigs = {exp: Signomial(hmap, require_positive=False)
+                     for exp, hmap in posy_hmaps.items()}
+        sigvars = {exp: negysig.vks.union(sig.vks)
+                   for exp, sig in coeffsigs.items()}
+        out = p_ineq.as_hmapslt1(substitutions)
+        for hmap in out:
+            hmap.signomial_maps = mons, negysig, coeffsigs, sigvars
+        return out
+
+    def sens_from_dual(self, la, nu, result, hmap=None):
         """ We want to do the following chain:
                dlog(Obj)/dlog(monomial[i])    = nu[i]
                * dlog(monomial)/d(monomial)   = 1/(monomial value)
@@ -666,17 +670,18 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         # variables that cancelled out of the whole program have no value
         values = {vk: result["variables"].get(vk, 1.0)
                   for vk in self.unsubbed[0].vks}
+        mons, negysig, coeffsigs, sigvars = hmap.signomial_maps
         self.v_ss = {}
-        invnegy_val = 1/subval(self._negysig)
+        invnegy_val = 1/subval(negysig)
         for i, nu_i in enumerate(nu):
-            mon = self._mons[i]
+            mon = mons[i]
             inv_mon_val = 1/subval(mon)
-            coeff = self._coeffsigs[mon.exp]
-            for var in self._sigvars[mon.exp]:
+            coeff = coeffsigs[mon.exp]
+            for var in sigvars[mon.exp]:
                 if var not in result["variables"]:
                     continue
                 d_mon_d_var = (subval(coeff.diff(var))*invnegy_val
-                               - (subval(self._negysig.diff(var))
+                               - (subval(negysig.diff(var))
                                   * subval(coeff) * invnegy_val**2))
                 var_val = values[var]
                 sens = (nu_i*inv_mon_val*d_mon_d_var*var_val)
-- 
2.43.0


From fec9fd75aff66c0733d7caabcf90540d740600b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:15 +0000
Subject: [PATCH 24/91] fix: linked variables that read a vector wait for its
 linked elements

---
 gpkit/constraints/prog_factories.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 89e0251..90dc7b7 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -30,6 +30,8 @@ def evaluate_linked(constants, linked):
                     out = array_calulated[v.veckey][v.idx]
                 else:
                     out = f(kdc)
+                if np.isnan(out.x):  # an element it uses has no value yet
+                    raise ValueError("%s was linked to nan" % v)
                 constants[v] = out.x
                 v.descr["gradients"] = {adn.tag: grad
                                         for adn, grad in out.d().items()
@@ -51,11 +53,14 @@ def evaluate_plain(constants, remaining, failed, kdc):
                          if k not in remaining})
     for v, f in remaining.items():
         try:
-            constants[v] = f(kdc_plain)
+            value = f(kdc_plain)
         except Exception:  # pylint: disable=broad-except
             if v is list(remaining)[-1]:
                 raise
             continue
+        if np.isnan(value).any() and v is not list(remaining)[-1]:
+            continue
+        constants[v] = value
         print("Warning: skipped auto-differentiation of linked variable"
               " %s because %s was raised. Set `gpkit.settings"
               "[\"ad_errors_raise\"] = True` to raise such Exceptions"
-- 
2.43.0


From 96ff8982e24ad22c7406be9df8a90bd45fade916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 25/91] fix: elements of a linked vector can be linked to other
 functions

---
 gpkit/constraints/prog_factories.py | 5 +++--
 gpkit/nomials/variables.py          | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 90dc7b7..eaa313f 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -23,9 +23,10 @@ def evaluate_linked(constants, linked):
         nremaining = len(remaining)
         for v, f in list(remaining.items()):
             try:
-                if v.veckey and v.veckey.original_fn:
+                # elements may have been linked to another function since
+                ofn = getattr(f, "original_fn", None)
+                if ofn:
                     if v.veckey not in array_calulated:
-                        ofn = v.veckey.original_fn
                         array_calulated[v.veckey] = np.array(ofn(kdc))
                     out = array_calulated[v.veckey][v.idx]
                 else:
diff --git a/gpkit/nomials/variables.py b/gpkit/nomials/variables.py
index 5997dc9..90ac7b4 100644
--- a/gpkit/nomials/variables.py
+++ b/gpkit/nomials/variables.py
@@ -183,6 +183,7 @@ def veclinkedfn(linkedfn, i):
     def newlinkedfn(c):
         "Linked function that pulls out a particular index"
         return np.array(linkedfn(c))[i]
+    newlinkedfn.original_fn = linkedfn
     return newlinkedfn
 
 
-- 
2.43.0


From 9cb4d8967ea06bfaf5f5a1deba894c6e458b62ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:16 +0000
Subject: [PATCH 26/91] fix: any string equal to "sweep" marks a sweep

---
 gpkit/small_scripts.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/small_scripts.py b/gpkit/small_scripts.py
index 3d282d2..0951c2e 100644
--- a/gpkit/small_scripts.py
+++ b/gpkit/small_scripts.py
@@ -51,8 +51,9 @@ def splitsweep(sub):
     "Splits a substitution into (is_sweepvar, sweepval)"
     try:
         sweep, value = sub
-        if sweep is "sweep" and (isinstance(value, Iterable) or  # pylint: disable=literal-comparison
-                                 hasattr(value, "__call__")):
+        if (isinstance(sweep, str) and sweep == "sweep"
+                and (isinstance(value, Iterable)
+                     or hasattr(value, "__call__"))):
             return True, value
     except (TypeError, ValueError):
         pass
-- 
2.43.0


From 5fcb059f7a81e762316237bc791ae1e605b90264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:16 +0000
Subject: [PATCH 27/91] fix: sweep results stay aligned when points differ in
 what they contain

---
 gpkit/small_classes.py  | 34 +++++++++++++++++++++++++++-------
 gpkit/solution_array.py |  4 ++++
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index b66d714..f60a0f0 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -88,9 +88,10 @@ class DictOfLists(dict):
         "Appends a dict (of dicts) of lists to all held lists."
         if not hasattr(self, "initialized"):
             _enlist_dict(sol, self)
-            self.initialized = True  # pylint: disable=attribute-defined-outside-init
+            self.initialized = 1  # pylint: disable=attribute-defined-outside-init
         else:
-            _append_dict(sol, self)
+            _append_dict(sol, self, self.initialized)
+            self.initialized += 1
 
     def atindex(self, i):
         "Indexes into each list independently."
@@ -112,16 +113,32 @@ def _enlist_dict(d_in, d_out):
     return d_out
 
 
-def _append_dict(d_in, d_out):
+def _append_dict(d_in, d_out, n_before, absent=np.nan):
     "Recursively travels dict d_out and appends items found in d_in."
-    for k, v in d_in.items():
-        if isinstance(v, dict):
-            d_out[k] = _append_dict(v, d_out[k])
+    for k in d_in:
+        if not dict.__contains__(d_out, k):  # not in any previous dict
+            d_out[k] = _absentlike(d_in[k], absent, n_before)
+    for k, v in d_out.items():
+        if isinstance(v, dict):  # what's not in a program has no sensitivity
+            _append_dict(d_in.get(k, {}), v, n_before,
+                         0.0 if k == "sensitivities" else absent)
+        elif dict.__contains__(d_in, k):
+            v.append(d_in[k])
         else:
-            d_out[k].append(v)
+            v.extend(_absentlike(v[-1], absent, 1))
     return d_out
 
 
+def _absentlike(value, absent, n):
+    "Returns a list of n placeholders for absent values (or a dict of such)"
+    if isinstance(value, dict):
+        return value.__class__()
+    if isinstance(value, list):
+        return [[] for _ in range(n)]
+    shape = getattr(value, "shape", ())
+    return [np.full(shape, absent) if shape else absent for _ in range(n)]
+
+
 def _index_dict(idx, d_in, d_out):
     "Recursively travels dict d_in, placing items at idx into dict d_out."
     for k, v in d_in.items():
@@ -143,6 +160,9 @@ def _enray(d_in, d_out):
         else:
             if len(v) == 1:
                 v, = v
+            elif all(isinstance(el, list) for el in v):
+                v, lists = np.empty(len(v), dtype=object), v
+                v[:] = lists  # each of which may have any length
             else:
                 v = np.array(v)
             d_out[k] = v
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 8b59259..390ff0e 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -237,6 +237,8 @@ def warnings_table(self, _, **kwargs):
         if not hasattr(data_vec, "shape"):
             data_vec = [data_vec]
         for i, data in enumerate(data_vec):
+            if not data:  # no warnings at this point of the sweep
+                continue
             data = sorted(data, key=lambda l: l[0])  # sort by msg
             title = wtype
             if len(data_vec) > 1:
@@ -254,6 +256,8 @@ def warnings_table(self, _, **kwargs):
             else:
                 lines += [title] + ["-"*len(wtype)]
                 lines += [msg for msg, _ in data] + [""]
+    if len(lines) == 3:
+        return []
     lines[-1] = "~~~~~~~~"
     return lines + [""]
 
-- 
2.43.0


From 2cec9ddd823f2ba95caa8ad654d823b68b0d8e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:33 +0000
Subject: [PATCH 28/91] fix: sweep points that cannot be feasible are skipped
 like those that fail to solve

---
 gpkit/constraints/prog_factories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index eaa313f..1d8160b 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -168,9 +168,9 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
         constants.update({var: sweep_vect[i]
                           for (var, sweep_vect) in sweep_vects.items()})
         evaluate_linked(constants, linked)
-        program, solvefn = genfunction(self, constants)
-        self.program.append(program)  # NOTE: SIDE EFFECTS
         try:
+            program, solvefn = genfunction(self, constants)
+            self.program.append(program)  # NOTE: SIDE EFFECTS
             result = solvefn(solver, verbosity=verbosity-1, **solveargs)
             if solveargs.get("process_result", True):
                 self.process_result(result)
-- 
2.43.0


From 14962fb7b78cd322c90120c0dfe7f743b4eb10ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:33 +0000
Subject: [PATCH 29/91] fix: options of one solve do not become defaults of
 later ones

---
 gpkit/constraints/gp.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 9a38289..c85d831 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -190,8 +190,7 @@ class GeometricProgram:
             print(" for %i free variables" % len(self.varlocs))
             print("  in %i posynomial inequalities." % len(self.k))
 
-        solverargs = DEFAULT_SOLVER_KWARGS.get(solvername, {})
-        solverargs.update(kwargs)
+        solverargs = {**DEFAULT_SOLVER_KWARGS.get(solvername, {}), **kwargs}
         starttime = time()
         solver_out, infeasibility, original_stdout = {}, None, sys.stdout
         try:
-- 
2.43.0


From b74df23e2be496677fbe6707d9b45999edfa232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:33 +0000
Subject: [PATCH 30/91] fix: solvers that replace standard output do not break
 the solve

---
 gpkit/constraints/gp.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index c85d831..539ba20 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -193,8 +193,9 @@ class GeometricProgram:
         solverargs = {**DEFAULT_SOLVER_KWARGS.get(solvername, {}), **kwargs}
         starttime = time()
         solver_out, infeasibility, original_stdout = {}, None, sys.stdout
+        log = SolverLog(original_stdout, verbosity=verbosity-2)
         try:
-            sys.stdout = SolverLog(original_stdout, verbosity=verbosity-2)
+            sys.stdout = log
             solver_out = solverfn(c=self.cs, A=self.A, meq_idxs=self.meq_idxs,
                                   k=self.k, p_idxs=self.p_idxs, **solverargs)
         except Infeasible as e:
@@ -205,7 +206,7 @@ class GeometricProgram:
         except Exception as e:
             raise UnknownInfeasible("Something unexpected went wrong.") from e
         finally:
-            self.solve_log = "\n".join(sys.stdout)
+            self.solve_log = "\n".join(log)  # solvers may replace stdout
             sys.stdout = original_stdout
             self.solver_out = solver_out
 
-- 
2.43.0


From 97262f9fc3772e0fd3cf62e8b5f050bddf248dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:33 +0000
Subject: [PATCH 31/91] fix: failed solves of programs without a model raise
 their error at any verbosity

---
 gpkit/constraints/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 539ba20..95ddb48 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -225,7 +225,7 @@ class GeometricProgram:
             elif isinstance(infeasibility, UnknownInfeasible):
                 msg = "The solver failed for an unknown reason."
             if (verbosity > 0 and solver_out["soltime"] < 1
-                    and hasattr(self, "model")):  # fast, top-level model
+                    and self.model is not None):  # fast, top-level model
                 print(msg + "\nSince the model solved in less than a second,"
                       " let's run `.debug()` to analyze what happened.\n`")
                 return self.model.debug(solver=solver)
-- 
2.43.0


From ecf0a182af1e10e704641f98a1d7ca1b308d14c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:58 +0000
Subject: [PATCH 32/91] fix: sweep helpers put back every substitution, also
 after errors

---
 gpkit/constraints/model.py | 16 ++++++----------
 gpkit/keydict.py           | 16 ++++++++++++++++
 gpkit/tools/autosweep.py   | 26 +++++++++++---------------
 3 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 06e5240..2c8bff7 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -137,16 +137,12 @@ class Model(CostedConstraintSet):
         "Sweeps {var: values} pairs in sweeps. Returns swept solutions."
         sols = []
         for sweepvar, sweepvals in sweeps.items():
-            original_val = self.substitutions.get(sweepvar, None)
-            self.substitutions.update({sweepvar: ('sweep', sweepvals)})
-            try:
-                sols.append(self.solve(**solveargs))
-            except InvalidGPConstraint:
-                sols.append(self.localsolve(**solveargs))
-            if original_val:
-                self.substitutions[sweepvar] = original_val
-            else:
-                del self.substitutions[sweepvar]
+            with self.substitutions.preserved():
+                self.substitutions.update({sweepvar: ('sweep', sweepvals)})
+                try:
+                    sols.append(self.solve(**solveargs))
+                except InvalidGPConstraint:
+                    sols.append(self.localsolve(**solveargs))
         return sols if len(sols) > 1 else sols[0]
 
     def autosweep(self, sweeps, tol=0.01, samplepoints=100, **solveargs):
diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index ccecc4d..dd150ed 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -1,6 +1,7 @@
 "Implements KeyDict and KeySet classes"
 from collections import defaultdict
 from collections.abc import Hashable
+from contextlib import contextmanager
 import numpy as np
 from .small_classes import Numbers, Quantity, FixedScalar
 from .small_scripts import is_sweepvar, isnan
@@ -146,6 +147,21 @@ class KeyDict(KeyMap, dict):
             super().__setitem__(key, super().__getitem__(key).copy())
             self.owned.add(key)
 
+    @contextmanager
+    def preserved(self):
+        "A context after which all items are as they were before it."
+        before = {k: v.copy() if hasattr(v, "shape") else v
+                  for k, v in self.items()}
+        try:
+            yield
+        finally:
+            for k, v in list(self.items()):
+                if k not in before or before[k] is not v:
+                    del self[k]
+            for k, v in before.items():
+                if not dict.__contains__(self, k):
+                    self[k] = v
+
     def update(self, *args, **kwargs):
         "Iterates through the dictionary created by args and kwargs"
         if not self and len(args) == 1 and isinstance(args[0], KeyDict):
diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index 5a262a9..fe33e36 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -225,30 +225,26 @@ class SolutionOracle:
 
 def autosweep_1d(model, logtol, sweepvar, bounds, **solvekwargs):
     "Autosweep a model over one sweepvar"
-    original_val = model.substitutions.get(sweepvar, None)
     start_time = time()
     solvekwargs.setdefault("verbosity", 1)
     solvekwargs["verbosity"] -= 1
     sols = Count().next
     firstsols = []
-    for bound in bounds:
-        model.substitutions.update({sweepvar: bound})
-        try:
-            model.solve(**solvekwargs)
-            firstsols.append(model.program.result)
-        except InvalidGPConstraint:
-            raise InvalidGPConstraint("only GPs can be autoswept.")
-        sols()
-    bst = BinarySweepTree(bounds, firstsols, sweepvar, model.cost)
-    tol = recurse_splits(model, bst, sweepvar, logtol, solvekwargs, sols)
+    with model.substitutions.preserved():
+        for bound in bounds:
+            model.substitutions.update({sweepvar: bound})
+            try:
+                model.solve(**solvekwargs)
+                firstsols.append(model.program.result)
+            except InvalidGPConstraint:
+                raise InvalidGPConstraint("only GPs can be autoswept.")
+            sols()
+        bst = BinarySweepTree(bounds, firstsols, sweepvar, model.cost)
+        tol = recurse_splits(model, bst, sweepvar, logtol, solvekwargs, sols)
     bst.nsols = sols()  # pylint: disable=attribute-defined-outside-init
     if solvekwargs["verbosity"] > -1:
         print("Solved in %2i passes, cost logtol +/-%.3g" % (bst.nsols, tol))
         print("Autosweeping took %.3g seconds." % (time() - start_time))
-    if original_val:
-        model.substitutions[sweepvar] = original_val
-    else:
-        del model.substitutions[sweepvar]
     return bst
 
 
-- 
2.43.0


From 5a31cd852f6bc96579ce326bda3255ea6f3ea4a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:04 +0000
Subject: [PATCH 33/91] fix: an array can replace the sweep of a vector
 variable

---
 gpkit/keydict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index dd150ed..dc8cb26 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -246,8 +246,8 @@ class KeyDict(KeyMap, dict):
             if getattr(value, "shape", None):   # is the value an array?
                 if value.dtype == INT_DTYPE:
                     value = np.array(value, float)
-                if dict.__contains__(self, key):
-                    old = super().__getitem__(key)
+                old = dict.get(self, key)
+                if hasattr(old, "shape"):  # else unset or e.g. a sweep
                     if old.dtype != value.dtype:
                         # e.g. replacing a number with a linked function
                         dtype = np.result_type(old, value)
-- 
2.43.0


From 7cda492b407a0de71b8044702f60cc13dd04d2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:23 +0000
Subject: [PATCH 34/91] fix: elements of vector variables in swept solutions

---
 gpkit/keydict.py       | 15 ++++++++++++---
 gpkit/small_classes.py |  3 +++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index dc8cb26..24d02ab 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -9,6 +9,12 @@ from .small_scripts import is_sweepvar, isnan
 DIMLESS_QUANTITY = Quantity(1, "dimensionless")
 INT_DTYPE = np.dtype(int)
 
+def element(value, idx):
+    "Indexes an array, whose first dimension may be that of a sweep."
+    sweepdims = getattr(value, "ndim", len(idx)) - len(idx)
+    return value[(slice(None),)*sweepdims + idx]
+
+
 def clean_value(key, value):
     """Gets the value of variable-less monomials, so that
     `x.sub({x: gpkit.units.m})` and `x.sub({x: gpkit.ureg.m})` are equivalent.
@@ -93,8 +99,11 @@ class KeyMap:
         if super().__contains__(key):  # pylint: disable=no-member
             if idx:
                 try:
-                    value = super().__getitem__(key)[idx]  # pylint: disable=no-member
-                    return True if is_sweepvar(value) else not isnan(value)
+                    value = super().__getitem__(key)  # pylint: disable=no-member
+                    if is_sweepvar(value):  # then so are its elements
+                        return True
+                    value = element(value, idx)
+                    return is_sweepvar(value) or not isnan(value).all()
                 except TypeError:
                     raise TypeError("%s has an idx, but its value in this"
                                     " KeyDict is the scalar %s."
@@ -197,7 +206,7 @@ class KeyDict(KeyMap, dict):
                 self._copyonwrite(k)
             val = dict.__getitem__(self, k)
             if idx:
-                val = val[idx]
+                val = element(val, idx)
             if len(keys) == 1:
                 return val
             got[k] = val
diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index f60a0f0..7155756 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -144,6 +144,9 @@ def _index_dict(idx, d_in, d_out):
     for k, v in d_in.items():
         if isinstance(v, dict):
             d_out[k] = _index_dict(idx, v, v.__class__())
+        elif isinstance(v, list) or len(getattr(k, "shape", None)
+                                        or ()) == np.ndim(v) > 0:
+            d_out[k] = v  # not an array over the sweep
         else:
             try:
                 d_out[k] = v[idx]
-- 
2.43.0


From 01edf7a4dd2808205b831b4bd4f14109f8e93920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:49 +0000
Subject: [PATCH 35/91] fix: elements of vector variables can be swept over
 arrays

---
 gpkit/constraints/prog_factories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 1d8160b..50a86d5 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -185,7 +185,7 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
         raise RuntimeWarning("No sweeps solved successfully.") from last_error
 
     solution["sweepvariables"] = KeyDict()
-    ksweep = KeyDict(sweep)
+    ksweep = {var.veckey or var for var in sweep}
     for var, val in list(solution["constants"].items()):
         if var in ksweep:
             solution["sweepvariables"][var] = val
-- 
2.43.0


From 3366260168fdce6d9a04767c59731fd972fc7fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 36/91] fix: constraints that substitution makes impossible
 raise a kind of PrimalInfeasible

---
 gpkit/exceptions.py   | 3 +++
 gpkit/nomials/math.py | 8 +++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/gpkit/exceptions.py b/gpkit/exceptions.py
index 36760a6..894cfd1 100644
--- a/gpkit/exceptions.py
+++ b/gpkit/exceptions.py
@@ -36,3 +36,6 @@ class PrimalInfeasible(Infeasible):
 
 class DualInfeasible(Infeasible):
     "Raised if a model returns a certificate of dual infeasibility"
+
+class ImpossibleConstraint(PrimalInfeasible, ValueError):
+    "Raised if the values substituted into a constraint contradict it"
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index dd1f8a3..01c25cb 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -11,7 +11,8 @@ from ..small_classes import HashVector, EMPTY_HV
 from ..varkey import VarKey
 from ..small_scripts import mag
 from ..exceptions import (InvalidGPConstraint, InvalidPosynomial,
-                          PrimalInfeasible, DimensionalityError)
+                          PrimalInfeasible, ImpossibleConstraint,
+                          DimensionalityError)
 from .map import NomialMap
 from .substitution import parse_subs
 
@@ -613,8 +614,9 @@ class SignomialInequality(ScalarSingleEquationConstraint):
                   " constraint 0 <= %s after substitution." % (self, negy))
             return []
         if negy is 0:  # pylint: disable=literal-comparison
-            raise ValueError("%s became the infeasible constraint %s <= 0"
-                             " after substitution." % (self, posy))
+            raise ImpossibleConstraint("%s became the infeasible constraint %s"
+                                       " <= 0 after substitution."
+                                       % (self, posy))
         if hasattr(negy, "cs") and len(negy.cs) > 1:
             raise InvalidGPConstraint(
                 "%s did not simplify to a PosynomialInequality; try calling"
-- 
2.43.0


From 623fe7b18609da71cc86b4ce021dc57e94abe082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:41 +0000
Subject: [PATCH 37/91] fix: linked variables of integer numpy values keep
 their gradients

---
 gpkit/small_scripts.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpkit/small_scripts.py b/gpkit/small_scripts.py
index 0951c2e..fc9c880 100644
--- a/gpkit/small_scripts.py
+++ b/gpkit/small_scripts.py
@@ -22,9 +22,9 @@ def isnan(element):
 
 
 def maybe_flatten(value):
-    "Extract values from 0-d numpy arrays, if necessary"
-    if hasattr(value, "shape") and not value.shape:
-        return value.flatten()[0]  # 0-d numpy arrays
+    "Extract values from 0-d numpy arrays and numpy scalars, if necessary"
+    if hasattr(value, "item") and not value.shape:
+        return value.item()  # integers like numpy's have no negative powers
     return value
 
 
-- 
2.43.0


From 5e18acb690658c6141c94eb9d7b80062e7487c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 38/91] fix: results of a program belong to its last solve

---
 gpkit/constraints/gp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 95ddb48..a33f239 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -193,6 +193,7 @@ class GeometricProgram:
         solverargs = {**DEFAULT_SOLVER_KWARGS.get(solvername, {}), **kwargs}
         starttime = time()
         solver_out, infeasibility, original_stdout = {}, None, sys.stdout
+        self._result = None  # until this solve has one
         log = SolverLog(original_stdout, verbosity=verbosity-2)
         try:
             sys.stdout = log
-- 
2.43.0


From 357f4df67b2a58382bd22b92397e273661506b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 39/91] fix: deleting a vector's element when another element
 is swept

---
 gpkit/small_scripts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/small_scripts.py b/gpkit/small_scripts.py
index fc9c880..4a76cc7 100644
--- a/gpkit/small_scripts.py
+++ b/gpkit/small_scripts.py
@@ -17,7 +17,7 @@ def isnan(element):
     "Determine if something of arbitrary type is a numpy nan."
     try:
         return np.isnan(element)
-    except TypeError:
+    except (TypeError, ValueError):  # e.g. the tuple of a sweep
         return False
 
 
-- 
2.43.0


From 962b3b7bffebddf39097e71dc5bff41c53f36cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 40/91] fix: programs keep the gradients of their own linked
 variables

---
 gpkit/constraints/gp.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index a33f239..aeb0382 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -81,6 +81,9 @@ class GeometricProgram:
             if not isinstance(sub, (Numbers, np.ndarray)):
                 raise TypeError("substitution {%s: %s} has invalid value type"
                                 " %s." % (key, sub, type(sub)))
+        # keys' own gradients change whenever their links are evaluated
+        self.gradients = {key: key.gradients for key in self.substitutions
+                          if getattr(key, "gradients", None)}
         cost_hmap = cost.hmap.sub(self.substitutions, cost.vks)
         if any(c <= 0 for c in cost_hmap.values()):
             raise InvalidPosynomial("a GP's cost must be Posynomial")
@@ -328,12 +331,11 @@ class GeometricProgram:
             m_senss[lineagestr(vk)] += abs(senss)
         result["sensitivities"]["models"] = dict(m_senss)
         # carry linked sensitivities over to their constants
-        for v in [v for v in gpv_ss
-                  if v.gradients and v in self.substitutions]:
+        for v in [v for v in gpv_ss if v in self.gradients]:
             dlogcost_dlogv = gpv_ss.pop(v)
             cost_dlogv = cost_senss.pop(v, 0)
             val = np.array(result["constants"][v])
-            for c, dv_dc in v.gradients.items():
+            for c, dv_dc in self.gradients[v].items():
                 with warnings.catch_warnings():  # skip pesky divide-by-zeros
                     warnings.simplefilter("ignore")
                     dlogv_dlogc = dv_dc * result["constants"][c]/val
-- 
2.43.0


From aa6068b7be79e783743a00f578ed0abb79b2a7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 41/91] fix: sequential solves stop at their iteration limit

---
 gpkit/constraints/sgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 3217212..54710bc 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -144,7 +144,7 @@ solutions and can be solved with 'Model.solve()'.""")
         prevcost, cost, rel_improvement = None, None, None
         while rel_improvement is None or rel_improvement > reltol:
             prevcost = cost
-            if len(self.gps) > iteration_limit:
+            if len(self.gps) >= iteration_limit:
                 raise Infeasible(
                     "Unsolved after %s iterations. Check `m.program.results`;"
                     " if they're converging, try `.localsolve(...,"
-- 
2.43.0


From 6f1ece9bb378dbcdf0a4185890cc5bee442adbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 42/91] fix: sequential solves go on after a risen cost at any
 verbosity

---
 gpkit/constraints/sgp.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 54710bc..3ef17bc 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -169,13 +169,15 @@ solutions and can be solved with 'Model.solve()'.""")
             if prevcost is None:
                 continue
             rel_improvement = (prevcost - cost)/(prevcost + cost)
-            if cost*(1 - EPS) > prevcost + EPS and verbosity > -1:
-                pywarnings.warn(
-                    "SGP not convergent: Cost rose by %.2g%% on GP solve %i."
-                    " Details can be found in `m.program.results` or by"
-                    " solving at a higher verbosity. Note that convergence"
-                    " is not guaranteed for models with SignomialEqualities."
-                    % (100*(cost - prevcost)/prevcost, len(self.gps)))
+            if cost*(1 - EPS) > prevcost + EPS:
+                if verbosity > -1:
+                    pywarnings.warn(
+                        "SGP not convergent: Cost rose by %.2g%% on GP solve"
+                        " %i. Details can be found in `m.program.results` or"
+                        " by solving at a higher verbosity. Note that"
+                        " convergence is not guaranteed for models with"
+                        " SignomialEqualities."
+                        % (100*(cost - prevcost)/prevcost, len(self.gps)))
                 rel_improvement = cost = None
         # solved successfully!
         self.result = gp.generate_result(solver_out, verbosity=verbosity-3)
-- 
2.43.0


From 4e02320bab739a4fe36e6eb1badd099ebf685aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 43/91] fix: a failed sequential solve leaves no earlier result

---
 gpkit/constraints/sgp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 3ef17bc..68dda3e 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -134,6 +134,7 @@ solutions and can be solved with 'Model.solve()'.""")
             A dictionary containing the translated solver result.
         """
         self.gps, self.solver_outs, self._results = [], [], []
+        self.result = None  # until this solve has one
         starttime = time()
         if verbosity > 0:
             print("Starting a sequence of GP solves")
-- 
2.43.0


From efc46cae660fe484151e8ba1d2b09d0b1c63bacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:40 +0000
Subject: [PATCH 44/91] fix: initial guesses by name, with units, and with
 constants

---
 gpkit/constraints/sgp.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 68dda3e..8e61025 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -66,7 +66,7 @@ class SequentialGeometricProgram:
         self.approxconstraints = []
         self.sgpvks = set()
         x0 = KeyDict(substitutions)
-        x0.varkeys = model.varkeys  # for string access and so forth
+        x0.cset = model  # for string access and so forth
         for cs in model.flat():
             try:
                 if not hasattr(cs, "as_hmapslt1"):
@@ -150,7 +150,7 @@ solutions and can be solved with 'Model.solve()'.""")
                     "Unsolved after %s iterations. Check `m.program.results`;"
                     " if they're converging, try `.localsolve(...,"
                     " iteration_limit=NEWLIMIT)`." % len(self.gps))
-            gp = self.gp(x0, cleanx0=True)
+            gp = self.gp(x0)
             self.gps.append(gp)  # NOTE: SIDE EFFECTS
             if verbosity > 1:
                 print("\nGP Solve %i" % len(self.gps))
@@ -215,13 +215,12 @@ solutions and can be solved with 'Model.solve()'.""")
                              for gp, s_o in zip(self.gps, self.solver_outs)]
         return self._results
 
-    def gp(self, x0=None, *, cleanx0=False):
+    def gp(self, x0=None):
         "Update self._gp for x0 and return it."
         if not x0:
             return self._gp  # return last generated
-        if not cleanx0:
-            x0 = KeyDict(x0)
-        self._gp.x0.update({vk: x0[vk] for vk in self.sgpvks if vk in x0})
+        self._gp.x0.update(x0)
+        self._gp.x0.update(self._gp.substitutions)  # constants stay so
         p_idx = 0
         for sgpc in self.sgpconstraints:
             for hmaplt1 in sgpc.as_gpconstr(self._gp.x0).as_hmapslt1({}):
-- 
2.43.0


From 274a1f2206dfd2864cd5d102c9a86df1194ef3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 45/91] fix: sub-problems have all terms of the current
 approximations

---
 gpkit/constraints/sgp.py | 81 ++++++++++++++++++++--------------------
 gpkit/nomials/math.py    | 15 ++++++++
 2 files changed, 56 insertions(+), 40 deletions(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 8e61025..f81bac2 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -1,7 +1,7 @@
 """Implement the SequentialGeometricProgram class"""
 import warnings as pywarnings
+from copy import copy
 from time import time
-from collections import defaultdict
 import numpy as np
 from ..exceptions import (InvalidGPConstraint, Infeasible, UnnecessarySGP,
                           InvalidPosynomial, InvalidSGPConstraint)
@@ -14,6 +14,30 @@ from .. import NamedVariables
 
 EPS = 1e-6  # 1 +/- this is used in a few relative differences
 
+class Approximation(PosynomialInequality):
+    "Posynomials <= slack, which approximate a signomial constraint at a point"
+
+    def __init__(self, constraint, slack):  # pylint: disable=super-init-not-called
+        self.generated_by, self.slack = constraint, slack
+
+    def __str__(self):
+        return str(self.generated_by)
+
+    @property
+    def vks(self):
+        "Variables of the current approximation"
+        return set().union(*(posy.vks for posy in self.unsubbed))
+
+    def update(self, x0):
+        "Approximates at x0"
+        if hasattr(self.generated_by, "as_posyslt1"):
+            posys = self.generated_by.as_posyslt1(x0)
+        else:
+            hmaps = self.generated_by.as_gpconstr(x0).as_hmapslt1({})
+            posys = [Posynomial(hmap) for hmap in hmaps]
+        self.unsubbed = [posy/self.slack for posy in posys]
+
+
 # pylint: disable=too-many-instance-attributes
 class SequentialGeometricProgram:
     """Prepares a collection of signomials for a SP solve.
@@ -78,11 +102,10 @@ class SequentialGeometricProgram:
                 if not hasattr(cs, "as_gpconstr"):
                     raise InvalidSGPConstraint(cs)
                 self.sgpconstraints.append(cs)
-                for hmaplt1 in cs.as_gpconstr(x0).as_hmapslt1({}):
-                    constraint = (Posynomial(hmaplt1) <= self.slack)
-                    constraint.generated_by = cs
-                    self.approxconstraints.append(constraint)
-                    self.sgpvks.update(constraint.vks)
+                approxc = Approximation(cs, self.slack)
+                approxc.update(x0)
+                self.approxconstraints.append(approxc)
+                self.sgpvks.update(getattr(cs, "vks", approxc.vks))
         if not self.sgpconstraints:
             raise UnnecessarySGP("""Model valid as a Geometric Program.
 
@@ -93,12 +116,6 @@ solutions and can be solved with 'Model.solve()'.""")
             cost, self.approxconstraints + self.gpconstraints,
             substitutions, checkbounds=checkbounds)
         self._gp.x0 = x0
-        self.a_idxs = defaultdict(list)
-        cost_mons = self._gp.k[0]
-        sp_mons = sum(self._gp.k[:1+len(self.approxconstraints)])
-        for row_idx, m_idx in enumerate(self._gp.A.row):
-            if cost_mons <= m_idx <= sp_mons:
-                self.a_idxs[self._gp.p_idxs[m_idx]].append(row_idx)
 
     # pylint: disable=too-many-locals,too-many-branches,too-many-statements
     def localsolve(self, solver=None, *, verbosity=1, x0=None, reltol=1e-4,
@@ -221,32 +238,16 @@ solutions and can be solved with 'Model.solve()'.""")
             return self._gp  # return last generated
         self._gp.x0.update(x0)
         self._gp.x0.update(self._gp.substitutions)  # constants stay so
-        p_idx = 0
-        for sgpc in self.sgpconstraints:
-            for hmaplt1 in sgpc.as_gpconstr(self._gp.x0).as_hmapslt1({}):
-                approxc = self.approxconstraints[p_idx]
-                approxc.unsubbed = [Posynomial(hmaplt1)/self.slack]
-                p_idx += 1  # p_idx=0 is the cost; sp constraints are after it
-                hmap, = approxc.as_hmapslt1(self._gp.substitutions)
-                self._gp.hmaps[p_idx] = hmap
-                m_idx = self._gp.m_idxs[p_idx].start
-                a_idxs = list(self.a_idxs[p_idx])  # A's entries we can modify
-                for i, (exp, c) in enumerate(hmap.items()):
-                    self._gp.exps[m_idx + i] = exp
-                    self._gp.cs[m_idx + i] = c
-                    for var, x in exp.items():
-                        try:  # modify a particular A entry
-                            row_idx = a_idxs.pop()
-                            self._gp.A.row[row_idx] = m_idx + i
-                            self._gp.A.col[row_idx] = self._gp.varidxs[var]
-                            self._gp.A.data[row_idx] = x
-                        except IndexError:  # numbers of exps increased
-                            self.a_idxs[p_idx].append(len(self._gp.A.row))
-                            self._gp.A.row.append(m_idx + i)
-                            self._gp.A.col.append(self._gp.varidxs[var])
-                            self._gp.A.data.append(x)
-                for row_idx in a_idxs:  # number of exps decreased
-                    self._gp.A.row[row_idx] = 0  # zero out this entry
-                    self._gp.A.col[row_idx] = 0
-                    self._gp.A.data[row_idx] = 0
+        approximations = []
+        for approxc in self.approxconstraints:
+            approxc.update(self._gp.x0)
+            approximations.extend(
+                approxc.as_hmapslt1(self._gp.substitutions))
+        # which monomials and variables they have depends on x0
+        self._gp = copy(self._gp)  # earlier GPs stay as they were
+        self._gp.hmaps = (self._gp.hmaps[:1] + approximations
+                          + [hmap for hmap in self._gp.hmaps[1:]
+                             if not isinstance(getattr(hmap, "parent", None),
+                                               Approximation)])
+        self._gp.gen()
         return self._gp
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 01c25cb..0433a82 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -701,6 +701,13 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         pconstr.generated_by = self
         return pconstr
 
+    def as_posyslt1(self, x0):
+        "Returns posynomials whose being <= 1 approximates this at x0"
+        posy, negy = self.unsubbed[0].posy_negy()
+        # default guess of 1.0 for unspecified negy variables
+        return [posy/negy.mono_lower_bound({vk: x0.get(vk, 1)
+                                            for vk in negy.vks})]
+
 
 class SingleSignomialEquality(SignomialInequality):
     "A constraint of the general form posynomial == posynomial"
@@ -730,3 +737,11 @@ class SingleSignomialEquality(SignomialInequality):
                                negy.mono_lower_bound(x0))
         mec.generated_by = self
         return mec
+
+    def as_posyslt1(self, x0):
+        "Returns monomials whose being <= 1 approximates this at x0"
+        posy, negy = self.unsubbed[0].posy_negy()
+        ratio = (posy.mono_lower_bound({vk: x0.get(vk, 1) for vk in posy.vks})
+                 / negy.mono_lower_bound({vk: x0.get(vk, 1)
+                                          for vk in negy.vks}))
+        return [ratio, 1/ratio]
-- 
2.43.0


From 047575d3e06aaa857cc39ff62bc6e5dc929309fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 46/91] fix: sensitivities of signomial equalities

---
 gpkit/constraints/sgp.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index f81bac2..61c90d7 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -19,6 +19,7 @@ class Approximation(PosynomialInequality):
 
     def __init__(self, constraint, slack):  # pylint: disable=super-init-not-called
         self.generated_by, self.slack = constraint, slack
+        self._senss = []
 
     def __str__(self):
         return str(self.generated_by)
@@ -37,6 +38,25 @@ class Approximation(PosynomialInequality):
             posys = [Posynomial(hmap) for hmap in hmaps]
         self.unsubbed = [posy/self.slack for posy in posys]
 
+    def as_hmapslt1(self, substitutions):
+        "Returns the posys <= 1 representation of this approximation."
+        self._senss = []
+        return super().as_hmapslt1(substitutions)
+
+    def sens_from_dual(self, la, nu, _, hmap=None):
+        "Returns the variable/constraint sensitivities from lambda/nu"
+        v_ss, la = super().sens_from_dual(la, nu, _, hmap)
+        if getattr(self.generated_by, "oper", None) != "=":
+            return v_ss, la
+        # as in a MonomialEquality, the two directions oppose each other
+        self._senss.append((v_ss, la))
+        if len(self._senss) == 1:
+            return v_ss, 0
+        (first_v_ss, first_la), _ = self._senss
+        self._senss = []
+        self.generated_by.v_ss = first_v_ss + v_ss
+        return v_ss, first_la - la
+
 
 # pylint: disable=too-many-instance-attributes
 class SequentialGeometricProgram:
-- 
2.43.0


From f7cf79a6fc275c0e6372a88d8c4d47ee487f9a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 47/91] fix: a model's vector elements can be looked up, and
 autoswept

---
 gpkit/constraints/set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index 830d97b..36bdb53 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -133,6 +133,8 @@ class ConstraintSet(list, ReprMixin):
         if not variables:
             raise KeyError(key)
         firstvar, *othervars = variables
+        if firstvar.key == getattr(key, "key", key):
+            return firstvar  # a scalar, or an element of a vector
         veckey = firstvar.key.veckey
         if veckey is None or any(v.key.veckey != veckey for v in othervars):
             if not othervars:
-- 
2.43.0


From 64ac5fbaaebe990ecc9c0535b0e67cef98bc43f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 48/91] fix: autosweep bounds where the logarithm of the lower
 bound is zero

---
 gpkit/tools/autosweep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index fe33e36..a029818 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -92,7 +92,7 @@ class BinarySweepTree:  # pylint: disable=too-many-instance-attributes
         if value < self.bounds[0] or value > self.bounds[1]:
             raise ValueError("query value is outside bounds.")
         bst = self.min_bst(value)
-        if bst.splitlb:
+        if bst.splitlb is not None:
             if bound:
                 if bound == "lb":
                     splitcost = np.exp(bst.splitlb)
-- 
2.43.0


From f51916714d7c69b0c4e587fe6e08416f6af7d18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:41 +0000
Subject: [PATCH 49/91] fix: dividing by integers of numpy

---
 gpkit/nomials/math.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 0433a82..4899d2c 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -9,7 +9,7 @@ from ..globals import SignomialsEnabled
 from ..small_classes import Numbers
 from ..small_classes import HashVector, EMPTY_HV
 from ..varkey import VarKey
-from ..small_scripts import mag
+from ..small_scripts import mag, maybe_flatten
 from ..exceptions import (InvalidGPConstraint, InvalidPosynomial,
                           PrimalInfeasible, ImpossibleConstraint,
                           DimensionalityError)
@@ -45,7 +45,7 @@ class Signomial(Nomial):
             if hasattr(hmap, "hmap"):
                 hmap = hmap.hmap
             elif isinstance(hmap, Numbers):
-                hmap_ = NomialMap([(EMPTY_HV, mag(hmap))])
+                hmap_ = NomialMap([(EMPTY_HV, maybe_flatten(mag(hmap)))])
                 hmap_.units_of_product(hmap)
                 hmap = hmap_
             elif isinstance(hmap, dict):
@@ -231,7 +231,7 @@ class Signomial(Nomial):
     def __truediv__(self, other):
         "Support the / operator in Python 2.x"
         if isinstance(other, Numbers):
-            out = self*other**-1
+            out = self*(1/other)  # numpy's integers have no power of -1
             out.ast = ("div", (self, other))
             return out
         if isinstance(other, Monomial):
-- 
2.43.0


From ed8c2139b3e4662d6830334b5cbd85590e9a23b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:47 +0000
Subject: [PATCH 50/91] fix: cached unit conversions are those of the units,
 not of their objects' ids

---
 gpkit/units.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/units.py b/gpkit/units.py
index 39c3f18..44c0979 100644
--- a/gpkit/units.py
+++ b/gpkit/units.py
@@ -34,7 +34,8 @@ class GPkitUnits:
         "Cached unit division. Requires Quantity inputs."
         if numerator.units is denominator.units:
             return 1
-        key = (id(numerator.units), id(denominator.units))
+        # ids are no key: those of deleted objects are used again
+        key = tuple(u and u.units for u in (numerator.units, denominator.units))
         try:
             return self.division_cache[key]
         except KeyError:
-- 
2.43.0


From 1e6dcfcfadbb07f57881838b111347ca7090ced6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:08 +0000
Subject: [PATCH 51/91] fix: dimensionless units convert to no units in sums

---
 gpkit/nomials/map.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 68152ff..820fe5f 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -50,21 +50,29 @@ class NomialMap(HashVector):
         sunits = self.units or DIMLESS_QUANTITY
         nm = self * sunits.to(to_units).magnitude  # note that * creates a copy
         nm.units_of_product(to_units)  # pylint: disable=no-member
+        if nm.units == DIMLESS_QUANTITY:
+            nm.units = None
         return nm
 
     def __add__(self, other):
         "Adds NomialMaps together"
-        if self.units != other.units:
+        units_ = self.units
+        if units_ != other.units:
             try:
-                other *= float(other.units/self.units)
-            except (TypeError, AttributeError):  # if one of those is None
+                if self.units and other.units:
+                    other *= float(other.units/self.units)
+                elif other.units:  # dimensionless, or an error is raised
+                    other *= float(other.units)
+                else:
+                    units_, self = None, self*float(self.units)
+            except TypeError:
                 raise DimensionalityError(self.units, other.units)
         hmap = HashVector.__add__(self, other)
         if not hmap:  # make sure it's never an empty hmap
             hmap[EMPTY_HV] = 0.0
         elif len(hmap) > 1 and not hmap.get(EMPTY_HV, 1):
             del hmap[EMPTY_HV]  # remove zeros that became superfluous
-        hmap.units = self.units
+        hmap.units = units_
         return hmap
 
     def diff(self, varkey):
-- 
2.43.0


From af0dfeac79c441f082d20c09ab02d34c2d7e2ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:32 +0000
Subject: [PATCH 52/91] fix: arrays keep the units of quantities, in sums and
 products too

---
 gpkit/nomials/array.py | 62 ++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index 23ab622..f399dd3 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -11,7 +11,8 @@ from functools import reduce  # pylint: disable=redefined-builtin
 import numpy as np
 from .map import NomialMap
 from ..small_classes import HashVector, EMPTY_HV
-from ..small_scripts import try_str_without
+from ..units import Quantity
+from ..small_scripts import mag, try_str_without
 from ..constraints import ArrayConstraint
 from ..repr_conventions import ReprMixin
 
@@ -21,6 +22,17 @@ def vec_recurse(element, function, *args, **kwargs):
     return function(element, *args, **kwargs)
 
 
+def elementwise(other):
+    "Returns Quantities as arrays of Quantities, so that numpy keeps the units"
+    if not isinstance(other, Quantity):
+        return other
+    magnitudes = np.asarray(other.magnitude)
+    out = np.empty(magnitudes.shape, dtype="object")
+    for i in np.ndindex(magnitudes.shape):
+        out[i] = Quantity(magnitudes.item(i), other.units)
+    return out
+
+
 def array_constraint(symbol, func):
     "Return function which creates constraints of the given operator."
     vecfunc = np.vectorize(func)
@@ -49,12 +61,12 @@ class NomialArray(ReprMixin, np.ndarray):
 
     def __mul__(self, other, *, reverse_order=False):
         astorder = (self, other) if not reverse_order else (other, self)
-        out = NomialArray(np.ndarray.__mul__(self, other))
+        out = NomialArray(np.ndarray.__mul__(self, elementwise(other)))
         out.ast = ("mul", astorder)
         return out
 
     def __truediv__(self, other):
-        out = NomialArray(np.ndarray.__truediv__(self, other))
+        out = NomialArray(np.ndarray.__truediv__(self, elementwise(other)))
         out.ast = ("div", (self, other))
         return out
 
@@ -65,7 +77,7 @@ class NomialArray(ReprMixin, np.ndarray):
 
     def __add__(self, other, *, reverse_order=False):
         astorder = (self, other) if not reverse_order else (other, self)
-        out = (np.ndarray.__add__(self, other))
+        out = (np.ndarray.__add__(self, elementwise(other)))
         out.ast = ("add", astorder)
         return out
 
@@ -83,6 +95,9 @@ class NomialArray(ReprMixin, np.ndarray):
         out.ast = ("neg", self)
         return out
 
+    def __sub__(self, other):
+        return np.ndarray.__sub__(self, elementwise(other))
+
     def __getitem__(self, idxs):
         out = np.ndarray.__getitem__(self, idxs)
         if not getattr(out, "shape", None):
@@ -116,7 +131,7 @@ class NomialArray(ReprMixin, np.ndarray):
     def __new__(cls, input_array):
         "Constructor. Required for objects inheriting from np.ndarray."
         # Input is an already formed ndarray instance cast to our class type
-        return np.asarray(input_array).view(cls)
+        return np.asarray(elementwise(input_array)).view(cls)
 
     def __array_finalize__(self, obj):
         "Finalizer. Required for objects inheriting from np.ndarray."
@@ -136,7 +151,7 @@ class NomialArray(ReprMixin, np.ndarray):
 
     def outer(self, other):
         "Returns the array and argument's outer product."
-        return NomialArray(np.outer(self, other))
+        return NomialArray(np.outer(self, elementwise(other)))
 
     def vectorize(self, function, *args, **kwargs):
         "Apply a function to each terminal constraint, returning the array"
@@ -152,21 +167,20 @@ class NomialArray(ReprMixin, np.ndarray):
             raise ValueError("cannot sum NomialArray of size 0")
         if args or kwargs or not self.shape:
             return np.ndarray.sum(self, *args, **kwargs)
-        hmap = NomialMap()
+        hmap = None
         for p in self.flat:  # pylint:disable=not-an-iterable
-            if not hmap and hasattr(p, "units"):
-                hmap.units = p.units
             if hasattr(p, "hmap"):
-                hmap += p.hmap
-            else:
-                if hasattr(p, "units"):
-                    p = p.to(hmap.units).magnitude
-                elif hmap.units and p and not np.isnan(p):
-                    p /= float(hmap.units)
-                hmap[EMPTY_HV] = p + hmap.get(EMPTY_HV, 0)
-        if len(hmap) > 1 and not hmap.get(EMPTY_HV, 1):
-            del hmap[EMPTY_HV]  # remove zeros that became superfluous
-        out = Signomial(hmap)
+                pmap = p.hmap
+            elif p:
+                pmap = NomialMap({EMPTY_HV: mag(p)})
+                if hmap is not None and not hasattr(p, "units") and np.isnan(p):
+                    pmap.units = hmap.units
+                else:
+                    pmap.units_of_product(p)
+            else:  # p is zero
+                continue
+            hmap = hmap + pmap if hmap is not None else pmap
+        out = Signomial(hmap if hmap is not None else 0)
         out.ast = ("sum", (self, None))
         return out
 
@@ -176,17 +190,17 @@ class NomialArray(ReprMixin, np.ndarray):
             raise ValueError("cannot prod NomialArray of size 0")
         if args or kwargs:
             return np.ndarray.prod(self, *args, **kwargs)
-        c, exp = 1.0, HashVector()
-        hmap = NomialMap()
+        exp = HashVector()
+        hmap = NomialMap({EMPTY_HV: 1.0})
         for m in self.flat:  # pylint:disable=not-an-iterable
             try:
                 (mexp, mc), = m.hmap.items()
             except (AttributeError, ValueError):
                 return np.ndarray.prod(self, *args, **kwargs)
-            c *= mc
             exp += mexp
-            if m.units:
-                hmap.units = (hmap.units or 1) * m.units
+            hmap[EMPTY_HV] *= mc
+            hmap.units_of_product(hmap.units, m.units)
+        c = hmap.pop(EMPTY_HV)
         hmap[exp if c else EMPTY_HV] = c
         out = Signomial(hmap)
         out.ast = ("prod", (self, None))
-- 
2.43.0


From c7ed801078eff8112287b3bcec09817fd12c899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:15 +0000
Subject: [PATCH 53/91] fix: comparing an expression with an array of numbers
 gives array constraints

---
 gpkit/nomials/math.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 4899d2c..e1d0c25 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -171,11 +171,15 @@ class Signomial(Nomial):
     def __le__(self, other):
         if isinstance(other, (Numbers, Signomial)):
             return SignomialInequality(self, "<=", other)
+        if type(other) is np.ndarray:  # pylint: disable=unidiomatic-typecheck
+            return NomialArray(other) >= self
         return NotImplemented
 
     def __ge__(self, other):
         if isinstance(other, (Numbers, Signomial)):
             return SignomialInequality(self, ">=", other)
+        if type(other) is np.ndarray:  # pylint: disable=unidiomatic-typecheck
+            return NomialArray(other) <= self
         return NotImplemented
 
     def __add__(self, other, rev=False):
@@ -275,7 +279,8 @@ class Posynomial(Signomial):
     def __le__(self, other):
         if isinstance(other, Numbers + (Monomial,)):
             return PosynomialInequality(self, "<=", other)
-        return NotImplemented
+        return super().__le__(other) if type(other) is np.ndarray \
+            else NotImplemented
 
     # Posynomial.__ge__ falls back on Signomial.__ge__
 
@@ -338,6 +343,8 @@ class Monomial(Posynomial):
         return NotImplemented
 
     def __eq__(self, other):
+        if type(other) is np.ndarray:  # pylint: disable=unidiomatic-typecheck
+            return NomialArray(other) == self
         if isinstance(other, MONS):
             try:  # if both are monomials, return a constraint
                 return MonomialEquality(self, other)
@@ -350,9 +357,8 @@ class Monomial(Posynomial):
     def __ge__(self, other):
         if isinstance(other, Numbers + (Posynomial,)):
             return PosynomialInequality(self, ">=", other)
-        # elif isinstance(other, np.ndarray):
-        #     return other.__le__(self, rev=True)
-        return NotImplemented
+        return super().__ge__(other) if type(other) is np.ndarray \
+            else NotImplemented
 
     # Monomial.__le__ falls back on Posynomial.__le__
 
-- 
2.43.0


From 5bd04d88193445d74e83d9fa681fa4d0b54e98e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:15 +0000
Subject: [PATCH 54/91] fix: printing expressions with lists as exponents or
 arrays with units

---
 gpkit/repr_conventions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 2097030..0b83022 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -51,7 +51,7 @@ def latex_unitstr(units):
 
 def strify(val, excluded):
     "Turns a value into as pretty a string as possible."
-    if isinstance(val, Numbers):
+    if isinstance(val, Numbers) and not np.ndim(getattr(val, "magnitude", val)):
         isqty = hasattr(val, "magnitude")
         if isqty:
             units = val
@@ -136,7 +136,7 @@ class ReprMixin:
             x = values[1]
             if left == "1":
                 aststr = "1"
-            elif (UNICODE_EXPONENTS and not getattr(x, "shape", None)
+            elif (UNICODE_EXPONENTS and not np.ndim(x)
                   and int(x) == x and 2 <= x <= 9):
                 x = int(x)
                 if x in (2, 3):
-- 
2.43.0


From b125f4d90641f8a3b3ae6ca7cbf5591966d40696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:03 +0000
Subject: [PATCH 55/91] fix: derivatives convert coefficients when units cancel

---
 gpkit/nomials/math.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index e1d0c25..7d00455 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -84,6 +84,9 @@ class Signomial(Nomial):
             diff.units = None
         else:
             diff = self.hmap.diff(var)
+            # units that cancel are converted once there are terms to convert
+            diff.units_of_product(self.units,
+                                  1/var.units if var.units else None)
         return Signomial(diff, require_positive=False)
 
     def posy_negy(self):
-- 
2.43.0


From 7298e4965578de187c7d8a47e707e3c3a0a5e0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:35 +0000
Subject: [PATCH 56/91] fix: values declared under Vectorize keep double
 precision

---
 gpkit/nomials/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/variables.py b/gpkit/nomials/variables.py
index 90ac7b4..14e02c2 100644
--- a/gpkit/nomials/variables.py
+++ b/gpkit/nomials/variables.py
@@ -141,7 +141,7 @@ class ArrayVariable(NomialArray):  # pylint: disable=too-many-locals
         if value_option and not hasattr(values, "__call__"):
             if Vectorize.vectorization:
                 if not hasattr(values, "shape"):
-                    values = np.full(shape, values, "f")
+                    values = np.full(shape, values, float)
                 else:
                     values = np.broadcast_to(values, reversed(shape)).T
             elif not hasattr(values, "shape"):
-- 
2.43.0


From b76d226f92e85e04a541c8dd903dc06588a7edb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:35 +0000
Subject: [PATCH 57/91] fix: a vector is found in a model before any name has
 been looked up

---
 gpkit/keydict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 24d02ab..c92be73 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -320,6 +320,8 @@ class KeySet(KeyMap, set):
         "Iterates through the dictionary created by args and kwargs"
         for key in keys:
             self.keymap[key].add(key)
+            if key.veckey:
+                self.keymap[key.veckey].add(key)
         self._unmapped_keys.update(keys)
         super().update(keys)
 
-- 
2.43.0


From ad9117ed1a44c4412c6a6b91060ef6eb83108082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:43 +0000
Subject: [PATCH 58/91] fix: ConstraintsRelaxed relaxes nested and vector
 constraints

---
 gpkit/constraints/relax.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 5014723..d27b43f 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -82,13 +82,14 @@ class ConstraintsRelaxed(ConstraintSet):
             original_constraints = ConstraintSet(original_constraints)
         self.original_constraints = original_constraints
         original_substitutions = original_constraints.substitutions
+        self.flat_originals = list(original_constraints.flat())
         with NamedVariables("Relax"):
-            self.relaxvars = VectorVariable(len(original_constraints), "C")
+            self.relaxvars = VectorVariable(len(self.flat_originals), "C")
 
         with SignomialsEnabled():
             relaxed_constraints = [
                 c.relaxed(self.relaxvars[i])
-                for i, c in enumerate(original_constraints.flat())]
+                for i, c in enumerate(self.flat_originals)]
 
         ConstraintSet.__init__(self, {
             "minimum relaxation": self.relaxvars >= 1,
@@ -105,7 +106,7 @@ class ConstraintsRelaxed(ConstraintSet):
                               range(len(self["relaxed constraints"])))
         for relaxval, i in relaxed:
             relax_percent = "%i%%" % (0.5+(relaxval-1)*100)
-            oldconstraint = self.original_constraints[i]
+            oldconstraint = self.flat_originals[i]
             newconstraint = self["relaxed constraints"][i][0]
             subs = {self.relaxvars[i]: relaxval}
             relaxdleft = newconstraint.left.sub(subs)
-- 
2.43.0


From cae109cae05d733c5c54f2c83ab08193e736d956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:43 +0000
Subject: [PATCH 59/91] fix: results of relaxations that had nothing to relax

---
 gpkit/constraints/relax.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index d27b43f..e0c3064 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -236,6 +236,8 @@ class ConstantsRelaxed(ConstraintSet):
 def get_relaxed(relaxvals, mapped_list):
     "Returns 'relaxed' vals (those above an arbitrary threshold of 1.01)."
     sortrelaxed = sorted(zip(relaxvals, mapped_list), key=lambda x: -x[0])
+    if not sortrelaxed:  # there was nothing to relax
+        return sortrelaxed
     mostrelaxed = max(sortrelaxed[0][0], 1.01)
     for i, (val, _) in enumerate(sortrelaxed):
         if val <= 1.01 and (val-1) <= (mostrelaxed-1)/10:
-- 
2.43.0


From cceb126a564caf6f399efd3e33abbfc14535c3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:43 +0000
Subject: [PATCH 60/91] fix: relaxed constants whose names print the same stay
 bounded

---
 gpkit/constraints/relax.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index e0c3064..91c35c0 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -201,9 +201,9 @@ class ConstantsRelaxed(ConstraintSet):
             self._derelax_map[newconst.key] = const
             # add constraints so the newly freed's wiggle room
             # is proportional to the value relaxvar, and it can't antirelax
-            relaxation_constraints[str(const)] = [relaxvar >= 1,
-                                                  newconst/relaxvar <= freed,
-                                                  freed <= newconst*relaxvar]
+            relaxation_constraints.setdefault(str(const), []).extend(
+                [relaxvar >= 1,
+                 newconst/relaxvar <= freed, freed <= newconst*relaxvar])
         ConstraintSet.__init__(self, {
             "original constraints": constraints,
             "relaxation constraints": relaxation_constraints})
-- 
2.43.0


From 08e99b59de8d4ac98e897411d87ee3bdb32fd628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:43 +0000
Subject: [PATCH 61/91] fix: chains of linked constants, and those swept, can
 be relaxed

---
 gpkit/constraints/relax.py | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 91c35c0..f3623d0 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -3,7 +3,7 @@ from .set import ConstraintSet
 from ..nomials import Variable, VectorVariable, parse_subs, NomialArray
 from ..keydict import KeyDict
 from .. import NamedVariables, SignomialsEnabled
-from ..small_scripts import appendsolwarning, mag
+from ..small_scripts import appendsolwarning, isnan, mag
 
 
 class ConstraintsRelaxedEqually(ConstraintSet):
@@ -163,9 +163,9 @@ class ConstantsRelaxed(ConstraintSet):
         substitutions = KeyDict(constraints.substitutions)
         constants, _, linked = parse_subs(constraints.vks, substitutions)
         if linked:
-            kdc = KeyDict(constants)
+            values = evaluated_links(linked, constants)
             constrained_varkeys = constraints.constrained_varkeys()
-            constants.update({k: f(kdc) for k, f in linked.items()
+            constants.update({k: val for k, val in values.items()
                               if k in constrained_varkeys})
 
         self._derelax_map = {}
@@ -204,6 +204,15 @@ class ConstantsRelaxed(ConstraintSet):
             relaxation_constraints.setdefault(str(const), []).extend(
                 [relaxvar >= 1,
                  newconst/relaxvar <= freed, freed <= newconst*relaxvar])
+        if linked:  # those not relaxed keep their values if they would lose
+            free = {var.key for var in self.freedvars}  # what they depend on
+            unrelaxed = {k: f for k, f in linked.items()
+                         if k in values and k not in free}
+            still_linked = evaluated_links(
+                unrelaxed, {k: val for k, val in constants.items()
+                            if k not in free and k not in unrelaxed})
+            substitutions.update({k: values[k] for k in unrelaxed
+                                  if k not in still_linked})
         ConstraintSet.__init__(self, {
             "original constraints": constraints,
             "relaxation constraints": relaxation_constraints})
@@ -233,6 +242,25 @@ class ConstantsRelaxed(ConstraintSet):
             appendsolwarning(msg, freed, result, "Relaxed Constants")
 
 
+def evaluated_links(linked, constants):
+    "Returns the values of those linked functions that need only constants."
+    kdc, values = KeyDict(constants), {}
+    evaluated = True
+    while evaluated:  # functions may use the values of other linked variables
+        evaluated = False
+        for k, f in linked.items():
+            if k not in values:
+                try:
+                    value = f(kdc)
+                    if isnan(value).any():
+                        continue  # an element it uses has no value yet
+                except Exception:  # pylint: disable=broad-except
+                    continue
+                values[k] = kdc[k] = value
+                evaluated = True
+    return values
+
+
 def get_relaxed(relaxvals, mapped_list):
     "Returns 'relaxed' vals (those above an arbitrary threshold of 1.01)."
     sortrelaxed = sorted(zip(relaxvals, mapped_list), key=lambda x: -x[0])
-- 
2.43.0


From ee7291dc9b43798c682498a527d3a07c75c0c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:50 +0000
Subject: [PATCH 62/91] fix: relaxed signomial constraints are reported

---
 gpkit/constraints/relax.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index f3623d0..6ecc0f2 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -109,8 +109,10 @@ class ConstraintsRelaxed(ConstraintSet):
             oldconstraint = self.flat_originals[i]
             newconstraint = self["relaxed constraints"][i][0]
             subs = {self.relaxvars[i]: relaxval}
-            relaxdleft = newconstraint.left.sub(subs)
-            relaxdright = newconstraint.right.sub(subs)
+            relaxdleft = newconstraint.left.sub(
+                subs, require_positive=False)
+            relaxdright = newconstraint.right.sub(
+                subs, require_positive=False)
             oldleftstr = str(oldconstraint.left)
             relaxedleftstr = str(relaxdleft)
             padding = len(relaxedleftstr) - len(oldleftstr)
-- 
2.43.0


From a2406817c8a41de459b9c74dff85a1ce659e06f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:41 +0000
Subject: [PATCH 63/91] fix: an element's sweep does not make constants of its
 neighbours sweeps

---
 gpkit/nomials/substitution.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/substitution.py b/gpkit/nomials/substitution.py
index eaef8ff..df12238 100644
--- a/gpkit/nomials/substitution.py
+++ b/gpkit/nomials/substitution.py
@@ -38,6 +38,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
     if sweepsub:  # if the whole key is swept
         sub = sweepval
     for key in keys:
+        swept = sweepsub
         magn = mag(sub)  # NOTE: all Quantities have a __len__ attribute
         if not key.shape or not getattr(magn, "shape",
                                         hasattr(magn, "__len__")):
@@ -55,7 +56,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
                 sweepel, sweepval = splitsweep(value)
                 if sweepel:  # if only an element is swept
                     value = sweepval
-                    sweepsub = True
+                    swept = True
             elif sweepsub:
                 try:
                     np.broadcast(sub, np.empty(key.shape))
@@ -73,7 +74,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
                                  (sub.shape, key.veckey, key.shape))
         if hasattr(value, "__call__") and not hasattr(value, "key"):
             linkedsweep[key] = value
-        elif sweepsub:
+        elif swept:
             sweep[key] = value
         else:
             try:
-- 
2.43.0


From cbb3f1ccd273fc7efae0af210bfa0c8c65a6d83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:58 +0000
Subject: [PATCH 64/91] fix: debug models without constants to relax

Diagnosing a model that has no substitutions, or only zero or swept
ones, raised an UnboundLocalError or a ValueError.
---
 gpkit/constraints/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 2c8bff7..455ee75 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -170,8 +170,8 @@ class Model(CostedConstraintSet):
         solveargs["process_result"] = False
 
         bounded = Bounded(self)
-        if self.substitutions:
-            tants = ConstantsRelaxed(bounded)
+        tants = ConstantsRelaxed(bounded)
+        if tants.freedvars:
             feas = Model(tants.relaxvars.prod()**30 * self.cost, tants)
         else:
             feas = Model(self.cost, bounded)
-- 
2.43.0


From 386297e4167430da6a41fec7db138051c7ff8165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:58 +0000
Subject: [PATCH 65/91] fix: raise Infeasible when debugging finds nothing

A failed solve that .debug() could not explain either returned None,
and Model.solve crashed processing it.
---
 gpkit/constraints/gp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index aeb0382..75e52fe 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -232,7 +232,9 @@ class GeometricProgram:
                     and self.model is not None):  # fast, top-level model
                 print(msg + "\nSince the model solved in less than a second,"
                       " let's run `.debug()` to analyze what happened.\n`")
-                return self.model.debug(solver=solver)
+                debugged = self.model.debug(solver=solver)
+                if debugged is not None:
+                    return debugged
             # else, raise a clarifying error
             msg += (" Running `.debug()` may pinpoint the trouble. You can"
                     " also try another solver, or increase the verbosity.")
-- 
2.43.0


From fa66f4e8915a20c3c514580c874230c25b00de1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:49 +0000
Subject: [PATCH 66/91] fix: debugging survives models that are also unbounded

The constraints were relaxed without bounding the variables, so that
UnboundedGP escaped from debug.
---
 gpkit/constraints/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 455ee75..57c8db2 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -189,13 +189,15 @@ class Model(CostedConstraintSet):
                 print("<DEBUG> Model is not feasible with relaxed constants"
                       " and bounded variables.")
             traints = ConstraintsRelaxed(self)
-            feas = Model(traints.relaxvars.prod()**30 * self.cost, traints)
+            feas = Model(traints.relaxvars.prod()**30 * self.cost,
+                         [traints, bounded["variable bounds"]])
             try:
                 try:
                     sol = feas.solve(**solveargs)
                 except InvalidGPConstraint:
                     sol = feas.sp(use_pccp=False).localsolve(**solveargs)
                 # limited results processing
+                bounded.check_boundaries(sol)
                 traints.check_relaxed(sol)
             except Infeasible:
                 print("<DEBUG> Model is not feasible with bounded constraints.")
-- 
2.43.0


From 251d1429f514609d29bbb35454cd64fb33821892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 67/91] fix: do not pass process_result on to solvers

Solver functions that take no other arguments than documented could not
be used for debugging.
---
 gpkit/constraints/model.py          |  5 ++---
 gpkit/constraints/prog_factories.py | 14 +++++++++-----
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 57c8db2..53fdf10 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -167,7 +167,6 @@ class Model(CostedConstraintSet):
         sol = None
         solveargs["solver"] = solver
         solveargs["verbosity"] = verbosity - 1
-        solveargs["process_result"] = False
 
         bounded = Bounded(self)
         tants = ConstantsRelaxed(bounded)
@@ -178,7 +177,7 @@ class Model(CostedConstraintSet):
 
         try:
             try:
-                sol = feas.solve(**solveargs)
+                sol = feas.solve(process_result=False, **solveargs)
             except InvalidGPConstraint:
                 sol = feas.sp(use_pccp=False).localsolve(**solveargs)
             # limited results processing
@@ -193,7 +192,7 @@ class Model(CostedConstraintSet):
                          [traints, bounded["variable bounds"]])
             try:
                 try:
-                    sol = feas.solve(**solveargs)
+                    sol = feas.solve(process_result=False, **solveargs)
                 except InvalidGPConstraint:
                     sol = feas.sp(use_pccp=False).localsolve(**solveargs)
                 # limited results processing
diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 50a86d5..8b68312 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -98,7 +98,7 @@ def progify(program, return_attr=None):
 def solvify(genfunction):
     "Returns function for making/solving/sweeping a program."
     def solvefn(self, solver=None, *, verbosity=1, skipsweepfailures=False,
-                **solveargs):
+                process_result=True, **solveargs):
         """Forms a mathematical program and attempts to solve it.
 
          Arguments
@@ -110,6 +110,8 @@ def solvify(genfunction):
              Is decremented by one and then passed to programs.
          skipsweepfailures : bool (default False)
              If True, when a solve errors during a sweep, skip it.
+         process_result : bool (default True)
+             If True, lets the model's constraints process each result.
          **solveargs : Passed to solve() call
 
          Returns
@@ -129,11 +131,12 @@ def solvify(genfunction):
         # NOTE SIDE EFFECTS: self.program and self.solution set below
         if sweep:
             run_sweep(genfunction, self, solution, skipsweepfailures,
-                      constants, sweep, linked, solver, verbosity, **solveargs)
+                      constants, sweep, linked, solver, verbosity,
+                      process_result, **solveargs)
         else:
             self.program, progsolve = genfunction(self)
             result = progsolve(solver, verbosity=verbosity, **solveargs)
-            if solveargs.get("process_result", True):
+            if process_result:
                 self.process_result(result)
             solution.append(result)
         solution.to_arrays()
@@ -144,7 +147,8 @@ def solvify(genfunction):
 
 # pylint: disable=too-many-locals,too-many-arguments,too-many-branches
 def run_sweep(genfunction, self, solution, skipsweepfailures,
-              constants, sweep, linked, solver, verbosity, **solveargs):
+              constants, sweep, linked, solver, verbosity,
+              process_result, **solveargs):
     "Runs through a sweep."
     # sort sweeps by the eqstr of their varkey
     sweepvars, sweepvals = zip(*sorted(list(sweep.items()),
@@ -172,7 +176,7 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
             program, solvefn = genfunction(self, constants)
             self.program.append(program)  # NOTE: SIDE EFFECTS
             result = solvefn(solver, verbosity=verbosity-1, **solveargs)
-            if solveargs.get("process_result", True):
+            if process_result:
                 self.process_result(result)
             solution.append(result)
         except Infeasible as e:
-- 
2.43.0


From fa926be46ec0f8878dab87b4cc02b08ffaa5c210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:09 +0000
Subject: [PATCH 68/91] fix: debug models without constraints

Relaxing no constraints raised a ValueError from debug.
---
 gpkit/constraints/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 53fdf10..a8bed50 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -187,6 +187,8 @@ class Model(CostedConstraintSet):
             if verbosity:
                 print("<DEBUG> Model is not feasible with relaxed constants"
                       " and bounded variables.")
+            if not list(self.flat()):  # then there's nothing else to relax
+                return None
             traints = ConstraintsRelaxed(self)
             feas = Model(traints.relaxvars.prod()**30 * self.cost,
                          [traints, bounded["variable bounds"]])
-- 
2.43.0


From 87f93bc5a249fc6789825ac63ced1089f52ceec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:57 +0000
Subject: [PATCH 69/91] fix: mosek_cli removes its temp directory when solving
 fails

It was only removed after a successful solve.
---
 gpkit/solvers/mosek_cli.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gpkit/solvers/mosek_cli.py b/gpkit/solvers/mosek_cli.py
index 32e25d1..c4c6ce8 100644
--- a/gpkit/solvers/mosek_cli.py
+++ b/gpkit/solvers/mosek_cli.py
@@ -114,15 +114,19 @@ def optimize_generator(path=None, **_):
             assert_equal(f.readline(), "INDEX   ACTIVITY")
             dual_vals = read_vals(f)
 
-        if tmpdir:
-            shutil.rmtree(path, ignore_errors=False, onerror=remove_read_only)
-
         return dict(status=solsta[:-1],
                     objective=objective_val,
                     primal=primal_vals,
                     nu=dual_vals)
 
-    return optimize
+    def clean_optimize(**kwargs):
+        "Removes the temp directory, whatever happens while optimizing"
+        try:
+            return optimize(**kwargs)
+        finally:
+            shutil.rmtree(path, ignore_errors=False, onerror=remove_read_only)
+
+    return clean_optimize if tmpdir else optimize
 
 
 def write_output_file(filename, c, A, p_idxs):
-- 
2.43.0


From 60b5fbd0bc931a02f4157af6e5c06422e6d4e29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:16 +0000
Subject: [PATCH 70/91] fix: mosek_cli never reads the solution of an earlier
 solve

Given a path for its files, and a solver that wrote no solution, it
returned that of the last solve which had put its files there.
---
 gpkit/solvers/mosek_cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/solvers/mosek_cli.py b/gpkit/solvers/mosek_cli.py
index c4c6ce8..56db249 100644
--- a/gpkit/solvers/mosek_cli.py
+++ b/gpkit/solvers/mosek_cli.py
@@ -82,6 +82,8 @@ def optimize_generator(path=None, **_):
 
         # run mskexpopt and print stdout
         solution_filename = filename + ".sol"
+        if os.path.exists(solution_filename):  # from another solve
+            os.remove(solution_filename)
         try:
             for logline in check_output(["mskexpopt", filename, "-sol",
                                          solution_filename]).split(b"\n"):
-- 
2.43.0


From 428c88b495593f1d2e0fe98b253fb680fc073736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:16 +0000
Subject: [PATCH 71/91] fix: reject incomplete dual solutions

If a solver returned too few dual values some sensitivities were
silently dropped, or a ValueError was raised by the solution check.
---
 gpkit/constraints/gp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 75e52fe..c3ba56d 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -282,6 +282,8 @@ class GeometricProgram:
         if "nu" in solver_out:
             # solver gave us monomial sensitivities, generate posynomial ones
             solver_out["nu"] = nu = np.ravel(solver_out["nu"])
+            if len(nu) != len(self.cs):
+                raise RuntimeWarning("The dual solution was not returned.")
             nu_by_posy = [nu[mi] for mi in self.m_idxs]
             solver_out["la"] = la = np.array([sum(nup) for nup in nu_by_posy])
         elif "la" in solver_out:
@@ -289,6 +291,8 @@ class GeometricProgram:
             if len(la) == len(self.hmaps) - 1:
                 # assume solver dropped the cost's sensitivity (always 1.0)
                 la = np.hstack(([1.0], la))
+            if len(la) != len(self.hmaps):
+                raise RuntimeWarning("The dual solution was not returned.")
             # solver gave us posynomial sensitivities, generate monomial ones
             solver_out["la"] = la
             z = np.log(self.cs) + self.A.dot(solver_out["primal"])
-- 
2.43.0


From bf927e9e71e947e8878b24a87c22aa867857c33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:32 +0000
Subject: [PATCH 72/91] fix: declarations in documentation are taken from their
 own lines only

A declaration whose text also occurs earlier replaced another one; labels
that mention a heading started a section; labels with backslashes,
Variable( or ') were altered; spaces after the units and lines without a
name ended in an IndexError or UnboundLocalError.
---
 gpkit/tools/docstring.py | 52 +++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/gpkit/tools/docstring.py b/gpkit/tools/docstring.py
index 5105ca7..757bf8f 100644
--- a/gpkit/tools/docstring.py
+++ b/gpkit/tools/docstring.py
@@ -127,32 +127,28 @@ def parse_varstring(string):
 def vv_declare(string, flag, idx2, countstr):
     "Turns Variable declarations into VectorVariable ones"
     length = string[len(flag):idx2].strip()
-    return countstr.replace("Variable(", "VectorVariable(%s, " % length)
+    return re.sub(r"^(\S+ = \S+ = )Variable\(",
+                  lambda m: m.group(1) + "VectorVariable(%s, " % length,
+                  countstr, flags=re.MULTILINE)
 
 
 # pylint: disable=unused-argument
 def constant_declare(string, flag, idx2, countstr):
     "Turns Variable declarations into Constant ones"
-    return countstr.replace("')", "', constant=True)")
+    return re.sub(r"\)$", ", constant=True)", countstr, flags=re.MULTILINE)
 
 
-# pylint: disable=too-many-locals
 def check_and_parse_flag(string, flag, declaration_func=None):
     "Checks for instances of flag in string and parses them."
     overallstr = ""
-    originalstr = string
     lineidxs = []
-    for _ in range(string.count(flag)):
+    lines = string.split("\n")
+    for headidx, header in enumerate(lines[:-1]):
+        idx = (header + "\n").find(flag)
+        if idx == -1 or "[" in header[:idx]:  # labels may mention flags
+            continue
         countstr = ""
-        idx = string.index(flag)
-        string = string[idx:]
-        if idx == -1:
-            idx = 0
-            skiplines = 0
-        else:
-            skiplines = 2
-        idx2 = 0 if "\n" in flag else string.index("\n")
-        for line in string[idx2:].split("\n")[skiplines:]:
+        for lineidx, line in enumerate(lines[headidx+2:], headidx+2):
             if not line.strip():  # whitespace only
                 break
             try:
@@ -162,21 +158,13 @@ def check_and_parse_flag(string, flag, declaration_func=None):
                                  " not found on the line reading:\n"
                                  "    %s" % line)
             nameval = line[:line.index("[")].split()
-            labelstart = line.index("]") + 1
-            if labelstart >= len(line):
-                label = ""
-            else:
-                while line[labelstart] == " ":
-                    labelstart += 1
-                label = line[labelstart:].replace("'", "\\'")
+            label = line[line.index("]")+1:].lstrip(" ")
             countstr += variable_declaration(nameval, units, label, line)
             # note that this is a 0-based line indexing
-            lineidxs.append(originalstr[:originalstr.index(line)].count("\n"))
-        if declaration_func is None:
-            overallstr += countstr
-        else:
-            overallstr += declaration_func(string, flag, idx2, countstr)
-        string = string[idx2+len(flag):]
+            lineidxs.append(lineidx)
+        if declaration_func is not None:
+            countstr = declaration_func(header[idx:], flag, None, countstr)
+        overallstr += countstr
     return overallstr, lineidxs
 
 
@@ -192,10 +180,14 @@ def variable_declaration(nameval, units, label, line, errorcatch=True):
                          " (separated by whitespace) were found between Value"
                          " '%s' and the Units `%s`. %s"
                          % (line, nameval[1], units, PARSETIP))
+    if not nameval:
+        raise ValueError("while parsing the line '%s', no Name was found"
+                         " before the Units `%s`. %s"
+                         % (line, units, PARSETIP))
     if len(nameval) == 2:
-        out = ("{0} = self.{0} = Variable('{0}', {1}, '{2}', '{3}')")
+        out = ("{0} = self.{0} = Variable({0!r}, {1}, {2!r}, {3!r})")
         out = out.format(nameval[0], nameval[1], units, label)
-    elif len(nameval) == 1:
-        out = ("{0} = self.{0} = Variable('{0}', '{1}', '{2}')")
+    else:
+        out = ("{0} = self.{0} = Variable({0!r}, {1!r}, {2!r})")
         out = out.format(nameval[0], units, label)
     return out + "\n"
-- 
2.43.0


From 2b1f0f1b32bbb786752580350077703f5b369682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:59 +0000
Subject: [PATCH 73/91] fix: declarations may be read from text that is not
 above the function

Line numbers became negative if the text was longer than the file above.
---
 gpkit/tools/docstring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/tools/docstring.py b/gpkit/tools/docstring.py
index 757bf8f..e7e9ca8 100644
--- a/gpkit/tools/docstring.py
+++ b/gpkit/tools/docstring.py
@@ -102,7 +102,7 @@ parse_variables is no longer used directly with exec, but as a decorator:
         new_src = "\n".join([l[first_indent_length:-1] for l in new_lines
                              if "#" not in l[:first_indent_length]])
         new_ast = ast.parse(new_src, "<parse_variables>")
-        ast.increment_lineno(new_ast, n=lineno-len(parse_lines))
+        ast.increment_lineno(new_ast, n=max(lineno-len(parse_lines), 0))
         code = compile(new_ast, inspect.getsourcefile(function), "exec",
                        dont_inherit=True)  # don't inherit __future__ from here
         out = {}
-- 
2.43.0


From 65d0822cfa52de580d4fe46388d40f83c86d319a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:08 +0000
Subject: [PATCH 74/91] fix: an equality with one variable bounds it

---
 gpkit/nomials/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 7d00455..5bb5b50 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -538,7 +538,7 @@ class MonomialEquality(PosynomialInequality):
         self.bounded = set()
         self.meq_bounded = {}
         self._las = []
-        if self.unsubbed and len(self.vks) > 1:
+        if self.unsubbed:
             exp, = self.unsubbed[0].hmap
             for key, e in exp.items():
                 s_e = np.sign(e)
-- 
2.43.0


From cf81b62ff8ed80f0ecd325b659d8ea08e01df7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:08 +0000
Subject: [PATCH 75/91] fix: every missing bound is reported

The shortcut counting bounds was misled by declared variables that are
not in the model.
---
 gpkit/constraints/model.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index a8bed50..dabd111 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -110,12 +110,11 @@ class Model(CostedConstraintSet):
             self.missingbounds[bound] = (", but would gain it from any of"
                                          " these sets of bounds: " + bsets)
         # then add everything that's not in bounded
-        if len(bounded)+len(self.missingbounds) != 2*len(self.varkeys):
-            for key in self.varkeys:
-                for bound in ("upper", "lower"):
-                    if (key, bound) not in bounded:
-                        if (key, bound) not in self.missingbounds:
-                            self.missingbounds[(key, bound)] = ""
+        for key in self.varkeys:
+            for bound in ("upper", "lower"):
+                if (key, bound) not in bounded:
+                    if (key, bound) not in self.missingbounds:
+                        self.missingbounds[(key, bound)] = ""
         if self.missingbounds:  # anything unbounded? err!
             boundstrs = "\n".join("  %s has no %s bound%s" % (v, b, x)
                                   for (v, b), x
-- 
2.43.0


From 112316f7c8ad15b132958a0ea1da0d8f51226274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:08 +0000
Subject: [PATCH 76/91] fix: read all the lines of an unbounded section

At the end of the documentation, or before a blank line with spaces, only
the first line was read or the text after it was read as well.
---
 gpkit/tools/docstring.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/gpkit/tools/docstring.py b/gpkit/tools/docstring.py
index e7e9ca8..d2e1400 100644
--- a/gpkit/tools/docstring.py
+++ b/gpkit/tools/docstring.py
@@ -10,20 +10,20 @@ def expected_unbounded(instance, doc):
     # pylint: disable=too-many-locals,too-many-nested-blocks
     exp_unbounded = set()
     for direction in ["upper", "lower"]:
-        flag = direction[0].upper()+direction[1:]+" Unbounded\n"
-        count = doc.count(flag)
-        if count == 0:
+        flag = direction[0].upper()+direction[1:]+" Unbounded"
+        lines = doc.split("\n")
+        heads = [i for i, line in enumerate(lines[:-1])
+                 if line.endswith(flag) and "[" not in line]
+        if not heads:
             continue
-        if count > 1:
+        if len(heads) > 1:
             raise ValueError("multiple instances of %s" % flag)
-
-        idx = doc.index(flag) + len(flag)
-        idx2 = doc[idx:].index("\n")
-        try:
-            idx3 = doc[idx:][idx2+1:].index("\n\n")
-        except ValueError:
-            idx3 = doc[idx:][idx2+1:].index("\n")
-        varstrs = doc[idx:][idx2+1:][:idx3].strip()
+        varlines = []
+        for line in lines[heads[0]+2:]:
+            if not line.strip():  # whitespace only
+                break
+            varlines.append(line.strip())
+        varstrs = "\n".join(varlines)
         varstrs = varstrs.replace("\n", ", ")  # cross newlines
         varstrs = re.sub(" +", " ", varstrs)   # multiple-whitespace removal
         if varstrs:
-- 
2.43.0


From 0d1f558f3d170174cd600b8e810ae7e4f1455cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:53 +0000
Subject: [PATCH 77/91] fix: summaries do not alter the sensitivities of a
 solution

Small sensitivities of vector constants were overwritten with nan.
---
 gpkit/solution_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 390ff0e..133766c 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -785,7 +785,7 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
         if np.isnan(v).all() or np.nanmax(np.abs(v)) <= minval:
             continue  # no values below minval
         if minval and hidebelowminval and getattr(v, "shape", None):
-            v[np.abs(v) <= minval] = np.nan
+            v = np.where(np.abs(v) <= minval, np.nan, v)  # (not in place!)
         model = lineagestr(k.lineage) if sortbymodel else ""
         msenss = -sortmodelsbysenss.get(model, 0) if sortmodelsbysenss else 0
         if hasattr(msenss, "shape"):
-- 
2.43.0


From bb12f43e861337559bce47e92bd4d7713a81aafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:53 +0000
Subject: [PATCH 78/91] fix: tables do not add the names asked for to the
 solution

After table(showvars=['z']) an unknown 'z' was in the solution's variables.
---
 gpkit/solution_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 133766c..1cffd6e 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -631,7 +631,7 @@ class SolutionArray(DictOfLists):
         showvars_out = set()
         for k in showvars:
             k, _ = self["variables"].parse_and_index(k)
-            keys = self["variables"].keymap[k]
+            keys = self["variables"].keymap.get(k, ())
             showvars_out.update(keys)
         return showvars_out
 
-- 
2.43.0


From 301895e9129e0e295e2d9228aa5e492e39389f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:53 +0000
Subject: [PATCH 79/91] fix: solutions saved without constraints can be
 tabulated

---
 gpkit/solution_array.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 1cffd6e..9dcdbd3 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -135,6 +135,8 @@ def insenss_table(data, _, maxval=0.1, **kwargs):
 def tight_table(self, _, ntightconstrs=5, tight_senss=1e-2, **kwargs):
     "Return constraint tightness lines"
     title = "Most Sensitive Constraints"
+    if "constraints" not in self["sensitivities"]:  # e.g. saved without them
+        return []
     if len(self) > 1:
         title += " (in last sweep)"
         data = sorted(((-float("%+6.2g" % s[-1]), str(c)),
@@ -150,6 +152,8 @@ def tight_table(self, _, ntightconstrs=5, tight_senss=1e-2, **kwargs):
 def loose_table(self, _, min_senss=1e-5, **kwargs):
     "Return constraint tightness lines"
     title = "Insensitive Constraints |below %+g|" % min_senss
+    if "constraints" not in self["sensitivities"]:  # e.g. saved without them
+        return []
     if len(self) > 1:
         title += " (in last sweep)"
         data = [(0, "", id(c), c)
-- 
2.43.0


From c9b3a1c09c07e81218e356faa74a55630245b4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:53 +0000
Subject: [PATCH 80/91] fix: solutions with vectors or linked constants can be
 compared

almost_equal raised a ValueError for arrays, and it and diff a KeyError for
variables that have no sensitivity.
---
 gpkit/solution_array.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 9dcdbd3..83d3017 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -374,10 +374,12 @@ class SolutionArray(DictOfLists):
         if svks != ovks:
             return False
         for key in svks:
-            if abs(cast(np.divide, svars[key], ovars[key]) - 1) >= reltol:
+            rel_diff = cast(np.divide, svars[key], ovars[key]) - 1
+            if (np.abs(rel_diff) >= reltol).any():
                 return False
-            if abs(self["sensitivities"]["variables"][key]
-                   - other["sensitivities"]["variables"][key]) >= sens_abstol:
+            sens_diff = cast(sub, *(sol["sensitivities"]["variables"].get(key, 0)
+                                    for sol in (self, other)))
+            if (np.abs(sens_diff) >= sens_abstol).any():
                 return False
         return True
 
@@ -475,7 +477,7 @@ class SolutionArray(DictOfLists):
         if senssdiff:
             ssenss = self["sensitivities"]["variables"]
             osenss = other["sensitivities"]["variables"]
-            senss_delta = {vk: cast(sub, ssenss[vk], osenss[vk])
+            senss_delta = {vk: cast(sub, ssenss.get(vk, 0), osenss.get(vk, 0))
                            for vk in svks.intersection(ovks)}
             lines += var_table(senss_delta,
                                "Sensitivity Differences |above %g|" % sensstol,
-- 
2.43.0


From c579ee87b43b9b372e6af5b15522b172c983d958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:53 +0000
Subject: [PATCH 81/91] fix: swept vectors can be compared with those of one
 solution

---
 gpkit/solution_array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 83d3017..70ffcd4 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -297,6 +297,8 @@ def cast(function, val1, val2):
                 return function(val1, val2)
             lessdim, dimmest = sorted([val1, val2], key=lambda v: v.ndim)
             dimdelta = dimmest.ndim - lessdim.ndim
+            if lessdim.shape == dimmest.shape[dimdelta:]:  # a sweep's point
+                return function(val1, val2)
             add_axes = (slice(None),)*lessdim.ndim + (np.newaxis,)*dimdelta
             if dimmest is val1:
                 return function(dimmest, lessdim[add_axes])
-- 
2.43.0


From 47c01dc8d005a5d4924f743bc7a6501ebdd24617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:37 +0000
Subject: [PATCH 82/91] fix: cost sensitivities to elements of vectors are
 indexed in sweeps

---
 gpkit/small_classes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index 7155756..d7f9f62 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -144,8 +144,9 @@ def _index_dict(idx, d_in, d_out):
     for k, v in d_in.items():
         if isinstance(v, dict):
             d_out[k] = _index_dict(idx, v, v.__class__())
-        elif isinstance(v, list) or len(getattr(k, "shape", None)
-                                        or ()) == np.ndim(v) > 0:
+        elif isinstance(v, list) or (
+                not getattr(k, "idx", None)  # elements have scalar values
+                and len(getattr(k, "shape", None) or ()) == np.ndim(v) > 0):
             d_out[k] = v  # not an array over the sweep
         else:
             try:
-- 
2.43.0


From 231ff1602ab2c9506b3434c554a69d7e4e0335b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:48 +0000
Subject: [PATCH 83/91] fix: nomials loaded in another process equal those made
 there

---
 gpkit/small_classes.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index d7f9f62..3a4d55c 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -196,6 +196,12 @@ class HashVector(dict):
             self.hashvalue = reduce(xor, map(hash, self.items()), 0)
         return self.hashvalue
 
+    def __getstate__(self):
+        "Stores all but the hash, which differs between processes"
+        state = self.__dict__.copy()
+        state.pop("hashvalue", None)
+        return state
+
     def copy(self):
         "Return a copy of this"
         hv = self.__class__(self)
-- 
2.43.0


From 4534af4b3076434c103bd2ed6df74602e8093cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:36 +0000
Subject: [PATCH 84/91] fix: tables that fail leave the names of variables as
 they were

---
 gpkit/solution_array.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 70ffcd4..9316b15 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -522,11 +522,13 @@ class SolutionArray(DictOfLists):
         for key in self.name_collision_varkeys():
             key.descr["necessarylineage"] = True
         names = {}
-        for key in showvars or self["variables"]:
-            for k in self["variables"].keymap[key]:
-                names[k.str_without(exclude)] = k
-        for key in self.name_collision_varkeys():
-            del key.descr["necessarylineage"]
+        try:
+            for key in showvars or self["variables"]:
+                for k in self["variables"].keymap[key]:
+                    names[k.str_without(exclude)] = k
+        finally:
+            for key in self.name_collision_varkeys():
+                del key.descr["necessarylineage"]
         return names
 
     def savemat(self, filename="solution.mat", showvars=None,
@@ -699,6 +701,14 @@ class SolutionArray(DictOfLists):
             kwargs["sortbymodel"] = False
         for key in self.name_collision_varkeys():
             key.descr["necessarylineage"] = True
+        try:
+            return self._tablestr(showvars, tables, **kwargs)
+        finally:  # even if an option is wrong
+            for key in self.name_collision_varkeys():
+                del key.descr["necessarylineage"]
+
+    def _tablestr(self, showvars, tables, **kwargs):
+        "Returns the text of the given tables"
         showvars = self._parse_showvars(showvars)
         strs = []
         for table in tables:
@@ -730,8 +740,6 @@ class SolutionArray(DictOfLists):
                                   "% \\usepackage{amsmath}",
                                   "% \\begin{document}\n"))
             strs = [preamble] + strs + ["% \\end{document}"]
-        for key in self.name_collision_varkeys():
-            del key.descr["necessarylineage"]
         return "\n".join(strs)
 
     def plot(self, posys=None, axes=None):
-- 
2.43.0


From e9d992a0ec96da5d361473aff2c552e2e03f041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:59 +0000
Subject: [PATCH 85/91] fix: solutions saved without constraints can be saved
 again

---
 gpkit/solution_array.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 9316b15..802d3d6 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -41,21 +41,22 @@ class SolSavingEnvironment:
             for constraint_attr in ["bounded", "meq_bounded", "vks",
                                     "v_ss", "unsubbed", "varkeys"]:
                 store = {}
-                for constraint in self.solarray["sensitivities"]["constraints"]:
+                for constraint in self.solarray["sensitivities"].get(
+                        "constraints", ()):  # absent if loaded without them
                     if getattr(constraint, constraint_attr, None):
                         store[constraint] = getattr(constraint, constraint_attr)
                         delattr(constraint, constraint_attr)
                 self.attrstore[constraint_attr] = store
         else:
             self.constraintstore = \
-                self.solarray["sensitivities"].pop("constraints")
+                self.solarray["sensitivities"].pop("constraints", None)
 
     def __exit__(self, type_, val, traceback):
         if self.saveconstraints:
             for constraint_attr, store in self.attrstore.items():
                 for constraint, value in store.items():
                     setattr(constraint, constraint_attr, value)
-        else:
+        elif self.constraintstore is not None:
             self.solarray["sensitivities"]["constraints"] = self.constraintstore
 
 def msenss_table(data, _, **kwargs):
-- 
2.43.0


From 8b00d573425c83cde1d6dfcfb8c844110f0a836f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:46 +0000
Subject: [PATCH 86/91] fix: latex tables of models without variables

---
 gpkit/solution_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 802d3d6..70a0346 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -909,7 +909,7 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
                 line = [fmt.format(s) for fmt, s in zip(fmts, line)]
             lines[i] = "".join(line).rstrip()
         lines = [title] + ["-"*len(title)] + lines + [""]
-    else:
+    elif lines:  # some variables are in the models included
         colfmt = {1: "llcl", 2: "lcl", 3: "llc"}
         lines = (["\n".join(["{\\footnotesize",
                              "\\begin{longtable}{%s}" % colfmt[latex],
-- 
2.43.0


From 0c0873f485530da2be8363908327a631d376f2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:30 +0000
Subject: [PATCH 87/91] fix: constants that are zero in both solutions can be
 compared

---
 gpkit/solution_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 70a0346..4f1c165 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -278,7 +278,7 @@ TABLEFNS = {"sensitivities": senss_table,
 
 def unrolled_absmax(values):
     "From an iterable of numbers and arrays, returns the largest magnitude"
-    finalval, absmaxest = None, 0
+    finalval, absmaxest = 0, 0
     for val in values:
         absmaxval = np.abs(val).max()
         if absmaxval >= absmaxest:
-- 
2.43.0


From 07e5d6eb34ca6cab09ebab6d0c5c7b444b849efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:02 +0000
Subject: [PATCH 88/91] fix: sequential solves notice rising costs at any scale

A rise of the cost was compared to an absolute 1e-6 as well as to the cost
itself, so with costs of about that size or less solving stopped after a
rise, as if it had converged.
---
 gpkit/constraints/sgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 61c90d7..a731310 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -207,7 +207,7 @@ solutions and can be solved with 'Model.solve()'.""")
             if prevcost is None:
                 continue
             rel_improvement = (prevcost - cost)/(prevcost + cost)
-            if cost*(1 - EPS) > prevcost + EPS:
+            if cost*(1 - EPS) > prevcost:
                 if verbosity > -1:
                     pywarnings.warn(
                         "SGP not convergent: Cost rose by %.2g%% on GP solve"
-- 
2.43.0


From 13997de9a151e344f1d6cefb32fc77aa4cf69832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:20 +0000
Subject: [PATCH 89/91] fix: each Sankey diagram starts anew

A second diagram of the same Sankey also had all links and nodes of the
first, with those they shared added up.
---
 gpkit/interactive/sankey.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gpkit/interactive/sankey.py b/gpkit/interactive/sankey.py
index 24c7f28..6fef210 100644
--- a/gpkit/interactive/sankey.py
+++ b/gpkit/interactive/sankey.py
@@ -152,6 +152,11 @@ class Sankey:
         self.minsenss = minsenss
         self.maxlinks = maxlinks
         self.showconstraints = showconstraints
+        # each diagram starts anew
+        self.links = defaultdict(float)
+        self.links_to_target = defaultdict(int)
+        self.nodes = {}
+        self.last_top_node = None
 
         for key in self.solution.name_collision_varkeys():
             key.descr["necessarylineage"] = True
-- 
2.43.0


From b7dcb032086b8fdfae18972b52fed944d89f5ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:20 +0000
Subject: [PATCH 90/91] fix: Sankey diagrams of nested models keep their first
 level

Links are culled by depth until few enough remain, but at least a level is
kept; depths were counted by the dots in a node's name, so for models whose
label has dots itself (any nested model's has) everything was culled.
---
 gpkit/interactive/sankey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/interactive/sankey.py b/gpkit/interactive/sankey.py
index 6fef210..e4936ef 100644
--- a/gpkit/interactive/sankey.py
+++ b/gpkit/interactive/sankey.py
@@ -220,7 +220,8 @@ class Sankey:
                                             or abs(v) > INSENSITIVE))
         # ...is at culldepth, repeating up to a relative depth of 1 or 2
         culldepth = max(node.count(".") for node in self.nodes) - 1
-        mindepth = 1 if not top_node else top_node.count(".") + 1
+        # (labels, and so all nodes, may begin with dots in names)
+        mindepth = (top_node or next(iter(self.nodes))).count(".") + 1
         while len(links) > self.maxlinks and culldepth > mindepth:
             self.filter(links, lambda s, t, v: culldepth > s.count("."))
             culldepth -= 1
-- 
2.43.0


From ecb4973194e221d9ce4cd3cc9044b6c9eab6d248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:58 +0000
Subject: [PATCH 91/91] fix: Sankey diagrams of a variable beside constraints
 that always hold

Single constraints have no varkeys attribute, so diagrams of a variable's
sensitivities raised AttributeError if a constraint was not in the program.
---
 gpkit/interactive/sankey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/interactive/sankey.py b/gpkit/interactive/sankey.py
index e4936ef..7de3682 100644
--- a/gpkit/interactive/sankey.py
+++ b/gpkit/interactive/sankey.py
@@ -122,7 +122,7 @@ class Sankey:
                 total_sens = -abs(self.csenss[cset]) or -EPS
             elif var is not None:
                 if cset.v_ss is None:
-                    if var.key in cset.varkeys:
+                    if var.key in cset.vks:
                         total_sens = EPS
                 elif var.key in cset.v_ss:
                     total_sens = cset.v_ss[var.key] or EPS
-- 
2.43.0

