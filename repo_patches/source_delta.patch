From e3e69ddc7db21f78934198186b6cc982135bbcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:39 +0000
Subject: [PATCH 01/42] fix: plist and tlist slices follow list slices

---
 pcollections/_list.py | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index e77e348..24744e3 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -166,19 +166,9 @@ class plist(PersistentSequence):
         phamt = self._phamt
         n = len(phamt)
         if isinstance(k, slice):
-            (start,stop,step) = (k.start or 0, k.stop or n, k.step or 1)
-            if   start <= -n: start = 0
-            elif start < 0:   start += n
-            elif start > n:   start = n
-            if   stop <= -n: stop = 0
-            elif stop < 0:   stop += n
-            elif stop > n:   stop = n
-            if st != 0:
-                start += st
-                stop += st
             thamt = THAMT(PHAMT.empty)
-            for (ii,jj) in enumerate(range(start, stop, step)):
-                thamt[ii] = phamt[jj]
+            for (ii,jj) in enumerate(range(*k.indices(n))):
+                thamt[ii] = phamt[jj + st]
             return self._new(thamt.persistent(), 0)
         elif k >= n or k < -n:
             raise IndexError("plist index out of range")
@@ -273,19 +263,9 @@ class tlist(TransientSequence):
         thamt = self._thamt
         n = len(thamt)
         if isinstance(k, slice):
-            (start,stop,step) = (k.start or 0, k.stop or n, k.step or 1)
-            if   start <= -n: start = 0
-            elif start < 0:   start += n
-            elif start > n:   start = n
-            if   stop <= -n: stop = 0
-            elif stop < 0:   stop += n
-            elif stop > n:   stop = n
-            if st != 0:
-                start += st
-                stop += st
             new_thamt = THAMT(PHAMT.empty)
-            for (ii,jj) in enumerate(range(start, stop, step)):
-                new_thamt[ii] = thamt[jj]
+            for (ii,jj) in enumerate(range(*k.indices(n))):
+                new_thamt[ii] = thamt[jj + st]
             return self._new(new_thamt, 0)
         elif k >= n or k < -n:
             raise IndexError("tlist index out of range")
-- 
2.43.0


From 8eaa8cdcd275e63d706d96e7afaafc1354e2a658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:40 +0000
Subject: [PATCH 02/42] fix: plist.delete keeps the type of the list

---
 pcollections/_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index 24744e3..47645ae 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -92,11 +92,11 @@ class plist(PersistentSequence):
         # Some cases don't require a THAMT:
         if index == 0:
             if n == 1:
-                return plist.empty
+                return self.empty
             else:
-                return plist._new(phamt.dissoc(st), st + 1)
+                return self._new(phamt.dissoc(st), st + 1)
         elif index == n - 1:
-            return plist._new(phamt.dissoc(st + index), st)
+            return self._new(phamt.dissoc(st + index), st)
         # Other cases require moving elements around a fair bit, so we use a
         # THAMT object.
         thamt = THAMT(phamt)
-- 
2.43.0


From d6ba3546bab03210bff22ee4f0044e328995c46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:05 +0000
Subject: [PATCH 03/42] fix: sequence comparisons agree with list for
 unorderable and partially ordered elements

---
 pcollections/abc/_seq.py      | 24 +++++++++++-------------
 pcollections/util/__init__.py |  2 +-
 pcollections/util/_core.py    | 24 +++++++++++++++++++-----
 3 files changed, 31 insertions(+), 19 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 51484fa..f77613d 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -9,7 +9,7 @@ from numbers         import (Integral)
 from collections.abc import (Sequence, MutableSequence)
 
 from ._core import (Persistent, Transient)
-from ..util import (seqstr, seqcmp)
+from ..util import (seqstr, seqcmp, seqeq)
 
 
 #===============================================================================
@@ -137,27 +137,27 @@ class PersistentSequence(Persistent, Sequence):
         elif not isinstance(other, PersistentSequence._eq_types):
             return False
         else:
-            return seqcmp(self, other) == 0
+            return seqeq(self, other)
     def __lt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) < 0
+        return seqcmp(self, other) == -1
     def __le__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) <= 0
+        return seqcmp(self, other) in (-1, 0)
     def __gt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) > 0
+        return seqcmp(self, other) == 1
     def __ge__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) >= 0
+        return seqcmp(self, other) in (0, 1)
     def __hash__(self):
         return hash(tuple(self)) + 1
     def __contains__(self, value):
@@ -372,30 +372,28 @@ class TransientSequence(Transient, MutableSequence):
             return True
         elif not isinstance(other, TransientSequence._eq_types):
             return False
-        elif len(self) != len(other):
-            return False
         else:
-            return seqcmp(self, other) == 0
+            return seqeq(self, other)
     def __lt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) < 0
+        return seqcmp(self, other) == -1
     def __le__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) <= 0
+        return seqcmp(self, other) in (-1, 0)
     def __gt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) > 0
+        return seqcmp(self, other) == 1
     def __ge__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'>=' not supported between instances of"
                             f" '{type(self)}' and '{type(other)}'")
-        return seqcmp(self, other) >= 0
+        return seqcmp(self, other) in (0, 1)
     def __contains__(self, value):
         for el in self:
             if el == value:
diff --git a/pcollections/util/__init__.py b/pcollections/util/__init__.py
index af5a7e0..267d91a 100644
--- a/pcollections/util/__init__.py
+++ b/pcollections/util/__init__.py
@@ -7,4 +7,4 @@
 """Utility functions for persistent and transient collections.
 """
 
-from ._core import (setcmp, seqcmp, seqstr)
+from ._core import (setcmp, seqcmp, seqeq, seqstr)
diff --git a/pcollections/util/_core.py b/pcollections/util/_core.py
index e4255c4..f9c72ba 100644
--- a/pcollections/util/_core.py
+++ b/pcollections/util/_core.py
@@ -52,19 +52,24 @@ def seqcmp(seq1, seq2):
     """Compares one sequence to another.
 
     `seqcmp(a, b)` returns -1 if `a` sorts before `b`, 0 if `a` is equal to
-    `b`, and 1 if `a` sorts after `b`.
+    `b`, and 1 if `a` sorts after `b`. If the first elements that differ are not
+    ordered with respect to each other, then `None` is returned.
     """
     if not isinstance(seq1, Sequence):
-        msg = f"unsupported operand type for compare: {type(setq)}"
+        msg = f"unsupported operand type for compare: {type(seq1)}"
         raise TypeError(msg)
     if not isinstance(seq2, Sequence):
         msg = f"unsupported operand type for compare: {type(seq2)}"
         raise TypeError(msg)
     for (a,b) in zip(seq1, seq2):
-        if a < b:
+        if a is b or a == b:
+            continue
+        elif a < b:
             return -1
-        elif b < a:
+        elif a > b:
             return 1
+        else:
+            return None
     n1 = len(seq1)
     n2 = len(seq2)
     if n1 < n2:
@@ -73,7 +78,16 @@ def seqcmp(seq1, seq2):
         return 1
     else:
         return 0
-    
+
+def seqeq(seq1, seq2):
+    """Returns `True` if two sequences have equal elements, otherwise `False`.
+
+    Unlike `seqcmp`, this does not require that the elements can be ordered.
+    """
+    if len(seq1) != len(seq2):
+        return False
+    return all(a is b or a == b for (a,b) in zip(seq1, seq2))
+
 def seqstr(seq, maxlen=None, sep=", ", tostr=repr):
     """Returns a string representation of the given sequence or iterable.
 
-- 
2.43.0


From f9fa6ec2f2e734f4b19c38e0d5516b2c0359515d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:07 +0000
Subject: [PATCH 04/42] fix: tlist.sort sorts the tlist

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index f77613d..7959435 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -333,7 +333,7 @@ class TransientSequence(Transient, MutableSequence):
         The reverse flag can be set to sort in descending order.
         """
         for (ii,el) in enumerate(sorted(self, key=key, reverse=reverse)):
-            t[ii] = el
+            self[ii] = el
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-- 
2.43.0


From e06c161a88796edfa8031f344f9ad0ab23210176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:09 +0000
Subject: [PATCH 05/42] fix: tlist.reverse swaps the right elements

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 7959435..2cea010 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -357,7 +357,7 @@ class TransientSequence(Transient, MutableSequence):
         """Reverses *IN PLACE*."""
         n = len(self)
         for k in range(n//2):
-            kk = n - k
+            kk = n - 1 - k
             tmp = self[k]
             self[k] = self[kk]
             self[kk] = tmp
-- 
2.43.0


From f1cb6581af9aa51619f90d546a6bd85d4ac89b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:11 +0000
Subject: [PATCH 06/42] fix: list + tlist returns the tlist

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 2cea010..0485ff3 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -461,7 +461,7 @@ class TransientSequence(Transient, MutableSequence):
             t = self.copy()
             for el in reversed(obj):
                 t.prepend(el)
-            return r
+            return t
     def __imul__(self, value):
         if not isinstance(value, Integral):
             msg = f"can't multiply sequence by non-int of type '{type(value)}'"
-- 
2.43.0


From 49ebf1d45ffbeb873a29e3edad7e6a8c5b71ac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:13 +0000
Subject: [PATCH 07/42] fix: tlist *= k repeats the original elements

---
 pcollections/abc/_seq.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 0485ff3..a5275e2 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -472,13 +472,9 @@ class TransientSequence(Transient, MutableSequence):
         if reps == 0:
             self.clear()
         elif reps > 1:
-            n = len(self)
+            els = list(self)
             for r in range(reps - 1):
-                for (ii,el) in enumerate(self):
-                    if ii > n:
-                        break
-                    else:
-                        self.append(el)
+                self.extend(els)
         return self
     def __mul__(self, value):
         t = self.copy()
-- 
2.43.0


From af7bbaa27d1c616975315ae3af3a7dc0227cefb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:14 +0000
Subject: [PATCH 08/42] fix: tlist.extend accepts the tlist itself

---
 pcollections/abc/_seq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index a5275e2..a9d7135 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -410,6 +410,8 @@ class TransientSequence(Transient, MutableSequence):
         return n
     def extend(self, iterable):
         """Return a new persistent sequence with the iterables appended."""
+        if iterable is self:
+            iterable = list(iterable)
         for el in iterable:
             self.append(el)
     def index(self, value, start=0, stop=None):
-- 
2.43.0


From a77213f3e3fe25f1bfa39f96e413f9076cb7fd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:40 +0000
Subject: [PATCH 09/42] fix: count of sequences iterates the elements

---
 pcollections/abc/_seq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index a9d7135..168b11a 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -171,7 +171,7 @@ class PersistentSequence(Persistent, Sequence):
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-        for (k,obj) in self._phamt:
+        for obj in self:
             if obj == value: n += 1
         return n
     def extend(self, iterable):
@@ -405,7 +405,7 @@ class TransientSequence(Transient, MutableSequence):
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-        for (k,obj) in self._phamt:
+        for obj in self:
             if obj == value: n += 1
         return n
     def extend(self, iterable):
-- 
2.43.0


From fee4dbf8865cbd261a74f05c8d830e2487483928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 10/42] fix: index of sequences accepts negative and missing
 start and stop

---
 pcollections/abc/_seq.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 168b11a..7ea6329 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -185,8 +185,10 @@ class PersistentSequence(Persistent, Sequence):
 
         Raises ValueError if value is not present.
         """
-        if stop is None:
-            stop = len(self)
+        n = len(self)
+        if stop is None: stop = n
+        if start < 0: start = max(start + n, 0)
+        if stop < 0:  stop += n
         if start == 0:
             for (ii,val) in enumerate(self):
                 if ii >= stop:
@@ -419,6 +421,10 @@ class TransientSequence(Transient, MutableSequence):
 
         Raises ValueError if value is not present.
         """
+        n = len(self)
+        if stop is None: stop = n
+        if start < 0: start = max(start + n, 0)
+        if stop < 0:  stop += n
         if start == 0:
             for (ii,val) in enumerate(self):
                 if ii >= stop:
-- 
2.43.0


From ffc3d5b640824ba7185041248a86790007d2746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 11/42] fix: sequences find elements by identity or equality,
 as list does

---
 pcollections/abc/_seq.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 7ea6329..58a7563 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -162,7 +162,7 @@ class PersistentSequence(Persistent, Sequence):
         return hash(tuple(self)) + 1
     def __contains__(self, value):
         for el in self:
-            if el == value:
+            if el is value or el == value:
                 return True
         return False
     def __reversed__(self):
@@ -172,7 +172,7 @@ class PersistentSequence(Persistent, Sequence):
         """Returns the number of occurences of value."""
         n = 0
         for obj in self:
-            if obj == value: n += 1
+            if obj is value or obj == value: n += 1
         return n
     def extend(self, iterable):
         """Return a new persistent sequence with the iterables appended."""
@@ -193,7 +193,7 @@ class PersistentSequence(Persistent, Sequence):
             for (ii,val) in enumerate(self):
                 if ii >= stop:
                     break
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         else:
             for (ii,val) in enumerate(self):
@@ -201,7 +201,7 @@ class PersistentSequence(Persistent, Sequence):
                     break
                 elif ii < start:
                     pass
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         raise ValueError(f"{value} is not in {type(self)}")
     # We include a hash function; though this should be overwritten to cache the
@@ -340,7 +340,7 @@ class TransientSequence(Transient, MutableSequence):
         """Returns the number of occurences of value."""
         n = 0
         for obj in self:
-            if obj == value: n += 1
+            if obj is value or obj == value: n += 1
         return n
     def extend(self, iterable):
         """Extends tlist by appending elements from the iterable."""
@@ -398,7 +398,7 @@ class TransientSequence(Transient, MutableSequence):
         return seqcmp(self, other) in (0, 1)
     def __contains__(self, value):
         for el in self:
-            if el == value:
+            if el is value or el == value:
                 return True
         return False
     def __reversed__(self):
@@ -408,7 +408,7 @@ class TransientSequence(Transient, MutableSequence):
         """Returns the number of occurences of value."""
         n = 0
         for obj in self:
-            if obj == value: n += 1
+            if obj is value or obj == value: n += 1
         return n
     def extend(self, iterable):
         """Return a new persistent sequence with the iterables appended."""
@@ -429,7 +429,7 @@ class TransientSequence(Transient, MutableSequence):
             for (ii,val) in enumerate(self):
                 if ii >= stop:
                     break
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         else:
             for (ii,val) in enumerate(self):
@@ -437,7 +437,7 @@ class TransientSequence(Transient, MutableSequence):
                     break
                 elif ii < start:
                     pass
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         raise ValueError(f"{value} is not in {type(self)}")
     def __iadd__(self, obj):
-- 
2.43.0


From c229a07c2ffcf8bbebcabbe407a1e4ccf23cb7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:46 +0000
Subject: [PATCH 12/42] fix: pset.add handles hash collisions

---
 pcollections/_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pcollections/_set.py b/pcollections/_set.py
index 0f27017..e225068 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -102,6 +102,7 @@ class pset(PersistentSet):
             # list.
             new_els = self._els.assoc(self._top, (obj, None))
             new_els = new_els.assoc(ii_prev, (x_prev, self._top))
+            new_idx = self._idx
         return self._new(new_els, new_idx, self._top + 1)
     def discard(self, obj):
         """Returns a copy of the pset that does not include the given object.
-- 
2.43.0


From b885e0518d85e17b0a1ccb31c5c6e524d95df9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:48 +0000
Subject: [PATCH 13/42] fix: pdict.set handles hash collisions

---
 pcollections/_dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 347cac2..c37baab 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -205,10 +205,13 @@ class pdict(PersistentMapping):
                     else:
                         new_els = self._els.assoc(ii, ((key,val), ii_next))
                         return self._new(new_els, self._idx, self._top)
+                ii_prev = ii
+                ii = ii_next
             # If we reach this point, we can add the object to the end of the
             # list.
             new_els = self._els.assoc(self._top, ((key,val), None))
-            new_els = new_els.assoc(ii, (kv, self._top))
+            new_els = new_els.assoc(ii_prev, (kv, self._top))
+            new_idx = self._idx
         return self._new(new_els, new_idx, self._top + 1)
     def drop(self, key):
         """Returns a copy of the pdict that does not include the given key.
-- 
2.43.0


From ce6c77ac28f2cf87a056235f9a90cfdb16270f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:50 +0000
Subject: [PATCH 14/42] fix: sets and dicts find elements by identity or
 equality, as set and dict do

---
 pcollections/_dict.py | 24 ++++++++++++------------
 pcollections/_set.py  | 12 ++++++------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index c37baab..55a9f9d 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -155,7 +155,7 @@ class pdict(PersistentMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             ((kk,vv),ii) = self._els[ii]
-            if k == kk:
+            if k is kk or k == kk:
                 return True
         return False
     def __iter__(self):
@@ -167,7 +167,7 @@ class pdict(PersistentMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         raise KeyError(key)
     def get(self, key, default=None):
@@ -175,7 +175,7 @@ class pdict(PersistentMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         return default
     def transient(self):
@@ -197,7 +197,7 @@ class pdict(PersistentMapping):
             while ii is not None:
                 (kv,ii_next) = self._els[ii]
                 (k,v) = kv
-                if key == k:
+                if key is k or key == k:
                     # It is in the dict; either it's exactly in the dict or we
                     # replace it.
                     if val is v:
@@ -227,7 +227,7 @@ class pdict(PersistentMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -270,7 +270,7 @@ class pdict(PersistentMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -429,7 +429,7 @@ class tdict(TransientMapping):
         ii_prev = None
         while ii is not None:
             (kv, ii_next) = self._els[ii]
-            if kv[0] == k:
+            if kv[0] is k or kv[0] == k:
                 if kv[1] is not v:
                     self._els[ii] = ((k,v), ii_next)
                     # The object has changed, so make sure we aren't tracking
@@ -461,7 +461,7 @@ class tdict(TransientMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             ((kk,vv),ii) = self._els[ii]
-            if k == kk:
+            if k is kk or k == kk:
                 return True
         return False
     def __reversed__(self):
@@ -471,7 +471,7 @@ class tdict(TransientMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         raise KeyError(key)
     def get(self, key, default=None):
@@ -479,7 +479,7 @@ class tdict(TransientMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         return default
     def __iter__(self):
@@ -500,7 +500,7 @@ class tdict(TransientMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -545,7 +545,7 @@ class tdict(TransientMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
diff --git a/pcollections/_set.py b/pcollections/_set.py
index e225068..449ad1b 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -65,7 +65,7 @@ class pset(PersistentSet):
         ii = self._idx.get(h, None)
         while ii is not None:
             (x,ii) = self._els[ii]
-            if el == x:
+            if el is x or el == x:
                 return True
         return False
     def __iter__(self):
@@ -93,7 +93,7 @@ class pset(PersistentSet):
             ii_prev = None
             while ii is not None:
                 (x,ii_next) = self._els[ii]
-                if obj == x:
+                if obj is x or obj == x:
                     return self
                 ii_prev = ii
                 x_prev = x
@@ -117,7 +117,7 @@ class pset(PersistentSet):
         x_prev = None
         while ii is not None:
             (x,ii_next) = self._els[ii]
-            if obj == x:
+            if obj is x or obj == x:
                 # We remove this object!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -200,7 +200,7 @@ class tset(TransientSet):
         ii = self._idx.get(h, None)
         while ii is not None:
             (x,ii) = self._els[ii]
-            if el == x:
+            if el is x or el == x:
                 return True
         return False
     def __iter__(self):
@@ -221,7 +221,7 @@ class tset(TransientSet):
             ii_prev = None
             while ii is not None:
                 (x,ii_next) = self._els[ii]
-                if obj == x:
+                if obj is x or obj == x:
                     return None
                 ii_prev = ii
                 x_prev = x
@@ -245,7 +245,7 @@ class tset(TransientSet):
         x_prev = None
         while ii is not None:
             (x,ii_next) = self._els[ii]
-            if obj == x:
+            if obj is x or obj == x:
                 # We remove this object!
                 if ii_prev is None:
                     # We're removing from the front of the list.
-- 
2.43.0


From 406fd7c86b051781634988f3c4ad3cf97b604cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 15/42] fix: membership in dict views

---
 pcollections/_dict.py | 11 ++++++-----
 pcollections/_lazy.py | 10 ----------
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 55a9f9d..c56fb99 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -75,7 +75,7 @@ class pdict_items(ItemsView, PDictView):
         d = Ellipsis if v0 is None else None
         v = self._mapping.get(k0, d)
         (k,v) = self._from_kv((k0,v))
-        return v0 == v
+        return v0 is v or v0 == v
 class pdict_values(ValuesView, PDictView):
     __slots__ = ()
     def _from_kv(self, kv):
@@ -83,7 +83,7 @@ class pdict_values(ValuesView, PDictView):
     def __contains__(self, v):
         for ent in self._mapping._els:
             v0 = self._from_kv(ent[1][0])
-            if v0 == v:
+            if v0 is v or v0 == v:
                 return True
         return False
 class pdict(PersistentMapping):
@@ -347,14 +347,15 @@ class tdict_items(ItemsView, tdict_view):
         if not isinstance(kv, tuple) or len(kv) != 2:
             return False
         d = Ellipsis if kv[1] is None else None
-        return self._tdict.get(kv[0], d) == kv[1]
+        v = self._tdict.get(kv[0], d)
+        return v is kv[1] or v == kv[1]
 class tdict_values(ValuesView, tdict_view):
     __slots__ = ('_tdict', '_version')
     def _from_kv(self, arg):
         return arg[1]
     def __contains__(self, v):
-        for (kv,_) in self._els:
-            if kv[1] == v:
+        for v0 in self:
+            if v0 is v or v0 == v:
                 return True
         return False
 class tdict(TransientMapping):
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index b3a5171..d30c604 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -414,16 +414,6 @@ class tldict_values(tdict_values):
     __slots__ = ()
     def _from_kv(self, arg):
         return unlazy(arg[1])
-    def __contains__(self, v):
-        for (kv,_) in self._els:
-            if not isinstance(kv[1], lazy):
-                if kv[1] == v:
-                    return True
-        for (kv,_) in self._els:
-            if isinstance(kv[1], lazy):
-                if kv[1]() == v:
-                    return True
-        return False
 class tldict(tdict):
     """A transient lazy dict type.
 
-- 
2.43.0


From 5ec9416c591c1b7f5da4b9b10d58069a5e17b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:45 +0000
Subject: [PATCH 16/42] fix: tdict values may be assigned during iteration

---
 pcollections/_dict.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index c56fb99..112ff8e 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -485,12 +485,15 @@ class tdict(TransientMapping):
         return default
     def __iter__(self):
         v0 = self._version
-        def _iter_key(arg):
+        def _check():
             if v0 < self._version:
                 raise RuntimeError(f"{type(self)} changed during iteration")
-            else:
-                return arg[1][0][0]
-        return map(_iter_key, self._els)
+        def _iter_keys(els):
+            for arg in els:
+                _check()
+                yield arg[1][0][0]
+            _check()
+        return _iter_keys(self._els.persistent())
     def __delitem__(self, key):
         # Get the hash and initial index (if there is one).
         h = hash(key)
-- 
2.43.0


From 7e7a350d3b401fa1ea06b5e62d8134081229a872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:47 +0000
Subject: [PATCH 17/42] fix: tdict.clear forgets the original and updates the
 version

---
 pcollections/_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 112ff8e..40445d3 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -530,7 +530,8 @@ class tdict(TransientMapping):
         object.__setattr__(self, '_els', THAMT(PHAMT.empty))
         object.__setattr__(self, '_idx', THAMT(PHAMT.empty))
         object.__setattr__(self, '_top', 0)
-        object.__setattr__(self, '_version', 0)
+        object.__setattr__(self, '_version', self._version + 1)
+        object.__setattr__(self, '_orig', None)
         return None
     def pop(self, key, *args):
         """Removes the given key from the tdict and returns the previously
-- 
2.43.0


From 5c2f9ce605ddea1277982a10065da7c69239fd03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:48 +0000
Subject: [PATCH 18/42] fix: tset iterators notice clear()

---
 pcollections/_set.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pcollections/_set.py b/pcollections/_set.py
index 449ad1b..1802e74 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -204,7 +204,12 @@ class tset(TransientSet):
                 return True
         return False
     def __iter__(self):
-        return map(lambda u: u[1][0], self._els)
+        els = self._els
+        def _iter_el(arg):
+            if els is not self._els:
+                raise RuntimeError(f"{type(self)} changed during iteration")
+            return arg[1][0]
+        return map(_iter_el, els)
     def add(self, obj):
         """Returns a copy of the tset that includes the given object."""
         # Get the hash and initial index (if there is one).
-- 
2.43.0


From 0a5e07b93d06bcf01bb549b2724a8e728008e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:01 +0000
Subject: [PATCH 19/42] fix: pset.symmetric_difference compares no lengths

---
 pcollections/abc/_set.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 8fac331..e5d5a96 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -209,8 +209,6 @@ class PersistentSet(Set, Persistent):
         t = self.transient()
         for arg in args:
             t ^= arg
-        if len(t) == len(self):
-            return self
         return type(self)(t)
     def union(self, *args):
         """Returns the union of the persistent set and all arguments."""
-- 
2.43.0


From 6a5c33e0982346952d8c2d527927a8616cb1da7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:02 +0000
Subject: [PATCH 20/42] fix: intersection and symmetric_difference accept any
 iterable

---
 pcollections/abc/_set.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index e5d5a96..182bf06 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -197,7 +197,7 @@ class PersistentSet(Set, Persistent):
         """
         t = self.transient()
         for arg in args:
-            t &= arg
+            t &= arg if isinstance(arg, Set) else set(arg)
         if len(t) == len(self):
             return self
         return type(self)(t)
@@ -208,7 +208,7 @@ class PersistentSet(Set, Persistent):
         """
         t = self.transient()
         for arg in args:
-            t ^= arg
+            t ^= arg if isinstance(arg, Set) else set(arg)
         return type(self)(t)
     def union(self, *args):
         """Returns the union of the persistent set and all arguments."""
@@ -401,7 +401,7 @@ class TransientSet(MutableSet, Transient):
     def intersection_update(self, *args):
         """Update a set with the intersection of itself and another."""
         for arg in args:
-            self &= arg
+            self &= arg if isinstance(arg, Set) else set(arg)
     def intersection(self, *args):
         """Return the intersection of two sets as a new transient set.
 
-- 
2.43.0


From 1ccad15f5dae270be5dacc3cf2f0eefcb0e0e6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:04 +0000
Subject: [PATCH 21/42] fix: tset.symmetric_difference_update uses its argument

---
 pcollections/abc/_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 182bf06..a971b39 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -412,7 +412,7 @@ class TransientSet(MutableSet, Transient):
         return t
     def symmetric_difference_update(self, other):
         """Update a set with the symmetric difference of itself and another."""
-        self ^= arg
+        self ^= other if isinstance(other, Set) else set(other)
     def symmetric_difference(self, other):
         """Return the symmetric difference of two sets as a new set.
 
-- 
2.43.0


From b370a62d5f25c6478cb13a6ec46b3cd463d059f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:06 +0000
Subject: [PATCH 22/42] fix: tset operations accept the tset itself

---
 pcollections/abc/_set.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index a971b39..2c7c4bd 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -496,6 +496,9 @@ class TransientSet(MutableSet, Transient):
         if not isinstance(other, Set):
             raise TypeError(f"unsupported operand type for ^=:"
                             f" '{type(self)}' and '{type(other)}'")
+        if other is self:
+            self.clear()
+            return self
         rm = []
         for el in self:
             if el in other:
@@ -539,6 +542,8 @@ class TransientSet(MutableSet, Transient):
 
         If any element is not found, then it is ignored.
         """
+        if iterable is self:
+            iterable = list(iterable)
         for el in iterable:
             self.discard(el)
     def removeall(self, iterable):
@@ -547,6 +552,8 @@ class TransientSet(MutableSet, Transient):
 
         If any element is not found, then a `KeyError` is raised.
         """
+        if iterable is self:
+            iterable = list(iterable)
         for el in iterable:
             self.remove(el)
     def copy(self):
-- 
2.43.0


From 90fe476fc3eb0c9f51bd15df60cf5e7133c20896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:07 +0000
Subject: [PATCH 23/42] fix: isdisjoint agrees with set for empty sets and any
 iterable

---
 pcollections/abc/_set.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 2c7c4bd..10dd77a 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -167,6 +167,8 @@ class PersistentSet(Set, Persistent):
         """Returns `True` if two sets have a null intersection."""
         if not isinstance(other, Set):
             other = set(other)
+        if len(self) == 0 or len(other) == 0:
+            return True
         return setcmp(self, other) is None
     def issubset(self, other):
         """Report whether another set contains this set."""
@@ -374,6 +376,10 @@ class TransientSet(MutableSet, Transient):
         return c == 1 or c == 0
     def isdisjoint(self, other):
         """Returns `True` if two sets have a null intersection."""
+        if not isinstance(other, Set):
+            other = set(other)
+        if len(self) == 0 or len(other) == 0:
+            return True
         return setcmp(self, other) is None
     def issubset(self, other):
         """Report whether another set contains this set."""
-- 
2.43.0


From 0f8b38449fcea0254c7cfb264cfdef88920a240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:09 +0000
Subject: [PATCH 24/42] fix: tset can be compared with any object

---
 pcollections/abc/_set.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 10dd77a..f745f4e 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -359,9 +359,12 @@ class TransientSet(MutableSet, Transient):
         #return f"{{<{s[1:-1]}>}}"
         return f"{{<{seqstr(self)}>}}"
     def __eq__(self, other):
-        return setcmp(self, other) == 0
+        if isinstance(other, Set):
+            return setcmp(self, other) == 0
+        else:
+            return False
     def __ne__(self, other):
-        return setcmp(self, other) != 0
+        return not self.__eq__(other)
     def __hash__(self):
         return hash(frozenset(self)) + 1
     def __lt__(self, other):
-- 
2.43.0


From 4b81a1879e86251008b529786b1ecc54b909ff7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:10 +0000
Subject: [PATCH 25/42] fix: a pset has the hash of the equal frozenset

---
 pcollections/abc/_set.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index f745f4e..8ff567c 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -95,7 +95,7 @@ class PersistentSet(Set, Persistent):
         else:
             return True
     def __hash__(self):
-        return hash(frozenset(self)) + 1
+        return hash(frozenset(self))
     def __lt__(self, other):
         return setcmp(self, other) == -1
     def __le__(self, other):
@@ -366,7 +366,7 @@ class TransientSet(MutableSet, Transient):
     def __ne__(self, other):
         return not self.__eq__(other)
     def __hash__(self):
-        return hash(frozenset(self)) + 1
+        return hash(frozenset(self))
     def __lt__(self, other):
         return setcmp(self, other) == -1
     def __le__(self, other):
-- 
2.43.0


From d547d1fa851c2ba2963e577cb2bc07bb8e79f7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:12 +0000
Subject: [PATCH 26/42] fix: the hash of a mapping is computed from its items

---
 pcollections/abc/_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index c957b6f..78dd81f 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -85,7 +85,7 @@ class PersistentMapping(Mapping, Persistent):
     def __repr__(self):
         return f"{{|{seqstr(self)}|}}"
     def __hash__(self):
-        return hash(frozenset(map(lambda u: u[1][0], self._els))) + 2
+        return hash(frozenset(self.items())) + 2
     def __contains__(self, k):
         try:
             self[k]
-- 
2.43.0


From e9448a9325092fbc73188d64d14c215fdc8980d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:13 +0000
Subject: [PATCH 27/42] fix: pdict.dropall drops the keys

---
 pcollections/abc/_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index 78dd81f..cf2d4f8 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -122,7 +122,7 @@ class PersistentMapping(Mapping, Persistent):
         """
         t = self.transient()
         for k in keys:
-            t.drop(k)
+            if k in t: del t[k]
         return type(self)(t)
     def deleteall(self, keys):
         """Returns a copy of the persistent mapping that excludes all the keys
-- 
2.43.0


From 05f7d30a296df850c71488dbf760c0d98f7433e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:15 +0000
Subject: [PATCH 28/42] fix: pop of lazy dicts returns the computed value

---
 pcollections/_lazy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index d30c604..b6b2a63 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -342,6 +342,9 @@ class ldict(pdict):
         if isinstance(v, lazy):
             v = v()
         return v
+    def pop(self, key, *args):
+        (v, d) = pdict.pop(self, key, *args)
+        return (unlazy(v), d)
     def items(self):
         return ldict_items(self)
     def values(self):
@@ -491,7 +494,7 @@ class tldict(tdict):
     def get(self, k, default=None):
         return unlazy(tdict.get(self, k, default))
     def pop(self, *args):
-        return unlazy(self.pop(*args))
+        return unlazy(tdict.pop(self, *args))
     def items(self):
         return tldict_items(self)
     def values(self):
-- 
2.43.0


From 00d403d12c329ab99cccb7753722a262eec48f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:17 +0000
Subject: [PATCH 29/42] fix: tldict.as_tdict returns an independent tdict

---
 pcollections/_lazy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index b6b2a63..ecea4b3 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -477,7 +477,9 @@ class tldict(tdict):
         mapped to their associated `lazy` objects. This is essentially a way to
         expose the raw values of a lazy dictionary.
         """
-        return tdict._new(self._els, self._idx, self._top)
+        return tdict._new(THAMT(self._els.persistent()),
+                          THAMT(self._idx.persistent()),
+                          self._top)
     def __holdlazy__(self):
         return self.as_tdict()
     def getlazy(self, k, default=None):
-- 
2.43.0


From d0fcbd431d74b84cb62e2ea6b73276f430ca2afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:19 +0000
Subject: [PATCH 30/42] fix: llist.ready_all evaluates the lazy elements

---
 pcollections/_lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index ecea4b3..c842910 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -230,7 +230,7 @@ class llist(plist):
             return True
     def ready_all(self):
         "Caches all lazy items then returns the list."
-        for el in self._phamt:
+        for (_,el) in self._phamt:
             if isinstance(el, lazy):
                 el()
         return self
-- 
2.43.0


From 207826265a859b179e1b6a315e8dd1c2356b64fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:20 +0000
Subject: [PATCH 31/42] fix: attributes of persistent collections cannot be
 deleted

---
 pcollections/abc/_core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pcollections/abc/_core.py b/pcollections/abc/_core.py
index ae2a404..d6c82e2 100644
--- a/pcollections/abc/_core.py
+++ b/pcollections/abc/_core.py
@@ -14,6 +14,8 @@ class Persistent(Hashable):
     # Methods that should throw errors in children.
     def __setattr__(self, k, v):
         raise TypeError(f"{type(self)} is immutable")
+    def __delattr__(self, k):
+        raise TypeError(f"{type(self)} is immutable")
     def __setitem__(self, k, v):
         raise TypeError(f"{type(self)} is immutable")
     def __delitem__(self, k, v):
-- 
2.43.0


From 57ce47ad5e2431b970ec587b78f7a4845a5b46dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:22 +0000
Subject: [PATCH 32/42] fix: dict types accept objects with keys() and item
 access

---
 pcollections/_dict.py    |  5 ++---
 pcollections/abc/_map.py | 13 +++++++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 40445d3..c813589 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -24,6 +24,7 @@ from .abc import (
     PersistentMapping,
     TransientMapping
 )
+from .abc._map import _items_of
 
 
 #===============================================================================
@@ -411,9 +412,7 @@ class tdict(TransientMapping):
             obj = cls._new(THAMT(arg._els), THAMT(arg._idx), arg._top, arg)
         else:
             obj = cls._new(THAMT(PHAMT.empty), THAMT(PHAMT.empty), 0)
-            if isinstance(arg, Mapping):
-                arg = arg.items()
-            for (k,v) in arg:
+            for (k,v) in _items_of(arg):
                 obj[k] = v
         # If keyword args were provided, merge them in.
         if kw:
diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index cf2d4f8..d35c422 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -9,6 +9,15 @@ from collections.abc import (Mapping, MutableMapping)
 from ._core import (Persistent, Transient)
 from ..util import (seqstr)
 
+def _items_of(arg):
+    "Returns the items of arg, which may be anything that dict() accepts."
+    if isinstance(arg, Mapping):
+        return arg.items()
+    elif hasattr(arg, 'keys'):
+        return ((k, arg[k]) for k in arg.keys())
+    else:
+        return arg
+
 
 #===============================================================================
 # PersistentMapping
@@ -178,7 +187,7 @@ class PersistentMapping(Mapping, Persistent):
         """
         t = self.transient()
         for arg in args:
-            for (k,v) in (arg.items() if isinstance(arg, Mapping) else arg):
+            for (k,v) in _items_of(arg):
                 t[k] = v
         for (k,v) in kw.items():
             t[k] = v
@@ -304,7 +313,7 @@ class TransientMapping(MutableMapping, Transient):
         mapping or an iterable of items.
         """
         for arg in args:
-            for (k,v) in (arg.items() if isinstance(arg, Mapping) else arg):
+            for (k,v) in _items_of(arg):
                 self[k] = v
         for (k,v) in kw.items():
             self[k] = v
-- 
2.43.0


From f084a0b303e0000295d780d8569cfdbdba2f265c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:59 +0000
Subject: [PATCH 33/42] fix: tldict.pop computes the value before removing the
 key

---
 pcollections/_lazy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index c842910..db30386 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -495,8 +495,9 @@ class tldict(tdict):
         return unlazy(tdict.__getitem__(self, k))
     def get(self, k, default=None):
         return unlazy(tdict.get(self, k, default))
-    def pop(self, *args):
-        return unlazy(tdict.pop(self, *args))
+    def pop(self, key, *args):
+        if key in self: self[key]
+        return unlazy(tdict.pop(self, key, *args))
     def items(self):
         return tldict_items(self)
     def values(self):
-- 
2.43.0


From 1a2449787a7ebdce0e623fa5146415cdab2ef337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 34/42] fix: converting between lazy and other lists computes
 or keeps the elements

---
 pcollections/_lazy.py |  2 ++
 pcollections/_list.py | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index db30386..94e2c12 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -195,6 +195,7 @@ class llist(plist):
     `plist` containing `lazy` objects.
     """
     empty = None
+    _lazy = True
     __slots__ = ()
     def __iter__(self):
         it = plist.__iter__(self)
@@ -270,6 +271,7 @@ class tllist(tlist):
     difference being that they automatically return the reified values of lazy
     elements instead of the `lazy` objects themselves.
     """
+    _lazy = True
     __slots__ = ()
     def __iter__(self):
         return map(unlazy, tlist.__iter__(self))
diff --git a/pcollections/_list.py b/pcollections/_list.py
index 47645ae..a00c383 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -22,6 +22,8 @@ class plist(PersistentSequence):
     `plist(iterable)` returns a `plist` containing the elements in `iterable`.
     """
     empty = None
+    # Whether lazy elements are dereferenced by this type.
+    _lazy = False
     __slots__ = ("_phamt", "_start", "_hashcode")
     def __new__(cls, *args, **kw):
         if len(kw) > 0:
@@ -33,6 +35,10 @@ class plist(PersistentSequence):
             msg = f"{cls.__name__} expects at most 1 argument, got {n}"
             raise TypeError(msg)
         arg = args[0]
+        # If arg is a list whose lazy elements must be computed first, then we
+        # can't use its elements as they are.
+        if getattr(arg, '_lazy', False) and not cls._lazy:
+            arg = iter(arg)
         # If arg is a tlist, this is a special case.
         if isinstance(arg, tlist):
             if len(arg) == 0:
@@ -208,6 +214,8 @@ class tlist(TransientSequence):
     def empty(cls):
         "Returns an empty tlist."
         return cls._new(THAMT(PHAMT.empty), 0)
+    # Whether lazy elements are dereferenced by this type.
+    _lazy = False
     __slots__ = ("_thamt", "_start", "_orig")
     def __new__(cls, *args, **kw):
         if len(kw) > 0:
@@ -217,7 +225,12 @@ class tlist(TransientSequence):
         elif n == 0: return cls.empty()
         else: raise TypeError(f"tlist expects at most 1 argument, got {n}")
         arg = args[0]
-        # If this is a plist, we know what to do with it.
+        # If this is a plist or tlist, we know what to do with it, unless its lazy
+        # elements must be computed first.
+        if getattr(arg, '_lazy', False) and not cls._lazy:
+            arg = iter(arg)
+        if isinstance(arg, tlist):
+            return cls._new(THAMT(arg._thamt.persistent()), arg._start)
         if isinstance(arg, plist):
             return cls._new(THAMT(arg._phamt), arg._start)
         # We just want to build a THAMT out of this arg of iterables.
-- 
2.43.0


From ccb5a234a81a19fec0d94cea0879cd471d82fc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:02 +0000
Subject: [PATCH 35/42] fix: converting between lazy and other dicts computes
 or keeps the values

---
 pcollections/_dict.py | 28 +++++++++++++++++++---------
 pcollections/_lazy.py |  2 ++
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index c813589..83b6b25 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -99,6 +99,8 @@ class pdict(PersistentMapping):
     given mapping.
     """
     empty = None
+    # Whether lazy values are dereferenced by this type.
+    _lazy = False
     @classmethod
     def _new(cls, els, idx, top):
         new_pdict = super(pdict, cls).__new__(cls)
@@ -121,13 +123,15 @@ class pdict(PersistentMapping):
         else:
             msg = f"{cls.__name__} expects at most 1 argument, got {n}"
             raise TypeError(msg)
-        # If any keyword options were given, we route through tdict.
-        if not kw:
+        # If any keyword options were given, we merge them in afterwards.
+        if kw:
+            return cls(arg).update(kw)
+        else:
             # If arg is a tdict and no keyword arguments have been given, this
             # is a special case.
             if isinstance(arg, Sized) and len(arg) == 0:
                 return cls.empty
-            elif isinstance(arg, tdict):
+            elif isinstance(arg, tdict) and (cls._lazy or not arg._lazy):
                 return cls._new(
                     arg._els.persistent(),
                     arg._idx.persistent(),
@@ -139,7 +143,7 @@ class pdict(PersistentMapping):
             elif type(arg) is pdict:
                 return cls._new(arg._els, arg._idx, arg._top)
         # For anything else, however, we just route this through tdict.
-        t = tdict(arg, **kw)
+        t = tdict(arg)
         return cls._new(
             t._els.persistent(),
             t._idx.persistent(),
@@ -389,6 +393,8 @@ class tdict(TransientMapping):
     def empty(cls):
         """Returns an empty tdict."""
         return cls._new(THAMT(PHAMT.empty), THAMT(PHAMT.empty), 0)
+    # Whether lazy values are dereferenced by this type.
+    _lazy = False
     __slots__ = ("_els", "_idx", "_top","_version")
     def __new__(cls, *args, **kw):
         n = len(args)
@@ -402,14 +408,18 @@ class tdict(TransientMapping):
                 kw = None
         else:
             raise TypeError(f"pdict expects at most 1 argument, got {n}")
-        # If arg is a tdict or pdict, this is a special case.
-        if type(arg) is tdict:
+        # If arg is a tdict or pdict, this is a special case, unless its lazy
+        # values must be computed first.
+        share = cls._lazy or not getattr(arg, '_lazy', False)
+        if isinstance(arg, tdict) and share:
+            orig = arg._orig if cls._lazy == arg._lazy else None
             obj = cls._new(THAMT(arg._els.persistent()),
                            THAMT(arg._idx.persistent()),
                            arg._top,
-                           arg._orig)
-        elif type(arg) is pdict:
-            obj = cls._new(THAMT(arg._els), THAMT(arg._idx), arg._top, arg)
+                           orig)
+        elif isinstance(arg, pdict) and share:
+            orig = arg if cls._lazy == arg._lazy else None
+            obj = cls._new(THAMT(arg._els), THAMT(arg._idx), arg._top, orig)
         else:
             obj = cls._new(THAMT(PHAMT.empty), THAMT(PHAMT.empty), 0)
             for (k,v) in _items_of(arg):
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 94e2c12..2bdfcc4 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -328,6 +328,7 @@ class ldict(pdict):
     `pdict` containing `lazy` objects.
     """
     empty = None
+    _lazy = True
     __slots__ = ()
     def __getitem__(self, key):
         v = pdict.__getitem__(self, key)
@@ -426,6 +427,7 @@ class tldict(tdict):
     difference being that they automatically return the reified values of lazy
     keys instead of the `lazy` objects themselves.
     """
+    _lazy = True
     __slots__ = ()
     def __str__(self):
         # We have a max length of 60 characters, not counting the delimiters.
-- 
2.43.0


From 312ec73f99bb6279b30cc1b2f2b772c40cc40b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:20 +0000
Subject: [PATCH 36/42] fix: dict constructors and update accept any keyword
 name

---
 pcollections/_dict.py    | 8 ++++++--
 pcollections/abc/_map.py | 6 ++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 83b6b25..6bdc1c0 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -110,7 +110,9 @@ class pdict(PersistentMapping):
         object.__setattr__(new_pdict, '_hashcode', None)
         return new_pdict
     __slots__ = ("_els", "_idx", "_top", "_hashcode")
-    def __new__(cls, *args, **kw):
+    def __new__(*args, **kw):
+        # Any keyword is allowed, including "cls".
+        (cls, *args) = args
         n = len(args)
         if n == 1:
             arg = args[0]
@@ -396,7 +398,9 @@ class tdict(TransientMapping):
     # Whether lazy values are dereferenced by this type.
     _lazy = False
     __slots__ = ("_els", "_idx", "_top","_version")
-    def __new__(cls, *args, **kw):
+    def __new__(*args, **kw):
+        # Any keyword is allowed, including "cls".
+        (cls, *args) = args
         n = len(args)
         if n == 1:
             arg = args[0]
diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index d35c422..01b6a69 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -178,13 +178,14 @@ class PersistentMapping(Mapping, Persistent):
                 raise
             else:
                 return (args[0], self)
-    def update(self, *args, **kw):
+    def update(*args, **kw):
         """Returns a copy of the persistent mapping with the key-value pairs in
         the iterable/mapping `arg` and the keyword arguments included.
 
         Multiple arguments may be provided, but they must each be a mapping or
         an iterable of items.
         """
+        (self, *args) = args
         t = self.transient()
         for arg in args:
             for (k,v) in _items_of(arg):
@@ -305,13 +306,14 @@ class TransientMapping(MutableMapping, Transient):
                 raise
             else:
                 return args[0]
-    def update(self, *args, **kw):
+    def update(*args, **kw):
         """Updates the transient mapping with items from the arguments and
         options.
 
         Multiple arguments may be provided, but they must each be either a
         mapping or an iterable of items.
         """
+        (self, *args) = args
         for arg in args:
             for (k,v) in _items_of(arg):
                 self[k] = v
-- 
2.43.0


From 39e7679a6f94cb94ea68997f233806dc98e0e2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 37/42] fix: fix: a failed reverse of a transient list leaves
 it unchanged

---
 pcollections/abc/_seq.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 58a7563..a729153 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -357,12 +357,12 @@ class TransientSequence(Transient, MutableSequence):
         raise ValueError(f'{value} is not in {type(self)}')
     def reverse(self):
         """Reverses *IN PLACE*."""
-        n = len(self)
-        for k in range(n//2):
-            kk = n - 1 - k
-            tmp = self[k]
-            self[k] = self[kk]
-            self[kk] = tmp
+        # All elements are read before any is assigned: reading a lazy element
+        # may fail, and then the sequence must not be left half reversed.
+        els = list(self)
+        els.reverse()
+        for (k,el) in enumerate(els):
+            self[k] = el
     def __str__(self):
         # We have a max length of 60 characters, not counting the delimiters.
         return f"[<{seqstr(self, maxlen=60)}>]"
-- 
2.43.0


From 6a74e27c80a650bf736686d26aeab9d4a8b8233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:27 +0000
Subject: [PATCH 38/42] fix: fix: seqstr counts the separator after empty
 representations

---
 pcollections/util/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/util/_core.py b/pcollections/util/_core.py
index f9c72ba..0d40c20 100644
--- a/pcollections/util/_core.py
+++ b/pcollections/util/_core.py
@@ -113,7 +113,7 @@ def seqstr(seq, maxlen=None, sep=", ", tostr=repr):
         s = tostr(el)
         parts.append(s)
         n = len(s)
-        N = n if N == 0 else N + seplen + n
+        N = n if len(parts) == 1 else N + seplen + n
         if N > maxlen:
             # We've overshot; remove the final element if need-be.
             while len(parts) > 0 and N + elllen > maxlen:
-- 
2.43.0


From 07ae5608f5acd2e28a6bd1397b92c03a62d0ed2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:14 +0000
Subject: [PATCH 39/42] fix: each failed lazy evaluation raises its own
 LazyError

---
 pcollections/_lazy.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 2bdfcc4..bfc9e80 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -71,14 +71,10 @@ class lazy:
         obj = object.__new__(cls)
         # Create the partial object.
         part = partial(fn, *args, **kw)
-        # We want to prepare an error to raise if something happens during the
-        # calculation of the lazy value in the __call__ method.
-        try:
-            raise LazyError((fn, args, kw))
-        except LazyError as e:
-            error = e
-        # Set the appropriate members.
-        object.__setattr__(obj, 'partial', (part, RLock(), error))
+        # Set the appropriate members. The arguments are kept for the error that
+        # is raised if something happens during the calculation of the lazy
+        # value in the __call__ method.
+        object.__setattr__(obj, 'partial', (part, RLock(), (fn, args, kw)))
         # We set value to an RLock for use in the calculation.
         object.__setattr__(obj, 'value', None)
         # That's all that is needed.
@@ -88,7 +84,7 @@ class lazy:
         if part is None:
             return self.value
         else:
-            (part, rlock, init_error) = part
+            (part, rlock, init_args) = part
             # Acquire the rlock then re-check that the lazy hasn't already been
             # calculated (at which point self.partial will be None).
             rlock.acquire()
@@ -102,10 +98,12 @@ class lazy:
                     object.__setattr__(self, 'value', val)
                     object.__setattr__(self, 'partial', None)
                 return val
-            except Exception as partial_eror:
-                # If an exception occurs, we want to raise an error that traces
-                # back to the initialization of this object.
-                raise init_error
+            except Exception as partial_error:
+                # If an exception occurs, we want to raise an error that
+                # describes this object. Every failure raises its own error;
+                # one that was shared would be chained to the latest failure
+                # only, and would keep the frames of all of them alive.
+                raise LazyError(init_args) from partial_error
             finally:
                 rlock.release()
     def __repr__(self):
-- 
2.43.0


From 22c234e6c97cae6f197419281871be81cd481046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:43 +0000
Subject: [PATCH 40/42] fix: list indices follow the index protocol

---
 pcollections/_list.py    | 13 +++++++++++--
 pcollections/abc/_seq.py |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index a00c383..9e0a7a5 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -5,6 +5,7 @@
 # By Noah C. Benson
 
 from itertools import (chain, islice)
+from operator  import index as as_index
 
 from phamt import (PHAMT,THAMT)
 
@@ -74,6 +75,7 @@ class plist(PersistentSequence):
         start = self._start
         phamt = self._phamt
         n = len(phamt)
+        index = as_index(index)
         if index < -n or index >= n:
             raise IndexError("plist index out of range")
         if index < 0:
@@ -89,6 +91,7 @@ class plist(PersistentSequence):
         phamt = self._phamt
         n = len(phamt)
         st = self._start
+        index = as_index(index)
         if n == 0:
             raise IndexError("delete from empty plist")
         if index >= n or index < -n:
@@ -134,6 +137,7 @@ class plist(PersistentSequence):
         start = self._start
         phamt = self._phamt
         n = len(phamt)
+        index = as_index(index)
         if   index == 0: return self.prepend(obj)
         elif index == n: return self.append(obj)
         elif index < -n: index = -n
@@ -176,7 +180,8 @@ class plist(PersistentSequence):
             for (ii,jj) in enumerate(range(*k.indices(n))):
                 thamt[ii] = phamt[jj + st]
             return self._new(thamt.persistent(), 0)
-        elif k >= n or k < -n:
+        k = as_index(k)
+        if k >= n or k < -n:
             raise IndexError("plist index out of range")
         elif k < 0:
             k += n
@@ -280,13 +285,15 @@ class tlist(TransientSequence):
             for (ii,jj) in enumerate(range(*k.indices(n))):
                 new_thamt[ii] = thamt[jj + st]
             return self._new(new_thamt, 0)
-        elif k >= n or k < -n:
+        k = as_index(k)
+        if k >= n or k < -n:
             raise IndexError("tlist index out of range")
         elif k < 0:
             k += n
         return thamt[k + st]
     def __setitem__(self, k, v):
         n = len(self._thamt)
+        k = as_index(k)
         if k >= n or k < -n:
             raise IndexError(k)
         elif k < 0:
@@ -300,6 +307,7 @@ class tlist(TransientSequence):
         st = self._start
         th = self._thamt
         n = len(th)
+        index = as_index(index)
         if index >= n or index < -n:
             raise IndexError(f"{type(self)} assignment index out of range")
         elif index < 0:
@@ -332,6 +340,7 @@ class tlist(TransientSequence):
         st = self._start
         th = self._thamt
         n = len(th)
+        index = as_index(index)
         if   index < -n: index = -n
         elif index > n:  index = n
         if   index < 0:  index += n
diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index a729153..67cd14e 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -7,6 +7,7 @@
 
 from numbers         import (Integral)
 from collections.abc import (Sequence, MutableSequence)
+from operator        import index as as_index
 
 from ._core import (Persistent, Transient)
 from ..util import (seqstr, seqcmp, seqeq)
@@ -94,6 +95,7 @@ class PersistentSequence(Persistent, Sequence):
         then the sequence is returned as-is. Non-integer indices will still
         result in raised exceptions."""
         n = len(self)
+        index = as_index(index)
         if index < -n or index >= n:
             return self
         else:
-- 
2.43.0


From 6e4829eaed020dd9960e4efd15e908637f509ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:59 +0000
Subject: [PATCH 41/42] fix: items views contain no pair whose key is missing

---
 pcollections/_dict.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 6bdc1c0..573eef1 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -73,8 +73,9 @@ class pdict_items(ItemsView, PDictView):
         if not isinstance(kv, tuple) or len(kv) != 2:
             return False
         (k0,v0) = self._from_kv(kv)
-        d = Ellipsis if v0 is None else None
-        v = self._mapping.get(k0, d)
+        if k0 not in self._mapping:
+            return False
+        v = self._mapping.get(k0)
         (k,v) = self._from_kv((k0,v))
         return v0 is v or v0 == v
 class pdict_values(ValuesView, PDictView):
@@ -353,8 +354,9 @@ class tdict_items(ItemsView, tdict_view):
     def __contains__(self, kv):
         if not isinstance(kv, tuple) or len(kv) != 2:
             return False
-        d = Ellipsis if kv[1] is None else None
-        v = self._tdict.get(kv[0], d)
+        if kv[0] not in self._tdict:
+            return False
+        v = self._tdict.get(kv[0])
         return v is kv[1] or v == kv[1]
 class tdict_values(ValuesView, tdict_view):
     __slots__ = ('_tdict', '_version')
-- 
2.43.0


From f52e3644dcb64f615ab175e3ad7fc79e48f6f082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 42/42] fix: holdlazy passes on an AttributeError raised by a
 __holdlazy__ method

---
 pcollections/_lazy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index bfc9e80..efcf795 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -162,13 +162,14 @@ def holdlazy(obj, require_lazy=False):
     `__holdlazy__` is not defined.
     """
     try:
-        return obj.__holdlazy__()
+        hold = obj.__holdlazy__
     except AttributeError:
         if require_lazy:
             raise TypeError(
                 f"__holdlazy__ method not found for type {type(obj)}")
         else:
             return obj
+    return hold()
     
 
 #===============================================================================
-- 
2.43.0

