From 2476264b8b473c6ff3e45bc1738c546176e15dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:01 +0000
Subject: [PATCH 01/43] fix: plist.delete keeps the type of the list (llist
 stays an llist)

---
 pcollections/_list.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index e77e348..bc0a73a 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -92,11 +92,11 @@ class plist(PersistentSequence):
         # Some cases don't require a THAMT:
         if index == 0:
             if n == 1:
-                return plist.empty
+                return type(self).empty
             else:
-                return plist._new(phamt.dissoc(st), st + 1)
+                return self._new(phamt.dissoc(st), st + 1)
         elif index == n - 1:
-            return plist._new(phamt.dissoc(st + index), st)
+            return self._new(phamt.dissoc(st + index), st)
         # Other cases require moving elements around a fair bit, so we use a
         # THAMT object.
         thamt = THAMT(phamt)
-- 
2.43.0


From 8a91375ef8cd4e56d327c93b723b5f1c8497a3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:03 +0000
Subject: [PATCH 02/43] fix: list slices follow slice semantics for zero stops,
 negative steps and step 0

---
 pcollections/_list.py | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index bc0a73a..f75ed5f 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -166,19 +166,9 @@ class plist(PersistentSequence):
         phamt = self._phamt
         n = len(phamt)
         if isinstance(k, slice):
-            (start,stop,step) = (k.start or 0, k.stop or n, k.step or 1)
-            if   start <= -n: start = 0
-            elif start < 0:   start += n
-            elif start > n:   start = n
-            if   stop <= -n: stop = 0
-            elif stop < 0:   stop += n
-            elif stop > n:   stop = n
-            if st != 0:
-                start += st
-                stop += st
             thamt = THAMT(PHAMT.empty)
-            for (ii,jj) in enumerate(range(start, stop, step)):
-                thamt[ii] = phamt[jj]
+            for (ii,jj) in enumerate(range(*k.indices(n))):
+                thamt[ii] = phamt[jj + st]
             return self._new(thamt.persistent(), 0)
         elif k >= n or k < -n:
             raise IndexError("plist index out of range")
@@ -273,19 +263,9 @@ class tlist(TransientSequence):
         thamt = self._thamt
         n = len(thamt)
         if isinstance(k, slice):
-            (start,stop,step) = (k.start or 0, k.stop or n, k.step or 1)
-            if   start <= -n: start = 0
-            elif start < 0:   start += n
-            elif start > n:   start = n
-            if   stop <= -n: stop = 0
-            elif stop < 0:   stop += n
-            elif stop > n:   stop = n
-            if st != 0:
-                start += st
-                stop += st
             new_thamt = THAMT(PHAMT.empty)
-            for (ii,jj) in enumerate(range(start, stop, step)):
-                new_thamt[ii] = thamt[jj]
+            for (ii,jj) in enumerate(range(*k.indices(n))):
+                new_thamt[ii] = thamt[jj + st]
             return self._new(new_thamt, 0)
         elif k >= n or k < -n:
             raise IndexError("tlist index out of range")
-- 
2.43.0


From 004ed1ea94eca14be4366f125d5e80c5cf3c3cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 03/43] fix: tlist.count and tlist.extend no longer shadowed by
 persistent versions

---
 pcollections/abc/_seq.py | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 51484fa..28d5984 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -404,16 +404,6 @@ class TransientSequence(Transient, MutableSequence):
     def __reversed__(self):
         n = len(self)
         return map(self.__getitem__, range(n - 1, -1, -1))
-    def count(self, value):
-        """Returns the number of occurences of value."""
-        n = 0
-        for (k,obj) in self._phamt:
-            if obj == value: n += 1
-        return n
-    def extend(self, iterable):
-        """Return a new persistent sequence with the iterables appended."""
-        for el in iterable:
-            self.append(el)
     def index(self, value, start=0, stop=None):
         """Returns first index of value.
 
-- 
2.43.0


From f747ee206782cb186de81490aa91055d22473caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:06 +0000
Subject: [PATCH 04/43] fix: tlist.index (and tlist.remove) work without a stop
 argument

---
 pcollections/abc/_seq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 28d5984..1400878 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -409,6 +409,8 @@ class TransientSequence(Transient, MutableSequence):
 
         Raises ValueError if value is not present.
         """
+        if stop is None:
+            stop = len(self)
         if start == 0:
             for (ii,val) in enumerate(self):
                 if ii >= stop:
-- 
2.43.0


From e1407abb0f798fb8e40085f8ac1c4688d78015ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:08 +0000
Subject: [PATCH 05/43] fix: tlist.sort assigns to the list being sorted

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 1400878..ce8fa35 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -333,7 +333,7 @@ class TransientSequence(Transient, MutableSequence):
         The reverse flag can be set to sort in descending order.
         """
         for (ii,el) in enumerate(sorted(self, key=key, reverse=reverse)):
-            t[ii] = el
+            self[ii] = el
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-- 
2.43.0


From d724737ce18b3d25f38c12cbab5678e30ee9d088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:09 +0000
Subject: [PATCH 06/43] fix: tlist.reverse swaps the right pairs of items

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index ce8fa35..04122ec 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -357,7 +357,7 @@ class TransientSequence(Transient, MutableSequence):
         """Reverses *IN PLACE*."""
         n = len(self)
         for k in range(n//2):
-            kk = n - k
+            kk = n - k - 1
             tmp = self[k]
             self[k] = self[kk]
             self[kk] = tmp
-- 
2.43.0


From 219c79aaa86ddf8b7dd7a3c47b88b3d82caec407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:10 +0000
Subject: [PATCH 07/43] fix: list + tlist returns the new tlist

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 04122ec..62ac459 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -455,7 +455,7 @@ class TransientSequence(Transient, MutableSequence):
             t = self.copy()
             for el in reversed(obj):
                 t.prepend(el)
-            return r
+            return t
     def __imul__(self, value):
         if not isinstance(value, Integral):
             msg = f"can't multiply sequence by non-int of type '{type(value)}'"
-- 
2.43.0


From 81bf9337482a933e7a8df3e3254771c1e451628c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:12 +0000
Subject: [PATCH 08/43] fix: tlist repetition no longer edits the list during
 its own iteration

---
 pcollections/abc/_seq.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 62ac459..0d2fee7 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -466,13 +466,9 @@ class TransientSequence(Transient, MutableSequence):
         if reps == 0:
             self.clear()
         elif reps > 1:
-            n = len(self)
+            els = list(self)
             for r in range(reps - 1):
-                for (ii,el) in enumerate(self):
-                    if ii > n:
-                        break
-                    else:
-                        self.append(el)
+                self.extend(els)
         return self
     def __mul__(self, value):
         t = self.copy()
-- 
2.43.0


From 32cd64493aa972084e7772a223f87d852f32aa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:14 +0000
Subject: [PATCH 09/43] fix: tlist.extend accepts the list itself

---
 pcollections/abc/_seq.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 0d2fee7..858f6c5 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -342,6 +342,8 @@ class TransientSequence(Transient, MutableSequence):
         return n
     def extend(self, iterable):
         """Extends tlist by appending elements from the iterable."""
+        if iterable is self:
+            iterable = list(self)
         for val in iterable:
             self.append(val)
     def index(self, value, start=0, stop=None):
-- 
2.43.0


From ea713a3bcee7c15c0df2b66c9afa0f7dabbac769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:15 +0000
Subject: [PATCH 10/43] fix: list index() supports negative start and stop
 arguments

---
 pcollections/abc/_seq.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 858f6c5..2093a19 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -185,8 +185,13 @@ class PersistentSequence(Persistent, Sequence):
 
         Raises ValueError if value is not present.
         """
+        n = len(self)
         if stop is None:
-            stop = len(self)
+            stop = n
+        elif stop < 0:
+            stop += n
+        if start < 0:
+            start = max(start + n, 0)
         if start == 0:
             for (ii,val) in enumerate(self):
                 if ii >= stop:
@@ -411,8 +416,13 @@ class TransientSequence(Transient, MutableSequence):
 
         Raises ValueError if value is not present.
         """
+        n = len(self)
         if stop is None:
-            stop = len(self)
+            stop = n
+        elif stop < 0:
+            stop += n
+        if start < 0:
+            start = max(start + n, 0)
         if start == 0:
             for (ii,val) in enumerate(self):
                 if ii >= stop:
-- 
2.43.0


From b916a4e7595d1f1037f382e1d92114a4459e6874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 11/43] fix: list equality compares items by equality, not by
 order

---
 pcollections/abc/_seq.py   | 6 ++++--
 pcollections/util/_core.py | 9 +++++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 2093a19..232d8a1 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -136,8 +136,10 @@ class PersistentSequence(Persistent, Sequence):
             return True
         elif not isinstance(other, PersistentSequence._eq_types):
             return False
+        elif len(self) != len(other):
+            return False
         else:
-            return seqcmp(self, other) == 0
+            return all(a is b or a == b for (a,b) in zip(self, other))
     def __lt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
@@ -382,7 +384,7 @@ class TransientSequence(Transient, MutableSequence):
         elif len(self) != len(other):
             return False
         else:
-            return seqcmp(self, other) == 0
+            return all(a is b or a == b for (a,b) in zip(self, other))
     def __lt__(self, other):
         if not isinstance(other, (list, PersistentSequence, TransientSequence)):
             raise TypeError(f"'<' not supported between instances of"
diff --git a/pcollections/util/_core.py b/pcollections/util/_core.py
index e4255c4..2baf817 100644
--- a/pcollections/util/_core.py
+++ b/pcollections/util/_core.py
@@ -52,7 +52,8 @@ def seqcmp(seq1, seq2):
     """Compares one sequence to another.
 
     `seqcmp(a, b)` returns -1 if `a` sorts before `b`, 0 if `a` is equal to
-    `b`, and 1 if `a` sorts after `b`.
+    `b`, and 1 if `a` sorts after `b`. If the first items that differ have no
+    order (neither is less than the other), NaN is returned.
     """
     if not isinstance(seq1, Sequence):
         msg = f"unsupported operand type for compare: {type(setq)}"
@@ -61,10 +62,14 @@ def seqcmp(seq1, seq2):
         msg = f"unsupported operand type for compare: {type(seq2)}"
         raise TypeError(msg)
     for (a,b) in zip(seq1, seq2):
-        if a < b:
+        if a is b or a == b:
+            continue
+        elif a < b:
             return -1
         elif b < a:
             return 1
+        else:
+            return float('nan')
     n1 = len(seq1)
     n2 = len(seq2)
     if n1 < n2:
-- 
2.43.0


From 6a91682441c67f327f26943adca407114526d8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:03 +0000
Subject: [PATCH 12/43] fix: pdict.set handles keys whose hashes collide

---
 pcollections/_dict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 347cac2..40b54fb 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -194,6 +194,7 @@ class pdict(PersistentMapping):
             new_idx = self._idx.assoc(h, self._top)
         else:
             # First make sure it's not already in the dict.
+            new_idx = self._idx
             while ii is not None:
                 (kv,ii_next) = self._els[ii]
                 (k,v) = kv
@@ -205,10 +206,12 @@ class pdict(PersistentMapping):
                     else:
                         new_els = self._els.assoc(ii, ((key,val), ii_next))
                         return self._new(new_els, self._idx, self._top)
+                ii_prev = ii
+                ii = ii_next
             # If we reach this point, we can add the object to the end of the
             # list.
             new_els = self._els.assoc(self._top, ((key,val), None))
-            new_els = new_els.assoc(ii, (kv, self._top))
+            new_els = new_els.assoc(ii_prev, (kv, self._top))
         return self._new(new_els, new_idx, self._top + 1)
     def drop(self, key):
         """Returns a copy of the pdict that does not include the given key.
-- 
2.43.0


From 92e54f2d5874e192c02f453cb75209e791068ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:05 +0000
Subject: [PATCH 13/43] fix: pset.add handles elements whose hashes collide

---
 pcollections/_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pcollections/_set.py b/pcollections/_set.py
index 0f27017..e225068 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -102,6 +102,7 @@ class pset(PersistentSet):
             # list.
             new_els = self._els.assoc(self._top, (obj, None))
             new_els = new_els.assoc(ii_prev, (x_prev, self._top))
+            new_idx = self._idx
         return self._new(new_els, new_idx, self._top + 1)
     def discard(self, obj):
         """Returns a copy of the pset that does not include the given object.
-- 
2.43.0


From 97ac3cc5f0d2d002fb9ed32a8a8c945b21a90e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:07 +0000
Subject: [PATCH 14/43] fix: hash of an ldict is the hash of its (evaluated)
 items

---
 pcollections/abc/_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index c957b6f..78dd81f 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -85,7 +85,7 @@ class PersistentMapping(Mapping, Persistent):
     def __repr__(self):
         return f"{{|{seqstr(self)}|}}"
     def __hash__(self):
-        return hash(frozenset(map(lambda u: u[1][0], self._els))) + 2
+        return hash(frozenset(self.items())) + 2
     def __contains__(self, k):
         try:
             self[k]
-- 
2.43.0


From e09ce4c009c82d37c2a98a4d86644593024ecf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:09 +0000
Subject: [PATCH 15/43] fix: membership tests on tdict.values() and
 tldict.values()

---
 pcollections/_dict.py | 2 +-
 pcollections/_lazy.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 40b54fb..6fe5e3a 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -353,7 +353,7 @@ class tdict_values(ValuesView, tdict_view):
     def _from_kv(self, arg):
         return arg[1]
     def __contains__(self, v):
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if kv[1] == v:
                 return True
         return False
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index b3a5171..afa65a2 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -415,11 +415,11 @@ class tldict_values(tdict_values):
     def _from_kv(self, arg):
         return unlazy(arg[1])
     def __contains__(self, v):
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if not isinstance(kv[1], lazy):
                 if kv[1] == v:
                     return True
-        for (kv,_) in self._els:
+        for (_,(kv,_)) in self._tdict._els:
             if isinstance(kv[1], lazy):
                 if kv[1]() == v:
                     return True
-- 
2.43.0


From 638d68aaab3397f41c84e70050da7c3a69507838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:11 +0000
Subject: [PATCH 16/43] fix: pdict.dropall no longer calls a missing tdict
 method

---
 pcollections/abc/_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index 78dd81f..c0b71d2 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -122,7 +122,7 @@ class PersistentMapping(Mapping, Persistent):
         """
         t = self.transient()
         for k in keys:
-            t.drop(k)
+            t.pop(k, None)
         return type(self)(t)
     def deleteall(self, keys):
         """Returns a copy of the persistent mapping that excludes all the keys
-- 
2.43.0


From db008308d18c7c7a85305f32ddd215b9656959ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:12 +0000
Subject: [PATCH 17/43] fix: ldict.pop returns the value of a lazy item, not
 the lazy object

---
 pcollections/_lazy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index afa65a2..9d267be 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -342,6 +342,9 @@ class ldict(pdict):
         if isinstance(v, lazy):
             v = v()
         return v
+    def pop(self, key, *args):
+        (v, d) = pdict.pop(self, key, *args)
+        return (unlazy(v), d)
     def items(self):
         return ldict_items(self)
     def values(self):
-- 
2.43.0


From ee4c8b2d50ac9c237fb4eed3df17818cc8aca7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:14 +0000
Subject: [PATCH 18/43] fix: tldict.pop no longer recurses without end

---
 pcollections/_lazy.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 9d267be..c6fb7b5 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -503,8 +503,12 @@ class tldict(tdict):
         return unlazy(tdict.__getitem__(self, k))
     def get(self, k, default=None):
         return unlazy(tdict.get(self, k, default))
-    def pop(self, *args):
-        return unlazy(self.pop(*args))
+    def pop(self, key, *args):
+        # Evaluate a lazy value before its key is removed; if the evaluation
+        # raises an error, then the dictionary must not change.
+        if key in self:
+            self[key]
+        return unlazy(tdict.pop(self, key, *args))
     def items(self):
         return tldict_items(self)
     def values(self):
-- 
2.43.0


From 90c9242c9c18cf9286aaf0a2da47af12394c9ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:16 +0000
Subject: [PATCH 19/43] fix: isdisjoint is true when either set is empty, and
 takes any iterable

---
 pcollections/abc/_set.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 8fac331..554191e 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -167,6 +167,9 @@ class PersistentSet(Set, Persistent):
         """Returns `True` if two sets have a null intersection."""
         if not isinstance(other, Set):
             other = set(other)
+        # (The empty set is disjoint from every set.)
+        if len(self) == 0 or len(other) == 0:
+            return True
         return setcmp(self, other) is None
     def issubset(self, other):
         """Report whether another set contains this set."""
@@ -376,6 +379,11 @@ class TransientSet(MutableSet, Transient):
         return c == 1 or c == 0
     def isdisjoint(self, other):
         """Returns `True` if two sets have a null intersection."""
+        if not isinstance(other, Set):
+            other = set(other)
+        # (The empty set is disjoint from every set.)
+        if len(self) == 0 or len(other) == 0:
+            return True
         return setcmp(self, other) is None
     def issubset(self, other):
         """Report whether another set contains this set."""
-- 
2.43.0


From 61464e23df4f19550402c06b61ab2331959328f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:18 +0000
Subject: [PATCH 20/43] fix: pset.symmetric_difference no longer drops a result
 of the same size

---
 pcollections/abc/_set.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 554191e..ff8c539 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -212,8 +212,6 @@ class PersistentSet(Set, Persistent):
         t = self.transient()
         for arg in args:
             t ^= arg
-        if len(t) == len(self):
-            return self
         return type(self)(t)
     def union(self, *args):
         """Returns the union of the persistent set and all arguments."""
-- 
2.43.0


From 9294af1b4b3dae519e4c992d9f4ab16ebc4973ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:20 +0000
Subject: [PATCH 21/43] fix: tset.symmetric_difference(_update) uses its
 argument

---
 pcollections/abc/_set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index ff8c539..5f4f2e8 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -420,7 +420,7 @@ class TransientSet(MutableSet, Transient):
         return t
     def symmetric_difference_update(self, other):
         """Update a set with the symmetric difference of itself and another."""
-        self ^= arg
+        self ^= other
     def symmetric_difference(self, other):
         """Return the symmetric difference of two sets as a new set.
 
-- 
2.43.0


From 55cc21cfde94395ff7f163ff7fd7e4a81c5a5a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:22 +0000
Subject: [PATCH 22/43] fix: comparing a tset with a non-set is False instead
 of an error

---
 pcollections/abc/_set.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 5f4f2e8..facc4b7 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -360,9 +360,12 @@ class TransientSet(MutableSet, Transient):
         #return f"{{<{s[1:-1]}>}}"
         return f"{{<{seqstr(self)}>}}"
     def __eq__(self, other):
-        return setcmp(self, other) == 0
+        if isinstance(other, Set):
+            return setcmp(self, other) == 0
+        else:
+            return False
     def __ne__(self, other):
-        return setcmp(self, other) != 0
+        return not (self == other)
     def __hash__(self):
         return hash(frozenset(self)) + 1
     def __lt__(self, other):
-- 
2.43.0


From 26b52a7833225f7b4839449e9229fa94c5baf1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:23 +0000
Subject: [PATCH 23/43] fix: removing a tset's elements from itself (-=, ^=,
 discardall, removeall)

---
 pcollections/abc/_set.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index facc4b7..015e8b4 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -507,6 +507,9 @@ class TransientSet(MutableSet, Transient):
         if not isinstance(other, Set):
             raise TypeError(f"unsupported operand type for ^=:"
                             f" '{type(self)}' and '{type(other)}'")
+        if other is self:
+            self.clear()
+            return self
         rm = []
         for el in self:
             if el in other:
@@ -550,6 +553,8 @@ class TransientSet(MutableSet, Transient):
 
         If any element is not found, then it is ignored.
         """
+        if iterable is self:
+            return self.clear()
         for el in iterable:
             self.discard(el)
     def removeall(self, iterable):
@@ -558,6 +563,8 @@ class TransientSet(MutableSet, Transient):
 
         If any element is not found, then a `KeyError` is raised.
         """
+        if iterable is self:
+            return self.clear()
         for el in iterable:
             self.remove(el)
     def copy(self):
-- 
2.43.0


From 6e708484822f210b3a214536e4be93689eb3c333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:59 +0000
Subject: [PATCH 24/43] fix: converting a lazy list to plist/tlist evaluates
 it; to llist/tllist keeps it lazy

---
 pcollections/_lazy.py | 18 ++++++++++++++++++
 pcollections/_list.py |  8 ++++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index c6fb7b5..9acd506 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -196,6 +196,15 @@ class llist(plist):
     """
     empty = None
     __slots__ = ()
+    def __new__(cls, *args, **kw):
+        # A tllist is copied without evaluating its lazy items.
+        if len(args) == 1 and not kw and isinstance(args[0], tllist):
+            arg = args[0]
+            if len(arg) == 0:
+                return cls.empty
+            else:
+                return cls._new(arg._thamt.persistent(), arg._start)
+        return plist.__new__(cls, *args, **kw)
     def __iter__(self):
         it = plist.__iter__(self)
         return map(lambda u: u() if isinstance(u, lazy) else u, it)
@@ -271,6 +280,15 @@ class tllist(tlist):
     elements instead of the `lazy` objects themselves.
     """
     __slots__ = ()
+    def __new__(cls, *args, **kw):
+        # Lazy lists are copied without evaluating their lazy items.
+        if len(args) == 1 and not kw:
+            arg = args[0]
+            if isinstance(arg, llist):
+                return cls._new(THAMT(arg._phamt), arg._start)
+            elif isinstance(arg, tllist):
+                return cls._new(THAMT(arg._thamt.persistent()), arg._start)
+        return tlist.__new__(cls, *args, **kw)
     def __iter__(self):
         return map(unlazy, tlist.__iter__(self))
     def persistent(self):
diff --git a/pcollections/_list.py b/pcollections/_list.py
index f75ed5f..d931ed1 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -34,14 +34,14 @@ class plist(PersistentSequence):
             raise TypeError(msg)
         arg = args[0]
         # If arg is a tlist, this is a special case.
-        if isinstance(arg, tlist):
+        if type(arg) is tlist:
             if len(arg) == 0:
                 return cls.empty
             else:
                 return cls._new(arg._thamt.persistent(), arg._start)
-        elif isinstance(arg, cls):
+        elif type(arg) is cls:
             return arg
-        elif isinstance(arg, plist):
+        elif type(arg) is plist:
             if len(arg) == 0:
                 return cls.empty
             else:
@@ -218,7 +218,7 @@ class tlist(TransientSequence):
         else: raise TypeError(f"tlist expects at most 1 argument, got {n}")
         arg = args[0]
         # If this is a plist, we know what to do with it.
-        if isinstance(arg, plist):
+        if type(arg) is plist:
             return cls._new(THAMT(arg._phamt), arg._start)
         # We just want to build a THAMT out of this arg of iterables.
         thamt = THAMT(PHAMT.empty)
-- 
2.43.0


From 4f1ab2e7be42ee309ae0c0f75540a77587247f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:01 +0000
Subject: [PATCH 25/43] fix: converting a lazy dict to pdict/tdict evaluates
 it; to ldict/tldict keeps it lazy

---
 pcollections/_dict.py |  2 +-
 pcollections/_lazy.py | 27 +++++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 6fe5e3a..be4e644 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -126,7 +126,7 @@ class pdict(PersistentMapping):
             # is a special case.
             if isinstance(arg, Sized) and len(arg) == 0:
                 return cls.empty
-            elif isinstance(arg, tdict):
+            elif type(arg) is tdict:
                 return cls._new(
                     arg._els.persistent(),
                     arg._idx.persistent(),
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 9acd506..23c200b 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -345,6 +345,20 @@ class ldict(pdict):
     """
     empty = None
     __slots__ = ()
+    def __new__(cls, *args, **kw):
+        # Lazy dicts are copied without evaluating their lazy values.
+        if len(args) == 1 and isinstance(args[0], (ldict, tldict)):
+            arg = args[0]
+            if type(arg) is cls and not kw:
+                return arg
+            t = tldict(arg, **kw)
+            if len(t) == 0:
+                return cls.empty
+            else:
+                return cls._new(t._els.persistent(),
+                                t._idx.persistent(),
+                                t._top)
+        return pdict.__new__(cls, *args, **kw)
     def __getitem__(self, key):
         v = pdict.__getitem__(self, key)
         if isinstance(v, lazy):
@@ -453,6 +467,19 @@ class tldict(tdict):
     keys instead of the `lazy` objects themselves.
     """
     __slots__ = ()
+    def __new__(cls, *args, **kw):
+        # Lazy dicts are copied without evaluating their lazy values.
+        if len(args) == 1 and isinstance(args[0], (ldict, tldict)):
+            arg = args[0]
+            if isinstance(arg, ldict):
+                t = arg.transient()
+            else:
+                t = cls._new(THAMT(arg._els.persistent()),
+                             THAMT(arg._idx.persistent()),
+                             arg._top)
+            t.update(kw)
+            return t
+        return tdict.__new__(cls, *args, **kw)
     def __str__(self):
         # We have a max length of 60 characters, not counting the delimiters.
         return f"{{|{seqstr(self.as_tdict(), maxlen=60, tostr=reprlazy)}|}}"
-- 
2.43.0


From 40b5ddad3e3f3d7c87d71264f1fd5cadb5792ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:02 +0000
Subject: [PATCH 26/43] fix: tldict(pdict).persistent() is an ldict, not the
 original pdict

---
 pcollections/_dict.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index be4e644..5d93ed2 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -405,9 +405,10 @@ class tdict(TransientMapping):
             obj = cls._new(THAMT(arg._els.persistent()),
                            THAMT(arg._idx.persistent()),
                            arg._top,
-                           arg._orig)
+                           arg._orig if cls is tdict else None)
         elif type(arg) is pdict:
-            obj = cls._new(THAMT(arg._els), THAMT(arg._idx), arg._top, arg)
+            obj = cls._new(THAMT(arg._els), THAMT(arg._idx), arg._top,
+                           arg if cls is tdict else None)
         else:
             obj = cls._new(THAMT(PHAMT.empty), THAMT(PHAMT.empty), 0)
             if isinstance(arg, Mapping):
-- 
2.43.0


From c02bebb5f3f70df908d61774092baac69d488128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:04 +0000
Subject: [PATCH 27/43] fix: tldict.as_tdict returns a copy that shares no
 mutable state

---
 pcollections/_lazy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 23c200b..243610a 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -532,7 +532,9 @@ class tldict(tdict):
         mapped to their associated `lazy` objects. This is essentially a way to
         expose the raw values of a lazy dictionary.
         """
-        return tdict._new(self._els, self._idx, self._top)
+        return tdict._new(THAMT(self._els.persistent()),
+                          THAMT(self._idx.persistent()),
+                          self._top)
     def __holdlazy__(self):
         return self.as_tdict()
     def getlazy(self, k, default=None):
-- 
2.43.0


From cc2bed1449e488b4aec67b5da88751c42d9264fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:06 +0000
Subject: [PATCH 28/43] fix: llist.ready_all evaluates the lazy items

---
 pcollections/_lazy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 243610a..16fbdfe 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -239,7 +239,7 @@ class llist(plist):
             return True
     def ready_all(self):
         "Caches all lazy items then returns the list."
-        for el in self._phamt:
+        for (_,el) in self._phamt:
             if isinstance(el, lazy):
                 el()
         return self
-- 
2.43.0


From 5c2bc41b7744e663d76a19c5ebc7a7cf1a739e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:08 +0000
Subject: [PATCH 29/43] fix: llist.count counts the values of lazy items

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 232d8a1..1e49c66 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -173,7 +173,7 @@ class PersistentSequence(Persistent, Sequence):
     def count(self, value):
         """Returns the number of occurences of value."""
         n = 0
-        for (k,obj) in self._phamt:
+        for obj in self:
             if obj == value: n += 1
         return n
     def extend(self, iterable):
-- 
2.43.0


From 3536455e8163ba4685fd9e74f5ba5c204e0d9c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:09 +0000
Subject: [PATCH 30/43] fix: attributes of persistent collections cannot be
 deleted

---
 pcollections/abc/_core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pcollections/abc/_core.py b/pcollections/abc/_core.py
index ae2a404..329b2a8 100644
--- a/pcollections/abc/_core.py
+++ b/pcollections/abc/_core.py
@@ -14,9 +14,11 @@ class Persistent(Hashable):
     # Methods that should throw errors in children.
     def __setattr__(self, k, v):
         raise TypeError(f"{type(self)} is immutable")
+    def __delattr__(self, k):
+        raise TypeError(f"{type(self)} is immutable")
     def __setitem__(self, k, v):
         raise TypeError(f"{type(self)} is immutable")
-    def __delitem__(self, k, v):
+    def __delitem__(self, k):
         raise TypeError(f"{type(self)} is immutable")
     # Implementation methods that are probably fine in all children.
     def copy(self):
-- 
2.43.0


From 3b53642266c1bc1b76a4506ecea1289b276c2ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:42 +0000
Subject: [PATCH 31/43] fix: items, elements and keys are found by identity or
 equality (NaN), like in native collections

---
 pcollections/_dict.py    | 33 +++++++++++++++++----------------
 pcollections/_lazy.py    |  5 +++--
 pcollections/_set.py     | 12 ++++++------
 pcollections/abc/_seq.py | 16 ++++++++--------
 4 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 5d93ed2..0a3cdf0 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -75,7 +75,7 @@ class pdict_items(ItemsView, PDictView):
         d = Ellipsis if v0 is None else None
         v = self._mapping.get(k0, d)
         (k,v) = self._from_kv((k0,v))
-        return v0 == v
+        return v0 is v or v0 == v
 class pdict_values(ValuesView, PDictView):
     __slots__ = ()
     def _from_kv(self, kv):
@@ -83,7 +83,7 @@ class pdict_values(ValuesView, PDictView):
     def __contains__(self, v):
         for ent in self._mapping._els:
             v0 = self._from_kv(ent[1][0])
-            if v0 == v:
+            if v0 is v or v0 == v:
                 return True
         return False
 class pdict(PersistentMapping):
@@ -155,7 +155,7 @@ class pdict(PersistentMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             ((kk,vv),ii) = self._els[ii]
-            if k == kk:
+            if k is kk or k == kk:
                 return True
         return False
     def __iter__(self):
@@ -167,7 +167,7 @@ class pdict(PersistentMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         raise KeyError(key)
     def get(self, key, default=None):
@@ -175,7 +175,7 @@ class pdict(PersistentMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         return default
     def transient(self):
@@ -198,7 +198,7 @@ class pdict(PersistentMapping):
             while ii is not None:
                 (kv,ii_next) = self._els[ii]
                 (k,v) = kv
-                if key == k:
+                if key is k or key == k:
                     # It is in the dict; either it's exactly in the dict or we
                     # replace it.
                     if val is v:
@@ -227,7 +227,7 @@ class pdict(PersistentMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -270,7 +270,7 @@ class pdict(PersistentMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -347,14 +347,15 @@ class tdict_items(ItemsView, tdict_view):
         if not isinstance(kv, tuple) or len(kv) != 2:
             return False
         d = Ellipsis if kv[1] is None else None
-        return self._tdict.get(kv[0], d) == kv[1]
+        v = self._tdict.get(kv[0], d)
+        return v is kv[1] or v == kv[1]
 class tdict_values(ValuesView, tdict_view):
     __slots__ = ('_tdict', '_version')
     def _from_kv(self, arg):
         return arg[1]
     def __contains__(self, v):
         for (_,(kv,_)) in self._tdict._els:
-            if kv[1] == v:
+            if kv[1] is v or kv[1] == v:
                 return True
         return False
 class tdict(TransientMapping):
@@ -430,7 +431,7 @@ class tdict(TransientMapping):
         ii_prev = None
         while ii is not None:
             (kv, ii_next) = self._els[ii]
-            if kv[0] == k:
+            if kv[0] is k or kv[0] == k:
                 if kv[1] is not v:
                     self._els[ii] = ((k,v), ii_next)
                     # The object has changed, so make sure we aren't tracking
@@ -462,7 +463,7 @@ class tdict(TransientMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             ((kk,vv),ii) = self._els[ii]
-            if k == kk:
+            if k is kk or k == kk:
                 return True
         return False
     def __reversed__(self):
@@ -472,7 +473,7 @@ class tdict(TransientMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         raise KeyError(key)
     def get(self, key, default=None):
@@ -480,7 +481,7 @@ class tdict(TransientMapping):
         ii = self._idx.get(h, None)
         while ii is not None:
             (kv,ii) = self._els[ii]
-            if key == kv[0]:
+            if key is kv[0] or key == kv[0]:
                 return kv[1]
         return default
     def __iter__(self):
@@ -501,7 +502,7 @@ class tdict(TransientMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -546,7 +547,7 @@ class tdict(TransientMapping):
         while ii is not None:
             (kv,ii_next) = self._els[ii]
             (k,v) = kv
-            if key == k:
+            if key is k or key == k:
                 # We remove this entry!
                 if ii_prev is None:
                     # We're removing from the front of the list.
diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 16fbdfe..101095e 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -452,11 +452,12 @@ class tldict_values(tdict_values):
     def __contains__(self, v):
         for (_,(kv,_)) in self._tdict._els:
             if not isinstance(kv[1], lazy):
-                if kv[1] == v:
+                if kv[1] is v or kv[1] == v:
                     return True
         for (_,(kv,_)) in self._tdict._els:
             if isinstance(kv[1], lazy):
-                if kv[1]() == v:
+                v0 = kv[1]()
+                if v0 is v or v0 == v:
                     return True
         return False
 class tldict(tdict):
diff --git a/pcollections/_set.py b/pcollections/_set.py
index e225068..449ad1b 100644
--- a/pcollections/_set.py
+++ b/pcollections/_set.py
@@ -65,7 +65,7 @@ class pset(PersistentSet):
         ii = self._idx.get(h, None)
         while ii is not None:
             (x,ii) = self._els[ii]
-            if el == x:
+            if el is x or el == x:
                 return True
         return False
     def __iter__(self):
@@ -93,7 +93,7 @@ class pset(PersistentSet):
             ii_prev = None
             while ii is not None:
                 (x,ii_next) = self._els[ii]
-                if obj == x:
+                if obj is x or obj == x:
                     return self
                 ii_prev = ii
                 x_prev = x
@@ -117,7 +117,7 @@ class pset(PersistentSet):
         x_prev = None
         while ii is not None:
             (x,ii_next) = self._els[ii]
-            if obj == x:
+            if obj is x or obj == x:
                 # We remove this object!
                 if ii_prev is None:
                     # We're removing from the front of the list.
@@ -200,7 +200,7 @@ class tset(TransientSet):
         ii = self._idx.get(h, None)
         while ii is not None:
             (x,ii) = self._els[ii]
-            if el == x:
+            if el is x or el == x:
                 return True
         return False
     def __iter__(self):
@@ -221,7 +221,7 @@ class tset(TransientSet):
             ii_prev = None
             while ii is not None:
                 (x,ii_next) = self._els[ii]
-                if obj == x:
+                if obj is x or obj == x:
                     return None
                 ii_prev = ii
                 x_prev = x
@@ -245,7 +245,7 @@ class tset(TransientSet):
         x_prev = None
         while ii is not None:
             (x,ii_next) = self._els[ii]
-            if obj == x:
+            if obj is x or obj == x:
                 # We remove this object!
                 if ii_prev is None:
                     # We're removing from the front of the list.
diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 1e49c66..ac07a19 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -164,7 +164,7 @@ class PersistentSequence(Persistent, Sequence):
         return hash(tuple(self)) + 1
     def __contains__(self, value):
         for el in self:
-            if el == value:
+            if el is value or el == value:
                 return True
         return False
     def __reversed__(self):
@@ -174,7 +174,7 @@ class PersistentSequence(Persistent, Sequence):
         """Returns the number of occurences of value."""
         n = 0
         for obj in self:
-            if obj == value: n += 1
+            if obj is value or obj == value: n += 1
         return n
     def extend(self, iterable):
         """Return a new persistent sequence with the iterables appended."""
@@ -198,7 +198,7 @@ class PersistentSequence(Persistent, Sequence):
             for (ii,val) in enumerate(self):
                 if ii >= stop:
                     break
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         else:
             for (ii,val) in enumerate(self):
@@ -206,7 +206,7 @@ class PersistentSequence(Persistent, Sequence):
                     break
                 elif ii < start:
                     pass
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         raise ValueError(f"{value} is not in {type(self)}")
     # We include a hash function; though this should be overwritten to cache the
@@ -345,7 +345,7 @@ class TransientSequence(Transient, MutableSequence):
         """Returns the number of occurences of value."""
         n = 0
         for obj in self:
-            if obj == value: n += 1
+            if obj is value or obj == value: n += 1
         return n
     def extend(self, iterable):
         """Extends tlist by appending elements from the iterable."""
@@ -407,7 +407,7 @@ class TransientSequence(Transient, MutableSequence):
         return seqcmp(self, other) >= 0
     def __contains__(self, value):
         for el in self:
-            if el == value:
+            if el is value or el == value:
                 return True
         return False
     def __reversed__(self):
@@ -429,7 +429,7 @@ class TransientSequence(Transient, MutableSequence):
             for (ii,val) in enumerate(self):
                 if ii >= stop:
                     break
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         else:
             for (ii,val) in enumerate(self):
@@ -437,7 +437,7 @@ class TransientSequence(Transient, MutableSequence):
                     break
                 elif ii < start:
                     pass
-                elif val == value:
+                elif val is value or val == value:
                     return ii
         raise ValueError(f"{value} is not in {type(self)}")
     def __iadd__(self, obj):
-- 
2.43.0


From 6f17be623bc64f7033caa59ac677e81a2492a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:44 +0000
Subject: [PATCH 32/43] fix: values of existing tdict keys can be set during
 iteration; clear() ends iterations

---
 pcollections/_dict.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index 0a3cdf0..b26a606 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -491,7 +491,9 @@ class tdict(TransientMapping):
                 raise RuntimeError(f"{type(self)} changed during iteration")
             else:
                 return arg[1][0][0]
-        return map(_iter_key, self._els)
+        # We iterate over a snapshot: replacing the value of an existing key is
+        # allowed during iteration (it does not change the version).
+        return map(_iter_key, self._els.persistent())
     def __delitem__(self, key):
         # Get the hash and initial index (if there is one).
         h = hash(key)
@@ -528,7 +530,7 @@ class tdict(TransientMapping):
         object.__setattr__(self, '_els', THAMT(PHAMT.empty))
         object.__setattr__(self, '_idx', THAMT(PHAMT.empty))
         object.__setattr__(self, '_top', 0)
-        object.__setattr__(self, '_version', 0)
+        object.__setattr__(self, '_version', self._version + 1)
         return None
     def pop(self, key, *args):
         """Removes the given key from the tdict and returns the previously
-- 
2.43.0


From 81eb0bb37d63a1e01c27ece2ffd11fedb12e10aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:46 +0000
Subject: [PATCH 33/43] fix: intersection and symmetric_difference methods take
 any iterable, like difference and union

---
 pcollections/abc/_set.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pcollections/abc/_set.py b/pcollections/abc/_set.py
index 015e8b4..60af830 100644
--- a/pcollections/abc/_set.py
+++ b/pcollections/abc/_set.py
@@ -200,7 +200,7 @@ class PersistentSet(Set, Persistent):
         """
         t = self.transient()
         for arg in args:
-            t &= arg
+            t &= (arg if isinstance(arg, Set) else set(arg))
         if len(t) == len(self):
             return self
         return type(self)(t)
@@ -211,7 +211,7 @@ class PersistentSet(Set, Persistent):
         """
         t = self.transient()
         for arg in args:
-            t ^= arg
+            t ^= (arg if isinstance(arg, Set) else set(arg))
         return type(self)(t)
     def union(self, *args):
         """Returns the union of the persistent set and all arguments."""
@@ -412,7 +412,7 @@ class TransientSet(MutableSet, Transient):
     def intersection_update(self, *args):
         """Update a set with the intersection of itself and another."""
         for arg in args:
-            self &= arg
+            self &= (arg if isinstance(arg, Set) else set(arg))
     def intersection(self, *args):
         """Return the intersection of two sets as a new transient set.
 
@@ -423,7 +423,7 @@ class TransientSet(MutableSet, Transient):
         return t
     def symmetric_difference_update(self, other):
         """Update a set with the symmetric difference of itself and another."""
-        self ^= other
+        self ^= (other if isinstance(other, Set) else set(other))
     def symmetric_difference(self, other):
         """Return the symmetric difference of two sets as a new set.
 
-- 
2.43.0


From 254abc715af18a6d66430bb65b40989361075df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:48 +0000
Subject: [PATCH 34/43] fix: str and repr of a tllist do not evaluate its lazy
 items

---
 pcollections/_lazy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 101095e..36e08c7 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -299,6 +299,12 @@ class tllist(tlist):
             return llist._new(self._thamt.persistent(), self._start)
         else:
             return self._orig
+    def __str__(self):
+        # We have a max length of 60 characters, not counting the delimiters.
+        els = tlist.__iter__(self)
+        return f"[<{seqstr(els, maxlen=60, tostr=reprlazy)}>]"
+    def __repr__(self):
+        return f"[<{seqstr(tlist.__iter__(self))}>]"
     def __getitem__(self, k):
         return unlazy(tlist.__getitem__(self, k))
     def getlazy(self, k):
-- 
2.43.0


From bc12a95c64ba6a1cf43e70fd77a8400bc95efef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:30 +0000
Subject: [PATCH 35/43] fix: a tlist with prepended items can be changed during
 its iteration

---
 pcollections/_list.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pcollections/_list.py b/pcollections/_list.py
index d931ed1..d48b639 100644
--- a/pcollections/_list.py
+++ b/pcollections/_list.py
@@ -253,8 +253,11 @@ class tlist(TransientSequence):
         if st >= 0 or n + st < 0:
             return map(lambda u:u[1], iter(th))
         else:
-            return chain((th[k] for k in range(st, 0)),
-                         islice(map(lambda u:u[1], iter(th)), 0, n + st))
+            # The items at negative indices are read from a snapshot, in case
+            # the tlist is changed during the iteration.
+            ph = th.persistent()
+            return chain((ph[k] for k in range(st, 0)),
+                         islice(map(lambda u:u[1], ph), 0, n + st))
     def __len__(self):
         """Returns the length of the tlist."""
         return len(self._thamt)
-- 
2.43.0


From 7ad81b7783722fe55370f0f195c406b0749157c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:32 +0000
Subject: [PATCH 36/43] fix: a transient list can be changed during its
 reversed iteration

---
 pcollections/abc/_seq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index ac07a19..5a2d45f 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -411,8 +411,8 @@ class TransientSequence(Transient, MutableSequence):
                 return True
         return False
     def __reversed__(self):
-        n = len(self)
-        return map(self.__getitem__, range(n - 1, -1, -1))
+        # We iterate over a snapshot, in case the sequence changes meanwhile.
+        return reversed(self.persistent())
     def index(self, value, start=0, stop=None):
         """Returns first index of value.
 
-- 
2.43.0


From b8133d1a83ba2392864dedb543b4ced5170bb1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:34 +0000
Subject: [PATCH 37/43] fix: adding a list to an empty list of another type
 keeps the type

---
 pcollections/abc/_seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 5a2d45f..6e907b0 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -218,7 +218,7 @@ class PersistentSequence(Persistent, Sequence):
             raise TypeError(msg)
         elif len(obj) == 0:
             return self
-        elif len(self) == 0 and isinstance(obj, PersistentSequence):
+        elif len(self) == 0 and type(obj) is type(self):
             return obj
         else:
             return self.extend(obj)
-- 
2.43.0


From 83b34e4f7683f219c9e28ffa1bbfbef44da7ffc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:42 +0000
Subject: [PATCH 38/43] fix: tldict.setdefault returns the value of a lazy
 default, not the lazy object

---
 pcollections/_lazy.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pcollections/_lazy.py b/pcollections/_lazy.py
index 36e08c7..5054b3d 100644
--- a/pcollections/_lazy.py
+++ b/pcollections/_lazy.py
@@ -563,6 +563,13 @@ class tldict(tdict):
         if key in self:
             self[key]
         return unlazy(tdict.pop(self, key, *args))
+    def setdefault(self, key, default=None):
+        # As with pop, a lazy default is evaluated before anything changes.
+        if key in self:
+            return self[key]
+        val = unlazy(default)
+        self[key] = default
+        return val
     def items(self):
         return tldict_items(self)
     def values(self):
-- 
2.43.0


From 20255f786a927af7cd43d133cf6a916a9f54f1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 39/43] fix: reversing a tllist whose lazy item fails changes
 nothing

---
 pcollections/abc/_seq.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pcollections/abc/_seq.py b/pcollections/abc/_seq.py
index 6e907b0..f94a5b1 100644
--- a/pcollections/abc/_seq.py
+++ b/pcollections/abc/_seq.py
@@ -364,12 +364,10 @@ class TransientSequence(Transient, MutableSequence):
         raise ValueError(f'{value} is not in {type(self)}')
     def reverse(self):
         """Reverses *IN PLACE*."""
-        n = len(self)
-        for k in range(n//2):
-            kk = n - k - 1
-            tmp = self[k]
-            self[k] = self[kk]
-            self[kk] = tmp
+        # (If reading the items raises an error, then nothing must change.)
+        els = list(self)
+        for (k,el) in enumerate(reversed(els)):
+            self[k] = el
     def __str__(self):
         # We have a max length of 60 characters, not counting the delimiters.
         return f"[<{seqstr(self, maxlen=60)}>]"
-- 
2.43.0


From b565725e4ad3f85303e95428ff179ad79b9cff90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 40/43] fix: ldict.dropall does not evaluate the lazy values it
 drops

---
 pcollections/abc/_map.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pcollections/abc/_map.py b/pcollections/abc/_map.py
index c0b71d2..d0204d1 100644
--- a/pcollections/abc/_map.py
+++ b/pcollections/abc/_map.py
@@ -122,7 +122,8 @@ class PersistentMapping(Mapping, Persistent):
         """
         t = self.transient()
         for k in keys:
-            t.pop(k, None)
+            if k in t:
+                del t[k]
         return type(self)(t)
     def deleteall(self, keys):
         """Returns a copy of the persistent mapping that excludes all the keys
-- 
2.43.0


From 3bb3b810675ab30e059301df64a556e8da41d430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:45 +0000
Subject: [PATCH 41/43] fix: a pdict made from an empty iterator is the
 canonical empty pdict

---
 pcollections/_dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index b26a606..c407247 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -139,6 +139,8 @@ class pdict(PersistentMapping):
                 return cls._new(arg._els, arg._idx, arg._top)
         # For anything else, however, we just route this through tdict.
         t = tdict(arg, **kw)
+        if len(t) == 0:
+            return cls.empty
         return cls._new(
             t._els.persistent(),
             t._idx.persistent(),
-- 
2.43.0


From 5642d9d9d2bbc40ba5e26305bf2bbf3020894577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:11 +0000
Subject: [PATCH 42/43] fix: seqstr counts the separator after items whose text
 is empty

---
 pcollections/util/_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcollections/util/_core.py b/pcollections/util/_core.py
index 2baf817..64a21c6 100644
--- a/pcollections/util/_core.py
+++ b/pcollections/util/_core.py
@@ -104,7 +104,7 @@ def seqstr(seq, maxlen=None, sep=", ", tostr=repr):
         s = tostr(el)
         parts.append(s)
         n = len(s)
-        N = n if N == 0 else N + seplen + n
+        N = n if len(parts) == 1 else N + seplen + n
         if N > maxlen:
             # We've overshot; remove the final element if need-be.
             while len(parts) > 0 and N + elllen > maxlen:
-- 
2.43.0


From df8f9bb39fb4a8e03c4c1ec4946955703ef326da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:13 +0000
Subject: [PATCH 43/43] fix: items() of a dict never contains a pair whose key
 is absent

---
 pcollections/_dict.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pcollections/_dict.py b/pcollections/_dict.py
index c407247..1b9a438 100644
--- a/pcollections/_dict.py
+++ b/pcollections/_dict.py
@@ -72,8 +72,11 @@ class pdict_items(ItemsView, PDictView):
         if not isinstance(kv, tuple) or len(kv) != 2:
             return False
         (k0,v0) = self._from_kv(kv)
-        d = Ellipsis if v0 is None else None
-        v = self._mapping.get(k0, d)
+        # (The default is no value of the dict, so it tells of a missing key.)
+        absent = object()
+        v = self._mapping.get(k0, absent)
+        if v is absent:
+            return False
         (k,v) = self._from_kv((k0,v))
         return v0 is v or v0 == v
 class pdict_values(ValuesView, PDictView):
@@ -348,8 +351,11 @@ class tdict_items(ItemsView, tdict_view):
     def __contains__(self, kv):
         if not isinstance(kv, tuple) or len(kv) != 2:
             return False
-        d = Ellipsis if kv[1] is None else None
-        v = self._tdict.get(kv[0], d)
+        # (The default is no value of the dict, so it tells of a missing key.)
+        absent = object()
+        v = self._tdict.get(kv[0], absent)
+        if v is absent:
+            return False
         return v is kv[1] or v == kv[1]
 class tdict_values(ValuesView, tdict_view):
     __slots__ = ('_tdict', '_version')
-- 
2.43.0

