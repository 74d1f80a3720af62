From adb2e68484155a7249292d880145259622a088e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:10 +0000
Subject: [PATCH 01/32] fix: release the partially built vector when the
 iterator passed to extend raises

---
 pvectorcmodule.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 9ed0ea1..3565947 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -863,7 +863,13 @@ static PyObject* PVector_extend(PVector *self, PyObject *iterable) {
       }
 
       Py_DECREF(it);
-      HANDLE_ITERATION_ERROR()
+      if (PyErr_Occurred()) {
+        if (!PyErr_ExceptionMatches(PyExc_StopIteration)) {
+          Py_DECREF(newVec);
+          return NULL;
+        }
+        PyErr_Clear();
+      }
       return (PyObject*)newVec;
     }
 }
-- 
2.43.0


From 103e986a54d19eff8d0436a13ff9bc64c4bc24aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:10 +0000
Subject: [PATCH 02/32] fix: let exceptions from element comparison through in
 the C PVector.remove

---
 pvectorcmodule.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 3565947..1596f5e 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1069,13 +1069,20 @@ static PyObject* PVector_delete(PVector *self, PyObject *args) {
 }
 
 static PyObject* PVector_remove(PVector *self, PyObject *args) {
-  Py_ssize_t index;
-  PyObject* py_index = PVector_index(self, args);
+  Py_ssize_t i;
+  PyObject *value;
+
+  if(!PyArg_ParseTuple(args, "O:remove", &value)) {
+    return NULL;
+  }
 
-  if(py_index != NULL) {
-      index = PyLong_AsSsize_t(py_index);
-    Py_DECREF(py_index);
-    return internalDelete(self, index, NULL);
+  for (i = 0; i < self->count; i++) {
+    int cmp = PyObject_RichCompareBool(_get_item(self, i), value, Py_EQ);
+    if (cmp > 0) {
+      return internalDelete(self, i, NULL);
+    } else if (cmp < 0) {
+      return NULL;
+    }
   }
 
   PyErr_SetString(PyExc_ValueError, "PVector.remove(x): x not in vector");
-- 
2.43.0


From 7f07490f003fd9d8686af41d22f6fc0a368aaea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:10 +0000
Subject: [PATCH 03/32] fix: position arguments of the C PVector.set and delete
 behave as in the Python implementation

---
 pvectorcmodule.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 1596f5e..016caa8 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -982,10 +982,15 @@ static PyObject* PVector_transform(PVector *self, PyObject *obj) {
 */
 static PyObject* PVector_set(PVector *self, PyObject *args) {
   PyObject *argObj = NULL;  /* argument to insert */
+  PyObject *positionObj = NULL;
   Py_ssize_t position;
 
-  /* The n parses for size, the O parses for a Python object */
-  if(!PyArg_ParseTuple(args, "nO", &position, &argObj)) {
+  if(!PyArg_ParseTuple(args, "OO", &positionObj, &argObj)) {
+    return NULL;
+  }
+
+  position = PyNumber_AsSsize_t(positionObj, PyExc_IndexError);
+  if (position == -1 && PyErr_Occurred()) {
     return NULL;
   }
 
@@ -1026,7 +1031,7 @@ static PyObject* internalDelete(PVector *self, Py_ssize_t index, PyObject *stop_
 
   if (stop_obj != NULL) {
     if (PyIndex_Check(stop_obj)) {
-      stop = PyNumber_AsSsize_t(stop_obj, PyExc_IndexError);
+      stop = PyNumber_AsSsize_t(stop_obj, NULL);
       if (stop == -1 && PyErr_Occurred()) {
         return NULL;
       }
@@ -1059,9 +1064,20 @@ static PyObject* internalDelete(PVector *self, Py_ssize_t index, PyObject *stop_
 
 static PyObject* PVector_delete(PVector *self, PyObject *args) {
   Py_ssize_t index;
+  PyObject *index_obj;
   PyObject *stop_obj = NULL;
 
-  if(!PyArg_ParseTuple(args, "n|O:delete", &index, &stop_obj)) {
+  if(!PyArg_ParseTuple(args, "O|O:delete", &index_obj, &stop_obj)) {
+    return NULL;
+  }
+
+  if(stop_obj == Py_None) {
+    stop_obj = NULL;
+  }
+
+  // Out of range positions are clipped for ranges but errors for single elements
+  index = PyNumber_AsSsize_t(index_obj, stop_obj == NULL ? PyExc_IndexError : NULL);
+  if (index == -1 && PyErr_Occurred()) {
     return NULL;
   }
 
-- 
2.43.0


From 0dcdfd8443efb595ac229ec963cc7a8f33028de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:10 +0000
Subject: [PATCH 04/32] fix: hash of a C vector equals the hash of equal Python
 (checked) vectors

---
 pvectorcmodule.c | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 016caa8..c4cc867 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -273,26 +273,16 @@ static PyObject *PVector_repr(PVector *self) {
 
 
 static Py_hash_t PVector_hash(PVector *self) {
-  // Follows the pattern of the tuple hash
-  long x, y;
-  Py_ssize_t i;
-  long mult = 1000003L;
-  x = 0x456789L;
-  for(i=0; i<self->count; i++) {
-      y = PyObject_Hash(_get_item(self, i));
-      if (y == -1) {
-        return -1;
-      }
-      x = (x ^ y) * mult;
-      mult += (long)(82520L + i + i);
-  }
-
-  x += 97531L;
-  if(x == -1) {
-    x = -2;
+  // The tuple hash, same as the Python implementation, since vectors of the two
+  // implementations compare equal
+  PyObject *tuple = PySequence_Tuple((PyObject*)self);
+  if (tuple == NULL) {
+    return -1;
   }
 
-  return x;
+  Py_hash_t hash = PyObject_Hash(tuple);
+  Py_DECREF(tuple);
+  return hash;
 }
 
 static PyObject* compareSizes(long vlen, long wlen, int op) {
-- 
2.43.0


From e88fca2ca2f9b4b33921dcfa932a434c3c52168f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:31 +0000
Subject: [PATCH 05/32] fix: finalizers of replaced elements may use the C
 vector evolver

---
 pvectorcmodule.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index c4cc867..27a3ad3 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1479,23 +1479,26 @@ static int PVectorEvolver_set_item(PVectorEvolver *self, PyObject* item, PyObjec
       }
 
       if(value != NULL) {
+        // Keep the replaced element until the update is done, its finalizer may use the evolver
+        PyObject *oldValue = _get_item(self->newVector, position);
+        Py_INCREF(oldValue);
+
         if(position < TAIL_OFF(self->newVector)) {
           self->newVector->root = doSetWithDirty(self->newVector->root, self->newVector->shift, position, value);
         } else {
           self->newVector->tail = doSetWithDirty(self->newVector->tail, 0, position, value);
         }
 
+        Py_DECREF(oldValue);
         return 0;
       }
 
       return internalPVectorDelete(self, position);
     } else if((0 <= position) && (position < (self->newVector->count + PyList_GET_SIZE(self->appendList)))) {
       if (value != NULL) {
-        int result = PyList_SetItem(self->appendList, position - self->newVector->count, value); 
-        if(result == 0) {
-          Py_INCREF(value);
-        }
-        return result;
+        // Steals a reference, also when failing
+        Py_INCREF(value);
+        return PyList_SetItem(self->appendList, position - self->newVector->count, value);
       }
 
       return internalPVectorDelete(self, position);
-- 
2.43.0


From 8726e88e86031fdbc59fbae2c6abf270e87fe8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:31 +0000
Subject: [PATCH 06/32] fix: C vector evolver is dirty after a delete

---
 pvectorcmodule.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 27a3ad3..b6fb782 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1457,7 +1457,8 @@ static int internalPVectorDelete(PVectorEvolver *self, Py_ssize_t position) {
 
   Py_DECREF(self->originalVector);
   self->originalVector = temp2;
-  self->newVector = self->originalVector;
+  // A copy, to make the evolver dirty
+  self->newVector = rawCopyPVector(temp2);
   return 0;
 }
 
-- 
2.43.0


From 0e3098ac3e662141bd81fcd7a1730ad50df2ab31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:32:55 +0000
Subject: [PATCH 07/32] fix: GC of C vectors sharing nodes does not clear live
 elements

---
 pvectorcmodule.c | 63 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 55 insertions(+), 8 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index b6fb782..6ef1e05 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -415,16 +415,34 @@ static PyObject* PVector_repeat(PVector *self, Py_ssize_t n) {
   }
 }
 
-static int PVector_traverse(PVector *o, visitproc visit, void *arg) {
-    // Naive traverse
-    Py_ssize_t i;
-    for (i = o->count; --i >= 0; ) {
-      Py_VISIT(_get_item(o, i));
+static int traverseNode(int level, VNode *node, visitproc visit, void *arg) {
+    // The elements of a node are referenced once by the node, no matter how many vectors
+    // that share the node. Only visit them if the traversed vector is the only owner,
+    // visiting them once per vector would make the GC believe that they are garbage.
+    int i;
+    if(NODE_REF_COUNT(node) != 1) {
+      return 0;
+    }
+
+    for(i = 0; i < BRANCH_FACTOR; i++) {
+      if(level == 0) {
+        Py_VISIT(node->items[i]);
+      } else if(node->items[i] != NULL) {
+        int result = traverseNode(level - SHIFT, node->items[i], visit, arg);
+        if(result) {
+          return result;
+        }
+      }
     }
 
     return 0;
 }
 
+static int PVector_traverse(PVector *o, visitproc visit, void *arg) {
+    int result = traverseNode(0, o->tail, visit, arg);
+    return result ? result : traverseNode(o->shift, o->root, visit, arg);
+}
+
 
 static PyObject* PVector_index(PVector *self, PyObject *args) {
   // A direct rip-off of the tuple version
@@ -504,7 +522,7 @@ static PVector* rawCopyPVector(PVector* vector) {
   newVector->root = vector->root;
   newVector->tail = vector->tail;
   newVector->in_weakreflist = NULL;
-  PyObject_GC_Track((PyObject*)newVector);
+  // Not tracked by the GC since it does not own its nodes until it has been cleaned
   return newVector;
 }
 
@@ -1520,6 +1538,7 @@ static PyObject *PVectorEvolver_persistent(PVectorEvolver *self) {
   PVector *resultVector;
   if(self->newVector != self->originalVector) {
     cleanVector(self->newVector);
+    PyObject_GC_Track((PyObject*)self->newVector);
     Py_DECREF(self->originalVector);
   }
 
@@ -1552,11 +1571,39 @@ static PyObject* PVectorEvolver_is_dirty(PVectorEvolver *self) {
   return Py_False;
 }
 
+static int traverseDirtyNode(int level, VNode *node, visitproc visit, void *arg) {
+  // Only the dirty nodes belong to the evolver
+  int i;
+  if(!IS_DIRTY(node)) {
+    return 0;
+  }
+
+  for(i = 0; i < BRANCH_FACTOR; i++) {
+    if(level == 0) {
+      Py_VISIT(node->items[i]);
+    } else if(node->items[i] != NULL) {
+      int result = traverseDirtyNode(level - SHIFT, node->items[i], visit, arg);
+      if(result) {
+        return result;
+      }
+    }
+  }
+
+  return 0;
+}
+
 static int PVectorEvolver_traverse(PVectorEvolver *self, visitproc visit, void *arg) {
-  Py_VISIT(self->newVector);
   if (self->newVector != self->originalVector) {
-      Py_VISIT(self->originalVector);
+      // Not tracked by the GC, visit its elements in its place
+      int result = traverseDirtyNode(0, self->newVector->tail, visit, arg);
+      if(result == 0) {
+        result = traverseDirtyNode(self->newVector->shift, self->newVector->root, visit, arg);
+      }
+      if(result) {
+        return result;
+      }
   }
+  Py_VISIT(self->originalVector);
   Py_VISIT(self->appendList);
   return 0;
 }
-- 
2.43.0


From 43bc8db3ea876d487421e1986bcad1ec305458d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:53 +0000
Subject: [PATCH 08/32] fix: finalizers run by persistent and delete see a
 consistent C vector evolver

---
 pvectorcmodule.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 6ef1e05..cd55c8e 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1473,10 +1473,11 @@ static int internalPVectorDelete(PVectorEvolver *self, Py_ssize_t position) {
     return -1;
   }
 
-  Py_DECREF(self->originalVector);
+  PVector *oldOriginal = self->originalVector;
   self->originalVector = temp2;
   // A copy, to make the evolver dirty
   self->newVector = rawCopyPVector(temp2);
+  Py_DECREF(oldOriginal);
   return 0;
 }
 
@@ -1539,7 +1540,10 @@ static PyObject *PVectorEvolver_persistent(PVectorEvolver *self) {
   if(self->newVector != self->originalVector) {
     cleanVector(self->newVector);
     PyObject_GC_Track((PyObject*)self->newVector);
-    Py_DECREF(self->originalVector);
+    // The evolver must be consistent before finalizers of replaced elements run
+    PVector *oldOriginal = self->originalVector;
+    self->originalVector = self->newVector;
+    Py_DECREF(oldOriginal);
   }
 
   resultVector = self->newVector;
-- 
2.43.0


From 63e64c04b1cab2b3adfaf9c841e287889912c631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:09 +0000
Subject: [PATCH 09/32] fix: PSet evolver returns its latest content from
 repeated persistent() calls

---
 pyrsistent/_pset.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 6247607..2d67178 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -129,10 +129,10 @@ class PSet(Generic[T_co]):
             return self._pmap_evolver.is_dirty()
 
         def persistent(self):
-            if not self.is_dirty():
-                return  self._original_pset
+            if self.is_dirty():
+                self._original_pset = PSet(self._pmap_evolver.persistent())
 
-            return PSet(self._pmap_evolver.persistent())
+            return self._original_pset
 
         def __len__(self):
             return len(self._pmap_evolver)
-- 
2.43.0


From 4d1db932cc18f2ac3e0914f26b497dd41eb001bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:09 +0000
Subject: [PATCH 10/32] fix: equal PSets have equal hashes also when one of
 them is the keys of a map

---
 pyrsistent/_pset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 2d67178..3b794d3 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -54,7 +54,8 @@ class PSet(Generic[T_co]):
         return self.__repr__()
 
     def __hash__(self):
-        return hash(self._map)
+        # Only the keys, the values in the map differ between sets with different origin
+        return hash(frozenset(self))
 
     def __reduce__(self):
         # Pickling support
-- 
2.43.0


From 12fec2d012baf24b13ad8f273fdd8c1299f33ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:22 +0000
Subject: [PATCH 11/32] fix: Python vector evolver is dirty after deleting the
 only element

---
 pyrsistent/_pvector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrsistent/_pvector.py b/pyrsistent/_pvector.py
index 51d8a22..b2c1ae5 100644
--- a/pyrsistent/_pvector.py
+++ b/pyrsistent/_pvector.py
@@ -246,6 +246,8 @@ class PythonPVector(object):
                 l.extend(self._extra_tail)
                 self._reset(_EMPTY_PVECTOR)
                 self._extra_tail = l
+                # The content differs from the original also if nothing is left
+                self._dirty_nodes[id(self._tail)] = True
 
             del self._extra_tail[key]
 
-- 
2.43.0


From 30ea7cc19d36914b8230a689522e7dfb05d693b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:22 +0000
Subject: [PATCH 12/32] fix: keys of records and checked maps are regular sets

---
 pyrsistent/_pmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index 0d82c43..a1fc387 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -228,7 +228,8 @@ class PMap(Generic[KT, VT_co]):
 
     def keys(self):
         from ._pset import PSet
-        return PSet(self)
+        # Base the set on a regular map, the restrictions of subclasses do not apply to it
+        return PSet(self if type(self) is PMap else PMap(self._size, self._buckets))
 
     def items(self):
         return PMapItems(self)
-- 
2.43.0


From b43a5a888a436c202f6378668a1f8e5ab0d86b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:22 +0000
Subject: [PATCH 13/32] fix: hash of a map is not affected by a key named
 _cached_hash

---
 pyrsistent/_pmap.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index a1fc387..2454313 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -151,6 +151,7 @@ class PMap(Generic[KT, VT_co]):
         self = super(PMap, cls).__new__(cls)
         self._size = size
         self._buckets = buckets
+        self._cached_hash = None
         return self
 
     @staticmethod
@@ -248,7 +249,7 @@ class PMap(Generic[KT, VT_co]):
         if len(self) != len(other):
             return False
         if isinstance(other, PMap):
-            if (hasattr(self, '_cached_hash') and hasattr(other, '_cached_hash')
+            if (self._cached_hash is not None and other._cached_hash is not None
                     and self._cached_hash != other._cached_hash):
                 return False
             if self._buckets == other._buckets:
@@ -271,7 +272,7 @@ class PMap(Generic[KT, VT_co]):
         return self.__repr__()
 
     def __hash__(self):
-        if not hasattr(self, '_cached_hash'):
+        if self._cached_hash is None:
             self._cached_hash = hash(frozenset(self.iteritems()))
         return self._cached_hash
 
-- 
2.43.0


From 4593992dd675e6d42b2a8df259f8c70282a7e541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:22 +0000
Subject: [PATCH 14/32] fix: checked set and map evolvers return their latest
 content from repeated persistent() calls

---
 pyrsistent/_checked_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 56146b5..0942f91 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -428,7 +428,7 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or self._destination_class != type(self._original_pset):
-                return self._destination_class(self._pmap_evolver.persistent())
+                self._original_pset = self._destination_class(self._pmap_evolver.persistent())
 
             return self._original_pset
 
@@ -542,6 +542,6 @@ class CheckedPMap(PMap[KT, VT_co], CheckedType, metaclass=_CheckedMapTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or type(self._original_pmap) != self._destination_class:
-                return self._destination_class(self._buckets_evolver.persistent(), self._size)
+                self._original_pmap = self._destination_class(self._buckets_evolver.persistent(), self._size)
 
             return self._original_pmap
-- 
2.43.0


From f1d399916314cf9ae881269297e093d240e809f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:22 +0000
Subject: [PATCH 15/32] fix: type declarations of checked collections are
 inherited by indirect subclasses

---
 pyrsistent/_checked_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 0942f91..4b1c4c1 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -106,7 +106,7 @@ def maybe_parse_many_user_types(ts):
 def _store_types(dct, bases, destination_name, source_name):
     maybe_types = maybe_parse_many_user_types([
         d[source_name]
-        for d in ([dct] + [b.__dict__ for b in bases]) if source_name in d
+        for d in [dct] + list(_all_dicts(bases)) if source_name in d
     ])
 
     dct[destination_name] = maybe_types
-- 
2.43.0


From 1eb6d30f4601f1d0108536cdaafafd27f377f8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:22 +0000
Subject: [PATCH 16/32] fix: pass the format on to checked types inside checked
 collections in serialize

---
 pyrsistent/_checked_types.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 4b1c4c1..b043e4e 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -172,9 +172,9 @@ class _CheckedTypeMeta(ABCMeta):
         _store_types(dct, bases, '_checked_types', '__type__')
         store_invariants(dct, bases, '_checked_invariants', '__invariant__')
 
-        def default_serializer(self, _, value):
+        def default_serializer(self, format, value):
             if isinstance(value, CheckedType):
-                return value.serialize()
+                return value.serialize(format)
             return value
 
         dct.setdefault('__serializer__', default_serializer)
@@ -439,14 +439,14 @@ class _CheckedMapTypeMeta(type):
         _store_types(dct, bases, '_checked_value_types', '__value_type__')
         store_invariants(dct, bases, '_checked_invariants', '__invariant__')
 
-        def default_serializer(self, _, key, value):
+        def default_serializer(self, format, key, value):
             sk = key
             if isinstance(key, CheckedType):
-                sk = key.serialize()
+                sk = key.serialize(format)
 
             sv = value
             if isinstance(value, CheckedType):
-                sv = value.serialize()
+                sv = value.serialize(format)
 
             return sk, sv
 
-- 
2.43.0


From 56a716d61c6ad13e575a09935066ac0ae02c9c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:22 +0000
Subject: [PATCH 17/32] fix: pass ignore_extra on to keys and values in
 CheckedPMap.create

---
 pyrsistent/_checked_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index b043e4e..9b0465d 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -510,8 +510,8 @@ class CheckedPMap(PMap[KT, VT_co], CheckedType, metaclass=_CheckedMapTypeMeta):
         checked_value_type = next((t for t in value_types if issubclass(t, CheckedType)), None)
 
         if checked_key_type or checked_value_type:
-            return cls(dict((checked_key_type.create(key) if checked_key_type and not any(isinstance(key, t) for t in key_types) else key,
-                             checked_value_type.create(value) if checked_value_type and not any(isinstance(value, t) for t in value_types) else value)
+            return cls(dict((checked_key_type.create(key, ignore_extra=ignore_extra) if checked_key_type and not any(isinstance(key, t) for t in key_types) else key,
+                             checked_value_type.create(value, ignore_extra=ignore_extra) if checked_value_type and not any(isinstance(value, t) for t in value_types) else value)
                             for key, value in source_data.items()))
 
         return cls(source_data)
-- 
2.43.0


From a1ba863b1b27724f77e1f24262ff090f05ef2e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:22 +0000
Subject: [PATCH 18/32] fix: check the elements when a checked vector or set is
 created from a vector or map

---
 pyrsistent/_checked_types.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 9b0465d..0637725 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -276,6 +276,17 @@ def _checked_type_create(cls, source_data, _factory_fields=None, ignore_extra=Fa
 
     return cls(source_data)
 
+
+class _VerifiedPVector(PythonPVector):
+    # Content that is known to fulfill the declarations of the checked type
+    __slots__ = ()
+
+
+class _VerifiedPMap(PMap):
+    # Content that is known to fulfill the declarations of the checked type
+    __slots__ = ()
+
+
 class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_CheckedTypeMeta):
     """
     A CheckedPVector is a PVector which allows specifying type and invariant checks.
@@ -291,7 +302,7 @@ class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_Check
     __slots__ = ()
 
     def __new__(cls, initial=()):
-        if type(initial) == PythonPVector:
+        if type(initial) is _VerifiedPVector:
             return super(CheckedPVector, cls).__new__(cls, initial._count, initial._shift, initial._root, initial._tail)
 
         return CheckedPVector.Evolver(cls, python_pvector()).extend(initial).persistent()
@@ -348,7 +359,7 @@ class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_Check
             result = self._orig_pvector
             if self.is_dirty() or (self._destination_class != type(self._orig_pvector)):
                 pv = super(CheckedPVector.Evolver, self).persistent().extend(self._extra_tail)
-                result = self._destination_class(pv)
+                result = self._destination_class(_VerifiedPVector(pv._count, pv._shift, pv._root, pv._tail))
                 self._reset(result)
 
             return result
@@ -377,8 +388,8 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
     __slots__ = ()
 
     def __new__(cls, initial=()):
-        if type(initial) is PMap:
-            return super(CheckedPSet, cls).__new__(cls, initial)
+        if type(initial) is _VerifiedPMap:
+            return super(CheckedPSet, cls).__new__(cls, PMap(initial._size, initial._buckets))
 
         evolver = CheckedPSet.Evolver(cls, pset())
         for e in initial:
@@ -428,7 +439,8 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or self._destination_class != type(self._original_pset):
-                self._original_pset = self._destination_class(self._pmap_evolver.persistent())
+                m = self._pmap_evolver.persistent()
+                self._original_pset = self._destination_class(_VerifiedPMap(m._size, m._buckets))
 
             return self._original_pset
 
-- 
2.43.0


From 91a3498c2b5e407424461b69e7f0367ab4005506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:44 +0000
Subject: [PATCH 19/32] fix: bounded deques keep their bound in remove and
 reverse and when it is zero

---
 pyrsistent/_pdeque.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 0f25936..ae11e94 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -272,13 +272,13 @@ class PDeque(Generic[T_co]):
         pdeque([1, 2])
         """
         try:
-            return PDeque(self._left_list.remove(elem), self._right_list, self._length - 1)
+            return PDeque(self._left_list.remove(elem), self._right_list, self._length - 1, self._maxlen)
         except ValueError:
             # Value not found in left list, try the right list
             try:
                 # This is severely inefficient with a double reverse, should perhaps implement a remove_last()?
                 return PDeque(self._left_list,
-                              self._right_list.reverse().remove(elem).reverse(), self._length - 1)
+                              self._right_list.reverse().remove(elem).reverse(), self._length - 1, self._maxlen)
             except ValueError as e:
                 raise ValueError('{0} not found in PDeque'.format(elem)) from e
 
@@ -294,7 +294,7 @@ class PDeque(Generic[T_co]):
         >>> reversed(pdeque([1, 2, 3]))
         pdeque([3, 2, 1])
         """
-        return PDeque(self._right_list, self._left_list, self._length)
+        return PDeque(self._right_list, self._left_list, self._length, self._maxlen)
     __reversed__ = reverse
 
     def rotate(self, steps):
@@ -362,7 +362,7 @@ def pdeque(iterable=(), maxlen=None):
     """
     t = tuple(iterable)
     if maxlen is not None:
-        t = t[-maxlen:]
+        t = t[-maxlen:] if maxlen else ()
     length = len(t)
     pivot = int(length / 2)
     left = plist(t[:pivot])
-- 
2.43.0


From 6ff359375acbe577fc0f7bfeb348fe2060bb8d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:44 +0000
Subject: [PATCH 20/32] fix: rotate a deque more steps than its length

---
 pyrsistent/_pdeque.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index ae11e94..1b8d2cb 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -307,6 +307,9 @@ class PDeque(Generic[T_co]):
         >>> x.rotate(-2)
         pdeque([3, 1, 2])
         """
+        if abs(steps) > self._length > 0:
+            steps %= self._length
+
         popped_deque = self.pop(steps)
         if steps >= 0:
             return popped_deque.extendleft(islice(self.reverse(), steps))
-- 
2.43.0


From f0f72c54773cb4b7bd264f37482668c2fa261a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:44 +0000
Subject: [PATCH 21/32] fix: slicing a deque with bounds at or beyond its ends

---
 pyrsistent/_pdeque.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 1b8d2cb..8440066 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -326,13 +326,8 @@ class PDeque(Generic[T_co]):
                 # Too difficult, no structural sharing possible
                 return pdeque(tuple(self)[index], maxlen=self._maxlen)
 
-            result = self
-            if index.start is not None:
-                result = result.popleft(index.start % self._length)
-            if index.stop is not None:
-                result = result.pop(self._length - (index.stop % self._length))
-
-            return result
+            start, stop, _ = index.indices(self._length)
+            return self.popleft(start).pop(self._length - max(start, stop))
 
         if not isinstance(index, Integral):
             raise TypeError("'%s' object cannot be interpreted as an index" % type(index).__name__)
-- 
2.43.0


From bedb5fb156dbf546249b592b279030d9f2763902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:58 +0000
Subject: [PATCH 22/32] fix: slicing a list with a negative start and no stop

---
 pyrsistent/_plist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_plist.py b/pyrsistent/_plist.py
index 322e15d..b6c355b 100644
--- a/pyrsistent/_plist.py
+++ b/pyrsistent/_plist.py
@@ -167,7 +167,7 @@ class _PListBase(object):
         # very inefficient! Use a PVector instead!
 
         if isinstance(index, slice):
-            if index.start is not None and index.stop is None and (index.step is None or index.step == 1):
+            if index.start is not None and index.start >= 0 and index.stop is None and (index.step is None or index.step == 1):
                 return self._drop(index.start)
 
             # Take the easy way out for all other slicing cases, not much structural reuse possible anyway
-- 
2.43.0


From 25f48325d93da2d8d00d67cefc2b4f7d8c7e94f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:07 +0000
Subject: [PATCH 23/32] fix: pass ignore_extra on through optional map fields

---
 pyrsistent/_field_common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_field_common.py b/pyrsistent/_field_common.py
index 508dd2f..5a7b7a7 100644
--- a/pyrsistent/_field_common.py
+++ b/pyrsistent/_field_common.py
@@ -319,11 +319,11 @@ def pmap_field(key_type, value_type, optional=False, invariant=PFIELD_NO_INVARIA
     TheMap = _make_pmap_field_type(key_type, value_type)
 
     if optional:
-        def factory(argument):
+        def factory(argument, _factory_fields=None, ignore_extra=False):
             if argument is None:
                 return None
             else:
-                return TheMap.create(argument)
+                return TheMap.create(argument, _factory_fields=_factory_fields, ignore_extra=ignore_extra)
     else:
         factory = TheMap.create
 
-- 
2.43.0


From aaf345dea43c4f1e188fe9bdbc82692449d8cfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:39 +0000
Subject: [PATCH 24/32] fix: custom serializers of checked collections are
 inherited

---
 pyrsistent/_checked_types.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 0637725..4951a95 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -177,7 +177,9 @@ class _CheckedTypeMeta(ABCMeta):
                 return value.serialize(format)
             return value
 
-        dct.setdefault('__serializer__', default_serializer)
+        # A custom serializer is inherited
+        if not any(hasattr(b, '__serializer__') for b in bases):
+            dct.setdefault('__serializer__', default_serializer)
 
         dct['__slots__'] = ()
 
@@ -462,7 +464,9 @@ class _CheckedMapTypeMeta(type):
 
             return sk, sv
 
-        dct.setdefault('__serializer__', default_serializer)
+        # A custom serializer is inherited
+        if not any(hasattr(b, '__serializer__') for b in bases):
+            dct.setdefault('__serializer__', default_serializer)
 
         dct['__slots__'] = ()
 
-- 
2.43.0


From 0a0e9d811096e3b08a4f41af77ba177d16dd8989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:31 +0000
Subject: [PATCH 25/32] fix: symmetric difference of a persistent set and a
 Python set, reflected set operators

---
 pyrsistent/_pset.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 3b794d3..3911096 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -188,6 +188,11 @@ class PSet(Generic[T_co]):
     __sub__ = Set.__sub__
     __xor__ = Set.__xor__
 
+    __rand__ = Set.__rand__
+    __ror__ = Set.__ror__
+    __rsub__ = Set.__rsub__
+    __rxor__ = Set.__rxor__
+
     issubset = __le__
     issuperset = __ge__
     union = __or__
-- 
2.43.0


From dd7cf7d43065f5c2224559154c3511164552c961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:11 +0000
Subject: [PATCH 26/32] fix: a failed delete on a pure Python vector evolver
 leaves the evolver untouched

Deleting an index that is not there raised IndexError but had already
marked the evolver dirty, unlike the C implementation.
---
 pyrsistent/_pvector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyrsistent/_pvector.py b/pyrsistent/_pvector.py
index b2c1ae5..4507934 100644
--- a/pyrsistent/_pvector.py
+++ b/pyrsistent/_pvector.py
@@ -244,12 +244,13 @@ class PythonPVector(object):
                 # All structural sharing bets are off, base evolver on _extra_tail only
                 l = PythonPVector(self._count, self._shift, self._root, self._tail).tolist()
                 l.extend(self._extra_tail)
+                del l[key]
                 self._reset(_EMPTY_PVECTOR)
                 self._extra_tail = l
                 # The content differs from the original also if nothing is left
                 self._dirty_nodes[id(self._tail)] = True
-
-            del self._extra_tail[key]
+            else:
+                del self._extra_tail[key]
 
         def persistent(self):
             result = self._orig_pvector
-- 
2.43.0


From 3975a0f9a8b834b4764ec26a27d909daa8ee0a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:59 +0000
Subject: [PATCH 27/32] fix: finalizers and weak reference callbacks may
 persist, delete from and extend the C vector evolver they run under

---
 pvectorcmodule.c | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index cd55c8e..53f8a9a 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1350,7 +1350,15 @@ static PyObject *PVectorEvolver_append(PVectorEvolver *self, PyObject *args) {
 }
 
 static PyObject *PVectorEvolver_extend(PVectorEvolver *self, PyObject *args) {
-  if (PyList_SetSlice(self->appendList, PY_SSIZE_T_MAX, PY_SSIZE_T_MAX, args) < 0) {
+  // The iterable may use the evolver, do not touch the append list until it is exhausted
+  PyObject *items = PySequence_List(args);
+  if (items == NULL) {
+    return NULL;
+  }
+
+  int result = PyList_SetSlice(self->appendList, PY_SSIZE_T_MAX, PY_SSIZE_T_MAX, items);
+  Py_DECREF(items);
+  if (result < 0) {
     return NULL;
   }
 
@@ -1474,9 +1482,15 @@ static int internalPVectorDelete(PVectorEvolver *self, Py_ssize_t position) {
   }
 
   PVector *oldOriginal = self->originalVector;
+  PVector *oldNew = self->newVector;
   self->originalVector = temp2;
   // A copy, to make the evolver dirty
   self->newVector = rawCopyPVector(temp2);
+  if(oldNew != oldOriginal) {
+    // Changed by a finalizer in the meantime
+    cleanVector(oldNew);
+    Py_DECREF(oldNew);
+  }
   Py_DECREF(oldOriginal);
   return 0;
 }
@@ -1536,28 +1550,31 @@ static int PVectorEvolver_set_item(PVectorEvolver *self, PyObject* item, PyObjec
 }
 
 static PyObject *PVectorEvolver_persistent(PVectorEvolver *self) {
-  PVector *resultVector;
+  // The evolver must be consistent before anything is released, finalizers of replaced
+  // elements and weak reference callbacks may use the evolver.
+  PVector *resultVector = self->newVector;
+  PVector *oldOriginal = NULL;
+  PVector *oldVector = NULL;
+  PyObject *oldAppendList = NULL;
+
   if(self->newVector != self->originalVector) {
     cleanVector(self->newVector);
     PyObject_GC_Track((PyObject*)self->newVector);
-    // The evolver must be consistent before finalizers of replaced elements run
-    PVector *oldOriginal = self->originalVector;
+    oldOriginal = self->originalVector;
     self->originalVector = self->newVector;
-    Py_DECREF(oldOriginal);
   }
 
-  resultVector = self->newVector;
-
   if(PyList_GET_SIZE(self->appendList)) {
-    PVector *oldVector = resultVector;
-    resultVector = (PVector*)PVector_extend(resultVector, self->appendList);
-    Py_DECREF(oldVector);
-    Py_DECREF(self->appendList);
-    self->appendList = NULL;
+    oldVector = resultVector;
+    oldAppendList = self->appendList;
+    resultVector = (PVector*)PVector_extend(oldVector, oldAppendList);
+    initializeEvolver(self, resultVector, NULL);
   }
 
-  initializeEvolver(self, resultVector, self->appendList);
-  Py_INCREF(resultVector);  
+  Py_INCREF(resultVector);
+  Py_XDECREF(oldOriginal);
+  Py_XDECREF(oldVector);
+  Py_XDECREF(oldAppendList);
   return (PyObject*)resultVector;
 }
 
-- 
2.43.0


From 53bfe451fac6538eccbb909f85eff30d63e00cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:41 +0000
Subject: [PATCH 28/32] fix: a failing hash during map growth does not lose the
 elements of the evolver

---
 pyrsistent/_pmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index 2454313..e376c9d 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -445,6 +445,8 @@ class PMap(Generic[KT, VT_co]):
             new_size = 2 * len(self._buckets_evolver)
             new_list = new_size * [None]
             buckets = self._buckets_evolver.persistent()
+            # The buckets evolver must stay dirty, or its elements are lost if the hash of a key fails
+            self._buckets_evolver[0] = buckets[0]
             for k, v in chain.from_iterable(x for x in buckets if x):
                 index = hash(k) % new_size
                 if new_list[index]:
-- 
2.43.0


From a9ac2e05b2cf884171bda8dbbd7372d16d6e1724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:40 +0000
Subject: [PATCH 29/32] fix: large sets and maps from iterators are not built
 with eight buckets

---
 pyrsistent/__init__.pyi |  2 +-
 pyrsistent/_pmap.py     | 12 ++++++------
 pyrsistent/_pset.py     |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pyrsistent/__init__.pyi b/pyrsistent/__init__.pyi
index af2c69c..26b1418 100644
--- a/pyrsistent/__init__.pyi
+++ b/pyrsistent/__init__.pyi
@@ -53,7 +53,7 @@ def m(**kwargs: VT) -> PMap[str, VT]: ...
 def pvector(iterable: Iterable[T] = ...) -> PVector[T]: ...
 def v(*iterable: T) -> PVector[T]: ...
 
-def pset(iterable: Iterable[T] = (), pre_size: int = 8) -> PSet[T]: ...
+def pset(iterable: Iterable[T] = (), pre_size: int = 0) -> PSet[T]: ...
 def s(*iterable: T) -> PSet[T]: ...
 
 # see class_test.py for use cases
diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index e376c9d..1552190 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -527,6 +527,12 @@ Hashable.register(PMap)
 
 
 def _turbo_mapping(initial, pre_size):
+    if not isinstance(initial, Mapping):
+        # Make a dictionary of the initial data if it isn't already,
+        # that will save us some job further down since we can assume no
+        # key collisions
+        initial = dict(initial)
+
     if pre_size:
         size = pre_size
     else:
@@ -539,12 +545,6 @@ def _turbo_mapping(initial, pre_size):
 
     buckets = size * [None]
 
-    if not isinstance(initial, Mapping):
-        # Make a dictionary of the initial data if it isn't already,
-        # that will save us some job further down since we can assume no
-        # key collisions
-        initial = dict(initial)
-
     for k, v in initial.items():
         h = hash(k)
         index = h % size
diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 3911096..6ca1a76 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -62,7 +62,7 @@ class PSet(Generic[T_co]):
         return pset, (list(self),)
 
     @classmethod
-    def _from_iterable(cls, it, pre_size=8):
+    def _from_iterable(cls, it, pre_size=0):
         return PSet(pmap(dict((k, True) for k in it), pre_size=pre_size))
 
     def add(self, element):
@@ -208,7 +208,7 @@ Hashable.register(PSet)
 _EMPTY_PSET = PSet(pmap())
 
 
-def pset(iterable=(), pre_size=8):
+def pset(iterable=(), pre_size=0):
     """
     Creates a persistent set from iterable. Optionally takes a sizing parameter equivalent to that
     used for :py:func:`pmap`.
-- 
2.43.0


From 6a95572ae7d40a88aae9511f1e046687b9adfc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:44 +0000
Subject: [PATCH 30/32] fix: let errors of a record's own code reach the caller
 of discard

A KeyError raised while the record without the field is checked, e.g. by
an invariant that reads the discarded field, was taken for a missing key:
discard returned the unchanged record.
---
 pyrsistent/_pmap.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyrsistent/_pmap.py b/pyrsistent/_pmap.py
index 1552190..63227e7 100644
--- a/pyrsistent/_pmap.py
+++ b/pyrsistent/_pmap.py
@@ -314,10 +314,10 @@ class PMap(Generic[KT, VT_co]):
         >>> m1 is m1.discard('c')
         True
         """
-        try:
+        if key in self:
             return self.remove(key)
-        except KeyError:
-            return self
+
+        return self
 
     def update(self, *maps):
         """
-- 
2.43.0


From 8b7d0993efd1a682f4b1f90f68508e1a1b064d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:45 +0000
Subject: [PATCH 31/32] fix: PDeque.remove takes a ValueError raised by an
 element's comparison for a missing element

The first list is skipped and an element of the second one may be removed instead.
---
 pyrsistent/_pdeque.py | 21 +++++++++++----------
 pyrsistent/_plist.py  | 10 +++++++++-
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 8440066..c3922b1 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -271,16 +271,17 @@ class PDeque(Generic[T_co]):
         >>> pdeque([2, 1, 2]).remove(2)
         pdeque([1, 2])
         """
-        try:
-            return PDeque(self._left_list.remove(elem), self._right_list, self._length - 1, self._maxlen)
-        except ValueError:
-            # Value not found in left list, try the right list
-            try:
-                # This is severely inefficient with a double reverse, should perhaps implement a remove_last()?
-                return PDeque(self._left_list,
-                              self._right_list.reverse().remove(elem).reverse(), self._length - 1, self._maxlen)
-            except ValueError as e:
-                raise ValueError('{0} not found in PDeque'.format(elem)) from e
+        new_left_list = self._left_list._remove(elem)
+        if new_left_list is not None:
+            return PDeque(new_left_list, self._right_list, self._length - 1, self._maxlen)
+
+        # Value not found in left list, try the right list
+        # This is severely inefficient with a double reverse, should perhaps implement a remove_last()?
+        new_right_list = self._right_list.reverse()._remove(elem)
+        if new_right_list is not None:
+            return PDeque(self._left_list, new_right_list.reverse(), self._length - 1, self._maxlen)
+
+        raise ValueError('{0} not found in PDeque'.format(elem))
 
     def reverse(self):
         """
diff --git a/pyrsistent/_plist.py b/pyrsistent/_plist.py
index b6c355b..859ad7f 100644
--- a/pyrsistent/_plist.py
+++ b/pyrsistent/_plist.py
@@ -210,6 +210,14 @@ class _PListBase(object):
         plist([2, 1])
         """
 
+        result = self._remove(elem)
+        if result is None:
+            raise ValueError('{0} not found in PList'.format(elem))
+
+        return result
+
+    def _remove(self, elem):
+        # As remove but returns None if no matching element is found
         builder = _PListBuilder()
         head = self
         while head:
@@ -219,7 +227,7 @@ class _PListBase(object):
             builder.append_elem(head.first)
             head = head.rest
 
-        raise ValueError('{0} not found in PList'.format(elem))
+        return None
 
 
 class PList(Generic[T_co], _PListBase):
-- 
2.43.0


From 34062fe03fee05a47ad09d77a7a419ba1d87b207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:53 +0000
Subject: [PATCH 32/32] fix: pickling and copying a record does not bring
 removed fields with initial values back

---
 pyrsistent/_precord.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_precord.py b/pyrsistent/_precord.py
index dda1eba..34c8d59 100644
--- a/pyrsistent/_precord.py
+++ b/pyrsistent/_precord.py
@@ -18,6 +18,11 @@ class _PRecordMeta(type):
         return super(_PRecordMeta, mcs).__new__(mcs, name, bases, dct)
 
 
+def _restore_pickle_without(cls, data, removed_fields):
+    # Fields that have been removed must not get their initial values again
+    return cls(_factory_fields=set(), _removed_fields=removed_fields, **data)
+
+
 class PRecord(PMap[str, Any], CheckedType, metaclass=_PRecordMeta):
     """
     A PRecord is a PMap with a fixed set of specified fields. Records are declared as python classes inheriting
@@ -35,10 +40,11 @@ class PRecord(PMap[str, Any], CheckedType, metaclass=_PRecordMeta):
 
         factory_fields = kwargs.pop('_factory_fields', None)
         ignore_extra = kwargs.pop('_ignore_extra', False)
+        removed_fields = kwargs.pop('_removed_fields', ())
         initial_values = kwargs
         if cls._precord_initial_values:
             initial_values = dict((k, v() if callable(v) else v)
-                                  for k, v in cls._precord_initial_values.items())
+                                  for k, v in cls._precord_initial_values.items() if k not in removed_fields)
             initial_values.update(kwargs)
 
         e = _PRecordEvolver(cls, pmap(pre_size=len(cls._precord_fields)), _factory_fields=factory_fields, _ignore_extra=ignore_extra)
@@ -89,6 +95,10 @@ class PRecord(PMap[str, Any], CheckedType, metaclass=_PRecordMeta):
 
     def __reduce__(self):
         # Pickling support
+        removed_fields = tuple(k for k in self._precord_initial_values if k not in self)
+        if removed_fields:
+            return _restore_pickle_without, (self.__class__, dict(self), removed_fields)
+
         return _restore_pickle, (self.__class__, dict(self),)
 
     def serialize(self, format=None):
-- 
2.43.0

