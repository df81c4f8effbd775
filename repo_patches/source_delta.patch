From e27d12d88ec24b5ee3bcc4edf320549163461596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 001/103] fix: make brick sort terminate for arrays with equal
 elements

---
 pydatastructs/linear_data_structures/algorithms.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index eebb93f..c6ce07e 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -136,6 +136,12 @@ def merge_sort_parallel(array, num_threads, **kwargs):
     if _check_type(array, (DynamicArray, _arrays.DynamicOneDimensionalArray)):
         array._modify(True)
 
+def _brick_sort_out_of_order(array, i, j, comp):
+    # Elements which are equivalent under comp are never swapped,
+    # otherwise the sort won't terminate for repeated elements.
+    return _comp(array[j], array[i], comp) and \
+        not _comp(array[i], array[j], comp)
+
 def brick_sort(array, **kwargs):
     """
     Implements Brick Sort / Odd Even sorting algorithm
@@ -191,11 +197,11 @@ def brick_sort(array, **kwargs):
     while is_sorted is False:
         is_sorted = True
         for i in range(start+1, end, 2):
-            if _comp(array[i+1], array[i], comp):
+            if _brick_sort_out_of_order(array, i, i + 1, comp):
                 array[i], array[i+1] = array[i+1], array[i]
                 is_sorted = False
         for i in range(start, end, 2):
-            if _comp(array[i+1], array[i], comp):
+            if _brick_sort_out_of_order(array, i, i + 1, comp):
                 array[i], array[i+1] = array[i+1], array[i]
                 is_sorted = False
 
@@ -203,7 +209,7 @@ def brick_sort(array, **kwargs):
         array._modify(True)
 
 def _brick_sort_swap(array, i, j, comp, is_sorted):
-    if _comp(array[j], array[i], comp):
+    if _brick_sort_out_of_order(array, i, j, comp):
         array[i], array[j] = array[j], array[i]
         is_sorted[0] = False
 
-- 
2.43.0


From d77f17a158a47c2f522b1ca9cb4bf48bd17c0fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:21 +0000
Subject: [PATCH 002/103] fix: sort correctly for any pivot picked in
 quick_sort

---
 pydatastructs/linear_data_structures/algorithms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index c6ce07e..4e08599 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -768,6 +768,11 @@ def quick_sort(array: Array, **kwargs) -> Array:
     def partition(low, high, pick_pivot_element):
         i = (low - 1)
         x = pick_pivot_element(low, high, array)
+        # Move the pivot to the end of the partition.
+        for j in range(high, low - 1, -1):
+            if array[j] == x:
+                array[j], array[high] = array[high], array[j]
+                break
         for j in range(low , high):
             if _comp(array[j], x, comp) is True:
                 i = i + 1
-- 
2.43.0


From 9b14dcd6c391fb6b51020447f3f163e1f8f08c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 003/103] fix: bucket_sort failed when elements are small
 compared to their number or all None

---
 pydatastructs/linear_data_structures/algorithms.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 4e08599..a4b132e 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -579,8 +579,11 @@ def bucket_sort(array: Array, **kwargs) -> Array:
             if array[i] > max_value:
                 max_value = array[i]
 
+    if count == 0:
+        return array
+
     number_of_null_values = end - start + 1 - count
-    size = max_value // count
+    size = max(max_value // count, 1)
 
     # Create n empty buckets where n is equal to the length of the input list
     buckets_list = [[] for _ in range(count)]
@@ -589,7 +592,7 @@ def bucket_sort(array: Array, **kwargs) -> Array:
     for i in range(start, end + 1):
         if array[i] is not None:
             j = array[i] // size
-            if j is not count:
+            if j < count:
                 buckets_list[j].append(array[i])
             else:
                 buckets_list[count-1].append(array[i])
-- 
2.43.0


From 4be2b976e0c4a76652d2d4c8953fb869ceb44ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 004/103] fix: radix_sort mishandled None entries

---
 pydatastructs/linear_data_structures/algorithms.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index a4b132e..b6aebe4 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1992,12 +1992,13 @@ def radix_sort(array, *args, **kwargs):
     end = int(kwargs.get('end', len(array) - 1))
 
     n = end - start + 1
-    max_val = array[start]
-    for i in range(start + 1, end + 1):
+    max_val = 0
+    for i in range(start, end + 1):
         if array[i] is not None and array[i] > max_val:
             max_val = array[i]
     exp = 1
-    while max_val // exp > 0:
+    # At least one pass is made so that None entries are moved to the end.
+    while exp == 1 or max_val // exp > 0:
         count = [0] * 10
         output = [None] * n
 
-- 
2.43.0


From c45f836ab5bb978173fe780a511f53d2acf35264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:28 +0000
Subject: [PATCH 005/103] fix: C++ quick_sort underflowed when the pivot is the
 smallest element

---
 .../_backend/cpp/algorithms/quick_sort.hpp                      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index f3ad0ed..f22d9a1 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -61,7 +61,7 @@ static PyObject* quick_sort_impl(PyObject* array, size_t lower, size_t upper,
         rstack.pop();
         p = quick_sort_partition(low, high, pick_pivot_element,
                                  comp, array);
-        if ( p - 1 > low ) {
+        if ( p > low + 1 ) {
             rstack.push(low);
             rstack.push(p - 1);
         }
-- 
2.43.0


From 3f8477491f095c4c1c992ee39bd55c5009c0cf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 006/103] fix: C++ quick_sort with pick_pivot_element

---
 .../_backend/cpp/algorithms/quick_sort.hpp         | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
index f22d9a1..e0b21d9 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/quick_sort.hpp
@@ -15,7 +15,7 @@ static PyObject* call_pick_pivot_element(PyObject* pick_pivot_element,
         return PyObject_CallFunctionObjArgs(pick_pivot_element,
                                             PyLong_FromSize_t(low),
                                             high_PyObject,
-                                            array);
+                                            array, NULL);
     }
 
     return PyObject_GetItem(array, high_PyObject);
@@ -25,6 +25,18 @@ static size_t quick_sort_partition(size_t low, size_t high,
     PyObject* pick_pivot_element, PyObject* comp, PyObject* array) {
     int64_t i = low - 1;
     PyObject* x = call_pick_pivot_element(pick_pivot_element, low, high, array);
+    // Move the pivot to the end of the partition.
+    for( size_t j = high + 1; j-- > low; ) {
+        PyObject* j_PyObject = PyLong_FromSize_t(j);
+        PyObject* tmp = PyObject_GetItem(array, j_PyObject);
+        if ( PyObject_RichCompareBool(tmp, x, Py_EQ) == 1 ) {
+            PyObject* high_PyObject = PyLong_FromSize_t(high);
+            PyObject_SetItem(array, j_PyObject,
+                             PyObject_GetItem(array, high_PyObject));
+            PyObject_SetItem(array, high_PyObject, tmp);
+            break;
+        }
+    }
     for( size_t j = low; j < high; j++ ) {
         PyObject* j_PyObject = PyLong_FromSize_t(j);
         if ( _comp(PyObject_GetItem(array, j_PyObject), x, comp) == 1 ) {
-- 
2.43.0


From 5b43acd9fce072f2ef282420ab9b97c69fac0e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 007/103] fix: LLVM selection sort generated invalid code and
 could run bubble sort instead

---
 .../cpp/algorithms/llvm_algorithms.py         | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
index 56b548c..814c21c 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
@@ -212,6 +212,7 @@ def _build_selection_sort_ir(dtype: str) -> str:
     i_phi.add_incoming(ir.Constant(i32, 0), b_entry)  # start at 0
 
     cond_outer = b.icmp_signed("<", i_phi, n)
+    j_start = b.add(i_phi, ir.Constant(i32, 1))
     b.cbranch(cond_outer, b_inner, b_exit)
 
     # Inner loop: find min index
@@ -220,7 +221,7 @@ def _build_selection_sort_ir(dtype: str) -> str:
     min_idx.add_incoming(i_phi, b_outer)  # initial min_idx = i
 
     j_phi = b.phi(i32, name="j")
-    j_phi.add_incoming(b.add(i_phi, ir.Constant(i32, 1)), b_outer)
+    j_phi.add_incoming(j_start, b_outer)
 
     cond_inner = b.icmp_signed("<", j_phi, n)
     b.cbranch(cond_inner, b_inner_latch, b_swap)
@@ -239,19 +240,18 @@ def _build_selection_sort_ir(dtype: str) -> str:
     else:
         cmp = b.fcmp_ordered("<", arr_j_val, arr_min_val)
 
-    with b.if_then(cmp):
-        min_idx = j_phi  # update min_idx
+    new_min_idx = b.select(cmp, j_phi, min_idx)  # update min_idx
 
     j_next = b.add(j_phi, ir.Constant(i32, 1))
     j_phi.add_incoming(j_next, b_inner_latch)
-    min_idx.add_incoming(min_idx, b_inner_latch)  # propagate current min_idx
+    min_idx.add_incoming(new_min_idx, b_inner_latch)
     b.branch(b_inner)
 
     # Swap arr[i] and arr[min_idx]
     b.position_at_end(b_swap)
-    i64 = b.sext(i_phi, i64)
+    idx64 = b.sext(i_phi, i64)
     min64 = b.sext(min_idx, i64)
-    ptr_i = b.gep(arr, [i64], inbounds=True)
+    ptr_i = b.gep(arr, [idx64], inbounds=True)
     ptr_min = b.gep(arr, [min64], inbounds=True)
     val_i = b.load(ptr_i)
     val_min = b.load(ptr_min)
@@ -274,8 +274,8 @@ def _materialize_selection(dtype: str) -> int:
     _ensure_target_machine()
 
     name = f"selection_sort_{dtype}"
-    if dtype in _fn_ptr_cache:
-        return _fn_ptr_cache[dtype]
+    if name in _fn_ptr_cache:
+        return _fn_ptr_cache[name]
 
     try:
         llvm_ir = _build_selection_sort_ir(dtype)
@@ -290,8 +290,8 @@ def _materialize_selection(dtype: str) -> int:
         if not addr:
             raise RuntimeError(f"Failed to get address for {name}")
 
-        _fn_ptr_cache[dtype] = addr
-        _engines[dtype] = engine
+        _fn_ptr_cache[name] = addr
+        _engines[name] = engine
         return addr
     except Exception as e:
         raise RuntimeError(f"Failed to materialize function for dtype {dtype}: {e}")
-- 
2.43.0


From fc1446e2724f4d3e8a8807234c1746285cd63b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:54 +0000
Subject: [PATCH 008/103] fix: LLVM bubble sort could not be generated for
 floating point arrays

---
 .../_backend/cpp/algorithms/llvm_algorithms.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
index 814c21c..5f3801a 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
@@ -107,7 +107,7 @@ def _build_bubble_sort_ir(dtype: str) -> str:
     if isinstance(T, ir.IntType):
         should_swap = b.icmp_signed(">", val_j, val_jp1)
     else:
-        should_swap = b.fcmp_ordered(">", val_j, val_jp1, fastmath=True)
+        should_swap = b.fcmp_ordered(">", val_j, val_jp1)
 
     b.cbranch(should_swap, b_swap, b_inner_latch)
 
-- 
2.43.0


From 4714e138fe37367cadbc45f06e8ce1d63b8e214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 009/103] fix: is_ordered rejected equal neighbours and ignored
 values around empty entries

---
 pydatastructs/linear_data_structures/algorithms.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index b6aebe4..54b11a7 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -931,11 +931,13 @@ def is_ordered(array, **kwargs):
     upper = kwargs.get('end', len(array) - 1)
     comp = kwargs.get("comp", lambda u, v: u <= v)
 
-    for i in range(lower + 1, upper + 1):
-        if array[i] is None or array[i - 1] is None:
+    last = None
+    for i in range(lower, upper + 1):
+        if array[i] is None:
             continue
-        if comp(array[i], array[i - 1]):
+        if last is not None and comp(array[i], last) and not comp(last, array[i]):
             return False
+        last = array[i]
     return True
 
 def upper_bound(array, value, **kwargs):
-- 
2.43.0


From c8c25fb9d2e9658aace181744d3ed22fb99eb551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:22 +0000
Subject: [PATCH 010/103] fix: C++ is_ordered rejected equal neighbours and
 ignored values around empty entries

---
 .../_backend/cpp/algorithms/misc_algorithms.hpp       | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
index 4527955..012241b 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
@@ -10,15 +10,16 @@
 // is_ordered
 static bool is_ordered_impl(PyObject* array, size_t lower, size_t upper,
     PyObject* comp) {
-    for (size_t i = lower + 1; i < upper + 1; i++) {
+    PyObject* last = Py_None;
+    for (size_t i = lower; i < upper + 1; i++) {
         PyObject* i_PyObject = PyLong_FromSize_t(i);
-        PyObject* i1_PyObject = PyLong_FromSize_t(i-1);
         PyObject* i_item = PyObject_GetItem(array, i_PyObject);
-        PyObject* i1_item = PyObject_GetItem(array, i1_PyObject);
-        if (i_item == Py_None || i1_item == Py_None) continue;
-        if ( _comp(i_item, i1_item, comp) == 1 ) {
+        if (i_item == Py_None) continue;
+        if ( last != Py_None &&
+             _comp(i_item, last, comp) == 1 && _comp(last, i_item, comp) != 1 ) {
             return false;
         }
+        last = i_item;
     }
     return true;
 }
-- 
2.43.0


From 3bfc07d0797073840c054dda9bf51c2520b89638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 011/103] fix: jump_search looked outside the requested slice
 and missed elements

---
 pydatastructs/linear_data_structures/algorithms.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 54b11a7..63eb430 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1749,14 +1749,13 @@ def jump_search(array, value, **kwargs):
     end = kwargs.get('end', len(array) - 1)
     comp = kwargs.get("comp", lambda u, v: u < v)
 
-    step = int(sqrt(end - start + 1))
-    current_position = step
+    step = int(sqrt(max(end - start + 1, 0)))
+    current_position = start
     prev = start
-    while comp(array[min(current_position, end)], value):
+    while current_position <= end and \
+        _comp(array[current_position], value, comp):
         prev = current_position
         current_position += step
-        if prev > end:
-            return None
     while prev <= min(current_position, end):
         if array[prev] == value:
             return prev
-- 
2.43.0


From 563ed130ad25070461f647b44bcb3b0020fdcfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 012/103] fix: binary_search failed on slices with empty
 entries at the end

---
 pydatastructs/linear_data_structures/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 63eb430..c090bc0 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1677,7 +1677,7 @@ def binary_search(array, value, **kwargs):
         middle = left//2 + right//2 + left % 2 * right % 2
         if array[middle] == value:
                 return middle
-        if comp(array[middle], value):
+        if _comp(array[middle], value, comp):
             left = middle + 1
         else:
             right = middle - 1
-- 
2.43.0


From 7ca28c521da9f501b9deaff96e59be510f154653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 013/103] fix: C++ jump_search crashed on empty arrays

---
 .../_backend/cpp/algorithms/misc_algorithms.hpp              | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
index 012241b..1114ed6 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/misc_algorithms.hpp
@@ -215,6 +215,11 @@ static PyObject* jump_search(PyObject* self, PyObject* args, PyObject* kwds) {
         PyErr_Format(PyExc_ValueError,
                 "Expected Value to be not NULL");
     }
+    if (lower >= upper + 1) {
+        res = Py_None;
+        Py_INCREF(res);
+        return res;
+    }
     int step = int(sqrt(double(upper - lower + 1)));
     int prev = lower;
     int element_pos = prev;
-- 
2.43.0


From 4f8c7ca1d501d700a957aa503679974ca03e91fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 014/103] fix: upper_bound and lower_bound failed on empty
 slices

---
 pydatastructs/linear_data_structures/algorithms.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index c090bc0..470a028 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1001,8 +1001,6 @@ def upper_bound(array, value, **kwargs):
     comp = kwargs.get('comp', lambda x, y: x < y)
     index = end
     inclusive_end = end - 1
-    if comp(value, array[start]):
-        index = start
     while start <= inclusive_end:
         mid = (start + inclusive_end)//2
         if not comp(value, array[mid]):
@@ -1074,8 +1072,6 @@ def lower_bound(array, value, **kwargs):
     comp = kwargs.get('comp', lambda x, y: x < y)
     index = end
     inclusive_end = end - 1
-    if not comp(array[start], value):
-        index = start
     while start <= inclusive_end:
         mid = (start + inclusive_end)//2
         if comp(array[mid], value):
-- 
2.43.0


From 6cb85d0e5fd3cd55ca42f24d3991f5e86e99eab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 015/103] fix: longest_increasing_subsequence failed on empty
 arrays and truncated non-integers

---
 pydatastructs/linear_data_structures/algorithms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 470a028..8bab446 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1124,6 +1124,8 @@ def longest_increasing_subsequence(array, **kwargs):
         longest_increasing_subsequence,
         kwargs.get('backend', Backend.PYTHON))
     n = len(array)
+    if n == 0:
+        return OneDimensionalArray(array._dtype, 0)
     dp = OneDimensionalArray(int, n)
     dp.fill(0)
     parent = OneDimensionalArray(int, n)
@@ -1141,13 +1143,13 @@ def longest_increasing_subsequence(array, **kwargs):
             ceil = lower_bound(curr_array, array[i])
             dp[ceil] = i
             parent[i] = dp[ceil - 1]
-    ans = DynamicOneDimensionalArray(int, 0)
+    ans = DynamicOneDimensionalArray(array._dtype, 0)
     last_index = dp[length]
     while last_index != -1:
         ans.append(array[last_index])
         last_index = parent[last_index]
     n = ans._last_pos_filled + 1
-    ans_ODA = OneDimensionalArray(int, n)
+    ans_ODA = OneDimensionalArray(array._dtype, n)
     for i in range(n):
         ans_ODA[n-1-i] = ans[i]
     return ans_ODA
-- 
2.43.0


From 566356d1a1843d47aa4158d9069948753224d402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 016/103] fix: next_permutation and prev_permutation truncated
 non-integers

---
 pydatastructs/linear_data_structures/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 8bab446..f10e64a 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1156,7 +1156,7 @@ def longest_increasing_subsequence(array, **kwargs):
 
 def _permutation_util(array, start, end, comp, perm_comp):
     size = end - start + 1
-    permute = OneDimensionalArray(int, size)
+    permute = OneDimensionalArray(array._dtype, size)
     for i, j in zip(range(start, end + 1), range(size)):
         permute[j] = array[i]
     i = size - 1
-- 
2.43.0


From 6baf9c994a1f2740e405ee2d765e5f9341c03dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 017/103] fix: prev_permutation was wrong for repeated elements

---
 pydatastructs/linear_data_structures/algorithms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index f10e64a..99647c1 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -1318,10 +1318,10 @@ def prev_permutation(array, **kwargs):
     comp = kwargs.get('comp', lambda x, y: x < y)
 
     def _prev_permutation_comp(x, y, _comp):
-        if _comp(x, y):
-            return True
-        else:
+        if _comp(y, x):
             return False
+        else:
+            return True
 
     return _permutation_util(array, start, end, comp,
                              _prev_permutation_comp)
-- 
2.43.0


From 20f7fdf1971400e9d8445d3e2eba82837ffb1e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 018/103] fix: matrix_multiply_parallel was wrong for
 non-square matrices

---
 pydatastructs/linear_data_structures/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/algorithms.py b/pydatastructs/linear_data_structures/algorithms.py
index 99647c1..c07d1c3 100644
--- a/pydatastructs/linear_data_structures/algorithms.py
+++ b/pydatastructs/linear_data_structures/algorithms.py
@@ -431,7 +431,7 @@ def counting_sort(array: Array, **kwargs) -> Array:
 
 def _matrix_multiply_helper(m1, m2, row, col):
     s = 0
-    for i in range(len(m1)):
+    for i in range(len(m2)):
         s += m1[row][i] * m2[i][col]
     return s
 
@@ -486,7 +486,7 @@ def matrix_multiply_parallel(matrix_1, matrix_2, num_threads):
         raise ValueError("Matrix size mismatch: %s * %s"%(
         (row_matrix_1, col_matrix_1), (row_matrix_2, col_matrix_2)))
 
-    C = [[None for i in range(col_matrix_1)] for j in range(row_matrix_2)]
+    C = [[None for i in range(col_matrix_2)] for j in range(row_matrix_1)]
 
     with ThreadPoolExecutor(max_workers=num_threads) as Executor:
         for i in range(row_matrix_1):
-- 
2.43.0


From 2c6aa55aaddeef3a9c829fa8d36a1bfa3b99230c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 019/103] fix: OneDimensionalArray changed the caller's list
 and rejected tuples needing conversion

---
 .../linear_data_structures/arrays.py          | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 2e0c3fd..c38cf73 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -90,16 +90,18 @@ class OneDimensionalArray(Array):
         if len(args) == 2:
             if _check_type(args[0], list) and \
                 _check_type(args[1], int):
-                for i in range(len(args[0])):
-                    if _check_type(args[0][i], dtype) is False:
-                        args[0][i] = dtype(args[0][i])
-                size, data = args[1], list(args[0])
+                data = list(args[0])
+                for i in range(len(data)):
+                    if _check_type(data[i], dtype) is False:
+                        data[i] = dtype(data[i])
+                size = args[1]
             elif _check_type(args[1], list) and \
                 _check_type(args[0], int):
-                for i in range(len(args[1])):
-                    if _check_type(args[1][i], dtype) is False:
-                        args[1][i] = dtype(args[1][i])
-                size, data = args[0], list(args[1])
+                data = list(args[1])
+                for i in range(len(data)):
+                    if _check_type(data[i], dtype) is False:
+                        data[i] = dtype(data[i])
+                size = args[0]
             else:
                 raise TypeError("Expected type of size is int and "
                                 "expected type of data is list/tuple.")
@@ -114,11 +116,11 @@ class OneDimensionalArray(Array):
                 init = kwargs.get('init', None)
                 obj._data = [init for i in range(args[0])]
             elif _check_type(args[0], (list, tuple)):
-                for i in range(len(args[0])):
-                    if _check_type(args[0][i], dtype) is False:
-                        args[0][i] = dtype(args[0][i])
-                obj._size, obj._data = len(args[0]), \
-                                        list(args[0])
+                data = list(args[0])
+                for i in range(len(data)):
+                    if _check_type(data[i], dtype) is False:
+                        data[i] = dtype(data[i])
+                obj._size, obj._data = len(data), data
             else:
                 raise TypeError("Expected type of size is int and "
                                 "expected type of data is list/tuple.")
-- 
2.43.0


From 2c05827c6c9d16164970c553a27f2f2c9975ea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 020/103] fix: OneDimensionalArray wrote to another cell for a
 negative index

---
 pydatastructs/linear_data_structures/arrays.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index c38cf73..3c9628a 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -139,6 +139,9 @@ class OneDimensionalArray(Array):
         return self._data.__getitem__(i)
 
     def __setitem__(self, idx, elem):
+        if idx >= self._size or idx < 0:
+            raise IndexError(("Index, {} out of range, "
+                              "[{}, {}).".format(idx, 0, self._size)))
         if elem is None:
             self._data[idx] = None
         else:
-- 
2.43.0


From 1f07ac3e963116ce9f065c02744f44a7af5ae083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 021/103] fix: MultiDimensionalArray accessed another cell for
 out of range indices

---
 pydatastructs/linear_data_structures/arrays.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 3c9628a..a31d7c1 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -268,7 +268,8 @@ class MultiDimensionalArray(Array):
         indices = [indices] if isinstance(indices, int) else indices
         if len(indices) != len(self._sizes) - 1:
             raise IndexError("Shape mismatch, current shape is %s" % str(self.shape))
-        if any(indices[i] >= self._sizes[i] for i in range(len(indices))):
+        shape = self.shape
+        if any(not 0 <= indices[i] < shape[i] for i in range(len(indices))):
             raise IndexError("Index out of range.")
 
     def fill(self, element) -> None:
-- 
2.43.0


From 4db9c9f8f534bcd3d86e1293fea79c2aca22762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 022/103] fix: DynamicOneDimensionalArray._modify failed when
 all entries are empty

---
 pydatastructs/linear_data_structures/arrays.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index a31d7c1..7af5c79 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -386,10 +386,10 @@ class DynamicOneDimensionalArray(DynamicArray, OneDimensionalArray):
         below load factor.
         """
         if force:
-            i = -1
-            while self._data[i] is None:
+            i = self._size - 1
+            while i >= 0 and self._data[i] is None:
                 i -= 1
-            self._last_pos_filled = i%self._size
+            self._last_pos_filled = i
         if (self._num/self._size < self._load_factor):
             arr_new = OneDimensionalArray(self._dtype, 2*self._num + 1)
             j = 0
-- 
2.43.0


From d5ed23a92c462790f052e588c9f3eef95db47d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 023/103] fix: C++ DynamicOneDimensionalArray._modify read
 outside the array when all entries are empty

---
 .../_backend/cpp/arrays/DynamicOneDimensionalArray.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
index 6715d45..3ca4341 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
@@ -99,7 +99,7 @@ static PyObject* DynamicOneDimensionalArray__modify(DynamicOneDimensionalArray *
     if ( force == Py_True ) {
         i = -1;
         j = _size - 1;
-        while ( _data[j] == Py_None) {
+        while ( j >= 0 && _data[j] == Py_None) {
             i--;
             j--;
         }
-- 
2.43.0


From e82d4a4279fbaf7b205b80504f690290652cf94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 024/103] fix: C++ OneDimensionalArray released its initial
 value while still holding it

---
 .../_backend/cpp/arrays/OneDimensionalArray.hpp                  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
index 92f885a..45e3c6c 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
@@ -182,6 +182,7 @@ static PyObject* OneDimensionalArray___new__(PyTypeObject* type, PyObject *args,
             }
 
             for (size_t i = 0; i < self->_size; i++) {
+                Py_INCREF(init);
                 self->_data[i] = init;
             }
 
-- 
2.43.0


From 5629286770e7aa686ca0d45249de0e7642caccb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:18 +0000
Subject: [PATCH 025/103] fix: C++ ArrayForTrees wrote outside its storage
 after shrinking

---
 .../_backend/cpp/arrays/ArrayForTrees.hpp                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
index 4828fe7..39f7bef 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
@@ -126,7 +126,7 @@ static PyObject* ArrayForTrees__modify(ArrayForTrees *self,
         }
         self->_last_pos_filled = j - 1;
         self->_one_dimensional_array->_data = arr_new;
-        self->_size = new_size;
+        self->_one_dimensional_array->_size = new_size;
         self->_size = new_size;
 
         return new_indices;
-- 
2.43.0


From 685b632ff022bef3937134d554de98a8e0596461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 026/103] fix: linked lists accepted indices before the first
 element and then lost count or never ended

---
 pydatastructs/linear_data_structures/linked_lists.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index 09178da..e7a2d4e 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -115,7 +115,7 @@ class LinkedList(object):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         counter = 0
@@ -294,7 +294,7 @@ class DoublyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index > self.size:
+        if index < 0 or index > self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         self.size += 1
@@ -335,7 +335,7 @@ class DoublyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d is out of range.'%(index))
 
         self.size -= 1
@@ -428,7 +428,7 @@ class SinglyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index > self.size:
+        if index < 0 or index > self.size:
             raise IndexError('%d index is out of range.'%(index))
 
         self.size += 1
@@ -465,7 +465,7 @@ class SinglyLinkedList(LinkedList):
         if index < 0:
             index = self.size + index
 
-        if index >= self.size:
+        if index < 0 or index >= self.size:
             raise IndexError('%d is out of range.'%(index))
 
         self.size -= 1
-- 
2.43.0


From a405ca4957761120406cd1290d7c945bb61b7223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 027/103] fix: circular lists were left open when the first
 element changed

---
 .../linear_data_structures/linked_lists.py    | 26 +++++--------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index e7a2d4e..bb6958e 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -536,19 +536,13 @@ class SinglyCircularLinkedList(SinglyLinkedList):
 
     def insert_at(self, index, key, data=None):
         super(SinglyCircularLinkedList, self).insert_at(index, key, data)
-        if self.size == 1:
-            self.head.next = self.head
-        new_node = self.__getitem__(index)
-        if index == 0:
-            self.tail.next = new_node
-        if new_node.next == self.head:
-            self.tail = new_node
+        self.tail.next = self.head
 
     def extract(self, index):
         node = super(SinglyCircularLinkedList, self).extract(index)
         if self.tail is None:
             self.head = None
-        elif index == 0:
+        else:
             self.tail.next = self.head
         return node
 
@@ -611,24 +605,16 @@ class DoublyCircularLinkedList(DoublyLinkedList):
     def insert_at(self, index, key, data=None):
         super(DoublyCircularLinkedList, self).\
             insert_at(index, key, data)
-        if self.size == 1:
-            self.head.next = self.head
-            self.head.prev = self.head
-        new_node = self.__getitem__(index)
-        if index == 0:
-            self.tail.next = new_node
-            new_node.prev = self.tail
-        if new_node.next == self.head:
-            self.tail = new_node
-            new_node.next = self.head
-            self.head.prev = new_node
+        self.tail.next = self.head
+        self.head.prev = self.tail
 
     def extract(self, index):
         node = super(DoublyCircularLinkedList, self).extract(index)
         if self.tail is None:
             self.head = None
-        elif index == 0:
+        else:
             self.tail.next = self.head
+            self.head.prev = self.tail
         return node
 
 class SkipList(object):
-- 
2.43.0


From 16f20fdd6bab98928d36eb0b00c747c6a8ca7faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 028/103] fix: array queues lost track of their ends when the
 storage was reallocated

---
 .../miscellaneous_data_structures/queue.py    | 51 +++++++------------
 1 file changed, 19 insertions(+), 32 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/queue.py b/pydatastructs/miscellaneous_data_structures/queue.py
index 033ef9a..e22285f 100644
--- a/pydatastructs/miscellaneous_data_structures/queue.py
+++ b/pydatastructs/miscellaneous_data_structures/queue.py
@@ -111,7 +111,7 @@ class ArrayQueue(Queue):
                 **kwargs):
         raise_if_backend_is_not_python(
             cls, kwargs.get('backend', Backend.PYTHON))
-        if items is None:
+        if items is None or len(items) == 0:
             items = DynamicOneDimensionalArray(dtype, 0)
         else:
             dtype = type(items[0])
@@ -133,41 +133,37 @@ class ArrayQueue(Queue):
                 'pop', 'is_empty', '__len__', '__str__', 'front',
                 'rear']
 
+    def _update_ends(self):
+        # the elements are contiguous in items and end at the last filled position
+        if self.is_empty:
+            self._front = -1
+            self._rear = -1
+        else:
+            self._rear = self.items._last_pos_filled
+            self._front = self._rear - self.items._num + 1
+
     def append(self, x):
         if self.is_empty:
-            self._front = 0
             self.items._dtype = type(x)
         self.items.append(x)
-        self._rear += 1
+        self._update_ends()
 
     def appendleft(self, x):
         self._double_ended_check()
         temp = []
-        if self.is_empty:
-            self._front = 0
-            self._rear = -1
-        self.items._dtype = type(x)
         temp.append(x)
-        for i in range(self._front, self._rear + 1):
-            temp.append(self.items._data[i])
+        if not self.is_empty:
+            for i in range(self._front, self._rear + 1):
+                temp.append(self.items._data[i])
         self.items = DynamicOneDimensionalArray(type(temp[0]), temp)
-        self._rear += 1
+        self._update_ends()
 
     def popleft(self):
         if self.is_empty:
             raise IndexError("Queue is empty.")
         return_value = dc(self.items[self._front])
-        front_temp = self._front
-        if self._front == self._rear:
-            self._front = -1
-            self._rear = -1
-        else:
-            if (self.items._num - 1)/self.items._size < \
-                self.items._load_factor:
-                self._front = 0
-            else:
-                self._front += 1
-        self.items.delete(front_temp)
+        self.items.delete(self._front)
+        self._update_ends()
         return return_value
 
     def pop(self):
@@ -176,17 +172,8 @@ class ArrayQueue(Queue):
             raise IndexError("Queue is empty.")
 
         return_value = dc(self.items[self._rear])
-        rear_temp = self._rear
-        if self._front == self._rear:
-            self._front = -1
-            self._rear = -1
-        else:
-            if (self.items._num - 1)/self.items._size < \
-                self.items._load_factor:
-                self._front = 0
-            else:
-                self._rear -= 1
-        self.items.delete(rear_temp)
+        self.items.delete(self._rear)
+        self._update_ends()
         return return_value
 
     @property
-- 
2.43.0


From c97068121898993a0160b811037bf8a340c2e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 029/103] fix: heaps could not be built from arrays with empty
 entries

---
 pydatastructs/trees/heaps.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index 12133a6..425c16a 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -94,7 +94,10 @@ class DHeap(Heap):
         elif _check_type(elements, (list,tuple)):
             elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
         elif _check_type(elements, Array):
-            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements._data)
+            elements = [element for element in elements._data if element is not None]
+            if not all(_check_type(element, TreeNode) for element in elements):
+                raise TypeError("Expected elements of type TreeNode")
+            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
         else:
             raise ValueError(f'Expected a list/tuple/Array of TreeNode got {type(elements)}')
         obj.heap = elements
-- 
2.43.0


From 2bab0314a8e006dac574c5a386a9a905042b3f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 030/103] fix: heaps could not be built from tuples

---
 pydatastructs/trees/heaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/heaps.py b/pydatastructs/trees/heaps.py
index 425c16a..5269c0d 100644
--- a/pydatastructs/trees/heaps.py
+++ b/pydatastructs/trees/heaps.py
@@ -92,7 +92,7 @@ class DHeap(Heap):
         if elements is None:
             elements = DynamicOneDimensionalArray(TreeNode, 0)
         elif _check_type(elements, (list,tuple)):
-            elements = DynamicOneDimensionalArray(TreeNode, len(elements), elements)
+            elements = DynamicOneDimensionalArray(TreeNode, len(elements), list(elements))
         elif _check_type(elements, Array):
             elements = [element for element in elements._data if element is not None]
             if not all(_check_type(element, TreeNode) for element in elements):
-- 
2.43.0


From 781896c4a43ac1ac1043355f8f5515672c8b9e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 031/103] fix: custom comparators of search trees were never
 applied

---
 pydatastructs/trees/binary_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 48446d1..9741145 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -70,7 +70,7 @@ class BinaryTree(object):
         root.is_root = True
         obj.root_idx = 0
         obj.tree, obj.size = ArrayForTrees(TreeNode, [root]), 1
-        obj.comparator = lambda key1, key2: key1 < key2 \
+        obj.comparator = (lambda key1, key2: key1 < key2) \
                         if comp is None else comp
         obj.is_order_statistic = is_order_statistic
         return obj
-- 
2.43.0


From 3db05e6f47fd4f973ba3b2ec3b854f9194f352dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 032/103] fix: searching an empty search tree with its parent,
 and so deleting from it, raised TypeError

---
 pydatastructs/trees/binary_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 9741145..3ca530a 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -274,7 +274,7 @@ class BinarySearchTree(BinaryTree):
         parent = None
         walk = self.root_idx
         if self.tree[walk].key is None:
-            return None
+            return (None, None) if ret_parent else None
         while walk is not None:
             if self.tree[walk].key == key:
                 break
-- 
2.43.0


From 7965dd4e8988c36b0cd6089415349969036b7314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 033/103] fix: search trees linked a new node by the wrong
 index after a deletion

---
 pydatastructs/trees/binary_trees.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 3ca530a..87097b9 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -255,16 +255,16 @@ class BinarySearchTree(BinaryTree):
                 if self.tree[walk].right is None:
                     new_node.parent = prev_node
                     self.tree.append(new_node)
-                    self.tree[walk].right = self.size
-                    self.size += 1
+                    self.tree[walk].right = self.tree._last_pos_filled
+                    self.size = self.tree._last_pos_filled + 1
                     flag = False
                 prev_node = walk = self.tree[walk].right
             else:
                 if self.tree[walk].left is None:
                     new_node.parent = prev_node
                     self.tree.append(new_node)
-                    self.tree[walk].left = self.size
-                    self.size += 1
+                    self.tree[walk].left = self.tree._last_pos_filled
+                    self.size = self.tree._last_pos_filled + 1
                     flag = False
                 prev_node = walk = self.tree[walk].left
         self._update_size(walk)
-- 
2.43.0


From 339173cb1bb559768760d3957b80e37bb85452bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 034/103] fix: deleting a search tree root with one child left
 stale parent links and sizes

---
 pydatastructs/trees/binary_trees.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 87097b9..93adf51 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -439,10 +439,15 @@ class BinarySearchTree(BinaryTree):
                 self.tree[self.root_idx].data = self.tree[child].data
                 self.tree[self.root_idx].key = self.tree[child].key
                 self.tree[self.root_idx].parent = None
+                for grandchild in (self.tree[child].left, self.tree[child].right):
+                    if grandchild is not None:
+                        self.tree[grandchild].parent = self.root_idx
                 root_key = self.tree[self.root_idx].key
                 new_indices = self.tree.delete(child)
                 if new_indices is not None:
                     self.root_idx = new_indices[root_key]
+                a = self.root_idx
+                self._update_size(a)
             else:
                 if self.tree[parent].left == walk:
                     self.tree[parent].left = child
-- 
2.43.0


From 78d29def901ac6f82379c524d23829a555554777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:04 +0000
Subject: [PATCH 035/103] fix: deleting a search tree node with one child
 corrupted a parent link when the storage was compacted

---
 pydatastructs/trees/binary_trees.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 93adf51..fa5daa5 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -459,8 +459,6 @@ class BinarySearchTree(BinaryTree):
                                      self.tree[self.root_idx].key)
                 new_indices = self.tree.delete(walk)
                 if new_indices is not None:
-                    parent = new_indices[par_key]
-                    self.tree[child].parent = new_indices[par_key]
                     a = new_indices[par_key]
                     self.root_idx = new_indices[root_key]
                 self._update_size(a)
-- 
2.43.0


From 80fade509f61836d7b9fac18834797209df4adf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:17 +0000
Subject: [PATCH 036/103] fix: appending to tree storage could renumber the
 nodes without updating the tree

---
 pydatastructs/linear_data_structures/arrays.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pydatastructs/linear_data_structures/arrays.py b/pydatastructs/linear_data_structures/arrays.py
index 7af5c79..24452de 100644
--- a/pydatastructs/linear_data_structures/arrays.py
+++ b/pydatastructs/linear_data_structures/arrays.py
@@ -455,6 +455,16 @@ class ArrayForTrees(DynamicOneDimensionalArray):
 
     pydatastructs.linear_data_structures.arrays.DynamicOneDimensionalArray
     """
+    def append(self, el):
+        # Nodes are linked by their positions, only
+        # deletion is allowed to renumber them.
+        if self._last_pos_filled + 1 == self._size:
+            self._data = self._data + [None]*(self._size + 1)
+            self._size = 2*self._size + 1
+        self[self._last_pos_filled + 1] = el
+        self._last_pos_filled += 1
+        self._num += 1
+
     def _modify(self):
         if self._num/self._size < self._load_factor:
             new_indices = {}
-- 
2.43.0


From 5be7f95064e5191eaa5897c34266ff14fe703bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 037/103] fix: C++ search trees compared keys by identity

---
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 5573847..e8e5bff 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -95,7 +95,11 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
     while (walk != Py_None) {
         PyObject* curr_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key;
 
-        if (curr_key == key) {
+        int equal = PyObject_RichCompareBool(curr_key, key, Py_EQ);
+        if (equal == -1) {
+            return NULL;
+        }
+        if (equal) {
             break;
         }
         parent = walk;
-- 
2.43.0


From 7d0d5ac206c203d4e8c85541ae8d7721ffa58fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 038/103] fix: C++ search on an empty tree ignored the request
 for the parent, deleting from it crashed

---
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index e8e5bff..0c7c0cb 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -89,7 +89,10 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
     PyObject* walk = bt->root_idx;
 
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key == Py_None) {
-        Py_RETURN_NONE;
+        if (ret_parent == Py_None || PyLong_AsLong(ret_parent) == 0) {
+            Py_RETURN_NONE;
+        }
+        return Py_BuildValue("(OO)", Py_None, Py_None);
     }
 
     while (walk != Py_None) {
-- 
2.43.0


From 65f8a4f59db339b0de0ae690b7ec82573ae56bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 039/103] fix: C++ search trees gave away references to node
 positions

---
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 0c7c0cb..981d308 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -128,8 +128,8 @@ static PyObject* BinarySearchTree_search(BinarySearchTree* self, PyObject* args,
         }
     }
 
-    Py_INCREF(Py_None);
     if (ret_parent==Py_None || PyLong_AsLong(ret_parent)==0) {
+        Py_INCREF(walk);
         return walk;
     }
     else {
@@ -667,6 +667,7 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
 }
 
 static PyObject* BinarySearchTree_root_idx(BinarySearchTree *self, void *closure) {
+    Py_INCREF(self->binary_tree->root_idx);
     return self->binary_tree->root_idx;
 }
 
-- 
2.43.0


From 4f22a06764b302bdb04249a8bfc901eeb3d60531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 040/103] fix: C++ search trees did not keep the data of an
 updated key nor the key and data of a refilled root alive

---
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 981d308..bcc16f4 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -152,12 +152,15 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
     PyObject* res = BinarySearchTree_search(self, Py_BuildValue("(O)",key), PyDict_New()); // keywords should be a dictionary, so empty dictionary here as no keywords
     BinaryTree* bt = self->binary_tree;
     if (res != Py_None) {
+        Py_INCREF(data);
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(res)])->data = data;
         Py_RETURN_NONE;
     }
 
     PyObject* walk = PyLong_FromLong(PyLong_AsLong(bt->root_idx));
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key == Py_None) {
+        Py_INCREF(key);
+        Py_INCREF(data);
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key = key;
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->data = data;
         Py_RETURN_NONE;
-- 
2.43.0


From 000db2bea4f1e4a0c2dba5b6249b1f2c75f7ff36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 041/103] fix: C++ search trees linked a new node by the wrong
 index after a deletion

---
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index bcc16f4..bd89098 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -192,8 +192,8 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
             if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right == Py_None) {
                 new_node->parent = prev_node;
                 ArrayForTrees_append(bt->tree, Py_BuildValue( "[O]", reinterpret_cast<PyObject*>(new_node)) );
-                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right = PyLong_FromLong(bt->size);
-                bt->size = bt->size + 1;
+                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right = PyLong_FromLong(bt->tree->_last_pos_filled);
+                bt->size = bt->tree->_last_pos_filled + 1;
                 flag = false;
             }
             prev_node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->right;
@@ -203,8 +203,8 @@ static PyObject* BinarySearchTree_insert(BinarySearchTree* self, PyObject* args)
             if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left == Py_None) {
                 new_node->parent = prev_node;
                 ArrayForTrees_append(bt->tree, Py_BuildValue( "[O]", reinterpret_cast<PyObject*>(new_node)) );
-                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left = PyLong_FromLong(bt->size);
-                bt->size = bt->size + 1;
+                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left = PyLong_FromLong(bt->tree->_last_pos_filled);
+                bt->size = bt->tree->_last_pos_filled + 1;
                 flag = false;
             }
             prev_node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left;
-- 
2.43.0


From f0c365f52f4105eb2e20570df3d0c0eda0c61358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 042/103] fix: C++: deleting a search tree root with one child
 left stale parent links and sizes

---
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index bd89098..f41ed98 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -309,11 +309,19 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(child)])->key;
             Py_INCREF(Py_None);
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->parent = Py_None;
+            PyObject* grandchildren[] = {reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(child)])->left, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(child)])->right};
+            for (PyObject* grandchild : grandchildren) {
+                if (grandchild != Py_None) {
+                    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(grandchild)])->parent = bt->root_idx;
+                }
+            }
             PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",child));
             if (new_indices != Py_None) {
                 bt->root_idx = PyDict_GetItem(new_indices, root_key);
             }
+            a = bt->root_idx;
+            BinarySearchTree__update_size(self, Py_BuildValue("(O)",a));
         }
         else {
             if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->left == walk) {
-- 
2.43.0


From f1957e2c910fcaf28ea1f9509cf1e4ae4d6dc9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 043/103] fix: C++: deleting a search tree node with one child
 corrupted a parent link when the storage was compacted

---
 pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index f41ed98..5b83d04 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -336,9 +336,7 @@ static PyObject* BinarySearchTree_delete(BinarySearchTree* self, PyObject *args,
             PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
             PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)",walk));
             if (new_indices != Py_None) {
-                parent = PyDict_GetItem(new_indices, par_key);
-                reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(child)])->parent = PyDict_GetItem(new_indices, root_key);
-                a = PyDict_GetItem(new_indices, root_key);
+                a = PyDict_GetItem(new_indices, par_key);
                 bt->root_idx = PyDict_GetItem(new_indices, root_key);
             }
             BinarySearchTree__update_size(self, Py_BuildValue("(O)",a));
-- 
2.43.0


From f2bb6cacb0605f9b0369639013bbbb61a1161fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:16 +0000
Subject: [PATCH 044/103] fix: C++: appending to tree storage could renumber
 the nodes without updating the tree

---
 .../_backend/cpp/arrays/ArrayForTrees.hpp                       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
index 39f7bef..d29b604 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp
@@ -162,7 +162,7 @@ static PyObject* ArrayForTrees_append(ArrayForTrees *self,
     }
     self->_last_pos_filled += 1;
     self->_num += 1;
-    return ArrayForTrees__modify(self, NULL);
+    Py_RETURN_NONE; // Nodes are linked by their positions, only deletion is allowed to renumber them.
 }
 
 static PyObject* ArrayForTrees_delete(ArrayForTrees *self,
-- 
2.43.0


From 90be1444f3df27eb43e9478807515282b51d907e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 045/103] fix: AVL insertion of an existing key rebalanced from
 an unrelated position

---
 pydatastructs/trees/binary_trees.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index fa5daa5..9c08ba9 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1033,7 +1033,8 @@ class AVLTree(SelfBalancingBinaryTree):
 
     def insert(self, key, data=None):
         super(AVLTree, self).insert(key, data)
-        self._balance_insertion(self.size - 1, self.tree[self.size-1].parent)
+        node_idx = self.search(key)
+        self._balance_insertion(node_idx, self.tree[node_idx].parent)
 
     def _balance_deletion(self, start_idx, key):
         walk = start_idx
-- 
2.43.0


From 59a618b7e4528921c933661f3d6beaca88143664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 046/103] fix: AVL deletion reported success for absent keys

---
 pydatastructs/trees/binary_trees.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 9c08ba9..e94abd0 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1061,6 +1061,8 @@ class AVLTree(SelfBalancingBinaryTree):
 
 
     def delete(self, key, **kwargs):
+        if self.search(key) is None:
+            return None
         a = super(AVLTree, self).delete(key, balancing_info=True)
         self._balance_deletion(a, key)
         return True
-- 
2.43.0


From 71ea60cb53c3b8d77da4134db0294b544b1aa3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 047/103] fix: C++ AVL insertion of an existing key rebalanced
 from an unrelated position

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index f0de0b0..2aff6cf 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -237,8 +237,8 @@ static PyObject* AVLTree_insert(AVLTree* self, PyObject *args) {
     }
     SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
     BinaryTree* bt = self->sbbt->bst->binary_tree;
-    long s = bt->size - 1;
-    AVLTree__balance_insertion(self, Py_BuildValue("(OO)", PyLong_FromLong(s), reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[s])->parent));
+    PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    AVLTree__balance_insertion(self, Py_BuildValue("(OO)", node_idx, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->parent));
 
     Py_RETURN_NONE;
 }
-- 
2.43.0


From 349aa1cb7d8c5678ec3932339a837297919677e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 048/103] fix: C++ AVL deletion reported success for absent
 keys

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index 2aff6cf..02e4c25 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -300,6 +300,9 @@ static PyObject* AVLTree_delete(AVLTree* self, PyObject *args, PyObject *kwds) {
 
     PyObject* kwd_bal = PyDict_New();
     PyDict_SetItemString(kwd_bal, "balancing_info", PyLong_FromLong(1));
+    if (SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New()) == Py_None) {
+        Py_RETURN_NONE;
+    }
     PyObject* a = SelfBalancingBinaryTree_delete(self->sbbt, Py_BuildValue("(O)", key), kwd_bal);
     AVLTree__balance_delete(self, Py_BuildValue("(OO)", a, key));
 
@@ -307,6 +310,7 @@ static PyObject* AVLTree_delete(AVLTree* self, PyObject *args, PyObject *kwds) {
 }
 
 static PyObject* AVLTree_root_idx(AVLTree *self, void *closure) {
+    Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
 }
 
-- 
2.43.0


From 22613888c4bc54e166c3cb996de9e1b1cb42d644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 049/103] fix: red-black trees had an uncoloured root

---
 pydatastructs/trees/binary_trees.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index e94abd0..50ab192 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1249,7 +1249,11 @@ class RedBlackTree(SelfBalancingBinaryTree):
             if comp is None:
                 comp = lambda key1, key2: key1 < key2
             return _trees.RedBlackTree(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
-        return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        obj = super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        root = RedBlackTreeNode(obj.tree[obj.root_idx].key, root_data)
+        root.is_root, root.color = True, 0
+        obj.tree[obj.root_idx] = root
+        return obj
 
     @classmethod
     def methods(cls):
-- 
2.43.0


From e2a0d37cab73eb6e65f85c28424f2118a48c7836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 050/103] fix: inserting an existing key recoloured its node in
 red-black trees

---
 pydatastructs/trees/binary_trees.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 50ab192..13a8a98 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1330,7 +1330,10 @@ class RedBlackTree(SelfBalancingBinaryTree):
         self.tree[self.root_idx].color=0
 
     def insert(self, key, data=None):
+        node_idx = super(RedBlackTree, self).search(key)
         super(RedBlackTree, self).insert(key, data)
+        if node_idx is not None:
+            return None
         node_idx = super(RedBlackTree, self).search(key)
         node = self.tree[node_idx]
         new_node = RedBlackTreeNode(key, data)
-- 
2.43.0


From b8584339832cea5bc5b862bcb6e0763544c3a0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 051/103] fix: red-black deletion of a node with one child used
 stale positions when the storage was compacted

---
 pydatastructs/trees/binary_trees.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 13a8a98..e0bcca2 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1499,6 +1499,9 @@ class RedBlackTree(SelfBalancingBinaryTree):
             parent = self._get_parent(node_idx)
             par_key, root_key = (self.tree[parent].key, self.tree[self.root_idx].key)
             new_indices = self.tree.delete(node_idx)
+            if new_indices is not None:
+                a = new_indices[par_key]
+                self.root_idx = new_indices[root_key]
         self._update_size(a)
 
     def _delete_root(self, node_idx, node_idx1):
@@ -1544,11 +1547,11 @@ class RedBlackTree(SelfBalancingBinaryTree):
             else:
                 self.tree[parent].right = walk1
             self.tree[walk1].parent = parent
-            a = self._remove_node(walk)
             if self.__walk1_walk_isblack(walk_original_color, walk1):
                 self.__fix_deletion(walk1)
             else:
                 self.tree[walk1].color = 0
+            self._remove_node(walk)
 
     def __two_child_case(self, node_idx):
         walk = node_idx
-- 
2.43.0


From fdff9a54e237e8fe112cdc8342ed7521937d8ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 052/103] fix: C++ tree nodes reported their size as their
 colour

---
 pydatastructs/utils/_backend/cpp/TreeNode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/utils/_backend/cpp/TreeNode.hpp b/pydatastructs/utils/_backend/cpp/TreeNode.hpp
index b9361a1..25f5610 100644
--- a/pydatastructs/utils/_backend/cpp/TreeNode.hpp
+++ b/pydatastructs/utils/_backend/cpp/TreeNode.hpp
@@ -67,7 +67,7 @@ static struct PyMemberDef TreeNode_PyMemberDef[] = {
     {"left", T_OBJECT, offsetof(TreeNode, left), 0, "TreeNode left"},
     {"right", T_OBJECT, offsetof(TreeNode, right), 0, "TreeNode right"},
     {"parent", T_OBJECT, offsetof(TreeNode, parent), 0, "TreeNode parent"},
-    {"color", T_LONG, offsetof(TreeNode, size), 0, "RedBlackTreeNode color"},
+    {"color", T_LONG, offsetof(TreeNode, color), 0, "RedBlackTreeNode color"},
     {"priority", T_DOUBLE, offsetof(TreeNode, priority), 0, "CartesianTreeNode's priority"},
     {NULL},
 };
-- 
2.43.0


From 349848fa87dc6e9f0da88cc59a143b7d210627e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 053/103] fix: C++ red-black trees had a red root

---
 pydatastructs/trees/_backend/cpp/RedBlackTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 3604031..e85d361 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -32,6 +32,7 @@ static PyObject* RedBlackTree___new__(PyTypeObject* type, PyObject *args, PyObje
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
     self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst->binary_tree->tree;
+    reinterpret_cast<TreeNode*>(self->tree->_one_dimensional_array->_data[0])->color = 0;
 
     return reinterpret_cast<PyObject*>(self);
 }
-- 
2.43.0


From f13c1bb1ca40d189a9299f0293f9244a6d820988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 054/103] fix: inserting an existing key recoloured its node in
 C++ red-black trees

---
 pydatastructs/trees/_backend/cpp/RedBlackTree.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index e85d361..5b0e59b 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -162,8 +162,12 @@ static PyObject* RedBlackTree_insert(RedBlackTree *self, PyObject* args) {
     if (!PyArg_ParseTuple(args, "O|O", &key, &data)) { // data is optional
         return NULL;
     }
-    SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
     PyObject* node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
+    SelfBalancingBinaryTree_insert(self->sbbt, Py_BuildValue("(OO)", key, data));
+    if (node_idx != Py_None) {
+        Py_RETURN_NONE;
+    }
+    node_idx = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), PyDict_New());
 
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
@@ -580,6 +584,7 @@ static PyObject* RedBlackTree_search(RedBlackTree* self, PyObject *args, PyObjec
 }
 
 static PyObject* RedBlackTree_root_idx(RedBlackTree *self, void *closure) {
+    Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
 }
 
-- 
2.43.0


From e3c1c93e139c7f744ac3e9ddeeb939a90ade9041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 055/103] fix: C++ red-black deletion of a node with one child
 used stale positions when the storage was compacted

---
 pydatastructs/trees/_backend/cpp/RedBlackTree.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 5b0e59b..619618c 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -451,6 +451,10 @@ static PyObject* RedBlackTree__remove_node(RedBlackTree* self, PyObject *args) {
         PyObject* par_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->key;
         PyObject* root_key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key;
         PyObject* new_indices = ArrayForTrees_delete(bt->tree, Py_BuildValue("(O)", node_idx));
+        if (new_indices != Py_None) {
+            a = PyDict_GetItem(new_indices, par_key);
+            bt->root_idx = PyDict_GetItem(new_indices, root_key);
+        }
     }
     BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", a));
     Py_RETURN_NONE;
@@ -528,13 +532,13 @@ static PyObject* RedBlackTree___one_child_case(RedBlackTree* self, PyObject *arg
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(parent)])->right = walk1;
         }
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk1)])->parent = parent;
-        PyObject* a = RedBlackTree__remove_node(self, Py_BuildValue("(O)", walk));
         if (RedBlackTree___walk1_walk_isblack(self, Py_BuildValue("(OO)", PyLong_FromLong(walk_original_color), walk1)) == Py_True) {
             RedBlackTree___fix_deletion(self, Py_BuildValue("(O)", walk1));
         }
         else {
             reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk1)])->color = 0;
         }
+        RedBlackTree__remove_node(self, Py_BuildValue("(O)", walk));
     }
     Py_RETURN_NONE;
 }
-- 
2.43.0


From 920977f8fec53f7230ab1d0294e7c1ff61c6ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 056/103] fix: inserting an existing key into a splay tree
 corrupted the parent links

---
 pydatastructs/trees/binary_trees.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index e0bcca2..0ad61fa 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1131,7 +1131,6 @@ class SplayTree(SelfBalancingBinaryTree):
     def insert(self, key, x):
         super(SelfBalancingBinaryTree, self).insert(key, x)
         e, p = super(SelfBalancingBinaryTree, self).search(key, parent=True)
-        self.tree[self.size-1].parent = p
         self.splay(e, p)
 
     def delete(self, x):
-- 
2.43.0


From 520b682302ad5fc4806d6e56ea524abf94e379bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 057/103] fix: joining splay trees linked the second tree by
 wrong positions, left its root without parent and failed for empty trees

---
 pydatastructs/trees/binary_trees.py | 44 ++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 0ad61fa..c38e3b0 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1153,30 +1153,46 @@ class SplayTree(SelfBalancingBinaryTree):
             SplayTree which needs to be joined with the self tree.
 
         """
-        maxm = self.root_idx
-        while self.tree[maxm].right is not None:
-            maxm = self.tree[maxm].right
-        minm = other.root_idx
-        while other.tree[minm].left is not None:
-            minm = other.tree[minm].left
-        if not self.comparator(self.tree[maxm].key,
-                                other.tree[minm].key):
-            raise ValueError("Elements of %s aren't less "
-                             "than that of %s"%(self, other))
-        self.splay(maxm, self.tree[maxm].parent)
-        idx_update = self.tree._size
+        if other.tree[other.root_idx].key is None:
+            return
+        is_empty = self.tree[self.root_idx].key is None
+        if not is_empty:
+            maxm = self.root_idx
+            while self.tree[maxm].right is not None:
+                maxm = self.tree[maxm].right
+            minm = other.root_idx
+            while other.tree[minm].left is not None:
+                minm = other.tree[minm].left
+            if not self.comparator(self.tree[maxm].key,
+                                    other.tree[minm].key):
+                raise ValueError("Elements of %s aren't less "
+                                 "than that of %s"%(self, other))
+            self.splay(maxm, self.tree[maxm].parent)
+        idx_update = self.tree._last_pos_filled + 1
         for node in other.tree:
             if node is not None:
                 node_copy = TreeNode(node.key, node.data)
+                node_copy.size = node.size
                 if node.left is not None:
                     node_copy.left = node.left + idx_update
                 if node.right is not None:
                     node_copy.right = node.right + idx_update
+                if node.parent is not None:
+                    node_copy.parent = node.parent + idx_update
                 self.tree.append(node_copy)
             else:
                 self.tree.append(node)
-        self.tree[self.root_idx].right = \
-            other.root_idx + idx_update
+                self.tree._num -= 1
+        if is_empty:
+            self.tree[self.root_idx] = None
+            self.tree._num -= 1
+            self.root_idx = other.root_idx + idx_update
+        else:
+            self.tree[self.root_idx].right = \
+                other.root_idx + idx_update
+            self.tree[other.root_idx + idx_update].parent = self.root_idx
+            self._update_size(self.root_idx)
+        self.size = self.tree._last_pos_filled + 1
 
     def split(self, x):
         """
-- 
2.43.0


From 7949918960449087fbd84e38500385b198694257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:01 +0000
Subject: [PATCH 058/103] fix: splitting a splay tree lost its comparator and
 miscounted the removed nodes

---
 pydatastructs/trees/binary_trees.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index c38e3b0..010403a 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1217,7 +1217,8 @@ class SplayTree(SelfBalancingBinaryTree):
         if e is None:
             return
         self.splay(e, p)
-        other = SplayTree(None, None)
+        other = SplayTree(None, None, self.comparator,
+                          self.is_order_statistic)
         if self.tree[self.root_idx].right is not None:
             traverse = BinaryTreeTraversal(self)
             elements = traverse.depth_first_search(order='pre_order', node=self.tree[self.root_idx].right)
@@ -1226,7 +1227,9 @@ class SplayTree(SelfBalancingBinaryTree):
             for j in range(len(elements) - 1, -1, -1):
                 e, p = super(SelfBalancingBinaryTree, self).search(elements[j].key, parent=True)
                 self.tree[e] = None
+                self.tree._num -= 1
             self.tree[self.root_idx].right = None
+            self._update_size(self.root_idx)
         return other
 
 class RedBlackTree(SelfBalancingBinaryTree):
-- 
2.43.0


From 7cc094fec8e3e1a1f45fa3f7ae60f9ffb3a72acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 059/103] fix: inserting an existing key into a C++ splay tree
 crashed or corrupted parent links

---
 pydatastructs/trees/_backend/cpp/SplayTree.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index b41eb3d..663a719 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -136,7 +136,6 @@ static PyObject* SplayTree_insert(SplayTree *self, PyObject* args) {
     PyObject* tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", key), kwd_parent);
     PyObject* e = PyTuple_GetItem(tup, 0);
     PyObject* p = PyTuple_GetItem(tup, 1);
-    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[bt->size-1])->parent = p;
     SplayTree_splay(self, Py_BuildValue("(OO)", e, p));
 
     Py_RETURN_NONE;
-- 
2.43.0


From e58356dfced2f7c74d5a44b54299dcfd15b3070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 060/103] fix: joining C++ splay trees linked the second tree
 by wrong positions, left its nodes without parent and failed for empty trees

---
 .../trees/_backend/cpp/SplayTree.hpp          | 87 +++++++++++++------
 1 file changed, 59 insertions(+), 28 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 663a719..64c371f 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -5,6 +5,7 @@
 #include <Python.h>
 #include <structmember.h>
 #include <cstdlib>
+#include <vector>
 #include "../../../utils/_backend/cpp/utils.hpp"
 #include "../../../utils/_backend/cpp/TreeNode.hpp"
 #include "../../../linear_data_structures/_backend/cpp/arrays/ArrayForTrees.hpp"
@@ -164,36 +165,49 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
     BinaryTree* bt = self->sbbt->bst->binary_tree;
     BinaryTree* obt = other->sbbt->bst->binary_tree;
 
-    PyObject* maxm = bt->root_idx;
-    while (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->right != Py_None) {
-        maxm = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->right;
-    }
-    PyObject* minm = obt->root_idx;
-    while (reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(minm)])->left != Py_None) {
-        minm = reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(minm)])->left;
+    if (reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(obt->root_idx)])->key == Py_None) {
+        Py_RETURN_NONE;
     }
+    bool is_empty = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key == Py_None;
+    if (!is_empty) {
+        PyObject* maxm = bt->root_idx;
+        while (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->right != Py_None) {
+            maxm = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->right;
+        }
+        PyObject* minm = obt->root_idx;
+        while (reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(minm)])->left != Py_None) {
+            minm = reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(minm)])->left;
+        }
 
-    if (!PyCallable_Check(bt->comparator)) {
-        PyErr_SetString(PyExc_ValueError, "comparator should be callable");
-        return NULL;
-    }
-    PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->key, reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(minm)])->key);
-    PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
-    Py_DECREF(arguments);
-    if (!PyLong_Check(cres)) {
-        PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
-        return NULL;
-    }
-    long long comp = PyLong_AsLongLong(cres);
-    if (comp == 0) {
-        PyErr_SetString(PyExc_ValueError, "Elements of existing Splay Tree aren't less than that of the new Splay tree.");
-        return NULL;
+        if (!PyCallable_Check(bt->comparator)) {
+            PyErr_SetString(PyExc_ValueError, "comparator should be callable");
+            return NULL;
+        }
+        PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->key, reinterpret_cast<TreeNode*>(obt->tree->_one_dimensional_array->_data[PyLong_AsLong(minm)])->key);
+        PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
+        Py_DECREF(arguments);
+        if (!PyLong_Check(cres)) {
+            PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
+            return NULL;
+        }
+        long long comp = PyLong_AsLongLong(cres);
+        if (comp == 0) {
+            PyErr_SetString(PyExc_ValueError, "Elements of existing Splay Tree aren't less than that of the new Splay tree.");
+            return NULL;
+        }
+
+        SplayTree_splay(self, Py_BuildValue("(OO)", maxm, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->parent));
     }
 
-    SplayTree_splay(self, Py_BuildValue("(OO)", maxm, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(maxm)])->parent));
-    long idx_update = bt->tree->_one_dimensional_array->_size;
+    long idx_update = bt->tree->_last_pos_filled + 1;
     long n = obt->tree->_one_dimensional_array->_size;
-    for (int i=0; i<n; i++) {
+    // Nodes are compared by the objects holding their positions, hence exactly one is created for each of them.
+    std::vector<PyObject*> positions;
+    for (long i=0; i<n; i++) {
+        positions.push_back(PyLong_FromLong(i + idx_update));
+    }
+    PyObject* other_root = positions[PyLong_AsLong(obt->root_idx)];
+    for (long i=0; i<n; i++) {
         PyObject* node = obt->tree->_one_dimensional_array->_data[i];
         if (node != Py_None) {
             TreeNode* treenode = reinterpret_cast<TreeNode*>(node);
@@ -201,19 +215,36 @@ static PyObject* SplayTree_join(SplayTree *self, PyObject* args) {
                 return NULL;
             }
             TreeNode* node_copy = reinterpret_cast<TreeNode*>(TreeNode___new__(&TreeNodeType, Py_BuildValue("(OO)", treenode->key, treenode->data), PyDict_New()));
+            node_copy->size = treenode->size;
             if (treenode->left != Py_None) {
-                node_copy->left = PyLong_FromLong(PyLong_AsLong(treenode->left) + idx_update);
+                node_copy->left = positions[PyLong_AsLong(treenode->left)];
             }
             if (treenode->right != Py_None) {
-                node_copy->right = PyLong_FromLong(PyLong_AsLong(treenode->right) + idx_update);
+                node_copy->right = positions[PyLong_AsLong(treenode->right)];
+            }
+            if (treenode->parent != Py_None) {
+                node_copy->parent = positions[PyLong_AsLong(treenode->parent)];
             }
             ArrayForTrees_append(bt->tree, Py_BuildValue("(O)", node_copy));
         }
         else {
+            Py_INCREF(Py_None);
             ArrayForTrees_append(bt->tree, Py_BuildValue("(O)", node));
+            bt->tree->_num -= 1;
         }
     }
-    reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = PyLong_FromLong(PyLong_AsLong(obt->root_idx) + idx_update);
+    if (is_empty) {
+        Py_INCREF(Py_None);
+        bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)] = Py_None;
+        bt->tree->_num -= 1;
+        bt->root_idx = other_root;
+    }
+    else {
+        reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = other_root;
+        reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(other_root)])->parent = bt->root_idx;
+        BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", bt->root_idx));
+    }
+    bt->size = bt->tree->_last_pos_filled + 1;
 
     Py_RETURN_NONE;
 }
-- 
2.43.0


From 01c1a3f9fc46b5152a5559739e3089b0c5e225a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:09 +0000
Subject: [PATCH 061/103] fix: splitting a C++ splay tree lost its order
 statistics, and miscounted the removed nodes

---
 pydatastructs/trees/_backend/cpp/SplayTree.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 64c371f..7e2daf1 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -295,7 +295,7 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
             PyErr_SetString(PyExc_ValueError, "comparator should be callable");
             return NULL;
     }
-    SplayTree* other = reinterpret_cast<SplayTree*>(SplayTree___new__(self->type, Py_BuildValue("(OOOO)", Py_None, Py_None, bt->comparator, PyZero), PyDict_New()));
+    SplayTree* other = reinterpret_cast<SplayTree*>(SplayTree___new__(self->type, Py_BuildValue("(OOOO)", Py_None, Py_None, bt->comparator, bt->is_order_statistic ? PyOne : PyZero), PyDict_New()));
 
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right != Py_None) {
         PyObject* elements = SplayTree__pre_order(self, Py_BuildValue("(O)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right));
@@ -306,9 +306,13 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
             tup = SelfBalancingBinaryTree_search(self->sbbt, Py_BuildValue("(O)", reinterpret_cast<TreeNode*>( PyList_GetItem(elements, j))->key), kwd_parent);
             e = PyTuple_GetItem(tup, 0);
             p = PyTuple_GetItem(tup, 1);
+            Py_INCREF(Py_None);
             bt->tree->_one_dimensional_array->_data[PyLong_AsLong(e)] = Py_None;
+            bt->tree->_num -= 1;
         }
+        Py_INCREF(Py_None);
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->right = Py_None;
+        BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", bt->root_idx));
     }
 
     return reinterpret_cast<PyObject*>(other);
-- 
2.43.0


From 4cda9fca70063d975ab5476e253fa5ba73ddd231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:28 +0000
Subject: [PATCH 062/103] fix: root_idx of C++ self-balancing, splay, Cartesian
 trees and treaps returned a reference it did not own

---
 pydatastructs/trees/_backend/cpp/CartesianTree.hpp           | 1 +
 pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp | 1 +
 pydatastructs/trees/_backend/cpp/SplayTree.hpp               | 1 +
 pydatastructs/trees/_backend/cpp/Treap.hpp                   | 1 +
 4 files changed, 4 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index 012d212..8996992 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -145,6 +145,7 @@ static PyObject* CartesianTree_delete(CartesianTree* self, PyObject *args, PyObj
 }
 
 static PyObject* CartesianTree_root_idx(CartesianTree *self, void *closure) {
+    Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
index 2f7fbf3..a82ff4d 100644
--- a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
@@ -220,6 +220,7 @@ static PyObject* SelfBalancingBinaryTree__right_left_rotate(SelfBalancingBinaryT
 }
 
 static PyObject* SelfBalancingBinaryTree_root_idx(SelfBalancingBinaryTree *self, void *closure) {
+    Py_INCREF(self->bst->binary_tree->root_idx);
     return self->bst->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index 7e2daf1..bebe3cd 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -319,6 +319,7 @@ static PyObject* SplayTree_split(SplayTree *self, PyObject* args) {
 }
 
 static PyObject* SplayTree_root_idx(SplayTree *self, void *closure) {
+    Py_INCREF(self->sbbt->bst->binary_tree->root_idx);
     return self->sbbt->bst->binary_tree->root_idx;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/Treap.hpp b/pydatastructs/trees/_backend/cpp/Treap.hpp
index 5619d27..932981f 100644
--- a/pydatastructs/trees/_backend/cpp/Treap.hpp
+++ b/pydatastructs/trees/_backend/cpp/Treap.hpp
@@ -63,6 +63,7 @@ static PyObject* Treap_insert(Treap *self, PyObject* args) {
 }
 
 static PyObject* Treap_root_idx(Treap *self, void *closure) {
+    Py_INCREF(self->ct->sbbt->bst->binary_tree->root_idx);
     return self->ct->sbbt->bst->binary_tree->root_idx;
 }
 
-- 
2.43.0


From ae44f7b7393731c904b68435a7d95ffca3025b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:44 +0000
Subject: [PATCH 063/103] fix: methods C++ AVL, red-black, splay, Cartesian
 trees and treaps inherit read another type's members

---
 pydatastructs/trees/_backend/cpp/AVLTree.hpp       | 4 +++-
 pydatastructs/trees/_backend/cpp/CartesianTree.hpp | 4 +++-
 pydatastructs/trees/_backend/cpp/RedBlackTree.hpp  | 4 +++-
 pydatastructs/trees/_backend/cpp/SplayTree.hpp     | 4 +++-
 pydatastructs/trees/_backend/cpp/Treap.hpp         | 4 +++-
 5 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/AVLTree.hpp b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
index 02e4c25..627e69d 100644
--- a/pydatastructs/trees/_backend/cpp/AVLTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/AVLTree.hpp
@@ -14,8 +14,9 @@
 
 typedef struct {
     PyObject_HEAD
-    SelfBalancingBinaryTree* sbbt;
+    BinarySearchTree* bst; // SelfBalancingBinaryTree, whose methods are inherited, starts with the same members
     ArrayForTrees* tree;
+    SelfBalancingBinaryTree* sbbt;
 } AVLTree;
 
 static void AVLTree_dealloc(AVLTree *self) {
@@ -31,6 +32,7 @@ static PyObject* AVLTree___new__(PyTypeObject* type, PyObject *args, PyObject *k
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
+    self->bst = self->sbbt->bst;
     self->tree = self->sbbt->bst->binary_tree->tree;
 
     return reinterpret_cast<PyObject*>(self);
diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index 8996992..759529a 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -14,8 +14,9 @@
 
 typedef struct {
     PyObject_HEAD
-    SelfBalancingBinaryTree* sbbt;
+    BinarySearchTree* bst; // SelfBalancingBinaryTree, whose methods are inherited, starts with the same members
     ArrayForTrees* tree;
+    SelfBalancingBinaryTree* sbbt;
 } CartesianTree;
 
 static void CartesianTree_dealloc(CartesianTree *self) {
@@ -31,6 +32,7 @@ static PyObject* CartesianTree___new__(PyTypeObject* type, PyObject *args, PyObj
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
+    self->bst = self->sbbt->bst;
     self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst->binary_tree->tree;
 
     return reinterpret_cast<PyObject*>(self);
diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 619618c..3d91a7c 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -14,8 +14,9 @@
 
 typedef struct {
     PyObject_HEAD
-    SelfBalancingBinaryTree* sbbt;
+    BinarySearchTree* bst; // SelfBalancingBinaryTree, whose methods are inherited, starts with the same members
     ArrayForTrees* tree;
+    SelfBalancingBinaryTree* sbbt;
 } RedBlackTree;
 
 static void RedBlackTree_dealloc(RedBlackTree *self) {
@@ -31,6 +32,7 @@ static PyObject* RedBlackTree___new__(PyTypeObject* type, PyObject *args, PyObje
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
+    self->bst = self->sbbt->bst;
     self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst->binary_tree->tree;
     reinterpret_cast<TreeNode*>(self->tree->_one_dimensional_array->_data[0])->color = 0;
 
diff --git a/pydatastructs/trees/_backend/cpp/SplayTree.hpp b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
index bebe3cd..76f58e3 100644
--- a/pydatastructs/trees/_backend/cpp/SplayTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SplayTree.hpp
@@ -16,8 +16,9 @@
 
 typedef struct {
     PyObject_HEAD
-    SelfBalancingBinaryTree* sbbt;
+    BinarySearchTree* bst; // SelfBalancingBinaryTree, whose methods are inherited, starts with the same members
     ArrayForTrees* tree;
+    SelfBalancingBinaryTree* sbbt;
     PyTypeObject* type;
 } SplayTree;
 
@@ -34,6 +35,7 @@ static PyObject* SplayTree___new__(PyTypeObject* type, PyObject *args, PyObject
     }
     PyObject* p = SelfBalancingBinaryTree___new__(&SelfBalancingBinaryTreeType, args, kwds);
     self->sbbt = reinterpret_cast<SelfBalancingBinaryTree*>(p);
+    self->bst = self->sbbt->bst;
     self->tree = reinterpret_cast<SelfBalancingBinaryTree*>(p)->bst->binary_tree->tree;
     self->type = type;
 
diff --git a/pydatastructs/trees/_backend/cpp/Treap.hpp b/pydatastructs/trees/_backend/cpp/Treap.hpp
index 932981f..617d0ed 100644
--- a/pydatastructs/trees/_backend/cpp/Treap.hpp
+++ b/pydatastructs/trees/_backend/cpp/Treap.hpp
@@ -15,8 +15,9 @@
 
 typedef struct {
     PyObject_HEAD
-    CartesianTree* ct;
+    BinarySearchTree* bst; // SelfBalancingBinaryTree, whose methods are inherited, starts with the same members
     ArrayForTrees* tree;
+    CartesianTree* ct;
 } Treap;
 
 static void Treap_dealloc(Treap *self) {
@@ -32,6 +33,7 @@ static PyObject* Treap___new__(PyTypeObject* type, PyObject *args, PyObject *kwd
     }
     PyObject* p = CartesianTree___new__(&CartesianTreeType, args, kwds);
     self->ct = reinterpret_cast<CartesianTree*>(p);
+    self->bst = self->ct->bst;
     self->tree = reinterpret_cast<CartesianTree*>(p)->sbbt->bst->binary_tree->tree;
 
     return reinterpret_cast<PyObject*>(self);
-- 
2.43.0


From 64d235057eccae5d4bd198e0a7f8690430f47093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:32 +0000
Subject: [PATCH 064/103] fix: re-inserting a key into a Cartesian tree broke
 the heap order and lost the subtree size

---
 pydatastructs/trees/binary_trees.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 010403a..76efd38 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -834,6 +834,22 @@ class CartesianTree(SelfBalancingBinaryTree):
         if node.parent is None:
             self.tree[node_idx].is_root = True
 
+    def _bubble_down(self, node_idx):
+        node = self.tree[node_idx]
+        while True:
+            left, right = node.left, node.right
+            if left is not None and \
+                self.tree[left].priority < node.priority and \
+                (right is None or not
+                 self.tree[right].priority < self.tree[left].priority):
+                self._right_rotate(node_idx, left)
+            elif right is not None and \
+                self.tree[right].priority < node.priority:
+                self._left_rotate(node_idx, right)
+            else:
+                break
+            node.is_root = False
+
     def _trickle_down(self, node_idx):
         node = self.tree[node_idx]
         while node.left is not None or node.right is not None:
@@ -855,11 +871,13 @@ class CartesianTree(SelfBalancingBinaryTree):
         new_node.parent = node.parent
         new_node.left = node.left
         new_node.right = node.right
+        new_node.size = node.size
         self.tree[node_idx] = new_node
-        if node.is_root:
+        if node.parent is None:
             self.tree[node_idx].is_root = True
         else:
             self._bubble_up(node_idx)
+        self._bubble_down(node_idx)
 
     def delete(self, key, **kwargs):
         balancing_info = kwargs.get('balancing_info', False)
-- 
2.43.0


From 0209ff01e01207d4e5d92c94aa942cdbed4ba82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:32 +0000
Subject: [PATCH 065/103] fix: re-inserting a key into a C++ Cartesian tree or
 treap broke the heap order and lost the subtree size

---
 .../trees/_backend/cpp/CartesianTree.hpp      | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
index 759529a..6cd0f4f 100644
--- a/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/CartesianTree.hpp
@@ -94,6 +94,28 @@ static PyObject* Cartesian_Tree__trickle_down(CartesianTree* self, PyObject *arg
     Py_RETURN_NONE;
 }
 
+static PyObject* Cartesian_Tree__bubble_down(CartesianTree* self, PyObject *args) {
+    PyObject* node_idx = PyObject_GetItem(args, PyZero);
+    BinaryTree* bt = self->sbbt->bst->binary_tree;
+    TreeNode* node = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)]);
+    while (true) {
+        PyObject* left = node->left;
+        PyObject* right = node->right;
+        if (left != Py_None && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(left)])->priority < node->priority &&
+            (right == Py_None || !(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(right)])->priority < reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(left)])->priority))) {
+            SelfBalancingBinaryTree__right_rotate(self->sbbt, Py_BuildValue("OO", node_idx, left));
+        }
+        else if (right != Py_None && reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(right)])->priority < node->priority) {
+            SelfBalancingBinaryTree__left_rotate(self->sbbt, Py_BuildValue("OO", node_idx, right));
+        }
+        else {
+            break;
+        }
+        node->is_root = false;
+    }
+    Py_RETURN_NONE;
+}
+
 static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
     Py_INCREF(Py_None);
     PyObject* key = Py_None;
@@ -118,13 +140,15 @@ static PyObject* CartesianTree_insert(CartesianTree *self, PyObject* args) {
     new_node->parent = node->parent;
     new_node->left = node->left;
     new_node->right = node->right;
+    new_node->size = node->size;
     bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)] = reinterpret_cast<PyObject*>(new_node);
-    if (node->is_root) {
+    if (node->parent == Py_None) {
         reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->is_root = true;
     }
     else {
         Cartesian_Tree__bubble_up(self, Py_BuildValue("(O)", node_idx));
     }
+    Cartesian_Tree__bubble_down(self, Py_BuildValue("(O)", node_idx));
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From b7336edad81102b94abf10b085cd5a8f1e4288b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 066/103] fix: select on an empty order statistic tree did not
 raise a ValueError

---
 pydatastructs/trees/binary_trees.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 76efd38..4fdedeb 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -491,9 +491,11 @@ class BinarySearchTree(BinaryTree):
         i -= 1 # The algorithm is based on zero indexing
         if i < 0:
             raise ValueError("Expected a positive integer, got %d"%(i + 1))
-        if i >= self.tree._num:
+        size = 0 if self.tree[self.root_idx].key is None \
+                    else self.tree._num
+        if i >= size:
             raise ValueError("%d is greater than the size of the "
-                "tree which is, %d"%(i + 1, self.tree._num))
+                "tree which is, %d"%(i + 1, size))
         walk = self.root_idx
         while walk is not None:
             l = self.left_size(self.tree[walk])
-- 
2.43.0


From 56c718193028a9ba2c85ebb52969343e457fe6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 067/103] fix: lowest common ancestors were wrong when a key
 was at the root or the root was not stored first

---
 pydatastructs/trees/binary_trees.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 4fdedeb..6f4fd3f 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -571,18 +571,18 @@ class BinarySearchTree(BinaryTree):
             if self.tree[node].key == key:
                 node_idx = node
                 break
-            if self.tree[node].left:
+            if self.tree[node].left is not None:
                 stack.push(self.tree[node].left)
-            if self.tree[node].right:
+            if self.tree[node].right is not None:
                 stack.push(self.tree[node].right)
 
         if node_idx == -1:
             return path
 
-        while node_idx != 0:
+        while node_idx != root:
             path.append(node_idx)
             node_idx = self.tree[node_idx].parent
-        path.append(0)
+        path.append(root)
         path.reverse()
 
         return path
@@ -602,7 +602,7 @@ class BinarySearchTree(BinaryTree):
                 return self.tree[path1[i - 1]].key
             i += 1
             j += 1
-        if path1 < path2:
+        if n < m:
             return self.tree[path1[-1]].key
         return self.tree[path2[-1]].key
 
@@ -612,6 +612,8 @@ class BinarySearchTree(BinaryTree):
         if (u is None) or (v is None):
             raise ValueError("One of the nodes with key %s "
                              "or %s doesn't exits"%(j, k))
+        if curr_root == u or curr_root == v:
+            return self.tree[curr_root].key
         u_left = self.comparator(self.tree[u].key, \
             self.tree[curr_root].key)
         v_left = self.comparator(self.tree[v].key, \
-- 
2.43.0


From 6acda08311af45e36c5381de9158b6540b3b6298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 068/103] fix: rotations of self-balancing trees left stale
 subtree sizes, so rank and select were wrong

---
 pydatastructs/trees/binary_trees.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index 6f4fd3f..a870308 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -714,6 +714,13 @@ class SelfBalancingBinaryTree(BinarySearchTree):
         kp = self.tree[k].parent
         if kp is None:
             self.root_idx = k
+        self._update_rotated_sizes(j, k)
+
+    def _update_rotated_sizes(self, *indices):
+        if self.is_order_statistic:
+            for idx in indices:
+                self.tree[idx].size = (self.left_size(self.tree[idx]) +
+                                       self.right_size(self.tree[idx]) + 1)
 
     def _left_right_rotate(self, j, k):
         i = self.tree[k].right
@@ -734,6 +741,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
                 self.tree[ip].right = i
         else:
             self.root_idx = i
+        self._update_rotated_sizes(j, k, i)
 
     def _right_left_rotate(self, j, k):
         i = self.tree[k].left
@@ -754,6 +762,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
                 self.tree[ip].right = i
         else:
             self.root_idx = i
+        self._update_rotated_sizes(j, k, i)
 
     def _left_rotate(self, j, k):
         y = self.tree[k].left
@@ -771,6 +780,7 @@ class SelfBalancingBinaryTree(BinarySearchTree):
         kp = self.tree[k].parent
         if kp is None:
             self.root_idx = k
+        self._update_rotated_sizes(j, k)
 
 class CartesianTree(SelfBalancingBinaryTree):
     """
-- 
2.43.0


From 5664fb574d2228e7a0669855473493b24b917836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 069/103] fix: red-black trees lost subtree sizes on insertion
 and deletion at the root

---
 pydatastructs/trees/binary_trees.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index a870308..ff64cc8 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -1390,6 +1390,7 @@ class RedBlackTree(SelfBalancingBinaryTree):
         new_node.parent = node.parent
         new_node.left = node.left
         new_node.right = node.right
+        new_node.size = node.size
         self.tree[node_idx] = new_node
         if node.is_root:
             self.tree[node_idx].is_root = True
@@ -1563,6 +1564,7 @@ class RedBlackTree(SelfBalancingBinaryTree):
             new_indices = self.tree.delete(node_idx1)
             if new_indices is not None:
                 self.root_idx = new_indices[root_key]
+            self._update_size(self.root_idx)
 
     def __leaf_case(self, node_idx, node_idx1):
         walk = node_idx
-- 
2.43.0


From 93ed1a3538096fb4ae658dad37dfb0b5e760429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:04 +0000
Subject: [PATCH 070/103] fix: C++ bounds and lowest common ancestors compared
 keys by identity, were wrong at the root and returned references they did not
 own

---
 .../trees/_backend/cpp/BinarySearchTree.hpp   | 65 +++++++++++--------
 .../_backend/cpp/SelfBalancingBinaryTree.hpp  |  4 +-
 2 files changed, 39 insertions(+), 30 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 5b83d04..8c8d602 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -363,8 +363,13 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
     if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key == Py_None) {
         Py_RETURN_NONE;
     }
-    if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key == bound_key) {
+    int is_equal = PyObject_RichCompareBool(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key, bound_key, Py_EQ);
+    if (is_equal < 0) {
+        return NULL;
+    }
+    if (is_equal) {
         if (is_upper == Py_False) {
+            Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key);
             return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key;
         }
         else {
@@ -394,6 +399,7 @@ static PyObject* BinarySearchTree__bound_helper(BinarySearchTree* self, PyObject
             return res_bound;
         }
         else {
+            Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key);
             return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)])->key;
         }
     }
@@ -421,7 +427,11 @@ static PyObject* BinarySearchTree__simple_path(BinarySearchTree* self, PyObject
     while (!stack.empty()) {
         long node = stack.top();
         stack.pop();
-        if (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node])->key == key) {
+        int is_equal = PyObject_RichCompareBool(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node])->key, key, Py_EQ);
+        if (is_equal < 0) {
+            return NULL;
+        }
+        if (is_equal) {
             node_idx = node;
             break;
         }
@@ -435,49 +445,42 @@ static PyObject* BinarySearchTree__simple_path(BinarySearchTree* self, PyObject
     if (node_idx == -1) {
         return path;
     }
-    while (node_idx != 0) {
+    while (node_idx != PyLong_AsLong(root)) {
         PyList_Append(path, PyLong_FromLong(node_idx));
         node_idx = PyLong_AsLong(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[node_idx])->parent);
     }
-    PyList_Append(path, PyLong_FromLong(0));
+    PyList_Append(path, root);
     PyList_Reverse(path);
     return path;
 }
 
 static PyObject* BinarySearchTree__lca_1(BinarySearchTree* self, PyObject* args) {
-    long j = PyLong_AsLong(PyObject_GetItem(args, PyZero));
-    long k = PyLong_AsLong(PyObject_GetItem(args, PyOne));
+    PyObject* j = PyObject_GetItem(args, PyZero);
+    PyObject* k = PyObject_GetItem(args, PyOne);
     BinaryTree* bt = self->binary_tree;
     PyObject* root = bt->root_idx;
-    PyObject* path1 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",PyLong_FromLong(j),root));
-    PyObject* path2 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)",PyLong_FromLong(k),root));
-    long n = PyLong_AsLong(PyLong_FromSsize_t(PyList_Size(path1)));
-    long m = PyLong_AsLong(PyLong_FromSsize_t(PyList_Size(path2)));
+    PyObject* path1 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)", j, root));
+    if (!path1) {
+        return NULL;
+    }
+    PyObject* path2 = BinarySearchTree__simple_path(self, Py_BuildValue("(OO)", k, root));
+    if (!path2) {
+        return NULL;
+    }
+    long n = PyList_Size(path1);
+    long m = PyList_Size(path2);
     if (n==0 || m==0) {
         PyErr_SetString(PyExc_ValueError, "One of the two paths doesn't exist.");
         return NULL;
     }
+    // The ancestor is the last node common to the two paths, which both start with the root
     long i = 0;
-    j = 0;
-    while (i<n && j<m) {
-        if (PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i))) != PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(j)))) {
-            return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i-1))))])->key;
-        }
+    while (i<n && i<m && PyLong_AsLong(PyList_GetItem(path1, i)) == PyLong_AsLong(PyList_GetItem(path2, i))) {
         i += 1;
-        j += 1;
     }
-
-    while (i<n && j<m) {
-        if (PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i))) < PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(j)))) {
-            return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(n-1))))])->key;
-        }
-        else if (PyList_GetItem(path1, PyLong_AsSsize_t(PyLong_FromLong(i))) > PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(j)))) {
-            break;
-        }
-        i += 1;
-        j += 1;
-    }
-    return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path2, PyLong_AsSsize_t(PyLong_FromLong(m-1))))])->key;
+    PyObject* key = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(PyList_GetItem(path1, i-1))])->key;
+    Py_INCREF(key);
+    return key;
 }
 
 static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args) {
@@ -493,6 +496,10 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
         PyErr_SetString(PyExc_ValueError, "One of the nodes doesn't exist.");
         return NULL;
     }
+    if (PyLong_AsLong(curr_root) == PyLong_AsLong(u) || PyLong_AsLong(curr_root) == PyLong_AsLong(v)) {
+        Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
+        return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key;
+    }
 
     if (!PyCallable_Check(bt->comparator)) {
         PyErr_SetString(PyExc_ValueError, "comparator should be callable");
@@ -532,6 +539,7 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
             if (curr_root == Py_None) {
                 Py_RETURN_NONE;
             }
+            Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
             return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key;
         }
 
@@ -565,6 +573,7 @@ static PyObject* BinarySearchTree__lca_2(BinarySearchTree* self, PyObject* args)
     if (curr_root == Py_None) {
         Py_RETURN_NONE;
     }
+    Py_INCREF(reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key);
     return reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(curr_root)])->key;
 }
 
diff --git a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
index a82ff4d..b96f35f 100644
--- a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
@@ -64,11 +64,11 @@ static PyObject* SelfBalancingBinaryTree__simple_path(SelfBalancingBinaryTree* s
 }
 
 static PyObject* SelfBalancingBinaryTree__lca_1(SelfBalancingBinaryTree* self, PyObject *args) {
-    return BinarySearchTree__simple_path(self->bst, args);
+    return BinarySearchTree__lca_1(self->bst, args);
 }
 
 static PyObject* SelfBalancingBinaryTree__lca_2(SelfBalancingBinaryTree* self, PyObject *args) {
-    return BinarySearchTree__simple_path(self->bst, args);
+    return BinarySearchTree__lca_2(self->bst, args);
 }
 
 static PyObject* SelfBalancingBinaryTree_lowest_common_ancestor(SelfBalancingBinaryTree* self, PyObject *args) {
-- 
2.43.0


From 6f5825db1e1e1ca7316528f0b06f2d412d09af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 071/103] fix: C++ rank and select compared keys by identity,
 read absent children and returned references they did not own

---
 .../trees/_backend/cpp/BinarySearchTree.hpp   | 49 +++----------------
 1 file changed, 8 insertions(+), 41 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
index 8c8d602..b945615 100644
--- a/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinarySearchTree.hpp
@@ -603,9 +603,10 @@ static PyObject* BinarySearchTree_rank(BinarySearchTree* self, PyObject* args) {
     }
     BinaryTree* bt = self->binary_tree;
     long r = BinarySearchTree_left_size(self, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])) + 1;
-    while (reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key != reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key) {
+    while (PyLong_AsLong(walk) != PyLong_AsLong(bt->root_idx)) {
         PyObject* p = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->parent;
-        if (walk == reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->right) {
+        PyObject* right = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])->right;
+        if (right != Py_None && PyLong_AsLong(walk) == PyLong_AsLong(right)) {
             r = r + BinarySearchTree_left_size(self, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(p)])) + 1;
         }
         walk = p;
@@ -621,7 +622,8 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
         return NULL;
     }
     BinaryTree* bt = self->binary_tree;
-    if (i >= bt->tree->_num) {
+    long size = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(bt->root_idx)])->key == Py_None ? 0 : bt->tree->_num;
+    if (i >= size) {
         PyErr_SetString(PyExc_ValueError, "Integer passed to select() is greater than the size of the tree.");
         return NULL;
     }
@@ -629,6 +631,7 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
     while (walk != Py_None) {
         long l = BinarySearchTree_left_size(self, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)]));
         if (i == l) {
+            Py_INCREF(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)]);
             return bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)];
         }
         PyObject* left_walk = reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->left;
@@ -638,46 +641,10 @@ static PyObject* BinarySearchTree_select(BinarySearchTree* self, PyObject* args)
             return NULL;
         }
         if (i < l) {
-            if (!PyCallable_Check(bt->comparator)) {
-                PyErr_SetString(PyExc_ValueError, "comparator should be callable");
-                return NULL;
-            }
-            PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(left_walk)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key);
-            PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
-            Py_DECREF(arguments);
-            if (!PyLong_Check(cres)) {
-                PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
-                return NULL;
-            }
-            long long comp = PyLong_AsLongLong(cres);
-
-            if (left_walk != Py_None && comp) {
-                walk = left_walk;
-            }
-            else {
-                walk = right_walk;
-            }
+            walk = left_walk;
         }
         else {
-            if (!PyCallable_Check(bt->comparator)) {
-                PyErr_SetString(PyExc_ValueError, "comparator should be callable");
-                return NULL;
-            }
-            PyObject* arguments = Py_BuildValue("(OO)", reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(right_walk)])->key, reinterpret_cast<TreeNode*>(bt->tree->_one_dimensional_array->_data[PyLong_AsLong(walk)])->key);
-            PyObject* cres = PyObject_CallObject(bt->comparator, arguments);
-            Py_DECREF(arguments);
-            if (!PyLong_Check(cres)) {
-                PyErr_SetString(PyExc_TypeError, "bad return type from comparator");
-                return NULL;
-            }
-            long long comp = PyLong_AsLongLong(cres);
-
-            if (right_walk != Py_None && (!comp)) {
-                walk = right_walk;
-            }
-            else {
-                walk = left_walk;
-            }
+            walk = right_walk;
             i = i - (l + 1);
         }
     }
-- 
2.43.0


From 52c39e16cbb21176886dff6c1681fe152b42e72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 072/103] fix: rotations of C++ self-balancing trees left stale
 subtree sizes, so rank and select were wrong

---
 .../_backend/cpp/SelfBalancingBinaryTree.hpp    | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
index b96f35f..0174aef 100644
--- a/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/SelfBalancingBinaryTree.hpp
@@ -83,6 +83,13 @@ static PyObject* SelfBalancingBinaryTree_select(SelfBalancingBinaryTree* self, P
     return BinarySearchTree_select(self->bst, args);
 }
 
+static void SelfBalancingBinaryTree__update_rotated_size(SelfBalancingBinaryTree* self, PyObject* idx) {
+    if (self->bst->binary_tree->is_order_statistic) {
+        TreeNode* node = reinterpret_cast<TreeNode*>(self->bst->binary_tree->tree->_one_dimensional_array->_data[PyLong_AsLong(idx)]);
+        node->size = BinarySearchTree_left_size(self->bst, node) + BinarySearchTree_right_size(self->bst, node) + 1;
+    }
+}
+
 static PyObject* SelfBalancingBinaryTree__right_rotate(SelfBalancingBinaryTree* self, PyObject *args) {
     PyObject* j = PyObject_GetItem(args, PyZero);
     PyObject* k = PyObject_GetItem(args, PyOne);
@@ -107,6 +114,8 @@ static PyObject* SelfBalancingBinaryTree__right_rotate(SelfBalancingBinaryTree*
     if (kp == Py_None) {
         bt->root_idx = k;
     }
+    SelfBalancingBinaryTree__update_rotated_size(self, j);
+    SelfBalancingBinaryTree__update_rotated_size(self, k);
     Py_RETURN_NONE;
 }
 
@@ -134,6 +143,8 @@ static PyObject* SelfBalancingBinaryTree__left_rotate(SelfBalancingBinaryTree* s
     if (kp == Py_None) {
         bt->root_idx = k;
     }
+    SelfBalancingBinaryTree__update_rotated_size(self, j);
+    SelfBalancingBinaryTree__update_rotated_size(self, k);
     Py_RETURN_NONE;
 }
 
@@ -175,6 +186,9 @@ static PyObject* SelfBalancingBinaryTree__left_right_rotate(SelfBalancingBinaryT
     else {
         bt->root_idx = i;
     }
+    SelfBalancingBinaryTree__update_rotated_size(self, j);
+    SelfBalancingBinaryTree__update_rotated_size(self, k);
+    SelfBalancingBinaryTree__update_rotated_size(self, i);
     Py_RETURN_NONE;
 }
 
@@ -216,6 +230,9 @@ static PyObject* SelfBalancingBinaryTree__right_left_rotate(SelfBalancingBinaryT
     else {
         bt->root_idx = i;
     }
+    SelfBalancingBinaryTree__update_rotated_size(self, j);
+    SelfBalancingBinaryTree__update_rotated_size(self, k);
+    SelfBalancingBinaryTree__update_rotated_size(self, i);
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 8a08e7cf8b72261611fa6585981cdfc4cc8eedf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 073/103] fix: C++ red-black trees lost subtree sizes on
 insertion and deletion at the root

---
 pydatastructs/trees/_backend/cpp/RedBlackTree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
index 3d91a7c..28422c1 100644
--- a/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/RedBlackTree.hpp
@@ -181,6 +181,7 @@ static PyObject* RedBlackTree_insert(RedBlackTree *self, PyObject* args) {
     new_node->parent = node->parent;
     new_node->left = node->left;
     new_node->right = node->right;
+    new_node->size = node->size;
     bt->tree->_one_dimensional_array->_data[PyLong_AsLong(node_idx)] = reinterpret_cast<PyObject*>(new_node);
 
     if (node->is_root) {
@@ -477,6 +478,7 @@ static PyObject* RedBlackTree__delete_root(RedBlackTree* self, PyObject *args) {
         if (new_indices != Py_None) {
             bt->root_idx = PyDict_GetItem(new_indices, root_key);
         }
+        BinarySearchTree__update_size(self->sbbt->bst, Py_BuildValue("(O)", bt->root_idx));
     }
     Py_RETURN_NONE;
 }
-- 
2.43.0


From 7c9ae5cd202f6111dc55bf6c7f9604c561ff1f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:18 +0000
Subject: [PATCH 074/103] fix: deallocating a C++ binary tree traversal
 released the tree it was made for

---
 pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
index b430706..88fccea 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryTreeTraversal.hpp
@@ -22,10 +22,11 @@
 typedef struct {
     PyObject_HEAD
     BinaryTree* tree;
+    PyObject* owner; // the object which tree belongs to
 } BinaryTreeTraversal;
 
 static void BinaryTreeTraversal_dealloc(BinaryTreeTraversal *self) {
-    BinaryTree_dealloc(self->tree);
+    Py_XDECREF(self->owner);
     Py_TYPE(self)->tp_free(reinterpret_cast<PyObject*>(self));
 }
 
@@ -75,6 +76,8 @@ static PyObject* BinaryTreeTraversal___new__(PyTypeObject* type, PyObject *args,
         PyErr_SetString(PyExc_ValueError, "Not a supported type for BinaryTreeTraversal.");
         return NULL;
     }
+    Py_INCREF(tree);
+    self->owner = tree;
     return reinterpret_cast<PyObject*>(self);
 }
 
-- 
2.43.0


From 236f018e4f14174ef0d92a24d870fe39feba571d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:03 +0000
Subject: [PATCH 075/103] fix: C++ BinaryIndexedTree handles floats and
 integers beyond a machine word

---
 .../trees/_backend/cpp/BinaryIndexedTree.hpp  | 71 +++++++++++++------
 1 file changed, 49 insertions(+), 22 deletions(-)

diff --git a/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp b/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
index 39957fa..04291a9 100644
--- a/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
+++ b/pydatastructs/trees/_backend/cpp/BinaryIndexedTree.hpp
@@ -26,28 +26,38 @@ static void BinaryIndexedTree_dealloc(BinaryIndexedTree *self) {
 
 static PyObject* BinaryIndexedTree_update(BinaryIndexedTree* self, PyObject *args) {
     long index = PyLong_AsLong(PyObject_GetItem(args, PyZero));
-    long value = PyLong_AsLong(PyObject_GetItem(args, PyOne));
+    PyObject* _value = PyObject_GetItem(args, PyOne);
+    if (!_value) {
+        return NULL;
+    }
+    PyObject* value = _value;
     long _index = index;
-    long _value = value;
     if (PyList_GetItem(self->flag, index) == PyZero) {
         PyList_SetItem(self->flag, index, PyOne);
-        index += 1;
-        while (index < self->array->_size + 1) {
-            long curr = PyLong_AsLong(PyList_GetItem(self->tree, index));
-            PyList_SetItem(self->tree, index, PyLong_FromLong(curr + value));
-            index = index + (index & (-1*index));
-        }
+        Py_INCREF(value);
     }
     else {
-        value = value - PyLong_AsLong(self->array->_data[index]);
-        index += 1;
-        while (index < self->array->_size + 1) {
-            long curr = PyLong_AsLong(PyList_GetItem(self->tree, index));
-            PyList_SetItem(self->tree, index, PyLong_FromLong(curr + value));
-            index = index + (index & (-1*index));
+        value = PyNumber_Subtract(value, self->array->_data[index]);
+        if (!value) {
+            Py_DECREF(_value);
+            return NULL;
+        }
+    }
+    index += 1;
+    while (index < self->array->_size + 1) {
+        PyObject* sum = PyNumber_Add(PyList_GetItem(self->tree, index), value);
+        if (!sum) {
+            Py_DECREF(value);
+            Py_DECREF(_value);
+            return NULL;
         }
+        PyList_SetItem(self->tree, index, sum);
+        index = index + (index & (-1*index));
     }
-    self->array->_data[_index] = PyLong_FromLong(_value);
+    Py_DECREF(value);
+    PyObject* old_value = self->array->_data[_index];
+    self->array->_data[_index] = _value;
+    Py_DECREF(old_value);
     Py_RETURN_NONE;
 }
 
@@ -72,7 +82,9 @@ static PyObject* BinaryIndexedTree___new__(PyTypeObject* type, PyObject *args, P
     self->flag = PyList_New(self->array->_size);
     for(int i=0;i<self->array->_size;i++) {
         PyList_SetItem(self->flag, i, PyZero);
-        BinaryIndexedTree_update(self, Py_BuildValue("(OO)", PyLong_FromLong(i), self->array->_data[i]));
+        if (!BinaryIndexedTree_update(self, Py_BuildValue("(OO)", PyLong_FromLong(i), self->array->_data[i]))) {
+            return NULL;
+        }
     }
 
     return reinterpret_cast<PyObject*>(self);
@@ -81,22 +93,37 @@ static PyObject* BinaryIndexedTree___new__(PyTypeObject* type, PyObject *args, P
 static PyObject* BinaryIndexedTree_get_prefix_sum(BinaryIndexedTree* self, PyObject *args) {
     long index = PyLong_AsLong(PyObject_GetItem(args, PyZero));
     index += 1;
-    long sum = 0;
+    PyObject* sum = PyLong_FromLong(0);
     while (index > 0) {
-        sum += PyLong_AsLong(PyList_GetItem(self->tree, index));
+        PyObject* new_sum = PyNumber_Add(sum, PyList_GetItem(self->tree, index));
+        Py_DECREF(sum);
+        if (!new_sum) {
+            return NULL;
+        }
+        sum = new_sum;
         index = index - (index & (-1*index));
     }
 
-    return PyLong_FromLong(sum);
+    return sum;
 }
 
 static PyObject* BinaryIndexedTree_get_sum(BinaryIndexedTree* self, PyObject *args) {
     long left_index = PyLong_AsLong(PyObject_GetItem(args, PyZero));
     long right_index = PyLong_AsLong(PyObject_GetItem(args, PyOne));
     if (left_index >= 1) {
-        long l1 = PyLong_AsLong(BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(right_index))));
-        long l2 = PyLong_AsLong(BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(left_index - 1))));
-        return PyLong_FromLong(l1 - l2);
+        PyObject* l1 = BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(right_index)));
+        if (!l1) {
+            return NULL;
+        }
+        PyObject* l2 = BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(left_index - 1)));
+        if (!l2) {
+            Py_DECREF(l1);
+            return NULL;
+        }
+        PyObject* difference = PyNumber_Subtract(l1, l2);
+        Py_DECREF(l1);
+        Py_DECREF(l2);
+        return difference;
     }
     else {
         return BinaryIndexedTree_get_prefix_sum(self, Py_BuildValue("(O)", PyLong_FromLong(right_index)));
-- 
2.43.0


From ec607c9481e62320418bf30f8c76c0af82c07f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:13 +0000
Subject: [PATCH 076/103] fix: OneDimensionalSegmentTree accepts tuples and
 sets of intervals and no interval

---
 pydatastructs/trees/space_partitioning_trees.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/trees/space_partitioning_trees.py b/pydatastructs/trees/space_partitioning_trees.py
index f13c1f2..89cddc4 100644
--- a/pydatastructs/trees/space_partitioning_trees.py
+++ b/pydatastructs/trees/space_partitioning_trees.py
@@ -57,10 +57,7 @@ class OneDimensionalSegmentTree(object):
         if any((not isinstance(seg, (tuple, list, set)) or len(seg) != 2)
                 for seg in segs):
                     raise ValueError('%s is invalid set of intervals'%(segs))
-        for i in range(len(segs)):
-            segs[i] = list(segs[i])
-            segs[i].sort()
-        obj.segments = list(segs)
+        obj.segments = [sorted(seg) for seg in segs]
         obj.tree, obj.root_idx, obj.cache = [], None, False
         return obj
 
@@ -141,6 +138,9 @@ class OneDimensionalSegmentTree(object):
         for segment in self.segments:
             endpoints.extend(segment)
         endpoints.sort()
+        if not endpoints:
+            self.cache = True
+            return None
 
         elem_int = Queue()
         elem_int.append(TreeNode([False, endpoints[0] - 1, endpoints[0], False], None))
@@ -214,6 +214,8 @@ class OneDimensionalSegmentTree(object):
         """
         if not self.cache:
             self.build()
+        if not self.tree:
+            return set()
         if init_node is None:
             init_node = self.root_idx
         qn = TreeNode([True, qx, qx, True], None)
-- 
2.43.0


From 2c920537887af8bb3ef28b43c5589c4caf3e3f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:10 +0000
Subject: [PATCH 077/103] fix: Multiset.remove of a value never added changes
 nothing instead of raising

---
 pydatastructs/miscellaneous_data_structures/multiset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/miscellaneous_data_structures/multiset.py b/pydatastructs/miscellaneous_data_structures/multiset.py
index 3979782..802c291 100644
--- a/pydatastructs/miscellaneous_data_structures/multiset.py
+++ b/pydatastructs/miscellaneous_data_structures/multiset.py
@@ -20,7 +20,7 @@ class Multiset:
             self.tree.insert(element)
 
     def remove(self, element):
-        if self.counter[element] == 1:
+        if self.counter.get(element, 0) == 1:
             self.tree.delete(element)
         if self.counter.get(element, 0) > 0:
             self._n -= 1
-- 
2.43.0


From d636e70be271dfe0af8764e657d36594164d4b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:16 +0000
Subject: [PATCH 078/103] fix: rabin_karp verifies a hash match against the
 text

---
 pydatastructs/strings/algorithms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/strings/algorithms.py b/pydatastructs/strings/algorithms.py
index 1e26b94..f43ea83 100644
--- a/pydatastructs/strings/algorithms.py
+++ b/pydatastructs/strings/algorithms.py
@@ -161,7 +161,8 @@ def _rabin_karp(text, query):
         text_hash[i+1] = (text_hash[i] + ord(text[i]) * p_pow[i]) % MOD
     for i in range(t - q + 1):
         curr_hash = (text_hash[i + q] + MOD - text_hash[i]) % MOD
-        if curr_hash == (query_hash * p_pow[i]) % MOD:
+        if curr_hash == (query_hash * p_pow[i]) % MOD and \
+                text[i:i + q] == query:
             positions.append(i)
 
     return positions
-- 
2.43.0


From 32c9f046eef7056604a0cc81605ab57305cdabb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:40 +0000
Subject: [PATCH 079/103] fix: z_function search finds occurrences followed by
 the separator character

---
 pydatastructs/strings/algorithms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/strings/algorithms.py b/pydatastructs/strings/algorithms.py
index f43ea83..26f8996 100644
--- a/pydatastructs/strings/algorithms.py
+++ b/pydatastructs/strings/algorithms.py
@@ -241,8 +241,8 @@ def _z_function(text, query):
         return positions
 
     fct = _z_vector(text, query)
-    for pos in range(len(fct)):
-        if fct[pos] == len(query):
+    for pos in range(fct._last_pos_filled + 1):
+        if fct[pos] >= len(query):
             positions.append(pos)
 
     return positions
-- 
2.43.0


From 3e8a19ff1342620d59564d9137cf4a0b6fd60727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:34 +0000
Subject: [PATCH 080/103] fix: Trie.strings_with_prefix lists the whole prefix,
 not its last character

---
 pydatastructs/strings/trie.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/strings/trie.py b/pydatastructs/strings/trie.py
index cdf6666..0fb23c1 100644
--- a/pydatastructs/strings/trie.py
+++ b/pydatastructs/strings/trie.py
@@ -195,7 +195,7 @@ class Trie(object):
                 return strings
             prefix += char
         if walk.is_terminal:
-            strings.append(walk.char)
+            strings.append(prefix)
         for child in walk._children:
             _collect(prefix, walk.get_child(child), strings)
         return strings
-- 
2.43.0


From 82cdd402869eb313301decf4493bc57507106ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 081/103] fix: AdjacencyMatrix.num_edges does not count removed
 edges

---
 pydatastructs/graphs/adjacency_matrix.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/adjacency_matrix.py b/pydatastructs/graphs/adjacency_matrix.py
index 9c2326b..a748869 100644
--- a/pydatastructs/graphs/adjacency_matrix.py
+++ b/pydatastructs/graphs/adjacency_matrix.py
@@ -48,7 +48,8 @@ class AdjacencyMatrix(Graph):
         return len(self.vertices)
 
     def num_edges(self):
-        return sum(len(v) for v in self.matrix.values())
+        return sum(sum(1 for presence in row.values() if presence)
+                   for row in self.matrix.values())
 
     def neighbors(self, node):
         node = str(node)
-- 
2.43.0


From d0d6ff76e0381c73d6c1abdf2bf5b1851e953754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 082/103] fix: AdjacencyList.remove_vertex drops the data of
 the removed edges

---
 pydatastructs/graphs/adjacency_list.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydatastructs/graphs/adjacency_list.py b/pydatastructs/graphs/adjacency_list.py
index bd901b3..eb74513 100644
--- a/pydatastructs/graphs/adjacency_list.py
+++ b/pydatastructs/graphs/adjacency_list.py
@@ -66,6 +66,10 @@ class AdjacencyList(Graph):
             if hasattr(node_obj, name):
                 delattr(node_obj, name)
                 node_obj.adjacent.remove(name)
+        for key in list(self.edge_weights):
+            edge = self.edge_weights[key]
+            if edge.source.name == name or edge.target.name == name:
+                del self.edge_weights[key]
 
     def add_edge(self, source, target, cost=None):
         source, target = str(source), str(target)
-- 
2.43.0


From cf6ab7c4ba4a66ba53c2bd5decb1b09c5f0fffbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 083/103] fix: C++ AdjacencyList.remove_vertex drops the edges
 of vertices with an underscore in their name

---
 pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
index ffbb6f4..be12fd7 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyList.hpp
@@ -220,10 +220,8 @@ static PyObject* AdjacencyListGraph_remove_vertex(AdjacencyListGraph* self, PyOb
     }
 
     for (auto it = self->edges.begin(); it != self->edges.end(); ) {
-        const std::string& key = it->first;
-        size_t underscore = key.find('_');
-        std::string src = key.substr(0, underscore);
-        std::string dst = key.substr(underscore + 1);
+        const std::string& src = reinterpret_cast<AdjacencyListGraphNode*>(it->second->source)->name;
+        const std::string& dst = reinterpret_cast<AdjacencyListGraphNode*>(it->second->target)->name;
 
         if (src == name || dst == name) {
             Py_XDECREF(it->second);
-- 
2.43.0


From 2225af3bd7ef2fa69efc0c3c1d759f2e6a1bbca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:30 +0000
Subject: [PATCH 084/103] fix: C++ AdjacencyMatrix.get_edge returns a new
 reference

---
 pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
index 7bd89d5..6ce9925 100644
--- a/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
+++ b/pydatastructs/graphs/_backend/cpp/AdjacencyMatrix.hpp
@@ -202,6 +202,7 @@ static PyObject* AdjacencyMatrixGraph_get_edge(AdjacencyMatrixGraph* self, PyObj
     std::string key = std::string(source) + "_" + std::string(target);
     auto it = self->edge_weights.find(key);
     if (it != self->edge_weights.end()) {
+        Py_INCREF(it->second);
         return reinterpret_cast<PyObject*>(it->second);
     }
     Py_RETURN_NONE;
-- 
2.43.0


From 530709ae0fa9297d931e55ac1f41abaffc33b288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 085/103] fix: breadth_first_search_parallel visits each vertex
 once and stops when any callback stops it

---
 pydatastructs/graphs/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 6c2182f..161b4d4 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -196,7 +196,7 @@ def _generate_layer(**kwargs):
     status = True
     if len(next_nodes) != 0:
         for next_node in next_nodes:
-            if visited.get(next_node, False) is False:
+            if visited.get(next_node.name, False) is False:
                 status = status and operation(curr_node, next_node.name, *op_args, **op_kwargs)
                 next_layer.add(next_node.name)
                 visited[next_node.name] = True
@@ -213,12 +213,13 @@ def _breadth_first_search_parallel_adjacency_list(
     layer = 0
     while len(layers[layer]) != 0:
         layers[layer+1] = set()
+        status = True
         with ThreadPoolExecutor(max_workers=num_threads) as Executor:
             for node in layers[layer]:
                 status = Executor.submit(
                          _generate_layer, args=
                          (graph, node, layers[layer+1], visited,
-                          operation, *args), kwargs=kwargs).result()
+                          operation, *args), kwargs=kwargs).result() and status
         layer += 1
         if not status:
             return None
-- 
2.43.0


From 3310905159bcbd40bb68e5228d52c46b8f9ff5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:35 +0000
Subject: [PATCH 086/103] fix: graph searches do not pass the backend argument
 on to the callback

---
 pydatastructs/graphs/algorithms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 161b4d4..51e6d55 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -81,7 +81,7 @@ def breadth_first_search(
     >>> G.add_edge(V2.name, V3.name)
     >>> breadth_first_search(G, V1.name, f, V3.name)
     """
-    backend = kwargs.get('backend', Backend.PYTHON)
+    backend = kwargs.pop('backend', Backend.PYTHON)
     if backend == Backend.PYTHON:
         import pydatastructs.graphs.algorithms as algorithms
         func = "_breadth_first_search_" + graph._impl
@@ -95,10 +95,10 @@ def breadth_first_search(
         from pydatastructs.graphs._backend.cpp._graph import bfs_adjacency_list, bfs_adjacency_matrix
         if (graph._impl == "adjacency_list"):
             extra_args = args if args else ()
-            return bfs_adjacency_list(graph, source_node, operation, extra_args)
+            return bfs_adjacency_list(graph, source_node, operation, extra_args, kwargs)
         if (graph._impl == "adjacency_matrix"):
             extra_args = args if args else ()
-            return bfs_adjacency_matrix(graph, source_node, operation, extra_args)
+            return bfs_adjacency_matrix(graph, source_node, operation, extra_args, kwargs)
 
 def _breadth_first_search_adjacency_list(
     graph, source_node, operation, *args, **kwargs):
@@ -178,7 +178,7 @@ def breadth_first_search_parallel(
     >>> breadth_first_search_parallel(G, V1.name, 3, f, V3.name)
     """
     raise_if_backend_is_not_python(
-        breadth_first_search_parallel, kwargs.get('backend', Backend.PYTHON))
+        breadth_first_search_parallel, kwargs.pop('backend', Backend.PYTHON))
     import pydatastructs.graphs.algorithms as algorithms
     func = "_breadth_first_search_parallel_" + graph._impl
     if not hasattr(algorithms, func):
@@ -710,7 +710,7 @@ def depth_first_search(
     .. [1] https://en.wikipedia.org/wiki/Depth-first_search
     """
     raise_if_backend_is_not_python(
-        depth_first_search, kwargs.get('backend', Backend.PYTHON))
+        depth_first_search, kwargs.pop('backend', Backend.PYTHON))
     import pydatastructs.graphs.algorithms as algorithms
     func = "_depth_first_search_" + graph._impl
     if not hasattr(algorithms, func):
-- 
2.43.0


From 525a1cc1ba25f2528a484fef29e519fa2357be8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:44 +0000
Subject: [PATCH 087/103] fix: the C++ breadth first search stops when the
 callback stops it and rejects an unknown source

---
 pydatastructs/graphs/_backend/cpp/Algorithms.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index 2bb362c..ad36abc 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -25,6 +25,10 @@ static PyObject* breadth_first_search_adjacency_list(PyObject* self, PyObject* a
 
     AdjacencyListGraph* cpp_graph = reinterpret_cast<AdjacencyListGraph*>(graph_obj);
     auto it = cpp_graph->node_map.find(source_name);
+    if (it == cpp_graph->node_map.end()) {
+        PyErr_SetString(PyExc_KeyError, "Source node not found in graph");
+        return nullptr;
+    }
     AdjacencyListGraphNode* start_node = it->second;
     std::unordered_set<std::string> visited;
     std::queue<AdjacencyListGraphNode*> q;
@@ -70,7 +74,12 @@ static PyObject* breadth_first_search_adjacency_list(PyObject* self, PyObject* a
             if (!result)
                 return nullptr;
 
+            int status = PyObject_IsTrue(result);
             Py_DECREF(result);
+            if (status < 0)
+                return nullptr;
+            if (status == 0)
+                Py_RETURN_NONE;
             visited.insert(adj_name);
             q.push(adj_node);
         }
@@ -145,7 +154,10 @@ static PyObject* breadth_first_search_adjacency_matrix(PyObject* self, PyObject*
             PyObject* result = PyObject_Call(operation, final_args, kwargs_dict);
             Py_DECREF(final_args);
             if (!result) return nullptr;
+            int status = PyObject_IsTrue(result);
             Py_DECREF(result);
+            if (status < 0) return nullptr;
+            if (status == 0) Py_RETURN_NONE;
 
             visited.insert(adj_name);
             q.push(adj_node);
-- 
2.43.0


From 71664b02133bb5e07161d51ced1a9e39d8bcc618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 088/103] fix: minimum spanning trees are made of new vertices
 instead of sharing (and changing) those of the graph

---
 pydatastructs/graphs/algorithms.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 51e6d55..dc93d16 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -227,7 +227,8 @@ def _breadth_first_search_parallel_adjacency_list(
 _breadth_first_search_parallel_adjacency_matrix = _breadth_first_search_parallel_adjacency_list
 
 def _generate_mst_object(graph):
-    mst = Graph(*[getattr(graph, str(v)) for v in graph.vertices])
+    vertices = [getattr(graph, str(v)) for v in graph.vertices]
+    mst = Graph(*[type(v)(v.name, v.data) for v in vertices])
     return mst
 
 def _sort_edges(graph, num_threads=None):
@@ -264,10 +265,9 @@ def _minimum_spanning_tree_prim_adjacency_list(graph):
     while not q.is_empty:
         v = q.pop()
         if not hasattr(mst, v):
-            mst.add_vertex(graph.__getattribute__(v))
+            mst.add_vertex(AdjacencyListGraphNode(v, graph.__getattribute__(v).data))
             if e.get(v, None) is not None:
                 edge = e[v]
-                mst.add_vertex(edge.target)
                 mst.add_edge(edge.source.name, edge.target.name, edge.value)
                 mst.add_edge(edge.target.name, edge.source.name, edge.value)
             for w_node in graph.neighbors(v):
@@ -406,10 +406,9 @@ def _minimum_spanning_tree_parallel_prim_adjacency_list(graph, num_threads):
         q[idx].pop()
 
         if not hasattr(mst, v):
-            mst.add_vertex(graph.__getattribute__(v))
+            mst.add_vertex(AdjacencyListGraphNode(v, graph.__getattribute__(v).data))
             if e[idx].get(v, None) is not None:
                 edge = e[idx][v]
-                mst.add_vertex(edge.target)
                 mst.add_edge(edge.source.name, edge.target.name, edge.value)
                 mst.add_edge(edge.target.name, edge.source.name, edge.value)
             for w_node in graph.neighbors(v):
-- 
2.43.0


From c01b40e6c9e5918aaf54acd144cf32cc8facc4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:50 +0000
Subject: [PATCH 089/103] fix: the C++ Prim makes new vertices instead of
 sharing those of the graph, and compares integer with float weights

---
 .../graphs/_backend/cpp/Algorithms.hpp        | 87 ++++++++-----------
 1 file changed, 38 insertions(+), 49 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index ad36abc..1511ac0 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -189,8 +189,13 @@ static PyObject* minimum_spanning_tree_prim_adjacency_list(PyObject* self, PyObj
         DataType value_type;
 
         bool operator>(const EdgeTuple& other) const {
-            if (value_type != other.value_type)
+            if (value_type != other.value_type) {
+                if (std::holds_alternative<int64_t>(value) && std::holds_alternative<double>(other.value))
+                    return static_cast<double>(std::get<int64_t>(value)) > std::get<double>(other.value);
+                if (std::holds_alternative<double>(value) && std::holds_alternative<int64_t>(other.value))
+                    return std::get<double>(value) > static_cast<double>(std::get<int64_t>(other.value));
                 return value_type > other.value_type;
+            }
             if (std::holds_alternative<int64_t>(value))
                 return std::get<int64_t>(value) > std::get<int64_t>(other.value);
             if (std::holds_alternative<double>(value))
@@ -205,7 +210,20 @@ static PyObject* minimum_spanning_tree_prim_adjacency_list(PyObject* self, PyObj
     std::unordered_set<int> visited;
 
     PyObject* mst_graph = PyObject_CallObject(reinterpret_cast<PyObject*>(&AdjacencyListGraphType), nullptr);
-    AdjacencyListGraph* mst = reinterpret_cast<AdjacencyListGraph*>(mst_graph);
+
+    if (graph->nodes.empty())
+        return mst_graph;
+
+    auto add_vertex = [&](AdjacencyListGraphNode* node) {
+        PyObject* data = PyObject_GetAttrString(reinterpret_cast<PyObject*>(node), "data");
+        PyObject* copy = data ? PyObject_CallFunction(
+            reinterpret_cast<PyObject*>(&AdjacencyListGraphNodeType), "sO", node->name.c_str(), data) : nullptr;
+        PyObject* added = copy ? PyObject_CallMethod(mst_graph, "add_vertex", "O", copy) : nullptr;
+        Py_XDECREF(data);
+        Py_XDECREF(copy);
+        Py_XDECREF(added);
+        return added != nullptr;
+    };
 
     int start_id = graph->nodes[0]->internal_id;
     visited.insert(start_id);
@@ -213,12 +231,10 @@ static PyObject* minimum_spanning_tree_prim_adjacency_list(PyObject* self, PyObj
     AdjacencyListGraphNode* start_node = graph->id_map[start_id];
     std::string start_name = graph->id_to_name[start_id];
 
-    Py_INCREF(start_node);
-    mst->nodes.push_back(start_node);
-    mst->node_map[start_name] = start_node;
-    mst->id_map[start_id] = start_node;
-    mst->id_to_name[start_id] = start_name;
-    mst->name_to_id[start_name] = start_id;
+    if (!add_vertex(start_node)) {
+        Py_DECREF(mst_graph);
+        return nullptr;
+    }
 
     for (const auto& [adj_name, _] : start_node->adjacent) {
         int adj_id = graph->name_to_id[adj_name];
@@ -259,47 +275,20 @@ static PyObject* minimum_spanning_tree_prim_adjacency_list(PyObject* self, PyObj
         std::string u_name = graph->id_to_name[u_id];
         std::string v_name = graph->id_to_name[v_id];
 
-        for (auto [id, name] : std::vector<std::pair<int, std::string>>{{u_id, u_name}, {v_id, v_name}}) {
-            if (!mst->id_map.count(id)) {
-                AdjacencyListGraphNode* node = graph->id_map[id];
-                Py_INCREF(node);
-                mst->nodes.push_back(node);
-                mst->node_map[name] = node;
-                mst->id_map[id] = node;
-                mst->id_to_name[id] = name;
-                mst->name_to_id[name] = id;
-            }
+        PyObject* weight = PyObject_GetAttrString(
+            reinterpret_cast<PyObject*>(graph->edges[make_edge_key(u_name, v_name)]), "value");
+        bool added = weight && add_vertex(graph->id_map[v_id]);
+        for (int i = 0; added && i < 2; i++) {
+            PyObject* done = PyObject_CallMethod(
+                mst_graph, "add_edge", "ssO", (i ? v_name : u_name).c_str(), (i ? u_name : v_name).c_str(), weight);
+            added = done != nullptr;
+            Py_XDECREF(done);
+        }
+        Py_XDECREF(weight);
+        if (!added) {
+            Py_DECREF(mst_graph);
+            return nullptr;
         }
-
-        AdjacencyListGraphNode* u = mst->id_map[u_id];
-        AdjacencyListGraphNode* v = mst->id_map[v_id];
-
-        Py_INCREF(v);
-        Py_INCREF(u);
-        u->adjacent[v_name] = reinterpret_cast<PyObject*>(v);
-        v->adjacent[u_name] = reinterpret_cast<PyObject*>(u);
-
-        std::string key_uv = make_edge_key(u_name, v_name);
-        GraphEdge* new_edge = PyObject_New(GraphEdge, &GraphEdgeType);
-        PyObject_Init(reinterpret_cast<PyObject*>(new_edge), &GraphEdgeType);
-        new (&new_edge->value) std::variant<std::monostate, int64_t, double, std::string>(edge.value);
-        new_edge->value_type = edge.value_type;
-        Py_INCREF(u);
-        Py_INCREF(v);
-        new_edge->source = reinterpret_cast<PyObject*>(u);
-        new_edge->target = reinterpret_cast<PyObject*>(v);
-        mst->edges[key_uv] = new_edge;
-
-        std::string key_vu = make_edge_key(v_name, u_name);
-        GraphEdge* new_edge_rev = PyObject_New(GraphEdge, &GraphEdgeType);
-        PyObject_Init(reinterpret_cast<PyObject*>(new_edge_rev), &GraphEdgeType);
-        new (&new_edge_rev->value) std::variant<std::monostate, int64_t, double, std::string>(edge.value);
-        new_edge_rev->value_type = edge.value_type;
-        Py_INCREF(u);
-        Py_INCREF(v);
-        new_edge_rev->source = reinterpret_cast<PyObject*>(v);
-        new_edge_rev->target = reinterpret_cast<PyObject*>(u);
-        mst->edges[key_vu] = new_edge_rev;
 
         AdjacencyListGraphNode* next_node = graph->id_map[v_id];
         for (const auto& [adj_name, _] : next_node->adjacent) {
@@ -332,7 +321,7 @@ static PyObject* minimum_spanning_tree_prim_adjacency_list(PyObject* self, PyObj
         }
     }
 
-    return reinterpret_cast<PyObject*>(mst);
+    return mst_graph;
 }
 
 static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject* args, PyObject* kwargs) {
-- 
2.43.0


From 203d02c4fef5fe385faf43726eb3386063510cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 090/103] fix: Dijkstra's algorithm goes on until every
 reachable vertex is final, skipping outdated queue entries

---
 pydatastructs/graphs/algorithms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index dc93d16..364e9a9 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -855,7 +855,6 @@ def _bellman_ford_adjacency_list(graph: Graph, source: str, target: str) -> tupl
 _bellman_ford_adjacency_matrix = _bellman_ford_adjacency_list
 
 def _dijkstra_adjacency_list(graph: Graph, start: str, target: str):
-    V = len(graph.vertices)
     visited, dist, pred = {}, {}, {}
     for v in graph.vertices:
         visited[v] = False
@@ -866,8 +865,10 @@ def _dijkstra_adjacency_list(graph: Graph, start: str, target: str):
     pq = PriorityQueue(implementation='binomial_heap')
     for vertex in dist:
         pq.push(vertex, dist[vertex])
-    for _ in range(V):
+    while not pq.is_empty:
         u = pq.pop()
+        if visited[u]:
+            continue
         visited[u] = True
         for v in graph.vertices:
             edge_str = u + '_' + v
-- 
2.43.0


From a70847f4c6b9c8545e284c0e3fe6e6a990ba5cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:47 +0000
Subject: [PATCH 091/103] fix: the C++ Dijkstra handles names with underscores,
 graphs with removed vertices and unknown names

---
 pydatastructs/graphs/_backend/cpp/Algorithms.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
index 1511ac0..88e4aa0 100644
--- a/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
+++ b/pydatastructs/graphs/_backend/cpp/Algorithms.hpp
@@ -337,13 +337,16 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
     }
 
     AdjacencyListGraph* graph = reinterpret_cast<AdjacencyListGraph*>(graph_obj);
-    const size_t V = graph->node_map.size();
+    if (!graph->name_to_id.count(source_name) || (strlen(target_name) > 0 && !graph->name_to_id.count(target_name))) {
+        PyErr_SetString(PyExc_KeyError, "Node not found in graph");
+        return nullptr;
+    }
+    const size_t V = graph->next_id;
 
     std::vector<std::vector<std::pair<int, double>>> adj(V);
     for (const auto& [edge_key, edge] : graph->edges) {
-        size_t delim = edge_key.find('_');
-        std::string u_name = edge_key.substr(0, delim);
-        std::string v_name = edge_key.substr(delim + 1);
+        const std::string& u_name = reinterpret_cast<AdjacencyListGraphNode*>(edge->source)->name;
+        const std::string& v_name = reinterpret_cast<AdjacencyListGraphNode*>(edge->target)->name;
         int u = graph->name_to_id[u_name];
         int v = graph->name_to_id[v_name];
 
@@ -388,6 +391,7 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
     if (!dist_dict || !pred_dict) return nullptr;
 
     for (int id = 0; id < static_cast<int>(V); ++id) {
+        if (!graph->id_to_name.count(id)) continue;
         const std::string& name = graph->id_to_name[id];
         PyObject* dval = PyFloat_FromDouble(dist[id]);
         if (!dval || PyDict_SetItemString(dist_dict, name.c_str(), dval) < 0) {
@@ -400,6 +404,7 @@ static PyObject* shortest_paths_dijkstra_adjacency_list(PyObject* self, PyObject
     }
 
     for (int id = 0; id < static_cast<int>(V); ++id) {
+        if (!graph->id_to_name.count(id)) continue;
         const std::string& name = graph->id_to_name[id];
         PyObject* py_pred;
         if (pred[id] == -1) {
-- 
2.43.0


From eeb76ae08368c28f112a69e9af9b3f6eee4384ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:33 +0000
Subject: [PATCH 092/103] fix: Floyd-Warshall reports infinity for pairs
 without a path

---
 pydatastructs/graphs/algorithms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 364e9a9..c5c0c61 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -949,7 +949,7 @@ def _floyd_warshall_adjacency_list(graph: Graph):
     V, E = graph.vertices, graph.edge_weights
 
     for v in V:
-        dist[v] = {}
+        dist[v] = {u: float('inf') for u in V}
         next_vertex[v] = {}
 
     for name, edge in E.items():
-- 
2.43.0


From 4d64a589cba3bc6f6d6a7057783906720ec82690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:33 +0000
Subject: [PATCH 093/103] fix: Johnson's algorithm leaves the graph and its
 weights as they were

---
 pydatastructs/graphs/algorithms.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index c5c0c61..0c173e4 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -983,18 +983,20 @@ def _johnson_adjacency_list(graph: Graph):
         if vertex != '__q__':
             graph.add_edge('__q__', vertex, 0)
 
-    distances, predecessors = shortest_paths(graph, 'bellman_ford', '__q__')
-
-    edges_to_remove = []
-    for edge in graph.edge_weights:
-        edge_node = graph.edge_weights[edge]
-        if edge_node.source.name == '__q__':
-            edges_to_remove.append((edge_node.source.name, edge_node.target.name))
-
-    for u, v in edges_to_remove:
-        graph.remove_edge(u, v)
-    graph.remove_vertex('__q__')
-
+    try:
+        distances, predecessors = shortest_paths(graph, 'bellman_ford', '__q__')
+    finally:
+        edges_to_remove = []
+        for edge in graph.edge_weights:
+            edge_node = graph.edge_weights[edge]
+            if edge_node.source.name == '__q__':
+                edges_to_remove.append((edge_node.source.name, edge_node.target.name))
+
+        for u, v in edges_to_remove:
+            graph.remove_edge(u, v)
+        graph.remove_vertex('__q__')
+
+    weights = {edge: graph.edge_weights[edge].value for edge in graph.edge_weights}
     for edge in graph.edge_weights:
         edge_node = graph.edge_weights[edge]
         u, v = edge_node.source.name, edge_node.target.name
@@ -1018,6 +1020,9 @@ def _johnson_adjacency_list(graph: Graph):
             else:
                 all_distances[u][v] = float('inf')
 
+    for edge in weights:
+        graph.edge_weights[edge].value = weights[edge]
+
     return (all_distances, all_next_vertex)
 
 def topological_sort(graph: Graph, algorithm: str,
-- 
2.43.0


From c55057455dbf7c5a23a910158a54d2f9569a1c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:06 +0000
Subject: [PATCH 094/103] fix: topological sorting leaves the graph as it was

---
 pydatastructs/graphs/algorithms.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 0c173e4..6ce1acc 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1093,7 +1093,6 @@ def _kahn_adjacency_list(graph: Graph) -> list:
         n = S.popleft()
         L.append(n)
         for m in graph.neighbors(n):
-            graph.remove_edge(n, m.name)
             in_degree[m.name] -= 1
             if in_degree[m.name] == 0:
                 S.append(m.name)
@@ -1161,31 +1160,35 @@ def topological_sort_parallel(graph: Graph, algorithm: str, num_threads: int,
 def _kahn_adjacency_list_parallel(graph: Graph, num_threads: int) -> list:
     num_vertices = len(graph.vertices)
 
-    def _collect_source_nodes(graph: Graph) -> list:
+    in_degree = {u: 0 for u in graph.vertices}
+    for u in graph.vertices:
+        for v in graph.neighbors(u):
+            in_degree[v.name] += 1
+
+    def _collect_source_nodes() -> list:
         S = []
-        in_degree = {u: 0 for u in graph.vertices}
-        for u in graph.vertices:
-            for v in graph.neighbors(u):
-                in_degree[v.name] += 1
         for u in in_degree:
             if in_degree[u] == 0:
                 S.append(u)
         return list(S)
 
     def _job(graph: Graph, u: str):
-        for v in graph.neighbors(u):
-            graph.remove_edge(u, v.name)
+        return [v.name for v in graph.neighbors(u)]
 
     L = []
-    source_nodes = _collect_source_nodes(graph)
+    source_nodes = _collect_source_nodes()
     while source_nodes:
+        jobs = []
         with ThreadPoolExecutor(max_workers=num_threads) as Executor:
             for node in source_nodes:
                 L.append(node)
-                Executor.submit(_job, graph, node)
+                jobs.append(Executor.submit(_job, graph, node))
+        for job in jobs:
+            for v in job.result():
+                in_degree[v] -= 1
         for node in source_nodes:
-            graph.remove_vertex(node)
-        source_nodes = _collect_source_nodes(graph)
+            in_degree.pop(node)
+        source_nodes = _collect_source_nodes()
 
     if len(L) != num_vertices:
         raise ValueError("Graph is not acyclic.")
-- 
2.43.0


From 436d4713082101e5be698e68040a4b22b539d1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 095/103] fix: Kosaraju's algorithm lists each vertex once by
 finishing time and accepts vertices without incoming edges

---
 pydatastructs/graphs/algorithms.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 6ce1acc..24aab8b 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -496,7 +496,7 @@ def minimum_spanning_tree_parallel(graph, algorithm, num_threads, **kwargs):
     return getattr(algorithms, func)(graph, num_threads)
 
 def _visit(graph, vertex, visited, incoming, L):
-    stack = [vertex]
+    stack, finished = [vertex], {}
     while stack:
         top = stack[-1]
         if not visited.get(top, False):
@@ -508,7 +508,10 @@ def _visit(graph, vertex, visited, incoming, L):
                 if not visited.get(node.name, False):
                     stack.append(node.name)
         if top is stack[-1]:
-            L.append(stack.pop())
+            stack.pop()
+            if not finished.get(top, False):
+                finished[top] = True
+                L.append(top)
 
 def _assign(graph, u, incoming, assigned, component):
     stack = [u]
@@ -517,7 +520,7 @@ def _assign(graph, u, incoming, assigned, component):
         if not assigned.get(top, False):
             assigned[top] = True
             component.add(top)
-            for u in incoming[top]:
+            for u in incoming.get(top, []):
                 if not assigned.get(u, False):
                     stack.append(u)
         if top is stack[-1]:
-- 
2.43.0


From 85fca554342c9b36225bcad9f97580e0e061f415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:10 +0000
Subject: [PATCH 096/103] fix: maximum flow algorithms can send flow back along
 edges and do not run in circles through the source

---
 pydatastructs/graphs/algorithms.py | 61 ++++++++++++++++--------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/pydatastructs/graphs/algorithms.py b/pydatastructs/graphs/algorithms.py
index 24aab8b..dc5a550 100644
--- a/pydatastructs/graphs/algorithms.py
+++ b/pydatastructs/graphs/algorithms.py
@@ -1198,6 +1198,16 @@ def _kahn_adjacency_list_parallel(graph: Graph, num_threads: int) -> list:
     return L
 
 
+def _residual_capacities(graph: Graph, node, flow_passed):
+    capacities = {}
+    for next_node in graph.neighbors(node):
+        capacity = graph.get_edge(node, next_node.name).value
+        capacities[next_node.name] = 0 if capacity is None else capacity
+    for (u, v), fp in flow_passed.items():
+        if u == node:
+            capacities[v] = capacities.get(v, 0) - fp
+    return capacities
+
 def _breadth_first_search_max_flow(graph: Graph, source_node, sink_node, flow_passed, for_dinic=False):
     bfs_queue = Queue()
     parent, currentPathC = {}, {}
@@ -1205,18 +1215,15 @@ def _breadth_first_search_max_flow(graph: Graph, source_node, sink_node, flow_pa
     bfs_queue.append(source_node)
     while len(bfs_queue) != 0:
         curr_node = bfs_queue.popleft()
-        next_nodes = graph.neighbors(curr_node)
-        if len(next_nodes) != 0:
-            for next_node in next_nodes:
-                capacity = graph.get_edge(curr_node, next_node.name).value
-                fp = flow_passed.get((curr_node, next_node.name), 0)
-                if capacity and parent.get(next_node.name, False) is False and capacity - fp > 0:
-                    parent[next_node.name] = curr_node
-                    next_flow = min(currentPathC[curr_node], capacity - fp)
-                    currentPathC[next_node.name] = next_flow
-                    if next_node.name == sink_node and not for_dinic:
-                        return (next_flow, parent)
-                    bfs_queue.append(next_node.name)
+        residual = _residual_capacities(graph, curr_node, flow_passed)
+        for next_node, capacity in residual.items():
+            if next_node != source_node and parent.get(next_node, False) is False and capacity > 0:
+                parent[next_node] = curr_node
+                next_flow = min(currentPathC[curr_node], capacity)
+                currentPathC[next_node] = next_flow
+                if next_node == sink_node and not for_dinic:
+                    return (next_flow, parent)
+                bfs_queue.append(next_node)
     return (0, parent)
 
 
@@ -1242,23 +1249,19 @@ def _depth_first_search_max_flow_dinic(graph: Graph, u, parent, sink_node, flow,
     if u == sink_node:
         return flow
 
-    next_nodes = graph.neighbors(u)
-    if len(next_nodes) != 0:
-        for next_node in next_nodes:
-            capacity = graph.get_edge(u, next_node.name).value
-            fp = flow_passed.get((u, next_node.name), 0)
-            parent_cond = parent.get(next_node.name, None)
-            if parent_cond and parent_cond == u and capacity - fp > 0:
-                path_flow = _depth_first_search_max_flow_dinic(graph,
-                                                               next_node.name,
-                                                               parent, sink_node,
-                                min(flow, capacity - fp), flow_passed)
-                if path_flow > 0:
-                    fp = flow_passed.get((u, next_node.name), 0)
-                    flow_passed[(u, next_node.name)] = fp + path_flow
-                    fp = flow_passed.get((next_node.name, u), 0)
-                    flow_passed[(next_node.name, u)] = fp - path_flow
-                    return path_flow
+    residual = _residual_capacities(graph, u, flow_passed)
+    for next_node, capacity in residual.items():
+        if parent.get(next_node, None) == u and capacity > 0:
+            path_flow = _depth_first_search_max_flow_dinic(graph, next_node,
+                                                           parent, sink_node,
+                                                           min(flow, capacity),
+                                                           flow_passed)
+            if path_flow > 0:
+                fp = flow_passed.get((u, next_node), 0)
+                flow_passed[(u, next_node)] = fp + path_flow
+                fp = flow_passed.get((next_node, u), 0)
+                flow_passed[(next_node, u)] = fp - path_flow
+                return path_flow
     return 0
 
 
-- 
2.43.0


From 238723defca4a7b87ca1a046cb000530bcdd7cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:42 +0000
Subject: [PATCH 097/103] fix: sorting with two LLVM kernels crashed when the
 interpreter exits

---
 .../_backend/cpp/algorithms/llvm_algorithms.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
index 5f3801a..d1db8e2 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
+++ b/pydatastructs/linear_data_structures/_backend/cpp/algorithms/llvm_algorithms.py
@@ -21,9 +21,9 @@ def _cleanup():
 atexit.register(_cleanup)
 
 def _ensure_target_machine():
+    # An execution engine owns its target machine,
+    # so it cannot be shared with another engine.
     global _target_machine
-    if _target_machine is not None:
-        return
 
     try:
         binding.initialize_all_targets()
-- 
2.43.0


From b01fceb411f99ba4094e1117b3e431a6ee5c6321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:55 +0000
Subject: [PATCH 098/103] fix: an initial root of a Python Cartesian tree has a
 priority

---
 pydatastructs/trees/binary_trees.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pydatastructs/trees/binary_trees.py b/pydatastructs/trees/binary_trees.py
index ff64cc8..6cdb2b3 100644
--- a/pydatastructs/trees/binary_trees.py
+++ b/pydatastructs/trees/binary_trees.py
@@ -826,7 +826,12 @@ class CartesianTree(SelfBalancingBinaryTree):
             if comp is None:
                 comp = lambda key1, key2: key1 < key2
             return _trees.CartesianTree(key, root_data, comp, is_order_statistic, **kwargs) # If any argument is not given, then it is passed as None, except for comp
-        return super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        obj = super().__new__(cls, key, root_data, comp, is_order_statistic, **kwargs)
+        # The initial root needs a priority too, it is 0 as in the C++ backend.
+        root = obj.tree[obj.root_idx]
+        obj.tree[obj.root_idx] = CartesianTreeNode(root.key, 0, root.data)
+        obj.tree[obj.root_idx].is_root = True
+        return obj
 
     @classmethod
     def methods(cls):
-- 
2.43.0


From 43c40c045efcff57c17625e34368c3b3213d7a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:55 +0000
Subject: [PATCH 099/103] fix: printing an empty array queue

---
 pydatastructs/miscellaneous_data_structures/queue.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/miscellaneous_data_structures/queue.py b/pydatastructs/miscellaneous_data_structures/queue.py
index e22285f..40824ee 100644
--- a/pydatastructs/miscellaneous_data_structures/queue.py
+++ b/pydatastructs/miscellaneous_data_structures/queue.py
@@ -193,8 +193,9 @@ class ArrayQueue(Queue):
 
     def __str__(self):
         _data = []
-        for i in range(self._front, self._rear + 1):
-            _data.append(self.items._data[i])
+        if not self.is_empty:
+            for i in range(self._front, self._rear + 1):
+                _data.append(self.items._data[i])
         return str(_data)
 
 class LinkedListQueue(Queue):
-- 
2.43.0


From 82c5f445b572be69a871d5efb9aefb500465a183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:27 +0000
Subject: [PATCH 100/103] fix: printing a skip list with equal keys dropped
 nodes

---
 pydatastructs/linear_data_structures/linked_lists.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pydatastructs/linear_data_structures/linked_lists.py b/pydatastructs/linear_data_structures/linked_lists.py
index bb6958e..cf3ddba 100644
--- a/pydatastructs/linear_data_structures/linked_lists.py
+++ b/pydatastructs/linear_data_structures/linked_lists.py
@@ -780,7 +780,7 @@ class SkipList(object):
                 if curr_node.key != math.inf and curr_node.key != -math.inf:
                     node2row[curr_node] = curr_level
                     if walk.down is None:
-                        node2col[curr_node.key] = col
+                        node2col[curr_node] = col
                     col += 1
                 curr_node = curr_node.next
             walk = walk.down
@@ -792,7 +792,11 @@ class SkipList(object):
             while curr_node is not None:
                 if curr_node in node2row:
                     row = node2row[curr_node]
-                    col = node2col[curr_node.key]
+                    # the column of a node is that of the lowest node below it
+                    lowest = curr_node
+                    while lowest.down is not None:
+                        lowest = lowest.down
+                    col = node2col[lowest]
                     sl_mat[row][col] = str(curr_node)
                 curr_node = curr_node.next
             walk = walk.down
-- 
2.43.0


From 1f61ddc2c6535aed2c12bb3b4a3e448b5b287953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:27 +0000
Subject: [PATCH 101/103] fix: printing an M-ary tree whose nodes have children
 raised AttributeError

---
 pydatastructs/trees/m_ary_trees.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/trees/m_ary_trees.py b/pydatastructs/trees/m_ary_trees.py
index a06fda9..8a7ac70 100644
--- a/pydatastructs/trees/m_ary_trees.py
+++ b/pydatastructs/trees/m_ary_trees.py
@@ -168,5 +168,5 @@ class MAryTree(object):
                 to_be_printed[i] = (node.key, node.data)
                 for j in node.children:
                     if j is not None:
-                        to_be_printed[i].append(j)
+                        to_be_printed[i] += (j,)
         return str(to_be_printed)
-- 
2.43.0


From 5be108dc56d25a6b26271efee476f51656a34aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:27 +0000
Subject: [PATCH 102/103] fix: printing a compiled dynamic array that holds
 nothing showed its free cells

---
 .../_backend/cpp/arrays/DynamicOneDimensionalArray.hpp          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
index 3ca4341..86c5d98 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/DynamicOneDimensionalArray.hpp
@@ -79,7 +79,7 @@ static Py_ssize_t DynamicOneDimensionalArray___len__(DynamicOneDimensionalArray
 
 static PyObject* DynamicOneDimensionalArray___str__(DynamicOneDimensionalArray *self) {
     PyObject** self__data = self->_one_dimensional_array->_data;
-    return __str__(self__data, self->_one_dimensional_array->_size, self->_last_pos_filled);
+    return __str__(self__data, self->_last_pos_filled + 1);
 }
 
 static PyObject* DynamicOneDimensionalArray__modify(DynamicOneDimensionalArray *self,
-- 
2.43.0


From 1d7821c1fabfe60c487b537c5d6a92b644a4ffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:05 +0000
Subject: [PATCH 103/103] fix: C++ arrays accepted an undefined element type
 (NoneType) that Python refuses

---
 .../_backend/cpp/arrays/OneDimensionalArray.hpp                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
index 45e3c6c..c8b72a6 100644
--- a/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
+++ b/pydatastructs/linear_data_structures/_backend/cpp/arrays/OneDimensionalArray.hpp
@@ -45,7 +45,7 @@ static PyObject* OneDimensionalArray___new__(PyTypeObject* type, PyObject *args,
     PyObject *dtype = PyObject_GetItem(args, PyZero);
     if (!dtype) return NULL;
 
-    if (dtype == Py_None) {
+    if (dtype == Py_None || dtype == reinterpret_cast<PyObject*>(Py_TYPE(Py_None))) {
         Py_DECREF(dtype);
         PyErr_SetString(PyExc_ValueError, "Data type is not defined.");
         return NULL;
-- 
2.43.0

