From fbb457ae99ef8432687ca9a8b42cee5159f4ea5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:44 +0000
Subject: [PATCH 01/74] fix: keep each element's position in the index arrays
 through the third and later arrays of an advanced slice

The 'advanced' index was reset to 0, 1, 2, ... after the second array, which is wrong if a range precedes the
arrays (array[:, [0, 1], [1, 1], [2, 0]] read beyond the third array).
---
 src/libawkward/array/ListArray.cpp       | 3 ++-
 src/libawkward/array/ListOffsetArray.cpp | 3 ++-
 src/libawkward/array/RegularArray.cpp    | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libawkward/array/ListArray.cpp b/src/libawkward/array/ListArray.cpp
index 76ad0fd..fa64f3a 100644
--- a/src/libawkward/array/ListArray.cpp
+++ b/src/libawkward/array/ListArray.cpp
@@ -1761,7 +1761,8 @@ namespace awkward {
         content_.get()->length());
       util::handle_error(err, classname(), identities_.get());
       ContentPtr nextcontent = content_.get()->carry(nextcarry, true);
-      return nextcontent.get()->getitem_next(nexthead, nexttail, nextadvanced);
+      // one output per input: each keeps its position in the index arrays
+      return nextcontent.get()->getitem_next(nexthead, nexttail, advanced);
     }
   }
 
diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 79216dc..cd0a039 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -2252,7 +2252,8 @@ namespace awkward {
         content_.get()->length());
       util::handle_error(err, classname(), identities_.get());
       ContentPtr nextcontent = content_.get()->carry(nextcarry, true);
-      return nextcontent.get()->getitem_next(nexthead, nexttail, nextadvanced);
+      // one output per input: each keeps its position in the index arrays
+      return nextcontent.get()->getitem_next(nexthead, nexttail, advanced);
     }
   }
 
diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index 79080b0..58854a3 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -1515,7 +1515,8 @@ namespace awkward {
       util::handle_error(err, classname(), identities_.get());
 
       ContentPtr nextcontent = content_.get()->carry(nextcarry, true);
-      return nextcontent.get()->getitem_next(nexthead, nexttail, nextadvanced);
+      // one output per input: each keeps its position in the index arrays
+      return nextcontent.get()->getitem_next(nexthead, nexttail, advanced);
     }
   }
 
-- 
2.43.0


From d0f965e1e09b3c486ed16301f45b836b80176dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:14 +0000
Subject: [PATCH 02/74] fix: drop the positions of missing values and of other
 union contents from an advanced slice's index

array[[1, 0], [0, 1]] with array = [[1, 2], None] is [None, 2], not [None, 1]: the arrays after the first were
consumed from the front regardless of which rows had been projected out.
---
 src/libawkward/array/ByteMaskedArray.cpp | 15 ++++++++++++++-
 src/libawkward/array/IndexedArray.cpp    | 15 ++++++++++++++-
 src/libawkward/array/UnionArray.cpp      | 16 ++++++++++++++--
 3 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/libawkward/array/ByteMaskedArray.cpp b/src/libawkward/array/ByteMaskedArray.cpp
index 2624678..bd18377 100644
--- a/src/libawkward/array/ByteMaskedArray.cpp
+++ b/src/libawkward/array/ByteMaskedArray.cpp
@@ -721,7 +721,20 @@ namespace awkward {
 
       ContentPtr next = content_.get()->carry(nextcarry, true);
 
-      ContentPtr out = next.get()->getitem_next(head, tail, advanced);
+      // "advanced" has one element per element of this array, but only some are in "next"
+      bool has_advanced = !advanced.is_empty_advanced()  &&  advanced.length() == outindex.length();
+      Index64 nextadvanced(nextcarry.length());
+      if (has_advanced) {
+        int64_t k = 0;
+        for (int64_t i = 0;  i < advanced.length();  i++) {
+          if (outindex.getitem_at_nowrap(i) >= 0) {
+            nextadvanced.setitem_at_nowrap(k, advanced.getitem_at_nowrap(i));
+            k++;
+          }
+        }
+      }
+      ContentPtr out = next.get()->getitem_next(
+        head, tail, has_advanced ? nextadvanced : advanced);
       IndexedOptionArray64 out2(identities_, parameters_, outindex, out);
       return out2.simplify_optiontype();
     }
diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index b8594a9..78770f2 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -1390,7 +1390,20 @@ namespace awkward {
         IndexOf<T> outindex = pair.second;
 
         ContentPtr next = content_.get()->carry(nextcarry, true);
-        ContentPtr out = next.get()->getitem_next(head, tail, advanced);
+        // "advanced" has one element per element of this array, but only some are in "next"
+        bool has_advanced = !advanced.is_empty_advanced()  &&  advanced.length() == outindex.length();
+        Index64 nextadvanced(nextcarry.length());
+        if (has_advanced) {
+          int64_t k = 0;
+          for (int64_t i = 0;  i < advanced.length();  i++) {
+            if (outindex.getitem_at_nowrap(i) >= 0) {
+              nextadvanced.setitem_at_nowrap(k, advanced.getitem_at_nowrap(i));
+              k++;
+            }
+          }
+        }
+        ContentPtr out = next.get()->getitem_next(
+          head, tail, has_advanced ? nextadvanced : advanced);
         IndexedArrayOf<T, ISOPTION> out2(identities_,
                                          parameters_,
                                          outindex,
diff --git a/src/libawkward/array/UnionArray.cpp b/src/libawkward/array/UnionArray.cpp
index 4f64688..ed71da2 100644
--- a/src/libawkward/array/UnionArray.cpp
+++ b/src/libawkward/array/UnionArray.cpp
@@ -1240,8 +1240,20 @@ namespace awkward {
       ContentPtrVec outcontents;
       for (int64_t i = 0;  i < numcontents();  i++) {
         ContentPtr projection = project(i);
-        outcontents.push_back(
-          projection.get()->getitem_next(head, tail, advanced));
+        // "advanced" has one element per element of this array, but only some are in this projection
+        bool has_advanced = !advanced.is_empty_advanced()  &&  advanced.length() == tags_.length();
+        Index64 nextadvanced(projection.get()->length());
+        if (has_advanced) {
+          int64_t k = 0;
+          for (int64_t j = 0;  j < advanced.length();  j++) {
+            if ((int64_t)tags_.getitem_at_nowrap(j) == i) {
+              nextadvanced.setitem_at_nowrap(k, advanced.getitem_at_nowrap(j));
+              k++;
+            }
+          }
+        }
+        outcontents.push_back(projection.get()->getitem_next(
+          head, tail, has_advanced ? nextadvanced : advanced));
       }
       IndexOf<I> outindex = regular_index(tags_);
       UnionArrayOf<T, I> out(identities_,
-- 
2.43.0


From cff971f93d526d6d4fb5773d55638d97a6e90ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:52 +0000
Subject: [PATCH 03/74] fix: correct four kernel definitions in the
 specification

awkward_IndexedArray_ranges(_carry)_next_64 skipped index 0, and a
conditional expression swallowed the running total of
awkward_ListArray_getitem_jagged_numvalid and the missing value of
awkward_missing_repeat. The kernels were right.
---
 kernel-specification.yml | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kernel-specification.yml b/kernel-specification.yml
index 726c7d3..ab82a3b 100644
--- a/kernel-specification.yml
+++ b/kernel-specification.yml
@@ -1615,7 +1615,7 @@ kernels:
               stride = fromstops[i] - fromstarts[i]
               tostarts[i] = k
               for j in range(stride):
-                  if index[fromstarts[i] + j] > 0:
+                  if index[fromstarts[i] + j] >= 0:
                       k = k + 1
               tostops[i] = k
           tolength = k
@@ -1655,7 +1655,7 @@ kernels:
           for i in range(length):
               stride = fromstops[i] - fromstarts[i]
               for j in range(stride):
-                  if index[fromstarts[i] + j] > 0:
+                  if index[fromstarts[i] + j] >= 0:
                       tocarry[k] = index[fromstarts[i] + j]
                       k = k + 1
     automatic-tests: false
@@ -2183,7 +2183,7 @@ kernels:
                   if slicestop > missinglength:
                       raise ValueError("jagged slice's offsets extend beyond its content")
                   for j in range(slicestart, slicestop):
-                      numvalid[0] = numvalid[0] + 1 if missing[j] >= 0 else 0
+                      numvalid[0] = numvalid[0] + (1 if missing[j] >= 0 else 0)
     automatic-tests: false
     manual-tests: []
 
@@ -6244,7 +6244,7 @@ kernels:
           for i in range(repetitions):
               for j in range(indexlength):
                   base = index[j]
-                  outindex[(i * indexlength) + j] = base + i * regularsize if base >= 0 else 0
+                  outindex[(i * indexlength) + j] = base + (i * regularsize if base >= 0 else 0)
     automatic-tests: true
     manual-tests: []
 
-- 
2.43.0


From b5f3011c011d0ac30681f79841be35d77127bdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:52 +0000
Subject: [PATCH 04/74] fix: keep masked values missing when overlaying a mask
 on an unsigned index

With a uint32 index, (m ? -1 : fromindex[i]) is 4294967295 rather than -1.
---
 src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp b/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp
index de98cec..2e4b2e5 100644
--- a/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp
+++ b/src/cpu-kernels/awkward_IndexedArray_overlay_mask.cpp
@@ -12,7 +12,7 @@ ERROR awkward_IndexedArray_overlay_mask(
   int64_t length) {
   for (int64_t i = 0;  i < length;  i++) {
     M m = mask[i];
-    toindex[i] = (m ? -1 : fromindex[i]);
+    toindex[i] = (m ? (TO)-1 : (TO)fromindex[i]);
   }
   return success();
 }
-- 
2.43.0


From 9b3848d15fbda78dd4444f27b9856028cd10238b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:53 +0000
Subject: [PATCH 05/74] fix: num at an inner axis of lists whose offsets do not
 start at zero

The counts of the whole content were cut with offsets shifted to start at
zero, so ak.num(array[1:], axis=2) counted the wrong lists.
---
 src/libawkward/array/ListOffsetArray.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index cd0a039..e348c6c 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -967,11 +967,10 @@ namespace awkward {
     }
     else {
       ContentPtr next = content_.get()->num(posaxis, depth + 1);
-      Index64 offsets = compact_offsets64(true);
-      return std::make_shared<ListOffsetArray64>(Identities::none(),
-                                                 util::Parameters(),
-                                                 offsets,
-                                                 next);
+      return std::make_shared<ListOffsetArrayOf<T>>(Identities::none(),
+                                                    util::Parameters(),
+                                                    offsets_,
+                                                    next);
     }
   }
 
-- 
2.43.0


From cf064d5d20b01acde5bb78709277c45ad72c8b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:30 +0000
Subject: [PATCH 06/74] fix: heap overflow in combinations of regular lists
 shorter than n

The kernel writes n entries of toindex and fromindex, of which only
'size' were allocated.
---
 src/libawkward/array/RegularArray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index 58854a3..afc1bb4 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -1218,10 +1218,10 @@ namespace awkward {
       }
       std::shared_ptr<int64_t> toindex =
           kernel::malloc<int64_t>(kernel::lib::cpu,   // DERIVE
-                                  size*(int64_t)sizeof(int64_t));
+                                  n*(int64_t)sizeof(int64_t));
       std::shared_ptr<int64_t> fromindex =
           kernel::malloc<int64_t>(kernel::lib::cpu,   // DERIVE
-                                  size*(int64_t)sizeof(int64_t));
+                                  n*(int64_t)sizeof(int64_t));
 
       if (size_ != 0) {
         struct Error err = kernel::RegularArray_combinations_64(
-- 
2.43.0


From 2c19ae07a827cf453f4d39b73b00877faea8e582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:30 +0000
Subject: [PATCH 07/74] fix: rpad_and_clip of an UnmaskedArray at axis=0 clips

---
 src/libawkward/array/UnmaskedArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/UnmaskedArray.cpp b/src/libawkward/array/UnmaskedArray.cpp
index d1ef89b..cd0b0c4 100644
--- a/src/libawkward/array/UnmaskedArray.cpp
+++ b/src/libawkward/array/UnmaskedArray.cpp
@@ -883,7 +883,7 @@ namespace awkward {
                                int64_t depth) const {
     int64_t posaxis = axis_wrap_if_negative(axis);
     if (posaxis == depth) {
-      return rpad_axis0(target, false);
+      return rpad_axis0(target, true);
     }
     else if (posaxis == depth + 1) {
       return content_.get()->rpad_and_clip(target, posaxis, depth);
-- 
2.43.0


From da5b88c58aee3f8d35a9df577080f21a783ca924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:30 +0000
Subject: [PATCH 08/74] fix: combinations at axis=0 of option-type arrays
 return valid arrays

The fields were IndexedArrays of option-type or indexed content, which
the validity check rejects.
---
 src/libawkward/Content.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 39a6e99..b2c5702 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1354,11 +1354,11 @@ namespace awkward {
 
     ContentPtrVec contents;
     for (auto ptr : tocarry) {
-      contents.push_back(std::make_shared<IndexedArray64>(
+      contents.push_back(IndexedArray64(
         Identities::none(),
         util::Parameters(),
         Index64(ptr, 0, combinationslen, kernel::lib::cpu),   // DERIVE
-        shallow_copy()));
+        shallow_copy()).simplify_optiontype());
     }
     return std::make_shared<RecordArray>(Identities::none(),
                                          parameters,
-- 
2.43.0


From 497468b0183b3b971293032e70a5159e8395dde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:19 +0000
Subject: [PATCH 09/74] fix: reducers over lists whose offsets do not start at
 zero

argmin and argmax subtracted untrimmed list starts from positions in the
trimmed content: ak.argmax(array[1:], axis=1) returned wrong positions.
---
 src/libawkward/array/ListOffsetArray.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index e348c6c..f8f2558 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1352,6 +1352,17 @@ namespace awkward {
     int64_t outlength,
     bool mask,
     bool keepdims) const {
+    if (offsets_.getitem_at_nowrap(0) != 0) {
+      return toListOffsetArray64(true).get()->reduce_next(reducer,
+                                                          negaxis,
+                                                          starts,
+                                                          shifts,
+                                                          parents,
+                                                          outlength,
+                                                          mask,
+                                                          keepdims);
+    }
+
     std::pair<bool, int64_t> branchdepth = branch_depth();
 
     if (!branchdepth.first  &&  negaxis == branchdepth.second) {
-- 
2.43.0


From 92292abb03a2a9cd6682b755432ffffed2992aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:19 +0000
Subject: [PATCH 10/74] fix: argmin and argmax of complex numbers read the
 wrong elements

The current best position was looked up with the index doubled on the
wrong side, reading outside the output and comparing unrelated values.
---
 src/cpu-kernels/awkward_reduce_argmax_complex.cpp | 6 +++---
 src/cpu-kernels/awkward_reduce_argmin_complex.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cpu-kernels/awkward_reduce_argmax_complex.cpp b/src/cpu-kernels/awkward_reduce_argmax_complex.cpp
index 37069b7..e281bb7 100644
--- a/src/cpu-kernels/awkward_reduce_argmax_complex.cpp
+++ b/src/cpu-kernels/awkward_reduce_argmax_complex.cpp
@@ -17,9 +17,9 @@ ERROR awkward_reduce_argmax_complex(
   for (int64_t i = 0;  i < lenparents;  i++) {
     int64_t parent = parents[i];
     if (toptr[parent] == -1  ||
-      (fromptr[i * 2] > fromptr[toptr[parent * 2]]  ||
-        (fromptr[i * 2] == fromptr[toptr[parent * 2]]  &&
-         fromptr[i * 2 + 1] > fromptr[toptr[parent * 2 + 1]]))) {
+      (fromptr[i * 2] > fromptr[toptr[parent] * 2]  ||
+        (fromptr[i * 2] == fromptr[toptr[parent] * 2]  &&
+         fromptr[i * 2 + 1] > fromptr[toptr[parent] * 2 + 1]))) {
       toptr[parent] = i;
     }
   }
diff --git a/src/cpu-kernels/awkward_reduce_argmin_complex.cpp b/src/cpu-kernels/awkward_reduce_argmin_complex.cpp
index 711c050..a106410 100644
--- a/src/cpu-kernels/awkward_reduce_argmin_complex.cpp
+++ b/src/cpu-kernels/awkward_reduce_argmin_complex.cpp
@@ -17,9 +17,9 @@ ERROR awkward_reduce_argmin_complex(
   for (int64_t i = 0;  i < lenparents;  i++) {
     int64_t parent = parents[i];
     if (toptr[parent] == -1  ||
-      (fromptr[i * 2] < fromptr[toptr[parent * 2]]  ||
-        (fromptr[i * 2] == fromptr[toptr[parent * 2]]  &&
-         fromptr[i * 2 + 1] < fromptr[toptr[parent * 2 + 1]]))) {
+      (fromptr[i * 2] < fromptr[toptr[parent] * 2]  ||
+        (fromptr[i * 2] == fromptr[toptr[parent] * 2]  &&
+         fromptr[i * 2 + 1] < fromptr[toptr[parent] * 2 + 1]))) {
       toptr[parent] = i;
     }
   }
-- 
2.43.0


From a40854f4105e81ab5ded98135716e5492bde8abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:19 +0000
Subject: [PATCH 11/74] fix: reducing across lists when some group has only
 empty lists

The gaps between output groups counted lists that are empty, so that
results were assigned to the wrong group: ak.sum([[[]], [[], [1]]], axis=1)
was [[1], []]. Every group occupies maxcount slots of the distincts array,
which is enough to find its start and stop.
---
 kernel-specification.yml                      | 26 +++++++------------
 ...rray_reduce_nonlocal_outstartsstops_64.cpp | 25 +++++-------------
 2 files changed, 16 insertions(+), 35 deletions(-)

diff --git a/kernel-specification.yml b/kernel-specification.yml
index ab82a3b..e3f5c1c 100644
--- a/kernel-specification.yml
+++ b/kernel-specification.yml
@@ -3142,23 +3142,15 @@ kernels:
       def awkward_ListOffsetArray_reduce_nonlocal_outstartsstops_64(
           outstarts, outstops, distincts, lendistincts, gaps, outlength
       ):
-          j = 0
-          k = 0
-          maxdistinct = -1
-          for i in range(lendistincts):
-              if maxdistinct < distincts[i]:
-                  maxdistinct = distincts[i]
-                  for gappy in range(gaps[j]):
-                      outstarts[k] = i
-                      outstops[k] = i
-                      k = k + 1
-                  j = j + 1
-              if distincts[i] != -1:
-                  outstops[k - 1] = i + 1
-          while k < outlength:
-              outstarts[k] = lendistincts + 1
-              outstops[k] = lendistincts + 1
-              k = k + 1
+          maxcount = 0
+          if outlength != 0:
+              maxcount = lendistincts // outlength
+          for k in range(outlength):
+              outstarts[k] = k * maxcount
+              outstops[k] = k * maxcount
+              for j in range(maxcount):
+                  if distincts[k * maxcount + j] != -1:
+                      outstops[k] = k * maxcount + j + 1
     automatic-tests: true
     manual-tests: []
 
diff --git a/src/cpu-kernels/awkward_ListOffsetArray_reduce_nonlocal_outstartsstops_64.cpp b/src/cpu-kernels/awkward_ListOffsetArray_reduce_nonlocal_outstartsstops_64.cpp
index 5be6ea5..e62ce77 100644
--- a/src/cpu-kernels/awkward_ListOffsetArray_reduce_nonlocal_outstartsstops_64.cpp
+++ b/src/cpu-kernels/awkward_ListOffsetArray_reduce_nonlocal_outstartsstops_64.cpp
@@ -11,26 +11,15 @@ ERROR awkward_ListOffsetArray_reduce_nonlocal_outstartsstops_64(
   int64_t lendistincts,
   const int64_t* gaps,
   int64_t outlength) {
-  int64_t j = 0;
-  int64_t k = 0;
-  int64_t maxdistinct = -1;
-  for (int64_t i = 0;  i < lendistincts;  i++) {
-    if (maxdistinct < distincts[i]) {
-      maxdistinct = distincts[i];
-      for (int64_t gappy = 0;  gappy < gaps[j];  gappy++) {
-        outstarts[k] = i;
-        outstops[k] = i;
-        k++;
+  int64_t maxcount = (outlength == 0 ? 0 : lendistincts / outlength);
+  for (int64_t k = 0;  k < outlength;  k++) {
+    outstarts[k] = k * maxcount;
+    outstops[k] = k * maxcount;
+    for (int64_t j = 0;  j < maxcount;  j++) {
+      if (distincts[k * maxcount + j] != -1) {
+        outstops[k] = k * maxcount + j + 1;
       }
-      j++;
     }
-    if (distincts[i] != -1) {
-      outstops[k - 1] = i + 1;
-    }
-  }
-  for (;  k < outlength;  k++) {
-    outstarts[k] = lendistincts + 1;
-    outstops[k] = lendistincts + 1;
   }
   return success();
 }
-- 
2.43.0


From 92726cc51a15d939ed18829f29a34feb4b085c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:19 +0000
Subject: [PATCH 12/74] fix: the identity of max over complex numbers is minus
 infinity

It was zero, so the maximum of numbers with negative real parts was 0.
---
 src/libawkward/Reducer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/Reducer.cpp b/src/libawkward/Reducer.cpp
index 637ba3f..33d25d1 100644
--- a/src/libawkward/Reducer.cpp
+++ b/src/libawkward/Reducer.cpp
@@ -2334,7 +2334,7 @@ namespace awkward {
     kernel::lib ptr_lib = kernel::lib::cpu;   // DERIVE
     std::shared_ptr<std::complex<float>> ptr = kernel::malloc<std::complex<float>>(
       ptr_lib, outlength*(int64_t)sizeof(std::complex<float>));
-    float initial = 0;
+    float initial = -std::numeric_limits<float>::infinity();
     if (has_initial_) {
       initial = (float)initial_f64_;
     }
@@ -2357,7 +2357,7 @@ namespace awkward {
     kernel::lib ptr_lib = kernel::lib::cpu;   // DERIVE
     std::shared_ptr<std::complex<double>> ptr = kernel::malloc<std::complex<double>>(
       ptr_lib, outlength*(int64_t)sizeof(std::complex<double>));
-    double initial = 0;
+    double initial = -std::numeric_limits<double>::infinity();
     if (has_initial_) {
       initial = (double)initial_f64_;
     }
-- 
2.43.0


From b88cf87cb39bd7ae68d30e92600041b6a4c1dbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:45 +0000
Subject: [PATCH 13/74] fix: masked reducers over optional lists return valid
 arrays

The missing lists and the masked identities were two nested option types.
---
 src/libawkward/array/ByteMaskedArray.cpp | 8 ++++----
 src/libawkward/array/IndexedArray.cpp    | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/array/ByteMaskedArray.cpp b/src/libawkward/array/ByteMaskedArray.cpp
index bd18377..96a265b 100644
--- a/src/libawkward/array/ByteMaskedArray.cpp
+++ b/src/libawkward/array/ByteMaskedArray.cpp
@@ -1212,10 +1212,10 @@ namespace awkward {
           raw->identities(),
           raw->parameters(),
           outoffsets,
-          std::make_shared<IndexedOptionArray64>(Identities::none(),
-                                                 util::Parameters(),
-                                                 outindex,
-                                                 raw->content()));
+          IndexedOptionArray64(Identities::none(),
+                               util::Parameters(),
+                               outindex,
+                               raw->content()).simplify_optiontype());
       }
       else {
         throw std::runtime_error(
diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index 78770f2..0ef795c 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2283,10 +2283,10 @@ namespace awkward {
           raw->identities(),
           raw->parameters(),
           outoffsets,
-          std::make_shared<IndexedOptionArray64>(Identities::none(),
-                                                 util::Parameters(),
-                                                 outindex,
-                                                 raw->content()));
+          IndexedOptionArray64(Identities::none(),
+                               util::Parameters(),
+                               outindex,
+                               raw->content()).simplify_optiontype());
       }
       else {
         throw std::runtime_error(
-- 
2.43.0


From 90281dd0ffe95cabe4d8c883e6c33a7b5b2f6546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:45 +0000
Subject: [PATCH 14/74] fix: argmin and argmax across lists count missing lists

ak.argmax([None, [1]], axis=0) was [0], as were the positions across lists
of an indexed array: the shifts that account for dropped values were not
handed on.
---
 kernel-specification.yml                      |  2 +-
 ...setArray_reduce_nonlocal_nextshifts_64.cpp |  2 +-
 src/libawkward/array/IndexedArray.cpp         |  2 +-
 src/libawkward/array/ListOffsetArray.cpp      | 29 ++++++++++++++++++-
 4 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/kernel-specification.yml b/kernel-specification.yml
index e3f5c1c..6f2dc72 100644
--- a/kernel-specification.yml
+++ b/kernel-specification.yml
@@ -3095,7 +3095,7 @@ kernels:
               start = offsets[i]
               stop = offsets[i + 1]
               count = stop - start
-              if starts[parents[i]] == i:
+              if i == 0 or parents[i] != parents[i - 1]:
                   for k in range(maxcount):
                       nummissing[k] = 0
               for k in range(count, maxcount):
diff --git a/src/cpu-kernels/awkward_ListOffsetArray_reduce_nonlocal_nextshifts_64.cpp b/src/cpu-kernels/awkward_ListOffsetArray_reduce_nonlocal_nextshifts_64.cpp
index 0ce622f..7bb5c3c 100644
--- a/src/cpu-kernels/awkward_ListOffsetArray_reduce_nonlocal_nextshifts_64.cpp
+++ b/src/cpu-kernels/awkward_ListOffsetArray_reduce_nonlocal_nextshifts_64.cpp
@@ -20,7 +20,7 @@ ERROR awkward_ListOffsetArray_reduce_nonlocal_nextshifts_64(
     int64_t stop = offsets[i + 1];
     int64_t count = stop - start;
 
-    if (starts[parents[i]] == i) {
+    if (i == 0  ||  parents[i] != parents[i - 1]) {
       for (int64_t k = 0;  k < maxcount;  k++) {
         nummissing[k] = 0;
       }
diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index 0ef795c..0ff42ae 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2248,7 +2248,7 @@ namespace awkward {
     ContentPtr out = next.get()->reduce_next(reducer,
                                              negaxis,
                                              starts,
-                                             nextshifts,
+                                             ISOPTION ? nextshifts : shifts,
                                              nextparents,
                                              outlength,
                                              mask,
diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index f8f2558..1ac2c8e 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1439,7 +1439,9 @@ namespace awkward {
         outlength);
       util::handle_error(err6, classname(), identities_.get());
 
-      bool make_shifts = reducer.returns_positions();
+      // Across more than one level of lists, positions are numbered among the
+      // lists that are present (see test_0835's test_argmin_argmax).
+      bool make_shifts = (reducer.returns_positions()  &&  negaxis == 2);
 
       Index64 nextshifts(make_shifts ? nextlen : 0);
       if (make_shifts) {
@@ -1458,6 +1460,31 @@ namespace awkward {
           nextlen,
           nextcarry.data());
         util::handle_error(err7, classname(), identities_.get());
+
+        // nextshifts count from the first list of each group; positions must
+        // also count the missing values that have been dropped before that.
+        Index64 position(missing.length());
+        int64_t first = 0;
+        for (int64_t i = 0;  i < offsets_.length() - 1;  i++) {
+          int64_t parent = parents.getitem_at_nowrap(i);
+          if (i == 0  ||  parent != parents.getitem_at_nowrap(i - 1)) {
+            first = i;
+          }
+          int64_t dropped = first - starts.getitem_at_nowrap(parent);
+          if (shifts.length() != 0) {
+            dropped += shifts.getitem_at_nowrap(i);
+          }
+          for (int64_t j = offsets_.getitem_at_nowrap(i);
+               j < offsets_.getitem_at_nowrap(i + 1);
+               j++) {
+            position.setitem_at_nowrap(j, dropped);
+          }
+        }
+        for (int64_t k = 0;  k < nextlen;  k++) {
+          nextshifts.setitem_at_nowrap(k,
+            nextshifts.getitem_at_nowrap(k)
+            + position.getitem_at_nowrap(nextcarry.getitem_at_nowrap(k)));
+        }
       }
 
       ContentPtr nextcontent = content_.get()->carry(nextcarry, false);
-- 
2.43.0


From 258799ece0306095e403895f7fc4ce51a632b835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:40 +0000
Subject: [PATCH 15/74] fix: reducing across regular lists when some group is
 empty

ak.sum over axis=1 of variable-length lists of regular lists raised
"cannot convert to RegularArray" if any of the lists was empty.
---
 src/libawkward/array/RegularArray.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index afc1bb4..e33fa3f 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -1050,6 +1050,20 @@ namespace awkward {
     }
   }
 
+  // A list reduced from no lists at all is empty, whatever the regular size.
+  template <typename LIST>
+  const ContentPtr
+  regular_if_possible(const LIST* list) {
+    Index64 offsets = list->compact_offsets64(true);
+    for (int64_t i = 1;  i < offsets.length();  i++) {
+      if (offsets.getitem_at_nowrap(i) - offsets.getitem_at_nowrap(i - 1)
+          != offsets.getitem_at_nowrap(1)) {
+        return list->shallow_copy();
+      }
+    }
+    return list->toRegularArray();
+  }
+
   const ContentPtr
   RegularArray::reduce_next(const Reducer& reducer,
                             int64_t negaxis,
@@ -1084,13 +1098,13 @@ namespace awkward {
             out = std::make_shared<ListOffsetArray64>(raw1->identities(),
                                                       raw1->parameters(),
                                                       raw1->offsets(),
-                                                      raw2->toRegularArray());
+                                                      regular_if_possible(raw2));
           }
           else if (ListArray64* raw2 = dynamic_cast<ListArray64*>(raw1->content().get())) {
             out = std::make_shared<ListOffsetArray64>(raw1->identities(),
                                                       raw1->parameters(),
                                                       raw1->offsets(),
-                                                      raw2->toRegularArray());
+                                                      regular_if_possible(raw2));
           }
         }
         else if (ListArray64* raw1 = dynamic_cast<ListArray64*>(out.get())) {
@@ -1099,24 +1113,24 @@ namespace awkward {
                                                 raw1->parameters(),
                                                 raw1->starts(),
                                                 raw1->stops(),
-                                                raw2->toRegularArray());
+                                                regular_if_possible(raw2));
           }
           else if (ListArray64* raw2 = dynamic_cast<ListArray64*>(raw1->content().get())) {
             out = std::make_shared<ListArray64>(raw1->identities(),
                                                 raw1->parameters(),
                                                 raw1->starts(),
                                                 raw1->stops(),
-                                                raw2->toRegularArray());
+                                                regular_if_possible(raw2));
           }
         }
       }
 
       if (convert_shallow) {
         if (ListOffsetArray64* raw1 = dynamic_cast<ListOffsetArray64*>(out.get())) {
-          out = raw1->toRegularArray();
+          out = regular_if_possible(raw1);
         }
         else if (ListArray64* raw1 = dynamic_cast<ListArray64*>(out.get())) {
-          out = raw1->toRegularArray();
+          out = regular_if_possible(raw1);
         }
       }
     }
-- 
2.43.0


From 438c72b95452eaa8f11792e1cfacef441a16081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:24 +0000
Subject: [PATCH 16/74] fix: sort and argsort of lists whose offsets do not
 start at zero

---
 src/libawkward/array/ListOffsetArray.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 1ac2c8e..9500e78 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1796,6 +1796,16 @@ namespace awkward {
       }
     }
 
+    if (offsets_.getitem_at_nowrap(0) != 0) {
+      return toListOffsetArray64(true).get()->sort_next(negaxis,
+                                                      starts,
+                                                      parents,
+                                                      outlength,
+                                                      ascending,
+                                                      stable,
+                                                      keepdims);
+    }
+
     if (!branchdepth.first  &&  negaxis == branchdepth.second) {
       if (purelist_parameter("__array__") == "\"string\""  ||
           purelist_parameter("__array__") == "\"bytestring\"") {
@@ -2000,6 +2010,16 @@ namespace awkward {
       }
     }
 
+    if (offsets_.getitem_at_nowrap(0) != 0) {
+      return toListOffsetArray64(true).get()->argsort_next(negaxis,
+                                                      starts,
+                                                      parents,
+                                                      outlength,
+                                                      ascending,
+                                                      stable,
+                                                      keepdims);
+    }
+
     if (!branchdepth.first  &&  negaxis == branchdepth.second) {
       if (purelist_parameter("__array__") == "\"string\""  ||
           purelist_parameter("__array__") == "\"bytestring\"") {
-- 
2.43.0


From 89a4a0e45851f9be6be3b47c510fcc7110fc2c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:24 +0000
Subject: [PATCH 17/74] fix: sort and argsort keep missing values at the
 outermost level and missing lists below the sorted axis

---
 src/libawkward/array/IndexedArray.cpp | 192 ++++++++------------------
 1 file changed, 54 insertions(+), 138 deletions(-)

diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index 0ff42ae..cce7982 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2391,7 +2391,6 @@ namespace awkward {
     int64_t index_length = index_.length();
     int64_t parents_length = parents.length();
 
-    int64_t starts_length = starts.length();
     int64_t numnull(0);
     struct Error err1 = kernel::IndexedArray_numnull<T>(
       kernel::lib::cpu,   // DERIVE
@@ -2416,11 +2415,17 @@ namespace awkward {
 
     ContentPtr next = content_.get()->carry(nextcarry, false);
 
-    bool inject_nones = false;
     std::pair<bool, int64_t> branchdepth = branch_depth();
-    if (numnull > 0  &&  !branchdepth.first  &&  negaxis != branchdepth.second) {
-      keepdims = false;
-      inject_nones = true;
+    bool across = !branchdepth.first  &&  negaxis == branchdepth.second;
+    if (keepdims  &&  across  &&  negaxis != 1) {
+      // sorting across lists at the outermost level: missing lists are left out
+      return next.get()->sort_next(negaxis,
+                                   starts,
+                                   nextparents,
+                                   outlength,
+                                   ascending,
+                                   stable,
+                                   keepdims);
     }
     ContentPtr out = next.get()->sort_next(negaxis,
                                            starts,
@@ -2428,80 +2433,33 @@ namespace awkward {
                                            outlength,
                                            ascending,
                                            stable,
-                                           keepdims);
+                                           false);
 
-    Index64 nextoutindex(parents_length);
-    struct Error err3 = kernel::IndexedArray_local_preparenext_64(
+    // If this is the level being sorted, missing values go last in each group;
+    // otherwise, they stay where they are.
+    if (across) {
+      struct Error err3 = kernel::IndexedArray_local_preparenext_64(
         kernel::lib::cpu,   // DERIVE
-        nextoutindex.data(),
+        outindex.data(),
         starts.data(),
         parents.data(),
         parents_length,
         nextparents.data(),
         next_length);
-    util::handle_error(err3, classname(), identities_.get());
+      util::handle_error(err3, classname(), identities_.get());
+    }
 
     IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
                                           parameters_,
-                                          nextoutindex,
+                                          outindex,
                                           out);
     out = tmp.simplify_optiontype();
 
-    if (inject_nones) {
+    if (keepdims) {
       out = std::make_shared<RegularArray>(Identities::none(),
                                            util::Parameters(),
                                            out,
-                                           parents_length,
-                                           0);
-    }
-
-    if (!branchdepth.first  &&  negaxis == branchdepth.second) {
-      return out;
-    }
-    else {
-      if (RegularArray* raw =
-        dynamic_cast<RegularArray*>(out.get())) {
-        out = raw->toListOffsetArray64(true);
-      }
-      if (ListOffsetArray64* raw =
-        dynamic_cast<ListOffsetArray64*>(out.get())) {
-        Index64 outoffsets(starts.length() + 1);
-        if (starts.length() > 0  &&  starts.getitem_at_nowrap(0) != 0) {
-          throw std::runtime_error(
-            std::string("sort_next with unbranching depth > negaxis expects a "
-                        "ListOffsetArray64 whose offsets start at zero")
-            + FILENAME(__LINE__));
-        }
-        struct Error err4 = kernel::IndexedArray_reduce_next_fix_offsets_64(
-          kernel::lib::cpu,   // DERIVE
-          outoffsets.data(),
-          starts.data(),
-          starts_length,
-          outindex.length());
-        util::handle_error(err4, classname(), identities_.get());
-
-        IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
-                                              parameters_,
-                                              outindex,
-                                              raw->content());
-        return std::make_shared<ListOffsetArray64>(
-          raw->identities(),
-          raw->parameters(),
-          outoffsets,
-          tmp.simplify_optiontype());
-      }
-      if (IndexedArrayOf<int64_t, ISOPTION>* raw =
-        dynamic_cast<IndexedArrayOf<int64_t, ISOPTION>*>(out.get())) {
-          return out;
-      }
-      else {
-        throw std::runtime_error(
-          std::string("sort_next with unbranching depth > negaxis is only "
-                      "expected to return RegularArray or ListOffsetArray64 or "
-                      "IndexedArrayOf<int64_t, ISOPTION>; "
-                      "instead, it returned ") + out.get()->classname()
-          + FILENAME(__LINE__));
-      }
+                                           out.get()->length());
     }
 
     return out;
@@ -2523,7 +2481,6 @@ namespace awkward {
     int64_t index_length = index_.length();
     int64_t parents_length = parents.length();
 
-    int64_t starts_length = starts.length();
     int64_t numnull(0);
     struct Error err1 = kernel::IndexedArray_numnull<T>(
       kernel::lib::cpu,   // DERIVE
@@ -2548,92 +2505,51 @@ namespace awkward {
 
     ContentPtr next = content_.get()->carry(nextcarry, false);
 
-    bool inject_nones = false;
     std::pair<bool, int64_t> branchdepth = branch_depth();
-    if (numnull > 0  &&  !branchdepth.first  &&  negaxis != branchdepth.second) {
-      keepdims = false;
-      inject_nones = true;
+    bool across = !branchdepth.first  &&  negaxis == branchdepth.second;
+    if (keepdims  &&  across  &&  negaxis != 1) {
+      // sorting across lists at the outermost level: missing lists are left out
+      return next.get()->argsort_next(negaxis,
+                                   starts,
+                                   nextparents,
+                                   outlength,
+                                   ascending,
+                                   stable,
+                                   keepdims);
     }
     ContentPtr out = next.get()->argsort_next(negaxis,
-                                              starts,
-                                              nextparents,
-                                              outlength,
-                                              ascending,
-                                              stable,
-                                              keepdims);
-
-    Index64 nextoutindex(parents_length);
-    struct Error err3 = kernel::IndexedArray_local_preparenext_64(
-      kernel::lib::cpu,   // DERIVE
-      nextoutindex.data(),
-      starts.data(),
-      parents.data(),
-      parents_length,
-      nextparents.data(),
-      next_length);
-    util::handle_error(err3, classname(), identities_.get());
+                                           starts,
+                                           nextparents,
+                                           outlength,
+                                           ascending,
+                                           stable,
+                                           false);
+
+    // If this is the level being sorted, missing values go last in each group;
+    // otherwise, they stay where they are.
+    if (across) {
+      struct Error err3 = kernel::IndexedArray_local_preparenext_64(
+        kernel::lib::cpu,   // DERIVE
+        outindex.data(),
+        starts.data(),
+        parents.data(),
+        parents_length,
+        nextparents.data(),
+        next_length);
+      util::handle_error(err3, classname(), identities_.get());
+    }
 
     IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
                                           util::Parameters(),
-                                          nextoutindex,
+                                          outindex,
                                           out);
     out = tmp.simplify_optiontype();
 
-    if (inject_nones) {
+    if (keepdims) {
       out = std::make_shared<RegularArray>(Identities::none(),
                                            util::Parameters(),
                                            out,
-                                           parents_length,
-                                           0);
-    }
-
-    if (!branchdepth.first  &&  negaxis == branchdepth.second) {
-      return out;
-    }
-    else {
-      if (RegularArray* raw =
-        dynamic_cast<RegularArray*>(out.get())) {
-          out = raw->toListOffsetArray64(true);
-      }
-      if (ListOffsetArray64* raw =
-        dynamic_cast<ListOffsetArray64*>(out.get())) {
-        Index64 outoffsets(starts.length() + 1);
-        if (starts.length() > 0  &&  starts.getitem_at_nowrap(0) != 0) {
-          throw std::runtime_error(
-            std::string("argsort_next with unbranching depth > negaxis expects a "
-                        "ListOffsetArray64 whose offsets start at zero")
-            + FILENAME(__LINE__));
-        }
-        struct Error err4 = kernel::IndexedArray_reduce_next_fix_offsets_64(
-          kernel::lib::cpu,   // DERIVE
-          outoffsets.data(),
-          starts.data(),
-          starts_length,
-          outindex.length());
-        util::handle_error(err4, classname(), identities_.get());
-
-        IndexedArrayOf<int64_t, ISOPTION> tmp(Identities::none(),
-                                              util::Parameters(),
-                                              outindex,
-                                              raw->content());
-        return std::make_shared<ListOffsetArray64>(
-          raw->identities(),
-          raw->parameters(),
-          outoffsets,
-          tmp.simplify_optiontype());
-      }
-      if (IndexedArrayOf<int64_t, ISOPTION>* raw =
-        dynamic_cast<IndexedArrayOf<int64_t, ISOPTION>*>(out.get())) {
-          return out;
-      }
-      else {
-        throw std::runtime_error(
-          std::string("argsort_next with unbranching depth > negaxis is only "
-                      "expected to return RegularArray or ListOffsetArray64 or "
-                      "IndexedArrayOf<int64_t, ISOPTION>; "
-                      "instead, it returned ") + out.get()->classname()
-          + FILENAME(__LINE__));
-      }
+                                           out.get()->length());
     }
 
     return out;
-- 
2.43.0


From 748aeb4a25d9ffcf5f04fc2f85a291b19f5c6542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:24 +0000
Subject: [PATCH 18/74] fix: sort of lists of records returns arrays with the
 right length

---
 src/libawkward/array/RecordArray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 571f0d4..adea248 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1626,7 +1626,7 @@ namespace awkward {
                                          parameters_,
                                          contents,
                                          recordlookup_,
-                                         outlength);
+                                         keepdims ? outlength : length());
   }
 
   const ContentPtr
@@ -1657,7 +1657,7 @@ namespace awkward {
       util::Parameters(),
       contents,
       recordlookup_,
-      outlength);
+      keepdims ? outlength : length());
   }
 
   const ContentPtr
-- 
2.43.0


From ddf35d77b498a23a08129a9836a5b14344d9b83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:24 +0000
Subject: [PATCH 19/74] fix: string sorting is stable when descending and
 compares whole strings

---
 .../awkward_ListOffsetArray_argsort_strings.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp b/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
index 932270c..3d14425 100644
--- a/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
+++ b/src/cpu-kernels/awkward_ListOffsetArray_argsort_strings.cpp
@@ -19,24 +19,19 @@ ERROR awkward_ListOffsetArray_argsort_strings_impl(
   const int64_t* stringstops) {
 
   auto sorter =
-        [&stringdata, &stringstarts, &stringstops](int left, int right) -> bool {
+        [&stringdata, &stringstarts, &stringstops](int64_t one, int64_t two) -> bool {
+          int64_t left = is_ascending ? one : two;
+          int64_t right = is_ascending ? two : one;
           size_t left_n = stringstops[left] - stringstarts[left];
           size_t right_n = stringstops[right] - stringstarts[right];
           const char* left_str = &stringdata[stringstarts[left]];
           const char* right_str = &stringdata[stringstarts[right]];
-          int cmp = strncmp(left_str, right_str, std::min(left_n, right_n));
-          bool out;
+          int cmp = memcmp(left_str, right_str, std::min(left_n, right_n));
           if (cmp == 0) {
-            out = left_n < right_n;
+            return left_n < right_n;
           }
           else {
-            out = cmp < 0;
-          }
-          if (is_ascending) {
-            return out;
-          }
-          else {
-            return !out;
+            return cmp < 0;
           }
         };
 
-- 
2.43.0


From 4ba393547d73c33370d475e4888317213c0378b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:08 +0000
Subject: [PATCH 20/74] fix: merging records trims their fields and keeps the
 length of records without fields

---
 src/libawkward/array/RecordArray.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index adea248..57750bc 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1274,7 +1274,7 @@ namespace awkward {
     std::vector<ContentPtrVec> for_each_field;
     for (auto field : contents_) {
       ContentPtr trimmed = field.get()->getitem_range_nowrap(0, length_);
-      for_each_field.push_back(ContentPtrVec({ field }));
+      for_each_field.push_back(ContentPtrVec({ trimmed }));
     }
 
     if (istuple()) {
@@ -1361,6 +1361,12 @@ namespace awkward {
 
     ContentPtrVec nextcontents;
     int64_t minlength = -1;
+    if (for_each_field.empty()) {
+      minlength = 0;
+      for (auto array : head) {
+        minlength += array.get()->length();
+      }
+    }
     for (auto forfield : for_each_field) {
       ContentPtrVec tail_forfield(forfield.begin() + 1, forfield.end());
       ContentPtr merged = forfield[0].get()->mergemany(tail_forfield);
-- 
2.43.0


From e8bf036560263c58f9840b0cbf9f2802b76fbc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:08 +0000
Subject: [PATCH 21/74] fix: merging dates of the same unit keeps all 64 bits

---
 src/libawkward/array/NumpyArray.cpp | 54 +++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 1dc0ada..906829e 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -2920,14 +2920,27 @@ namespace awkward {
       case util::dtype::datetime64:
         switch (contiguous_array.dtype()) {
         case util::dtype::datetime64:
-          err = kernel::NumpyArray_fill_scaled<int64_t, int64_t>(
-            ptr_lib,
-            reinterpret_cast<int64_t*>(ptr.get()),
-            flatlength_so_far,
-            reinterpret_cast<int64_t*>(contiguous_array.data()),
-            flatlength,
-            util::scale_from_units(contiguous_array.format(), contiguous_index));
+        {
+          double scale = util::scale_from_units(contiguous_array.format(), contiguous_index);
+          if (scale == 1.0) {
+            err = kernel::NumpyArray_fill<int64_t, int64_t>(
+              ptr_lib,
+              reinterpret_cast<int64_t*>(ptr.get()),
+              flatlength_so_far,
+              reinterpret_cast<int64_t*>(contiguous_array.data()),
+              flatlength);
+          }
+          else {
+            err = kernel::NumpyArray_fill_scaled<int64_t, int64_t>(
+              ptr_lib,
+              reinterpret_cast<int64_t*>(ptr.get()),
+              flatlength_so_far,
+              reinterpret_cast<int64_t*>(contiguous_array.data()),
+              flatlength,
+              scale);
+          }
           break;
+        }
         default:
           throw std::runtime_error(
             std::string("dtype not in {datetime64}")
@@ -2939,14 +2952,27 @@ namespace awkward {
       case util::dtype::timedelta64:
         switch (contiguous_array.dtype()) {
         case util::dtype::timedelta64:
-          err = kernel::NumpyArray_fill_scaled<int64_t, int64_t>(
-            ptr_lib,
-            reinterpret_cast<int64_t*>(ptr.get()),
-            flatlength_so_far,
-            reinterpret_cast<int64_t*>(contiguous_array.data()),
-            flatlength,
-            util::scale_from_units(contiguous_array.format(), contiguous_index));
+        {
+          double scale = util::scale_from_units(contiguous_array.format(), contiguous_index);
+          if (scale == 1.0) {
+            err = kernel::NumpyArray_fill<int64_t, int64_t>(
+              ptr_lib,
+              reinterpret_cast<int64_t*>(ptr.get()),
+              flatlength_so_far,
+              reinterpret_cast<int64_t*>(contiguous_array.data()),
+              flatlength);
+          }
+          else {
+            err = kernel::NumpyArray_fill_scaled<int64_t, int64_t>(
+              ptr_lib,
+              reinterpret_cast<int64_t*>(ptr.get()),
+              flatlength_so_far,
+              reinterpret_cast<int64_t*>(contiguous_array.data()),
+              flatlength,
+              scale);
+          }
           break;
+        }
         default:
           throw std::runtime_error(
             std::string("dtype not in {timedelta64}")
-- 
2.43.0


From aa81fc97c77cfa1ba24ee809bb569ed498a29139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:08 +0000
Subject: [PATCH 22/74] fix: merging complex with real numbers places each
 value once

---
 src/libawkward/array/NumpyArray.cpp | 97 ++++++++++++++---------------
 1 file changed, 47 insertions(+), 50 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 906829e..5ddf40c 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -2679,73 +2679,73 @@ namespace awkward {
           err = kernel::NumpyArray_fill_frombool<std::complex<float>>(
             ptr_lib,
             reinterpret_cast<std::complex<float>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<bool*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::int8:
           err = kernel::NumpyArray_fill<int8_t, std::complex<float>>(
             ptr_lib,
             reinterpret_cast<std::complex<float>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<int8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::int16:
           err = kernel::NumpyArray_fill<int16_t, std::complex<float>>(
             ptr_lib,
             reinterpret_cast<std::complex<float>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<int16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::int32:
           err = kernel::NumpyArray_fill<int32_t, std::complex<float>>(
             ptr_lib,
             reinterpret_cast<std::complex<float>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<int32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::int64:
           err = kernel::NumpyArray_fill<int64_t, std::complex<float>>(
             ptr_lib,
             reinterpret_cast<std::complex<float>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<int64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::uint8:
           err = kernel::NumpyArray_fill<uint8_t, std::complex<float>>(
             ptr_lib,
             reinterpret_cast<std::complex<float>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<uint8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::uint16:
           err = kernel::NumpyArray_fill<uint16_t, std::complex<float>>(
             ptr_lib,
             reinterpret_cast<std::complex<float>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<uint16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::uint32:
           err = kernel::NumpyArray_fill<uint32_t, std::complex<float>>(
             ptr_lib,
             reinterpret_cast<std::complex<float>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<uint32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::uint64:
           err = kernel::NumpyArray_fill<uint64_t, std::complex<float>>(
             ptr_lib,
             reinterpret_cast<std::complex<float>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<uint64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::float16:
           throw std::runtime_error(
@@ -2756,26 +2756,25 @@ namespace awkward {
           err = kernel::NumpyArray_fill<float, std::complex<float>>(
             ptr_lib,
             reinterpret_cast<std::complex<float>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<float*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::float64:
           err = kernel::NumpyArray_fill<double, std::complex<float>>(
             ptr_lib,
             reinterpret_cast<std::complex<float>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<double*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::complex64:
           err = kernel::NumpyArray_fill<std::complex<float>, std::complex<float>>(
             ptr_lib,
             reinterpret_cast<std::complex<float>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<std::complex<float>*>(contiguous_array.data()),
             flatlength);
-            flatlength = flatlength * 2;
           break;
         default:
           throw std::runtime_error(
@@ -2793,73 +2792,73 @@ namespace awkward {
           err = kernel::NumpyArray_fill_frombool<std::complex<double>>(
             ptr_lib,
             reinterpret_cast<std::complex<double>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<bool*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::int8:
           err = kernel::NumpyArray_fill<int8_t, std::complex<double>>(
             ptr_lib,
             reinterpret_cast<std::complex<double>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<int8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::int16:
           err = kernel::NumpyArray_fill<int16_t, std::complex<double>>(
             ptr_lib,
             reinterpret_cast<std::complex<double>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<int16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::int32:
           err = kernel::NumpyArray_fill<int32_t, std::complex<double>>(
             ptr_lib,
             reinterpret_cast<std::complex<double>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<int32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::int64:
           err = kernel::NumpyArray_fill<int64_t, std::complex<double>>(
             ptr_lib,
             reinterpret_cast<std::complex<double>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<int64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::uint8:
           err = kernel::NumpyArray_fill<uint8_t, std::complex<double>>(
             ptr_lib,
             reinterpret_cast<std::complex<double>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<uint8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::uint16:
           err = kernel::NumpyArray_fill<uint16_t, std::complex<double>>(
             ptr_lib,
             reinterpret_cast<std::complex<double>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<uint16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::uint32:
           err = kernel::NumpyArray_fill<uint32_t, std::complex<double>>(
             ptr_lib,
             reinterpret_cast<std::complex<double>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<uint32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::uint64:
           err = kernel::NumpyArray_fill<uint64_t, std::complex<double>>(
             ptr_lib,
             reinterpret_cast<std::complex<double>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<uint64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::float16:
           throw std::runtime_error(
@@ -2870,35 +2869,33 @@ namespace awkward {
           err = kernel::NumpyArray_fill<float, std::complex<double>>(
             ptr_lib,
             reinterpret_cast<std::complex<double>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<float*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::float64:
           err = kernel::NumpyArray_fill<double, std::complex<double>>(
             ptr_lib,
             reinterpret_cast<std::complex<double>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<double*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
           break;
         case util::dtype::complex64:
           err = kernel::NumpyArray_fill<std::complex<float>, std::complex<double>>(
             ptr_lib,
             reinterpret_cast<std::complex<double>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<std::complex<float>*>(contiguous_array.data()),
             flatlength);
-            flatlength = flatlength * 2;
           break;
         case util::dtype::complex128:
           err = kernel::NumpyArray_fill<std::complex<double>, std::complex<double>>(
             ptr_lib,
             reinterpret_cast<std::complex<double>*>(ptr.get()),
-            flatlength_so_far,
+            2*flatlength_so_far,
             reinterpret_cast<std::complex<double>*>(contiguous_array.data()),
             flatlength);
-            flatlength = flatlength * 2;
           break;
         default:
           throw std::runtime_error(
-- 
2.43.0


From 30e1715541cc7aa672ee3bd7ab685b892e81ba71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:08 +0000
Subject: [PATCH 23/74] fix: merging option-type with indexed arrays stays
 option-type

---
 src/libawkward/array/IndexedArray.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index cce7982..0c2815e 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -1871,7 +1871,6 @@ namespace awkward {
       }
 
       if (IndexedArray32* raw = dynamic_cast<IndexedArray32*>(array.get())) {
-        is_option = false;
         contents.push_back(raw->content());
         Index32 array_index = raw->index();
         struct Error err = kernel::IndexedArray_fill<int32_t, int64_t>(
@@ -1886,7 +1885,6 @@ namespace awkward {
         length_so_far += array.get()->length();
       }
       else if (IndexedArrayU32* raw = dynamic_cast<IndexedArrayU32*>(array.get())) {
-        is_option = false;
         contents.push_back(raw->content());
         IndexU32 array_index = raw->index();
         struct Error err = kernel::IndexedArray_fill<uint32_t, int64_t>(
@@ -1901,7 +1899,6 @@ namespace awkward {
         length_so_far += array.get()->length();
       }
       else if (IndexedArray64* raw = dynamic_cast<IndexedArray64*>(array.get())) {
-        is_option = false;
         contents.push_back(raw->content());
         Index64 array_index = raw->index();
         struct Error err = kernel::IndexedArray_fill<int64_t, int64_t>(
-- 
2.43.0


From 45d581425405e1e44c091bf48dfea4b69adbffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:08 +0000
Subject: [PATCH 24/74] fix: merging into 32-bit indexed arrays raised

---
 src/libawkward/array/IndexedArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index 0c2815e..c5562a4 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -1770,7 +1770,7 @@ namespace awkward {
         theirlength);
       util::handle_error(err2, classname(), identities_.get());
     }
-    if (std::is_same<T, int64_t>::value) {
+    else if (std::is_same<T, int64_t>::value) {
       struct Error err2 = kernel::IndexedArray_fill<int64_t, int64_t>(
         kernel::lib::cpu,   // DERIVE
         index.data(),
-- 
2.43.0


From 3942edb90672336ba7acc2fb0218aa7f5cde4bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:23 +0000
Subject: [PATCH 25/74] fix: deep copies of arrays that start inside their
 buffer read past it

---
 src/libawkward/array/NumpyArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 5ddf40c..fab9b4f 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -1152,6 +1152,7 @@ namespace awkward {
           reinterpret_cast<uint8_t*>(data()),
           bytelength());
         util::handle_error(err, classname(), identities_.get());
+        byteoffset = 0;
       }
     }
     IdentitiesPtr identities = identities_;
-- 
2.43.0


From a7a03e8d63ac3c8d4243bfcb49f807c32409360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:29 +0000
Subject: [PATCH 26/74] fix: validity check of a string whose content is not a
 NumPy array dereferenced a null pointer

---
 src/libawkward/Content.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index b2c5702..88e2bc6 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1761,7 +1761,7 @@ namespace awkward {
         // }
       }
       else {
-        return (std::string("at ") + path + std::string(" (") + raw->classname()
+        return (std::string("at ") + path + std::string(" (") + content.get()->classname()
                 + std::string("): __array__ = \"char\" only allowed for NumpyArray"));
       }
       return std::string("");
@@ -1816,7 +1816,7 @@ namespace awkward {
         // }
       }
       else {
-        return (std::string("at ") + path + std::string(" (") + raw->classname()
+        return (std::string("at ") + path + std::string(" (") + content.get()->classname()
                 + std::string("): __array__ = \"byte\" only allowed for NumpyArray"));
       }
       return std::string("");
-- 
2.43.0


From 42aaba9c595e87d2df3020b3e96cc6264d00ca48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:29 +0000
Subject: [PATCH 27/74] fix: uniqueness of strided arrays was decided on the
 wrong values

---
 src/libawkward/array/NumpyArray.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index fab9b4f..a59d844 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -5244,7 +5244,7 @@ namespace awkward {
   bool
   NumpyArray::is_unique() const {
     if (ndim() == 1) {
-      const ContentPtr out = unique_data();
+      const ContentPtr out = unique();
       return (out.get()->length() == length());
     }
     else {
@@ -5258,6 +5258,9 @@ namespace awkward {
 
   const ContentPtr
   NumpyArray::unique() const {
+    if (!iscontiguous()) {
+      return contiguous().unique();
+    }
     return unique_data();
   }
 
-- 
2.43.0


From 10df338958a0cf8698f7658d97e1489ef7826ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:29 +0000
Subject: [PATCH 28/74] fix: uniqueness of strings miscounted empty strings

---
 src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp | 2 +-
 src/libawkward/array/NumpyArray.cpp                         | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp b/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp
index cbebea3..638faef 100644
--- a/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp
+++ b/src/cpu-kernels/awkward_NumpyArray_unique_strings_uint8.cpp
@@ -20,7 +20,7 @@ ERROR awkward_NumpyArray_unique_strings_uint8(
 
   for (int64_t i = 0;  i < offsetslength - 1;  i++) {
     differ = false;
-    if (offsets[i + 1] - offsets[i] != slen) {
+    if (i == 0  ||  offsets[i + 1] - offsets[i] != slen) {
       differ = true;
     }
     else {
diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index a59d844..dd9d626 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -3790,6 +3790,9 @@ namespace awkward {
 
   const ContentPtr
   NumpyArray::as_unique_strings(const Index64& offsets) const {
+    if (!iscontiguous()) {
+      return contiguous().as_unique_strings(offsets);
+    }
     std::shared_ptr<Content> out;
     std::shared_ptr<void> ptr;
     int64_t offsets_length = offsets.length();
@@ -5632,7 +5635,7 @@ namespace awkward {
                             int64_t& outlength) const {
     std::shared_ptr<T> ptr = kernel::malloc<T>(kernel::lib::cpu,   // DERIVE
                                                length*((int64_t)sizeof(T)));
-    if (length == 0) {
+    if (offsets.length() <= 1) {
       return ptr;
     }
 
-- 
2.43.0


From d9b53395ed4b553ac3f460e1643305d65839853f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:29 +0000
Subject: [PATCH 29/74] fix: uniqueness of indexed arrays skipped values when
 the index starts inside its buffer

---
 src/libawkward/array/IndexedArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index c5562a4..2f53342 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2779,7 +2779,7 @@ namespace awkward {
   bool
   IndexedArrayOf<T, ISOPTION>::is_unique() const {
     Index64 start(1);
-    start.setitem_at_nowrap(0, index().offset());
+    start.setitem_at_nowrap(0, 0);
     Index64 stop(1);
     stop.setitem_at_nowrap(0, index().length());
     return is_subrange_equal(start, stop);
-- 
2.43.0


From 94f86fe09bf4a5b31f3ce6a113db05dd25cc7d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:29 +0000
Subject: [PATCH 30/74] fix: records with a single repeated field were called
 unique

---
 src/libawkward/array/RecordArray.cpp | 28 +++++++++-------------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 57750bc..6b9e422 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1891,28 +1891,18 @@ namespace awkward {
     if (contents_.empty()) {
       return true;
     }
-    else {
-      int64_t non_unique_count = 0;
-      for (auto content : contents_) {
-        if (!content.get()->is_unique()) {
-          non_unique_count++;
-        }
-        else if (non_unique_count == 0) {
-          return true;
-        }
-      }
-      if (non_unique_count <= 1) {
+    for (int64_t i = 0;  i < numfields();  i++) {
+      if (field(i).get()->getitem_range_nowrap(0, length()).get()->is_unique()) {
         return true;
       }
-      else {
-        throw std::runtime_error(
-          std::string("FIXME: RecordArray::is_unique operation on a RecordArray ")
-          + std::string("with more than one non-unique content is not implemented yet")
-          + FILENAME(__LINE__));
-      }
     }
-
-    return false;
+    if (numfields() == 1) {
+      return false;
+    }
+    throw std::runtime_error(
+      std::string("FIXME: RecordArray::is_unique operation on a RecordArray ")
+      + std::string("with more than one non-unique content is not implemented yet")
+      + FILENAME(__LINE__));
   }
 
   const ContentPtr
-- 
2.43.0


From 585df9ba0f8aaf923d55428c83f88e03b35d7136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:02 +0000
Subject: [PATCH 31/74] fix: repartitioning with an empty last partition read
 past the partitions

---
 src/libawkward/partition/IrregularlyPartitionedArray.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libawkward/partition/IrregularlyPartitionedArray.cpp b/src/libawkward/partition/IrregularlyPartitionedArray.cpp
index 1b02b02..a918996 100644
--- a/src/libawkward/partition/IrregularlyPartitionedArray.cpp
+++ b/src/libawkward/partition/IrregularlyPartitionedArray.cpp
@@ -85,6 +85,11 @@ namespace awkward {
 
       while (dst.get() == nullptr  ||  dst.get()->length() < length) {
         ContentPtr piece(nullptr);
+        if (partitionid == numpartitions()) {
+          // only empty partitions remain to be made
+          dst = partitions_[0].get()->getitem_range_nowrap(0, 0);
+          break;
+        }
         ContentPtr src = partitions_[(size_t)partitionid];
         int64_t available = src.get()->length() - index;
         int64_t desired = (dst.get() == nullptr ? length
-- 
2.43.0


From 20dc1307f3801f3774fc1d4e5dad1a99c9f9b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:10 +0000
Subject: [PATCH 32/74] fix: an empty range of a partitioned array lost a level
 of lists

---
 src/libawkward/partition/PartitionedArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/partition/PartitionedArray.cpp b/src/libawkward/partition/PartitionedArray.cpp
index b1875e9..e3456cd 100644
--- a/src/libawkward/partition/PartitionedArray.cpp
+++ b/src/libawkward/partition/PartitionedArray.cpp
@@ -254,7 +254,7 @@ namespace awkward {
     }
 
     if (partitions.empty()) {
-      partitions.push_back(partitions_[0].get()->getitem_nothing());
+      partitions.push_back(partitions_[0].get()->getitem_range_nowrap(0, 0));
       stops.push_back(0);
     }
     return std::make_shared<IrregularlyPartitionedArray>(partitions, stops);
-- 
2.43.0


From d5694ff90a8911cd780adf03276e5b61dedecc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:31 +0000
Subject: [PATCH 33/74] fix: range of a partitioned array overflowed for steps
 beyond 2**62

---
 src/libawkward/partition/PartitionedArray.cpp | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/libawkward/partition/PartitionedArray.cpp b/src/libawkward/partition/PartitionedArray.cpp
index e3456cd..af933ed 100644
--- a/src/libawkward/partition/PartitionedArray.cpp
+++ b/src/libawkward/partition/PartitionedArray.cpp
@@ -168,7 +168,10 @@ namespace awkward {
             slice.append(SliceRange(index_start, plen, step));
             slice.become_sealed();
             p = p.get()->getitem(slice);
-            offset = ((index_start - plen) % step + step) % step;
+            offset = (index_start - plen) % step;
+            if (offset < 0) {
+              offset += step;
+            }
           }
         }
         else if (partitionid == partitionid_last) {
@@ -187,7 +190,10 @@ namespace awkward {
           slice.append(SliceRange(offset, plen, step));
           slice.become_sealed();
           p = p.get()->getitem(slice);
-          offset = ((offset - plen) % step + step) % step;
+          offset = (offset - plen) % step;
+          if (offset < 0) {
+            offset += step;
+          }
         }
 
         total_length += p.get()->length();
@@ -215,7 +221,10 @@ namespace awkward {
         else if (partitionid == partitionid_first) {
           a = index_start;
           b = -plen - 1;
-          offset = (((-1 - index_start) % -step + -step) % -step);
+          offset = (-1 - index_start) % -step;
+          if (offset < 0) {
+            offset += -step;
+          }
         }
         else if (partitionid == partitionid_last) {
           a = plen - 1 - offset;
@@ -224,7 +233,10 @@ namespace awkward {
         else {
           a = plen - 1 - offset;
           b = -plen - 1;
-          offset = (((-1 - (plen - 1 - offset)) % -step + -step) % -step);
+          offset = (offset - plen) % -step;
+          if (offset < 0) {
+            offset += -step;
+          }
         }
         // Avoid Python-like negative index handling of -1 by setting them to
         // a sufficiently negative value to mean "all the way to the edge."
-- 
2.43.0


From 70f5126b6a44b45dab3247d1031bf32d653af763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:21 +0000
Subject: [PATCH 34/74] fix: changing the number type of multidimensional
 arrays converted only the first dimension's count of values

---
 src/libawkward/array/NumpyArray.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index dd9d626..019370b 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -5129,9 +5129,11 @@ namespace awkward {
       ssize_t itemsize = util::dtype_to_itemsize(dtype);
       std::vector<ssize_t> shape = contiguous_self.shape();
       std::vector<ssize_t> strides;
+      int64_t numitems = 1;
       for (int64_t j = (int64_t)shape.size();  j > 0;  j--) {
         strides.insert(strides.begin(), itemsize);
         itemsize *= shape[(size_t)(j - 1)];
+        numitems *= (int64_t)shape[(size_t)(j - 1)];
       }
 
       IdentitiesPtr identities = contiguous_self.identities();
@@ -5142,47 +5144,47 @@ namespace awkward {
       switch (dtype_) {
       case util::dtype::boolean:
         ptr = as_type<bool>(reinterpret_cast<bool*>(contiguous_self.data()),
-                            contiguous_self.length(),
+                            numitems,
                             dtype);
         break;
       case util::dtype::int8:
         ptr = as_type<int8_t>(reinterpret_cast<int8_t*>(contiguous_self.data()),
-                              contiguous_self.length(),
+                              numitems,
                               dtype);
         break;
       case util::dtype::int16:
         ptr = as_type<int16_t>(reinterpret_cast<int16_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               numitems,
                                dtype);
         break;
       case util::dtype::int32:
         ptr = as_type<int32_t>(reinterpret_cast<int32_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               numitems,
                                dtype);
         break;
       case util::dtype::int64:
         ptr = as_type<int64_t>(reinterpret_cast<int64_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               numitems,
                                dtype);
         break;
       case util::dtype::uint8:
         ptr = as_type<uint8_t>(reinterpret_cast<uint8_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               numitems,
                                dtype);
         break;
       case util::dtype::uint16:
         ptr = as_type<uint16_t>(reinterpret_cast<uint16_t*>(contiguous_self.data()),
-                                contiguous_self.length(),
+                                numitems,
                                 dtype);
         break;
       case util::dtype::uint32:
         ptr = as_type<uint32_t>(reinterpret_cast<uint32_t*>(contiguous_self.data()),
-                                contiguous_self.length(),
+                                numitems,
                                 dtype);
         break;
       case util::dtype::uint64:
         ptr = as_type<uint64_t>(reinterpret_cast<uint64_t*>(contiguous_self.data()),
-                                contiguous_self.length(),
+                                numitems,
                                 dtype);
         break;
       case util::dtype::float16:
@@ -5192,12 +5194,12 @@ namespace awkward {
         break;
       case util::dtype::float32:
         ptr = as_type<float>(reinterpret_cast<float*>(contiguous_self.data()),
-                             contiguous_self.length(),
+                             numitems,
                              dtype);
         break;
       case util::dtype::float64:
         ptr = as_type<double>(reinterpret_cast<double*>(contiguous_self.data()),
-                              contiguous_self.length(),
+                              numitems,
                               dtype);
         break;
       case util::dtype::float128:
@@ -5207,12 +5209,12 @@ namespace awkward {
         break;
       case util::dtype::complex64:
         ptr = as_type<std::complex<float>>(reinterpret_cast<std::complex<float>*>(contiguous_self.data()),
-                                           contiguous_self.length(),
+                                           numitems,
                                            dtype);
         break;
       case util::dtype::complex128:
         ptr = as_type<std::complex<double>>(reinterpret_cast<std::complex<double>*>(contiguous_self.data()),
-                                            contiguous_self.length(),
+                                            numitems,
                                             dtype);
         break;
       case util::dtype::complex256:
-- 
2.43.0


From 74440299f124e0a05f1ba2c9e06a92fc811b6f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:36 +0000
Subject: [PATCH 35/74] fix: AwkwardForth 'exit' and single-stepping lost track
 of 'do' loops

---
 src/libawkward/forth/ForthMachine.cpp | 32 ++++++++++++---------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 78474f9..f099770 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2649,6 +2649,7 @@ namespace awkward {
   template <typename T, typename I>
   void
   ForthMachineOf<T, I>::internal_run(bool single_step, int64_t recursion_target_depth_top) { // noexcept
+    bool step_is_done = false;
     while (recursion_current_depth_ != recursion_target_depth_top) {
       while (bytecodes_pointer_where() < (
                  bytecodes_offsets_[(IndexTypeOf<int64_t>)bytecodes_pointer_which() + 1] -
@@ -3154,25 +3155,16 @@ namespace awkward {
               I exitdepth = bytecode_get();
               bytecodes_pointer_where()++;
               recursion_current_depth_ -= exitdepth;
+              // End the 'do' loops of the definition being exited, but not its callers'.
               while (do_current_depth_ != 0  &&
-                     do_abs_recursion_depth() != recursion_current_depth_) {
+                     do_abs_recursion_depth() >= recursion_current_depth_) {
                 do_current_depth_--;
               }
-
-              count_instructions_++;
-              if (single_step) {
-                if (is_segment_done()) {
-                  bytecodes_pointer_pop();
-                }
-                return;
-              }
-
-              // StackOverflow said I could: https://stackoverflow.com/a/1257776/1623645
-              //
-              // (I need to 'break' out of a loop, but we're in a switch statement,
-              // so 'break' won't apply to the looping structure. I think this is the
-              // first 'goto' I've written since I was writing in BASIC (c. 1985).
-              goto after_end_of_segment;
+              // Skip the rest of the definition.
+              bytecodes_pointer_where() =
+                  bytecodes_offsets_[(IndexTypeOf<int64_t>)bytecodes_pointer_which() + 1] -
+                  bytecodes_offsets_[(IndexTypeOf<int64_t>)bytecodes_pointer_which()];
+              break;
             }
 
             case CODE_PUT: {
@@ -3791,14 +3783,14 @@ namespace awkward {
         count_instructions_++;
         if (single_step) {
           if (is_segment_done()) {
-            bytecodes_pointer_pop();
+            step_is_done = true;
+            break;
           }
           return;
         }
 
       } // end walk over instructions in this segment
 
-    after_end_of_segment:
       bytecodes_pointer_pop();
 
       if (do_current_depth_ != 0  &&
@@ -3816,6 +3808,10 @@ namespace awkward {
         }
       }
 
+      if (step_is_done) {
+        return;
+      }
+
     } // end of all segments
   }
 
-- 
2.43.0


From 413fe837b575603544810802ca7406bb59429785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:36 +0000
Subject: [PATCH 36/74] fix: 64-bit AwkwardForth truncated values read to the
 stack to 32 bits

---
 src/libawkward/forth/ForthMachine.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index f099770..173beb8 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2925,7 +2925,7 @@ namespace awkward {
                     current_error_ = util::ForthError::stack_overflow;         \
                     return;                                                    \
                   }                                                            \
-                  stack_push((I)value);                                        \
+                  stack_push((T)value);                                        \
                 }                                                              \
                 break;                                                         \
               }
@@ -2951,7 +2951,7 @@ namespace awkward {
                     current_error_ = util::ForthError::stack_overflow;         \
                     return;                                                    \
                   }                                                            \
-                  stack_push((I)value);                                        \
+                  stack_push((T)value);                                        \
                 }                                                              \
                 break;                                                         \
               }
@@ -3209,7 +3209,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->len());
+              stack_push((T)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->len());
               break;
             }
 
@@ -3220,7 +3220,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->pos());
+              stack_push((T)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->pos());
               break;
             }
 
@@ -3316,7 +3316,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_outputs_[(IndexTypeOf<int64_t>)out_num].get()->len());
+              stack_push((T)current_outputs_[(IndexTypeOf<int64_t>)out_num].get()->len());
               break;
             }
 
@@ -3380,7 +3380,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_i());
+              stack_push((T)do_i());
               break;
             }
 
@@ -3389,7 +3389,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_j());
+              stack_push((T)do_j());
               break;
             }
 
@@ -3398,7 +3398,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_k());
+              stack_push((T)do_k());
               break;
             }
 
-- 
2.43.0


From be206250d561efbe39363396a5cac635bba3db1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:36 +0000
Subject: [PATCH 37/74] fix: 32-bit AwkwardForth truncated zigzag integers
 written to 64-bit outputs

---
 src/libawkward/forth/ForthMachine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 173beb8..2090f35 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2771,7 +2771,7 @@ namespace awkward {
                 stack_push((T)value);   // note: pushing value
               }
               else {
-                output->write_one_int64((T)value, false);   // note: writing value as signed
+                output->write_one_int64(value, false);   // note: writing value as signed
               }
             }
           }
-- 
2.43.0


From c73de17ac052276bd5b48b610ff8b3641c7b960f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:36 +0000
Subject: [PATCH 38/74] fix: AwkwardForth 'abs' of 64-bit integers was computed
 in 32 bits

---
 src/libawkward/forth/ForthMachine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 2090f35..4c725d2 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -3606,7 +3606,7 @@ namespace awkward {
                 return;
               }
               T* top = stack_peek();
-              *top = abs(*top);
+              *top = *top < 0 ? -(*top) : *top;
               break;
             }
 
-- 
2.43.0


From f37942cce76c089e03ab3d6d419268e0a9857bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:36 +0000
Subject: [PATCH 39/74] fix: AwkwardForth division crashed or overflowed on
 extreme integers

---
 src/libawkward/forth/ForthMachine.cpp | 33 ++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 4c725d2..fad312a 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2646,6 +2646,27 @@ namespace awkward {
   static uint8_t bitswap_lookup[16] = {0x0, 0x8, 0x4, 0xc, 0x2, 0xa, 0x6, 0xe,
                                        0x1, 0x9, 0x5, 0xd, 0x3, 0xb, 0x7, 0xf};
 
+  // Division by -1 is separate because the lowest integer has no opposite (it wraps).
+  template <typename T>
+  static inline T
+  floor_div(T one, T two) {
+    if (two == -1) {
+      return (T)(0 - (typename std::make_unsigned<T>::type)one);
+    }
+    T tmp = one / two;
+    return tmp * two == one ? tmp : tmp - ((one < 0) ^ (two < 0));
+  }
+
+  template <typename T>
+  static inline T
+  floor_mod(T one, T two) {
+    if (two == -1) {
+      return 0;
+    }
+    T tmp = one % two;
+    return (tmp != 0  &&  (tmp < 0) != (two < 0)) ? tmp + two : tmp;
+  }
+
   template <typename T, typename I>
   void
   ForthMachineOf<T, I>::internal_run(bool single_step, int64_t recursion_target_depth_top) { // noexcept
@@ -3529,8 +3550,7 @@ namespace awkward {
               }
               // Forth (gforth, at least) does floor division; C++ does integer division.
               // This makes a difference for negative numerator or denominator.
-              T tmp = pair[0] / pair[1];
-              pair[0] = tmp * pair[1] == pair[0] ? tmp : tmp - ((pair[0] < 0) ^ (pair[1] < 0));
+              pair[0] = floor_div(pair[0], pair[1]);
               break;
             }
 
@@ -3546,7 +3566,7 @@ namespace awkward {
               }
               // Forth (gforth, at least) does modulo; C++ does remainder.
               // This makes a difference for negative numerator or denominator.
-              pair[0] = (pair[1] + (pair[0] % pair[1])) % pair[1];
+              pair[0] = floor_mod(pair[0], pair[1]);
               break;
             }
 
@@ -3562,11 +3582,8 @@ namespace awkward {
                 return;
               }
               // See notes on division and modulo/remainder above.
-              T tmp = one / two;
-              stack_buffer_[stack_depth_ - 1] =
-                  tmp * two == one ? tmp : tmp - ((one < 0) ^ (two < 0));
-              stack_buffer_[stack_depth_ - 2] =
-                  (two + (one % two)) % two;
+              stack_buffer_[stack_depth_ - 1] = floor_div(one, two);
+              stack_buffer_[stack_depth_ - 2] = floor_mod(one, two);
               break;
             }
 
-- 
2.43.0


From a910a2eccacdf5b292227816a6f3f3ce52a935d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:36 +0000
Subject: [PATCH 40/74] fix: AwkwardForth reads with negative or huge counts
 left the input buffer

---
 src/libawkward/forth/ForthInputBuffer.cpp | 4 ++--
 src/libawkward/forth/ForthMachine.cpp     | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/forth/ForthInputBuffer.cpp b/src/libawkward/forth/ForthInputBuffer.cpp
index 13807d6..3a72a4f 100644
--- a/src/libawkward/forth/ForthInputBuffer.cpp
+++ b/src/libawkward/forth/ForthInputBuffer.cpp
@@ -15,11 +15,11 @@ namespace awkward {
 
   void*
   ForthInputBuffer::read(int64_t num_bytes, util::ForthError& err) noexcept {
-    int64_t next = pos_ + num_bytes;
-    if (next > length_) {
+    if (num_bytes < 0  ||  num_bytes > length_ - pos_) {
       err = util::ForthError::read_beyond;
       return nullptr;
     }
+    int64_t next = pos_ + num_bytes;
     void* out = reinterpret_cast<void*>(
         reinterpret_cast<size_t>(ptr_.get()) + (size_t)offset_ + (size_t)pos_
     );
diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index fad312a..39a55af 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2714,6 +2714,13 @@ namespace awkward {
 
           I format = ~bytecode & READ_MASK;
 
+          if ((num_items < 0  ||  num_items > kMaxInt64 / 8)  &&
+              format != READ_VARINT  &&  format != READ_ZIGZAG  &&  format != READ_NBIT) {
+            // Not a number of items to read, or its number of bytes would overflow.
+            current_error_ = util::ForthError::read_beyond;
+            return;
+          }
+
           if (format == READ_VARINT) {
             ForthInputBuffer* input = current_inputs_[(IndexTypeOf<int64_t>)in_num].get();
             ForthOutputBuffer* output = nullptr;
-- 
2.43.0


From bca6a3da87444166a49281cb00f0f320377ab688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:36 +0000
Subject: [PATCH 41/74] fix: AwkwardForth 'rewind' by a negative number exposed
 unwritten output

---
 src/libawkward/forth/ForthOutputBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/forth/ForthOutputBuffer.cpp b/src/libawkward/forth/ForthOutputBuffer.cpp
index 6fdd512..4802e08 100644
--- a/src/libawkward/forth/ForthOutputBuffer.cpp
+++ b/src/libawkward/forth/ForthOutputBuffer.cpp
@@ -67,7 +67,7 @@ namespace awkward {
   void
   ForthOutputBuffer::rewind(int64_t num_items, util::ForthError& err) noexcept {
     int64_t next = length_ - num_items;
-    if (next < 0) {
+    if (next < 0  ||  next > length_) {
       err = util::ForthError::rewind_beyond;
     }
     else {
-- 
2.43.0


From d1815f48966ad3a5d880f8de58c3100c3ae4423b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:36 +0000
Subject: [PATCH 42/74] fix: AwkwardForth bit-packed reads of 32 bits or more,
 or a negative count, gave wrong values

---
 src/libawkward/forth/ForthMachine.cpp | 74 ++++++++++-----------------
 1 file changed, 27 insertions(+), 47 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 39a55af..c74741f 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2819,59 +2819,39 @@ namespace awkward {
               output = current_outputs_[(IndexTypeOf<int64_t>)out_num].get();
             }
 
-            uint64_t mask = (1 << bit_width) - 1;
-            uint64_t bits_wnd_l = 8;
-            uint64_t bits_wnd_r = 0;
-            int64_t items_remaining = num_items;
-            uint64_t data;
-            uint64_t tmp;
-            uint8_t* tmpptr;
-
-            if (items_remaining != 0) {
-              tmpptr = reinterpret_cast<uint8_t*>(input->read(1, current_error_));
-              if (current_error_ != util::ForthError::none) {
-                return;
-              }
-              tmp = (uint64_t)(*tmpptr);
-              if (flip) {
-                // For bit-flipping: https://stackoverflow.com/a/2603254/1623645
-                tmp = (uint64_t)(bitswap_lookup[tmp & 0b1111] << 4) | bitswap_lookup[tmp >> 4];
-              }
-              data = tmp;
-            }
-            while (items_remaining != 0) {
-              if (bits_wnd_r >= 8) {
-                bits_wnd_r -= 8;
-                bits_wnd_l -= 8;
-                data >>= 8;
-              }
-              else if (bits_wnd_l - bits_wnd_r >= (uint64_t)bit_width) {
-                tmp = (data >> bits_wnd_r) & mask;
-                if (output == nullptr) {
-                  if (stack_cannot_push()) {
-                    current_error_ = util::ForthError::stack_overflow;
+            uint64_t byte = 0;
+            int64_t bits_in_byte = 0;   // bits of 'byte' that have not been used yet
+            for (int64_t count = 0;  count < num_items;  count++) {
+              uint64_t result = 0;
+              int64_t bits_in_result = 0;
+              while (bits_in_result < bit_width) {
+                if (bits_in_byte == 0) {
+                  uint8_t* ptr = reinterpret_cast<uint8_t*>(input->read(1, current_error_));
+                  if (current_error_ != util::ForthError::none) {
                     return;
                   }
-                  stack_push((T)tmp);
-                }
-                else {
-                  output->write_one_int64((T)tmp, false);
+                  byte = (uint64_t)(*ptr);
+                  if (flip) {
+                    // For bit-flipping: https://stackoverflow.com/a/2603254/1623645
+                    byte = (uint64_t)(bitswap_lookup[byte & 0b1111] << 4) | bitswap_lookup[byte >> 4];
+                  }
+                  bits_in_byte = 8;
                 }
-                items_remaining--;
-                bits_wnd_r += (uint64_t)bit_width;
+                int64_t bits = std::min(bits_in_byte, (int64_t)bit_width - bits_in_result);
+                result |= (byte & (((uint64_t)1 << bits) - 1)) << bits_in_result;
+                byte >>= bits;
+                bits_in_byte -= bits;
+                bits_in_result += bits;
               }
-              else {
-                tmpptr = reinterpret_cast<uint8_t*>(input->read(1, current_error_));
-                if (current_error_ != util::ForthError::none) {
+              if (output == nullptr) {
+                if (stack_cannot_push()) {
+                  current_error_ = util::ForthError::stack_overflow;
                   return;
                 }
-                tmp = (uint64_t)(*tmpptr);
-                if (flip) {
-                  // For bit-flipping: https://stackoverflow.com/a/2603254/1623645
-                  tmp = (uint64_t)(bitswap_lookup[tmp & 0b1111] << 4) | bitswap_lookup[tmp >> 4];
-                }
-                data |= tmp << bits_wnd_l;
-                bits_wnd_l += 8;
+                stack_push((T)result);
+              }
+              else {
+                output->write_one_uint64(result, false);
               }
             }
           }
-- 
2.43.0


From 4d52f69f38967b6038fde5ecf76513a13793168c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:36 +0000
Subject: [PATCH 43/74] fix: swapping the bytes of floating point numbers
 relied on undefined aliasing

---
 src/libawkward/forth/ForthOutputBuffer.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/libawkward/forth/ForthOutputBuffer.cpp b/src/libawkward/forth/ForthOutputBuffer.cpp
index 4802e08..e7a2061 100644
--- a/src/libawkward/forth/ForthOutputBuffer.cpp
+++ b/src/libawkward/forth/ForthOutputBuffer.cpp
@@ -3,6 +3,7 @@
 #define FILENAME(line) FILENAME_FOR_EXCEPTIONS("src/libawkward/forth/ForthOutputBuffer.cpp", line)
 
 #include <cmath>
+#include <cstring>
 
 #include "awkward/kernel-dispatch.h"
 
@@ -14,9 +15,12 @@ namespace awkward {
 
   void byteswap16(int64_t num_items, void* ptr) {
     while (num_items != 0) {
-      uint16_t value = *reinterpret_cast<uint16_t*>(ptr);
-      *reinterpret_cast<uint16_t*>(ptr) = ((value >> 8) & 0x00ff) |
+      // Copied because the values may be of another type (e.g. float).
+      uint16_t value;
+      std::memcpy(&value, ptr, sizeof(value));
+      value = ((value >> 8) & 0x00ff) |
                                           ((value << 8) & 0xff00);
+      std::memcpy(ptr, &value, sizeof(value));
       ptr = reinterpret_cast<void*>(reinterpret_cast<size_t>(ptr) + 2);
       num_items--;
     }
@@ -24,11 +28,14 @@ namespace awkward {
 
   void byteswap32(int64_t num_items, void* ptr) {
     while (num_items != 0) {
-      uint32_t value = *reinterpret_cast<uint32_t*>(ptr);
-      *reinterpret_cast<uint32_t*>(ptr) = ((value >> 24) & 0x000000ff) |
+      // Copied because the values may be of another type (e.g. float).
+      uint32_t value;
+      std::memcpy(&value, ptr, sizeof(value));
+      value = ((value >> 24) & 0x000000ff) |
                                           ((value >>  8) & 0x0000ff00) |
                                           ((value <<  8) & 0x00ff0000) |
                                           ((value << 24) & 0xff000000);
+      std::memcpy(ptr, &value, sizeof(value));
       ptr = reinterpret_cast<void*>(reinterpret_cast<size_t>(ptr) + 4);
       num_items--;
     }
@@ -36,8 +43,10 @@ namespace awkward {
 
   void byteswap64(int64_t num_items, void* ptr) {
     while (num_items != 0) {
-      uint64_t value = *reinterpret_cast<uint64_t*>(ptr);
-      *reinterpret_cast<uint64_t*>(ptr) = ((value >> 56) & 0x00000000000000ff) |
+      // Copied because the values may be of another type (e.g. float).
+      uint64_t value;
+      std::memcpy(&value, ptr, sizeof(value));
+      value = ((value >> 56) & 0x00000000000000ff) |
                                           ((value >> 40) & 0x000000000000ff00) |
                                           ((value >> 24) & 0x0000000000ff0000) |
                                           ((value >>  8) & 0x00000000ff000000) |
@@ -45,6 +54,7 @@ namespace awkward {
                                           ((value << 24) & 0x0000ff0000000000) |
                                           ((value << 40) & 0x00ff000000000000) |
                                           ((value << 56) & 0xff00000000000000);
+      std::memcpy(ptr, &value, sizeof(value));
       ptr = reinterpret_cast<void*>(reinterpret_cast<size_t>(ptr) + 8);
       num_items--;
     }
-- 
2.43.0


From 0a810925f9641fdd53c51fdfb3086e7645a56900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:36 +0000
Subject: [PATCH 44/74] fix: calling an AwkwardForth word at the maximum
 recursion depth wrote past the stack

---
 src/libawkward/forth/ForthMachine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index c74741f..053f9ff 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -1234,6 +1234,11 @@ namespace awkward {
       return current_error_;
     }
 
+    if (recursion_current_depth_ == recursion_max_depth_) {
+      current_error_ = util::ForthError::recursion_depth_exceeded;
+      return current_error_;
+    }
+
     recursion_target_depth_.push(recursion_current_depth_);
     bytecodes_pointer_push(dictionary_bytecodes_[(IndexTypeOf<int64_t>)index] - BOUND_DICTIONARY);
 
-- 
2.43.0


From 7219d3f93be8d01e6005a62d5489610a678b1918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:07 +0000
Subject: [PATCH 45/74] fix: adding a complex number after integers read and
 wrote past the ends of ArrayBuilder buffers

---
 src/libawkward/builder/Complex128Builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/builder/Complex128Builder.cpp b/src/libawkward/builder/Complex128Builder.cpp
index 6615ed1..1e46935 100644
--- a/src/libawkward/builder/Complex128Builder.cpp
+++ b/src/libawkward/builder/Complex128Builder.cpp
@@ -24,7 +24,7 @@ namespace awkward {
       GrowableBuffer<std::complex<double>>::empty(options, old.reserved());
     int64_t* oldraw = old.ptr().get();
     std::complex<double>* newraw = buffer.ptr().get();
-    for (int64_t i = 0;  i < 2*old.length();  i++) {
+    for (int64_t i = 0;  i < old.length();  i++) {
       newraw[i] = {static_cast<double>(oldraw[i]), 0};
     }
     buffer.set_length(old.length());
-- 
2.43.0


From 8da1a858384922185559a828adfe86942e5848f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:07 +0000
Subject: [PATCH 46/74] fix: ArrayBuilder.clear left records, tuples, unions
 and unfinished lists in an inconsistent state

---
 src/libawkward/builder/ListBuilder.cpp   | 1 +
 src/libawkward/builder/RecordBuilder.cpp | 7 +------
 src/libawkward/builder/TupleBuilder.cpp  | 2 +-
 src/libawkward/builder/UnionBuilder.cpp  | 1 +
 4 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/libawkward/builder/ListBuilder.cpp b/src/libawkward/builder/ListBuilder.cpp
index b5520f6..9cfeab0 100644
--- a/src/libawkward/builder/ListBuilder.cpp
+++ b/src/libawkward/builder/ListBuilder.cpp
@@ -50,6 +50,7 @@ namespace awkward {
     offsets_.clear();
     offsets_.append(0);
     content_.get()->clear();
+    begun_ = false;
   }
 
   const ContentPtr
diff --git a/src/libawkward/builder/RecordBuilder.cpp b/src/libawkward/builder/RecordBuilder.cpp
index 60036f0..cfe0671 100644
--- a/src/libawkward/builder/RecordBuilder.cpp
+++ b/src/libawkward/builder/RecordBuilder.cpp
@@ -83,15 +83,10 @@ namespace awkward {
     for (auto x : contents_) {
       x.get()->clear();
     }
-    keys_.clear();
-    pointers_.clear();
-    name_ = "";
-    nameptr_ = nullptr;
-    length_ = -1;
+    length_ = 0;
     begun_ = false;
     nextindex_ = -1;
     nexttotry_ = 0;
-    keys_size_ = 0;
   }
 
   const ContentPtr
diff --git a/src/libawkward/builder/TupleBuilder.cpp b/src/libawkward/builder/TupleBuilder.cpp
index a6dd45e..098c794 100644
--- a/src/libawkward/builder/TupleBuilder.cpp
+++ b/src/libawkward/builder/TupleBuilder.cpp
@@ -58,7 +58,7 @@ namespace awkward {
     for (auto x : contents_) {
       x.get()->clear();
     }
-    length_ = -1;
+    length_ = 0;
     begun_ = false;
     nextindex_ = -1;
   }
diff --git a/src/libawkward/builder/UnionBuilder.cpp b/src/libawkward/builder/UnionBuilder.cpp
index 1064cea..3a49de0 100644
--- a/src/libawkward/builder/UnionBuilder.cpp
+++ b/src/libawkward/builder/UnionBuilder.cpp
@@ -65,6 +65,7 @@ namespace awkward {
     for (auto x : contents_) {
       x.get()->clear();
     }
+    current_ = -1;
   }
 
   const ContentPtr
-- 
2.43.0


From 85570c973826f18d54684c24697bb33a1f79de51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:07 +0000
Subject: [PATCH 47/74] fix: ArrayBuilder 'index' accepted negative positions
 and checked nested tuples against the outer one

---
 src/libawkward/builder/TupleBuilder.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/builder/TupleBuilder.cpp b/src/libawkward/builder/TupleBuilder.cpp
index 098c794..cad3690 100644
--- a/src/libawkward/builder/TupleBuilder.cpp
+++ b/src/libawkward/builder/TupleBuilder.cpp
@@ -340,16 +340,16 @@ namespace awkward {
         std::string("called 'index' without 'begin_tuple' at the same level before it")
         + FILENAME(__LINE__));
     }
-    else if (index >= (int64_t)contents_.size()) {
-      throw std::invalid_argument(
-        std::string("'index' ")
-        + std::to_string(index)
-        + (" is out of bounds for a tuple with number of fields ")
-        + std::to_string(contents_.size())
-        + FILENAME(__LINE__));
-    }
     else if (nextindex_ == -1  ||
              !contents_[(size_t)nextindex_].get()->active()) {
+      if (index < 0  ||  index >= (int64_t)contents_.size()) {
+        throw std::invalid_argument(
+          std::string("'index' ")
+          + std::to_string(index)
+          + (" is out of bounds for a tuple with number of fields ")
+          + std::to_string(contents_.size())
+          + FILENAME(__LINE__));
+      }
       nextindex_ = index;
     }
     else {
-- 
2.43.0


From e790a125a1ed16d64c2578a9681d72b03713bcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:26 +0000
Subject: [PATCH 48/74] fix: growing buffers by a resize factor of 1 or from an
 initial size of 0 overran them or never ended

---
 src/libawkward/builder/GrowableBuffer.cpp  | 4 +++-
 src/libawkward/forth/ForthOutputBuffer.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/builder/GrowableBuffer.cpp b/src/libawkward/builder/GrowableBuffer.cpp
index 38cd6b6..bf61cf1 100644
--- a/src/libawkward/builder/GrowableBuffer.cpp
+++ b/src/libawkward/builder/GrowableBuffer.cpp
@@ -4,6 +4,7 @@
 
 #include "awkward/builder/GrowableBuffer.h"
 
+#include <algorithm>
 #include <complex>
 #include <cmath>
 #include <cstring>
@@ -123,7 +124,8 @@ namespace awkward {
   void
   GrowableBuffer<T>::append(T datum) {
     if (length_ == reserved_) {
-      set_reserved((int64_t)ceil(reserved_ * options_.resize()));
+      set_reserved(std::max(reserved_ + 1,
+                            (int64_t)ceil(reserved_ * options_.resize())));
     }
     ptr_.get()[length_] = datum;
     length_++;
diff --git a/src/libawkward/forth/ForthOutputBuffer.cpp b/src/libawkward/forth/ForthOutputBuffer.cpp
index e7a2061..6f038f6 100644
--- a/src/libawkward/forth/ForthOutputBuffer.cpp
+++ b/src/libawkward/forth/ForthOutputBuffer.cpp
@@ -2,6 +2,7 @@
 
 #define FILENAME(line) FILENAME_FOR_EXCEPTIONS("src/libawkward/forth/ForthOutputBuffer.cpp", line)
 
+#include <algorithm>
 #include <cmath>
 #include <cstring>
 
@@ -722,7 +723,8 @@ namespace awkward {
     if (next > reserved_) {
       int64_t reservation = reserved_;
       while (next > reservation) {
-        reservation = (int64_t)std::ceil(reservation * resize_);
+        reservation = std::max(reservation + 1,
+                               (int64_t)std::ceil(reservation * resize_));
       }
       std::shared_ptr<OUT> new_buffer = std::shared_ptr<OUT>(new OUT[reservation],
                                                              kernel::array_deleter<OUT>());
-- 
2.43.0


From c16ba3b5f343a8f39dd9c089bd60815721d793d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:29 +0000
Subject: [PATCH 49/74] fix: ArrayBuilder ignored an 'end_record' without
 'begin_record' after complex numbers

---
 src/libawkward/builder/Complex128Builder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/builder/Complex128Builder.cpp b/src/libawkward/builder/Complex128Builder.cpp
index 1e46935..aec7998 100644
--- a/src/libawkward/builder/Complex128Builder.cpp
+++ b/src/libawkward/builder/Complex128Builder.cpp
@@ -190,7 +190,9 @@ namespace awkward {
 
   const BuilderPtr
   Complex128Builder::endrecord() {
-    return shared_from_this();
+    throw std::invalid_argument(
+      std::string("called 'end_record' without 'begin_record' at the same level before it")
+      + FILENAME(__LINE__));
   }
 
   const BuilderPtr
-- 
2.43.0


From ebb7ad594aca65eddc615f8f65225f38616d279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:15 +0000
Subject: [PATCH 50/74] fix: nested jagged slices with missing inner lists were
 not aligned with the array's lists

---
 src/libawkward/array/ListArray.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/ListArray.cpp b/src/libawkward/array/ListArray.cpp
index fa64f3a..e3e765d 100644
--- a/src/libawkward/array/ListArray.cpp
+++ b/src/libawkward/array/ListArray.cpp
@@ -1927,7 +1927,23 @@ namespace awkward {
 
     ContentPtr out;
     if (dynamic_cast<SliceJagged64*>(slicecontent.content().get())) {
-      ContentPtr nextcontent = content_.get()->carry(nextcarry, true);
+      Index64 outoffsets(slicestarts.length() + 1);
+      struct Error err3 = kernel::ListArray_getitem_jagged_descend_64<T>(
+        kernel::lib::cpu,   // DERIVE
+        outoffsets.data(),
+        slicestarts.data(),
+        slicestops.data(),
+        slicestarts.length(),
+        starts_.data(),
+        stops_.data());
+      util::handle_error(err3, classname(), identities_.get());
+
+      // positions in the slice are positions in the compacted content
+      ContentPtr compact = toListOffsetArray64(true);
+      ListOffsetArray64* rawcompact =
+        dynamic_cast<ListOffsetArray64*>(compact.get());
+      ContentPtr nextcontent =
+        rawcompact->content().get()->carry(nextcarry, true);
       ContentPtr next = std::make_shared<ListOffsetArray64>(Identities::none(),
                                                             util::Parameters(),
                                                             smalloffsets,
-- 
2.43.0


From 12b9338199cff64c02b609777f0ba2e18c2a7183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:15 +0000
Subject: [PATCH 51/74] fix: jagged slices with missing outer lists were
 checked against the lists they skip

---
 src/libawkward/Content.cpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 88e2bc6..2654546 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1588,28 +1588,29 @@ namespace awkward {
     }
     const Index64 index = missing.index();
     ContentPtr content = that.get()->getitem_at_nowrap(0);
-    if (content.get()->length() < index.length()) {
+    if (content.get()->length() != index.length()) {
       throw std::invalid_argument(
         std::string("cannot fit masked jagged slice with length ") +
         std::to_string(index.length()) + std::string(" into ") +
         that.get()->classname() + std::string(" of size ") +
         std::to_string(content.get()->length()) + FILENAME(__LINE__));
     }
-    Index64 outputmask(index.length());
-    Index64 starts(index.length());
-    Index64 stops(index.length());
-    struct Error err = kernel::Content_getitem_next_missing_jagged_getmaskstartstop(
-      kernel::lib::cpu,   // DERIVE
-      index.data(),
-      jagged->offsets().data(),
-      outputmask.data(),
-      starts.data(),
-      stops.data(),
-      index.length());
-    util::handle_error(err, that.get()->classname(), nullptr);
-    ContentPtr tmp = content.get()->getitem_next_jagged(
-        starts, stops, jagged->content(), tail);
-    IndexedOptionArray64 out(Identities::none(), util::Parameters(), outputmask, tmp);
+    // lists at the missing positions do not take part in the jagged slice
+    Index64 nextcarry(jagged->length());
+    int64_t k = 0;
+    for (int64_t i = 0;  i < index.length();  i++) {
+      if (index.getitem_at_nowrap(i) >= 0) {
+        nextcarry.setitem_at_nowrap(k, i);
+        k++;
+      }
+    }
+    ContentPtr next = content.get()->carry(nextcarry, false);
+    ContentPtr tmp = next.get()->getitem_next_jagged(
+        util::make_starts(jagged->offsets()),
+        util::make_stops(jagged->offsets()),
+        jagged->content(),
+        tail);
+    IndexedOptionArray64 out(Identities::none(), util::Parameters(), index, tmp);
     return std::make_shared<RegularArray>(
         Identities::none(),
         util::Parameters(),
-- 
2.43.0


From 5912f96ec16fda10febfa31fc2bc3c5a92b63e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:05 +0000
Subject: [PATCH 52/74] fix: an index array with missing values was rejected
 where the dimension before it selects nothing

---
 src/libawkward/Content.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 2654546..8cb66c1 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -1547,10 +1547,6 @@ namespace awkward {
                                                 const RegularArray* raw,
                                                 int64_t length,
                                                 const std::string& classname) {
-    if (length == 0) {
-      length = 1;  // if this is in a tuple-slice and really should be 0, it will be trimmed later
-    }
-
     Index64 index(missing.index());
     Index64 outindex(index.length()*length);
 
@@ -1572,7 +1568,7 @@ namespace awkward {
                                           util::Parameters(),
                                           out.simplify_optiontype(),
                                           index.length(),
-                                          1);
+                                          length);
   }
 
   const ContentPtr getitem_next_missing_jagged(const SliceMissing64& missing,
-- 
2.43.0


From 52c6bed376792f2fa445b6ddac74bf1c12c69d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:59 +0000
Subject: [PATCH 53/74] fix: is_unique of nested lists applied the outer lists'
 boundaries to the innermost numbers

---
 src/libawkward/array/ListOffsetArray.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 9500e78..e967b34 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -2467,7 +2467,9 @@ namespace awkward {
 
   template <>
   bool ListOffsetArrayOf<int64_t>::is_subrange_equal(const Index64& starts, const Index64& stops) const {
-    return content_.get()->is_subrange_equal(starts, stops);
+    throw std::runtime_error(
+      std::string("FIXME: operation not yet implemented: ListOffsetArray64::is_subrange_equal")
+      + FILENAME(__LINE__));
   }
 
   template <typename T>
@@ -2486,7 +2488,8 @@ namespace awkward {
       }
     }
 
-    return is_subrange_equal(util::make_starts(offsets_), util::make_stops(offsets_));
+    return content_.get()->is_subrange_equal(util::make_starts(offsets_),
+                                             util::make_stops(offsets_));
   }
 
   template <typename T>
-- 
2.43.0


From b6f3ed0b239e7eb67f0c516ab9e86be14b3e3e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:59 +0000
Subject: [PATCH 54/74] fix: unique and is_unique read outside multidimensional
 numbers and ignored the start and strides of sliced numbers

---
 src/libawkward/array/NumpyArray.cpp | 38 ++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 019370b..5e302d8 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -5263,6 +5263,12 @@ namespace awkward {
 
   const ContentPtr
   NumpyArray::unique() const {
+    if (ndim() != 1) {
+      throw std::runtime_error(
+        std::string("FIXME: operation not yet implemented: NumpyArray::unique for ")
+        + std::to_string(ndim()) + std::string(" dimentional array")
+        + FILENAME(__LINE__));
+    }
     if (!iscontiguous()) {
       return contiguous().unique();
     }
@@ -5319,65 +5325,75 @@ namespace awkward {
 
   bool
   NumpyArray::is_subrange_equal(const Index64& starts, const Index64& stops) const {
+    if (ndim() != 1) {
+      throw std::runtime_error(
+        std::string("FIXME: operation not yet implemented: NumpyArray::is_subrange_equal for ")
+        + std::to_string(ndim()) + std::string(" dimentional array")
+        + FILENAME(__LINE__));
+    }
     if (starts.length() != stops.length()) {
       throw std::invalid_argument(
         std::string("NumpyArray starts length must be equal to stops length")
         + FILENAME(__LINE__));
     }
 
+    if (!iscontiguous()) {
+      return contiguous().is_subrange_equal(starts, stops);
+    }
+
     bool is_equal = false;
 
     switch (dtype_) {
     case util::dtype::boolean:
-      is_equal = subranges_equal<bool>(reinterpret_cast<bool*>(ptr_.get()),
+      is_equal = subranges_equal<bool>(reinterpret_cast<bool*>(data()),
                                        length(),
                                        starts,
                                        stops);
       break;
     case util::dtype::int8:
-      is_equal = subranges_equal<int8_t>(reinterpret_cast<int8_t*>(ptr_.get()),
+      is_equal = subranges_equal<int8_t>(reinterpret_cast<int8_t*>(data()),
                                          length(),
                                          starts,
                                          stops);
       break;
     case util::dtype::int16:
-      is_equal = subranges_equal<int16_t>(reinterpret_cast<int16_t*>(ptr_.get()),
+      is_equal = subranges_equal<int16_t>(reinterpret_cast<int16_t*>(data()),
                                           length(),
                                           starts,
                                           stops);
       break;
     case util::dtype::int32:
-      is_equal = subranges_equal<int32_t>(reinterpret_cast<int32_t*>(ptr_.get()),
+      is_equal = subranges_equal<int32_t>(reinterpret_cast<int32_t*>(data()),
                                           length(),
                                           starts,
                                           stops);
       break;
     case util::dtype::int64:
-      is_equal = subranges_equal<int64_t>(reinterpret_cast<int64_t*>(ptr_.get()),
+      is_equal = subranges_equal<int64_t>(reinterpret_cast<int64_t*>(data()),
                                           length(),
                                           starts,
                                           stops);
       break;
     case util::dtype::uint8:
-      is_equal = subranges_equal<uint8_t>(reinterpret_cast<uint8_t*>(ptr_.get()),
+      is_equal = subranges_equal<uint8_t>(reinterpret_cast<uint8_t*>(data()),
                                           length(),
                                           starts,
                                           stops);
       break;
     case util::dtype::uint16:
-      is_equal = subranges_equal<uint16_t>(reinterpret_cast<uint16_t*>(ptr_.get()),
+      is_equal = subranges_equal<uint16_t>(reinterpret_cast<uint16_t*>(data()),
                                            length(),
                                            starts,
                                            stops);
       break;
     case util::dtype::uint32:
-      is_equal = subranges_equal<uint32_t>(reinterpret_cast<uint32_t*>(ptr_.get()),
+      is_equal = subranges_equal<uint32_t>(reinterpret_cast<uint32_t*>(data()),
                                            length(),
                                            starts,
                                            stops);
       break;
     case util::dtype::uint64:
-      is_equal = subranges_equal<uint64_t>(reinterpret_cast<uint64_t*>(ptr_.get()),
+      is_equal = subranges_equal<uint64_t>(reinterpret_cast<uint64_t*>(data()),
                                            length(),
                                            starts,
                                            stops);
@@ -5387,13 +5403,13 @@ namespace awkward {
         std::string("FIXME: is_subrange_equal for float16 not implemented")
         + FILENAME(__LINE__));
     case util::dtype::float32:
-      is_equal = subranges_equal<float>(reinterpret_cast<float*>(ptr_.get()),
+      is_equal = subranges_equal<float>(reinterpret_cast<float*>(data()),
                                         length(),
                                         starts,
                                         stops);
       break;
     case util::dtype::float64:
-      is_equal = subranges_equal<double>(reinterpret_cast<double*>(ptr_.get()),
+      is_equal = subranges_equal<double>(reinterpret_cast<double*>(data()),
                                          length(),
                                          starts,
                                          stops);
-- 
2.43.0


From 9ba8a77e74834a6f365fba6e1d26fce2f7a45959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:35 +0000
Subject: [PATCH 55/74] fix: merging with a virtual array of option, indexed or
 union type failed

---
 src/libawkward/Content.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 8cb66c1..4ea46fe 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -941,6 +941,9 @@ namespace awkward {
     size_t i = 0;
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
+      if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+        other = raw->array();
+      }
       if (dynamic_cast<IndexedArray32*>(other.get())  ||
           dynamic_cast<IndexedArrayU32*>(other.get())  ||
           dynamic_cast<IndexedArray64*>(other.get())  ||
@@ -954,9 +957,6 @@ namespace awkward {
           dynamic_cast<UnionArray8_64*>(other.get())) {
         break;
       }
-      else if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
-        head.push_back(raw->array());
-      }
       else {
         head.push_back(other);
       }
@@ -964,6 +964,9 @@ namespace awkward {
 
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
+      if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+        other = raw->array();
+      }
       tail.push_back(other);
     }
 
-- 
2.43.0


From 77dd62434b74bb0c650231786fc4219405f8d155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:32 +0000
Subject: [PATCH 56/74] fix: Forms with sizes of 2**31 or more could not be
 read from JSON

---
 src/libawkward/Content.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 4ea46fe..c467cd1 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -325,7 +325,7 @@ namespace awkward {
         std::vector<int64_t> s;
         if (json.HasMember("inner_shape")  &&  json["inner_shape"].IsArray()) {
           for (auto& x : json["inner_shape"].GetArray()) {
-            if (x.IsInt()) {
+            if (x.IsInt64()) {
               s.push_back(x.GetInt64());
             }
             else {
@@ -446,7 +446,7 @@ namespace awkward {
             cls + std::string(" is missing its 'content'") + FILENAME(__LINE__));
         }
         FormPtr content = fromjson_part(json["content"]);
-        if (!json.HasMember("size")  ||  !json["size"].IsInt()) {
+        if (!json.HasMember("size")  ||  !json["size"].IsInt64()) {
           throw std::invalid_argument(
             cls + std::string(" is missing its 'size'") + FILENAME(__LINE__));
         }
-- 
2.43.0


From 55b19f2245d63e5580eb59e3722f1a6b7d69921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:33 +0000
Subject: [PATCH 57/74] fix: Forms of dates and time differences lost their
 unit in JSON

---
 src/libawkward/Content.cpp          | 7 +++++++
 src/libawkward/array/NumpyArray.cpp | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index c467cd1..0aff739 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -310,6 +310,13 @@ namespace awkward {
           format = raw->format();
           itemsize = raw->itemsize();
           dtype = util::format_to_dtype(format, itemsize);
+          if ((dtype == util::dtype::datetime64  ||
+               dtype == util::dtype::timedelta64)  &&
+              json.HasMember("format")  &&  json["format"].IsString()  &&
+              std::string(json["format"].GetString()).rfind(format, 0) == 0) {
+            // only the format, "M8[unit]" or "m8[unit]", carries the unit
+            format = json["format"].GetString();
+          }
         }
         else if (json.HasMember("format")  &&  json["format"].IsString()  &&
                  json.HasMember("itemsize")  &&  json["itemsize"].IsInt()) {
diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 5e302d8..977ac39 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -129,6 +129,8 @@ namespace awkward {
     if (verbose  ||
         toplevel  ||
         p.empty()  ||
+        dtype_ == util::dtype::datetime64  ||
+        dtype_ == util::dtype::timedelta64  ||
         !inner_shape_.empty() ||
         has_identities_  ||
         !parameters_.empty()  ||
-- 
2.43.0


From d0414733f9d57d55582ed47f8cd98d128ded16b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:52 +0000
Subject: [PATCH 58/74] fix: a top-level JSON string, number or literal cut off
 by the end of the text was silently ignored

---
 src/libawkward/io/json.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libawkward/io/json.cpp b/src/libawkward/io/json.cpp
index cc10337..1eb8ad5 100644
--- a/src/libawkward/io/json.cpp
+++ b/src/libawkward/io/json.cpp
@@ -802,6 +802,11 @@ namespace awkward {
           + stream.Peek() + std::string("\'")
           + FILENAME(__LINE__));
       }
+      else if (reader.GetParseErrorCode() != rj::kParseErrorDocumentEmpty) {
+        throw std::invalid_argument(
+          std::string("incomplete JSON value at the end of the stream")
+          + FILENAME(__LINE__));
+      }
     }
 
     ContentPtr obj = handler.snapshot();
-- 
2.43.0


From 64c3653f59544e461f90bac0f512d40ae298bbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:52 +0000
Subject: [PATCH 59/74] fix: JSON integers from 2**63 to 2**64 - 1 were read as
 negative numbers

---
 src/libawkward/io/json.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/io/json.cpp b/src/libawkward/io/json.cpp
index 1eb8ad5..db54a17 100644
--- a/src/libawkward/io/json.cpp
+++ b/src/libawkward/io/json.cpp
@@ -691,7 +691,12 @@ namespace awkward {
 
     bool Uint64(uint64_t x) {
       moved_ = true;
-      builder_.integer((int64_t)x);
+      if (x > (uint64_t)std::numeric_limits<int64_t>::max()) {
+        builder_.real((double)x);   // like integers of 2**64 and beyond
+      }
+      else {
+        builder_.integer((int64_t)x);
+      }
       return true;
     }
 
-- 
2.43.0


From 7af3f92e701e1481d46d57997c133033b051dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:52 +0000
Subject: [PATCH 60/74] fix: real numbers in JSON were read with rounding
 errors

---
 src/libawkward/io/json.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/io/json.cpp b/src/libawkward/io/json.cpp
index db54a17..bf4eac9 100644
--- a/src/libawkward/io/json.cpp
+++ b/src/libawkward/io/json.cpp
@@ -780,7 +780,8 @@ namespace awkward {
     int64_t number = 0;
     while (stream.Peek() != 0) {
       handler.reset_moved();
-      bool fully_parsed = reader.Parse<rj::kParseStopWhenDoneFlag>(stream, handler);
+      bool fully_parsed = reader.Parse<rj::kParseStopWhenDoneFlag | rj::kParseFullPrecisionFlag>(
+                              stream, handler);
       if (handler.moved()) {
         if (!fully_parsed) {
           if (stream.Peek() == 0) {
-- 
2.43.0


From cc924acd605a159bf7e5ee93511adfb7ab12b006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:52 +0000
Subject: [PATCH 61/74] fix: numbers in Form parameters were truncated to
 integers or rejected when written as JSON

---
 src/libawkward/io/json.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/libawkward/io/json.cpp b/src/libawkward/io/json.cpp
index bf4eac9..acd8fed 100644
--- a/src/libawkward/io/json.cpp
+++ b/src/libawkward/io/json.cpp
@@ -42,14 +42,17 @@ namespace awkward {
     else if (value.IsBool()) {
       writer.Bool(value.GetBool());
     }
-    else if (value.IsInt()) {
-      writer.Int64(value.GetInt());
+    else if (value.IsInt64()) {
+      writer.Int64(value.GetInt64());
+    }
+    else if (value.IsUint64()) {
+      writer.Uint64(value.GetUint64());
     }
     else if (value.IsDouble()) {
-      writer.Int64((int64_t)value.GetDouble());
+      writer.Double(value.GetDouble());
     }
     else if (value.IsString()) {
-      writer.String(value.GetString());
+      writer.String(value.GetString(), value.GetStringLength());
     }
     else if (value.IsArray()) {
       writer.StartArray();
@@ -61,7 +64,7 @@ namespace awkward {
     else if (value.IsObject()) {
       writer.StartObject();
       for (auto it = value.MemberBegin();  it != value.MemberEnd();  ++it) {
-        writer.Key(it->name.GetString());
+        writer.Key(it->name.GetString(), it->name.GetStringLength());
         copyjson(it->value, writer);
       }
       writer.EndObject();
@@ -102,7 +105,7 @@ namespace awkward {
     void endrecord() { writer_.EndObject(); }
     void json(const char* data) {
       rj::Document doc;
-      doc.Parse<rj::kParseNanAndInfFlag>(data);
+      doc.Parse<rj::kParseNanAndInfFlag | rj::kParseFullPrecisionFlag>(data);
       copyjson(doc, writer_);
     }
     const std::string tostring() {
@@ -243,7 +246,7 @@ namespace awkward {
     void endrecord() { writer_.EndObject(); }
     void json(const char* data) {
       rj::Document doc;
-      doc.Parse<rj::kParseNanAndInfFlag>(data);
+      doc.Parse<rj::kParseNanAndInfFlag | rj::kParseFullPrecisionFlag>(data);
       copyjson(doc, writer_);
     }
     const std::string tostring() {
@@ -388,7 +391,7 @@ namespace awkward {
     void endrecord() { writer_.EndObject(); }
     void json(const char* data) {
       rj::Document doc;
-      doc.Parse<rj::kParseNanAndInfFlag>(data);
+      doc.Parse<rj::kParseNanAndInfFlag | rj::kParseFullPrecisionFlag>(data);
       copyjson(doc, writer_);
     }
   private:
@@ -528,7 +531,7 @@ namespace awkward {
     void endrecord() { writer_.EndObject(); }
     void json(const char* data) {
       rj::Document doc;
-      doc.Parse<rj::kParseNanAndInfFlag>(data);
+      doc.Parse<rj::kParseNanAndInfFlag | rj::kParseFullPrecisionFlag>(data);
       copyjson(doc, writer_);
     }
   private:
-- 
2.43.0


From 512b4d93b2f3a010f43838e4b0cc858dddb0242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:59:05 +0000
Subject: [PATCH 62/74] fix: unsigned integers of 2**63 and beyond were written
 to JSON as negative numbers

---
 src/libawkward/array/NumpyArray.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 977ac39..76ecc8f 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -4891,13 +4891,30 @@ namespace awkward {
     }
   }
 
+  template <typename T>
+  static void
+  tojson_integer_value(ToJson& builder, T value) {
+    builder.integer((int64_t)value);
+  }
+
+  template <>
+  void
+  tojson_integer_value<uint64_t>(ToJson& builder, uint64_t value) {
+    if (value > (uint64_t)kMaxInt64) {
+      builder.json(std::to_string(value).c_str());
+    }
+    else {
+      builder.integer((int64_t)value);
+    }
+  }
+
   template <typename T>
   void
   NumpyArray::tojson_integer(ToJson& builder,
                              bool include_beginendlist) const {
     if (ndim() == 0) {
       T* array = reinterpret_cast<T*>(data());
-      builder.integer((int64_t)array[0]);
+      tojson_integer_value<T>(builder, array[0]);
     }
     else if (ndim() == 1) {
       T* array = reinterpret_cast<T*>(data());
@@ -4906,7 +4923,7 @@ namespace awkward {
         builder.beginlist();
       }
       for (int64_t i = 0;  i < length();  i++) {
-        builder.integer((int64_t)array[i*stride]);
+        tojson_integer_value<T>(builder, array[i*stride]);
       }
       if (include_beginendlist) {
         builder.endlist();
-- 
2.43.0


From e3ba250bc230d7fefdad25134576330c4d9ad16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:59 +0000
Subject: [PATCH 63/74] fix: NaN and infinity were written to JSON as nothing,
 which is not JSON

---
 src/libawkward/io/json.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/libawkward/io/json.cpp b/src/libawkward/io/json.cpp
index acd8fed..11e3299 100644
--- a/src/libawkward/io/json.cpp
+++ b/src/libawkward/io/json.cpp
@@ -75,6 +75,16 @@ namespace awkward {
     }
   }
 
+  template <typename WRITER>
+  void writereal(WRITER& writer, double x) {
+    if (!writer.Double(x)) {
+      throw std::invalid_argument(
+        std::string("NaN and infinity can't be converted to JSON without"
+          " setting \'nan_string\', \'infinity_string\' and"
+          " \'minus_infinity_string\'") + FILENAME(__LINE__));
+    }
+  }
+
   class ToJsonString::Impl {
   public:
     Impl(int64_t maxdecimals): buffer_(), writer_(buffer_) {
@@ -85,7 +95,7 @@ namespace awkward {
     void null() { writer_.Null(); }
     void boolean(bool x) { writer_.Bool(x); }
     void integer(int64_t x) { writer_.Int64(x); }
-    void real(double x) { writer_.Double(x); }
+    void real(double x) { writereal(writer_, x); }
     void complex(std::complex<double> x,
                  const char* complex_real_string,
                  const char* complex_imag_string) {
@@ -226,7 +236,7 @@ namespace awkward {
     void null() { writer_.Null(); }
     void boolean(bool x) { writer_.Bool(x); }
     void integer(int64_t x) { writer_.Int64(x); }
-    void real(double x) { writer_.Double(x); }
+    void real(double x) { writereal(writer_, x); }
     void complex(std::complex<double> x,
                  const char* complex_real_string,
                  const char* complex_imag_string) {
@@ -371,7 +381,7 @@ namespace awkward {
     void null() { writer_.Null(); }
     void boolean(bool x) { writer_.Bool(x); }
     void integer(int64_t x) { writer_.Int64(x); }
-    void real(double x) { writer_.Double(x); }
+    void real(double x) { writereal(writer_, x); }
     void complex(std::complex<double> x,
                  const char* complex_real_string,
                  const char* complex_imag_string) {
@@ -511,7 +521,7 @@ namespace awkward {
     void null() { writer_.Null(); }
     void boolean(bool x) { writer_.Bool(x); }
     void integer(int64_t x) { writer_.Int64(x); }
-    void real(double x) { writer_.Double(x); }
+    void real(double x) { writereal(writer_, x); }
     void complex(std::complex<double> x,
                  const char* complex_real_string,
                  const char* complex_imag_string) {
-- 
2.43.0


From aa55f503d2c7150ce7bf4a4133b060b1c4ca7646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:47 +0000
Subject: [PATCH 64/74] fix: deep copy of Identities wider than one column
 copied only part of them

---
 src/libawkward/Identities.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libawkward/Identities.cpp b/src/libawkward/Identities.cpp
index 3cd55f3..7c3e395 100644
--- a/src/libawkward/Identities.cpp
+++ b/src/libawkward/Identities.cpp
@@ -232,12 +232,12 @@ namespace awkward {
   const IdentitiesPtr
   IdentitiesOf<T>::deep_copy() const {
     std::shared_ptr<T> ptr = kernel::malloc<T>(kernel::lib::cpu,   // DERIVE
-                                               length_*(int64_t)sizeof(T));
-    if (length_ != 0) {
+                                               length_*width_*(int64_t)sizeof(T));
+    if (length_*width_ != 0) {
       // DERIVE Yikes! It's a memcpy!
       memcpy(ptr.get(),
              &ptr_.get()[(size_t)offset_],
-             sizeof(T)*((size_t)length_));
+             sizeof(T)*((size_t)(length_*width_)));
     }
     return std::make_shared<IdentitiesOf<T>>(ref_,
                                              fieldloc_,
-- 
2.43.0


From ea9eecac82186ef01169abb08be79d9c8310c512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:26:47 +0000
Subject: [PATCH 65/74] fix: slicing a RegularArray kept the identities of the
 whole array

---
 src/libawkward/array/RegularArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/RegularArray.cpp b/src/libawkward/array/RegularArray.cpp
index e33fa3f..817d87e 100644
--- a/src/libawkward/array/RegularArray.cpp
+++ b/src/libawkward/array/RegularArray.cpp
@@ -646,7 +646,7 @@ namespace awkward {
       identities = identities_.get()->getitem_range_nowrap(start, stop);
     }
     return std::make_shared<RegularArray>(
-      identities_,
+      identities,
       parameters_,
       content_.get()->getitem_range_nowrap(start*size_, stop*size_),
       size_,
-- 
2.43.0


From cd5b2cb2807f9ceaa093e3fa74553f495c80b7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:17 +0000
Subject: [PATCH 66/74] fix: LayoutBuilder rejected every Form with a ListArray

---
 src/libawkward/layoutbuilder/ListArrayBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/layoutbuilder/ListArrayBuilder.cpp b/src/libawkward/layoutbuilder/ListArrayBuilder.cpp
index 86efc4d..63f19b9 100644
--- a/src/libawkward/layoutbuilder/ListArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/ListArrayBuilder.cpp
@@ -62,7 +62,7 @@ namespace awkward {
       .append("0 ").append(vm_output_data_).append(" <- stack").append("\n");
 
     vm_error_.append(content_.get()->vm_error());
-    vm_error_.append("s\"ListArray Builder needs begin_list\"").append("\n");
+    vm_error_.append("s\" ListArray Builder needs begin_list\"").append("\n");
  }
 
   const std::string
-- 
2.43.0


From d384860f2abc23abfa0424ef9dd1921be87d5793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:17 +0000
Subject: [PATCH 67/74] fix: LayoutBuilder read and wrote outside a buffer for
 unions with fewer values than kinds

---
 src/libawkward/layoutbuilder/UnionArrayBuilder.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp b/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp
index 416a5b0..04720a4 100644
--- a/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp
@@ -108,13 +108,13 @@ namespace awkward {
       int64_t lentags = tags.length();
 
       if (form_.get()->index() == Index::Form::i32) {
-        Index32 current(lentags);
+        Index32 current((int64_t)contents_.size());
         Index32 outindex(lentags);
         struct Error err = kernel::UnionArray_regular_index<int8_t, int32_t>(
           kernel::lib::cpu,   // DERIVE
           outindex.data(),
           current.data(),
-          lentags,
+          (int64_t)contents_.size(),
           tags.data(),
           lentags);
         util::handle_error(err, "UnionArray", nullptr);
@@ -127,13 +127,13 @@ namespace awkward {
 
       }
       else if (form_.get()->index() == Index::Form::u32) {
-        IndexU32 current(lentags);
+        IndexU32 current((int64_t)contents_.size());
         IndexU32 outindex(lentags);
         struct Error err = kernel::UnionArray_regular_index<int8_t, uint32_t>(
           kernel::lib::cpu,   // DERIVE
           outindex.data(),
           current.data(),
-          lentags,
+          (int64_t)contents_.size(),
           tags.data(),
           lentags);
         util::handle_error(err, "UnionArray", nullptr);
@@ -145,13 +145,13 @@ namespace awkward {
                                contents).simplify_uniontype(false, false);
       }
       else if (form_.get()->index() == Index::Form::i64) {
-        Index64 current(lentags);
+        Index64 current((int64_t)contents_.size());
         Index64 outindex(lentags);
         struct Error err = kernel::UnionArray_regular_index<int8_t, int64_t>(
           kernel::lib::cpu,   // DERIVE
           outindex.data(),
           current.data(),
-          lentags,
+          (int64_t)contents_.size(),
           tags.data(),
           lentags);
         util::handle_error(err, "UnionArray", nullptr);
-- 
2.43.0


From f905359d23e09d139aacdc9294f853986619ce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:17 +0000
Subject: [PATCH 68/74] fix: LayoutBuilder rejected Forms with more than one
 option-type or indexed node

---
 src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp      | 6 +++---
 .../layoutbuilder/IndexedOptionArrayBuilder.cpp           | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp b/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
index 1f9d572..eefaec3 100644
--- a/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
@@ -38,7 +38,7 @@ namespace awkward {
       .append(index_form_to_name(form_.get()->index()))
       .append("\n")
       .append(content_.get()->vm_output())
-      .append("variable index").append("\n");
+      .append("variable ").append(vm_func_name_).append("-count").append("\n");
 
     vm_func_.append(content_.get()->vm_func())
       .append(": ").append(vm_func_name()).append("\n")
@@ -47,8 +47,8 @@ namespace awkward {
       .append("drop").append("\n")
       .append(vm_output_data_).append(" <- stack").append("\n")
       .append("else").append("\n")
-      .append("1 index +!").append("\n")
-      .append("index @ 1- ")
+      .append("1 ").append(vm_func_name_).append("-count +!").append("\n")
+      .append(vm_func_name_).append("-count @ 1- ")
       .append(vm_output_data_).append(" <- stack").append("\n")
       .append(content_.get()->vm_func_name()).append("\n")
       .append("then").append("\n")
diff --git a/src/libawkward/layoutbuilder/IndexedOptionArrayBuilder.cpp b/src/libawkward/layoutbuilder/IndexedOptionArrayBuilder.cpp
index 5ae915f..7b04469 100644
--- a/src/libawkward/layoutbuilder/IndexedOptionArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/IndexedOptionArrayBuilder.cpp
@@ -41,13 +41,13 @@ namespace awkward {
       .append("dup ").append(std::to_string(static_cast<utype>(state::null)))
       .append(" = if").append("\n")
       .append("drop\n")
-      .append("variable null    -1 null !").append("\n")
-      .append("null @ ")
+      .append("-1 ")
       .append(vm_output_data_).append(" <- stack").append("\n")
       .append("exit\n")
       .append("else\n")
-      .append("variable index    1 index +!").append("\n")
-      .append("index @ 1- ")
+      .append("variable ").append(vm_func_name()).append("-count")
+      .append("    1 ").append(vm_func_name()).append("-count +!").append("\n")
+      .append(vm_func_name()).append("-count @ 1- ")
       .append(vm_output_data_).append(" <- stack").append("\n")
       .append(content_.get()->vm_func_name()).append("\n")
       .append("then\n")
-- 
2.43.0


From 14fb5124f73012737132a661c3179d487cdbb73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:17 +0000
Subject: [PATCH 69/74] fix: LayoutBuilder snapshots failed for lists inside
 regular, masked or indexed nodes

---
 src/libawkward/layoutbuilder/BitMaskedArrayBuilder.cpp  | 2 ++
 src/libawkward/layoutbuilder/ByteMaskedArrayBuilder.cpp | 2 ++
 src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp    | 2 ++
 src/libawkward/layoutbuilder/RegularArrayBuilder.cpp    | 2 ++
 src/libawkward/layoutbuilder/UnmaskedArrayBuilder.cpp   | 2 ++
 5 files changed, 10 insertions(+)

diff --git a/src/libawkward/layoutbuilder/BitMaskedArrayBuilder.cpp b/src/libawkward/layoutbuilder/BitMaskedArrayBuilder.cpp
index aef3ced..e0ba4cf 100644
--- a/src/libawkward/layoutbuilder/BitMaskedArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/BitMaskedArrayBuilder.cpp
@@ -31,6 +31,8 @@ namespace awkward {
       .append(";").append("\n");
 
     vm_output_ = content_.get()->vm_output();
+    vm_data_from_stack_ = content_.get()->vm_from_stack();
+
     vm_error_ = content_.get()->vm_error();
   }
 
diff --git a/src/libawkward/layoutbuilder/ByteMaskedArrayBuilder.cpp b/src/libawkward/layoutbuilder/ByteMaskedArrayBuilder.cpp
index 3f68527..690899f 100644
--- a/src/libawkward/layoutbuilder/ByteMaskedArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/ByteMaskedArrayBuilder.cpp
@@ -31,6 +31,8 @@ namespace awkward {
       .append(";").append("\n");
 
     vm_output_ = content_.get()->vm_output();
+    vm_data_from_stack_ = content_.get()->vm_from_stack();
+
     vm_error_ = content_.get()->vm_error();
   }
 
diff --git a/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp b/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
index eefaec3..8731c77 100644
--- a/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
@@ -54,6 +54,8 @@ namespace awkward {
       .append("then").append("\n")
       .append(";").append("\n");
 
+    vm_data_from_stack_ = content_.get()->vm_from_stack();
+
     vm_error_ = content_.get()->vm_error();
   }
 
diff --git a/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp b/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp
index 2f925cf..1e27ea2 100644
--- a/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp
@@ -34,6 +34,8 @@ namespace awkward {
       .append(content_.get()->vm_func_name()).append("\n")
       .append(";").append("\n");
 
+    vm_data_from_stack_ = content_.get()->vm_from_stack();
+
     vm_error_.append(content_.get()->vm_error());
   }
 
diff --git a/src/libawkward/layoutbuilder/UnmaskedArrayBuilder.cpp b/src/libawkward/layoutbuilder/UnmaskedArrayBuilder.cpp
index 4d2e153..a5af2eb 100644
--- a/src/libawkward/layoutbuilder/UnmaskedArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/UnmaskedArrayBuilder.cpp
@@ -31,6 +31,8 @@ namespace awkward {
       .append(";").append("\n");
 
     vm_output_ = content_.get()->vm_output();
+    vm_data_from_stack_ = content_.get()->vm_from_stack();
+
     vm_error_.append(content_.get()->vm_error());
   }
 
-- 
2.43.0


From c1e07b37ca5f8ce10b28b07329128a0f9bd6a29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:17 +0000
Subject: [PATCH 70/74] fix: LayoutBuilder counted the items of regular lists
 as lists of the enclosing node

---
 .../layoutbuilder/RegularArrayBuilder.cpp           | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp b/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp
index 1e27ea2..d2c3b30 100644
--- a/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp
@@ -31,8 +31,17 @@ namespace awkward {
 
     vm_func_.append(content_.get()->vm_func())
       .append(": ").append(vm_func_name()).append("\n")
-      .append(content_.get()->vm_func_name()).append("\n")
-      .append(";").append("\n");
+      .append(content_.get()->vm_func_name()).append("\n");
+
+    // one regular list takes as many items as its size
+    if (form_.get()->size() > 1) {
+      vm_func_.append(std::to_string(form_.get()->size()))
+        .append(" 1 do").append("\n")
+        .append("pause").append("\n")
+        .append(content_.get()->vm_func_name()).append("\n")
+        .append("loop").append("\n");
+    }
+    vm_func_.append(";").append("\n");
 
     vm_data_from_stack_ = content_.get()->vm_from_stack();
 
-- 
2.43.0


From d66b4cc0110c2e58174fdc6eae9fa4a984300582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:22 +0000
Subject: [PATCH 71/74] fix: LayoutBuilder rejected begin_list for every
 ListArray

---
 src/libawkward/layoutbuilder/ListArrayBuilder.cpp | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/layoutbuilder/ListArrayBuilder.cpp b/src/libawkward/layoutbuilder/ListArrayBuilder.cpp
index 63f19b9..df581da 100644
--- a/src/libawkward/layoutbuilder/ListArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/ListArrayBuilder.cpp
@@ -184,16 +184,11 @@ namespace awkward {
   void
   ListArrayBuilder::begin_list(LayoutBuilder* builder) {
     if (!begun_) {
-      throw std::invalid_argument(
-        std::string("called 'end_list' without 'begin_list' at the same level before it")
-        + FILENAME(__LINE__));
-    }
-    else if (!content_.get()->active()) {
-      builder->add_end_list();
-      begun_ = false;
+      begun_ = true;
+      builder->add_begin_list();
     }
     else {
-      content_.get()->end_list(builder);
+      content_.get()->begin_list(builder);
     }
   }
 
-- 
2.43.0


From 0188eb4da9787304e54e35b4cf9506c0ec197c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:22 +0000
Subject: [PATCH 72/74] fix: LayoutBuilder rejected lists inside masked,
 indexed or regular nodes inside lists

---
 include/awkward/layoutbuilder/BitMaskedArrayBuilder.h      | 4 ++++
 include/awkward/layoutbuilder/ByteMaskedArrayBuilder.h     | 4 ++++
 include/awkward/layoutbuilder/IndexedArrayBuilder.h        | 4 ++++
 include/awkward/layoutbuilder/IndexedOptionArrayBuilder.h  | 4 ++++
 include/awkward/layoutbuilder/RegularArrayBuilder.h        | 4 ++++
 include/awkward/layoutbuilder/UnmaskedArrayBuilder.h       | 4 ++++
 src/libawkward/layoutbuilder/BitMaskedArrayBuilder.cpp     | 5 +++++
 src/libawkward/layoutbuilder/ByteMaskedArrayBuilder.cpp    | 5 +++++
 src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp       | 5 +++++
 src/libawkward/layoutbuilder/IndexedOptionArrayBuilder.cpp | 5 +++++
 src/libawkward/layoutbuilder/RegularArrayBuilder.cpp       | 5 +++++
 src/libawkward/layoutbuilder/UnmaskedArrayBuilder.cpp      | 5 +++++
 12 files changed, 54 insertions(+)

diff --git a/include/awkward/layoutbuilder/BitMaskedArrayBuilder.h b/include/awkward/layoutbuilder/BitMaskedArrayBuilder.h
index 10fc1bd..6b08dfe 100644
--- a/include/awkward/layoutbuilder/BitMaskedArrayBuilder.h
+++ b/include/awkward/layoutbuilder/BitMaskedArrayBuilder.h
@@ -96,6 +96,10 @@ namespace awkward {
     void
       end_list(LayoutBuilder* builder) override;
 
+    /// @brief If `true`, a nested list has been begun and not ended.
+    bool
+      active() override;
+
   private:
     /// @brief BitMaskedForm that defines the BitMaskedArray.
     const BitMaskedFormPtr form_;
diff --git a/include/awkward/layoutbuilder/ByteMaskedArrayBuilder.h b/include/awkward/layoutbuilder/ByteMaskedArrayBuilder.h
index 691829d..1ce9bd0 100644
--- a/include/awkward/layoutbuilder/ByteMaskedArrayBuilder.h
+++ b/include/awkward/layoutbuilder/ByteMaskedArrayBuilder.h
@@ -96,6 +96,10 @@ namespace awkward {
     void
       end_list(LayoutBuilder* builder) override;
 
+    /// @brief If `true`, a nested list has been begun and not ended.
+    bool
+      active() override;
+
   private:
     /// @brief ByteMaskedForm that defines the BitMaskedArray.
     const ByteMaskedFormPtr form_;
diff --git a/include/awkward/layoutbuilder/IndexedArrayBuilder.h b/include/awkward/layoutbuilder/IndexedArrayBuilder.h
index 1ba447d..deb29f1 100644
--- a/include/awkward/layoutbuilder/IndexedArrayBuilder.h
+++ b/include/awkward/layoutbuilder/IndexedArrayBuilder.h
@@ -98,6 +98,10 @@ namespace awkward {
     void
       end_list(LayoutBuilder* builder) override;
 
+    /// @brief If `true`, a nested list has been begun and not ended.
+    bool
+      active() override;
+
   private:
     /// @brief This builder Form
     const IndexedFormPtr form_;
diff --git a/include/awkward/layoutbuilder/IndexedOptionArrayBuilder.h b/include/awkward/layoutbuilder/IndexedOptionArrayBuilder.h
index dc330ec..23dbc77 100644
--- a/include/awkward/layoutbuilder/IndexedOptionArrayBuilder.h
+++ b/include/awkward/layoutbuilder/IndexedOptionArrayBuilder.h
@@ -96,6 +96,10 @@ namespace awkward {
     void
       end_list(LayoutBuilder* builder) override;
 
+    /// @brief If `true`, a nested list has been begun and not ended.
+    bool
+      active() override;
+
   private:
     void validate() const;
 
diff --git a/include/awkward/layoutbuilder/RegularArrayBuilder.h b/include/awkward/layoutbuilder/RegularArrayBuilder.h
index b4a4707..4bb64d3 100644
--- a/include/awkward/layoutbuilder/RegularArrayBuilder.h
+++ b/include/awkward/layoutbuilder/RegularArrayBuilder.h
@@ -96,6 +96,10 @@ namespace awkward {
     void
       end_list(LayoutBuilder* builder) override;
 
+    /// @brief If `true`, a nested list has been begun and not ended.
+    bool
+      active() override;
+
   private:
     /// @brief This builder Form
     const RegularFormPtr form_;
diff --git a/include/awkward/layoutbuilder/UnmaskedArrayBuilder.h b/include/awkward/layoutbuilder/UnmaskedArrayBuilder.h
index 0f0f13d..af40494 100644
--- a/include/awkward/layoutbuilder/UnmaskedArrayBuilder.h
+++ b/include/awkward/layoutbuilder/UnmaskedArrayBuilder.h
@@ -96,6 +96,10 @@ namespace awkward {
     void
       end_list(LayoutBuilder* builder) override;
 
+    /// @brief If `true`, a nested list has been begun and not ended.
+    bool
+      active() override;
+
   private:
     /// @brief This builder Form
     const UnmaskedFormPtr form_;
diff --git a/src/libawkward/layoutbuilder/BitMaskedArrayBuilder.cpp b/src/libawkward/layoutbuilder/BitMaskedArrayBuilder.cpp
index e0ba4cf..7c29957 100644
--- a/src/libawkward/layoutbuilder/BitMaskedArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/BitMaskedArrayBuilder.cpp
@@ -127,4 +127,9 @@ namespace awkward {
     content_.get()->end_list(builder);
   }
 
+  bool
+  BitMaskedArrayBuilder::active() {
+    return content_.get()->active();
+  }
+
 }
diff --git a/src/libawkward/layoutbuilder/ByteMaskedArrayBuilder.cpp b/src/libawkward/layoutbuilder/ByteMaskedArrayBuilder.cpp
index 690899f..f426c6c 100644
--- a/src/libawkward/layoutbuilder/ByteMaskedArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/ByteMaskedArrayBuilder.cpp
@@ -127,4 +127,9 @@ namespace awkward {
     content_.get()->end_list(builder);
   }
 
+  bool
+  ByteMaskedArrayBuilder::active() {
+    return content_.get()->active();
+  }
+
 }
diff --git a/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp b/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
index 8731c77..f3e4a9c 100644
--- a/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
@@ -222,4 +222,9 @@ namespace awkward {
     content_.get()->end_list(builder);
   }
 
+  bool
+  IndexedArrayBuilder::active() {
+    return content_.get()->active();
+  }
+
 }
diff --git a/src/libawkward/layoutbuilder/IndexedOptionArrayBuilder.cpp b/src/libawkward/layoutbuilder/IndexedOptionArrayBuilder.cpp
index 7b04469..2a82f05 100644
--- a/src/libawkward/layoutbuilder/IndexedOptionArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/IndexedOptionArrayBuilder.cpp
@@ -189,4 +189,9 @@ namespace awkward {
     content_.get()->end_list(builder);
   }
 
+  bool
+  IndexedOptionArrayBuilder::active() {
+    return content_.get()->active();
+  }
+
 }
diff --git a/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp b/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp
index d2c3b30..cfc7b4f 100644
--- a/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp
@@ -145,4 +145,9 @@ namespace awkward {
     content_.get()->end_list(builder);
   }
 
+  bool
+  RegularArrayBuilder::active() {
+    return content_.get()->active();
+  }
+
 }
diff --git a/src/libawkward/layoutbuilder/UnmaskedArrayBuilder.cpp b/src/libawkward/layoutbuilder/UnmaskedArrayBuilder.cpp
index a5af2eb..302c6cd 100644
--- a/src/libawkward/layoutbuilder/UnmaskedArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/UnmaskedArrayBuilder.cpp
@@ -127,4 +127,9 @@ namespace awkward {
     content_.get()->end_list(builder);
   }
 
+  bool
+  UnmaskedArrayBuilder::active() {
+    return content_.get()->active();
+  }
+
 }
-- 
2.43.0


From 733c5c30a0db330f3101f876c27a3c1d3fcc7672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:22 +0000
Subject: [PATCH 73/74] fix: LayoutBuilder put strings of records into the
 wrong field

---
 src/libawkward/layoutbuilder/RecordArrayBuilder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/layoutbuilder/RecordArrayBuilder.cpp b/src/libawkward/layoutbuilder/RecordArrayBuilder.cpp
index afdadf5..6ca963d 100644
--- a/src/libawkward/layoutbuilder/RecordArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/RecordArrayBuilder.cpp
@@ -128,12 +128,14 @@ namespace awkward {
 
   void
   RecordArrayBuilder::bytestring(const std::string& x, LayoutBuilder* builder) {
-    contents_[(size_t)field_index()].get()->bytestring(x, builder);
+    // the string begins and ends a list, which moves to the next field
+    contents_[(size_t)field_index_].get()->bytestring(x, builder);
   }
 
   void
   RecordArrayBuilder::string(const std::string& x, LayoutBuilder* builder) {
-    contents_[(size_t)field_index()].get()->string(x, builder);
+    // the string begins and ends a list, which moves to the next field
+    contents_[(size_t)field_index_].get()->string(x, builder);
   }
 
   void
-- 
2.43.0


From 894ea4fc0f180d0061477913582a753385e29a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:45 +0000
Subject: [PATCH 74/74] fix: LayoutBuilder ignored values of unions given
 without a tag

---
 src/libawkward/layoutbuilder/UnionArrayBuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp b/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp
index 04720a4..aa27cc3 100644
--- a/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp
@@ -81,9 +81,13 @@ namespace awkward {
     }
     vm_func_.append(std::to_string(LayoutBuilder::next_error_id()))
     .append(" err ! err @ halt").append("\n")
+    .append("else").append("\n")
+    .append(std::to_string(LayoutBuilder::next_error_id()))
+    .append(" err ! err @ halt").append("\n")
     .append("then\n;\n\n");
 
     vm_error_.append("s\" Union Array Builder error\"\n");
+    vm_error_.append("s\" Union Array Builder needs tag\"\n");
   }
 
   const std::string
-- 
2.43.0

