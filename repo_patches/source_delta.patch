From 1e9ac963c66777557e1755cf0209075cef58ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:49 +0000
Subject: [PATCH 01/44] fix: build ragged tensors from nested lists that begin
 with an empty sublist

RaggedAnyFromListIter took the level of an empty sublist as the level at
which values appear, so [[], [[1]]] (documented as valid in the comments
there) was refused.
---
 k2/python/csrc/torch/v2/ragged_any.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/csrc/torch/v2/ragged_any.cu b/k2/python/csrc/torch/v2/ragged_any.cu
index df685e4..706f765 100644
--- a/k2/python/csrc/torch/v2/ragged_any.cu
+++ b/k2/python/csrc/torch/v2/ragged_any.cu
@@ -112,7 +112,7 @@ static void RaggedAnyFromListIter(py::list data, int32_t *cur_level,
                             row_splits, elems);
     }
   } else {
-    if (*deepest_level == -1) {
+    if (*deepest_level == -1 && data.size() > 0) {
       *deepest_level = *cur_level;
     } else if (data.size() > 0 && *deepest_level != *cur_level) {
       // Handle the case for [ [2], [[1]] ]
-- 
2.43.0


From 4ddf67875ca062ad039b94272728dd8b053ad1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:21 +0000
Subject: [PATCH 02/44] fix: Arange of an empty range when there are fewer
 values than rows

---
 k2/csrc/ragged_ops.cu | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/ragged_ops.cu b/k2/csrc/ragged_ops.cu
index 490c423..ea60b3c 100644
--- a/k2/csrc/ragged_ops.cu
+++ b/k2/csrc/ragged_ops.cu
@@ -1862,8 +1862,12 @@ RaggedShape Arange(RaggedShape &src, int32_t axis, int32_t begin, int32_t end,
   if (begin == end) {
     RaggedShape ans = EmptyRaggedShape(src.Context(), num_axes - axis);
     // as begin == end, user always get empty values when doing
-    // `src.values.Arange(begin, end)`
-    if (value_range != nullptr) *value_range = std::make_pair(begin, end);
+    // `src.values.Arange(begin, end)`; `begin` indexes axis `axis`, so it may
+    // be more than the number of values.
+    if (value_range != nullptr) {
+      int32_t pos = std::min(begin, src.NumElements());
+      *value_range = std::make_pair(pos, pos);
+    }
     return ans;
   }
 
-- 
2.43.0


From 8139e6e538fb42242ae9d715134dbeb8479963a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:21 +0000
Subject: [PATCH 03/44] fix: PruneRagged prunes empty sub-lists even if the
 whole batch is empty

---
 k2/csrc/ragged_ops_inl.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/k2/csrc/ragged_ops_inl.h b/k2/csrc/ragged_ops_inl.h
index 685954d..7380bea 100644
--- a/k2/csrc/ragged_ops_inl.h
+++ b/k2/csrc/ragged_ops_inl.h
@@ -903,7 +903,10 @@ Renumbering PruneRaggedAxis1(Ragged<T> &src, T beam,
           *best_scores_data = best_scores.Data(),
           *src_data = src.values.Data();
   const int32_t *row_ids1_data = src.RowIds(1).Data(),
-                *row_splits1_data = src.RowSplits(1).Data();
+                *row_splits1_data = src.RowSplits(1).Data(),
+                *row_splits2_data = src.RowSplits(2).Data();
+  // Note: an empty sub-list has -infinity as its sub_max, and would not be
+  // pruned by the beam if the best score of its batch is -infinity as well.
   // prune_with_max_elems means we have sorted the sub-max ragged tensor
   if (prune_with_max_elems) {
     K2_EVAL(c, total_elements, lambda_set_keep_sorted, (int32_t idx01) {
@@ -916,14 +919,19 @@ Renumbering PruneRaggedAxis1(Ragged<T> &src, T beam,
                 idx1 = idx01 - idx0x;
         bool pruned_by_max_elems = idx1 >= max_elems,
              pruned_by_beam =
-                 sub_max_data[original_idx01] < best_scores_data[idx0] - beam;
+                 sub_max_data[original_idx01] < best_scores_data[idx0] - beam,
+             is_empty = row_splits2_data[original_idx01] ==
+                        row_splits2_data[original_idx01 + 1];
         keep_data[original_idx01] =
-            !(pruned_by_max_elems || pruned_by_beam);
+            !(pruned_by_max_elems || pruned_by_beam || is_empty);
     });
   } else {
     K2_EVAL(c, total_elements, lambda_set_keep, (int32_t idx01) {
         int32_t idx0 = row_ids1_data[idx01];
-        keep_data[idx01] = sub_max_data[idx01] >= best_scores_data[idx0] - beam;
+        bool is_empty =
+            row_splits2_data[idx01] == row_splits2_data[idx01 + 1];
+        keep_data[idx01] =
+            !is_empty && sub_max_data[idx01] >= best_scores_data[idx0] - beam;
     });
   }
   return renumbering;
-- 
2.43.0


From 10165171181dbca3e9a2e8fa65b19a2a859756f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:49 +0000
Subject: [PATCH 04/44] fix: indexing a RaggedTensor with a tensor of one index
 selects sublists

---
 k2/python/csrc/torch/v2/any.cu | 40 ++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index 5367478..f3d2a2c 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -91,6 +91,27 @@ void PybindRaggedAny(py::module &m) {
       [](const RaggedAny &self) -> std::string { return self.ToString(); },
       kRaggedAnyStrDoc);
 
+  // Note: this overload has to come before the one taking an integer, as a
+  // tensor with a single element can be converted to an integer.
+  any.def(
+      "__getitem__",
+      [](RaggedAny &self, torch::Tensor key) -> RaggedAny {
+        // key is a 1-d torch tensor with dtype torch.int32
+        DeviceGuard guard(self.any.Context());
+        Array1<int32_t> indexes = FromTorch<int32_t>(key);
+        Dtype t = self.any.GetDtype();
+        FOR_REAL_AND_INT32_TYPES(t, T, {
+          Ragged<T> ans =
+              k2::Index<T>(self.any.Specialize<T>(), /*axis*/ 0, indexes,
+                           /*value_indexes*/ nullptr);
+
+          return RaggedAny(ans.Generic());
+        });
+        // Unreachable code
+        return {};
+      },
+      py::arg("key"), kRaggedAnyGetItem1DTensorDoc);
+
   any.def(
       "__getitem__",
       [](RaggedAny &self, int32_t i) -> py::object {
@@ -132,25 +153,6 @@ void PybindRaggedAny(py::module &m) {
       },
       py::arg("key"), kRaggedAnyGetItemSliceDoc);
 
-  any.def(
-      "__getitem__",
-      [](RaggedAny &self, torch::Tensor key) -> RaggedAny {
-        // key is a 1-d torch tensor with dtype torch.int32
-        DeviceGuard guard(self.any.Context());
-        Array1<int32_t> indexes = FromTorch<int32_t>(key);
-        Dtype t = self.any.GetDtype();
-        FOR_REAL_AND_INT32_TYPES(t, T, {
-          Ragged<T> ans =
-              k2::Index<T>(self.any.Specialize<T>(), /*axis*/ 0, indexes,
-                           /*value_indexes*/ nullptr);
-
-          return RaggedAny(ans.Generic());
-        });
-        // Unreachable code
-        return {};
-      },
-      py::arg("key"), kRaggedAnyGetItem1DTensorDoc);
-
   any.def("index",
           static_cast<RaggedAny (RaggedAny::*)(RaggedAny &)>(&RaggedAny::Index),
           py::arg("indexes"), kRaggedAnyRaggedIndexDoc);
-- 
2.43.0


From 339244bc67233e926f2804cd3143fd5e8243664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:04 +0000
Subject: [PATCH 05/44] fix: RaggedTensor.to(dtype) can be called with a
 positional argument

---
 k2/python/csrc/torch/v2/any.cu | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index f3d2a2c..ba1d374 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -179,6 +179,13 @@ void PybindRaggedAny(py::module &m) {
       },
       py::arg("src"), py::arg("indexes"), kRaggedAnyIndexAndSumDoc);
 
+  // Note: this overload has to come before the one taking a py::object, which
+  // accepts anything.
+  any.def("to",
+          static_cast<RaggedAny (RaggedAny::*)(torch::ScalarType) const>(
+              &RaggedAny::To),
+          py::arg("dtype"), kRaggedAnyToDtypeDoc);
+
   any.def(
       "to",
       [](RaggedAny &self, py::object device) -> RaggedAny {
@@ -192,11 +199,6 @@ void PybindRaggedAny(py::module &m) {
               &RaggedAny::To),
           py::arg("device"), kRaggedAnyToDeviceStrDoc);
 
-  any.def("to",
-          static_cast<RaggedAny (RaggedAny::*)(torch::ScalarType) const>(
-              &RaggedAny::To),
-          py::arg("dtype"), kRaggedAnyToDtypeDoc);
-
   any.def(
       "clone",
       [](const RaggedAny &self) -> RaggedAny {
-- 
2.43.0


From ff92f4617403768b2bb9706a887ad7847318b70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:05 +0000
Subject: [PATCH 06/44] fix: Unstack on the last axis does not change its input

---
 k2/csrc/ragged_ops.cu | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/ragged_ops.cu b/k2/csrc/ragged_ops.cu
index ea60b3c..ac9cb13 100644
--- a/k2/csrc/ragged_ops.cu
+++ b/k2/csrc/ragged_ops.cu
@@ -1379,14 +1379,15 @@ void Unstack(RaggedShape &src, int32_t axis, bool pad_right,
     // layer after axis `axis` if axis equals to `src.NumAxes() - 1`.
     // Of course, we have to remove the added layer finally.
     bool remove_last_axis = false;
+    RaggedShape src_extended = src;  // shallow copy; `src` must not change
     if (axis == src.NumAxes() - 1) {
-      src = ComposeRaggedShapes(src,
+      src_extended = ComposeRaggedShapes(src,
          RegularRaggedShape(c, src.NumElements(), 1));
       remove_last_axis = true;
     }
 
     RaggedShape top, bottom;
-    DecomposeRaggedShape(src, axis, &top, &bottom);
+    DecomposeRaggedShape(src_extended, axis, &top, &bottom);
 
     // Unstack will remove current axis (the last axis of top after decomposing
     // on axis), to make `RemoveAxis` work, we add a TrivialShape layer before
-- 
2.43.0


From 290ab53ac225880de04bcc605811535cf9776854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:18 +0000
Subject: [PATCH 07/44] fix: index_select from an empty tensor returns one
 default value per index

---
 k2/python/csrc/torch/index_select.cu | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/k2/python/csrc/torch/index_select.cu b/k2/python/csrc/torch/index_select.cu
index 069148f..f5dffee 100644
--- a/k2/python/csrc/torch/index_select.cu
+++ b/k2/python/csrc/torch/index_select.cu
@@ -76,9 +76,9 @@ static torch::Tensor IndexSelect1D(torch::Tensor src, torch::Tensor index,
   // If index_array.Dim() equals to zero, the `Index` below would produce an
   // ans with `ans.Data()` be a nullptr, which will cause crash when calling
   // `torch::from_blob`. Just return an empty tensor here.
-  // If src is an empty tensor, we should return an empty torch.
+  // If src is an empty tensor, all the entries of `index` have to be -1.
   if (index_array.Dim() == 0 || src.numel() == 0)
-    return torch::empty({0}, src.options());
+    return torch::full({index.numel()}, default_value, src.options());
   if (src.is_contiguous()) {
     Array1<T> src_array = FromTorch<T>(src);
     Array1<T> ans_array =
@@ -123,9 +123,9 @@ static torch::Tensor IndexSelect2D(torch::Tensor src, torch::Tensor index) {
   // If index_array.Dim() equals to zero, the `IndexRows` below would produce
   // an ans with `ans.Data()` be a nullptr, which will cause crash when calling
   // `torch::from_blob`. Just return an empty tensor here.
-  // If src is an empty tensor, we should return an empty torch.
+  // If src is an empty tensor, all the entries of `index` have to be -1.
   if (index_array.Dim() == 0 || src.sizes()[0] == 0)
-    return torch::empty({0, src.sizes()[1]}, src.options());
+    return torch::zeros({index.numel(), src.sizes()[1]}, src.options());
   bool allow_minus_one = true;
   Array2<T> ans_array = IndexRows(src_array, index_array, allow_minus_one);
 
-- 
2.43.0


From 38f2a6d59e2198f629d439d0f53b94832933a37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:28 +0000
Subject: [PATCH 08/44] fix: a one-element torch tensor of any stride can be
 used as an array

---
 k2/csrc/torch_util.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/k2/csrc/torch_util.h b/k2/csrc/torch_util.h
index 1e48f91..9d8bc81 100644
--- a/k2/csrc/torch_util.h
+++ b/k2/csrc/torch_util.h
@@ -121,7 +121,9 @@ Array1<T> FromTorch(torch::Tensor tensor) {
       << ". Given: " << tensor.scalar_type();
   // Some empty tensor may have stride not equal to 1, e.g., tensor returned by
   // clone() method, it is valid here, so we won't check its strieds.
-  if (tensor.numel())
+  // The stride of a tensor with only one element does not matter either (torch
+  // says it is contiguous).
+  if (tensor.numel() > 1)
     K2_CHECK_EQ(tensor.strides()[0], 1)
         << "Expected stride: 1. Given: " << tensor.strides()[0];
 
-- 
2.43.0


From 7f03120be2385ad710de1769caaf5a6ca6e57f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:08 +0000
Subject: [PATCH 09/44] fix: ragged labels with a space before the closing
 bracket can be read, as they are written that way

---
 k2/csrc/fsa_utils.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index 9eb6231..e8ed071 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -132,7 +132,7 @@ static Fsa K2FsaFromStream(std::istringstream &is,
       line_is >> c >> std::ws;  // eat the '['
       while (line_is.peek() != ']' && line_is.good()) {
         int32_t ragged_label;
-        line_is >> ragged_label;
+        line_is >> ragged_label >> std::ws;
         ragged_labels[i].push_back(ragged_label);
       }
       line_is >> c;  // eat the ']'
-- 
2.43.0


From 7f7bb0242d5ef4b8705d210831d78712528cf739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:08 +0000
Subject: [PATCH 10/44] fix: OpenFst text: accept an acceptor's arc without a
 cost, reject a final state that is no number

---
 k2/csrc/fsa_utils.cu | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index e8ed071..e7e03d7 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -266,7 +266,7 @@ class OpenFstStreamReader {
     std::istringstream line_is(line);
     int32_t src_state, dest_state, label;
     line_is >> src_state >> dest_state >> label;
-    if (!line_is.good()) {
+    if (line_is.fail()) {
       // Our only hope of parsing othis is that `line` was empty, or a
       // final-state; try that.
       if (!ProcessFinalProbOrEmpty(line)) {
@@ -314,7 +314,10 @@ class OpenFstStreamReader {
       return true;  // empty line.
     int32_t final_state;
     float final_cost;
-    line_is >> final_state >> std::ws;
+    line_is >> final_state;
+    if (line_is.fail())
+      return false;
+    if (!line_is.eof()) line_is >> std::ws;
     if (line_is.eof()) {
       final_cost = 0.0;
     } else if (line_is.peek() == 'I') {
-- 
2.43.0


From 93f7bf259a66ee4535d356c0a8b3dff8d181f624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:49 +0000
Subject: [PATCH 11/44] fix: the score of an arc may be left out in the k2 text
 format, as documented

---
 k2/csrc/fsa_utils.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index e7e03d7..a9b3083 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -139,7 +139,7 @@ static Fsa K2FsaFromStream(std::istringstream &is,
       ragged_row_splits[i].push_back(ragged_labels[i].size());
     }
     float score = 0.0;
-    line_is >> std::ws;
+    if (!line_is.eof()) line_is >> std::ws;
     if (!line_is.eof()) {  // Score is optional, defaults to 0.0.
       line_is >> score;
       if (!line_is.eof()) line_is >> std::ws;
-- 
2.43.0


From 839856c504bb8a51505e0ca9e011cc1890a428da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:14 +0000
Subject: [PATCH 12/44] fix: FSA from a tensor without arcs, or whose arcs
 never enter a final state, as documented

---
 k2/csrc/fsa.cu | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/k2/csrc/fsa.cu b/k2/csrc/fsa.cu
index f55b908..bc20eea 100644
--- a/k2/csrc/fsa.cu
+++ b/k2/csrc/fsa.cu
@@ -291,6 +291,20 @@ Fsa FsaFromArray1(Array1<Arc> &arcs, bool *error, int32_t final_state) {
     return Fsa();
   }
 
+  if (final_state_in_arcs == -1 && final_state == -1) {
+    // There are no arcs with label -1 (but there are arcs): let the final state
+    // be the highest-numbered state on any arc, plus one.
+    Array1<int32_t> max_state(c, num_arcs);
+    int32_t *max_state_data = max_state.Data();
+    K2_EVAL(
+        c, num_arcs, lambda_max_state, (int32_t i)->void {
+          int32_t src_state = arcs_data[i].src_state,
+                  dest_state = arcs_data[i].dest_state;
+          max_state_data[i] = src_state > dest_state ? src_state : dest_state;
+        });
+    final_state = MaxValue(max_state) + 1;
+  }
+
   if (final_state_in_arcs <= 0) {  // Cannot get valid final_state from arcs.
     if (final_state <= 0) {  // Cannot get valid final_state from input also.
       K2_LOG(WARNING) << "Could not convert tensor to FSA, there was a problem "
@@ -372,6 +386,9 @@ Fsa FsaFromTensor(Tensor &t, bool *error) {
   }
   K2_CHECK_EQ(sizeof(Arc), sizeof(int32_t) * 4);
 
+  if (t.Dim(0) == 0)  // No arcs at all; return the FSA with no states.
+    return Fsa(EmptyRaggedShape(t.Context(), 2), Array1<Arc>(t.Context(), 0));
+
   Array1<Arc> arc_array(t.Dim(0), t.GetRegion(), t.ByteOffset());
   return FsaFromArray1(arc_array, error);
 }
-- 
2.43.0


From df155ccbd7ef4bf2421484bb49b27d1ecff5a09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:10 +0000
Subject: [PATCH 13/44] fix: connect of a cyclic FSA with unreachable cycles
 was returned unchanged

---
 k2/python/k2/fsa_algo.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 35d9ca0..cd1f856 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -519,7 +519,10 @@ def connect(fsa: Fsa) -> Fsa:
     Returns:
       An FSA that is connected.
     '''
-    if fsa.properties & fsa_properties.ACCESSIBLE != 0 and \
+    # Note: ACCESSIBLE and COACCESSIBLE only mean that there are no obvious signs
+    # of the contrary; they are conclusive only if the FSA is top-sorted.
+    if fsa.properties & fsa_properties.TOPSORTED != 0 and \
+            fsa.properties & fsa_properties.ACCESSIBLE != 0 and \
             fsa.properties & fsa_properties.COACCESSIBLE != 0:
         return fsa
 
-- 
2.43.0


From 980c0448979a7b7fa6f4a69c3a695c745df4c837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:05 +0000
Subject: [PATCH 14/44] fix: online dense intersection keeps the frames of a
 sequence without active states

The frames of a sequence whose states all died were removed together with the
padding, so the sequence went on from a state of an earlier frame, or crashed.
---
 k2/csrc/intersect_dense_pruned.cu | 33 +++++++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/k2/csrc/intersect_dense_pruned.cu b/k2/csrc/intersect_dense_pruned.cu
index 9ace992..05bb85a 100644
--- a/k2/csrc/intersect_dense_pruned.cu
+++ b/k2/csrc/intersect_dense_pruned.cu
@@ -1762,6 +1762,31 @@ OnlineDenseIntersecter::~OnlineDenseIntersecter(){
   delete impl_;
 }
 
+// Remove the empty lists on axis 1 (the frame axis) that precede the first
+// non-empty one of their sequence.  The empty lists after it must be kept: they
+// are the frames of a sequence that has no active states any more.  The last
+// frame of each sequence is always kept.
+static RaggedShape RemoveLeadingEmptyFrames(RaggedShape &src) {
+  NVTX_RANGE(K2_FUNC);
+  ContextPtr &c = src.Context();
+  int32_t num_frames = src.TotSize(1);
+  Renumbering renumbering(c, num_frames);
+  const int32_t *row_ids1_data = src.RowIds(1).Data(),
+                *row_splits1_data = src.RowSplits(1).Data(),
+                *row_splits2_data = src.RowSplits(2).Data();
+  char *keep_data = renumbering.Keep().Data();
+  K2_EVAL(
+      c, num_frames, lambda_set_keep, (int32_t idx01)->void {
+        int32_t idx0 = row_ids1_data[idx01],
+               idx0x = row_splits1_data[idx0],
+          idx0x_next = row_splits1_data[idx0 + 1];
+        keep_data[idx01] =
+            row_splits2_data[idx01 + 1] > row_splits2_data[idx0x] ||
+            idx01 + 1 == idx0x_next;
+      });
+  return RemoveSomeEmptyLists(src, 1, renumbering);
+}
+
 void OnlineDenseIntersecter::Decode(DenseFsaVec &b_fsas,
     std::vector<DecodeStateInfo*> *decode_states,
     FsaVec *ofsa, Array1<int32_t> *arc_map_a) {
@@ -1800,11 +1825,11 @@ void OnlineDenseIntersecter::Decode(DenseFsaVec &b_fsas,
   auto stack_states = Stack(0, num_seqs, seq_states_ptr_vec.data());
   auto stack_arcs = Stack(0, num_seqs, seq_arcs_ptr_vec.data());
 
-  // Remove empty lists on frame axis, these empty lists come from the
-  // Unstack of the previous chunk
-  stack_states = Ragged<StateInfo>(RemoveEmptyLists(stack_states.shape, 1),
+  // Remove the leading empty lists on frame axis, these empty lists come from
+  // the Unstack of the previous chunk
+  stack_states = Ragged<StateInfo>(RemoveLeadingEmptyFrames(stack_states.shape),
                                    stack_states.values);
-  stack_arcs = Ragged<ArcInfo>(RemoveEmptyLists(stack_arcs.shape, 1),
+  stack_arcs = Ragged<ArcInfo>(RemoveLeadingEmptyFrames(stack_arcs.shape),
                                stack_arcs.values);
 
   std::vector<Ragged<StateInfo>> frame_states_vec;
-- 
2.43.0


From 1e4b26cc22d92e0192cc87fa9bd9f2e8491eb019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:22 +0000
Subject: [PATCH 15/44] fix: determinize of an FsaVec writes the arc
 derivations of each member

The offset was added to (out-of-range) elements at the output pointer instead of
the member's derivations, which crashed or left indexes relative to the member.
---
 k2/csrc/fsa_algo.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index b644e23..9236004 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -329,7 +329,7 @@ void Determinize(FsaOrVec &src,
                  arc_derivs != nullptr ? &(derivs_vector[i]) : nullptr);
       if (arc_derivs != nullptr) {
         // convert arc indexes in arc_derivs from idx2 to idx012
-        Array1<int32_t> &values = arc_derivs[i].values;
+        Array1<int32_t> &values = derivs_vector[i].values;
         values = Plus(values, tot_num_arcs);
         tot_num_arcs += srcs[i].NumElements();
       }
-- 
2.43.0


From bfb7c1a3d091e3f22f0504b318011e863fd4b4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:37 +0000
Subject: [PATCH 16/44] fix: epsilon removal gives no NaN scores when no
 complete path exists

Arcs leaving a state that can't be reached got the score (-inf) - (-inf).
---
 k2/csrc/host/rmepsilon_pruned.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/k2/csrc/host/rmepsilon_pruned.cc b/k2/csrc/host/rmepsilon_pruned.cc
index e7db5e2..506d30b 100644
--- a/k2/csrc/host/rmepsilon_pruned.cc
+++ b/k2/csrc/host/rmepsilon_pruned.cc
@@ -208,6 +208,9 @@ void EpsilonsRemoverPruned<TracebackState>::GetSizes(
   for (int32_t i = 0; i != num_states_in; ++i) {
     if (non_eps_in[i] != 1) continue;
     arc_indexes_.push_back(arc_num_out);
+    // A state that can't be reached has no arcs; this matters if there is no
+    // complete path at all, as all arcs would then be within the beam.
+    if (forward_state_weights[i] == kDoubleNegativeInfinity) continue;
     int32_t curr_state_out = state_map[i];
 
     // as the input FSA is top-sorted, we use a set here so we can process
-- 
2.43.0


From 0f5a0d32f6ffb4dafae7e8aecd6267afbe3d5ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:43 +0000
Subject: [PATCH 17/44] fix: Union: set the arc to the start state of an FSA
 that has no arcs

---
 k2/csrc/fsa_algo.cu | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index 9236004..c8121f4 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -1308,7 +1308,6 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
 
   ContextPtr &context = fsas.Context();
   const int32_t *fsas_row_splits1_data = fsas.RowSplits(1).Data();
-  const int32_t *fsas_row_splits2_data = fsas.RowSplits(2).Data();
   const int32_t *fsas_row_ids1_data = fsas.RowIds(1).Data();
   const int32_t *fsas_row_ids2_data = fsas.RowIds(2).Data();
   const Arc *arcs_data = fsas.values.Data();
@@ -1349,8 +1348,6 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
         int32_t this_fsa_final_state_idx1 =
             this_fsa_final_state_idx01 - fsas_state_idx0x;
 
-        int32_t fsas_arc_idx0xx = fsas_row_splits2_data[fsas_state_idx0x];
-
         // fsa0: +1 (a new start state)
         // fsa1: +0 (the final state of fsa0 is removed)
         // fsa2: -1 (the final state of fsa1 is removed)
@@ -1372,17 +1369,15 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
         arc.src_state = out_state_idx0;
         out_arcs_data[out_arc_idx01] = arc;
         tmp_arc_map_data[out_arc_idx01] = fsas_arc_idx012;
+      });
 
-        if (fsas_arc_idx0xx == fsas_arc_idx012) {
-          // add a new arc from the new start state to the start state
-          // of this fsa
-          //
-          // WARNING: we cannot use fsas_state_idx01 here
-          // since the start state may have no leaving arcs!
-          Arc arc(0, fsas_state_idx0x + state_offset, 0, 0);
-          out_arcs_data[fsas_idx0] = arc;
-          out_row_ids_data[fsas_idx0] = 0;
-        }
+  // Add an arc from the new start state to the start state of each fsa.
+  // Note that an fsa may have no arcs.
+  K2_EVAL(
+      context, num_fsas, lambda_set_start_arcs, (int32_t fsas_idx0) {
+        Arc arc(0, fsas_row_splits1_data[fsas_idx0] + 1 - fsas_idx0, 0, 0);
+        out_arcs_data[fsas_idx0] = arc;
+        out_row_ids_data[fsas_idx0] = 0;
       });
 
   if (arc_map != nullptr) *arc_map = std::move(tmp_arc_map);
-- 
2.43.0


From 062ea40f630ac50e06c907407a51b4c9b2715b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:59 +0000
Subject: [PATCH 18/44] fix: Closure: set the new arc also for an FSA that has
 no arcs

---
 k2/csrc/fsa_algo.cu | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index c8121f4..b5cf471 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -1402,7 +1402,6 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
   }
 
   const int32_t *fsa_row_splits_data = fsa.RowSplits(1).Data();
-  const int32_t *fsa_row_ids_data = fsa.RowIds(1).Data();
   const Arc *fsa_arcs_data = fsa.values.Data();
   int32_t fsa_final_state = num_states - 1;
 
@@ -1422,12 +1421,6 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
 
   K2_EVAL(
       c, fsa.values.Dim(), lambda_set_arcs, (int32_t fsa_arc_idx01) {
-        int32_t fsa_state_idx0 = fsa_row_ids_data[fsa_arc_idx01];
-        int32_t fsa_arc_idx0x = fsa_row_splits_data[fsa_state_idx0];
-        int32_t fsa_arc_idx1 = fsa_arc_idx01 - fsa_arc_idx0x;
-        int32_t this_state_num_arcs =
-            fsa_row_splits_data[fsa_state_idx0 + 1] - fsa_arc_idx0x;
-
         Arc arc = fsa_arcs_data[fsa_arc_idx01];
         if (arc.dest_state == fsa_final_state) {
           // modify arcs entering the final state such that:
@@ -1445,22 +1438,6 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
           out_arc_idx01 = fsa_arc_idx01 + 1;
         } else {
           out_arc_idx01 = fsa_arc_idx01;
-          if (fsa_arc_idx1 == this_state_num_arcs - 1) {
-            // This is the last arc of the original start state,
-            // so we add a new arc just after it.
-            Arc new_arc(0, fsa_final_state, -1, 0.0f);
-            out_arcs_data[out_arc_idx01 + 1] = new_arc;
-            out_row_ids_data[out_arc_idx01 + 1] = 0;
-            tmp_arc_map_data[out_arc_idx01 + 1] = -1;
-          }
-        }
-
-        // it may happen that the start state has no leaving arcs
-        if (fsa_row_splits_data[1] == 0) {
-          Arc new_arc(0, fsa_final_state, -1, 0.0f);
-          out_arcs_data[0] = new_arc;
-          out_row_ids_data[0] = 0;
-          tmp_arc_map_data[0] = -1;
         }
 
         tmp_arc_map_data[out_arc_idx01] = fsa_arc_idx01;
@@ -1469,6 +1446,17 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
         out_row_ids_data[out_arc_idx01] = arc.src_state;
       });
 
+  // The new arc is the last one of the start state.  Note that the start
+  // state, or even the whole fsa, may have no arcs.
+  K2_EVAL(
+      c, 1, lambda_set_new_arc, (int32_t) {
+        int32_t out_arc_idx01 = fsa_row_splits_data[1];
+        Arc new_arc(0, fsa_final_state, -1, 0.0f);
+        out_arcs_data[out_arc_idx01] = new_arc;
+        out_row_ids_data[out_arc_idx01] = 0;
+        tmp_arc_map_data[out_arc_idx01] = -1;
+      });
+
   if (arc_map != nullptr) *arc_map = std::move(tmp_arc_map);
 
   Array1<int32_t> out_row_splits(c, num_out_states + 1);
-- 
2.43.0


From 3fd98cb1ae85aa0c1cf5d9d72ddd2e4a115b2129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:59 +0000
Subject: [PATCH 19/44] fix: closure: find the aux label of the first arc after
 the start state

---
 k2/python/k2/fsa_algo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index cd1f856..b659e4e 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -861,7 +861,7 @@ def closure(fsa: Fsa) -> Fsa:
         minus_one_index = torch.nonzero(src_aux_labels == -1, as_tuple=False)
         src_start_state_last_arc_index = src_row_splits1[1]
 
-        minus_one_index[minus_one_index > src_start_state_last_arc_index] += 1
+        minus_one_index[minus_one_index >= src_start_state_last_arc_index] += 1
 
         # now minus one index contains arc indexes into the output FSA
         ans_aux_labels = index_select(src_aux_labels, arc_map)
-- 
2.43.0


From ecd3686f4ca400838e67ba667a55d4b84a9b9590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:49 +0000
Subject: [PATCH 20/44] fix: set_scores_stochastic_: accept scores that are not
 contiguous, like those of an Fsa

---
 k2/python/k2/fsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa.py b/k2/python/k2/fsa.py
index 965ed5c..e9dee46 100644
--- a/k2/python/k2/fsa.py
+++ b/k2/python/k2/fsa.py
@@ -1398,7 +1398,7 @@ class Fsa(object):
         assert scores.numel() == self.scores.numel()
 
         ragged_scores = k2.RaggedTensor(
-            self.arcs.shape().to(scores.device), scores)
+            self.arcs.shape().to(scores.device), scores.contiguous())
         ragged_scores = ragged_scores.normalize(use_log=True)
 
         # Note we use `to` here since `scores` and `self.scores` may not
-- 
2.43.0


From 6cc28dac7e47841bab5ce10bdad2f783e24716ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:22 +0000
Subject: [PATCH 21/44] fix: shortest_path: accept a single FSA, as documented

---
 k2/python/k2/fsa_algo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index b659e4e..5ab4cb3 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -615,6 +615,8 @@ def shortest_path(fsa: Fsa, use_double_scores: bool) -> Fsa:
     Returns:
       FsaVec, it contains the best paths as linear FSAs
     '''
+    if len(fsa.shape) == 2:
+        fsa = k2.create_fsa_vec([fsa])
     entering_arcs = fsa._get_entering_arcs(use_double_scores)
     ragged_arc, ragged_int = _k2.shortest_path(fsa.arcs, entering_arcs)
     arc_map = ragged_int.values
-- 
2.43.0


From 08b7b84e93274df8a0db24b8f1a62a29324c9ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 22/44] fix: fsa_from_unary_function_ragged: support integer
 attributes with remove_filler=False

---
 k2/python/k2/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/k2/python/k2/utils.py b/k2/python/k2/utils.py
index 6def312..61eaaa2 100644
--- a/k2/python/k2/utils.py
+++ b/k2/python/k2/utils.py
@@ -497,15 +497,14 @@ def fsa_from_unary_function_ragged(src: Fsa,
     dest = Fsa(dest_arcs)
 
     for name, value in src.named_tensor_attr(include_scores=False):
-        if remove_filler and isinstance(value, torch.Tensor) and \
-           value.dtype == torch.int32:
+        if isinstance(value, torch.Tensor) and value.dtype == torch.int32:
             filler = src.get_filler(name)
             # when removing fillers for `aux_labels`, we need to treat -1 as a
             # filler where it is on a final-arc (i.e. turn it into the actual
             # filler, so it will be later removed by remove_values_eq).  We
             # assume that `dest` has been checked for validity, so the presence
             # of -1 as the label precisely indicates final-arcs.
-            if filler != -1:
+            if remove_filler and filler != -1:
                 value = value.clone()
                 if hasattr(torch, 'logical_and'):
                     # torch.logical_and requires torch>=1.5.0
@@ -518,7 +517,9 @@ def fsa_from_unary_function_ragged(src: Fsa,
             # Since value.dtype is torch.int32, the resulting attr
             # is a ragged tensor also with dtype torch.int32
             new_value = k2.ragged.index(value, arc_map, default_value=filler)
-            setattr(dest, name, new_value.remove_values_eq(filler))
+            if remove_filler:
+                new_value = new_value.remove_values_eq(filler)
+            setattr(dest, name, new_value)
         else:
             # at this point, value can be either
             # (1) a torch.tensor with dtype other than torch.int32
-- 
2.43.0


From 920a8f5f8b26ab62c9f9a8fed1e947719b81a1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:43 +0000
Subject: [PATCH 23/44] fix: closure: propagate ragged attributes and use the
 attributes' fillers

---
 k2/python/k2/fsa_algo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 5ab4cb3..c57bd46 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -876,10 +876,13 @@ def closure(fsa: Fsa) -> Fsa:
 
     out_fsa = Fsa(ragged_arc)
     for name, value in fsa.named_tensor_attr():
-        if name == 'aux_labels':
+        if isinstance(value, k2.RaggedTensor):
+            new_value, _ = value.index(arc_map, axis=0, need_value_indexes=False)
+        elif name == 'aux_labels':
             new_value = fix_aux_labels(value, fsa.arcs.row_splits(1), arc_map)
         else:
-            new_value = index_select(value, arc_map)
+            filler = float(fsa.get_filler(name))
+            new_value = index_select(value, arc_map, default_value=filler)
         setattr(out_fsa, name, new_value)
 
     for name, value in fsa.named_non_tensor_attr():
-- 
2.43.0


From cb1b143efc74e210f778b690c83458b65ef99f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 24/44] fix: linear_fst: accept an empty list of labels, as
 linear_fsa does

---
 k2/python/k2/fsa_algo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index c57bd46..d2488d8 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -118,7 +118,7 @@ def linear_fst(labels: Union[List[int], List[List[int]]],
       A vector of FSTs (FsaVec) if the input is a list of list of integers.
     '''
     ragged_arc = _k2.linear_fsa(labels)
-    if isinstance(labels[0], List):
+    if len(labels) > 0 and isinstance(labels[0], List):
         assert isinstance(aux_labels[0],
                           list), 'aux_labels and labels do not match.'
         buf = []
-- 
2.43.0


From fa34ac2dae365a1f0fb473e622f016f0b3336917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:23 +0000
Subject: [PATCH 25/44] fix: levenshtein_alignment renamed aux_labels of the
 caller's hyps

---
 k2/python/k2/fsa_algo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index d2488d8..5157349 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -1443,6 +1443,8 @@ def levenshtein_alignment(
     assert hasattr(refs, "aux_labels")
     assert hasattr(hyps, "aux_labels")
 
+    # Work on a copy: the caller's `hyps` must keep its `aux_labels`.
+    hyps = hyps.clone()
     hyps.rename_tensor_attribute_("aux_labels", "hyp_labels")
 
     lattice = k2.intersect_device(refs,
-- 
2.43.0


From e6539ecf08ff7dc363f930875830a1253bbfe350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:12 +0000
Subject: [PATCH 26/44] fix: RnntDecodingStreams.format_output filled each
 attribute with the filler of the last one

---
 k2/python/k2/rnnt_decode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/rnnt_decode.py b/k2/python/k2/rnnt_decode.py
index 949d1db..5941c09 100644
--- a/k2/python/k2/rnnt_decode.py
+++ b/k2/python/k2/rnnt_decode.py
@@ -242,7 +242,7 @@ class RnntDecodingStreams(object):
                     if info["tensor_type"] == "Tensor":
                         assert isinstance(value, Tensor)
                         new_value = index_select(
-                            value, arc_map, default_value=filler
+                            value, arc_map, default_value=info["filler"]
                         )
                     else:
                         assert isinstance(value, RaggedTensor)
@@ -256,7 +256,7 @@ class RnntDecodingStreams(object):
                     if info["tensor_type"] == "Tensor":
                         # fill with filler value
                         new_value = torch.tensor(
-                            [filler] * num_arcs,
+                            [info["filler"]] * num_arcs,
                             dtype=info["dtype"],
                             device=device,
                         )
-- 
2.43.0


From 35eb49f121cc3fbf3c3a5b61baf573ac2e2f6ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 27/44] fix: Nbest.from_lattice scaled the caller's scores
 tensor in place

---
 k2/python/k2/nbest.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index d2e7814..41e5b44 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -127,8 +127,10 @@ class Nbest(object):
         Returns:
           Return an Nbest instance.
         """
-        saved_scores = lattice.scores.clone()
-        lattice.scores *= nbest_scale
+        # Note: not in-place, as the tensor may be shared with the caller and
+        # may be a leaf that requires grad.
+        saved_scores = lattice.scores
+        lattice.scores = saved_scores * nbest_scale
         # path is a ragged tensor with dtype torch.int32.
         # It has three axes [utt][path][arc_pos]
         path = k2.random_paths(
-- 
2.43.0


From 5199f7aca0bd2e314a102e90101d0c18bdb1f4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 28/44] fix: Nbest.top_k(k) failed if every utterance had less
 than k paths

---
 k2/python/k2/nbest.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 41e5b44..5771529 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -283,6 +283,12 @@ class Nbest(object):
         assert torch.ge(padded_indexes, 0).all(), \
                 'Some utterances contain empty ' \
                 f'n-best: {self.shape.row_splits(1)}'
+        if 0 < padded_indexes.shape[1] < k:
+            # Every utterance has less than k paths.
+            num_missing = k - padded_indexes.shape[1]
+            padded_indexes = torch.cat(
+                [padded_indexes, padded_indexes[:, -1:].expand(-1, num_missing)],
+                dim=1)
 
         # Select the idx01's of top-k paths of each utterance
         top_k_indexes = padded_indexes[:, :k].flatten().contiguous()
-- 
2.43.0


From 6ae7392d248fef41450389472660035ea32d1de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 29/44] fix: generate_nbest_list added an attribute to its
 input lattice

---
 k2/python/k2/nbest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 5771529..25bb649 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -394,7 +394,7 @@ def generate_nbest_list(lats: Fsa, num_paths: int) -> Nbest:
     assert hasattr(lats, 'phones')
 
     assert not hasattr(lats, 'tokens')
-    lats.tokens = lats.phones
+    tokens = lats.phones
     # we use tokens instead of phones in the following code
 
     # First, extract `num_paths` paths for each sequence.
@@ -405,7 +405,7 @@ def generate_nbest_list(lats: Fsa, num_paths: int) -> Nbest:
     # but it contains token IDs. Note that it also contains 0s and -1s.
     # The last entry in each sublist is -1.
     # Its axes are [seq][path][token_id]
-    token_seqs = k2.ragged.index(lats.tokens, paths)
+    token_seqs = k2.ragged.index(tokens, paths)
 
     # Remove epsilons (0s) and -1 from token_seqs
     token_seqs = token_seqs.remove_values_leq(0)
-- 
2.43.0


From b7f8e4692e47cdfef405c5c225b712ccc1d7da4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:09 +0000
Subject: [PATCH 30/44] fix: whole_lattice_rescoring changed scores and removed
 lm_scores of its input lattice

---
 k2/python/k2/nbest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 25bb649..644377d 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -327,6 +327,8 @@ def whole_lattice_rescoring(lats: Fsa, G_with_epsilon_loops: Fsa) -> Fsa:
             f'{G_with_epsilon_loops.shape}'
 
     device = lats.device
+    # Work on a copy: the caller's lattice keeps its scores and lm_scores.
+    lats = lats.clone()
     lats.scores = lats.scores - lats.lm_scores
     # Now lats contains only acoustic scores
 
-- 
2.43.0


From 8dd2bcaa27ae7f5857fafe21fc25733dc60ad783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 31/44] fix: Nbest.from_lattice changed the scores of a lattice
 whose scores share its arcs' memory

---
 k2/python/k2/nbest.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 644377d..72349d5 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -127,16 +127,17 @@ class Nbest(object):
         Returns:
           Return an Nbest instance.
         """
-        # Note: not in-place, as the tensor may be shared with the caller and
-        # may be a leaf that requires grad.
-        saved_scores = lattice.scores
-        lattice.scores = saved_scores * nbest_scale
+        # Note: scale a copy, as the scores (and the memory they share with the
+        # arcs) belong to the caller.
+        scaled_lattice = lattice.clone()
+        scaled_lattice.scores = lattice.scores.detach() * nbest_scale
         # path is a ragged tensor with dtype torch.int32.
         # It has three axes [utt][path][arc_pos]
         path = k2.random_paths(
-            lattice, num_paths=num_paths, use_double_scores=use_double_scores
+            scaled_lattice,
+            num_paths=num_paths,
+            use_double_scores=use_double_scores,
         )
-        lattice.scores = saved_scores
 
         # word_seq is a k2.RaggedTensor sharing the same shape as `path`
         # but it contains word IDs. Note that it also contains 0s and -1s.
-- 
2.43.0


From 68c8062eb03f3bf37992553a186d818f7d956ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 32/44] fix: Nbest.intersect always failed: dim0 of a shape is
 a property

---
 k2/python/k2/nbest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 72349d5..445cfbf 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -220,8 +220,8 @@ class Nbest(object):
         assert self.fsa.device == lats.device, \
                 f'{self.fsa.device} vs {lats.device}'
         assert len(lats.shape) == 3, f'{lats.shape}'
-        assert lats.arcs.dim0() == self.shape.dim0(), \
-                f'{lats.arcs.dim0()} vs {self.shape.dim0()}'
+        assert lats.arcs.dim0() == self.shape.dim0, \
+                f'{lats.arcs.dim0()} vs {self.shape.dim0}'
 
         lats = k2.arc_sort(lats)  # no-op if lats is already arc sorted
 
-- 
2.43.0


From 985eeecbb9935e7ee708587398b16255af04ec06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 33/44] fix: Nbest.intersect failed if epsilon arcs of the
 lattice make the intersection not top-sorted

---
 k2/python/k2/nbest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 445cfbf..b7d1632 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -233,6 +233,8 @@ class Nbest(object):
                                        b_fsas=fsas_with_epsilon_loops,
                                        b_to_a_map=path_to_seq_map,
                                        sorted_match_a=True)
+        # With epsilon arcs in lats, the intersection may be not top-sorted.
+        ans_lats = k2.top_sort(k2.connect(ans_lats))
 
         one_best = k2.shortest_path(ans_lats, use_double_scores=True)
 
-- 
2.43.0


From 1f82a0b460a77576cb66c67911859f92a0b74aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 34/44] fix: swoosh_l/swoosh_r of a 0-dim tensor (inference)
 returned a tensor of shape [1]

---
 k2/python/csrc/torch/v2/autograd/swoosh.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/csrc/torch/v2/autograd/swoosh.cu b/k2/python/csrc/torch/v2/autograd/swoosh.cu
index 02abcd9..8fafbec 100644
--- a/k2/python/csrc/torch/v2/autograd/swoosh.cu
+++ b/k2/python/csrc/torch/v2/autograd/swoosh.cu
@@ -154,7 +154,7 @@ class SwooshFunction
     x = x.to(torch::kFloat32);
 
     if (!requires_grad) {
-      torch::Tensor zero = torch::zeros({1}, x.options());
+      torch::Tensor zero = torch::zeros({}, x.options());
       return torch::logaddexp(zero, x - kShift) - kCoeff * x - kOffset;
     }
 
-- 
2.43.0


From f3fa6ab9be459bd2b5b5ed3555e1423ce606b86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:39 +0000
Subject: [PATCH 35/44] fix: backward of swoosh read out of range if the last
 dim has size 1 and another stride, and refused 0-dim tensors

---
 k2/python/csrc/torch/v2/autograd/swoosh.cu | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/k2/python/csrc/torch/v2/autograd/swoosh.cu b/k2/python/csrc/torch/v2/autograd/swoosh.cu
index 8fafbec..176dc4c 100644
--- a/k2/python/csrc/torch/v2/autograd/swoosh.cu
+++ b/k2/python/csrc/torch/v2/autograd/swoosh.cu
@@ -234,7 +234,6 @@ class SwooshFunction
     torch::Tensor out_grad = y_grad[0];
     out_grad = out_grad.contiguous();
 
-    int32_t stride = out_grad.stride(-1);
     const float *out_grad_data = out_grad.data_ptr<float>();
 
     auto context = GetContext(out_grad);
@@ -248,7 +247,7 @@ class SwooshFunction
     float coeff = kCoeff;
     K2_EVAL(
         context, g.numel(), lambda_compute_swoosh_backward, (int32_t i)->void {
-          float oi = out_grad_data[i * stride];
+          float oi = out_grad_data[i];
           float gi = g_data[i];  // cast uint8_t to float
           float ii = 1;
           float fi = 1;  // functional grad
-- 
2.43.0


From a5fb7b178a028dacf48eef33298b54e28fd5e5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:42 +0000
Subject: [PATCH 36/44] fix: Hash: Insert and Delete took an empty bucket for a
 key whose stored bits are all ones

---
 k2/csrc/hash.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/k2/csrc/hash.h b/k2/csrc/hash.h
index 5be08b5..1140e60 100644
--- a/k2/csrc/hash.h
+++ b/k2/csrc/hash.h
@@ -331,7 +331,7 @@ class Hash {
       uint64_t new_elem = (value << NUM_KEY_BITS) | key;
       while (1) {
         uint64_t cur_elem = data_[cur_bucket];
-        if ((cur_elem & KEY_MASK) == key) {
+        if (~cur_elem != 0 && (cur_elem & KEY_MASK) == key) {
           if (old_value) *old_value = (cur_elem >> NUM_KEY_BITS);
           if (key_value_location) *key_value_location = data_ + cur_bucket;
           return false;  // key exists in hash
@@ -476,7 +476,7 @@ class Hash {
           bucket_inc = 1 | ((key >> buckets_num_bitsm1_) ^ key);
       while (1) {
         uint64_t old_elem = data_[cur_bucket];
-        if ((old_elem & KEY_MASK) == key) {
+        if (~old_elem != 0 && (old_elem & KEY_MASK) == key) {
           data_[cur_bucket] = ~((uint64_t)0);
           return;
         } else {
@@ -552,7 +552,7 @@ class Hash {
       uint64_t new_elem =  (value << num_key_bits) | key;
       while (1) {
         uint64_t cur_elem = data_[cur_bucket];
-        if ((cur_elem & key_mask) == key) {
+        if (~cur_elem != 0 && (cur_elem & key_mask) == key) {
           if (old_value) *old_value = cur_elem >> num_key_bits;
           if (key_value_location) *key_value_location = data_ + cur_bucket;
           return false;  // key exists in hash
@@ -688,7 +688,7 @@ class Hash {
       const uint64_t key_mask = (uint64_t(1) << num_key_bits_) - 1;
       while (1) {
         uint64_t old_elem = data_[cur_bucket];
-        if ((old_elem & key_mask) == key) {
+        if (~old_elem != 0 && (old_elem & key_mask) == key) {
           data_[cur_bucket] = ~((uint64_t)0);
           return;
         } else {
@@ -786,7 +786,7 @@ class Hash {
       uint64_t new_elem = (value << num_kept_key_bits_) | kept_key;
       while (1) {
         uint64_t cur_elem = data_[cur_bucket];
-        if ((cur_elem & kept_key_mask) == kept_key) {
+        if (~cur_elem != 0 && (cur_elem & kept_key_mask) == kept_key) {
           if (old_value) *old_value = cur_elem >> num_kept_key_bits_;
           if (key_value_location) *key_value_location = data_ + cur_bucket;
           return false;  // key exists in hash
@@ -926,7 +926,7 @@ class Hash {
       const uint64_t kept_key_mask = (uint64_t(1) << num_kept_key_bits_) - 1;
       while (1) {
         uint64_t old_elem = data_[cur_bucket];
-        if ((old_elem & kept_key_mask) == kept_key) {
+        if (~old_elem != 0 && (old_elem & kept_key_mask) == kept_key) {
           data_[cur_bucket] = ~((uint64_t)0);
           return;
         } else {
-- 
2.43.0


From 691fe9a4b7eeb858890cbd4544bd0d820569bb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 37/44] fix: SymbolTable == raised KeyError if the other table
 lacks a symbol

---
 k2/python/k2/symbol_table.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index 7a86010..0ff86b0 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -260,14 +260,7 @@ class SymbolTable(Generic[Symbol]):
         return len(self._id2sym)
 
     def __eq__(self, other: 'SymbolTable') -> bool:
-        if len(self) != len(other):
-            return False
-
-        for s in self.symbols:
-            if self[s] != other[s]:
-                return False
-
-        return True
+        return self._sym2id == other._sym2id
 
     @property
     def ids(self) -> List[int]:
-- 
2.43.0


From 7345a159fb16ee8430c26d6e53d73137731ec9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 38/44] fix: SymbolTable gave the symbol of epsilon a second id
 if it is listed under an id other than 0

---
 k2/python/k2/symbol_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index 0ff86b0..a78a7f5 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -64,6 +64,8 @@ class SymbolTable(Generic[Symbol]):
             assert self._id2sym[idx] == sym
 
         if 0 not in self._id2sym:
+            assert self.eps not in self._sym2id, \
+                    f'{self.eps} must have id 0, given {self._sym2id[self.eps]}'
             self._id2sym[0] = self.eps
             self._sym2id[self.eps] = 0
         else:
-- 
2.43.0


From 51d1aaf5773c12dc914277898e700944d4215a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 39/44] fix: SymbolTable.to_file wrote in the locale's
 encoding, from_file reads UTF-8

---
 k2/python/k2/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index a78a7f5..fc4122c 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -160,7 +160,7 @@ class SymbolTable(Generic[Symbol]):
           filename:
             Name of the symbol table file. Its format is documented above.
         '''
-        with open(filename, 'w') as f:
+        with open(filename, 'w', encoding='utf-8') as f:
             for idx, symbol in sorted(self._id2sym.items()):
                 print(symbol, idx, file=f)
 
-- 
2.43.0


From dfeb05f1779c442fd25a9afede830d0e0a527765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:41 +0000
Subject: [PATCH 40/44] fix: SymbolTable.add accepted a negative id, which the
 table's own invariants refuse

---
 k2/python/k2/symbol_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index fc4122c..132fb8d 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -183,6 +183,9 @@ class SymbolTable(Generic[Symbol]):
         # Specific ID not provided - use next available.
         if index is None:
             index = self._next_available_id
+        if index < 0:
+            raise ValueError(f"Cannot assign id '{index}' to '{symbol}' - "
+                             "ids must not be negative")
         # Specific ID provided but not available.
         if index in self._id2sym:
             raise ValueError(f"Cannot assign id '{index}' to '{symbol}' - "
-- 
2.43.0


From 9c34636221552de1ed6a0a556be91f62d03a0da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:14 +0000
Subject: [PATCH 41/44] fix: ReplaceFsa read src arcs out of range for arcs of
 the index

---
 k2/csrc/fsa_algo.cu | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index b5cf471..4ee0867 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -2072,13 +2072,7 @@ FsaOrVec ReplaceFsa(FsaVec &src, FsaOrVec &index, int32_t symbol_range_begin,
         } else {
           int32_t src_state_idx0x = src_row_splits1_data[src_fsa_idx0],
                   src_state_idx0x_next = src_row_splits1_data[src_fsa_idx0 + 1],
-                  num_states = src_state_idx0x_next - src_state_idx0x,
-                  src_state_idx1 = idx3,
-                  src_state_idx01 = src_state_idx0x + src_state_idx1,
-                  src_arc_idx01x = src_row_splits2_data[src_state_idx01],
-                  src_arc_idx2 = idx4,
-                  src_arc_idx012 = src_arc_idx01x + src_arc_idx2;
-          src_arc = src_arcs_data[src_arc_idx012];
+                  num_states = src_state_idx0x_next - src_state_idx0x;
           // handle the arcs belongs to index
           if (idx2 == 0) {
             // if the fsa to be replaced in is empty, this arc would point to
@@ -2103,6 +2097,12 @@ FsaOrVec ReplaceFsa(FsaVec &src, FsaOrVec &index, int32_t symbol_range_begin,
             oarc.score = index_arc.score;
             arc_index_map_idx = index_arc_idx012;
           } else {   // handle the arcs belongs to src
+            int32_t src_state_idx1 = idx3,
+                    src_state_idx01 = src_state_idx0x + src_state_idx1,
+                    src_arc_idx01x = src_row_splits2_data[src_state_idx01],
+                    src_arc_idx2 = idx4,
+                    src_arc_idx012 = src_arc_idx01x + src_arc_idx2;
+            src_arc = src_arcs_data[src_arc_idx012];
             // the arc point to the final state of the fsa in src would point to
             // the dest state of the arc we're replaceing
             if (src_arc.label == -1) {
-- 
2.43.0


From 71cde17e43783dd14ae97607a47ffc59dfdaa40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:14 +0000
Subject: [PATCH 42/44] fix: RaggedShape::Check read row_splits out of range to
 report a bad row id

---
 k2/csrc/ragged.cu | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/ragged.cu b/k2/csrc/ragged.cu
index f76220d..14f3d36 100644
--- a/k2/csrc/ragged.cu
+++ b/k2/csrc/ragged.cu
@@ -380,8 +380,13 @@ void RaggedShape::Check() const {
           K2_EVAL(
               c, num_elems, lambda_check_row_ids, (int32_t i)->void {
                 int32_t this_row = row_ids_data[i];
-                if (this_row < 0 || this_row >= num_rows ||
-                    i < row_splits_data[this_row] ||
+                if (this_row < 0 || this_row >= num_rows) {
+                  // this_row cannot be used to index row_splits_data.
+                  K2_LOG(FATAL) << "Failed checking row_ids: row_ids[" << i
+                                << "]=" << this_row << ", num_rows="
+                                << num_rows << ", layer=" << layer;
+                }
+                if (i < row_splits_data[this_row] ||
                     i >= row_splits_data[this_row + 1]) {
                   K2_LOG(FATAL) << "Failed checking row_ids: row_ids[" << i
                                 << "]=" << this_row
-- 
2.43.0


From eda6ef8d65e43f3691772ee00bd8fe50f85bd577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:36 +0000
Subject: [PATCH 43/44] fix: slicing a ragged tensor with begin after end
 aborted instead of giving an empty tensor

---
 k2/python/csrc/torch/v2/any.cu | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index ba1d374..f922865 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -149,6 +149,9 @@ void PybindRaggedAny(py::module &m) {
         K2_CHECK_EQ(istep, 1)
             << "Only support slicing with step 1, given : " << istep;
 
+        // x[2:1] is an empty list in Python, so it is an empty tensor here
+        if (istop < istart) istop = istart;
+
         return self.Arange(/*axis*/ 0, istart, istop);
       },
       py::arg("key"), kRaggedAnyGetItemSliceDoc);
-- 
2.43.0


From a6153e74c2e2847f6b8efa19f3f79392f40033b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:49 +0000
Subject: [PATCH 44/44] fix: x[i] on a ragged tensor with two axes read
 row_splits out of range for a bad i

---
 k2/python/csrc/torch/v2/any.cu | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index f922865..1c4a7bb 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -121,6 +121,8 @@ void PybindRaggedAny(py::module &m) {
         } else {
           DeviceGuard guard(self.any.Context());
           K2_CHECK_EQ(self.any.NumAxes(), 2);
+          K2_CHECK_GE(i, 0);
+          K2_CHECK_LT(i, self.any.Dim0());
           Array1<int32_t> row_split = self.any.RowSplits(1).To(GetCpuContext());
           const int32_t *row_split_data = row_split.Data();
           int32_t begin = row_split_data[i], end = row_split_data[i + 1];
-- 
2.43.0

