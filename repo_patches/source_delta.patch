From fc2c16fc18ae91ca8d1f9a944de11bdc0a371866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:22 +0000
Subject: [PATCH 01/65] fix: accept one-element tensors with any stride in
 FromTorch

The scores of an automaton with exactly one arc are a one-element view with
stride 4; torch calls it contiguous, so index_select() passed it to FromTorch,
which rejected it. intersect(), compose(), etc. raised for such operands.
---
 k2/csrc/torch_util.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/k2/csrc/torch_util.h b/k2/csrc/torch_util.h
index 1e48f91..53331d0 100644
--- a/k2/csrc/torch_util.h
+++ b/k2/csrc/torch_util.h
@@ -121,7 +121,9 @@ Array1<T> FromTorch(torch::Tensor tensor) {
       << ". Given: " << tensor.scalar_type();
   // Some empty tensor may have stride not equal to 1, e.g., tensor returned by
   // clone() method, it is valid here, so we won't check its strieds.
-  if (tensor.numel())
+  // Likewise, the stride of a tensor with a single element does not matter
+  // (is_contiguous() returns true for it whatever its stride is).
+  if (tensor.numel() > 1)
     K2_CHECK_EQ(tensor.strides()[0], 1)
         << "Expected stride: 1. Given: " << tensor.strides()[0];
 
-- 
2.43.0


From 4dfe0398257c6ba91d271a2b4860cd6d957adfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:38 +0000
Subject: [PATCH 02/65] fix: index_select with an empty source and indexes of
 -1

Every entry of the result has to be the default value; an empty tensor was
returned instead, so intersecting an automaton without arcs (epsilon moves of
the other operand map to -1) failed on the score/arc count mismatch.
---
 k2/python/csrc/torch/index_select.cu | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/k2/python/csrc/torch/index_select.cu b/k2/python/csrc/torch/index_select.cu
index 069148f..cec0b77 100644
--- a/k2/python/csrc/torch/index_select.cu
+++ b/k2/python/csrc/torch/index_select.cu
@@ -76,9 +76,10 @@ static torch::Tensor IndexSelect1D(torch::Tensor src, torch::Tensor index,
   // If index_array.Dim() equals to zero, the `Index` below would produce an
   // ans with `ans.Data()` be a nullptr, which will cause crash when calling
   // `torch::from_blob`. Just return an empty tensor here.
-  // If src is an empty tensor, we should return an empty torch.
-  if (index_array.Dim() == 0 || src.numel() == 0)
-    return torch::empty({0}, src.options());
+  if (index_array.Dim() == 0) return torch::empty({0}, src.options());
+  // If src is an empty tensor, the entries of index can only be -1.
+  if (src.numel() == 0)
+    return torch::full({index_array.Dim()}, default_value, src.options());
   if (src.is_contiguous()) {
     Array1<T> src_array = FromTorch<T>(src);
     Array1<T> ans_array =
@@ -123,9 +124,9 @@ static torch::Tensor IndexSelect2D(torch::Tensor src, torch::Tensor index) {
   // If index_array.Dim() equals to zero, the `IndexRows` below would produce
   // an ans with `ans.Data()` be a nullptr, which will cause crash when calling
   // `torch::from_blob`. Just return an empty tensor here.
-  // If src is an empty tensor, we should return an empty torch.
+  // If src is an empty tensor, the entries of index can only be -1.
   if (index_array.Dim() == 0 || src.sizes()[0] == 0)
-    return torch::empty({0, src.sizes()[1]}, src.options());
+    return torch::zeros({index_array.Dim(), src.sizes()[1]}, src.options());
   bool allow_minus_one = true;
   Array2<T> ans_array = IndexRows(src_array, index_array, allow_minus_one);
 
-- 
2.43.0


From 3789e03b63b577938c827b311eb748355df26d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:15 +0000
Subject: [PATCH 03/65] fix: refuse arcs leaving the final state in
 FsaFromArray1

Arcs whose source state is the final state, or a state after it, were
accepted; in the latter case RowIdsToRowSplits wrote past the end of
row_splits before the validity check (segmentation fault).
---
 k2/csrc/fsa.cu | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/k2/csrc/fsa.cu b/k2/csrc/fsa.cu
index f55b908..c39c150 100644
--- a/k2/csrc/fsa.cu
+++ b/k2/csrc/fsa.cu
@@ -318,6 +318,14 @@ Fsa FsaFromArray1(Array1<Arc> &arcs, bool *error, int32_t final_state) {
     *error = true;
     return Fsa();
   }
+  if (num_arcs > 0 && row_ids1.Back() >= final_state) {
+    K2_LOG(WARNING) << "Could not convert tensor to FSA, there are arcs "
+                       "leaving the final state or a state after it, "
+                       "final_state="
+                    << final_state;
+    *error = true;
+    return Fsa();
+  }
   Array1<int32_t> row_splits1(c, final_state + 2);
   RowIdsToRowSplits(c, num_arcs, row_ids1_data, false, final_state + 1,
                     row_splits1.Data());
-- 
2.43.0


From b568422115b34365c3b744a785964ab0533b340c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 04/65] fix: arcs leaving the final state make an automaton
 invalid

The format has no arcs leaving the final state (fsa.h, host/properties.cc);
the property flags reported such automata as valid.
---
 k2/csrc/fsa.cu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/k2/csrc/fsa.cu b/k2/csrc/fsa.cu
index c39c150..856c081 100644
--- a/k2/csrc/fsa.cu
+++ b/k2/csrc/fsa.cu
@@ -109,7 +109,8 @@ void GetFsaVecBasicProperties(FsaVec &fsa_vec, Array1<int32_t> *properties_out,
         int32_t this_fsa_num_states = idx0x_next - idx0x;
 
         int32_t neg_property = 0;
-        if (arc.src_state != idx1) neg_property |= kFsaPropertiesValid;
+        if (arc.src_state != idx1 || idx1 == this_fsa_num_states - 1)
+          neg_property |= kFsaPropertiesValid;
         if (arc.dest_state <= arc.src_state) {
           neg_property |= kFsaPropertiesTopSortedAndAcyclic;
           if (arc.dest_state < arc.src_state)
-- 
2.43.0


From 33806eeb93046f3da82d92be633583fb56434eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 05/65] fix: Union with elements that have no arcs

The arc from the new start state to the start state of an element was
written while visiting the first arc of that element, and stayed
uninitialized for elements without arcs.
---
 k2/csrc/fsa_algo.cu | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index b644e23..c062ae1 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -1308,7 +1308,6 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
 
   ContextPtr &context = fsas.Context();
   const int32_t *fsas_row_splits1_data = fsas.RowSplits(1).Data();
-  const int32_t *fsas_row_splits2_data = fsas.RowSplits(2).Data();
   const int32_t *fsas_row_ids1_data = fsas.RowIds(1).Data();
   const int32_t *fsas_row_ids2_data = fsas.RowIds(2).Data();
   const Arc *arcs_data = fsas.values.Data();
@@ -1349,8 +1348,6 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
         int32_t this_fsa_final_state_idx1 =
             this_fsa_final_state_idx01 - fsas_state_idx0x;
 
-        int32_t fsas_arc_idx0xx = fsas_row_splits2_data[fsas_state_idx0x];
-
         // fsa0: +1 (a new start state)
         // fsa1: +0 (the final state of fsa0 is removed)
         // fsa2: -1 (the final state of fsa1 is removed)
@@ -1372,17 +1369,15 @@ Fsa Union(FsaVec &fsas, Array1<int32_t> *arc_map /*= nullptr*/) {
         arc.src_state = out_state_idx0;
         out_arcs_data[out_arc_idx01] = arc;
         tmp_arc_map_data[out_arc_idx01] = fsas_arc_idx012;
+      });
 
-        if (fsas_arc_idx0xx == fsas_arc_idx012) {
-          // add a new arc from the new start state to the start state
-          // of this fsa
-          //
-          // WARNING: we cannot use fsas_state_idx01 here
-          // since the start state may have no leaving arcs!
-          Arc arc(0, fsas_state_idx0x + state_offset, 0, 0);
-          out_arcs_data[fsas_idx0] = arc;
-          out_row_ids_data[fsas_idx0] = 0;
-        }
+  K2_EVAL(
+      context, num_fsas, lambda_set_start_arcs, (int32_t fsas_idx0) {
+        // add a new arc from the new start state to the start state
+        // of this fsa; note that the fsa may have no arcs.
+        Arc arc(0, fsas_row_splits1_data[fsas_idx0] + 1 - fsas_idx0, 0, 0);
+        out_arcs_data[fsas_idx0] = arc;
+        out_row_ids_data[fsas_idx0] = 0;
       });
 
   if (arc_map != nullptr) *arc_map = std::move(tmp_arc_map);
-- 
2.43.0


From b3fd71ca990d10f14931a7fb5df0a36ab82f4d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:03 +0000
Subject: [PATCH 06/65] fix: Closure of an automaton without arcs

The arc that accepts the empty string was only written while visiting
an existing arc, and stayed uninitialized when there were none.
---
 k2/csrc/fsa_algo.cu | 34 +++++++++++-----------------------
 1 file changed, 11 insertions(+), 23 deletions(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index c062ae1..0639d54 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -1402,7 +1402,6 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
   }
 
   const int32_t *fsa_row_splits_data = fsa.RowSplits(1).Data();
-  const int32_t *fsa_row_ids_data = fsa.RowIds(1).Data();
   const Arc *fsa_arcs_data = fsa.values.Data();
   int32_t fsa_final_state = num_states - 1;
 
@@ -1422,12 +1421,6 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
 
   K2_EVAL(
       c, fsa.values.Dim(), lambda_set_arcs, (int32_t fsa_arc_idx01) {
-        int32_t fsa_state_idx0 = fsa_row_ids_data[fsa_arc_idx01];
-        int32_t fsa_arc_idx0x = fsa_row_splits_data[fsa_state_idx0];
-        int32_t fsa_arc_idx1 = fsa_arc_idx01 - fsa_arc_idx0x;
-        int32_t this_state_num_arcs =
-            fsa_row_splits_data[fsa_state_idx0 + 1] - fsa_arc_idx0x;
-
         Arc arc = fsa_arcs_data[fsa_arc_idx01];
         if (arc.dest_state == fsa_final_state) {
           // modify arcs entering the final state such that:
@@ -1445,22 +1438,6 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
           out_arc_idx01 = fsa_arc_idx01 + 1;
         } else {
           out_arc_idx01 = fsa_arc_idx01;
-          if (fsa_arc_idx1 == this_state_num_arcs - 1) {
-            // This is the last arc of the original start state,
-            // so we add a new arc just after it.
-            Arc new_arc(0, fsa_final_state, -1, 0.0f);
-            out_arcs_data[out_arc_idx01 + 1] = new_arc;
-            out_row_ids_data[out_arc_idx01 + 1] = 0;
-            tmp_arc_map_data[out_arc_idx01 + 1] = -1;
-          }
-        }
-
-        // it may happen that the start state has no leaving arcs
-        if (fsa_row_splits_data[1] == 0) {
-          Arc new_arc(0, fsa_final_state, -1, 0.0f);
-          out_arcs_data[0] = new_arc;
-          out_row_ids_data[0] = 0;
-          tmp_arc_map_data[0] = -1;
         }
 
         tmp_arc_map_data[out_arc_idx01] = fsa_arc_idx01;
@@ -1469,6 +1446,17 @@ Fsa Closure(Fsa &fsa, Array1<int32_t> *arc_map /* = nullptr*/) {
         out_row_ids_data[out_arc_idx01] = arc.src_state;
       });
 
+  K2_EVAL(
+      c, 1, lambda_set_new_arc, (int32_t i) {
+        // The new arc comes just after the arcs of the original start state
+        // (there may be none).
+        int32_t out_arc_idx01 = fsa_row_splits_data[1];
+        Arc new_arc(0, fsa_final_state, -1, 0.0f);
+        out_arcs_data[out_arc_idx01] = new_arc;
+        out_row_ids_data[out_arc_idx01] = 0;
+        tmp_arc_map_data[out_arc_idx01] = -1;
+      });
+
   if (arc_map != nullptr) *arc_map = std::move(tmp_arc_map);
 
   Array1<int32_t> out_row_splits(c, num_out_states + 1);
-- 
2.43.0


From eb9c4b69b951fac91bd331ffc313cd956cc59954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:48 +0000
Subject: [PATCH 07/65] fix: closure kept the aux label -1 on a former final
 arc

The arc just after those of the start state was not shifted, so the aux
label of the wrong output arc was cleared.
---
 k2/python/k2/fsa_algo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 35d9ca0..6c44013 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -858,7 +858,7 @@ def closure(fsa: Fsa) -> Fsa:
         minus_one_index = torch.nonzero(src_aux_labels == -1, as_tuple=False)
         src_start_state_last_arc_index = src_row_splits1[1]
 
-        minus_one_index[minus_one_index > src_start_state_last_arc_index] += 1
+        minus_one_index[minus_one_index >= src_start_state_last_arc_index] += 1
 
         # now minus one index contains arc indexes into the output FSA
         ans_aux_labels = index_select(src_aux_labels, arc_map)
-- 
2.43.0


From 025d7ace9e62098145079b3073e3eac434ea42df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:15 +0000
Subject: [PATCH 08/65] fix: closure of automata with attribute fillers or
 ragged attributes

The arc that closure adds got 0 instead of the filler of an attribute,
and ragged attributes raised an error.
---
 k2/python/k2/fsa_algo.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 6c44013..e5b81f2 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -871,10 +871,19 @@ def closure(fsa: Fsa) -> Fsa:
 
     out_fsa = Fsa(ragged_arc)
     for name, value in fsa.named_tensor_attr():
-        if name == 'aux_labels':
+        if isinstance(value, k2.RaggedTensor):
+            if name == 'aux_labels':
+                # arcs entering the final state become epsilon arcs
+                value = value.remove_values_eq(-1)
+            new_value, _ = value.index(arc_map,
+                                       axis=0,
+                                       need_value_indexes=False)
+        elif name == 'aux_labels':
             new_value = fix_aux_labels(value, fsa.arcs.row_splits(1), arc_map)
         else:
-            new_value = index_select(value, arc_map)
+            new_value = index_select(value,
+                                     arc_map,
+                                     default_value=float(fsa.get_filler(name)))
         setattr(out_fsa, name, new_value)
 
     for name, value in fsa.named_non_tensor_attr():
-- 
2.43.0


From 09a5af8b1808c64224a8056e36e942e7d939925b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:42 +0000
Subject: [PATCH 09/65] fix: connect returned automata with useless cycles
 unchanged

The accessible/co-accessible flags only say that there are no obvious
signs of useless states; they imply connectedness only in the absence
of cycles.
---
 k2/python/k2/fsa_algo.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index e5b81f2..7ef2a44 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -519,8 +519,11 @@ def connect(fsa: Fsa) -> Fsa:
     Returns:
       An FSA that is connected.
     '''
-    if fsa.properties & fsa_properties.ACCESSIBLE != 0 and \
-            fsa.properties & fsa_properties.COACCESSIBLE != 0:
+    # Without cycles (other than self-loops) these properties mean that the FSA
+    # is connected; otherwise there may be useless states on cycles.
+    connected = fsa_properties.ACCESSIBLE | fsa_properties.COACCESSIBLE | \
+        fsa_properties.TOPSORTED
+    if fsa.properties & connected == connected:
         return fsa
 
     need_arc_map = True
-- 
2.43.0


From de26c121e604fb19570def1a2b530e7ecbcfc38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:35 +0000
Subject: [PATCH 10/65] fix: expand_ragged_attributes when aux_labels stay
 ragged

---
 k2/python/k2/fsa_algo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 7ef2a44..517c684 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -1110,7 +1110,7 @@ def expand_ragged_attributes(fsas: Fsa,
     k2.autograd_utils.phantom_index_select_scores(dest, fsas.scores, arc_map)
 
     # Make sure -1's are only on final-arcs, and never on non-final arcs.
-    if hasattr(dest, 'aux_labels'):
+    if isinstance(getattr(dest, 'aux_labels', None), torch.Tensor):
         _k2.fix_final_labels(dest.arcs, dest.aux_labels)
 
     if ret_arc_map:
-- 
2.43.0


From 7b21e5846129a8b64b863a9b21d24f906a697e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:53 +0000
Subject: [PATCH 11/65] fix: epsilon removal gave NaN scores to arcs of
 unreachable states

The pruning test of the host version lets every arc through when the beam is
infinite, also those leaving a state whose forward weight is -inf.
---
 k2/csrc/host/rmepsilon_pruned.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/k2/csrc/host/rmepsilon_pruned.cc b/k2/csrc/host/rmepsilon_pruned.cc
index e7db5e2..ef18b77 100644
--- a/k2/csrc/host/rmepsilon_pruned.cc
+++ b/k2/csrc/host/rmepsilon_pruned.cc
@@ -5,6 +5,7 @@
  */
 
 #include <algorithm>
+#include <limits>
 #include <map>
 #include <memory>
 #include <queue>
@@ -208,6 +209,12 @@ void EpsilonsRemoverPruned<TracebackState>::GetSizes(
   for (int32_t i = 0; i != num_states_in; ++i) {
     if (non_eps_in[i] != 1) continue;
     arc_indexes_.push_back(arc_num_out);
+    // A state that cannot be reached has no forward weight; with an infinite
+    // beam the pruning test below would not drop its arcs, and their weights
+    // would be -inf - (-inf).
+    if (forward_state_weights[i] ==
+        -std::numeric_limits<double>::infinity())
+      continue;
     int32_t curr_state_out = state_map[i];
 
     // as the input FSA is top-sorted, we use a set here so we can process
-- 
2.43.0


From e6f52ef4349b41926de90094b188de03c5ef9401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:53 +0000
Subject: [PATCH 12/65] fix: determinization of a batch indexed past its output
 arc map

The arc map of each element lives in derivs_vector; arc_derivs points to the
single result.
---
 k2/csrc/fsa_algo.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index 0639d54..09f59de 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -329,7 +329,7 @@ void Determinize(FsaOrVec &src,
                  arc_derivs != nullptr ? &(derivs_vector[i]) : nullptr);
       if (arc_derivs != nullptr) {
         // convert arc indexes in arc_derivs from idx2 to idx012
-        Array1<int32_t> &values = arc_derivs[i].values;
+        Array1<int32_t> &values = derivs_vector[i].values;
         values = Plus(values, tot_num_arcs);
         tot_num_arcs += srcs[i].NumElements();
       }
-- 
2.43.0


From 39abddeac37f6214acef669ac2df3e0bee64770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:46 +0000
Subject: [PATCH 13/65] fix: attribute propagation with remove_filler=False
 refused int32 attributes

fsa_from_unary_function_ragged sent them to the branch for float attributes,
which asserts a float dtype.
---
 k2/python/k2/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/k2/python/k2/utils.py b/k2/python/k2/utils.py
index 6def312..61eaaa2 100644
--- a/k2/python/k2/utils.py
+++ b/k2/python/k2/utils.py
@@ -497,15 +497,14 @@ def fsa_from_unary_function_ragged(src: Fsa,
     dest = Fsa(dest_arcs)
 
     for name, value in src.named_tensor_attr(include_scores=False):
-        if remove_filler and isinstance(value, torch.Tensor) and \
-           value.dtype == torch.int32:
+        if isinstance(value, torch.Tensor) and value.dtype == torch.int32:
             filler = src.get_filler(name)
             # when removing fillers for `aux_labels`, we need to treat -1 as a
             # filler where it is on a final-arc (i.e. turn it into the actual
             # filler, so it will be later removed by remove_values_eq).  We
             # assume that `dest` has been checked for validity, so the presence
             # of -1 as the label precisely indicates final-arcs.
-            if filler != -1:
+            if remove_filler and filler != -1:
                 value = value.clone()
                 if hasattr(torch, 'logical_and'):
                     # torch.logical_and requires torch>=1.5.0
@@ -518,7 +517,9 @@ def fsa_from_unary_function_ragged(src: Fsa,
             # Since value.dtype is torch.int32, the resulting attr
             # is a ragged tensor also with dtype torch.int32
             new_value = k2.ragged.index(value, arc_map, default_value=filler)
-            setattr(dest, name, new_value.remove_values_eq(filler))
+            if remove_filler:
+                new_value = new_value.remove_values_eq(filler)
+            setattr(dest, name, new_value)
         else:
             # at this point, value can be either
             # (1) a torch.tensor with dtype other than torch.int32
-- 
2.43.0


From 53ee83909f4055192524ed8f678a5d1fb757c9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:28 +0000
Subject: [PATCH 14/65] fix: an empty Arange of a ragged array could refer to
 values that do not exist

The value range was given as (begin, end) although these index the axis, so
ragged[k:k] failed when there were fewer than k values.
---
 k2/csrc/ragged_ops.cu | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/k2/csrc/ragged_ops.cu b/k2/csrc/ragged_ops.cu
index 490c423..467bc04 100644
--- a/k2/csrc/ragged_ops.cu
+++ b/k2/csrc/ragged_ops.cu
@@ -1861,9 +1861,9 @@ RaggedShape Arange(RaggedShape &src, int32_t axis, int32_t begin, int32_t end,
 
   if (begin == end) {
     RaggedShape ans = EmptyRaggedShape(src.Context(), num_axes - axis);
-    // as begin == end, user always get empty values when doing
-    // `src.values.Arange(begin, end)`
-    if (value_range != nullptr) *value_range = std::make_pair(begin, end);
+    // An empty range of values; note `begin` is not an index into the values
+    // and may exceed their number.
+    if (value_range != nullptr) *value_range = std::make_pair(0, 0);
     return ans;
   }
 
-- 
2.43.0


From 8656e196098e86f9a36637009187643c6cab2ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:28 +0000
Subject: [PATCH 15/65] fix: closure of an automaton without states failed if
 it had aux_labels

---
 k2/python/k2/fsa_algo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 517c684..416d60b 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -858,6 +858,9 @@ def closure(fsa: Fsa) -> Fsa:
         Returns:
           The aux_labels of the output fsa after converting -1 to 0.
         '''
+        if arc_map.numel() == 0:
+            # the closure of an automaton without states is itself
+            return src_aux_labels
         minus_one_index = torch.nonzero(src_aux_labels == -1, as_tuple=False)
         src_start_state_last_arc_index = src_row_splits1[1]
 
-- 
2.43.0


From f4427b4b29bd726523aed46fa69f15362d1e724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:56 +0000
Subject: [PATCH 16/65] fix: Fsa.__getitem__ returns an Fsa that does not share
 its arcs with the FsaVec

---
 k2/python/k2/fsa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/fsa.py b/k2/python/k2/fsa.py
index 965ed5c..24c4a0c 100644
--- a/k2/python/k2/fsa.py
+++ b/k2/python/k2/fsa.py
@@ -1028,7 +1028,10 @@ class Fsa(object):
         ragged_arc, start = self.arcs.index(0, i)
         end = start + ragged_arc.values().shape[0]
 
-        out_fsa = Fsa(ragged_arc)
+        # `ragged_arc` shares its memory with self.arcs; without the clone,
+        # assigning to the labels or scores of the returned Fsa would modify
+        # `self.arcs` behind the back of `self`.
+        out_fsa = Fsa(ragged_arc.clone())
         for name, value in self.named_tensor_attr(include_scores=False):
             if isinstance(value, torch.Tensor):
                 setattr(out_fsa, name, value[start:end])
-- 
2.43.0


From 8bce02afbef635dabdb209269b5f601b52af1e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 17/65] fix: assigning an attribute of the other kind (tensor /
 non-tensor) replaces the old one

---
 k2/python/k2/fsa.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/k2/python/k2/fsa.py b/k2/python/k2/fsa.py
index 24c4a0c..ca87ab4 100644
--- a/k2/python/k2/fsa.py
+++ b/k2/python/k2/fsa.py
@@ -413,6 +413,8 @@ class Fsa(object):
                 return
 
             self._tensor_attr[name] = value
+            # An attribute is either a tensor or a non-tensor one, never both
+            self._non_tensor_attr.pop(name, None)
 
             if name == 'scores':
                 assert value.dtype == torch.float32
@@ -426,7 +428,10 @@ class Fsa(object):
             # See https://github.com/k2-fsa/k2/issues/1120
             assert value.device == self.device, (value.device, self.device)
             self._tensor_attr[name] = value
+            self._non_tensor_attr.pop(name, None)
         else:
+            assert name not in ('labels', 'scores')
+            self._tensor_attr.pop(name, None)
             self._non_tensor_attr[name] = value
 
     @property
-- 
2.43.0


From e36ea25932e259c7efe7bfea7007c8f53aff15df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:42 +0000
Subject: [PATCH 18/65] fix: dense intersection: treat labels beyond the
 neural-net output as -inf, do not read past the row

---
 k2/csrc/intersect_dense.cu | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/k2/csrc/intersect_dense.cu b/k2/csrc/intersect_dense.cu
index fbb53ca..dac8498 100644
--- a/k2/csrc/intersect_dense.cu
+++ b/k2/csrc/intersect_dense.cu
@@ -402,6 +402,7 @@ class MultiGraphDenseIntersect {
                 *states_old2new_data = renumber_states.Old2New().Data();
     CompressedArc *carcs_data = carcs_.Data();
     int32_t scores_stride = b_fsas_.scores.ElemStride0();
+    int32_t scores_num_cols = b_fsas_.scores.Dim1();
     const float *scores_data = b_fsas_.scores.Data();
 
     auto lambda_set_keep = [=] __host__ __device__(
@@ -423,6 +424,9 @@ class MultiGraphDenseIntersect {
           CompressedArc carc = carcs_data[a_fsas_arc_idx012];
           K2_CHECK_EQ(a_fsas_state_idx1, (int32_t)carc.src_state);
           int32_t a_fsas_dest_state_idx1 = carc.dest_state;
+          // Labels that do not exist in the neural-net output have a score of
+          // negative infinity, see DoStep().
+          if (carc.label_plus_one >= scores_num_cols) return false;
           int32_t scores_index = fsa_info.scores_offset +
                                  (scores_stride * t_idx1) + carc.label_plus_one;
           float arc_score = carc.score + scores_data[scores_index];
@@ -819,7 +823,7 @@ class MultiGraphDenseIntersect {
           // graph (a_fsas) does not exist in the neural-net output (b_fsas).
           float b_score_forward;
           float b_score_backward;
-          if (carc.label_plus_one <= scores_num_cols) {
+          if (carc.label_plus_one < scores_num_cols) {
             b_score_forward = scores_data[fsa_info.scores_offset +
                                           (scores_stride * (t - 1)) +
                                           carc.label_plus_one];
-- 
2.43.0


From 49973a91cfd06b2a5b766e49dd4acec126deb926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 19/65] fix: online dense intersection: a stream with no active
 states stays dead and keeps its frame alignment and start state

---
 k2/csrc/intersect_dense_pruned.cu | 51 ++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 8 deletions(-)

diff --git a/k2/csrc/intersect_dense_pruned.cu b/k2/csrc/intersect_dense_pruned.cu
index 9ace992..19e7d83 100644
--- a/k2/csrc/intersect_dense_pruned.cu
+++ b/k2/csrc/intersect_dense_pruned.cu
@@ -1439,9 +1439,24 @@ class MultiGraphDenseIntersectPruned {
         // it more complex to avoid invalid FSAs (e.g. with an end-state but no
         // start-state, or in which we incorrectly interpret a non-start state as
         // the start state).
-        if (i == 0)  // t == begin_t
+        if (i == 0) {  // t == begin_t
           this_states_keep = (char)1;  // set all elements of the array
-        // `states_keep` to 1.
+                                       // `states_keep` to 1.
+        } else if (online_decoding_) {
+          // Likewise for the start-states of the sequences whose first frame is
+          // not begin_t because they are shorter than others (frame t - 1 is
+          // empty for them).
+          const int32_t *row_ids1_data = cur_frame->states.RowIds(1).Data(),
+            *prev_row_splits1_data = frames_[t-1]->states.RowSplits(1).Data();
+          char *this_states_keep_data = this_states_keep.Data();
+          K2_EVAL(
+              c_, this_states_keep.Dim(), lambda_keep_start_state,
+              (int32_t state_idx01) -> void {
+                int32_t seq = row_ids1_data[state_idx01];
+                if (prev_row_splits1_data[seq] == prev_row_splits1_data[seq + 1])
+                  this_states_keep_data[state_idx01] = 1;
+              });
+        }
       }
     }
 
@@ -1800,12 +1815,32 @@ void OnlineDenseIntersecter::Decode(DenseFsaVec &b_fsas,
   auto stack_states = Stack(0, num_seqs, seq_states_ptr_vec.data());
   auto stack_arcs = Stack(0, num_seqs, seq_arcs_ptr_vec.data());
 
-  // Remove empty lists on frame axis, these empty lists come from the
-  // Unstack of the previous chunk
-  stack_states = Ragged<StateInfo>(RemoveEmptyLists(stack_states.shape, 1),
-                                   stack_states.values);
-  stack_arcs = Ragged<ArcInfo>(RemoveEmptyLists(stack_arcs.shape, 1),
-                               stack_arcs.values);
+  // Remove the leading empty lists on the frame axis, these empty lists were
+  // added on the left (see below) to align this sequence with the longer ones
+  // it was decoded with in previous chunks. Any empty lists after the first
+  // frame (i.e. the start state) have to be kept: they mean that no states of
+  // the sequence were active any more.
+  {
+    RaggedShape &shape = stack_states.shape;
+    int32_t num_lists = shape.TotSize(1);
+    Renumbering renumbering(c_, num_lists);
+    char *keep_data = renumbering.Keep().Data();
+    const int32_t *row_splits1_data = shape.RowSplits(1).Data(),
+                  *row_ids1_data = shape.RowIds(1).Data(),
+                  *row_splits2_data = shape.RowSplits(2).Data();
+    K2_EVAL(
+        c_, num_lists, lambda_keep_list, (int32_t idx01)->void {
+          int32_t idx0x = row_splits1_data[row_ids1_data[idx01]];
+          keep_data[idx01] =
+              (row_splits2_data[idx01 + 1] > row_splits2_data[idx0x]);
+        });
+    stack_states = Ragged<StateInfo>(
+        RemoveSomeEmptyLists(stack_states.shape, 1, renumbering),
+        stack_states.values);
+    stack_arcs =
+        Ragged<ArcInfo>(RemoveSomeEmptyLists(stack_arcs.shape, 1, renumbering),
+                        stack_arcs.values);
+  }
 
   std::vector<Ragged<StateInfo>> frame_states_vec;
   std::vector<Ragged<ArcInfo>> frame_arcs_vec;
-- 
2.43.0


From b7a36ca875b7b21a7711f604fd7ebdfc6ae45631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:03 +0000
Subject: [PATCH 20/65] fix: RnntDecodingStreams.format_output uses the filler
 of each attribute, not that of the last one

---
 k2/python/k2/rnnt_decode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/rnnt_decode.py b/k2/python/k2/rnnt_decode.py
index 949d1db..5941c09 100644
--- a/k2/python/k2/rnnt_decode.py
+++ b/k2/python/k2/rnnt_decode.py
@@ -242,7 +242,7 @@ class RnntDecodingStreams(object):
                     if info["tensor_type"] == "Tensor":
                         assert isinstance(value, Tensor)
                         new_value = index_select(
-                            value, arc_map, default_value=filler
+                            value, arc_map, default_value=info["filler"]
                         )
                     else:
                         assert isinstance(value, RaggedTensor)
@@ -256,7 +256,7 @@ class RnntDecodingStreams(object):
                     if info["tensor_type"] == "Tensor":
                         # fill with filler value
                         new_value = torch.tensor(
-                            [filler] * num_arcs,
+                            [info["filler"]] * num_arcs,
                             dtype=info["dtype"],
                             device=device,
                         )
-- 
2.43.0


From 8328a7d885899895d5218459cdfda93b4d41581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 21/65] fix: levenshtein_alignment renamed an attribute of the
 caller's hyps

---
 k2/python/k2/fsa_algo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index 416d60b..f462815 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -1450,6 +1450,8 @@ def levenshtein_alignment(
     assert hasattr(refs, "aux_labels")
     assert hasattr(hyps, "aux_labels")
 
+    # Rename the attribute on a copy: `hyps` belongs to the caller.
+    hyps = hyps.clone()
     hyps.rename_tensor_attribute_("aux_labels", "hyp_labels")
 
     lattice = k2.intersect_device(refs,
-- 
2.43.0


From 6e0062a126c6b978e7e78f2e8b063490aa15c386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:14 +0000
Subject: [PATCH 22/65] fix: joint_mutual_information_recursion gave NaN for
 sequences without a path

---
 k2/python/k2/mutual_information.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/k2/python/k2/mutual_information.py b/k2/python/k2/mutual_information.py
index 4959032..a6e87c4 100644
--- a/k2/python/k2/mutual_information.py
+++ b/k2/python/k2/mutual_information.py
@@ -395,7 +395,8 @@ def joint_mutual_information_recursion(
     # this is a kind of "fake gradient" that we use, in effect to compute
     # occupation probabilities.  The backprop will work regardless of the
     # actual derivative w.r.t. the total probs.
-    ans_grad = torch.ones(B, device=px_tot.device, dtype=px_tot.dtype)
+    # Sequences without any path have no occupation probabilities.
+    ans_grad = (tot_probs != -float("inf")).to(px_tot.dtype)
 
     (px_grad,
      py_grad) = _k2.mutual_information_backward(px_tot, py_tot, boundary, p,
-- 
2.43.0


From 5780da987829265b32341bb96267feba1e31f88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:01 +0000
Subject: [PATCH 23/65] fix: rnnt_loss_smoothed gave NaN when the two scales
 sum to one

---
 k2/python/k2/rnnt_loss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/rnnt_loss.py b/k2/python/k2/rnnt_loss.py
index 9a80c5f..ed205d5 100644
--- a/k2/python/k2/rnnt_loss.py
+++ b/k2/python/k2/rnnt_loss.py
@@ -1684,6 +1684,8 @@ def get_rnnt_logprobs_smoothed(
         lm_only_scale = 1.0e-20
     if am_only_scale == 0.0:
         am_only_scale = 1.0e-20
+    if combined_scale == 0.0:
+        combined_scale = 1.0e-20
 
     px_interp = (
         px * combined_scale
-- 
2.43.0


From 92be7d4dee4a674e0a51f25722237d30b5647f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 24/65] fix: RaggedTensor[i] with two axes read out of bounds
 for an invalid i

---
 k2/python/csrc/torch/v2/any.cu | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index 5367478..b0b7b2b 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -100,6 +100,8 @@ void PybindRaggedAny(py::module &m) {
         } else {
           DeviceGuard guard(self.any.Context());
           K2_CHECK_EQ(self.any.NumAxes(), 2);
+          K2_CHECK_GE(i, 0);
+          K2_CHECK_LT(i, self.any.Dim0());
           Array1<int32_t> row_split = self.any.RowSplits(1).To(GetCpuContext());
           const int32_t *row_split_data = row_split.Data();
           int32_t begin = row_split_data[i], end = row_split_data[i + 1];
-- 
2.43.0


From e5732f0dd816a73d1e0517f7a5981c2cdc7e4010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 25/65] fix: an empty slice of a RaggedTensor with start > stop
 raised

---
 k2/python/csrc/torch/v2/any.cu | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index b0b7b2b..de6d900 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -129,6 +129,8 @@ void PybindRaggedAny(py::module &m) {
         int32_t istep = static_cast<int32_t>(step);
         K2_CHECK_EQ(istep, 1)
             << "Only support slicing with step 1, given : " << istep;
+        // as for a list, the result is empty if start > stop
+        if (istop < istart) istop = istart;
 
         return self.Arange(/*axis*/ 0, istart, istop);
       },
-- 
2.43.0


From 8144430d4cfa6f51c03f823b44e646de735fc42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:51 +0000
Subject: [PATCH 26/65] fix: Cat of an array of ragged arrays did not set the
 merge map

---
 k2/csrc/ragged_ops_inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/ragged_ops_inl.h b/k2/csrc/ragged_ops_inl.h
index 685954d..a6481cc 100644
--- a/k2/csrc/ragged_ops_inl.h
+++ b/k2/csrc/ragged_ops_inl.h
@@ -280,7 +280,7 @@ Ragged<T> Cat(int32_t axis, int32_t num_srcs, Ragged<T> *src,
   K2_CHECK_GT(num_srcs, 0);
   std::vector<Ragged<T> *> temp(num_srcs);
   for (int32_t i = 0; i != num_srcs; ++i) temp[i] = src + i;
-  return Cat(axis, num_srcs, temp.data());
+  return Cat(axis, num_srcs, temp.data(), merge_map);
 }
 
 template <typename T>
-- 
2.43.0


From 0b3167144a3497ff1dc8d2d55353fe1d63590efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 27/65] fix: Unstack of a RaggedShape on its last axis changed
 the source shape

---
 k2/csrc/ragged_ops.cu | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/ragged_ops.cu b/k2/csrc/ragged_ops.cu
index 467bc04..153c3d7 100644
--- a/k2/csrc/ragged_ops.cu
+++ b/k2/csrc/ragged_ops.cu
@@ -1379,14 +1379,16 @@ void Unstack(RaggedShape &src, int32_t axis, bool pad_right,
     // layer after axis `axis` if axis equals to `src.NumAxes() - 1`.
     // Of course, we have to remove the added layer finally.
     bool remove_last_axis = false;
+    // Note: this is a shallow copy; `src` itself must stay as it is.
+    RaggedShape src_extended = src;
     if (axis == src.NumAxes() - 1) {
-      src = ComposeRaggedShapes(src,
+      src_extended = ComposeRaggedShapes(src,
          RegularRaggedShape(c, src.NumElements(), 1));
       remove_last_axis = true;
     }
 
     RaggedShape top, bottom;
-    DecomposeRaggedShape(src, axis, &top, &bottom);
+    DecomposeRaggedShape(src_extended, axis, &top, &bottom);
 
     // Unstack will remove current axis (the last axis of top after decomposing
     // on axis), to make `RemoveAxis` work, we add a TrivialShape layer before
-- 
2.43.0


From 53692ded6d7492f897e269cfbbe03c7ecad6ef54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 28/65] fix: RaggedTensor.to(dtype) took a positional dtype for
 a device

---
 k2/python/csrc/torch/v2/any.cu | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index de6d900..6a37e8b 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -181,6 +181,12 @@ void PybindRaggedAny(py::module &m) {
       },
       py::arg("src"), py::arg("indexes"), kRaggedAnyIndexAndSumDoc);
 
+  // Note: this one must come first since the next one accepts any object.
+  any.def("to",
+          static_cast<RaggedAny (RaggedAny::*)(torch::ScalarType) const>(
+              &RaggedAny::To),
+          py::arg("dtype"), kRaggedAnyToDtypeDoc);
+
   any.def(
       "to",
       [](RaggedAny &self, py::object device) -> RaggedAny {
@@ -194,11 +200,6 @@ void PybindRaggedAny(py::module &m) {
               &RaggedAny::To),
           py::arg("device"), kRaggedAnyToDeviceStrDoc);
 
-  any.def("to",
-          static_cast<RaggedAny (RaggedAny::*)(torch::ScalarType) const>(
-              &RaggedAny::To),
-          py::arg("dtype"), kRaggedAnyToDtypeDoc);
-
   any.def(
       "clone",
       [](const RaggedAny &self) -> RaggedAny {
-- 
2.43.0


From 90aa44b4c2b45abb5921b692ccd239f6749e372c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 29/65] fix: RaggedTensor of a list whose first sublists are
 empty was refused

---
 k2/python/csrc/torch/v2/ragged_any.cu | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/k2/python/csrc/torch/v2/ragged_any.cu b/k2/python/csrc/torch/v2/ragged_any.cu
index df685e4..fb0eb4c 100644
--- a/k2/python/csrc/torch/v2/ragged_any.cu
+++ b/k2/python/csrc/torch/v2/ragged_any.cu
@@ -113,8 +113,10 @@ static void RaggedAnyFromListIter(py::list data, int32_t *cur_level,
     }
   } else {
     if (*deepest_level == -1) {
-      *deepest_level = *cur_level;
-    } else if (data.size() > 0 && *deepest_level != *cur_level) {
+      // An empty sublist does not tell at which level the values are
+      if (data.size() > 0) *deepest_level = *cur_level;
+    } else if ((data.size() > 0 && *deepest_level != *cur_level) ||
+               *cur_level > *deepest_level) {
       // Handle the case for [ [2], [[1]] ]
       //
       // Note: [ [], [[1]] ] is valid
-- 
2.43.0


From 8b8149e4aea4d8110d137de7b63660ace0c72da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 30/65] fix: RaggedTensor[t] with a tensor t of one index gave
 the row itself

---
 k2/python/csrc/torch/v2/any.cu | 82 +++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 40 deletions(-)

diff --git a/k2/python/csrc/torch/v2/any.cu b/k2/python/csrc/torch/v2/any.cu
index 6a37e8b..e800b5c 100644
--- a/k2/python/csrc/torch/v2/any.cu
+++ b/k2/python/csrc/torch/v2/any.cu
@@ -91,32 +91,53 @@ void PybindRaggedAny(py::module &m) {
       [](const RaggedAny &self) -> std::string { return self.ToString(); },
       kRaggedAnyStrDoc);
 
+  auto get_item = [](RaggedAny &self, int32_t i) -> py::object {
+    if (self.any.NumAxes() > 2) {
+      RaggedAny ragged = self.Index(/*axis*/ 0, i);
+      return py::cast(ragged);
+    } else {
+      DeviceGuard guard(self.any.Context());
+      K2_CHECK_EQ(self.any.NumAxes(), 2);
+      K2_CHECK_GE(i, 0);
+      K2_CHECK_LT(i, self.any.Dim0());
+      Array1<int32_t> row_split = self.any.RowSplits(1).To(GetCpuContext());
+      const int32_t *row_split_data = row_split.Data();
+      int32_t begin = row_split_data[i], end = row_split_data[i + 1];
+      Dtype t = self.any.GetDtype();
+      FOR_REAL_AND_INT32_TYPES(t, T, {
+        Array1<T> array =
+            self.any.Specialize<T>().values.Arange(begin, end);
+        torch::Tensor tensor = ToTorch(array);
+        return py::cast(tensor);
+      });
+    }
+    // Unreachable code
+    return py::none();
+  };
+
+  // Note: this one must come first: a tensor with a single element can also be
+  // converted to an int32_t.
   any.def(
       "__getitem__",
-      [](RaggedAny &self, int32_t i) -> py::object {
-        if (self.any.NumAxes() > 2) {
-          RaggedAny ragged = self.Index(/*axis*/ 0, i);
-          return py::cast(ragged);
-        } else {
-          DeviceGuard guard(self.any.Context());
-          K2_CHECK_EQ(self.any.NumAxes(), 2);
-          K2_CHECK_GE(i, 0);
-          K2_CHECK_LT(i, self.any.Dim0());
-          Array1<int32_t> row_split = self.any.RowSplits(1).To(GetCpuContext());
-          const int32_t *row_split_data = row_split.Data();
-          int32_t begin = row_split_data[i], end = row_split_data[i + 1];
-          Dtype t = self.any.GetDtype();
-          FOR_REAL_AND_INT32_TYPES(t, T, {
-            Array1<T> array =
-                self.any.Specialize<T>().values.Arange(begin, end);
-            torch::Tensor tensor = ToTorch(array);
-            return py::cast(tensor);
-          });
-        }
+      [get_item](RaggedAny &self, torch::Tensor key) -> py::object {
+        // key is a 1-d torch tensor with dtype torch.int32
+        if (key.dim() == 0) return get_item(self, key.item<int32_t>());
+        DeviceGuard guard(self.any.Context());
+        Array1<int32_t> indexes = FromTorch<int32_t>(key);
+        Dtype t = self.any.GetDtype();
+        FOR_REAL_AND_INT32_TYPES(t, T, {
+          Ragged<T> ans =
+              k2::Index<T>(self.any.Specialize<T>(), /*axis*/ 0, indexes,
+                           /*value_indexes*/ nullptr);
+
+          return py::cast(RaggedAny(ans.Generic()));
+        });
         // Unreachable code
         return py::none();
       },
-      py::arg("i"), kRaggedAnyGetItemDoc);
+      py::arg("key"), kRaggedAnyGetItem1DTensorDoc);
+
+  any.def("__getitem__", get_item, py::arg("i"), kRaggedAnyGetItemDoc);
 
   any.def(
       "__getitem__",
@@ -136,25 +157,6 @@ void PybindRaggedAny(py::module &m) {
       },
       py::arg("key"), kRaggedAnyGetItemSliceDoc);
 
-  any.def(
-      "__getitem__",
-      [](RaggedAny &self, torch::Tensor key) -> RaggedAny {
-        // key is a 1-d torch tensor with dtype torch.int32
-        DeviceGuard guard(self.any.Context());
-        Array1<int32_t> indexes = FromTorch<int32_t>(key);
-        Dtype t = self.any.GetDtype();
-        FOR_REAL_AND_INT32_TYPES(t, T, {
-          Ragged<T> ans =
-              k2::Index<T>(self.any.Specialize<T>(), /*axis*/ 0, indexes,
-                           /*value_indexes*/ nullptr);
-
-          return RaggedAny(ans.Generic());
-        });
-        // Unreachable code
-        return {};
-      },
-      py::arg("key"), kRaggedAnyGetItem1DTensorDoc);
-
   any.def("index",
           static_cast<RaggedAny (RaggedAny::*)(RaggedAny &)>(&RaggedAny::Index),
           py::arg("indexes"), kRaggedAnyRaggedIndexDoc);
-- 
2.43.0


From b15b300b68847b5b318992145deb2d0215cf8889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:07 +0000
Subject: [PATCH 31/65] fix: gradient of RaggedTensor.normalize with a strided
 upstream gradient raised

---
 k2/python/csrc/torch/v2/autograd/normalize.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/csrc/torch/v2/autograd/normalize.h b/k2/python/csrc/torch/v2/autograd/normalize.h
index db890a1..32ced1a 100644
--- a/k2/python/csrc/torch/v2/autograd/normalize.h
+++ b/k2/python/csrc/torch/v2/autograd/normalize.h
@@ -90,6 +90,8 @@ class NormalizeFunction : public torch::autograd::Function<NormalizeFunction> {
     torch::Tensor out_data_tensor = saved[2];
 
     torch::Tensor out_grad = grad_outputs[0];
+    // Only a stride of 0 or 1 is handled below
+    if (out_grad.stride(0) > 1) out_grad = out_grad.contiguous();
     ContextPtr context = GetContext(out_grad);
 
     RaggedShape shape = RaggedShape2(&row_splits, &row_ids, row_ids.Dim());
-- 
2.43.0


From 01ef49da27e2de55cb71251c5b8611aaea574f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:32 +0000
Subject: [PATCH 32/65] fix: PruneRagged kept empty sub-lists of lists with
 nothing else

---
 k2/csrc/ragged_ops_inl.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/k2/csrc/ragged_ops_inl.h b/k2/csrc/ragged_ops_inl.h
index a6481cc..c4d7fc3 100644
--- a/k2/csrc/ragged_ops_inl.h
+++ b/k2/csrc/ragged_ops_inl.h
@@ -903,7 +903,9 @@ Renumbering PruneRaggedAxis1(Ragged<T> &src, T beam,
           *best_scores_data = best_scores.Data(),
           *src_data = src.values.Data();
   const int32_t *row_ids1_data = src.RowIds(1).Data(),
-                *row_splits1_data = src.RowSplits(1).Data();
+                *row_splits1_data = src.RowSplits(1).Data(),
+                *row_splits2_data = src.RowSplits(2).Data();
+  // Note: empty sub-lists are always pruned, even if there is nothing else.
   // prune_with_max_elems means we have sorted the sub-max ragged tensor
   if (prune_with_max_elems) {
     K2_EVAL(c, total_elements, lambda_set_keep_sorted, (int32_t idx01) {
@@ -916,14 +918,18 @@ Renumbering PruneRaggedAxis1(Ragged<T> &src, T beam,
                 idx1 = idx01 - idx0x;
         bool pruned_by_max_elems = idx1 >= max_elems,
              pruned_by_beam =
-                 sub_max_data[original_idx01] < best_scores_data[idx0] - beam;
+                 sub_max_data[original_idx01] < best_scores_data[idx0] - beam,
+             empty = row_splits2_data[original_idx01] ==
+                     row_splits2_data[original_idx01 + 1];
         keep_data[original_idx01] =
-            !(pruned_by_max_elems || pruned_by_beam);
+            !(pruned_by_max_elems || pruned_by_beam || empty);
     });
   } else {
     K2_EVAL(c, total_elements, lambda_set_keep, (int32_t idx01) {
         int32_t idx0 = row_ids1_data[idx01];
-        keep_data[idx01] = sub_max_data[idx01] >= best_scores_data[idx0] - beam;
+        bool empty = row_splits2_data[idx01] == row_splits2_data[idx01 + 1];
+        keep_data[idx01] =
+            sub_max_data[idx01] >= best_scores_data[idx0] - beam && !empty;
     });
   }
   return renumbering;
-- 
2.43.0


From 8139a09313d08dbc8c491aae2c08f62bea79d257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 33/65] fix: SymbolTable equality with a table that lacks a
 symbol

---
 k2/python/k2/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index 7a86010..91ba31e 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -264,7 +264,7 @@ class SymbolTable(Generic[Symbol]):
             return False
 
         for s in self.symbols:
-            if self[s] != other[s]:
+            if s not in other or self[s] != other[s]:
                 return False
 
         return True
-- 
2.43.0


From 2fdbfc9667d9a3156e2eec4457428f031cdf51b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 34/65] fix: SymbolTable.add refuses negative ids

---
 k2/python/k2/symbol_table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index 91ba31e..d0d8b9f 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -182,6 +182,9 @@ class SymbolTable(Generic[Symbol]):
         if index is None:
             index = self._next_available_id
         # Specific ID provided but not available.
+        if index < 0:
+            raise ValueError(f"Cannot assign id '{index}' to '{symbol}' - "
+                             f"IDs must be non-negative")
         if index in self._id2sym:
             raise ValueError(f"Cannot assign id '{index}' to '{symbol}' - "
                              f"already occupied by {self._id2sym[index]}")
-- 
2.43.0


From 4193ff52e3f3438aba7bd948b867054f3f0bd8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 35/65] fix: SymbolTable keeps its maps inverse when eps has
 another id

---
 k2/python/k2/symbol_table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index d0d8b9f..da4d95b 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -64,6 +64,7 @@ class SymbolTable(Generic[Symbol]):
             assert self._id2sym[idx] == sym
 
         if 0 not in self._id2sym:
+            assert self.eps not in self._sym2id
             self._id2sym[0] = self.eps
             self._sym2id[self.eps] = 0
         else:
-- 
2.43.0


From 703bfb99ea4a90ed46d745a9981b9e8c09561955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 36/65] fix: SymbolTable text is separated by spaces and tabs
 only

---
 k2/python/k2/symbol_table.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index da4d95b..de817a0 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -14,6 +14,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import re
+
 from dataclasses import dataclass
 from dataclasses import field
 from typing import Dict
@@ -91,7 +93,7 @@ class SymbolTable(Generic[Symbol]):
         sym2id: Dict[str, int] = dict()
 
         for line in s.split('\n'):
-            fields = line.split()
+            fields = re.findall(r'[^ \t\r]+', line)
             if len(fields) == 0:
                 continue  # skip empty lines
             assert len(fields) == 2, \
@@ -129,7 +131,7 @@ class SymbolTable(Generic[Symbol]):
 
         '''
         with open(filename, 'r', encoding='utf-8') as f:
-            return SymbolTable.from_str(f.read().strip())
+            return SymbolTable.from_str(f.read())
 
     def to_str(self) -> str:
         '''
-- 
2.43.0


From 1d199b142ae820287eeac6ce9c40e89e53ab64f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:41 +0000
Subject: [PATCH 37/65] fix: SymbolTable.to_file writes utf-8, as from_file
 reads

---
 k2/python/k2/symbol_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index de817a0..14bdcf7 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -161,7 +161,7 @@ class SymbolTable(Generic[Symbol]):
           filename:
             Name of the symbol table file. Its format is documented above.
         '''
-        with open(filename, 'w') as f:
+        with open(filename, 'w', encoding='utf-8') as f:
             for idx, symbol in sorted(self._id2sym.items()):
                 print(symbol, idx, file=f)
 
-- 
2.43.0


From a09d020a1c5df80938f9d8ea8a1a7bc572301a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 38/65] fix: k2 text format accepts arcs without a score

---
 k2/csrc/fsa_utils.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index 9eb6231..d6791c5 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -139,7 +139,7 @@ static Fsa K2FsaFromStream(std::istringstream &is,
       ragged_row_splits[i].push_back(ragged_labels[i].size());
     }
     float score = 0.0;
-    line_is >> std::ws;
+    if (!line_is.eof()) line_is >> std::ws;
     if (!line_is.eof()) {  // Score is optional, defaults to 0.0.
       line_is >> score;
       if (!line_is.eof()) line_is >> std::ws;
-- 
2.43.0


From f06784c9a4096da721fbae1b186078139b54ed3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 39/65] fix: k2 text format accepts ragged labels as
 FsaToString writes them

---
 k2/csrc/fsa_utils.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index d6791c5..d8cab1f 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -132,7 +132,7 @@ static Fsa K2FsaFromStream(std::istringstream &is,
       line_is >> c >> std::ws;  // eat the '['
       while (line_is.peek() != ']' && line_is.good()) {
         int32_t ragged_label;
-        line_is >> ragged_label;
+        line_is >> ragged_label >> std::ws;
         ragged_labels[i].push_back(ragged_label);
       }
       line_is >> c;  // eat the ']'
-- 
2.43.0


From 0a6b37a1b23bce2d8dee67fa89814bca09b0dc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 40/65] fix: OpenFst text format accepts acceptor arcs without
 a cost

---
 k2/csrc/fsa_utils.cu | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index d8cab1f..33e7082 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -266,7 +266,7 @@ class OpenFstStreamReader {
     std::istringstream line_is(line);
     int32_t src_state, dest_state, label;
     line_is >> src_state >> dest_state >> label;
-    if (!line_is.good()) {
+    if (line_is.fail()) {
       // Our only hope of parsing othis is that `line` was empty, or a
       // final-state; try that.
       if (!ProcessFinalProbOrEmpty(line)) {
-- 
2.43.0


From a198a66d369c85e8f063980223f466010b1b8248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 41/65] fix: OpenFst text without final states is a valid
 automaton

---
 k2/csrc/fsa_utils.cu | 1 +
 1 file changed, 1 insertion(+)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index 33e7082..a98f96d 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -455,6 +455,7 @@ class OpenFstStreamReader {
     for (std::size_t i = 0; i != original_final_states_.size(); ++i)
       AddArc({original_final_states_[i], super_final_state, -1,
               original_final_weights_[i] }, aux_labels, ragged_labels);
+    SeenState(super_final_state);
   }
   void FixStartState() {
     if (start_state_ <= 0)
-- 
2.43.0


From 7a4e021c29042c19e5dc5bd68544fa50f2b0d664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 42/65] fix: text formats refuse integer fields with something
 glued to them

---
 k2/csrc/fsa_utils.cu | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index a98f96d..0078eb5 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -23,6 +23,7 @@
 #endif
 
 #include <algorithm>
+#include <cctype>
 #include <cmath>
 #include <limits>
 #include <sstream>
@@ -40,6 +41,12 @@ namespace k2 {
 
 
 
+// Sets failbit if the field just read with operator>> does not end here, e.g.
+// if an integer was read from "1.5".
+static void ExpectEndOfField(std::istream &is) {
+  if (is.good() && !std::isspace(is.peek())) is.setstate(std::ios::failbit);
+}
+
 /* Create an Fsa from a stream, assuming the Fsa is in k2 format:
 
    src_state dest_state label [aux_label1 aux_label2 ... ] [ragged_labels1 ragged_label2 ] [score]    # noqa
@@ -97,6 +104,7 @@ static Fsa K2FsaFromStream(std::istringstream &is,
     }
     int32_t src_state;
     line_is >> src_state;
+    ExpectEndOfField(line_is);
     if (!line_is.eof()) line_is >> std::ws;
     if (line_is.eof()) {
       if (line_is.fail() || src_state < 0) {
@@ -108,7 +116,10 @@ static Fsa K2FsaFromStream(std::istringstream &is,
       continue;
     }
     int32_t dest_state, label;
-    line_is >> dest_state >> label;
+    line_is >> dest_state;
+    ExpectEndOfField(line_is);
+    line_is >> label;
+    ExpectEndOfField(line_is);
     if (src_state < 0 || dest_state < 0) {
       K2_LOG(FATAL) << "Invalid line " << line
                     << ": src-state < 0 or dest-state < 0.";
@@ -116,6 +127,7 @@ static Fsa K2FsaFromStream(std::istringstream &is,
     for (int32_t i = 0; i < num_aux_labels; i++) {
       double aux;
       line_is >> aux;
+      ExpectEndOfField(line_is);
       if ((int32_t)aux != aux) {
         K2_LOG(FATAL) << "Invalid line " << line
                       << ": Expected an integer for aux_labels";
@@ -265,7 +277,12 @@ class OpenFstStreamReader {
   void ProcessLine(std::string &line) {
     std::istringstream line_is(line);
     int32_t src_state, dest_state, label;
-    line_is >> src_state >> dest_state >> label;
+    line_is >> src_state;
+    ExpectEndOfField(line_is);
+    line_is >> dest_state;
+    ExpectEndOfField(line_is);
+    line_is >> label;
+    ExpectEndOfField(line_is);
     if (line_is.fail()) {
       // Our only hope of parsing othis is that `line` was empty, or a
       // final-state; try that.
@@ -275,8 +292,10 @@ class OpenFstStreamReader {
       return;
     }
     std::vector<int32_t> aux_labels(num_aux_labels_);
-    for (int32_t i = 0; i < num_aux_labels_; i++)
+    for (int32_t i = 0; i < num_aux_labels_; i++) {
       line_is >> aux_labels[i];
+      ExpectEndOfField(line_is);
+    }
     std::vector<std::vector<int32_t> > ragged_labels(num_ragged_labels_);
     for (int32_t i = 0; i < num_ragged_labels_; i++) {
       line_is >> std::ws;
@@ -314,7 +333,10 @@ class OpenFstStreamReader {
       return true;  // empty line.
     int32_t final_state;
     float final_cost;
-    line_is >> final_state >> std::ws;
+    line_is >> final_state;
+    ExpectEndOfField(line_is);
+    if (line_is.fail()) return false;
+    if (!line_is.eof()) line_is >> std::ws;
     if (line_is.eof()) {
       final_cost = 0.0;
     } else if (line_is.peek() == 'I') {
-- 
2.43.0


From 2146e89a06384db41d4f50e7543496ea69d3ba87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:02 +0000
Subject: [PATCH 43/65] fix: FsaFromTensor refused the tensors of automata
 without final arcs

---
 k2/csrc/fsa.cu | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/k2/csrc/fsa.cu b/k2/csrc/fsa.cu
index 856c081..6d4e179 100644
--- a/k2/csrc/fsa.cu
+++ b/k2/csrc/fsa.cu
@@ -293,6 +293,19 @@ Fsa FsaFromArray1(Array1<Arc> &arcs, bool *error, int32_t final_state) {
   }
 
   if (final_state_in_arcs <= 0) {  // Cannot get valid final_state from arcs.
+    if (final_state_in_arcs == -1 && final_state == -1) {
+      // No final arcs: the final state follows all states that have arcs.
+      Array1<int32_t> max_states(c, num_arcs);
+      int32_t *max_states_data = max_states.Data();
+      K2_EVAL(
+          c, num_arcs, lambda_get_max_state, (int32_t i)->void {
+            int32_t src_state = arcs_data[i].src_state,
+                    dest_state = arcs_data[i].dest_state;
+            max_states_data[i] =
+                src_state > dest_state ? src_state : dest_state;
+          });
+      final_state = MaxValue(max_states) + 1;
+    }
     if (final_state <= 0) {  // Cannot get valid final_state from input also.
       K2_LOG(WARNING) << "Could not convert tensor to FSA, there was a problem "
                          "working out the final-state in the FSA. No arcs "
@@ -382,6 +395,8 @@ Fsa FsaFromTensor(Tensor &t, bool *error) {
   K2_CHECK_EQ(sizeof(Arc), sizeof(int32_t) * 4);
 
   Array1<Arc> arc_array(t.Dim(0), t.GetRegion(), t.ByteOffset());
+  if (arc_array.Dim() == 0)  // the empty Fsa, with no states
+    return Fsa(EmptyRaggedShape(t.Context(), 2), arc_array);
   return FsaFromArray1(arc_array, error);
 }
 
-- 
2.43.0


From 1d8d671f96350de5fd430a968e65407c8dbcd23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 44/65] fix: OpenFst text ignored what followed an infinite
 final cost

---
 k2/csrc/fsa_utils.cu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/k2/csrc/fsa_utils.cu b/k2/csrc/fsa_utils.cu
index 0078eb5..d37272f 100644
--- a/k2/csrc/fsa_utils.cu
+++ b/k2/csrc/fsa_utils.cu
@@ -342,7 +342,8 @@ class OpenFstStreamReader {
     } else if (line_is.peek() == 'I') {
       std::string str;
       line_is >> str;
-      if (str != "Inf" && str != "inf") {
+      if (!line_is.eof()) line_is >> std::ws;
+      if ((str != "Inf" && str != "inf") || !line_is.eof()) {
         return false;
       }
       final_cost = std::numeric_limits<float>::infinity();
-- 
2.43.0


From 24668988695cb1b8420bf4215eb71913387dfdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 45/65] fix: wake up every thread that waits for the tasks of a
 ThreadPool

---
 k2/csrc/thread_pool.cu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/thread_pool.cu b/k2/csrc/thread_pool.cu
index cb04ea1..8206fae 100644
--- a/k2/csrc/thread_pool.cu
+++ b/k2/csrc/thread_pool.cu
@@ -77,8 +77,8 @@ void ThreadPool::ProcessTasks() {
     --running_counter_;
     if (tasks_.empty() && running_counter_ == 0) {
       finished_ = true;
-      // if WaitAllTasksFinished() is waiting, wake it up
-      empty_cond_.notify_one();
+      // wake up every thread that is waiting in WaitAllTasksFinished()
+      empty_cond_.notify_all();
     }
 
     // the lock is still held here as we assume
-- 
2.43.0


From f8cf1a47cefeda4ee300496ae13371fab1587d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 46/65] fix: Hash64 Insert tells the stored value when another
 thread is inserting the key

---
 k2/csrc/hash.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/hash.h b/k2/csrc/hash.h
index 5be08b5..2af487f 100644
--- a/k2/csrc/hash.h
+++ b/k2/csrc/hash.h
@@ -1127,7 +1127,11 @@ class Hash64 {
         uint64_t cur_key = data_[2 * cur_bucket];
         uint64_t cur_value = data_[2 * cur_bucket + 1];
         if (cur_key == key) {
-          if (old_value) *old_value = cur_value;
+          if (old_value) {
+            // wait for the thread that inserted the key to set the value
+            while (~cur_value == 0) cur_value = data_[2 * cur_bucket + 1];
+            *old_value = cur_value;
+          }
           if (key_value_location) *key_value_location = data_ + 2 * cur_bucket;
           return false;  // key exists in hash
         } else if (~cur_key == 0) {
@@ -1142,7 +1146,11 @@ class Hash64 {
             return true;  // Successfully inserted.
           }
           if (old_key == key) {
-            if (old_value) *old_value = cur_value;
+            if (old_value) {
+              // `cur_value` was read before the other thread inserted the key
+              while (~cur_value == 0) cur_value = data_[2 * cur_bucket + 1];
+              *old_value = cur_value;
+            }
             if (key_value_location)
               *key_value_location = data_ + 2 * cur_bucket;
             return false;  // Another thread inserted this key
-- 
2.43.0


From 0bdc59b969032e8c25546d28d37df85c64401dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:14 +0000
Subject: [PATCH 47/65] fix: do not mistake an empty hash bucket for one that
 holds a key with all (kept) bits set

---
 k2/csrc/hash.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/k2/csrc/hash.h b/k2/csrc/hash.h
index 2af487f..dcb264e 100644
--- a/k2/csrc/hash.h
+++ b/k2/csrc/hash.h
@@ -331,7 +331,7 @@ class Hash {
       uint64_t new_elem = (value << NUM_KEY_BITS) | key;
       while (1) {
         uint64_t cur_elem = data_[cur_bucket];
-        if ((cur_elem & KEY_MASK) == key) {
+        if (~cur_elem != 0 && (cur_elem & KEY_MASK) == key) {
           if (old_value) *old_value = (cur_elem >> NUM_KEY_BITS);
           if (key_value_location) *key_value_location = data_ + cur_bucket;
           return false;  // key exists in hash
@@ -476,7 +476,7 @@ class Hash {
           bucket_inc = 1 | ((key >> buckets_num_bitsm1_) ^ key);
       while (1) {
         uint64_t old_elem = data_[cur_bucket];
-        if ((old_elem & KEY_MASK) == key) {
+        if (~old_elem != 0 && (old_elem & KEY_MASK) == key) {
           data_[cur_bucket] = ~((uint64_t)0);
           return;
         } else {
@@ -552,7 +552,7 @@ class Hash {
       uint64_t new_elem =  (value << num_key_bits) | key;
       while (1) {
         uint64_t cur_elem = data_[cur_bucket];
-        if ((cur_elem & key_mask) == key) {
+        if (~cur_elem != 0 && (cur_elem & key_mask) == key) {
           if (old_value) *old_value = cur_elem >> num_key_bits;
           if (key_value_location) *key_value_location = data_ + cur_bucket;
           return false;  // key exists in hash
@@ -688,7 +688,7 @@ class Hash {
       const uint64_t key_mask = (uint64_t(1) << num_key_bits_) - 1;
       while (1) {
         uint64_t old_elem = data_[cur_bucket];
-        if ((old_elem & key_mask) == key) {
+        if (~old_elem != 0 && (old_elem & key_mask) == key) {
           data_[cur_bucket] = ~((uint64_t)0);
           return;
         } else {
@@ -786,7 +786,7 @@ class Hash {
       uint64_t new_elem = (value << num_kept_key_bits_) | kept_key;
       while (1) {
         uint64_t cur_elem = data_[cur_bucket];
-        if ((cur_elem & kept_key_mask) == kept_key) {
+        if (~cur_elem != 0 && (cur_elem & kept_key_mask) == kept_key) {
           if (old_value) *old_value = cur_elem >> num_kept_key_bits_;
           if (key_value_location) *key_value_location = data_ + cur_bucket;
           return false;  // key exists in hash
@@ -926,7 +926,7 @@ class Hash {
       const uint64_t kept_key_mask = (uint64_t(1) << num_kept_key_bits_) - 1;
       while (1) {
         uint64_t old_elem = data_[cur_bucket];
-        if ((old_elem & kept_key_mask) == kept_key) {
+        if (~old_elem != 0 && (old_elem & kept_key_mask) == kept_key) {
           data_[cur_bucket] = ~((uint64_t)0);
           return;
         } else {
-- 
2.43.0


From bf9738ace89d725be114784030f70a743fede3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 48/65] fix: GetBestMatchingStats takes the scores of keys only

---
 k2/csrc/nbest.cu | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/k2/csrc/nbest.cu b/k2/csrc/nbest.cu
index 30244f2..04e22a9 100644
--- a/k2/csrc/nbest.cu
+++ b/k2/csrc/nbest.cu
@@ -495,9 +495,11 @@ void GetBestMatchingStatsInternal(Ragged<int32_t> &tokens,
     // in the positions of eos and terminator.
     int32_t rindex = seq_len - 2 - suffix_array_data[i] - 1;
     reorder_counts_data[i] = rindex < 0 ? 0 : counts_data[rindex];
-    reorder_scores_data[i] = rindex < 0 ? 0 : scores_data[rindex];
-    reorder_scores_squre_data[i] = rindex < 0 ? 0 :
-                                   scores_data[rindex] * scores_data[rindex];
+    // only the keys (i.e. the positions with nonzero counts) contribute to the
+    // stats, the scores of the queries must be ignored.
+    float score = reorder_counts_data[i] == 0 ? 0 : scores_data[rindex];
+    reorder_scores_data[i] = score;
+    reorder_scores_squre_data[i] = score * score;
   }
   ExclusiveSum(reorder_counts, &reorder_counts);
   ExclusiveSum(reorder_scores, &reorder_scores);
-- 
2.43.0


From 8cf2b8dcb4ff101d144a34363e85b12efdf35353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 49/65] fix: GetBestMatchingStats accumulates its sums in
 double

---
 k2/csrc/nbest.cu | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/k2/csrc/nbest.cu b/k2/csrc/nbest.cu
index 04e22a9..2506fb5 100644
--- a/k2/csrc/nbest.cu
+++ b/k2/csrc/nbest.cu
@@ -480,11 +480,12 @@ void GetBestMatchingStatsInternal(Ragged<int32_t> &tokens,
 
   // we need extra one position for `ExclusiveSum`
   Array1<T> reorder_counts(c, seq_len + 1);
-  Array1<float> reorder_scores(c, seq_len + 1);
+  // Use double here, the stats are differences of the sums over all positions.
+  Array1<double> reorder_scores(c, seq_len + 1);
   Array1<double> reorder_scores_squre(c, seq_len + 1);
   T *reorder_counts_data = reorder_counts.Data();
-  float *reorder_scores_data = reorder_scores.Data();
-  double *reorder_scores_squre_data = reorder_scores_squre.Data();
+  double *reorder_scores_data = reorder_scores.Data(),
+         *reorder_scores_squre_data = reorder_scores_squre.Data();
 
   const int32_t *counts_data = counts.Data();
   const float *scores_data = scores.Data();
@@ -497,7 +498,7 @@ void GetBestMatchingStatsInternal(Ragged<int32_t> &tokens,
     reorder_counts_data[i] = rindex < 0 ? 0 : counts_data[rindex];
     // only the keys (i.e. the positions with nonzero counts) contribute to the
     // stats, the scores of the queries must be ignored.
-    float score = reorder_counts_data[i] == 0 ? 0 : scores_data[rindex];
+    double score = reorder_counts_data[i] == 0 ? 0 : scores_data[rindex];
     reorder_scores_data[i] = score;
     reorder_scores_squre_data[i] = score * score;
   }
@@ -563,8 +564,8 @@ void GetBestMatchingStatsInternal(Ragged<int32_t> &tokens,
     // suffix array order.
     T interval_index = leaf_parent_interval_data[suffix_index];
     LcpInterval<T> interval = lcp_intervals_data[interval_index];
-    float scores_sum = reorder_scores_data[interval.rb + 1] -
-                       reorder_scores_data[interval.lb];
+    double scores_sum = reorder_scores_data[interval.rb + 1] -
+                        reorder_scores_data[interval.lb];
     double scores_squre_sum = reorder_scores_squre_data[interval.rb + 1] -
                               reorder_scores_squre_data[interval.lb];
     int32_t counts_out_interval = reorder_counts_data[interval.rb + 1] -
@@ -580,13 +581,14 @@ void GetBestMatchingStatsInternal(Ragged<int32_t> &tokens,
       if (dist_to_begin_data[i] <= interval.lcp)
         ngram_order_data[i] = max_order;
     }
-    mean_data[i] = counts_out_interval == 0 ? 0 :
-                   (scores_sum / counts_out_interval);
+    double this_mean = counts_out_interval == 0 ? 0 :
+                       (scores_sum / counts_out_interval);
+    mean_data[i] = this_mean;
     if (counts_out_interval == 0 || counts_out_interval == 1) {
       var_data[i] = 0;
     } else {
-      double numerator = scores_squre_sum - 2 * mean_data[i] * scores_sum +
-                         counts_out_interval * mean_data[i] * mean_data[i];
+      double numerator = scores_squre_sum - 2 * this_mean * scores_sum +
+                         counts_out_interval * this_mean * this_mean;
       var_data[i] = numerator / counts_out_interval;
     }
   }
-- 
2.43.0


From 31ef697347a9cfd7c53ca2ccf43d601cf11af3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:30 +0000
Subject: [PATCH 50/65] fix: GetBestMatchingStats allocates its outputs for
 empty input

---
 k2/csrc/nbest.cu | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/k2/csrc/nbest.cu b/k2/csrc/nbest.cu
index 2506fb5..88991cf 100644
--- a/k2/csrc/nbest.cu
+++ b/k2/csrc/nbest.cu
@@ -610,25 +610,25 @@ void GetBestMatchingStats(Ragged<int32_t> &tokens,
 
   int32_t num_elements = tokens.NumElements();
   K2_CHECK(mean);
-  if (mean->Dim() != num_elements) {
+  if (!mean->IsValid() || mean->Dim() != num_elements) {
     *mean = Array1<float>(c, num_elements);
   } else {
     K2_CHECK_EQ(mean->Dim(), num_elements);
   }
   K2_CHECK(var);
-  if (var->Dim() != num_elements) {
+  if (!var->IsValid() || var->Dim() != num_elements) {
     *var = Array1<float>(c, num_elements);
   } else {
     K2_CHECK_EQ(var->Dim(), num_elements);
   }
   K2_CHECK(counts_out);
-  if (counts_out->Dim() != num_elements) {
+  if (!counts_out->IsValid() || counts_out->Dim() != num_elements) {
     *counts_out = Array1<int32_t>(c, num_elements);
   } else {
     K2_CHECK_EQ(counts_out->Dim(), num_elements);
   }
   K2_CHECK(ngram_order);
-  if (ngram_order->Dim() != num_elements) {
+  if (!ngram_order->IsValid() || ngram_order->Dim() != num_elements) {
     *ngram_order = Array1<int32_t>(c, num_elements);
   } else {
     K2_CHECK_EQ(ngram_order->Dim(), num_elements);
-- 
2.43.0


From b23d6fc6fd4c8fecae5b8ae9ce11ced7a56cb4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:48 +0000
Subject: [PATCH 51/65] fix: Nbest.top_k repeats the last path when all
 utterances have less than k

---
 k2/python/k2/nbest.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index d2e7814..21f25a6 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -282,6 +282,12 @@ class Nbest(object):
                 'Some utterances contain empty ' \
                 f'n-best: {self.shape.row_splits(1)}'
 
+        num_cols = padded_indexes.shape[1]
+        if num_cols < k:
+            # Every utterance has less than k paths, repeat the last one.
+            last = padded_indexes[:, -1:].expand(-1, k - num_cols)
+            padded_indexes = torch.cat([padded_indexes, last], dim=1)
+
         # Select the idx01's of top-k paths of each utterance
         top_k_indexes = padded_indexes[:, :k].flatten().contiguous()
 
-- 
2.43.0


From dbf43f4ef0142c0df4dd50dbc048e6f4b72052f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:48 +0000
Subject: [PATCH 52/65] fix: Nbest.from_lattice leaves the scores of the
 lattice alone

---
 k2/python/k2/nbest.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 21f25a6..9810d2a 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -127,14 +127,16 @@ class Nbest(object):
         Returns:
           Return an Nbest instance.
         """
-        saved_scores = lattice.scores.clone()
-        lattice.scores *= nbest_scale
+        # Sample from a scaled copy so that `lattice` is not changed.
+        scaled_lattice = k2.Fsa(lattice.arcs.clone())
+        scaled_lattice.scores = lattice.scores.detach() * nbest_scale
         # path is a ragged tensor with dtype torch.int32.
         # It has three axes [utt][path][arc_pos]
         path = k2.random_paths(
-            lattice, num_paths=num_paths, use_double_scores=use_double_scores
+            scaled_lattice,
+            num_paths=num_paths,
+            use_double_scores=use_double_scores,
         )
-        lattice.scores = saved_scores
 
         # word_seq is a k2.RaggedTensor sharing the same shape as `path`
         # but it contains word IDs. Note that it also contains 0s and -1s.
-- 
2.43.0


From f51fdac87212eaf2ab6738851b83503124568e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:48 +0000
Subject: [PATCH 53/65] fix: Nbest.intersect reads dim0 of a shape as a
 property

---
 k2/python/k2/nbest.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 9810d2a..5861d21 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -219,8 +219,8 @@ class Nbest(object):
         assert self.fsa.device == lats.device, \
                 f'{self.fsa.device} vs {lats.device}'
         assert len(lats.shape) == 3, f'{lats.shape}'
-        assert lats.arcs.dim0() == self.shape.dim0(), \
-                f'{lats.arcs.dim0()} vs {self.shape.dim0()}'
+        assert lats.arcs.dim0() == self.shape.dim0, \
+                f'{lats.arcs.dim0()} vs {self.shape.dim0}'
 
         lats = k2.arc_sort(lats)  # no-op if lats is already arc sorted
 
-- 
2.43.0


From 382d21f8514bf0e204c1edccb94304d4619f6c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:31 +0000
Subject: [PATCH 54/65] fix: generate_nbest_list does not add an attribute to
 the lattice

---
 k2/python/k2/nbest.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index 5861d21..e821823 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -393,8 +393,7 @@ def generate_nbest_list(lats: Fsa, num_paths: int) -> Nbest:
     # Note: compile_HLG is from k2-fsa/snowfall
     assert hasattr(lats, 'phones')
 
-    assert not hasattr(lats, 'tokens')
-    lats.tokens = lats.phones
+    tokens = lats.phones
     # we use tokens instead of phones in the following code
 
     # First, extract `num_paths` paths for each sequence.
@@ -405,7 +404,7 @@ def generate_nbest_list(lats: Fsa, num_paths: int) -> Nbest:
     # but it contains token IDs. Note that it also contains 0s and -1s.
     # The last entry in each sublist is -1.
     # Its axes are [seq][path][token_id]
-    token_seqs = k2.ragged.index(lats.tokens, paths)
+    token_seqs = k2.ragged.index(tokens, paths)
 
     # Remove epsilons (0s) and -1 from token_seqs
     token_seqs = token_seqs.remove_values_leq(0)
-- 
2.43.0


From aa2fac0ccad09491b6dbaefef181d8c3c0b3c4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 55/65] fix: Nbest.intersect connects and sorts the lattices
 before searching them

---
 k2/python/k2/nbest.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/k2/python/k2/nbest.py b/k2/python/k2/nbest.py
index e821823..ecf229e 100644
--- a/k2/python/k2/nbest.py
+++ b/k2/python/k2/nbest.py
@@ -233,6 +233,9 @@ class Nbest(object):
                                        b_to_a_map=path_to_seq_map,
                                        sorted_match_a=True)
 
+        # The output of intersect_device may be neither connected nor top-sorted
+        ans_lats = k2.top_sort(k2.connect(ans_lats))
+
         one_best = k2.shortest_path(ans_lats, use_double_scores=True)
 
         one_best = k2.remove_epsilon(one_best)
-- 
2.43.0


From e082f76480d288e83101d3f3b22bc950819f0093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:55 +0000
Subject: [PATCH 56/65] fix: shortest_path accepts a single FSA, as its
 documentation says

---
 k2/python/k2/fsa_algo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/python/k2/fsa_algo.py b/k2/python/k2/fsa_algo.py
index f462815..ef3df3c 100644
--- a/k2/python/k2/fsa_algo.py
+++ b/k2/python/k2/fsa_algo.py
@@ -615,6 +615,8 @@ def shortest_path(fsa: Fsa, use_double_scores: bool) -> Fsa:
     Returns:
       FsaVec, it contains the best paths as linear FSAs
     '''
+    if fsa.arcs.num_axes() == 2:
+        fsa = k2.create_fsa_vec([fsa])
     entering_arcs = fsa._get_entering_arcs(use_double_scores)
     ragged_arc, ragged_int = _k2.shortest_path(fsa.arcs, entering_arcs)
     arc_map = ragged_int.values
-- 
2.43.0


From 5cd78ee1309281f82d17efd32085a4e415b4dd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:35 +0000
Subject: [PATCH 57/65] fix: host wrappers over an FsaVec accept one without
 any Fsa

---
 k2/csrc/fsa_algo.cu | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/k2/csrc/fsa_algo.cu b/k2/csrc/fsa_algo.cu
index 09f59de..ace4892 100644
--- a/k2/csrc/fsa_algo.cu
+++ b/k2/csrc/fsa_algo.cu
@@ -49,6 +49,11 @@ bool RecursionWrapper(bool (*f)(Fsa &, Fsa *, Array1<int32_t> *), Fsa &src,
   NVTX_RANGE(K2_FUNC);
   // src is actually an FsaVec.  Just recurse for now.
   int32_t num_fsas = src.shape.Dim0();
+  if (num_fsas == 0) {  // Stack() needs at least one source.
+    *dest = src;
+    if (arc_map != nullptr) *arc_map = Array1<int32_t>(src.Context(), 0);
+    return true;
+  }
   std::vector<Fsa> srcs(num_fsas), dests(num_fsas);
   std::vector<Array1<int32_t>> arc_maps(num_fsas);
   int32_t tot_num_arcs = 0;
@@ -226,6 +231,12 @@ void RecursionWrapper(void (*f)(FsaOrVec &, FsaOrVec *, Ragged<int32_t> *),
   // src is actually an FsaVec.  Just recurse for now.
   K2_CHECK_EQ(src.NumAxes(), 3);
   int32_t num_fsas = src.shape.Dim0();
+  if (num_fsas == 0) {  // Stack() needs at least one source.
+    *dest = src;
+    if (arc_deriv != nullptr)
+      *arc_deriv = Ragged<int32_t>(EmptyRaggedShape(src.Context(), 2));
+    return;
+  }
   std::vector<Fsa> srcs(num_fsas), dests(num_fsas);
   std::vector<Ragged<int32_t>> arc_derivs(num_fsas);
   int32_t tot_num_arcs = 0;
@@ -320,6 +331,12 @@ void Determinize(FsaOrVec &src,
     K2_LOG(FATAL) << "Input has bad num-axes " << num_axes;
   } else if (num_axes == 3) {
     int32_t num_fsas = src.shape.Dim0();
+    if (num_fsas == 0) {  // Stack() needs at least one source.
+      *dest = src;
+      if (arc_derivs != nullptr)
+        *arc_derivs = Ragged<int32_t>(EmptyRaggedShape(src.Context(), 2));
+      return;
+    }
     std::vector<Fsa> srcs(num_fsas), dests(num_fsas);
     std::vector<Ragged<int32_t>> derivs_vector(num_fsas);
     int32_t tot_num_arcs = 0;
@@ -1791,6 +1808,11 @@ void RecursionWrapperAuxLabels(void (*f)(FsaOrVec &, Ragged<int32_t> &,
   // src is actually an FsaVec.  Just recurse for now.
   K2_CHECK_EQ(src.NumAxes(), 3);
   int32_t num_fsas = src.shape.Dim0();
+  if (num_fsas == 0) {  // Stack() needs at least one source.
+    *dest = src;
+    *dest_aux_labels = Ragged<int32_t>(EmptyRaggedShape(src.Context(), 2));
+    return;
+  }
   std::vector<Fsa> srcs(num_fsas), dests(num_fsas);
   std::vector<Ragged<int32_t>> src_aux_labels_vec(num_fsas),
       dest_aux_labels_vec(num_fsas);
-- 
2.43.0


From 91bae175dba28f7891d951294197665d8fca63a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 58/65] fix: intersect_dense: do not truncate states, labels,
 frames and indexes to 16 bits

---
 k2/csrc/intersect_dense.cu | 42 +++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/k2/csrc/intersect_dense.cu b/k2/csrc/intersect_dense.cu
index dac8498..68d1244 100644
--- a/k2/csrc/intersect_dense.cu
+++ b/k2/csrc/intersect_dense.cu
@@ -426,7 +426,8 @@ class MultiGraphDenseIntersect {
           int32_t a_fsas_dest_state_idx1 = carc.dest_state;
           // Labels that do not exist in the neural-net output have a score of
           // negative infinity, see DoStep().
-          if (carc.label_plus_one >= scores_num_cols) return false;
+          if (carc.label_plus_one >= static_cast<uint32_t>(scores_num_cols))
+            return false;
           int32_t scores_index = fsa_info.scores_offset +
                                  (scores_stride * t_idx1) + carc.label_plus_one;
           float arc_score = carc.score + scores_data[scores_index];
@@ -632,9 +633,9 @@ class MultiGraphDenseIntersect {
         c_, tot_arcs, set_carcs_lambda, (int32_t i)->void {
           Arc arc = arcs_data[i];
           CompressedArc carc;
-          carc.src_state = uint16_t(arc.src_state);
-          carc.dest_state = uint16_t(arc.dest_state);
-          carc.label_plus_one = uint16_t(arc.label + 1);
+          carc.src_state = arc.src_state;
+          carc.dest_state = arc.dest_state;
+          carc.label_plus_one = static_cast<uint32_t>(arc.label) + 1;
           carc.fsa_idx = a_fsas_row_ids1[a_fsas_row_ids2[i]];
           carc.score = arc.score;
           {  // set carc.incoming_arc_idx012
@@ -673,10 +674,9 @@ class MultiGraphDenseIntersect {
         c_, num_fsas_, lambda_set_fsa_info, (int32_t i)->void {
           FsaInfo info;
           int32_t j = a_to_b_map_data[i];
-          info.T = uint16_t(b_fsas_row_splits1_data[j + 1] -
-                            b_fsas_row_splits1_data[j]);
-          info.num_states = uint16_t(a_fsas_row_splits1_data[i + 1] -
-                                     a_fsas_row_splits1_data[i]);
+          info.T = b_fsas_row_splits1_data[j + 1] - b_fsas_row_splits1_data[j];
+          info.num_states =
+              a_fsas_row_splits1_data[i + 1] - a_fsas_row_splits1_data[i];
           info.scores_offset = b_fsas_row_splits1_data[j] * scores_stride;
           info.state_offset = a_fsas_row_splits1_data[i];
           info.arc_offset = a_fsas_row_splits2_data[info.state_offset];
@@ -823,7 +823,7 @@ class MultiGraphDenseIntersect {
           // graph (a_fsas) does not exist in the neural-net output (b_fsas).
           float b_score_forward;
           float b_score_backward;
-          if (carc.label_plus_one < scores_num_cols) {
+          if (carc.label_plus_one < static_cast<uint32_t>(scores_num_cols)) {
             b_score_forward = scores_data[fsa_info.scores_offset +
                                           (scores_stride * (t - 1)) +
                                           carc.label_plus_one];
@@ -941,14 +941,15 @@ class MultiGraphDenseIntersect {
   // This is just a copy of a_fsas_.arcs, with a couple extra pieces of
   // information.
   struct CompressedArc {
-    // src_state of Arc, as uint16 (an idx1)
-    uint16_t src_state;
-    // dest_state of Arc, as uint16 (an idx1)
-    uint16_t dest_state;
-    // label of Arc, plus one, as uint16
-    uint16_t label_plus_one;
-    // FSA index, as uint16.
-    uint16_t fsa_idx;
+    // src_state of Arc (an idx1)
+    int32_t src_state;
+    // dest_state of Arc (an idx1)
+    int32_t dest_state;
+    // label of Arc, plus one; unsigned so that negative labels other than -1
+    // compare as out of range.
+    uint32_t label_plus_one;
+    // FSA index.
+    int32_t fsa_idx;
     // The idx012 of the position of this arc in the arc_scores_ array in the
     // Step.  This position is obtained by (1) renumbering the arc-indexes in
     // a_fsas_ to produce incoming_arcs_, (2) appending a_fsas_.shape and
@@ -959,8 +960,7 @@ class MultiGraphDenseIntersect {
     int32_t incoming_arc_idx012;
     float score;
   };
-  // The arcs in a_fsas_.arcs, converted to int16_t's and with a little more
-  // information.
+  // The arcs in a_fsas_.arcs, with a little more information.
   Array1<CompressedArc> carcs_;
 
   // incoming_arcs_.shape is a modified version of the shape a_fsas_.arcs.shape,
@@ -986,9 +986,9 @@ class MultiGraphDenseIntersect {
     // The number of copies of the states of a_fsas_ that we have in the total
     // state space equals T+1, i.e. we have copies of those states for times
     // 0 <= t <= T.
-    uint16_t T;
+    int32_t T;
     // num_states is the number of states this FSA has.
-    uint16_t num_states;
+    int32_t num_states;
     // scores_offset is the offset of first location in b_fsas_.scores.Data()
     // that is for this FSA, i.e. b_fsas_.scores.Data()[scores_offset] is the
     // score for t=0, symbol=-1 of this FSA.
-- 
2.43.0


From 9bbb629fe2c6b035c42103cd40d1c94fc6888f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 59/65] fix: SymbolTable: symbols and == work for symbols that
 have no order

---
 k2/python/k2/symbol_table.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/k2/python/k2/symbol_table.py b/k2/python/k2/symbol_table.py
index 14bdcf7..2211df1 100644
--- a/k2/python/k2/symbol_table.py
+++ b/k2/python/k2/symbol_table.py
@@ -269,7 +269,7 @@ class SymbolTable(Generic[Symbol]):
         if len(self) != len(other):
             return False
 
-        for s in self.symbols:
+        for s in self._sym2id:
             if s not in other or self[s] != other[s]:
                 return False
 
@@ -289,5 +289,9 @@ class SymbolTable(Generic[Symbol]):
         the integer IDs.
         '''
         ans = list(self._sym2id.keys())
-        ans.sort()
+        try:
+            ans.sort()
+        except TypeError:
+            # Symbols only have to be hashable; they may have no order.
+            pass
         return ans
-- 
2.43.0


From d5743bdcfb488f2429c7fd44b4b6ca55bfc243d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 60/65] fix: compare paths by their symbols alone in
 IsRandEquivalent

The sampled path was composed with its weights and epsilons, so that with
treat_epsilons_specially a path could be found several times and equal
automata were reported as different in the log semiring.
---
 k2/csrc/host/fsa_equivalent.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/k2/csrc/host/fsa_equivalent.cc b/k2/csrc/host/fsa_equivalent.cc
index 391cde4..b393e21 100644
--- a/k2/csrc/host/fsa_equivalent.cc
+++ b/k2/csrc/host/fsa_equivalent.cc
@@ -278,8 +278,20 @@ bool IsRandEquivalent(const Fsa &a, const Fsa &b,
     FsaCreator valid_path_storage;
     if (!::RandomPath(fsa, false, &valid_path_storage)) continue;
     // path is already connected so we will not call `::Connect` here
-    ArcSort(&valid_path_storage.GetFsa());
-    const auto &valid_path = valid_path_storage.GetFsa();
+
+    // The path only tells which symbols to look for, so it has no weights.
+    // It has no epsilons either if they are special, otherwise a path of a (or
+    // b) could be composed with it in several ways, which would be counted
+    // several times in the log semiring.
+    std::vector<Arc> path_arcs;
+    for (const auto &arc : valid_path_storage.GetFsa()) {
+      if (treat_epsilons_specially && arc.label == kEpsilon) continue;
+      int32_t state = static_cast<int32_t>(path_arcs.size());
+      path_arcs.emplace_back(state, state + 1, arc.label, 0);
+    }
+    FsaCreator symbols_storage(path_arcs,
+                               static_cast<int32_t>(path_arcs.size()));
+    const auto &valid_path = symbols_storage.GetFsa();
 
     FsaCreator a_compose_path_storage, b_compose_path_storage;
     std::vector<int32_t> arc_map_a_path, arc_map_b_path;
-- 
2.43.0


From 7b7a4ca9b8353b8bb80bf4f91908393c33267b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 61/65] fix: FsaVecs with different numbers of Fsas are not
 equivalent

IsRandEquivalent() compared the first a.Dim0() elements only (or read past
the end of b).
---
 k2/csrc/host_shim.cu | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/k2/csrc/host_shim.cu b/k2/csrc/host_shim.cu
index 3559146..76af805 100644
--- a/k2/csrc/host_shim.cu
+++ b/k2/csrc/host_shim.cu
@@ -213,6 +213,7 @@ bool IsRandEquivalentUnweighted(FsaOrVec &a, FsaOrVec &b,
                                       npath);
   }
   if (a.NumAxes() > 2) {
+    if (a.Dim0() != b.Dim0()) return false;
     for (int32_t i = 0; i < a.Dim0(); i++) {
       Fsa a_part = a.Index(0, i), b_part = b.Index(0, i);
       if (!IsRandEquivalentUnweighted(a_part, b_part, treat_epsilons_specially,
@@ -241,6 +242,7 @@ bool IsRandEquivalent(Fsa &a, Fsa &b, bool log_semiring,
                             treat_epsilons_specially, delta, npath);
   }
   if (a.NumAxes() > 2) {
+    if (a.Dim0() != b.Dim0()) return false;
     for (int32_t i = 0; i < a.Dim0(); i++) {
       Fsa a_part = a.Index(0, i), b_part = b.Index(0, i);
       if (!IsRandEquivalent(a_part, b_part, log_semiring, beam,
-- 
2.43.0


From 04e7dbf89b7bce8224b3be5c04474971a907abd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 62/65] fix: propagate more than one attribute of several
 FsaClass objects

The values of one attribute were still in the list when the next attribute
was collected, so that FsaClass::CopyAttrs() failed.
---
 k2/torch/csrc/fsa_class.cu | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/k2/torch/csrc/fsa_class.cu b/k2/torch/csrc/fsa_class.cu
index 90c3de3..ab4fca5 100644
--- a/k2/torch/csrc/fsa_class.cu
+++ b/k2/torch/csrc/fsa_class.cu
@@ -75,9 +75,9 @@ void FsaClass::CopyTensorAttrs(std::vector<FsaClass> &srcs,
       attrs_info.insert(std::make_pair(iter.first, dtype));
     }
   }
-  std::vector<torch::Tensor> values;
   auto row_splits = arc_map.RowSplits(1).To(GetCpuContext());
   for (const auto &iter : attrs_info) {
+    std::vector<torch::Tensor> values;
     for (int32_t i = 0; i < static_cast<int32_t>(srcs.size()); ++i) {
       auto this_arc_map_array =
           arc_map.values.Arange(row_splits[i], row_splits[i + 1]);
@@ -119,9 +119,9 @@ void FsaClass::CopyRaggedTensorAttrs(std::vector<FsaClass> &srcs,
       attrs_name.insert(iter.first);
     }
   }
-  std::vector<Ragged<int32_t>> values;
   auto row_splits = arc_map.RowSplits(1).To(GetCpuContext());
   for (const auto &name : attrs_name) {
+    std::vector<Ragged<int32_t>> values;
     for (int32_t i = 0; i < static_cast<int32_t>(srcs.size()); ++i) {
       auto this_arc_map =
           arc_map.values.Arange(row_splits[i], row_splits[i + 1]);
-- 
2.43.0


From 93a920d46c504c12bcf79bd4f3de98b61a419fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 63/65] fix: do not invert the labels of copies of a lattice

A copy of an FsaClass shares its arcs; Invert() wrote the new labels into
them, e.g. GetBestPaths() left its input and the n-best list with word IDs
as labels, and the scores of its result were zeroed.
---
 k2/torch/csrc/fsa_algo.cu | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/k2/torch/csrc/fsa_algo.cu b/k2/torch/csrc/fsa_algo.cu
index adcb759..fb9dd62 100644
--- a/k2/torch/csrc/fsa_algo.cu
+++ b/k2/torch/csrc/fsa_algo.cu
@@ -95,6 +95,9 @@ void Invert(FsaClass *lattice) {
     aux_labels = torch::where(labels == -1, minus_one, aux_labels);
 
     lattice->SetTensorAttr("aux_labels", labels);
+    // The arcs may be shared with copies of the lattice, which keep their
+    // labels.
+    lattice->fsa = FsaOrVec(lattice->fsa.shape, lattice->fsa.values.Clone());
     lattice->SetLabels(aux_labels);
   } else {
     K2_CHECK(lattice->HasRaggedTensorAttr("aux_labels"));
-- 
2.43.0


From 2cad397f5ced972ec087b194a6b6e1fc130e3a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 64/65] fix: skip the padding byte of odd-sized chunks in wave
 files

---
 k2/torch/csrc/wave_reader.cu | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/k2/torch/csrc/wave_reader.cu b/k2/torch/csrc/wave_reader.cu
index 814ca57..c19c679 100644
--- a/k2/torch/csrc/wave_reader.cu
+++ b/k2/torch/csrc/wave_reader.cu
@@ -59,7 +59,8 @@ struct WaveHeader {
     //                              a t a d
     while (is && subchunk2_id != 0x61746164) {
       const char *p = reinterpret_cast<const char *>(&subchunk2_id);
-      is.seekg(subchunk2_size, std::istream::cur);
+      // a chunk with an odd number of bytes is followed by a padding byte
+      is.seekg(subchunk2_size + (subchunk2_size & 1), std::istream::cur);
       is.read(reinterpret_cast<char *>(&subchunk2_id), sizeof(int32_t));
       is.read(reinterpret_cast<char *>(&subchunk2_size), sizeof(int32_t));
     }
-- 
2.43.0


From ee737c72ef287f5095af22ad32644990eaec973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:02 +0000
Subject: [PATCH 65/65] fix: accept one-element tensors with any stride

contiguous() does not change the stride of a tensor with one element, so
that operations on the labels of a single arc failed.
---
 k2/torch/csrc/utils.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/k2/torch/csrc/utils.h b/k2/torch/csrc/utils.h
index 8c6125e..058423f 100644
--- a/k2/torch/csrc/utils.h
+++ b/k2/torch/csrc/utils.h
@@ -86,7 +86,9 @@ Array1<T> Array1FromTorch(torch::Tensor tensor) {
       << ". Given: " << tensor.scalar_type();
   // Some empty tensor may have stride not equal to 1, e.g., tensor returned by
   // clone() method, it is valid here, so we won't check its strides.
-  if (tensor.numel() > 0)
+  // Neither does the stride of a tensor with one element matter, which stays
+  // as it is in contiguous() and clone().
+  if (tensor.numel() > 1)
     K2_CHECK_EQ(tensor.stride(0), 1)
         << "Expected stride: 1. Given: " << tensor.stride(0);
 
-- 
2.43.0

