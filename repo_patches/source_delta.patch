From 7445109e122020dfc62f00f32d5de2f060e59421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:48 +0000
Subject: [PATCH 01/28] Add VCTRS_SIM seams: tuning constants and the hash
 mixer

---
 src/dictionary.c       |  2 +-
 src/hash.c             |  4 ++--
 src/interval.c         |  4 ++--
 src/match.c            |  4 ++--
 src/order-groups.c     |  2 +-
 src/order-truelength.h |  2 +-
 src/order.c            | 18 ++++++++---------
 src/sim-hooks.h        | 44 ++++++++++++++++++++++++++++++++++++++++++
 src/vctrs-core.h       |  1 +
 9 files changed, 63 insertions(+), 18 deletions(-)
 create mode 100644 src/sim-hooks.h

diff --git a/src/dictionary.c b/src/dictionary.c
index 74ab6fa..ce576f6 100644
--- a/src/dictionary.c
+++ b/src/dictionary.c
@@ -221,7 +221,7 @@ SEXP vctrs_unique_loc(SEXP x) {
   struct dictionary* d = new_dictionary(x);
   PROTECT_DICT(d, &nprot);
 
-  struct growable g = new_growable(INTSXP, 256);
+  struct growable g = new_growable(INTSXP, SIM_KNOB(SIM_KNOB_growable_size, 256));
   PROTECT_GROWABLE(&g, &nprot);
 
   for (int i = 0; i < n; ++i) {
diff --git a/src/hash.c b/src/hash.c
index 154c9fb..e02745b 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -14,7 +14,7 @@ static inline uint32_t hash_uint32(uint32_t x) {
   x *= 0xc2b2ae35;
   x ^= x >> 16;
 
-  return x;
+  return SIM_HASH(x);
 }
 
 // 64-bit mixer from murmurhash
@@ -25,7 +25,7 @@ static inline uint32_t hash_uint64(uint64_t x) {
   x ^= x >> 33;
   x *= UINT64_C(0xc4ceb9fe1a85ec53);
   x ^= x >> 33;
-  return x;
+  return SIM_HASH(x);
 }
 
 // Seems like something designed specificaly for doubles should work better
diff --git a/src/interval.c b/src/interval.c
index ec12044..92b5ff8 100644
--- a/src/interval.c
+++ b/src/interval.c
@@ -143,7 +143,7 @@ r_obj* vec_interval_group_info(r_obj* start,
 
   // Assume the intervals can be merged into half their original size.
   // Apply a minimum size to avoid a size of zero.
-  const r_ssize initial_size = r_ssize_max(size / 2, 1);
+  const r_ssize initial_size = SIM_KNOB(SIM_KNOB_interval_size, r_ssize_max(size / 2, 1));
 
   struct r_dyn_array* p_loc_start = r_new_dyn_vector(R_TYPE_integer, initial_size);
   KEEP_N(p_loc_start->shelter, &n_prot);
@@ -806,7 +806,7 @@ r_obj* vec_interval_locate_containers(r_obj* start, r_obj* end) {
   // Assume that half the intervals are containers.
   // This is probably a little high.
   // Apply a minimum size to avoid a size of zero.
-  const r_ssize initial_size = r_ssize_max(size / 2, 1);
+  const r_ssize initial_size = SIM_KNOB(SIM_KNOB_interval_size, r_ssize_max(size / 2, 1));
 
   struct r_dyn_array* p_loc = r_new_dyn_vector(R_TYPE_integer, initial_size);
   KEEP_N(p_loc->shelter, &n_prot);
diff --git a/src/match.c b/src/match.c
index 61faff2..51ae5b1 100644
--- a/src/match.c
+++ b/src/match.c
@@ -309,7 +309,7 @@ r_obj* df_locate_matches(r_obj* needles,
   const r_ssize initial_capacity =
     (n_containers == 1) ?
     size_needles :
-    r_double_as_ssize(r_ssize_as_double(size_needles) * 1.2);
+    r_ssize_max(size_needles, SIM_KNOB(SIM_KNOB_match_capacity, r_double_as_ssize(r_ssize_as_double(size_needles) * 1.2)));
 
   struct r_dyn_array* p_loc_first_match_o_haystack = r_new_dyn_vector(R_TYPE_integer, initial_capacity);
   KEEP_N(p_loc_first_match_o_haystack->shelter, &n_prot);
@@ -2463,7 +2463,7 @@ r_obj* compute_nesting_container_ids(r_obj* x,
     return out;
   }
 
-  struct r_dyn_array* p_prev_rows = r_new_dyn_vector(R_TYPE_integer, 10000);
+  struct r_dyn_array* p_prev_rows = r_new_dyn_vector(R_TYPE_integer, SIM_KNOB(SIM_KNOB_match_prev_rows, 10000));
   KEEP_N(p_prev_rows->shelter, &n_prot);
 
   struct poly_vec* p_poly_x = new_poly_vec(x, VCTRS_TYPE_dataframe);
diff --git a/src/order-groups.c b/src/order-groups.c
index 065d002..e60f209 100644
--- a/src/order-groups.c
+++ b/src/order-groups.c
@@ -131,7 +131,7 @@ r_ssize groups_realloc_size(r_ssize data_size, r_ssize max_data_size) {
 
   if (data_size == 0) {
     // First allocation
-    new_data_size = GROUP_DATA_SIZE_DEFAULT;
+    new_data_size = SIM_KNOB(SIM_KNOB_group_data_size, GROUP_DATA_SIZE_DEFAULT);
   } else {
     // Avoid potential overflow when doubling size
     new_data_size = ((uint64_t) data_size) * 2;
diff --git a/src/order-truelength.h b/src/order-truelength.h
index 1b9bb55..668b498 100644
--- a/src/order-truelength.h
+++ b/src/order-truelength.h
@@ -20,7 +20,7 @@
 // This seems to be a reasonable default to start with for tracking the unique
 // strings, and is what base R uses. It is expanded by 2x every time we need to
 // reallocate.
-#define TRUELENGTH_SIZE_ALLOC_DEFAULT 10000
+#define TRUELENGTH_SIZE_ALLOC_DEFAULT SIM_KNOB(SIM_KNOB_truelength_size, 10000)
 
 // -----------------------------------------------------------------------------
 
diff --git a/src/order.c b/src/order.c
index 51d0615..134bf54 100644
--- a/src/order.c
+++ b/src/order.c
@@ -977,7 +977,7 @@ void int_order_chunk_impl(bool decreasing,
                           struct lazy_raw* p_lazy_bytes,
                           struct lazy_raw* p_lazy_counts,
                           struct group_infos* p_group_infos) {
-  if (size <= ORDER_INSERTION_BOUNDARY) {
+  if (size <= SIM_KNOB(SIM_KNOB_order_insertion, ORDER_INSERTION_BOUNDARY)) {
     int_adjust(decreasing, na_last, size, p_x);
     int_order_insertion(size, p_x, p_o, p_group_infos);
     return;
@@ -995,7 +995,7 @@ void int_order_chunk_impl(bool decreasing,
    * need `p_o_aux` as working memory. At this point, `p_o` will have been
    * initialized from ordering the first column.
    */
-  if (range < INT_ORDER_COUNTING_RANGE_BOUNDARY) {
+  if (range < SIM_KNOB(SIM_KNOB_order_counting, INT_ORDER_COUNTING_RANGE_BOUNDARY)) {
     const bool initialized = true;
 
     int_order_counting(
@@ -1057,7 +1057,7 @@ void int_order_impl(const int* p_x,
                     struct lazy_raw* p_lazy_bytes,
                     struct lazy_raw* p_lazy_counts,
                     struct group_infos* p_group_infos) {
-  if (size <= ORDER_INSERTION_BOUNDARY) {
+  if (size <= SIM_KNOB(SIM_KNOB_order_insertion, ORDER_INSERTION_BOUNDARY)) {
     int* p_o = init_order(p_order);
 
     void* p_x_chunk;
@@ -1087,7 +1087,7 @@ void int_order_impl(const int* p_x,
    * Also, `p_o` will be filled directly, so for performance we don't
    * initialize its order.
    */
-  if (range < INT_ORDER_COUNTING_RANGE_BOUNDARY) {
+  if (range < SIM_KNOB(SIM_KNOB_order_counting, INT_ORDER_COUNTING_RANGE_BOUNDARY)) {
     const bool initialized = false;
 
     int* p_o = p_order->p_data;
@@ -1561,7 +1561,7 @@ void int_order_radix_recurse(const r_ssize size,
                              bool* p_skips,
                              struct group_infos* p_group_infos) {
   // Exit as fast as possible if we are below the insertion order boundary
-  if (size <= ORDER_INSERTION_BOUNDARY) {
+  if (size <= SIM_KNOB(SIM_KNOB_order_insertion, ORDER_INSERTION_BOUNDARY)) {
     int_order_insertion(size, p_x, p_o, p_group_infos);
     return;
   }
@@ -1991,7 +1991,7 @@ void dbl_order_chunk_impl(bool decreasing,
 
   dbl_adjust(decreasing, na_last, nan_distinct, size, p_x);
 
-  if (size <= ORDER_INSERTION_BOUNDARY) {
+  if (size <= SIM_KNOB(SIM_KNOB_order_insertion, ORDER_INSERTION_BOUNDARY)) {
     dbl_order_insertion(size, p_x, p_o, p_group_infos);
     return;
   }
@@ -2071,7 +2071,7 @@ void dbl_order_impl(const double* p_x,
 
   dbl_adjust(decreasing, na_last, nan_distinct, size, p_x_chunk);
 
-  if (size <= ORDER_INSERTION_BOUNDARY) {
+  if (size <= SIM_KNOB(SIM_KNOB_order_insertion, ORDER_INSERTION_BOUNDARY)) {
     dbl_order_insertion(size, p_x_chunk, p_o, p_group_infos);
     return;
   }
@@ -2414,7 +2414,7 @@ void dbl_order_radix_recurse(const r_ssize size,
                              bool* p_skips,
                              struct group_infos* p_group_infos) {
   // Exit as fast as possible if we are below the insertion order boundary
-  if (size <= ORDER_INSERTION_BOUNDARY) {
+  if (size <= SIM_KNOB(SIM_KNOB_order_insertion, ORDER_INSERTION_BOUNDARY)) {
     dbl_order_insertion(size, p_x, p_o, p_group_infos);
     return;
   }
@@ -3295,7 +3295,7 @@ void chr_order_radix_recurse(const r_ssize size,
                              int* p_sizes_aux,
                              uint8_t* p_bytes) {
   // Exit as fast as possible if we are below the insertion order boundary
-  if (size <= ORDER_INSERTION_BOUNDARY) {
+  if (size <= SIM_KNOB(SIM_KNOB_order_insertion, ORDER_INSERTION_BOUNDARY)) {
     chr_order_insertion(size, pass, p_x, p_sizes);
     return;
   }
diff --git a/src/sim-hooks.h b/src/sim-hooks.h
new file mode 100644
index 0000000..4a79767
--- /dev/null
+++ b/src/sim-hooks.h
@@ -0,0 +1,44 @@
+#ifndef VCTRS_SIM_HOOKS_H
+#define VCTRS_SIM_HOOKS_H
+
+/*
+ * Seams for the deterministic simulator. They only exist when compiled with
+ * `-DVCTRS_SIM`; otherwise they expand to their default and the generated code
+ * is unchanged.
+ *
+ * - `SIM_KNOB()` lets the simulator vary tuning constants (algorithm switch
+ *   points and initial buffer sizes) that must never influence results.
+ * - `SIM_HASH()` lets the simulator vary the hash mixer, so that collisions
+ *   and table layouts that depend on memory addresses become reproducible.
+ */
+
+#ifdef VCTRS_SIM
+
+#include <stdint.h>
+#include <stddef.h>
+
+ptrdiff_t vctrs_sim_knob(int id, ptrdiff_t deflt);
+uint32_t vctrs_sim_hash(uint32_t hash);
+
+#define SIM_KNOB(ID, DEFAULT) vctrs_sim_knob((ID), (DEFAULT))
+#define SIM_HASH(HASH) vctrs_sim_hash(HASH)
+
+#else
+
+#define SIM_KNOB(ID, DEFAULT) (DEFAULT)
+#define SIM_HASH(HASH) (HASH)
+
+#endif
+
+enum sim_knob {
+  SIM_KNOB_order_insertion = 0,
+  SIM_KNOB_order_counting,
+  SIM_KNOB_group_data_size,
+  SIM_KNOB_truelength_size,
+  SIM_KNOB_growable_size,
+  SIM_KNOB_interval_size,
+  SIM_KNOB_match_capacity,
+  SIM_KNOB_match_prev_rows
+};
+
+#endif
diff --git a/src/vctrs-core.h b/src/vctrs-core.h
index f02c10b..66eb17d 100644
--- a/src/vctrs-core.h
+++ b/src/vctrs-core.h
@@ -5,6 +5,7 @@
 #include "globals.h"
 #include "rlang-dev.h"
 #include "type-info.h"
+#include "sim-hooks.h"
 
 #include <stdlib.h>
 #include <stdbool.h>
-- 
2.43.0


From 931f93a09e3024a7c2f4d4f459a70ae7202f00c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:53 +0000
Subject: [PATCH 02/28] fix: clear counting sort buckets on entry, not on exit

An aborted integer sort (failed allocation or interrupt while pushing group
sizes) left its counts in the static buffer. Later integer sorts then returned
garbage or wrote past their buffers.
---
 src/order.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/order.c b/src/order.c
index 134bf54..5540639 100644
--- a/src/order.c
+++ b/src/order.c
@@ -1308,7 +1308,8 @@ void int_order_counting(const int* p_x,
                         int* p_o,
                         int* p_o_aux,
                         struct group_infos* p_group_infos) {
-  // - Only allocate this once (counts are reset to 0 at end)
+  // - Only allocate this once (the used counts are reset to 0 on entry,
+  //   because a previous call might have been aborted before it finished)
   // - Allocating as static allows us to allocate an array this large
   // - `+ 1` to ensure there is room for the extra `NA` bucket
   static r_ssize p_counts[INT_ORDER_COUNTING_RANGE_BOUNDARY + 1] = { 0 };
@@ -1322,6 +1323,10 @@ void int_order_counting(const int* p_x,
     Rf_errorcall(R_NilValue, "Internal error: `range > INT_ORDER_COUNTING_RANGE_BOUNDARY`.");
   }
 
+  // Reset counts, only what we might touch.
+  // `+ 1` to reset the NA bucket too.
+  memset(p_counts, 0, (range + 1) * sizeof(r_ssize));
+
   // Histogram pass
   for (r_ssize i = 0; i < size; ++i) {
     const int elt = p_x[i];
@@ -1396,11 +1401,6 @@ void int_order_counting(const int* p_x,
       p_o[loc] = i + 1;
     }
   }
-
-  // Reset counts for next column.
-  // Only reset what we might have touched.
-  // `+ 1` to reset the NA bucket too.
-  memset(p_counts, 0, (range + 1) * sizeof(r_ssize));
 }
 
 // -----------------------------------------------------------------------------
-- 
2.43.0


From 4d67e128290ca58a05c2cd207a2868b90029bd43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:29 +0000
Subject: [PATCH 03/28] fix: rerun a complex column once when ordering a data
 frame

The column index was decremented once per group of ties instead of once per
column, so a complex column after a column with three or more groups of ties
read columns before the first one and crashed (or looped).
---
 src/order.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/order.c b/src/order.c
index 5540639..ebb3333 100644
--- a/src/order.c
+++ b/src/order.c
@@ -3905,9 +3905,6 @@ static void vec_order_chunk_switch(bool decreasing,
       const int loc = p_o_col[j] - 1;                          \
       p_x_chunk_col[j] = cpl_normalise_missing(p_col[loc]).r;  \
     }                                                          \
-                                                               \
-    /* Decrement `i` to rerun column */                        \
-    --i;                                                       \
   } else {                                                     \
     /* Second pass - imaginary */                              \
     for (r_ssize j = 0; j < group_size; ++j) {                 \
@@ -4115,6 +4112,12 @@ void df_order_internal(SEXP x,
     if (chr_ordered && type == VCTRS_TYPE_character) {
       truelength_reset(p_truelength_info);
     }
+
+    // Decrement `i` to rerun complex column.
+    // Only once per column, no matter how many group chunks it has.
+    if (rerun_complex) {
+      --i;
+    }
   }
 }
 
-- 
2.43.0


From e5f822687958093d77c7364c3fdea717be815792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:11 +0000
Subject: [PATCH 04/28] fix: don't write past the bounds vector in
 vec_locate_run_bounds()

Elements after the last (before the first) bound were written to `v_out[n]`
(`v_out[-1]`), outside of the vector.
---
 src/runs.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/runs.c b/src/runs.c
index 5328406..7166004 100644
--- a/src/runs.c
+++ b/src/runs.c
@@ -63,11 +63,13 @@ r_obj* vec_locate_run_bounds(r_obj* x, enum vctrs_run_bound which, struct r_lazy
   r_ssize loc = compute_iter_loc(size, which);
   const r_ssize step = compute_iter_step(which);
 
-  // First/last value are always the final bound locations
-  // (depending on `which`), so `j` won't ever write to OOB locations
+  // Once all `n` bounds have been located, `j` is out of bounds, so only
+  // write when there is a bound
   for (r_ssize i = 0; i < size; ++i) {
-    v_out[j] = loc + 1;
-    j += step * v_where[loc];
+    if (v_where[loc]) {
+      v_out[j] = loc + 1;
+      j += step;
+    }
     loc += step;
   }
 
-- 
2.43.0


From bd3e026be40e14acd3fa3347ec7676d7920c8c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:17 +0000
Subject: [PATCH 05/28] fix: compare all attributes of list elements,
 symmetrically

The tag of `x` was compared with itself, and attributes of `y` after those of
`x` were ignored, so `list(1)` equalled `list(c(a = 1))` in one direction only
and uniqueness or matching of list elements depended on their order and hash.
---
 src/equal.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/equal.c b/src/equal.c
index 359bbb4..72f5d71 100644
--- a/src/equal.c
+++ b/src/equal.c
@@ -396,7 +396,7 @@ static inline bool vec_equal_attrib(SEXP x, SEXP y) {
     }
 
     SEXP x_tag = TAG(x_attrs);
-    SEXP y_tag = TAG(x_attrs);
+    SEXP y_tag = TAG(y_attrs);
 
     if (x_tag != y_tag) {
       return false;
@@ -410,7 +410,8 @@ static inline bool vec_equal_attrib(SEXP x, SEXP y) {
     y_attrs = CDR(y_attrs);
   }
 
-  return true;
+  // `y` might have additional attributes
+  return y_attrs == R_NilValue;
 }
 
 
-- 
2.43.0


From 21b92dd69157376c027f878f34a4d29034ac613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:27 +0000
Subject: [PATCH 06/28] fix: don't expose hash order in vec_count(sort = "key")

Distinct keys that compare as equal (NA and NaN) were left in the order of the
hash table. Break these ties by location.
---
 R/dictionary.R | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/R/dictionary.R b/R/dictionary.R
index 8b294fe..00a3a55 100644
--- a/R/dictionary.R
+++ b/R/dictionary.R
@@ -51,7 +51,9 @@ vec_count <- function(x, sort = c("count", "key", "location", "none")) {
   info <- vec_count_impl(x)
 
   # Sorting based on rearranging `info`
-  if (sort == "location") {
+  # For `sort == "key"`, this breaks ties between distinct keys which compare as
+  # equal, such as `NA` and `NaN`. Otherwise they stay in hash order.
+  if (sort == "location" || sort == "key") {
     loc <- vec_order(info$loc)
     info <- vec_slice(info, loc)
   } else if (sort == "count") {
-- 
2.43.0


From 828d7764711a9fa4c147e19209cfff86dead8a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:49 +0000
Subject: [PATCH 07/28] fix: always detect incomplete needles in
 vec_locate_matches()

Needles for which no haystack was left to search in were never visited, so
their missing values went unnoticed with `incomplete` set to "drop", "error"
or a value.
---
 src/match.c | 51 ++++++++++++++++++++-------------------------------
 1 file changed, 20 insertions(+), 31 deletions(-)

diff --git a/src/match.c b/src/match.c
index 51ae5b1..cdde222 100644
--- a/src/match.c
+++ b/src/match.c
@@ -392,6 +392,24 @@ r_obj* df_locate_matches(r_obj* needles,
   KEEP_N(p_poly_haystack_complete->shelter, &n_prot);
   const struct poly_df_data* p_haystack_complete = (const struct poly_df_data*) p_poly_haystack_complete->p_vec;
 
+  if (incomplete->action == VCTRS_INCOMPLETE_ACTION_value ||
+      incomplete->action == VCTRS_INCOMPLETE_ACTION_drop ||
+      incomplete->action == VCTRS_INCOMPLETE_ACTION_error) {
+    // Signal incomplete needles up front. The recursion below never visits
+    // needles that can't match because there is no haystack left to search in.
+    int* v_loc_first_match_o_haystack = (int*) r_dyn_begin(p_loc_first_match_o_haystack);
+
+    for (r_ssize j = 0; j < p_needles_complete->n_col; ++j) {
+      const int* v_complete = (const int*) p_needles_complete->v_col_ptr[j];
+
+      for (r_ssize i = 0; i < size_needles; ++i) {
+        if (!v_complete[i]) {
+          v_loc_first_match_o_haystack[i] = SIGNAL_INCOMPLETE;
+        }
+      }
+    }
+  }
+
   if (size_needles > 0) {
     // Recursion requires at least 1 row in needles.
     // In the case of size 0 needles, there is nothing to do, but this avoids
@@ -541,15 +559,8 @@ void df_locate_matches_recurse(r_ssize col,
       (incomplete->action == VCTRS_INCOMPLETE_ACTION_value ||
        incomplete->action == VCTRS_INCOMPLETE_ACTION_drop ||
        incomplete->action == VCTRS_INCOMPLETE_ACTION_error)) {
-    // Signal incomplete needle, don't recursive into further columns.
-    // Early return at the end of this branch.
-
-    for (r_ssize i = loc_lower_duplicate_o_needles; i <= loc_upper_duplicate_o_needles; ++i) {
-      // Will always be the first and only time the output is touched for this
-      // needle, so we can poke directly into it
-      const int loc_needles = v_o_needles[i] - 1;
-      r_dyn_int_poke(p_loc_first_match_o_haystack, loc_needles, SIGNAL_INCOMPLETE);
-    }
+    // Incomplete needles have already been signaled, don't recurse into
+    // further columns. Early return at the end of this branch.
 
     // Learned nothing about haystack, so just update lhs/rhs bounds for
     // `o_needles` as needed and continue on
@@ -873,28 +884,6 @@ void df_locate_matches_recurse(r_ssize col,
         }
       }
     }
-  } else if (col < n_col - 1 &&
-             (incomplete->action == VCTRS_INCOMPLETE_ACTION_value ||
-              incomplete->action == VCTRS_INCOMPLETE_ACTION_drop ||
-              incomplete->action == VCTRS_INCOMPLETE_ACTION_error)) {
-    // This branch occurs if there is no match in `haystack` for this needle,
-    // but we aren't on the last column and we are tracking incomplete needles.
-    // Before we move on from this needle, we check its future columns for
-    // incomplete values. If the current `val_needles` was incomplete, it would
-    // have already been caught above, so we only look at future columns.
-    for (r_ssize i = loc_lower_duplicate_o_needles; i <= loc_upper_duplicate_o_needles; ++i) {
-      const r_ssize loc_needles = v_o_needles[i] - 1;
-
-      for (r_ssize j = col + 1; j < n_col; ++j) {
-        const int* v_future_needles_complete = (const int*) p_needles_complete->v_col_ptr[j];
-        const bool future_needle_is_complete = v_future_needles_complete[loc_needles];
-
-        if (!future_needle_is_complete) {
-          r_dyn_int_poke(p_loc_first_match_o_haystack, loc_needles, SIGNAL_INCOMPLETE);
-          break;
-        }
-      }
-    }
   }
 
   // At this point we have finished recording matches for the current needle in
-- 
2.43.0


From 4ccad8981544769fd27b7691933853abcf35056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:33 +0000
Subject: [PATCH 08/28] fix: apply filters after matching all columns in
 vec_locate_matches()

A filter on a column other than the last one discarded haystack values before
knowing whether the values it kept matched in the later columns, so needles
with a match were reported as unmatched.
---
 src/match.c | 98 ++++++++++++++++++++++-------------------------------
 1 file changed, 41 insertions(+), 57 deletions(-)

diff --git a/src/match.c b/src/match.c
index cdde222..d98993e 100644
--- a/src/match.c
+++ b/src/match.c
@@ -524,7 +524,6 @@ void df_locate_matches_recurse(r_ssize col,
                                struct r_dyn_array* p_loc_needles,
                                int* v_loc_filter_match_o_haystack) {
   const enum vctrs_ops op = v_ops[col];
-  const enum vctrs_filter filter = v_filters[col];
   const r_ssize n_col = p_needles->n_col;
 
   const int* v_needles = (const int*) p_needles->v_col_ptr[col];
@@ -708,62 +707,6 @@ void df_locate_matches_recurse(r_ssize col,
   if (loc_lower_match_o_haystack <= loc_upper_match_o_haystack) {
     // Hit!
 
-    switch (filter) {
-    case VCTRS_FILTER_max: {
-      if (!needle_is_complete || op == VCTRS_OPS_eq) {
-        // Lower match value will already equal upper match value
-        break;
-      }
-
-      // We want the max values of this group. That's the upper match of the
-      // haystack and its corresponding lower duplicate.
-      const int loc_lower_match_haystack = v_o_haystack[loc_lower_match_o_haystack] - 1;
-      const int loc_upper_match_haystack = v_o_haystack[loc_upper_match_o_haystack] - 1;
-      const int val_lower_match_haystack = v_haystack[loc_lower_match_haystack];
-      const int val_upper_match_haystack = v_haystack[loc_upper_match_haystack];
-
-      if (val_lower_match_haystack != val_upper_match_haystack) {
-        loc_lower_match_o_haystack = int_locate_lower_duplicate(
-          val_upper_match_haystack,
-          v_haystack,
-          v_o_haystack,
-          loc_lower_match_o_haystack,
-          loc_upper_match_o_haystack
-        );
-      }
-
-      break;
-    }
-    case VCTRS_FILTER_min: {
-      if (!needle_is_complete || op == VCTRS_OPS_eq) {
-        // Lower match value will already equal upper match value
-        break;
-      }
-
-      // We want the min values of this group. That's the lower match of the
-      // haystack and its corresponding upper duplicate.
-      const int loc_lower_match_haystack = v_o_haystack[loc_lower_match_o_haystack] - 1;
-      const int loc_upper_match_haystack = v_o_haystack[loc_upper_match_o_haystack] - 1;
-      const int val_lower_match_haystack = v_haystack[loc_lower_match_haystack];
-      const int val_upper_match_haystack = v_haystack[loc_upper_match_haystack];
-
-      if (val_lower_match_haystack != val_upper_match_haystack) {
-        loc_upper_match_o_haystack = int_locate_upper_duplicate(
-          val_lower_match_haystack,
-          v_haystack,
-          v_o_haystack,
-          loc_lower_match_o_haystack,
-          loc_upper_match_o_haystack
-        );
-      }
-
-      break;
-    }
-    case VCTRS_FILTER_none: {
-      break;
-    }
-    }
-
     if (col < n_col - 1) {
       // For this column, we've bounded the needles locations to the upper/lower
       // duplicates of the current needle, and the haystack locations to the
@@ -795,6 +738,47 @@ void df_locate_matches_recurse(r_ssize col,
       // We just finished locating matches for the last column,
       // and we still have at least 1 hit, so record it
 
+      if (any_filters) {
+        // Only now do we know which haystack values match this needle in all
+        // columns. Values within a nesting container are in increasing order in
+        // every column, so the min / max values are at the ends of the matches.
+        for (r_ssize i = 0; i < n_col; ++i) {
+          const int* v_col = (const int*) p_haystack->v_col_ptr[i];
+          const int val_lower = v_col[v_o_haystack[loc_lower_match_o_haystack] - 1];
+          const int val_upper = v_col[v_o_haystack[loc_upper_match_o_haystack] - 1];
+
+          if (val_lower == val_upper) {
+            continue;
+          }
+
+          switch (v_filters[i]) {
+          case VCTRS_FILTER_max: {
+            loc_lower_match_o_haystack = int_locate_lower_duplicate(
+              val_upper,
+              v_col,
+              v_o_haystack,
+              loc_lower_match_o_haystack,
+              loc_upper_match_o_haystack
+            );
+            break;
+          }
+          case VCTRS_FILTER_min: {
+            loc_upper_match_o_haystack = int_locate_upper_duplicate(
+              val_lower,
+              v_col,
+              v_o_haystack,
+              loc_lower_match_o_haystack,
+              loc_upper_match_o_haystack
+            );
+            break;
+          }
+          case VCTRS_FILTER_none: {
+            break;
+          }
+          }
+        }
+      }
+
       for (r_ssize i = loc_lower_duplicate_o_needles; i <= loc_upper_duplicate_o_needles; ++i) {
         const int loc_needles = v_o_needles[i] - 1;
         const int loc_first_match_o_haystack = r_dyn_int_get(p_loc_first_match_o_haystack, loc_needles);
-- 
2.43.0


From b5b1cb260e19e11df3e1e25e522991fc7a4def5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:45 +0000
Subject: [PATCH 09/28] fix: treat partially missing packed values as missing
 when matching

`vec_locate_matches()` relies on incomplete values being the smallest ones, but
partially missing rows of a packed column are ordered among complete rows, so
complete haystack rows were skipped in `>` and `>=` conditions.
---
 src/decl/match-decl.h |  9 +++++++++
 src/match.c           | 42 ++++++++++++++++++++++++++++++++++++++++--
 2 files changed, 49 insertions(+), 2 deletions(-)

diff --git a/src/decl/match-decl.h b/src/decl/match-decl.h
index 51d8979..ea1749f 100644
--- a/src/decl/match-decl.h
+++ b/src/decl/match-decl.h
@@ -115,9 +115,18 @@ struct vctrs_match_bounds int_locate_match(int val_needle,
                                            r_ssize loc_lower_bound_o_haystack,
                                            r_ssize loc_upper_bound_o_haystack);
 
+static
+void poke_complete_xtfrm(r_obj* xtfrm,
+                         r_obj* complete,
+                         r_ssize size,
+                         r_ssize x_size,
+                         r_ssize y_size);
+
 static
 r_obj* df_joint_xtfrm_by_col(r_obj* x,
                              r_obj* y,
+                             r_obj* x_complete,
+                             r_obj* y_complete,
                              r_ssize x_size,
                              r_ssize y_size,
                              r_ssize n_cols,
diff --git a/src/match.c b/src/match.c
index d98993e..ddd4b67 100644
--- a/src/match.c
+++ b/src/match.c
@@ -223,6 +223,8 @@ r_obj* vec_locate_matches(r_obj* needles,
   r_obj* args = KEEP_N(df_joint_xtfrm_by_col(
     needles,
     haystack,
+    needles_complete,
+    haystack_complete,
     size_needles,
     size_haystack,
     n_cols,
@@ -1177,9 +1179,38 @@ struct vctrs_match_bounds int_locate_match(int val_needle,
 
 // -----------------------------------------------------------------------------
 
+// Shift complete values past all incomplete values, without changing the order
+// within either of them
+static
+void poke_complete_xtfrm(r_obj* xtfrm,
+                         r_obj* complete,
+                         r_ssize size,
+                         r_ssize x_size,
+                         r_ssize y_size) {
+  int* v_xtfrm = r_int_begin(xtfrm);
+  const int* v_complete = r_lgl_cbegin(complete);
+
+  // There can't be more distinct values than this, which are counted from
+  // `INT_MIN + 1`
+  const int64_t shift = (int64_t) x_size + (int64_t) y_size;
+
+  if (INT_MIN + 2 * shift > INT_MAX) {
+    // Not enough room
+    return;
+  }
+
+  for (r_ssize i = 0; i < size; ++i) {
+    if (v_complete[i]) {
+      v_xtfrm[i] = (int) (v_xtfrm[i] + shift);
+    }
+  }
+}
+
 static
 r_obj* df_joint_xtfrm_by_col(r_obj* x,
                              r_obj* y,
+                             r_obj* x_complete,
+                             r_obj* y_complete,
                              r_ssize x_size,
                              r_ssize y_size,
                              r_ssize n_cols,
@@ -1200,8 +1231,15 @@ r_obj* df_joint_xtfrm_by_col(r_obj* x,
     r_obj* x_col = v_x[col];
     r_obj* y_col = v_y[col];
     r_obj* xtfrms = vec_joint_xtfrm(x_col, y_col, x_size, y_size, nan_distinct, chr_proxy_collate);
-    r_list_poke(x, col, r_list_get(xtfrms, 0));
-    r_list_poke(y, col, r_list_get(xtfrms, 1));
+    r_obj* x_xtfrm = r_list_get(xtfrms, 0);
+    r_obj* y_xtfrm = r_list_get(xtfrms, 1);
+    r_list_poke(x, col, x_xtfrm);
+    r_list_poke(y, col, y_xtfrm);
+
+    // Partially missing rows of packed columns are ordered among complete rows.
+    // Matching requires that all incomplete values are the smallest ones.
+    poke_complete_xtfrm(x_xtfrm, r_list_get(x_complete, col), x_size, x_size, y_size);
+    poke_complete_xtfrm(y_xtfrm, r_list_get(y_complete, col), y_size, x_size, y_size);
   }
 
   FREE(1);
-- 
2.43.0


From 1447d2e3ff88946f4ad51205bf5ab7ef30dc3f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:18 +0000
Subject: [PATCH 10/28] fix: repair names left as `...` once their position
 suffix is stripped

---
 src/names.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/names.c b/src/names.c
index 5f08908..21684c3 100644
--- a/src/names.c
+++ b/src/names.c
@@ -297,6 +297,12 @@ r_obj* as_unique_names_impl(r_obj* names, bool quiet) {
     int pos = suffix_pos(nm);
     if (pos >= 0) {
       elt = Rf_mkCharLenCE(nm, pos, Rf_getCharCE(elt));
+
+      // Stripping the suffix might reveal an invalid name, e.g. `......1`
+      if (needs_suffix(elt)) {
+        elt = strings_empty;
+      }
+
       r_chr_poke(new_names, i, elt);
       continue;
     }
-- 
2.43.0


From 3ae0c7c1f548c47ee9f0c52455f2cf3cd563da49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:18 +0000
Subject: [PATCH 11/28] fix: don't drop names that start like `..1` but aren't
 of that form

---
 src/names.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/names.c b/src/names.c
index 21684c3..fc7b79e 100644
--- a/src/names.c
+++ b/src/names.c
@@ -376,7 +376,9 @@ bool is_dotdotint(const char* name) {
     name += 2;
   }
 
-  return (bool) strtol(name, NULL, 10);
+  // Exclude names that only start with a number, e.g. `..1a`
+  char* end = NULL;
+  return isdigit((unsigned char) name[0]) && strtol(name, &end, 10) && *end == '\0';
 }
 
 static
-- 
2.43.0


From 584b24113b1c9cc23e0805fa1ee8fa6109cf5e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:18 +0000
Subject: [PATCH 12/28] fix: universal names are unique when a name looks like
 a position suffix

---
 R/names.R | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/R/names.R b/R/names.R
index 6a5755f..71a6cbe 100644
--- a/R/names.R
+++ b/R/names.R
@@ -323,7 +323,16 @@ as_universal_names <- function(names, quiet = FALSE) {
   new_names[!empty] <- make_syntactic(naked_names[!empty])
 
   needs_suffix <- empty | vec_duplicate_detect(new_names)
-  new_names <- append_pos(new_names, needs_suffix = needs_suffix)
+  out <- append_pos(new_names, needs_suffix = needs_suffix)
+
+  # Syntactic names might clash with names we have appended a position to
+  while (any(clash <- vec_duplicate_detect(out) & !needs_suffix)) {
+    new_names[clash] <- strip_pos(new_names[clash])
+    needs_suffix <- needs_suffix | clash
+    out <- append_pos(new_names, needs_suffix = needs_suffix)
+  }
+
+  new_names <- out
 
   if (!quiet) {
     describe_repair(names, new_names)
-- 
2.43.0


From 8b72aac8921e2839c29e8c713d0f952933b1a97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:01 +0000
Subject: [PATCH 13/28] fix: take fallback columns from the cast data frames in
 `vec_c()`

`df_c_fallback()` plucks columns by location but was given the uncast
inputs, whose columns may be missing or in another order.
---
 src/c.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/c.c b/src/c.c
index 8d20628..95dab7a 100644
--- a/src/c.c
+++ b/src/c.c
@@ -74,6 +74,14 @@ r_obj* vec_c_opts(r_obj* xs,
   r_obj* loc = KEEP(compact_seq(0, 0, true));
   int* p_loc = r_int_begin(loc);
 
+  // The columns that fall back to `c()` are taken from the cast inputs,
+  // in which they are at the same location
+  r_obj* xs_cast = r_null;
+  if (fallback_opts->s3 && is_data_frame(out) && df_needs_fallback(out)) {
+    xs_cast = r_alloc_list(xs_size);
+  }
+  KEEP(xs_cast);
+
   bool assign_names = !r_inherits(name_spec, "rlang_zap");
   r_obj* xs_names = KEEP(r_names(xs));
   bool xs_is_named = xs_names != r_null && !is_data_frame(ptype);
@@ -134,13 +142,21 @@ r_obj* vec_c_opts(r_obj* xs,
       FREE(2);
     }
 
-    if (!size) {
+    if (!size && xs_cast == r_null) {
       continue;
     }
 
     c_cast_opts.x = x;
     x = KEEP(vec_cast_opts(&c_cast_opts));
 
+    if (xs_cast != r_null) {
+      r_list_poke(xs_cast, i, x);
+    }
+    if (!size) {
+      FREE(1);
+      continue;
+    }
+
     // Total ownership of `out` because it was freshly created with `vec_init()`
     out = vec_proxy_assign_opts(out, loc, x, VCTRS_OWNED_true, &c_assign_opts);
     KEEP_AT(out, out_pi);
@@ -149,8 +165,8 @@ r_obj* vec_c_opts(r_obj* xs,
     FREE(1);
   }
 
-  if (is_data_frame(out) && fallback_opts->s3) {
-    df_c_fallback(out, ptype, xs, out_size, name_spec, name_repair, error_call);
+  if (xs_cast != r_null) {
+    df_c_fallback(out, ptype, xs_cast, out_size, name_spec, name_repair, error_call);
   }
   out = KEEP(vec_restore_recurse(out, ptype, VCTRS_OWNED_true));
 
@@ -165,7 +181,7 @@ r_obj* vec_c_opts(r_obj* xs,
     out = vec_set_names(out, r_null);
   }
 
-  FREE(8);
+  FREE(9);
   return out;
 }
 
-- 
2.43.0


From 7bc8a0d5a086444a1e7d07321dfc54b1b2c5d6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:01 +0000
Subject: [PATCH 14/28] fix: locate zero-size inputs properly in the `c()`
 fallback

`seq(n + 1, n + 0)` counts down, which selected wrong elements when an
unspecified input was combined with a zero-size one.
---
 R/c.R | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/R/c.R b/R/c.R
index 0838809..67d971b 100644
--- a/R/c.R
+++ b/R/c.R
@@ -118,10 +118,8 @@ fallback_is_unspecified <- function(x) {
 }
 
 c_locs <- function(xs) {
-  locs <- reduce(lengths(xs), .init = list(0), function(output, input) {
-    n <- last(last(output))
-    c(output, list(seq(n + 1, n + input)))
-  })
+  sizes <- lengths(xs)
+  starts <- cumsum(sizes) - sizes
 
-  locs[-1]
+  map2(starts, sizes, function(start, size) start + seq_len(size))
 }
-- 
2.43.0


From 99c7e46ef0e16a16f6f4044df3f4ed0a81a78f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:26 +0000
Subject: [PATCH 15/28] fix: recognise unspecified columns nested in data
 frames in the `c()` fallback

When a packed data frame was absent from an input of `vec_rbind()`, its
initialised columns weren't marked and the class was lost.
---
 src/cast.c            | 36 +++++++++++++++++++++++++++++++++++-
 src/cast.h            |  4 ++++
 src/decl/cast-decl.h  |  3 +++
 src/type-data-frame.c | 12 +-----------
 4 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/src/cast.c b/src/cast.c
index 395cec3..d292d35 100644
--- a/src/cast.c
+++ b/src/cast.c
@@ -40,7 +40,7 @@ r_obj* vec_cast_opts(const struct cast_opts* opts) {
   enum vctrs_type to_type = vec_typeof(to);
 
   if (x_type == VCTRS_TYPE_unspecified) {
-    return vec_init(to, vec_size(x));
+    return vec_init_unspecified(to, vec_size(x), &opts->fallback);
   }
 
   if (x_type == VCTRS_TYPE_scalar) {
@@ -73,6 +73,40 @@ r_obj* vec_cast_opts(const struct cast_opts* opts) {
   return out;
 }
 
+// Initialises a vector of type `to` in place of an unspecified or missing one.
+//
+// FIXME: We can't use an unspecified vector because we currently use
+// `vec_assign()` in `vec_rbind()` and `vec_c()` before falling back.
+// Attach an attribute to recognise unspecified vectors in
+// `base_c_invoke()`.
+r_obj* vec_init_unspecified(r_obj* to,
+                            r_ssize size,
+                            const struct fallback_opts* fallback) {
+  r_obj* out = KEEP(vec_init(to, size));
+
+  if (fallback->s3) {
+    mark_fallback_unspecified(out, to);
+  }
+
+  FREE(1);
+  return out;
+}
+
+static
+void mark_fallback_unspecified(r_obj* x, r_obj* to) {
+  if (vec_is_common_class_fallback(to)) {
+    r_attrib_poke(x, r_sym("vctrs:::unspecified"), r_true);
+    return;
+  }
+
+  if (is_data_frame(to) && is_data_frame(x)) {
+    r_ssize n = r_length(to);
+    for (r_ssize i = 0; i < n; ++i) {
+      mark_fallback_unspecified(r_list_get(x, i), r_list_get(to, i));
+    }
+  }
+}
+
 static
 r_obj* vec_cast_switch_native(const struct cast_opts* opts,
                               enum vctrs_type x_type,
diff --git a/src/cast.h b/src/cast.h
index 1b93627..4d55e4e 100644
--- a/src/cast.h
+++ b/src/cast.h
@@ -34,6 +34,10 @@ struct cast_common_opts {
 
 r_obj* vec_cast_opts(const struct cast_opts* opts);
 
+r_obj* vec_init_unspecified(r_obj* to,
+                            r_ssize size,
+                            const struct fallback_opts* fallback);
+
 static inline
 r_obj* vec_cast(r_obj* x,
                 r_obj* to,
diff --git a/src/decl/cast-decl.h b/src/decl/cast-decl.h
index a245529..202fb5a 100644
--- a/src/decl/cast-decl.h
+++ b/src/decl/cast-decl.h
@@ -1,3 +1,6 @@
+static
+void mark_fallback_unspecified(r_obj* x, r_obj* to);
+
 static
 r_obj* vec_cast_switch_native(const struct cast_opts* opts,
                               enum vctrs_type x_type,
diff --git a/src/type-data-frame.c b/src/type-data-frame.c
index 1e4c2d8..bed917d 100644
--- a/src/type-data-frame.c
+++ b/src/type-data-frame.c
@@ -725,17 +725,7 @@ r_obj* df_cast_match(const struct cast_opts* opts,
     r_obj* col;
     if (pos == r_globals.na_int) {
       r_obj* to_col = r_list_get(to, i);
-      col = vec_init(to_col, size);
-
-      // FIXME: Need to initialise the vector because we currently use
-      // `vec_assign()` in `vec_rbind()` before falling back. Attach
-      // an attribute to recognise unspecified vectors in
-      // `base_c_invoke()`.
-      if (opts->fallback.s3 && vec_is_common_class_fallback(to_col)) {
-        KEEP(col);
-        r_attrib_poke(col, r_sym("vctrs:::unspecified"), r_true);
-        FREE(1);
-      }
+      col = vec_init_unspecified(to_col, size, &opts->fallback);
     } else {
       --pos; // 1-based index
       ++common_len;
-- 
2.43.0


From 370d3d1b2b1794dd86a2ee5aee25c4d481297c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:00 +0000
Subject: [PATCH 16/28] fix: put fallback columns in place in `list_unchop()`
 with indices

Columns of data frames that fall back to `c()` ignored `indices`, and
`NULL` inputs shifted the locations of other foreign class inputs.
---
 src/c-unchop.c           | 119 ++++++++++++++++++++++++++++++---------
 src/c.c                  |   1 -
 src/c.h                  |   1 +
 src/decl/c-decl.h        |   2 -
 src/decl/c-unchop-decl.h |  11 ++++
 5 files changed, 105 insertions(+), 29 deletions(-)

diff --git a/src/c-unchop.c b/src/c-unchop.c
index 7fc6504..0683667 100644
--- a/src/c-unchop.c
+++ b/src/c-unchop.c
@@ -75,6 +75,19 @@ r_obj* list_unchop(r_obj* xs,
     return r_null;
   }
 
+  if (is_data_frame(ptype) && df_needs_fallback(ptype)) {
+    r_obj* out = list_unchop_df_fallback(
+      xs,
+      indices,
+      name_spec,
+      name_repair,
+      p_error_arg,
+      error_call
+    );
+    FREE(1);
+    return out;
+  }
+
   bool assign_names = !r_inherits(name_spec, "rlang_zap");
   r_obj* xs_names = KEEP(r_names(xs));
   bool xs_is_named = xs_names != r_null && !is_data_frame(ptype);
@@ -163,9 +176,6 @@ r_obj* list_unchop(r_obj* xs,
     FREE(2);
   }
 
-  if (is_data_frame(proxy)) {
-    df_c_fallback(proxy, ptype, xs, out_size, name_spec, name_repair, error_call);
-  }
   r_obj* out = KEEP(vec_restore_recurse(proxy, ptype, VCTRS_OWNED_true));
 
   if (out_names != r_null) {
@@ -263,43 +273,100 @@ r_obj* list_unchop_fallback(r_obj* ptype,
     out = KEEP(vec_c_fallback(ptype, xs, name_spec, name_repair, p_error_arg, error_call));
   }
 
-  const struct name_repair_opts name_repair_opts = {
-    .type = NAME_REPAIR_none,
-    .fn = r_null,
-    .call = error_call
-  };
+  r_obj* locations = KEEP(list_unchop_locations(xs, indices, out_size));
 
-  indices = KEEP(vec_c(
-    indices,
-    r_globals.empty_int,
+  out = KEEP(vec_slice_fallback(out, locations));
+
+  FREE(6);
+  return out;
+}
+
+// For data frames with columns that fall back to `c()`. The inputs are
+// combined in order and the result is sliced.
+static
+r_obj* list_unchop_df_fallback(r_obj* xs,
+                               r_obj* indices,
+                               r_obj* name_spec,
+                               const struct name_repair_opts* name_repair,
+                               struct vctrs_arg* p_error_arg,
+                               struct r_lazy error_call) {
+  r_ssize xs_size = vec_size(xs);
+  r_obj* xs_names = r_names(xs);
+  xs = KEEP(r_clone_referenced(xs));
+
+  r_ssize out_size = 0;
+  for (r_ssize i = 0; i < xs_size; ++i) {
+    out_size += r_length(r_list_get(indices, i));
+  }
+
+  indices = KEEP(list_as_locations(indices, out_size, r_null));
+
+  r_ssize i = 0;
+
+  struct vctrs_arg* p_x_arg = new_subscript_arg(
+    p_error_arg,
+    xs_names,
+    xs_size,
+    &i
+  );
+  KEEP(p_x_arg->shelter);
+
+  // Recycle `xs` elements to the size of their corresponding index
+  for (; i < xs_size; ++i) {
+    r_obj* x = r_list_get(xs, i);
+
+    if (x != r_null) {
+      r_ssize size = r_length(r_list_get(indices, i));
+      r_list_poke(xs, i, vec_check_recycle(x, size, p_x_arg, error_call));
+    }
+  }
+
+  r_obj* out = KEEP(vec_c(
+    xs,
     r_null,
-    &name_repair_opts,
-    vec_args.indices,
+    name_spec,
+    name_repair,
+    p_error_arg,
     error_call
   ));
 
-  const int* p_indices = r_int_cbegin(indices);
+  r_obj* locations = KEEP(list_unchop_locations(xs, indices, out_size));
+  out = vec_slice(out, locations);
+
+  FREE(5);
+  return out;
+}
 
-  r_obj* locations = KEEP(r_alloc_integer(out_size));
-  int* p_locations = r_int_begin(locations);
+// Locations, within the combined `xs`, of the elements of the result
+static
+r_obj* list_unchop_locations(r_obj* xs, r_obj* indices, r_ssize out_size) {
+  r_obj* out = KEEP(r_alloc_integer(out_size));
+  int* v_out = r_int_begin(out);
 
   // Initialize with missing to handle locations that are never selected
-  for (r_ssize i = 0; i < out_size; ++i) {
-    p_locations[i] = r_globals.na_int;
-  }
+  r_int_fill(out, r_globals.na_int, out_size);
 
-  for (r_ssize i = 0; i < out_size; ++i) {
-    const int index = p_indices[i];
+  r_ssize n = r_length(xs);
+  int counter = 0;
 
-    if (index == r_globals.na_int) {
+  for (r_ssize i = 0; i < n; ++i) {
+    if (r_list_get(xs, i) == r_null) {
       continue;
     }
 
-    p_locations[index - 1] = i + 1;
-  }
+    r_obj* loc = r_list_get(indices, i);
+    const int* v_loc = r_int_cbegin(loc);
+    r_ssize loc_size = r_length(loc);
 
-  out = KEEP(vec_slice_fallback(out, locations));
+    for (r_ssize j = 0; j < loc_size; ++j) {
+      ++counter;
 
-  FREE(7);
+      if (v_loc[j] != r_globals.na_int) {
+        v_out[v_loc[j] - 1] = counter;
+      }
+    }
+  }
+
+  FREE(1);
   return out;
 }
diff --git a/src/c.c b/src/c.c
index 95dab7a..e33d345 100644
--- a/src/c.c
+++ b/src/c.c
@@ -441,7 +441,6 @@ void df_c_fallback(r_obj* out,
   FREE(n_prot);
 }
 
-static
 bool df_needs_fallback(r_obj* x) {
   r_ssize n_cols = r_length(x);
   r_obj* const * v_x = r_list_cbegin(x);
diff --git a/src/c.h b/src/c.h
index 91aecdb..aab3e5d 100644
--- a/src/c.h
+++ b/src/c.h
@@ -41,6 +41,7 @@ void df_c_fallback(r_obj* out,
                    r_obj* name_spec,
                    const struct name_repair_opts* name_repair,
                    struct r_lazy error_call);
+bool df_needs_fallback(r_obj* x);
 
 
 #endif
diff --git a/src/decl/c-decl.h b/src/decl/c-decl.h
index 0cde5aa..ba3b789 100644
--- a/src/decl/c-decl.h
+++ b/src/decl/c-decl.h
@@ -7,5 +7,3 @@ int vec_c_fallback_validate_args(r_obj* x, r_obj* name_spec);
 static
 void stop_vec_c_fallback(r_obj* xs, int err_type, struct r_lazy call);
 
-static
-bool df_needs_fallback(r_obj* x);
diff --git a/src/decl/c-unchop-decl.h b/src/decl/c-unchop-decl.h
index 04ed327..8a0a260 100644
--- a/src/decl/c-unchop-decl.h
+++ b/src/decl/c-unchop-decl.h
@@ -16,3 +16,14 @@ r_obj* list_unchop_fallback(r_obj* ptype,
                             enum fallback_homogeneous homogenous,
                             struct vctrs_arg* p_error_arg,
                             struct r_lazy error_call);
+
+static
+r_obj* list_unchop_df_fallback(r_obj* xs,
+                               r_obj* indices,
+                               r_obj* name_spec,
+                               const struct name_repair_opts* name_repair,
+                               struct vctrs_arg* p_error_arg,
+                               struct r_lazy error_call);
+
+static
+r_obj* list_unchop_locations(r_obj* xs, r_obj* indices, r_ssize out_size);
-- 
2.43.0


From 29732a885cadda64919308ec97d0eb102794e089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:10 +0000
Subject: [PATCH 17/28] fix: leave row names empty for unnamed inputs of
 `vec_rbind()`

The check for the shared empty name looked at the inner names, so that an
unnamed input next to a named one failed with an internal size error.
---
 src/bind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bind.c b/src/bind.c
index e13cb4b..57787b9 100644
--- a/src/bind.c
+++ b/src/bind.c
@@ -219,7 +219,7 @@ r_obj* vec_rbind(r_obj* xs,
 
         // If there is no name to assign, skip the assignment since
         // `out_names` already contains empty strings
-        if (inner != chrs_empty) {
+        if (x_nms != chrs_empty) {
           row_names = chr_assign(row_names, loc, x_nms, VCTRS_OWNED_true);
           KEEP_AT(row_names, rownames_pi);
         }
-- 
2.43.0


From 6176be528b1b314e786cb8a435a26353866c8ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:53 +0000
Subject: [PATCH 18/28] fix: don't assign in place into columns shared by a
 fresh data frame proxy

`vec_assign()` and `vec_slice<-` treated the proxy as recursively owned when
it was unreferenced. A `vec_proxy()` method that returns a fresh data frame
made of the fields of `x`, like the one for `vctrs_rcrd`, had these fields
overwritten in `x` itself.
---
 src/slice-assign.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/slice-assign.c b/src/slice-assign.c
index 9508f0a..4cbae7b 100644
--- a/src/slice-assign.c
+++ b/src/slice-assign.c
@@ -33,7 +33,11 @@ r_obj* vec_assign_opts(r_obj* x,
 
   r_obj* proxy = KEEP(vec_proxy(x));
   const enum vctrs_owned owned = vec_owned(proxy);
-  proxy = KEEP(vec_proxy_assign_opts(proxy, index, value, owned, &opts));
+
+  // Ownership is recursive, but the columns of a fresh data frame proxy
+  // created by a `vec_proxy()` method may still belong to `x`
+  const enum vctrs_owned proxy_owned = is_data_frame(proxy) ? VCTRS_OWNED_false : owned;
+  proxy = KEEP(vec_proxy_assign_opts(proxy, index, value, proxy_owned, &opts));
 
   r_obj* out = vec_restore(proxy, x, owned);
 
-- 
2.43.0


From 3734d6320f3a0184eac42d86105cd82ff26ef157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:21 +0000
Subject: [PATCH 19/28] fix: keep missingness when hashing a raw column after a
 missing one

With `na_equal = FALSE`, a row that was already known to be missing had its
marker overwritten by the hash of a following raw column, so `vec_match()` and
`vec_in()` returned an answer for it instead of propagating the missing value.
---
 src/hash.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/hash.c b/src/hash.c
index e02745b..a7afda3 100644
--- a/src/hash.c
+++ b/src/hash.c
@@ -355,7 +355,16 @@ static inline void raw_hash_fill_na_equal(uint32_t* p, R_len_t size, SEXP x) {
   HASH_FILL(Rbyte, RAW_RO, raw_hash_scalar);
 }
 static inline void raw_hash_fill_na_propagate(uint32_t* p, R_len_t size, SEXP x) {
-  HASH_FILL(Rbyte, RAW_RO, raw_hash_scalar);
+  // Raw vectors can't be missing, but previous columns can
+  const Rbyte* xp = RAW_RO(x);
+
+  for (R_len_t i = 0; i < size; ++i, ++xp) {
+    uint32_t h = p[i];
+    if (h == HASH_MISSING) {
+      continue;
+    }
+    p[i] = hash_combine(h, raw_hash_scalar(xp));
+  }
 }
 
 #undef HASH_FILL_NA_PROPAGATE_CMP
-- 
2.43.0


From a9d3ab114f1d4f5c87e04341d3c0627ab6f4ebca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:38 +0000
Subject: [PATCH 20/28] fix: give each `[` call its own index when chopping
 with a fallback

---
 src/slice-chop.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/slice-chop.c b/src/slice-chop.c
index 1def91a..437a088 100644
--- a/src/slice-chop.c
+++ b/src/slice-chop.c
@@ -427,8 +427,11 @@ r_obj* chop_fallback(r_obj* x, struct vctrs_chop_indices* p_indices) {
   for (r_ssize i = 0; i < out_size; ++i) {
     r_obj* index = indices_next(p_indices);
 
+    // The index is reused across iterations, so methods need their own copy
     if (is_compact(index)) {
       index = compact_materialize(index);
+    } else if (!p_indices->has_indices) {
+      index = r_clone(index);
     }
     KEEP(index);
 
@@ -457,8 +460,11 @@ r_obj* chop_fallback_shaped(r_obj* x, struct vctrs_chop_indices* p_indices) {
   for (r_ssize i = 0; i < out_size; ++i) {
     r_obj* index = indices_next(p_indices);
 
+    // The index is reused across iterations, so methods need their own copy
     if (is_compact(index)) {
       index = compact_materialize(index);
+    } else if (!p_indices->has_indices) {
+      index = r_clone(index);
     }
     KEEP(index);
 
-- 
2.43.0


From a86415489583574fafc0fcc7e7d6105fa8bc429c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:22 +0000
Subject: [PATCH 21/28] fix: reject a named zero in `vec_as_location2()`

---
 R/subscript-loc.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/subscript-loc.R b/R/subscript-loc.R
index 3e529f0..9705c8d 100644
--- a/R/subscript-loc.R
+++ b/R/subscript-loc.R
@@ -241,7 +241,8 @@ vec_as_location2_result <- function(i,
     return(result)
   }
 
-  if (identical(i, 0L)) {
+  # `i` might be named, so `identical(i, 0L)` would be too strict
+  if (typeof(i) == "integer" && i == 0L) {
     return(result(err = new_error_location2_type(
       i = i,
       subscript_arg = arg,
-- 
2.43.0


From f4889ae77a4a7ecd4368dc52ff2110075cfbe607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:47 +0000
Subject: [PATCH 22/28] fix: return an integer location for a missing name in
 `vec_as_location2()`

---
 R/subscript-loc.R | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/R/subscript-loc.R b/R/subscript-loc.R
index 9705c8d..b7dbd0b 100644
--- a/R/subscript-loc.R
+++ b/R/subscript-loc.R
@@ -236,7 +236,8 @@ vec_as_location2_result <- function(i,
         call = call
       ))
     } else {
-      result <- result(i)
+      # Missing names are at a missing location
+      result <- result(if (is.character(i)) set_names(NA_integer_, names(i)) else i)
     }
     return(result)
   }
-- 
2.43.0


From a67047fd810e9c80004775c9be9ddeedfd6d0acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:52 +0000
Subject: [PATCH 23/28] fix: don't reuse an index that a `[` method may have
 kept in set operations

---
 src/set.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/set.c b/src/set.c
index 5281b31..93c5c8d 100644
--- a/src/set.c
+++ b/src/set.c
@@ -390,7 +390,8 @@ r_obj* vec_set_union(r_obj* x,
     n_marked -= in_x;
   }
 
-  loc = KEEP_N(r_int_resize(loc, n_marked), &n_prot);
+  // `loc` might have been retained by a `[` method
+  loc = KEEP_N(r_alloc_integer(n_marked), &n_prot);
   v_loc = r_int_begin(loc);
   j = 0;
 
@@ -569,10 +570,10 @@ r_obj* vec_set_symmetric_difference(r_obj* x,
     }
   }
 
-  // Slice out `x`, then reuse `loc` for slicing `y`
   x = KEEP_N(vec_slice_unsafe(x, loc), &n_prot);
 
-  loc = KEEP_N(r_int_resize(loc, n_y_marked), &n_prot);
+  // `loc` might have been retained by a `[` method
+  loc = KEEP_N(r_alloc_integer(n_y_marked), &n_prot);
   v_loc = r_int_begin(loc);
   j = 0;
 
-- 
2.43.0


From 26ab508624dde7d7f5cbcf50a7e2a040cf7aadd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:52 +0000
Subject: [PATCH 24/28] fix: don't assign in place into a kept proxy in
 `vec_c()`

---
 src/c.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/c.c b/src/c.c
index e33d345..9d802f8 100644
--- a/src/c.c
+++ b/src/c.c
@@ -64,11 +64,13 @@ r_obj* vec_c_opts(r_obj* xs,
     p_sizes[i] = size;
   }
 
-  r_obj* out = vec_init(ptype, out_size);
+  // Proxy before initialising so that `out` is fresh. The result of a
+  // `vec_proxy()` method might be referenced elsewhere.
+  r_obj* out = vec_proxy_recurse(ptype);
   r_keep_loc out_pi;
   KEEP_HERE(out, &out_pi);
 
-  out = vec_proxy_recurse(out);
+  out = vec_init(out, out_size);
   KEEP_AT(out, out_pi);
 
   r_obj* loc = KEEP(compact_seq(0, 0, true));
-- 
2.43.0


From 044b51800a3f2785027ac5e40cdafcc268fb7879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:24 +0000
Subject: [PATCH 25/28] fix: keep factors with equal levels as is when casting,
 whether or not the levels share memory

---
 src/type-factor.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/type-factor.c b/src/type-factor.c
index 18a23ba..ab8469b 100644
--- a/src/type-factor.c
+++ b/src/type-factor.c
@@ -309,6 +309,11 @@ static SEXP fct_as_factor_impl(SEXP x, SEXP x_levels, SEXP to_levels, bool* loss
     }
   }
 
+  // Early exit if levels are equal, whether or not they share memory
+  if (is_contiguous_subset && x_levels_size == to_levels_size) {
+    return x;
+  }
+
   // No recoding required if contiguous subset.
   // Duplicate, strip non-factor attributes, and re-initialize with new levels.
   // Using `r_clone_referenced()` avoids an immediate copy using ALTREP wrappers.
-- 
2.43.0


From ff4f871b751262deb6f066dd22b7cc8e770c3126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:20 +0000
Subject: [PATCH 26/28] fix: out of bounds locations in `[` on an
 unmaterialised run-length vector

`Extract_subset` returned the last element instead of `NA` for locations past
the end, unlike the default method used once the vector is materialised.
---
 src/altrep-rle.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/altrep-rle.c b/src/altrep-rle.c
index 1b712db..8016a17 100644
--- a/src/altrep-rle.c
+++ b/src/altrep-rle.c
@@ -109,6 +109,7 @@ SEXP altrep_rle_Extract_subset(SEXP x, SEXP indx, SEXP call) {
 
   int* index_data = INTEGER(indx);
   R_xlen_t index_n = Rf_length(indx);
+  R_xlen_t size = altrep_rle_Length(x);
 
   int* rle_data = INTEGER(data1);
   R_xlen_t rle_n = Rf_length(data1);
@@ -119,7 +120,8 @@ SEXP altrep_rle_Extract_subset(SEXP x, SEXP indx, SEXP call) {
   for (R_len_t i = 0; i < index_n; ++i) {
     int index_elt = index_data[i];
 
-    if (index_elt == NA_INTEGER) {
+    // Like the default method, out of bounds locations extract `NA`
+    if (index_elt == NA_INTEGER || index_elt > size) {
       SET_STRING_ELT(out, i, NA_STRING);
       continue;
     }
-- 
2.43.0


From 52926b38b95a3833f985fa33c8b7b117640375a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:25 +0000
Subject: [PATCH 27/28] fix: lazy character vectors whose function returns an
 ALTREP vector

The data pointer of the materialised vector was taken with `STDVEC_DATAPTR()`,
which errors when `fn()` returned a deferred string, a wrapper, or another lazy
vector (e.g. `new_lazy_character(function() as.character(1:3))`).
---
 src/altrep-lazy-character.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/altrep-lazy-character.c b/src/altrep-lazy-character.c
index 7dc5efa..2087185 100644
--- a/src/altrep-lazy-character.c
+++ b/src/altrep-lazy-character.c
@@ -45,15 +45,26 @@ r_obj* altrep_lazy_character_Materialize(r_obj* vec) {
   r_obj* call = KEEP(r_new_call(fn, r_null));
 
   // `fn()` evaluated in the global environment
-  out = r_eval(call, r_envs.global);
+  out = KEEP(r_eval(call, r_envs.global));
 
   if (r_typeof(out) != R_TYPE_character) {
     r_stop_internal("`fn` must evaluate to a character vector.");
   }
 
+  // `STDVEC_DATAPTR()` needs a standard vector, `fn()` may return an ALTREP one
+  if (ALTREP(out)) {
+    const r_ssize size = r_length(out);
+    r_obj* std = KEEP(r_alloc_character(size));
+    for (r_ssize i = 0; i < size; ++i) {
+      r_chr_poke(std, i, STRING_ELT(out, i));
+    }
+    FREE(1);
+    out = std;
+  }
+
   R_set_altrep_data2(vec, out);
 
-  UNPROTECT(1);
+  FREE(2);
   return out;
 }
 
-- 
2.43.0


From 0b14e9308bc39dc2efbe577f9771d160fa831112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:52 +0000
Subject: [PATCH 28/28] fix: NaN is a missing value, not a lossy location, when
 casting double to logical

---
 R/type-bare.R | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/R/type-bare.R b/R/type-bare.R
index 84cf6e4..ba786c9 100644
--- a/R/type-bare.R
+++ b/R/type-bare.R
@@ -218,7 +218,7 @@ vec_cast.logical.double <- function(x,
     to_arg = to_arg,
     call = call
   )
-  lossy <- !x %in% c(0, 1, NA_real_)
+  lossy <- !x %in% c(0, 1, NA_real_, NaN)
   maybe_lossy_cast(
     out,
     x,
-- 
2.43.0

