From 80d72d67f268590106d7b9d36c4c633b74f4d549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:00 +0000
Subject: [PATCH 01/31] fix: merge iterator returned the same key again, with a
 stale version, after a change of direction

---
 src/merge.c | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/merge.c b/src/merge.c
index c764477..063e65a 100644
--- a/src/merge.c
+++ b/src/merge.c
@@ -621,18 +621,43 @@ merge_iterator_set_direction(merge_iterator *merge_itor, bool32 forwards)
 {
    debug_assert(merge_itor->forwards != forwards);
    platform_status rc;
+
+   /*
+    * If we are currently positioned on a (merged) key, remember it: the
+    * iterators that contributed the newer versions of this key have already
+    * moved past it, so stepping them once in the new direction brings them
+    * back to it, and they have to be stepped over it once more.  This needs a
+    * copy because stepping the iterators releases the memory of curr_key.
+    */
+   bool32 skip_curr = merge_itor->merge_messages && merge_itor->can_prev
+                      && merge_itor->can_next;
+   KEY_CREATE_LOCAL_COPY(rc,
+                         old_key,
+                         PROCESS_PRIVATE_HEAP_ID,
+                         skip_curr ? merge_itor->curr_key
+                                   : NEGATIVE_INFINITY_KEY);
+   if (!SUCCESS(rc)) {
+      return rc;
+   }
    merge_itor->forwards = forwards;
 
    // Step every iterator, both alive and dead, in the appropriate direction.
    for (int i = 0; i < merge_itor->num_trees; i++) {
-      if (forwards && iterator_can_next(merge_itor->ordered_iterators[i]->itor))
-      {
-         iterator_next(merge_itor->ordered_iterators[i]->itor);
-      }
-      if (!forwards
-          && iterator_can_prev(merge_itor->ordered_iterators[i]->itor))
-      {
-         iterator_prev(merge_itor->ordered_iterators[i]->itor);
+      iterator *itor = merge_itor->ordered_iterators[i]->itor;
+      while (forwards ? iterator_can_next(itor) : iterator_can_prev(itor)) {
+         rc = forwards ? iterator_next(itor) : iterator_prev(itor);
+         if (!SUCCESS(rc)) {
+            return rc;
+         }
+         if (!skip_curr || !iterator_can_curr(itor)) {
+            break;
+         }
+         key     new_key;
+         message new_data;
+         iterator_curr(itor, &new_key, &new_data);
+         if (data_key_compare(merge_itor->cfg, new_key, old_key) != 0) {
+            break;
+         }
       }
    }
 
-- 
2.43.0


From 5124f82c3b2abbfa86b0afbf131d300cdb7fce49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:00 +0000
Subject: [PATCH 02/31] fix: merge iterator kept stale equal-key marks across a
 change of direction and merged different keys

---
 src/merge.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/merge.c b/src/merge.c
index 063e65a..4b6438e 100644
--- a/src/merge.c
+++ b/src/merge.c
@@ -456,6 +456,9 @@ setup_ordered_iterators(merge_iterator *merge_itor)
                       &merge_args,
                       &temp);
    // Generate initial value for next_key_equal bits
+   for (int i = 0; i < merge_itor->num_trees; ++i) {
+      merge_itor->ordered_iterators[i]->next_key_equal = FALSE;
+   }
    for (int i = 0; i + 1 < merge_itor->num_remaining; ++i) {
       int cmp =
          data_key_compare(merge_itor->cfg,
-- 
2.43.0


From 2f9f689e7538f8f7d2d382893c63882b6c072ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:00 +0000
Subject: [PATCH 03/31] fix: btree iterator started between two leaves could
 not move back into the earlier leaf

---
 src/btree.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/btree.c b/src/btree.c
index 55752cf..5dc809e 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -2858,8 +2858,14 @@ find_btree_node_and_get_idx_bounds(btree_iterator *itor,
    if (itor->curr.addr != itor->end_addr
        && itor->idx == btree_num_entries(itor->curr.hdr))
    {
+      // The leaf we come from is irrelevant iff it has no keys >= min_key.
+      // Otherwise, we must still be able to move back into it.
+      bool32 irrelevant =
+         itor->curr_min_idx == btree_num_entries(itor->curr.hdr);
       btree_iterator_next_leaf(itor);
-      itor->curr_min_idx = 0; // we came from an irrelevant leaf
+      if (irrelevant) {
+         itor->curr_min_idx = 0;
+      }
    }
    if (itor->curr_min_idx == -1 && itor->idx == -1) {
       btree_iterator_prev_leaf(itor);
-- 
2.43.0


From 80b8ff2f2dd8822fe6e9ab29c21d05b799b19f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:17 +0000
Subject: [PATCH 04/31] fix: backward iteration into an earlier trunk leaf
 returned a wrong key and skipped the right one

---
 src/merge.c | 20 +++++++++++++++++++-
 src/merge.h |  9 +++++++++
 src/trunk.c | 16 ++++++++++------
 3 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/src/merge.c b/src/merge.c
index 4b6438e..59e1b00 100644
--- a/src/merge.c
+++ b/src/merge.c
@@ -510,9 +510,14 @@ setup_ordered_iterators(merge_iterator *merge_itor)
 /*
  *-----------------------------------------------------------------------------
  * merge_iterator_create --
+ * merge_iterator_create_directed --
  *
  *      Initialize a merge iterator for a forest of B-trees.
  *
+ *      A merge iterator created to go forwards starts at the smallest of the
+ *      keys the input iterators are positioned at, one created to go backwards
+ *      starts at the largest.
+ *
  *      Prerequisite:
  *         All input iterators must be homogeneous for data_type
  *
@@ -527,6 +532,19 @@ merge_iterator_create(platform_heap_id hid,
                       iterator       **itor_arr,
                       merge_behavior   merge_mode,
                       merge_iterator **out_itor)
+{
+   return merge_iterator_create_directed(
+      hid, cfg, num_trees, itor_arr, merge_mode, TRUE, out_itor);
+}
+
+platform_status
+merge_iterator_create_directed(platform_heap_id hid,
+                               data_config     *cfg,
+                               int              num_trees,
+                               iterator       **itor_arr,
+                               merge_behavior   merge_mode,
+                               bool32           forwards,
+                               merge_iterator **out_itor)
 {
    int             i;
    platform_status rc = STATUS_OK;
@@ -565,7 +583,7 @@ merge_iterator_create(platform_heap_id hid,
 
    merge_itor->cfg      = cfg;
    merge_itor->curr_key = NULL_KEY;
-   merge_itor->forwards = TRUE;
+   merge_itor->forwards = forwards;
 
    // index -1 initializes the pad variable
    for (i = -1; i < num_trees; i++) {
diff --git a/src/merge.h b/src/merge.h
index 0556e0f..4f494ba 100644
--- a/src/merge.h
+++ b/src/merge.h
@@ -101,6 +101,15 @@ merge_iterator_create(platform_heap_id hid,
                       merge_behavior   merge_mode,
                       merge_iterator **out_itor);
 
+platform_status
+merge_iterator_create_directed(platform_heap_id hid,
+                               data_config     *cfg,
+                               int              num_trees,
+                               iterator       **itor_arr,
+                               merge_behavior   merge_mode,
+                               bool32           forwards,
+                               merge_iterator **out_itor);
+
 platform_status
 merge_iterator_destroy(platform_heap_id hid, merge_iterator **merge_itor);
 
diff --git a/src/trunk.c b/src/trunk.c
index 8104068..ee51d74 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -6329,12 +6329,16 @@ trunk_range_iterator_init(trunk_handle         *spl,
       range_itor->itor[i] = &btree_itor->super;
    }
 
-   platform_status rc = merge_iterator_create(spl->heap_id,
-                                              spl->cfg.data_cfg,
-                                              range_itor->num_branches,
-                                              range_itor->itor,
-                                              MERGE_FULL,
-                                              &range_itor->merge_itor);
+   // The iterators are positioned on the side of start_key that start_type
+   // asks for, so the merge must start on that side as well.
+   platform_status rc =
+      merge_iterator_create_directed(spl->heap_id,
+                                     spl->cfg.data_cfg,
+                                     range_itor->num_branches,
+                                     range_itor->itor,
+                                     MERGE_FULL,
+                                     start_type >= greater_than,
+                                     &range_itor->merge_itor);
    if (!SUCCESS(rc)) {
       return rc;
    }
-- 
2.43.0


From a7900c0775653b0af11224af35acc3d292d0e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:39 +0000
Subject: [PATCH 05/31] fix: range iterator used leaf bounds in the trunk page
 after releasing it

---
 src/trunk.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index ee51d74..b8bba51 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -6279,18 +6279,19 @@ trunk_range_iterator_init(trunk_handle         *spl,
    }
 
    // have a leaf, use to establish local bounds
-   key local_min =
+   // (these point into the leaf, so they are only valid until it is released)
+   key leaf_local_min =
       trunk_key_compare(spl, trunk_min_key(spl, &node), min_key) > 0
          ? trunk_min_key(spl, &node)
          : min_key;
-   key local_max =
+   key leaf_local_max =
       trunk_key_compare(spl, trunk_max_key(spl, &node), max_key) < 0
          ? trunk_max_key(spl, &node)
          : max_key;
    key_buffer_init_from_key(
-      &range_itor->local_min_key, spl->heap_id, local_min);
+      &range_itor->local_min_key, spl->heap_id, leaf_local_min);
    key_buffer_init_from_key(
-      &range_itor->local_max_key, spl->heap_id, local_max);
+      &range_itor->local_max_key, spl->heap_id, leaf_local_max);
 
    trunk_node_unget(spl->cc, &node);
 
@@ -6350,6 +6351,13 @@ trunk_range_iterator_init(trunk_handle         *spl,
     * db/range, move to prev/next leaf
     */
    if (!in_range && start_type >= greater_than) {
+      KEY_CREATE_LOCAL_COPY(rc,
+                            local_max,
+                            spl->heap_id,
+                            key_buffer_key(&range_itor->local_max_key));
+      if (!SUCCESS(rc)) {
+         return rc;
+      }
       if (trunk_key_compare(spl, local_max, max_key) < 0) {
          trunk_range_iterator_deinit(range_itor);
          rc = trunk_range_iterator_init(spl,
@@ -6369,6 +6377,13 @@ trunk_range_iterator_init(trunk_handle         *spl,
       }
    }
    if (!in_range && start_type <= less_than_or_equal) {
+      KEY_CREATE_LOCAL_COPY(rc,
+                            local_min,
+                            spl->heap_id,
+                            key_buffer_key(&range_itor->local_min_key));
+      if (!SUCCESS(rc)) {
+         return rc;
+      }
       if (trunk_key_compare(spl, local_min, min_key) > 0) {
          trunk_range_iterator_deinit(range_itor);
          rc = trunk_range_iterator_init(spl,
-- 
2.43.0


From 08894c51b30c0e1af72e1c3109982f2128c4e272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:35 +0000
Subject: [PATCH 06/31] fix: range iterator reported no way back (or forward)
 from an end whose trunk leaf holds no keys

---
 src/trunk.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index b8bba51..6aa5159 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -6372,8 +6372,12 @@ trunk_range_iterator_init(trunk_handle         *spl,
          }
       } else {
          range_itor->can_next = FALSE;
+         // even if there is nothing in this leaf, there may be in earlier ones
          range_itor->can_prev =
-            iterator_can_prev(&range_itor->merge_itor->super);
+            iterator_can_prev(&range_itor->merge_itor->super)
+            || trunk_key_compare(
+                  spl, key_buffer_key(&range_itor->local_min_key), min_key)
+                  > 0;
       }
    }
    if (!in_range && start_type <= less_than_or_equal) {
@@ -6398,8 +6402,12 @@ trunk_range_iterator_init(trunk_handle         *spl,
          }
       } else {
          range_itor->can_prev = FALSE;
+         // even if there is nothing in this leaf, there may be in later ones
          range_itor->can_next =
-            iterator_can_next(&range_itor->merge_itor->super);
+            iterator_can_next(&range_itor->merge_itor->super)
+            || trunk_key_compare(
+                  spl, key_buffer_key(&range_itor->local_max_key), max_key)
+                  < 0;
       }
    }
    return rc;
@@ -6420,7 +6428,10 @@ trunk_range_iterator_next(iterator *itor)
    debug_assert(range_itor != NULL);
    platform_assert(range_itor->can_next);
 
-   platform_status rc = iterator_next(&range_itor->merge_itor->super);
+   platform_status rc = STATUS_OK;
+   if (iterator_can_next(&range_itor->merge_itor->super)) {
+      rc = iterator_next(&range_itor->merge_itor->super);
+   }
    if (!SUCCESS(rc)) {
       return rc;
    }
@@ -6479,7 +6490,10 @@ trunk_range_iterator_prev(iterator *itor)
    debug_assert(itor != NULL);
    platform_assert(range_itor->can_prev);
 
-   platform_status rc = iterator_prev(&range_itor->merge_itor->super);
+   platform_status rc = STATUS_OK;
+   if (iterator_can_prev(&range_itor->merge_itor->super)) {
+      rc = iterator_prev(&range_itor->merge_itor->super);
+   }
    if (!SUCCESS(rc)) {
       return rc;
    }
-- 
2.43.0


From 15d4b86878af3840146fa94e298c4cd3987e75c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:02 +0000
Subject: [PATCH 07/31] fix: reopening with a reclaim threshold used space
 reclamation queue positions left from before the close

---
 src/trunk.c | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/trunk.c b/src/trunk.c
index 6aa5159..3e473c3 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -7789,6 +7789,27 @@ trunk_create(trunk_config     *cfg,
    return spl;
 }
 
+/*
+ * The space reclamation queue is not persistent, so the queue positions that
+ * pivots recorded while the database was last mounted mean nothing now.
+ */
+static bool32
+trunk_node_forget_srq_positions(trunk_handle *spl, uint64 addr, void *arg)
+{
+   trunk_node node;
+   trunk_node_get(spl->cc, addr, &node);
+   trunk_node_claim(spl->cc, &node);
+   trunk_node_lock(spl->cc, &node);
+   uint16 num_children = trunk_num_children(spl, &node);
+   for (uint16 pivot_no = 0; pivot_no < num_children; pivot_no++) {
+      trunk_get_pivot_data(spl, &node, pivot_no)->srq_idx = -1;
+   }
+   trunk_node_unlock(spl->cc, &node);
+   trunk_node_unclaim(spl->cc, &node);
+   trunk_node_unget(spl->cc, &node);
+   return TRUE;
+}
+
 /*
  * Open (mount) an existing splinter database
  */
@@ -7863,6 +7884,10 @@ trunk_mount(trunk_config     *cfg,
 
    trunk_set_super_block(spl, FALSE, FALSE, FALSE);
 
+   if (spl->cfg.reclaim_threshold != UINT64_MAX) {
+      trunk_for_each_node(spl, trunk_node_forget_srq_positions, NULL);
+   }
+
    if (spl->cfg.use_stats) {
       spl->stats = TYPED_ARRAY_ZALLOC(spl->heap_id, spl->stats, MAX_THREADS);
       platform_assert(spl->stats);
-- 
2.43.0


From 0ccc71fcff3fbc5b9b64574661121b20dadd2718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:30 +0000
Subject: [PATCH 08/31] fix: filters and branches were freed while readers and
 maintenance of other threads still used them

---
 src/trunk.c | 167 ++++++++++++++++++++++++++++++++++++++++++++++++----
 src/trunk.h |  18 ++++++
 2 files changed, 174 insertions(+), 11 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 3e473c3..bca1940 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -94,6 +94,12 @@ static const int64 latency_histo_buckets[LATENCYHISTO_SIZE] = {
  */
 #define TRUNK_ROOT_LOCK_IDX 0
 
+/*
+ * Index, in the same batch of locks, of the lock which readers of branches and
+ * filters hold while they use a version of the trunk.
+ */
+#define TRUNK_READER_LOCK_IDX 1
+
 /*
  * During Splinter configuration, the fanout parameter is provided by the user.
  * SplinterDB defers internal node splitting in order to use hand-over-hand
@@ -834,6 +840,9 @@ void                               trunk_bundle_build_filters      (void *arg, v
 static inline void                 trunk_inc_filter_ref            (trunk_handle *spl, routing_filter *filter, uint32 lineno);
 
 static inline void                 trunk_dec_filter                (trunk_handle *spl, routing_filter *filter);
+static void                        trunk_drop_retired_refs         (trunk_handle *spl);
+static void                        trunk_retire_filter             (trunk_handle *spl, routing_filter *filter);
+static void                        trunk_retire_branch_range       (trunk_handle *spl, trunk_branch *branch, key start_key, key end_key);
 void                               trunk_compact_bundle            (void *arg, void *scratch);
 platform_status                    trunk_flush                     (trunk_handle *spl, trunk_node *parent, trunk_pivot_data *pdata, bool32 is_space_rec);
 platform_status                    trunk_flush_fullest             (trunk_handle *spl, trunk_node *node);
@@ -1131,6 +1140,41 @@ trunk_root_get(trunk_handle *spl, trunk_node *root)
    platform_batch_rwlock_unget(&spl->trunk_root_lock, TRUNK_ROOT_LOCK_IDX);
 }
 
+/*
+ *-----------------------------------------------------------------------------
+ * Readers of the trunk
+ *
+ * A node is copied before it is modified, so a reader may go on using an old
+ * version of the trunk after any number of later versions have replaced it.
+ * Readers hold the reader lock for as long as they use branches and filters to
+ * which they do not have references of their own. Writers do not drop the
+ * references of a superseded version right away. They retire them, and drop
+ * them after publishing the new version and waiting for the readers which may
+ * have started on an older one.
+ *-----------------------------------------------------------------------------
+ */
+static inline void
+trunk_begin_read(trunk_handle *spl)
+{
+   platform_batch_rwlock_get(&spl->trunk_root_lock, TRUNK_READER_LOCK_IDX);
+}
+
+static inline void
+trunk_end_read(trunk_handle *spl)
+{
+   platform_batch_rwlock_unget(&spl->trunk_root_lock, TRUNK_READER_LOCK_IDX);
+}
+
+static inline void
+trunk_wait_for_readers(trunk_handle *spl)
+{
+   platform_batch_rwlock *lock = &spl->trunk_root_lock;
+   platform_batch_rwlock_get(lock, TRUNK_READER_LOCK_IDX);
+   platform_batch_rwlock_claim_loop(lock, TRUNK_READER_LOCK_IDX);
+   platform_batch_rwlock_lock(lock, TRUNK_READER_LOCK_IDX);
+   platform_batch_rwlock_full_unlock(lock, TRUNK_READER_LOCK_IDX);
+}
+
 /*
  *-----------------------------------------------------------------------------
  * Fetch Trunk Nodes By Key and Height
@@ -2419,7 +2463,7 @@ trunk_bundle_clear_subbundles(trunk_handle *spl,
         filter_no        = trunk_add_subbundle_filter_number(spl, filter_no, 1))
    {
       routing_filter *filter = trunk_get_sb_filter(spl, node, filter_no);
-      trunk_dec_filter(spl, filter);
+      trunk_retire_filter(spl, filter);
    }
    node->hdr->start_sb_filter = end_filter;
    node->hdr->start_subbundle = bundle->end_subbundle;
@@ -2884,7 +2928,7 @@ trunk_garbage_collect_node_get(trunk_handle             *spl,
 }
 
 /*
- * garbage_collect_bundle dereferences the branches for the specified bundle
+ * garbage_collect_bundle retires the branches for the specified bundle
  */
 static inline void
 trunk_garbage_collect_bundle(trunk_handle             *spl,
@@ -2917,8 +2961,7 @@ trunk_garbage_collect_bundle(trunk_handle             *spl,
          if (trunk_bundle_live_for_pivot(spl, &node, bundle_no, pivot_no)) {
             key start_key = trunk_get_pivot(spl, &node, pivot_no);
             key end_key   = trunk_get_pivot(spl, &node, pivot_no + 1);
-            trunk_zap_branch_range(
-               spl, branch, start_key, end_key, PAGE_TYPE_BRANCH);
+            trunk_retire_branch_range(spl, branch, start_key, end_key);
          }
       }
    }
@@ -3003,7 +3046,7 @@ trunk_replace_bundle_branches(trunk_handle             *spl,
            filter_no = trunk_add_subbundle_filter_number(spl, filter_no, 1))
       {
          routing_filter *old_filter = trunk_get_sb_filter(spl, node, filter_no);
-         trunk_dec_filter(spl, old_filter);
+         trunk_retire_filter(spl, old_filter);
       }
 
       // move any later filters
@@ -3760,6 +3803,9 @@ trunk_memtable_incorporate_and_flush(trunk_handle  *spl,
     */
    memtable_dec_ref_maybe_recycle(spl->mt_ctxt, mt);
 
+   // Drop the references which flushing retired
+   trunk_drop_retired_refs(spl);
+
    if (spl->cfg.use_stats) {
       const threadid tid = platform_get_tid();
       flush_start        = platform_timestamp_elapsed(flush_start);
@@ -3921,6 +3967,85 @@ trunk_dec_filter(trunk_handle *spl, routing_filter *filter)
    routing_filter_zap(cc, filter);
 }
 
+/*
+ * Retire a reference of a superseded version of a node.
+ *
+ * The reference is dropped by the next call of trunk_drop_retired_refs by this
+ * thread.
+ */
+static trunk_retired_ref *
+trunk_retire_ref(trunk_handle *spl)
+{
+   const threadid     tid = platform_get_tid();
+   trunk_retired_ref *ref = TYPED_ZALLOC(spl->heap_id, ref);
+   platform_assert(ref != NULL);
+   ref->next                   = spl->retired_refs[tid].head;
+   spl->retired_refs[tid].head = ref;
+   return ref;
+}
+
+static void
+trunk_retire_filter(trunk_handle *spl, routing_filter *filter)
+{
+   if (filter->addr == 0) {
+      return;
+   }
+   trunk_retired_ref *ref = trunk_retire_ref(spl);
+   ref->is_filter         = TRUE;
+   ref->filter            = *filter;
+}
+
+static void
+trunk_retire_branch_range(trunk_handle *spl,
+                          trunk_branch *branch,
+                          key           start_key,
+                          key           end_key)
+{
+   trunk_retired_ref *ref = trunk_retire_ref(spl);
+   ref->branch            = *branch;
+   platform_status rc =
+      key_buffer_init_from_key(&ref->start_key, spl->heap_id, start_key);
+   platform_assert_status_ok(rc);
+   rc = key_buffer_init_from_key(&ref->end_key, spl->heap_id, end_key);
+   platform_assert_status_ok(rc);
+}
+
+/*
+ * Drop the references which this thread has retired.
+ *
+ * The versions of the nodes without them must have been published, and the
+ * caller must not hold any locks on trunk nodes, because readers may be
+ * waiting for those.
+ */
+static void
+trunk_drop_retired_refs(trunk_handle *spl)
+{
+   const threadid     tid = platform_get_tid();
+   trunk_retired_ref *ref = spl->retired_refs[tid].head;
+   if (ref == NULL) {
+      return;
+   }
+   spl->retired_refs[tid].head = NULL;
+
+   trunk_wait_for_readers(spl);
+   while (ref != NULL) {
+      trunk_retired_ref *next = ref->next;
+      if (ref->is_filter) {
+         trunk_dec_filter(spl, &ref->filter);
+      } else {
+         trunk_zap_branch_range(spl,
+                                &ref->branch,
+                                key_buffer_key(&ref->start_key),
+                                key_buffer_key(&ref->end_key),
+                                PAGE_TYPE_BRANCH);
+         key_buffer_deinit(&ref->start_key);
+         key_buffer_deinit(&ref->end_key);
+      }
+      platform_free(spl->heap_id, ref);
+      ref = next;
+   }
+}
+
 /*
  * Scratch space used for filter building.
  */
@@ -4065,6 +4190,10 @@ trunk_prepare_build_filter(trunk_handle             *spl,
             spl, compact_req, pdata->generation);
          platform_assert(pos != TRUNK_MAX_PIVOTS);
          filter_scratch->old_filter[pos] = pdata->filter;
+         if (pdata->filter.addr != 0) {
+            // keep it until the new filter is built
+            trunk_inc_filter(spl, &pdata->filter);
+         }
          filter_scratch->value[pos] =
             trunk_pivot_whole_branch_count(spl, node, pdata);
          filter_scratch->should_build[pos] = TRUE;
@@ -4125,9 +4254,7 @@ trunk_build_filters(trunk_handle             *spl,
       uint32 *fp_arr           = filter_scratch->fp_arr + fp_start;
       uint32  num_fingerprints = fp_end - fp_start;
       if (num_fingerprints == 0) {
-         if (old_filter.addr != 0) {
-            trunk_inc_filter(spl, &old_filter);
-         }
+         // takes over the reference taken by trunk_prepare_build_filter
          filter_scratch->filter[pos] = old_filter;
          continue;
       }
@@ -4142,6 +4269,7 @@ trunk_build_filters(trunk_handle             *spl,
                                               num_fingerprints,
                                               value);
       platform_assert(SUCCESS(rc));
+      trunk_dec_filter(spl, &old_filter);
 
       filter_scratch->filter[pos]       = new_filter;
       filter_scratch->should_build[pos] = FALSE;
@@ -4227,7 +4355,7 @@ trunk_garbage_collect_filters(trunk_handle             *spl,
          continue;
       }
       debug_assert(pdata->generation < req->max_pivot_generation);
-      trunk_dec_filter(spl, &pdata->filter);
+      trunk_retire_filter(spl, &pdata->filter);
    }
    trunk_node_unlock(spl->cc, &node);
    trunk_node_unclaim(spl->cc, &node);
@@ -4247,7 +4375,8 @@ trunk_bundle_build_filters(void *arg, void *scratch)
 
    bool32 should_continue_build_filters = TRUE;
    while (should_continue_build_filters) {
-      trunk_node      node;
+      trunk_node node;
+      trunk_begin_read(spl);
       platform_status rc =
          trunk_compact_bundle_node_get(spl, compact_req, &node);
       platform_assert_status_ok(rc);
@@ -4268,11 +4397,13 @@ trunk_bundle_build_filters(void *arg, void *scratch)
       if (trunk_build_filter_should_abort(compact_req, &node)) {
          trunk_log_stream_if_enabled(spl, &stream, "leaf split, aborting\n");
          trunk_node_unget(spl->cc, &node);
+         trunk_end_read(spl);
          goto out;
       }
       if (trunk_build_filter_should_skip(compact_req, &node)) {
          trunk_log_stream_if_enabled(
             spl, &stream, "bundle flushed, skipping\n");
+         trunk_end_read(spl);
          goto next_node;
       }
 
@@ -4286,6 +4417,7 @@ trunk_bundle_build_filters(void *arg, void *scratch)
             spl, &stream, "out of order, reequeuing\n");
          trunk_close_log_stream_if_enabled(spl, &stream);
          trunk_node_unget(spl->cc, &node);
+         trunk_end_read(spl);
          return;
       }
 
@@ -4293,6 +4425,7 @@ trunk_bundle_build_filters(void *arg, void *scratch)
       trunk_filter_scratch filter_scratch = {0};
       trunk_prepare_build_filter(spl, compact_req, &filter_scratch, &node);
       trunk_node_unget(spl->cc, &node);
+      trunk_end_read(spl);
 
       trunk_build_filters(spl, compact_req, &filter_scratch);
 
@@ -4372,6 +4505,7 @@ trunk_bundle_build_filters(void *arg, void *scratch)
                compact_req->bundle_no);
             debug_assert(compact_req->height != 0);
             trunk_node_unget(spl->cc, &node);
+            trunk_drop_retired_refs(spl);
          }
       }
 
@@ -4387,6 +4521,7 @@ trunk_bundle_build_filters(void *arg, void *scratch)
       debug_assert(trunk_verify_node(spl, &node));
       key_buffer_copy_key(&compact_req->start_key, trunk_max_key(spl, &node));
       trunk_node_unget(spl->cc, &node);
+      trunk_drop_retired_refs(spl);
       should_continue_build_filters =
          trunk_key_compare(spl,
                            key_buffer_key(&compact_req->start_key),
@@ -5141,6 +5276,7 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
     * 1. Acquire node read lock
     */
    trunk_node node;
+   trunk_begin_read(spl);
    trunk_node_get(spl->cc, req->addr, &node);
 
    // timers for stats if enabled
@@ -5176,6 +5312,7 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
    if (!trunk_bundle_live(spl, &node, req->bundle_no)) {
       debug_assert(height != 0);
       trunk_node_unget(spl->cc, &node);
+      trunk_end_read(spl);
       trunk_default_log_if_enabled(
          spl,
          "compact_bundle abort flushed: range %s-%s, height %u, bundle %u\n",
@@ -5254,6 +5391,7 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
     * 6. Release read lock
     */
    trunk_node_unget(spl->cc, &node);
+   trunk_end_read(spl);
 
    /*
     * 7. Perform compaction
@@ -5432,6 +5570,8 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
       trunk_node_unlock(spl->cc, &node);
       trunk_node_unclaim(spl->cc, &node);
       trunk_node_unget(spl->cc, &node);
+
+      trunk_drop_retired_refs(spl);
    }
 
    if (spl->cfg.use_stats) {
@@ -6218,7 +6358,8 @@ trunk_range_iterator_init(trunk_handle         *spl,
    }
 
    trunk_node node;
-   trunk_node_get(spl->cc, spl->root_addr, &node);
+   trunk_begin_read(spl);
+   trunk_root_get(spl, &node);
    memtable_end_lookup(spl->mt_ctxt);
 
    // index btrees
@@ -6294,6 +6435,7 @@ trunk_range_iterator_init(trunk_handle         *spl,
       &range_itor->local_max_key, spl->heap_id, leaf_local_max);
 
    trunk_node_unget(spl->cc, &node);
+   trunk_end_read(spl);
 
    for (uint64 i = 0; i < range_itor->num_branches; i++) {
       uint64          branch_no  = range_itor->num_branches - i - 1;
@@ -6736,6 +6878,7 @@ trunk_reclaim_space(trunk_handle *spl)
       trunk_node_unlock(spl->cc, &node);
       trunk_node_unclaim(spl->cc, &node);
       trunk_node_unget(spl->cc, &node);
+      trunk_drop_retired_refs(spl);
       return STATUS_OK;
    }
 }
@@ -6999,6 +7142,7 @@ trunk_lookup(trunk_handle *spl, key target, merge_accumulator *result)
    }
 
    trunk_node node;
+   trunk_begin_read(spl);
    trunk_root_get(spl, &node);
 
    // release memtable lookup lock
@@ -7043,6 +7187,7 @@ found_final_answer_early:
       memtable_end_lookup(spl->mt_ctxt);
    } else {
       trunk_node_unget(spl->cc, &node);
+      trunk_end_read(spl);
    }
    if (spl->cfg.use_stats) {
       threadid tid = platform_get_tid();
diff --git a/src/trunk.h b/src/trunk.h
index 80ca36e..c51688b 100644
--- a/src/trunk.h
+++ b/src/trunk.h
@@ -182,6 +182,19 @@ typedef struct trunk_compacted_memtable {
    trunk_compact_bundle_req *req;
 } trunk_compacted_memtable;
 
+/*
+ * A reference held by a superseded version of a trunk node. It can only be
+ * dropped once no reader can still be using that version.
+ */
+typedef struct trunk_retired_ref {
+   struct trunk_retired_ref *next;
+   bool32                    is_filter;
+   routing_filter            filter;
+   trunk_branch              branch;
+   key_buffer                start_key;
+   key_buffer                end_key;
+} trunk_retired_ref;
+
 struct trunk_handle {
    volatile uint64       root_addr;
    uint64                super_block_idx;
@@ -221,6 +234,11 @@ struct trunk_handle {
       uint64 counter;
    } PLATFORM_CACHELINE_ALIGNED task_countup[MAX_THREADS];
 
+   // References retired, but not yet dropped, by each thread
+   struct {
+      trunk_retired_ref *head;
+   } PLATFORM_CACHELINE_ALIGNED retired_refs[MAX_THREADS];
+
    // space rec queue
    srq srq;
 
-- 
2.43.0


From d64e00a254846b7a669d7469dca1cc27017950c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:55 +0000
Subject: [PATCH 09/31] fix: close asserted if all memtables were still waiting
 to be incorporated

---
 src/trunk.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/trunk.c b/src/trunk.c
index bca1940..edf54a7 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -8069,6 +8069,10 @@ trunk_prepare_for_shutdown(trunk_handle *spl)
    // (any others must already be flushing/flushed)
 
    if (!memtable_is_empty(spl->mt_ctxt)) {
+      // let those finish first, so there is a memtable to rotate to
+      platform_status rc = task_perform_until_quiescent(spl->ts);
+      platform_assert_status_ok(rc);
+
       /*
        * memtable_force_finalize is not thread safe. Note also, we do not hold
        * the insert lock or rotate while flushing the memtable.
-- 
2.43.0


From 8cd1ee21a460780a5fc3e660ffec633f3673336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:55 +0000
Subject: [PATCH 10/31] fix: incorporations outpacing background tasks overran
 the bundle slots of the trunk root

---
 src/trunk.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/trunk.c b/src/trunk.c
index edf54a7..ffc1b9b 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -3817,6 +3817,32 @@ trunk_memtable_incorporate_and_flush(trunk_handle  *spl,
    }
 }
 
+/*
+ * Wait until the root has room for more bundles.
+ *
+ * A bundle leaves the root once it is compacted and its filters are built,
+ * which is done by background tasks. They may be outpaced by incorporations.
+ */
+static void
+trunk_wait_for_room_in_root(trunk_handle *spl)
+{
+   uint64 wait = 100;
+   while (TRUE) {
+      trunk_node root;
+      trunk_root_get(spl, &root);
+      uint16 num_bundles = trunk_bundle_count(spl, &root);
+      trunk_node_unget(spl->cc, &root);
+      if (num_bundles < TRUNK_MAX_BUNDLES / 2) {
+         return;
+      }
+
+      if (!SUCCESS(task_perform_one(spl->ts))) {
+         platform_sleep_ns(wait);
+         wait = wait > 100000 ? wait : 2 * wait;
+      }
+   }
+}
+
 /*
  * Main wrapper function to carry out incorporation of a memtable.
  *
@@ -3836,6 +3862,7 @@ trunk_memtable_flush_internal(trunk_handle *spl, uint64 generation)
       goto out;
    }
    do {
+      trunk_wait_for_room_in_root(spl);
       trunk_memtable_incorporate_and_flush(spl, generation, tid);
       generation++;
    } while (trunk_try_continue_incorporate(spl, generation));
-- 
2.43.0


From 59f5902a8995b17a9b0f13faa719291f362ff9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:19:55 +0000
Subject: [PATCH 11/31] fix: debug builds verified trunk nodes whose branches
 could be freed meanwhile

---
 src/trunk.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index ffc1b9b..abefe12 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -4430,6 +4430,7 @@ trunk_bundle_build_filters(void *arg, void *scratch)
       if (trunk_build_filter_should_skip(compact_req, &node)) {
          trunk_log_stream_if_enabled(
             spl, &stream, "bundle flushed, skipping\n");
+         debug_assert(trunk_verify_node(spl, &node));
          trunk_end_read(spl);
          goto next_node;
       }
@@ -4489,9 +4490,9 @@ trunk_bundle_build_filters(void *arg, void *scratch)
             trunk_clear_bundle(spl, &node, compact_req->bundle_no);
          }
 
+         debug_assert(trunk_verify_node(spl, &node));
          trunk_node_unlock(spl->cc, &node);
          trunk_node_unclaim(spl->cc, &node);
-         debug_assert(trunk_verify_node(spl, &node));
 
          trunk_log_node_if_enabled(&stream, spl, &node);
          trunk_log_stream_if_enabled(
@@ -4545,7 +4546,6 @@ trunk_bundle_build_filters(void *arg, void *scratch)
       key_buffer_deinit(&filter_scratch.end_key);
 
    next_node:
-      debug_assert(trunk_verify_node(spl, &node));
       key_buffer_copy_key(&compact_req->start_key, trunk_max_key(spl, &node));
       trunk_node_unget(spl->cc, &node);
       trunk_drop_retired_refs(spl);
-- 
2.43.0


From cb7a9b34e151a59fa172a37e009cd26aff79d303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:18 +0000
Subject: [PATCH 12/31] fix: leaf splits read user values as statistics and
 used a wrong end for the rough iteration

The rough iteration over branches (height 1) in a leaf split positioned its end
with the iterator's min key, and for a branch with a single page took the end of
its leaf, so that leaf entries were read as pivots.
---
 src/btree.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/btree.c b/src/btree.c
index 5dc809e..c3dbe38 100644
--- a/src/btree.c
+++ b/src/btree.c
@@ -2559,7 +2559,7 @@ find_key_in_node(btree_iterator *itor,
       itor->height = (uint32)-1;
       return 0; // this iterator is invalid, so return 0 for all lookups
    } else {
-      tmp = btree_find_pivot(itor->cfg, hdr, itor->min_key, found);
+      tmp = btree_find_pivot(itor->cfg, hdr, target, found);
    }
 
    switch (position_rule) {
@@ -2598,7 +2598,8 @@ btree_iterator_find_end(btree_iterator *itor)
    itor->end_addr       = end.addr;
    itor->end_generation = end.hdr->generation;
 
-   if (key_is_positive_infinity(itor->max_key)) {
+   if (key_is_positive_infinity(itor->max_key)
+       && itor->height <= end.hdr->height) {
       itor->end_idx = btree_num_entries(end.hdr);
    } else {
       itor->end_idx = find_key_in_node(
-- 
2.43.0


From 586265991ec362f56f9f66890781b78efc89d295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:15 +0000
Subject: [PATCH 13/31] fix: a filter build aborted by a leaf split released
 the root claim of another thread

The claim is already released when the path has been copied, so another update
of the trunk lost its claim and a third one could start concurrently.
---
 src/trunk.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/trunk.c b/src/trunk.c
index abefe12..1338454 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -4471,7 +4471,6 @@ trunk_bundle_build_filters(void *arg, void *scratch)
          if (trunk_build_filter_should_abort(compact_req, &node)) {
             trunk_log_stream_if_enabled(
                spl, &stream, "replace_filter abort leaf split\n");
-            trunk_root_full_unclaim(spl);
             trunk_node_unlock(spl->cc, &node);
             trunk_node_unclaim(spl->cc, &node);
             trunk_node_unget(spl->cc, &node);
-- 
2.43.0


From 2caf0c05d41f580972e495cc468ccc925d8f8c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:15 +0000
Subject: [PATCH 14/31] fix: filters of a compaction missed keys if a pivot was
 flushed meanwhile

The tuple counts which assign fingerprints to pivots were taken only for pivots
still live when the branches were replaced, so those of later pivots were taken
from the wrong place: lookups did not find keys which the branch holds.
---
 src/trunk.c | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 1338454..c79f6bd 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -755,6 +755,7 @@ typedef struct {
    iterator              *itor_arr[TRUNK_RANGE_ITOR_MAX_BRANCHES];
    uint64                 num_saved_pivot_keys;
    key_buffer             saved_pivot_keys[TRUNK_MAX_PIVOTS];
+   uint64                 saved_pivot_generations[TRUNK_MAX_PIVOTS];
    key_buffer             req_original_start_key;
 } compact_bundle_scratch;
 
@@ -2999,13 +3000,11 @@ trunk_replace_bundle_branches(trunk_handle             *spl,
    uint16 num_children        = trunk_num_children(spl, node);
 
    // add new branch
-   uint16 new_branch_no = UINT16_MAX;
    if (repl_branch != NULL) {
       trunk_branch *new_branch =
          trunk_get_branch(spl, node, bundle_start_branch);
       *new_branch = *repl_branch;
       branch_diff--;
-      new_branch_no = trunk_branch_no(spl, node, new_branch);
 
       // increment the fringes of the new branch along the pivots
       uint16 num_pivot_keys = trunk_num_pivot_keys(spl, node);
@@ -3119,16 +3118,6 @@ trunk_replace_bundle_branches(trunk_handle             *spl,
                          "pos=%lu != TRUNK_MAX_PIVOTS=%d",
                          pos,
                          TRUNK_MAX_PIVOTS);
-         if (repl_branch != NULL) {
-            trunk_pivot_branch_tuple_counts(
-               spl,
-               node,
-               pivot_no,
-               new_branch_no,
-               &req->output_pivot_tuple_count[pos],
-               &req->output_pivot_kv_byte_count[pos]);
-         }
-
          uint64 tuples_reclaimed = req->input_pivot_tuple_count[pos]
                                    - req->output_pivot_tuple_count[pos];
          req->tuples_reclaimed += tuples_reclaimed;
@@ -4998,6 +4987,10 @@ save_pivots_to_compact_bundle_scratch(trunk_handle           *spl,     // IN
       rc        = key_buffer_init_from_key(
          &scratch->saved_pivot_keys[i], spl->heap_id, pivot);
       platform_assert_status_ok(rc);
+      if (i + 1 < num_pivot_keys) {
+         scratch->saved_pivot_generations[i] =
+            trunk_get_pivot_data(spl, node, i)->generation;
+      }
    }
    scratch->num_saved_pivot_keys = num_pivot_keys;
 }
@@ -5488,6 +5481,29 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
    trunk_compact_bundle_cleanup_iterators(
       spl, &merge_itor, num_branches, skip_itor_arr);
 
+   /*
+    * Count the tuples of each pivot here, since these counts tell which
+    * fingerprints belong to a pivot. Pivots may be flushed or nodes may be
+    * split before the branches are replaced.
+    */
+   for (uint64 i = 0; i + 1 < scratch->num_saved_pivot_keys; i++) {
+      uint64 pos = trunk_process_generation_to_pos(
+         spl, req, scratch->saved_pivot_generations[i]);
+      if (pos == TRUNK_MAX_PIVOTS || num_tuples == 0) {
+         continue;
+      }
+      btree_pivot_stats stats;
+      btree_count_in_range(spl->cc,
+                           trunk_btree_config(spl),
+                           new_branch.root_addr,
+                           key_buffer_key(&scratch->saved_pivot_keys[i]),
+                           key_buffer_key(&scratch->saved_pivot_keys[i + 1]),
+                           &stats);
+      req->output_pivot_tuple_count[pos]   = stats.num_kvs;
+      req->output_pivot_kv_byte_count[pos] = stats.key_bytes
+                                             + stats.message_bytes;
+   }
+
    deinit_saved_pivots_in_scratch(scratch);
 
    rc = key_buffer_init_from_key(&scratch->req_original_start_key,
-- 
2.43.0


From 9d986b8a84fce6666d9f3696fcd626862355823e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:28 +0000
Subject: [PATCH 15/31] fix: compactions and filter builds mistook one bundle
 for another in the same slot

Slots of the ring of bundles are reused (and bundles move, if an empty one is
removed), while requests remember a slot. Give bundles unique ids. Filters are
released in the node which has been replaced, also after an index split.
---
 src/trunk.c | 90 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 68 insertions(+), 22 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index c79f6bd..74c7b51 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -512,7 +512,8 @@ typedef struct ONDISK trunk_subbundle {
 typedef struct ONDISK trunk_bundle {
    uint16 start_subbundle;
    uint16 end_subbundle;
-   uint64 num_tuples;
+   uint32 id; // slots are reused and bundles move between them, ids are unique
+   uint32 num_tuples;
    uint64 num_kv_bytes;
 } trunk_bundle;
 
@@ -722,7 +723,8 @@ struct trunk_compact_bundle_req {
    key_buffer            end_key;
    uint64                node_id;
    uint16                height;
-   uint16                bundle_no;
+   uint32                bundle_id;
+   uint16                bundle_no; // slot where bundle_id was last found
    trunk_compaction_type type;
 
    // Computed as part of the compaction process
@@ -2222,6 +2224,12 @@ trunk_inc_num_pivot_keys(trunk_handle *spl, trunk_node *node)
  *-----------------------------------------------------------------------------
  */
 
+static inline uint64
+trunk_next_node_id(trunk_handle *spl)
+{
+   return __sync_fetch_and_add(&spl->next_node_id, 1);
+}
+
 /*
  * Returns TRUE if the bundle is live in the node and FALSE otherwise.
  */
@@ -2247,6 +2255,27 @@ trunk_get_bundle(trunk_handle *spl, trunk_node *node, uint16 bundle_no)
    return &node->hdr->bundle[bundle_no];
 }
 
+/*
+ * Finds the bundle of a request in the node (and sets req->bundle_no to its
+ * slot). Returns FALSE if the bundle isn't live in the node.
+ */
+static inline bool32
+trunk_req_bundle_live(trunk_handle             *spl,
+                      trunk_node               *node,
+                      trunk_compact_bundle_req *req)
+{
+   for (uint16 bundle_no = trunk_start_bundle(spl, node);
+        bundle_no != trunk_end_bundle(spl, node);
+        bundle_no = trunk_add_bundle_number(spl, bundle_no, 1))
+   {
+      if (trunk_get_bundle(spl, node, bundle_no)->id == req->bundle_id) {
+         req->bundle_no = bundle_no;
+         return TRUE;
+      }
+   }
+   return FALSE;
+}
+
 static inline uint16
 trunk_get_new_bundle(trunk_handle *spl, trunk_node *node)
 {
@@ -2259,6 +2288,7 @@ trunk_get_new_bundle(trunk_handle *spl, trunk_node *node)
                    node->addr,
                    node->hdr->end_bundle,
                    node->hdr->start_bundle);
+   node->hdr->bundle[new_bundle_no].id = trunk_next_node_id(spl);
    return new_bundle_no;
 }
 
@@ -2887,10 +2917,10 @@ static inline void
 trunk_garbage_collect_node_get(trunk_handle             *spl,
                                uint64                    old_root_addr,
                                trunk_compact_bundle_req *req,
+                               key                       start_key,
                                trunk_node               *out_node)
 {
-   uint16 height    = req->height;
-   key    start_key = key_buffer_key(&req->start_key);
+   uint16 height = req->height;
    /*
     * Note: don't need to acquire the trunk_root_lock here, since this is an
     * old snapshot
@@ -2937,7 +2967,15 @@ trunk_garbage_collect_bundle(trunk_handle             *spl,
                              trunk_compact_bundle_req *req)
 {
    trunk_node node;
-   trunk_garbage_collect_node_get(spl, old_root_addr, req, &node);
+   trunk_garbage_collect_node_get(
+      spl, old_root_addr, req, key_buffer_key(&req->start_key), &node);
+
+   if (!trunk_req_bundle_live(spl, &node, req)) {
+      trunk_node_unlock(spl->cc, &node);
+      trunk_node_unclaim(spl->cc, &node);
+      trunk_node_unget(spl->cc, &node);
+      return;
+   }
 
    uint16        bundle_no    = req->bundle_no;
    trunk_bundle *bundle       = trunk_get_bundle(spl, &node, bundle_no);
@@ -3634,6 +3672,7 @@ trunk_install_new_compacted_subbundle(trunk_handle             *spl,
    req->bundle_no = trunk_get_new_bundle(spl, node);
 
    trunk_bundle    *bundle = trunk_get_bundle(spl, node, req->bundle_no);
+   req->bundle_id          = bundle->id;
    trunk_subbundle *sb     = trunk_get_new_subbundle(spl, node, 1);
    trunk_branch    *branch = trunk_get_new_branch(spl, node);
    *branch                 = *new_branch;
@@ -4140,7 +4179,7 @@ static inline bool32
 trunk_build_filter_should_skip(trunk_compact_bundle_req *req, trunk_node *node)
 {
    trunk_handle *spl = req->spl;
-   if (!trunk_bundle_live(spl, node, req->bundle_no)) {
+   if (!trunk_req_bundle_live(spl, node, req)) {
       platform_stream_handle stream;
       platform_status rc = trunk_open_log_stream_if_enabled(spl, &stream);
       platform_assert_status_ok(rc);
@@ -4307,12 +4346,14 @@ trunk_replace_routing_filter(trunk_handle             *spl,
                              trunk_filter_scratch     *filter_scratch,
                              trunk_node               *node)
 {
+   bool32 live         = trunk_req_bundle_live(spl, node, compact_req);
    uint16 num_children = trunk_num_children(spl, node);
    for (uint16 pivot_no = 0; pivot_no < num_children; pivot_no++) {
       trunk_pivot_data *pdata = trunk_get_pivot_data(spl, node, pivot_no);
       uint64            pos =
          trunk_process_generation_to_pos(spl, compact_req, pdata->generation);
-      if (!trunk_bundle_live_for_pivot(
+      if (!live
+          || !trunk_bundle_live_for_pivot(
              spl, node, compact_req->bundle_no, pivot_no))
       {
          if (pos != TRUNK_MAX_PIVOTS && filter_scratch->filter[pos].addr != 0) {
@@ -4359,15 +4400,20 @@ trunk_replace_routing_filter(trunk_handle             *spl,
 static inline void
 trunk_garbage_collect_filters(trunk_handle             *spl,
                               uint64                    old_root_addr,
-                              trunk_compact_bundle_req *req)
+                              trunk_compact_bundle_req *req,
+                              key                       start_key)
 {
    trunk_node node;
-   trunk_garbage_collect_node_get(spl, old_root_addr, req, &node);
+   trunk_garbage_collect_node_get(spl, old_root_addr, req, start_key, &node);
 
+   bool32 live         = trunk_req_bundle_live(spl, &node, req);
    uint16 num_children = trunk_num_children(spl, &node);
    for (uint16 pivot_no = 0; pivot_no < num_children; pivot_no++) {
       trunk_pivot_data *pdata = trunk_get_pivot_data(spl, &node, pivot_no);
-      if (!trunk_bundle_live_for_pivot(spl, &node, req->bundle_no, pivot_no)) {
+      if (!live
+          || !trunk_bundle_live_for_pivot(
+             spl, &node, req->bundle_no, pivot_no))
+      {
          continue;
       }
       debug_assert(pdata->generation < req->max_pivot_generation);
@@ -4474,7 +4520,7 @@ trunk_bundle_build_filters(void *arg, void *scratch)
 
          trunk_replace_routing_filter(spl, compact_req, &filter_scratch, &node);
 
-         if (trunk_bundle_live(spl, &node, compact_req->bundle_no)) {
+         if (trunk_req_bundle_live(spl, &node, compact_req)) {
             trunk_clear_bundle(spl, &node, compact_req->bundle_no);
          }
 
@@ -4499,6 +4545,10 @@ trunk_bundle_build_filters(void *arg, void *scratch)
             key_string(trunk_data_config(spl),
                        key_buffer_key(&compact_req->end_key)));
 
+         // the node may have split, but not merged: the old one has this key
+         trunk_garbage_collect_filters(
+            spl, old_root_addr, compact_req, start_key);
+
          key_buffer_copy_key(&filter_scratch.start_key,
                              trunk_max_key(spl, &node));
          should_continue_replacing_filters =
@@ -4506,8 +4556,6 @@ trunk_bundle_build_filters(void *arg, void *scratch)
                               key_buffer_key(&filter_scratch.start_key),
                               key_buffer_key(&filter_scratch.end_key));
 
-         trunk_garbage_collect_filters(spl, old_root_addr, compact_req);
-
          if (should_continue_replacing_filters) {
             trunk_log_stream_if_enabled(
                spl,
@@ -4632,6 +4680,7 @@ trunk_flush_into_bundle(trunk_handle             *spl,    // IN
    }
 
    trunk_bundle *bundle = trunk_get_bundle(spl, child, req->bundle_no);
+   req->bundle_id       = bundle->id;
 
    uint64   parent_height = trunk_node_height(parent);
    threadid tid           = platform_get_tid();
@@ -5328,7 +5377,7 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
    /*
     * 2. The bundle may have been completely flushed, if so abort
     */
-   if (!trunk_bundle_live(spl, &node, req->bundle_no)) {
+   if (!trunk_req_bundle_live(spl, &node, req)) {
       debug_assert(height != 0);
       trunk_node_unget(spl->cc, &node);
       trunk_end_read(spl);
@@ -5561,7 +5610,7 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
          goto out;
       }
 
-      if (trunk_bundle_live(spl, &node, req->bundle_no)) {
+      if (trunk_req_bundle_live(spl, &node, req)) {
          if (num_tuples != 0) {
             trunk_replace_bundle_branches(spl, &node, &new_branch, req);
             num_replacements++;
@@ -5687,12 +5736,6 @@ trunk_needs_split(trunk_handle *spl, trunk_node *node)
    return trunk_num_children(spl, node) > spl->cfg.fanout;
 }
 
-static inline uint64
-trunk_next_node_id(trunk_handle *spl)
-{
-   return __sync_fetch_and_add(&spl->next_node_id, 1);
-}
-
 void
 trunk_split_index(trunk_handle             *spl,
                   trunk_node               *parent,
@@ -6188,6 +6231,7 @@ trunk_split_leaf(trunk_handle *spl,
          req->addr                     = leaf->addr;
          req->type                     = comp_type;
          req->bundle_no                = bundle_no;
+         req->bundle_id = trunk_get_bundle(spl, leaf, bundle_no)->id;
          req->max_pivot_generation     = trunk_pivot_generation(spl, leaf);
          req->pivot_generation[0]      = trunk_pivot_generation(spl, leaf) - 1;
          req->input_pivot_tuple_count[0] = trunk_pivot_num_tuples(spl, leaf, 0);
@@ -6222,6 +6266,7 @@ trunk_split_leaf(trunk_handle *spl,
    req->addr                     = leaf->addr;
    // req->height already 0
    req->bundle_no                    = bundle_no;
+   req->bundle_id = trunk_get_bundle(spl, leaf, bundle_no)->id;
    req->max_pivot_generation         = trunk_pivot_generation(spl, leaf);
    req->pivot_generation[0]          = trunk_pivot_generation(spl, leaf) - 1;
    req->input_pivot_tuple_count[0]   = trunk_pivot_num_tuples(spl, leaf, 0);
@@ -6822,6 +6867,7 @@ trunk_compact_leaf(trunk_handle *spl, trunk_node *leaf)
    req->addr                     = leaf->addr;
    // req->height already 0
    req->bundle_no                    = bundle_no;
+   req->bundle_id = trunk_get_bundle(spl, leaf, bundle_no)->id;
    req->max_pivot_generation         = trunk_pivot_generation(spl, leaf);
    req->pivot_generation[0]          = trunk_pivot_generation(spl, leaf) - 1;
    req->input_pivot_tuple_count[0]   = trunk_pivot_num_tuples(spl, leaf, 0);
@@ -8931,7 +8977,7 @@ trunk_print_branches_and_bundles(platform_log_handle *log_handle,
             // clang-format off
             platform_log(log_handle, "|     |       -- bundle %2u --       | %12lu |              |              |                 |\n",
                          bundle_no,
-                         bundle->num_tuples);
+                         (uint64)bundle->num_tuples);
             // clang-format on
          }
       }
-- 
2.43.0


From c16c9cb2badf3ae00681558a6a678941aad1a358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:28 +0000
Subject: [PATCH 16/31] fix: compactions read branches of a superseded version
 of their node

These may be freed and reused already. Start from the current version, once an
update in progress is published. A leaf which is rebundled gets a new id, since
requests made for its bundles do not apply any more.
---
 src/trunk.c | 102 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 75 insertions(+), 27 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 74c7b51..367bfb7 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -1276,6 +1276,16 @@ trunk_root_full_unclaim(trunk_handle *spl)
    platform_batch_rwlock_unget(&spl->trunk_root_lock, TRUNK_ROOT_LOCK_IDX);
 }
 
+/*
+ * Waits for an update of the trunk in progress, if any, to be published.
+ */
+static inline void
+trunk_wait_for_root_update(trunk_handle *spl)
+{
+   trunk_root_full_claim(spl);
+   trunk_root_full_unclaim(spl);
+}
+
 /*
  *-----------------------------------------------------------------------------
  * Returns a copy of the root node with a *claim*
@@ -4115,6 +4125,15 @@ typedef struct trunk_filter_scratch {
    uint32        *fp_arr;
 } trunk_filter_scratch;
 
+static void
+trunk_compact_bundle_req_destroy(trunk_handle             *spl,
+                                 trunk_compact_bundle_req *req)
+{
+   key_buffer_deinit(&req->start_key);
+   key_buffer_deinit(&req->end_key);
+   platform_free(spl->heap_id, req);
+}
+
 static inline void
 trunk_filter_scratch_init(trunk_compact_bundle_req *compact_req,
                           trunk_filter_scratch     *filter_scratch)
@@ -4610,9 +4629,7 @@ trunk_bundle_build_filters(void *arg, void *scratch)
 
 out:
    platform_free(spl->heap_id, compact_req->fp_arr);
-   key_buffer_deinit(&compact_req->start_key);
-   key_buffer_deinit(&compact_req->end_key);
-   platform_free(spl->heap_id, compact_req);
+   trunk_compact_bundle_req_destroy(spl, compact_req);
    trunk_maybe_reclaim_space(spl);
    return;
 }
@@ -5287,6 +5304,32 @@ trunk_compact_bundle_cleanup_iterators(trunk_handle           *spl,
    debug_code(memset(skip_itor_arr, 0, num_branches * sizeof(*skip_itor_arr)));
 }
 
+/*
+ * Restricts the request to the node, which holds its start key, and enqueues a
+ * request for the rest of its range. Used if the (index) node of the request
+ * has been split since the request was made.
+ */
+static platform_status
+trunk_compact_bundle_req_split(trunk_handle             *spl,
+                               trunk_compact_bundle_req *req,
+                               trunk_node               *node)
+{
+   req->node_id = node->hdr->node_id;
+
+   key max_key = trunk_max_key(spl, node);
+   if (trunk_key_compare(spl, max_key, key_buffer_key(&req->end_key)) >= 0) {
+      return STATUS_OK;
+   }
+
+   trunk_compact_bundle_req *next_req = TYPED_MALLOC(spl->heap_id, next_req);
+   memmove(next_req, req, sizeof(trunk_compact_bundle_req));
+   key_buffer_init_from_key(&next_req->start_key, spl->heap_id, max_key);
+   key_buffer_init_from_key(
+      &next_req->end_key, spl->heap_id, key_buffer_key(&req->end_key));
+   key_buffer_copy_key(&req->end_key, max_key);
+   return trunk_compact_bundle_enqueue(spl, "split to", next_req);
+}
+
 /*
  * compact_bundle compacts a bundle of flushed branches into a single branch
  *
@@ -5344,8 +5387,10 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
     * 1. Acquire node read lock
     */
    trunk_node node;
+   trunk_wait_for_root_update(spl);
    trunk_begin_read(spl);
-   trunk_node_get(spl->cc, req->addr, &node);
+   rc = trunk_compact_bundle_node_get(spl, req, &node);
+   platform_assert_status_ok(rc);
 
    // timers for stats if enabled
    uint64 compaction_start, pack_start;
@@ -5356,23 +5401,24 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
       spl->stats[tid].compactions[height]++;
    }
 
-   platform_assert(
-      !trunk_compact_bundle_node_has_split(spl, req, &node),
-      "compact_bundle unexpected node split\n"
-      "addr: %lu\n"
-      "node range: %s-%s\n"
-      "req range:  %s-%s\n"
-      "key compare: %d\n"
-      "req->node_id: %lu\n"
-      "node->node_id: %lu\n",
-      node.addr,
-      key_string(trunk_data_config(spl), trunk_min_key(spl, &node)),
-      key_string(trunk_data_config(spl), trunk_max_key(spl, &node)),
-      key_string(trunk_data_config(spl), start_key),
-      key_string(trunk_data_config(spl), end_key),
-      trunk_key_compare(spl, trunk_max_key(spl, &node), end_key),
-      req->node_id,
-      node.hdr->node_id);
+   if (trunk_compact_bundle_node_has_split(spl, req, &node)) {
+      if (trunk_node_is_leaf(&node)) {
+         // the split (or rebundling) of the leaf covers the compaction
+         trunk_node_unget(spl->cc, &node);
+         trunk_end_read(spl);
+         if (spl->cfg.use_stats) {
+            spl->stats[tid].compactions_discarded_leaf_split[height]++;
+            spl->stats[tid].compaction_time_wasted_ns[height] +=
+               platform_timestamp_elapsed(compaction_start);
+         }
+         trunk_compact_bundle_req_destroy(spl, req);
+         return;
+      }
+      // split the request as well
+      rc = trunk_compact_bundle_req_split(spl, req, &node);
+      platform_assert_status_ok(rc);
+      end_key = key_buffer_key(&req->end_key);
+   }
 
    /*
     * 2. The bundle may have been completely flushed, if so abort
@@ -5388,7 +5434,7 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
          key_string(trunk_data_config(spl), end_key),
          req->height,
          req->bundle_no);
-      platform_free(spl->heap_id, req);
+      trunk_compact_bundle_req_destroy(spl, req);
       if (spl->cfg.use_stats) {
          spl->stats[tid].compactions_aborted_flushed[height]++;
          spl->stats[tid].compaction_time_wasted_ns[height] +=
@@ -5480,7 +5526,7 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
 
       trunk_compact_bundle_cleanup_iterators(
          spl, &merge_itor, num_branches, skip_itor_arr);
-      platform_free(spl->heap_id, req);
+      trunk_compact_bundle_req_destroy(spl, req);
       goto out;
    }
    req->fp_arr = pack_req.fingerprint_arr;
@@ -5495,7 +5541,7 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
       trunk_compact_bundle_cleanup_iterators(
          spl, &merge_itor, num_branches, skip_itor_arr);
       btree_pack_req_deinit(&pack_req, spl->heap_id);
-      platform_free(spl->heap_id, req);
+      trunk_compact_bundle_req_destroy(spl, req);
       goto out;
    }
 
@@ -5605,7 +5651,7 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
             trunk_dec_ref(spl, &new_branch, FALSE);
          }
          platform_free(spl->heap_id, req->fp_arr);
-         platform_free(spl->heap_id, req);
+         trunk_compact_bundle_req_destroy(spl, req);
          key_buffer_deinit(&scratch->req_original_start_key);
          goto out;
       }
@@ -5687,7 +5733,7 @@ trunk_compact_bundle(void *arg, void *scratch_buf)
             platform_timestamp_elapsed(compaction_start);
       }
       platform_free(spl->heap_id, req->fp_arr);
-      platform_free(spl->heap_id, req);
+      trunk_compact_bundle_req_destroy(spl, req);
    } else {
       if (spl->cfg.use_stats) {
          compaction_start = platform_timestamp_elapsed(compaction_start);
@@ -6877,7 +6923,9 @@ trunk_compact_leaf(trunk_handle *spl, trunk_node *leaf)
       &req->start_key, spl->heap_id, trunk_min_key(spl, leaf));
    key_buffer_init_from_key(
       &req->end_key, spl->heap_id, trunk_max_key(spl, leaf));
-   req->node_id = leaf->hdr->node_id;
+   // requests for the bundles which have been merged do not apply any more
+   leaf->hdr->node_id = trunk_next_node_id(spl);
+   req->node_id       = leaf->hdr->node_id;
 
    rc = trunk_compact_bundle_enqueue(spl, "enqueue", req);
    platform_assert_status_ok(rc);
-- 
2.43.0


From 70a2eb9945a7675d91593f5d2358e56baa3da859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:28 +0000
Subject: [PATCH 17/31] fix: incorporations outpacing compactions overran the
 rings of trunk nodes below the root

Filters of subbundles (24 slots) were overwritten silently, and flushes failed.
---
 src/trunk.c | 10 +++++++++-
 src/trunk.h |  1 +
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/trunk.c b/src/trunk.c
index 367bfb7..f6fb555 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -61,6 +61,7 @@ static const int64 latency_histo_buckets[LATENCYHISTO_SIZE] = {
 #define TRUNK_MAX_BUNDLES           (12)
 #define TRUNK_MAX_SUBBUNDLES        (24)
 #define TRUNK_MAX_SUBBUNDLE_FILTERS (24U)
+#define TRUNK_MAX_BUNDLE_REQS       (4)
 
 /*
  * For a "small" range query, you don't want to prefetch pages.
@@ -3832,6 +3833,7 @@ trunk_memtable_incorporate_and_flush(trunk_handle  *spl,
       req->height,
       req->bundle_no);
    trunk_close_log_stream_if_enabled(spl, &stream);
+   __sync_fetch_and_add(&spl->num_bundle_reqs, 1);
    task_enqueue(
       spl->ts, TASK_TYPE_NORMAL, trunk_bundle_build_filters, req, TRUE);
 
@@ -3860,6 +3862,8 @@ trunk_memtable_incorporate_and_flush(trunk_handle  *spl,
  *
  * A bundle leaves the root once it is compacted and its filters are built,
  * which is done by background tasks. They may be outpaced by incorporations.
+ * Then compactions and filters of the nodes below pile up as well, so also wait
+ * until there are few of these left.
  */
 static void
 trunk_wait_for_room_in_root(trunk_handle *spl)
@@ -3870,7 +3874,9 @@ trunk_wait_for_room_in_root(trunk_handle *spl)
       trunk_root_get(spl, &root);
       uint16 num_bundles = trunk_bundle_count(spl, &root);
       trunk_node_unget(spl->cc, &root);
-      if (num_bundles < TRUNK_MAX_BUNDLES / 2) {
+      if (num_bundles < TRUNK_MAX_BUNDLES / 2
+          && spl->num_bundle_reqs <= TRUNK_MAX_BUNDLE_REQS)
+      {
          return;
       }
 
@@ -4132,6 +4138,7 @@ trunk_compact_bundle_req_destroy(trunk_handle             *spl,
    key_buffer_deinit(&req->start_key);
    key_buffer_deinit(&req->end_key);
    platform_free(spl->heap_id, req);
+   __sync_fetch_and_sub(&spl->num_bundle_reqs, 1);
 }
 
 static inline void
@@ -4856,6 +4863,7 @@ trunk_compact_bundle_enqueue(trunk_handle             *spl,
    key start_key = key_buffer_key(&req->start_key);
    key end_key   = key_buffer_key(&req->end_key);
    platform_assert(trunk_key_compare(spl, start_key, end_key) < 0);
+   __sync_fetch_and_add(&spl->num_bundle_reqs, 1);
    return task_enqueue(
       spl->ts, TASK_TYPE_NORMAL, trunk_compact_bundle, req, FALSE);
 }
diff --git a/src/trunk.h b/src/trunk.h
index c51688b..c890d2d 100644
--- a/src/trunk.h
+++ b/src/trunk.h
@@ -199,6 +199,7 @@ struct trunk_handle {
    volatile uint64       root_addr;
    uint64                super_block_idx;
    uint64                next_node_id;
+   volatile uint64       num_bundle_reqs; // compactions not completed yet
    trunk_config          cfg;
    platform_heap_id      heap_id;
    platform_batch_rwlock trunk_root_lock;
-- 
2.43.0


From 6f99d18e2e6742175aaad523e122018acdb577a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:28 +0000
Subject: [PATCH 18/31] fix: debug builds asserted if the thread incorporating
 memtables was faster than the one compacting

---
 src/memtable.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/memtable.h b/src/memtable.h
index 2558686..5a68370 100644
--- a/src/memtable.h
+++ b/src/memtable.h
@@ -79,9 +79,7 @@ memtable_try_transition(memtable      *mt,
    if (actual_old_state != old_state) {
       switch (old_state) {
          case MEMTABLE_STATE_COMPACTED:
-            debug_assert(actual_old_state
-                         != MEMTABLE_STATE_INCORPORATION_ASSIGNED);
-            debug_assert(actual_old_state != MEMTABLE_STATE_INCORPORATING);
+            // not compacted yet, or the incorporating thread was faster
             break;
          default:
             platform_assert(0);
-- 
2.43.0


From b7e95645462ad35b531ed68be816524c72afa88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:20 +0000
Subject: [PATCH 19/31] fix: a compaction that left nothing mixed up the
 filters of later bundles

The filters of later subbundles were moved, but the subbundles' filter
positions were not.
---
 src/trunk.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index f6fb555..c65b054 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -3087,6 +3087,7 @@ trunk_replace_bundle_branches(trunk_handle             *spl,
    /*
     * if the bundle has no keys, move the filters to form a contiguous array
     */
+   uint16 filter_diff = 0;
    if (repl_branch == NULL) {
       // decrement the ref counts of the old filters
       for (uint16 filter_no = trunk_bundle_start_filter(spl, node, bundle);
@@ -3098,13 +3099,13 @@ trunk_replace_bundle_branches(trunk_handle             *spl,
       }
 
       // move any later filters
-      uint16 filter_diff = trunk_bundle_filter_count(spl, node, bundle);
+      filter_diff = trunk_bundle_filter_count(spl, node, bundle);
       for (uint16 filter_no = trunk_bundle_end_filter(spl, node, bundle);
            filter_no != trunk_end_sb_filter(spl, node);
            filter_no = trunk_add_subbundle_filter_number(spl, filter_no, 1))
       {
          uint16 dst_filter_no =
-            trunk_subtract_subbundle_number(spl, filter_no, filter_diff);
+            trunk_subtract_subbundle_filter_number(spl, filter_no, filter_diff);
          *trunk_get_sb_filter(spl, node, dst_filter_no) =
             *trunk_get_sb_filter(spl, node, filter_no);
       }
@@ -3138,6 +3139,10 @@ trunk_replace_bundle_branches(trunk_handle             *spl,
          trunk_subtract_branch_number(spl, sb->start_branch, branch_diff);
       sb->end_branch =
          trunk_subtract_branch_number(spl, sb->end_branch, branch_diff);
+      sb->start_filter = trunk_subtract_subbundle_filter_number(
+         spl, sb->start_filter, filter_diff);
+      sb->end_filter = trunk_subtract_subbundle_filter_number(
+         spl, sb->end_filter, filter_diff);
       uint16 dst_sb_no = trunk_subtract_subbundle_number(spl, sb_no, sb_diff);
       *trunk_get_subbundle(spl, node, dst_sb_no) = *sb;
    }
-- 
2.43.0


From 384d7dbc4eff1b6416eecff8bd4a36f1def46df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:20 +0000
Subject: [PATCH 20/31] fix: a leaf split asserted if its parent had no room
 for the new leaves

---
 src/trunk.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index c65b054..1450404 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -6048,10 +6048,16 @@ trunk_split_leaf(trunk_handle *spl,
          target_num_leaves = 2;
       } else {
          target_num_leaves = 1;
-         comp_type         = TRUNK_COMPACTION_TYPE_SINGLE_LEAF_SPLIT;
-         if (spl->cfg.use_stats) {
-            spl->stats[tid].single_leaf_splits++;
-         }
+      }
+   }
+   // The parent must have room for the new leaves.
+   target_num_leaves =
+      MIN(target_num_leaves,
+          spl->cfg.max_pivot_keys - trunk_num_pivot_keys(spl, parent));
+   if (target_num_leaves == 1) {
+      comp_type = TRUNK_COMPACTION_TYPE_SINGLE_LEAF_SPLIT;
+      if (spl->cfg.use_stats) {
+         spl->stats[tid].single_leaf_splits++;
       }
    }
    uint64 target_leaf_kv_bytes = kv_bytes / target_num_leaves;
-- 
2.43.0


From 048ad9bcb4734bf50d63b16cf3da3e1572bf191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:57 +0000
Subject: [PATCH 21/31] fix: flushing a pivot without tuples took references on
 extent 0 (and asserted in debug builds)

---
 src/trunk.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 1450404..3e4b64c 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -4023,13 +4023,10 @@ trunk_routing_cfg(trunk_handle *spl)
 static inline void
 trunk_inc_filter_ref(trunk_handle *spl, routing_filter *filter, uint32 lineno)
 {
-   debug_assert((filter->addr != 0),
-                "From line=%d: addr=%lu, meta_head=%lu"
-                ", num_fingerprints=%u\n",
-                lineno,
-                filter->addr,
-                filter->meta_head,
-                filter->num_fingerprints);
+   if (filter->addr == 0) {
+      // empty: no page, no reference
+      return;
+   }
    mini_unkeyed_inc_ref(spl->cc, filter->meta_head);
 }
 
@@ -7181,7 +7178,6 @@ trunk_compacted_subbundle_lookup(trunk_handle      *spl,
       }
       uint64          found_values;
       routing_filter *filter = trunk_subbundle_filter(spl, node, sb, filter_no);
-      debug_assert(filter->addr != 0);
       platform_status rc = routing_filter_lookup(
          spl->cc, &spl->cfg.filter_cfg, filter, target, &found_values);
       platform_assert_status_ok(rc);
@@ -7229,7 +7225,6 @@ trunk_bundle_lookup(trunk_handle      *spl,
       } else {
          routing_filter *filter = trunk_subbundle_filter(spl, node, sb, 0);
          routing_config *cfg    = &spl->cfg.filter_cfg;
-         debug_assert(filter->addr != 0);
          should_continue = trunk_filter_lookup(
             spl, node, filter, cfg, sb->start_branch, target, data);
       }
-- 
2.43.0


From a07c265bb6bac785cce4c2586f637855889744c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:57 +0000
Subject: [PATCH 22/31] fix: debug builds checked prefetched pages after they
 could be evicted

---
 src/clockcache.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/clockcache.c b/src/clockcache.c
index 2486c72..9f53b3b 100644
--- a/src/clockcache.c
+++ b/src/clockcache.c
@@ -2869,16 +2869,17 @@ clockcache_prefetch_callback(void           *metadata,
       } else {
          type = entry->type;
       }
-      debug_only uint32 was_loading =
-         clockcache_clear_flag(cc, entry_no, CC_LOADING);
-      debug_assert(was_loading);
-
       debug_code(int64 addr = entry->page.disk_addr);
       debug_assert(addr != CC_UNMAPPED_ADDR);
       debug_assert(last_addr == CC_UNMAPPED_ADDR
                    || addr == last_addr + page_size);
       debug_code(last_addr = addr);
       debug_assert(entry_no == clockcache_lookup(cc, addr));
+
+      // from here on the page can be evicted or discarded
+      debug_only uint32 was_loading =
+         clockcache_clear_flag(cc, entry_no, CC_LOADING);
+      debug_assert(was_loading);
    }
 
    if (cc->cfg->use_stats) {
-- 
2.43.0


From a0bd703b634e053f63d049c43553e0672673b909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:57 +0000
Subject: [PATCH 23/31] fix: filters piling up in trunk nodes silently overran
 their 24 slots

The slots of a node hold one filter per memtable in each bundle that waits for
its filters; four outstanding compactions could exceed them.
---
 src/trunk.c | 44 +++++++++++++++++++++++++++++++++++++++++---
 src/trunk.h |  1 +
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/src/trunk.c b/src/trunk.c
index 3e4b64c..01e5cb4 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -3868,7 +3868,7 @@ trunk_memtable_incorporate_and_flush(trunk_handle  *spl,
  * A bundle leaves the root once it is compacted and its filters are built,
  * which is done by background tasks. They may be outpaced by incorporations.
  * Then compactions and filters of the nodes below pile up as well, so also wait
- * until there are few of these left.
+ * until there are few of these left, or none if a node is running out of slots.
  */
 static void
 trunk_wait_for_room_in_root(trunk_handle *spl)
@@ -3879,9 +3879,13 @@ trunk_wait_for_room_in_root(trunk_handle *spl)
       trunk_root_get(spl, &root);
       uint16 num_bundles = trunk_bundle_count(spl, &root);
       trunk_node_unget(spl->cc, &root);
+      uint64 max_reqs = spl->must_drain_bundle_reqs ? 0 : TRUNK_MAX_BUNDLE_REQS;
       if (num_bundles < TRUNK_MAX_BUNDLES / 2
-          && spl->num_bundle_reqs <= TRUNK_MAX_BUNDLE_REQS)
+          && spl->num_bundle_reqs <= max_reqs)
       {
+         if (max_reqs == 0) {
+            spl->must_drain_bundle_reqs = FALSE;
+         }
          return;
       }
 
@@ -4820,6 +4824,33 @@ trunk_flush_into_bundle(trunk_handle             *spl,    // IN
    return bundle;
 }
 
+/*
+ * Number of subbundle filters in the node
+ */
+static inline uint16
+trunk_sb_filter_count(trunk_handle *spl, trunk_node *node)
+{
+   return trunk_subtract_subbundle_filter_number(
+      spl, trunk_end_sb_filter(spl, node), trunk_start_sb_filter(spl, node));
+}
+
+/*
+ * Number of subbundle filters which a flush of the pivot passes on
+ */
+static inline uint16
+trunk_pivot_sb_filter_count(trunk_handle     *spl,
+                            trunk_node       *node,
+                            trunk_pivot_data *pdata)
+{
+   if (trunk_pivot_subbundle_count(spl, node, pdata) == 0) {
+      return 0;
+   }
+   uint16           sb_no = trunk_pivot_start_subbundle(spl, node, pdata);
+   trunk_subbundle *sb    = trunk_get_subbundle(spl, node, sb_no);
+   return trunk_subtract_subbundle_filter_number(
+      spl, trunk_end_sb_filter(spl, node), sb->start_filter);
+}
+
 /*
  * room_to_flush checks that there is enough physical space in child to flush
  * from parent.
@@ -4838,9 +4869,12 @@ trunk_room_to_flush(trunk_handle     *spl,
    uint16 child_subbundles = trunk_subbundle_count(spl, child);
    uint16 flush_subbundles =
       trunk_pivot_subbundle_count(spl, parent, pdata) + 1;
+   uint16 child_filters = trunk_sb_filter_count(spl, child);
+   uint16 flush_filters = trunk_pivot_sb_filter_count(spl, parent, pdata) + 1;
    return child_branches + flush_branches < spl->cfg.hard_max_branches_per_node
           && child_bundles + 2 <= TRUNK_MAX_BUNDLES
-          && child_subbundles + flush_subbundles + 1 < TRUNK_MAX_SUBBUNDLES;
+          && child_subbundles + flush_subbundles + 1 < TRUNK_MAX_SUBBUNDLES
+          && child_filters + flush_filters + 1 < TRUNK_MAX_SUBBUNDLE_FILTERS;
 }
 
 /*
@@ -4939,6 +4973,10 @@ trunk_flush(trunk_handle     *spl,
                                        req->input_pivot_kv_byte_count);
    trunk_bundle_inc_pivot_rc(spl, &new_child, bundle);
    debug_assert(allocator_page_valid(spl->al, req->addr));
+   if (trunk_sb_filter_count(spl, &new_child) > TRUNK_MAX_SUBBUNDLE_FILTERS / 4)
+   {
+      spl->must_drain_bundle_reqs = TRUE;
+   }
    req->type = is_space_rec ? TRUNK_COMPACTION_TYPE_FLUSH
                             : TRUNK_COMPACTION_TYPE_SPACE_REC;
 
diff --git a/src/trunk.h b/src/trunk.h
index c890d2d..c5b34d3 100644
--- a/src/trunk.h
+++ b/src/trunk.h
@@ -200,6 +200,7 @@ struct trunk_handle {
    uint64                super_block_idx;
    uint64                next_node_id;
    volatile uint64       num_bundle_reqs; // compactions not completed yet
+   volatile bool32       must_drain_bundle_reqs; // before more are issued
    trunk_config          cfg;
    platform_heap_id      heap_id;
    platform_batch_rwlock trunk_root_lock;
-- 
2.43.0


From d8d0c48cd89ddc0bcb2e37437ede97232301095a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:58 +0000
Subject: [PATCH 24/31] fix: clockcache_evict_all() checks the pin count of the
 entry at hand

---
 src/clockcache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/clockcache.c b/src/clockcache.c
index 9f53b3b..be59a26 100644
--- a/src/clockcache.c
+++ b/src/clockcache.c
@@ -1733,7 +1733,7 @@ clockcache_evict_all(clockcache *cc, bool32 ignore_pinned_pages)
 
    for (i = 0; i < cc->cfg->page_capacity; i++) {
       debug_only uint32 entry_no =
-         clockcache_page_to_entry_number(cc, &cc->entry->page);
+         clockcache_page_to_entry_number(cc, &cc->entry[i].page);
       // Every page should either be evicted or pinned.
       debug_assert(
          cc->entry[i].status == CC_FREE_STATUS
-- 
2.43.0


From 35af95cf75dbf774160f3bd199d426045a8ae8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:58 +0000
Subject: [PATCH 25/31] fix: clockcache_page_sync() tolerates a concurrent
 writeback of the page

---
 src/clockcache.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/clockcache.c b/src/clockcache.c
index be59a26..31cbf9c 100644
--- a/src/clockcache.c
+++ b/src/clockcache.c
@@ -2701,9 +2701,18 @@ clockcache_page_sync(clockcache  *cc,
    const threadid  tid  = platform_get_tid();
    platform_status status;
 
-   if (!clockcache_try_set_writeback(cc, entry_number, TRUE)) {
-      platform_assert(clockcache_test_flag(cc, entry_number, CC_CLEAN));
-      return;
+   while (!clockcache_try_set_writeback(cc, entry_number, TRUE)) {
+      entry_status status = clockcache_get_status(cc, entry_number);
+      if (status & CC_CLEAN) {
+         return;
+      }
+      if (status & CC_WRITEBACK) {
+         // a writeback that has already been issued carries these contents
+         if (!is_blocking) {
+            return;
+         }
+         clockcache_wait(cc);
+      }
    }
 
    if (cc->cfg->use_stats) {
-- 
2.43.0


From 470df59d3e41f16bbe16bb29a03c1fee6dfe48d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:50 +0000
Subject: [PATCH 26/31] fix: remember where the trunk's extent list starts

trunk_mount() looked for the head of the trunk's mini allocator on the page
after the root.  That holds only until the root is first copied; destroying
a mounted database then gave back a reference on an unrelated extent and
leaked all extents of the trunk.
---
 src/trunk.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/trunk.c b/src/trunk.c
index 01e5cb4..9c25bf8 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -457,6 +457,7 @@ typedef struct ONDISK trunk_super_block {
    uint64 root_addr; // Address of the root of the trunk for the instance
                      // referenced by this superblock.
    uint64      next_node_id;
+   uint64      meta_head;
    uint64      meta_tail;
    uint64      log_addr;
    uint64      log_meta_addr;
@@ -945,6 +946,7 @@ trunk_set_super_block(trunk_handle *spl,
    super               = (trunk_super_block *)super_page->data;
    super->root_addr    = spl->root_addr;
    super->next_node_id = spl->next_node_id;
+   super->meta_head    = spl->mini.meta_head;
    super->meta_tail    = mini_meta_tail(&spl->mini);
    if (spl->cfg.use_log) {
       if (spl->log) {
@@ -8171,6 +8173,7 @@ trunk_mount(trunk_config     *cfg,
 
    // find the unmounted super block
    spl->root_addr                      = 0;
+   uint64             meta_head        = 0;
    uint64             meta_tail        = 0;
    uint64             latest_timestamp = 0;
    page_handle       *super_page;
@@ -8179,6 +8182,7 @@ trunk_mount(trunk_config     *cfg,
       if (super->unmounted && super->timestamp > latest_timestamp) {
          spl->root_addr    = super->root_addr;
          spl->next_node_id = super->next_node_id;
+         meta_head         = super->meta_head;
          meta_tail         = super->meta_tail;
          latest_timestamp  = super->timestamp;
       }
@@ -8196,7 +8200,6 @@ trunk_mount(trunk_config     *cfg,
       platform_free(hid, spl);
       return (trunk_handle *)NULL;
    }
-   uint64 meta_head = spl->root_addr + trunk_page_size(&spl->cfg);
 
    memtable_config *mt_cfg = &spl->cfg.mt_cfg;
    spl->mt_ctxt            = memtable_context_create(
-- 
2.43.0


From 06779e747135a7b89a89a87c2e01e036d3e614d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:41 +0000
Subject: [PATCH 27/31] fix: release the log when the database is closed

A log is never read again after a clean close, but its extents stayed
allocated: every open with use_log set leaked them.  shard_log_zap() now also
returns the extent the mini allocator holds in reserve.
---
 src/shard_log.c | 1 +
 src/trunk.c     | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/shard_log.c b/src/shard_log.c
index 7249bb6..fb81090 100644
--- a/src/shard_log.c
+++ b/src/shard_log.c
@@ -135,6 +135,7 @@ shard_log_zap(shard_log *log)
       thread_data->offset                = 0;
    }
 
+   mini_release(&log->mini, NULL_KEY);
    mini_unkeyed_dec_ref(cc, log->meta_head, PAGE_TYPE_LOG, FALSE);
 }
 
diff --git a/src/trunk.c b/src/trunk.c
index 9c25bf8..01bff4a 100644
--- a/src/trunk.c
+++ b/src/trunk.c
@@ -8280,8 +8280,9 @@ trunk_prepare_for_shutdown(trunk_handle *spl)
    // destroy memtable context (and its memtables)
    memtable_context_destroy(spl->heap_id, spl->mt_ctxt);
 
-   // release the log
+   // release the log: the trunk holds all its entries by now
    if (spl->cfg.use_log) {
+      shard_log_zap((shard_log *)spl->log);
       platform_free(spl->heap_id, spl->log);
    }
 
-- 
2.43.0


From 8988eb099c4f29e83386c61ef8dff8455bcd9b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:40 +0000
Subject: [PATCH 28/31] fix: a log page written to again is dirty again

shard_log_write() locked and modified its page without marking it dirty.
If the page had been written back in the meantime, it could be evicted
as clean, and the entries written since were lost.
---
 src/shard_log.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/shard_log.c b/src/shard_log.c
index fb81090..5a426a8 100644
--- a/src/shard_log.c
+++ b/src/shard_log.c
@@ -237,6 +237,7 @@ shard_log_write(log_handle *logh, key tuple_key, message msg, uint64 generation)
          wait = wait > 1024 ? wait : 2 * wait;
       }
       cache_lock(cc, page);
+      cache_mark_dirty(cc, page);
    }
 
    shard_log_hdr *hdr    = (shard_log_hdr *)page->data;
-- 
2.43.0


From e28b466fd687b2affa92636a507f9db4f1ece65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:40 +0000
Subject: [PATCH 29/31] fix: order log entries by the whole of their
 generations

shard_log_compare() truncated the difference of two 64-bit generations
to int.
---
 src/shard_log.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shard_log.c b/src/shard_log.c
index 5a426a8..9e9ba54 100644
--- a/src/shard_log.c
+++ b/src/shard_log.c
@@ -322,7 +322,10 @@ shard_log_compare(const void *p1, const void *p2, void *unused)
 {
    log_entry **le1 = (log_entry **)p1;
    log_entry **le2 = (log_entry **)p2;
-   return (*le1)->generation - (*le2)->generation;
+   if ((*le1)->generation == (*le2)->generation) {
+      return 0;
+   }
+   return (*le1)->generation < (*le2)->generation ? -1 : 1;
 }
 
 log_handle *
-- 
2.43.0


From e57ad415c965a3d4b8f8547a21d34270105964dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:13 +0000
Subject: [PATCH 30/31] fix: reading back a log without a complete page

The iterator allocated arrays of no size; debug builds asserted.
---
 src/shard_log.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/shard_log.c b/src/shard_log.c
index 9e9ba54..92a1282 100644
--- a/src/shard_log.c
+++ b/src/shard_log.c
@@ -381,6 +381,11 @@ shard_log_iterator_init(cache              *cc,
 
 finished_first_pass:
 
+   if (num_valid_pages == 0) {
+      // nothing to read
+      return STATUS_OK;
+   }
+
    itor->contents = TYPED_ARRAY_MALLOC(
       hid, itor->contents, num_valid_pages * shard_log_page_size(cfg));
    itor->entries = TYPED_ARRAY_MALLOC(hid, itor->entries, itor->num_entries);
@@ -432,8 +437,10 @@ finished_second_pass:
 void
 shard_log_iterator_deinit(platform_heap_id hid, shard_log_iterator *itor)
 {
-   platform_free(hid, itor->contents);
-   platform_free(hid, itor->entries);
+   if (itor->contents != NULL) {
+      platform_free(hid, itor->contents);
+      platform_free(hid, itor->entries);
+   }
 }
 
 void
-- 
2.43.0


From 8acb0d02a9557cd51a470e5c3a9023bdd2ae680c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:50 +0000
Subject: [PATCH 31/31] fix: shrinking a piece of shared memory overran the new
 one

platform_shm_realloc() copied the old size.
---
 src/platform_linux/shmem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/platform_linux/shmem.c b/src/platform_linux/shmem.c
index a76f8c1..278913d 100644
--- a/src/platform_linux/shmem.c
+++ b/src/platform_linux/shmem.c
@@ -654,7 +654,7 @@ platform_shm_realloc(platform_heap_id hid,
 
       // Copy over old contents, if any, and free that memory piece
       if (oldptr) {
-         memcpy(retptr, oldptr, oldsize);
+         memcpy(retptr, oldptr, MIN(oldsize, newsize));
          platform_shm_free(hid, oldptr, "Unknown", func, file, lineno);
       }
    } else {
-- 
2.43.0

