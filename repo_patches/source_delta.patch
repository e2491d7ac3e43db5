From 91e2af95abf9248346c36953f50513258f54a7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:33 +0000
Subject: [PATCH 01/50] fix: scan uses the key length it already read to fetch
 a key suffix

find_initial and find_next read keylenx_[kx.p], tested it, and then called
ksuf(kx.p), which re-reads keylenx_[] and asserts that it still denotes a
suffix. A concurrent insert that turns the entry into a layer between the two
reads made the scan abort, although the version check right after would have
retried. Pass the length already read.
---
 masstree_scan.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/masstree_scan.hh b/masstree_scan.hh
index bccf7b6..b1351db 100644
--- a/masstree_scan.hh
+++ b/masstree_scan.hh
@@ -202,7 +202,7 @@ int scanstackelt<P>::find_initial(H& helper, key_type& ka, bool emit_equal,
         entry = n_->lv_[kx.p];
         entry.prefetch(keylenx);
         if (n_->keylenx_has_ksuf(keylenx)) {
-            suffix = n_->ksuf(kx.p);
+            suffix = n_->ksuf(kx.p, keylenx);
             memcpy(suffixbuf, suffix.s, suffix.len);
             suffix.s = suffixbuf;
         }
@@ -267,7 +267,7 @@ int scanstackelt<P>::find_next(H &helper, key_type &ka, leafvalue_type &entry)
         entry = n_->lv_[kp];
         entry.prefetch(keylenx);
         if (n_->keylenx_has_ksuf(keylenx))
-            keylen = ka.assign_store_suffix(n_->ksuf(kp));
+            keylen = ka.assign_store_suffix(n_->ksuf(kp, keylenx));
 
         if (n_->has_changed(v_))
             goto changed;
-- 
2.43.0


From 23977f65ad4bad1df3391c509bfb7acfae4a9a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 02/50] fix: do not walk the leaf list to find the leaf to
 modify after a split

find_locked, finding that its leaf had split, walked right along the leaf list.
remove_leaf unlinks an emptied leaf from that list before it removes the leaf
from its parent, so in between the walk could stop at the left sibling of the
leaf that still owned the key's range. The key was then inserted there; if that
split the sibling, the parent got two children with the same bound and the
pending removal hit 'p->child_[kp] == n'. Restart from the root instead, which
waits for the removal.
---
 masstree_get.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/masstree_get.hh b/masstree_get.hh
index 819ee8b..19d3960 100644
--- a/masstree_get.hh
+++ b/masstree_get.hh
@@ -99,8 +99,15 @@ bool tcursor<P>::find_locked(threadinfo& ti)
 
     n_->lock(v, ti.lock_fence(tc_leaf_lock));
     if (n_->has_changed(v) || n_->permutation() != perm) {
-        ti.mark(threadcounter(tc_stable_leaf_insert + n_->simple_has_split(v)));
+        bool has_split = n_->simple_has_split(v);
+        ti.mark(threadcounter(tc_stable_leaf_insert + has_split));
         n_->unlock();
+        // After a split, do not walk right to find the responsible leaf: it
+        // might have been emptied and unlinked from the leaf list, but not
+        // yet removed from its parent, and then a left sibling must not
+        // accept its keys.
+        if (unlikely(has_split))
+            goto retry;
         n_ = n_->advance_to_key(ka_, v, ti);
         goto forward;
     } else if (unlikely(state_ < 0)) {
-- 
2.43.0


From d1ef07bd23db767ad4f08a7fb1d7a6a8a75838c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 03/50] fix: scans report every leaf they examine to visit_leaf

visit_leaf was called after find_next, which has already moved on when a leaf
holds nothing to emit. The versions of empty leaves, and of leaves entered with
nothing left to emit, were thus never reported, and a later insertion into such
a leaf went unnoticed by version validation.
---
 masstree_scan.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/masstree_scan.hh b/masstree_scan.hh
index b1351db..7214650 100644
--- a/masstree_scan.hh
+++ b/masstree_scan.hh
@@ -351,9 +351,10 @@ int basic_table<P>::scan(H helper,
 
         case mystack_type::scan_find_next:
         find_next:
+            // report the leaf before examining it: find_next moves past
+            // leaves with nothing to emit
+            scanner.visit_leaf(stack, ka, ti);
             state = stack.find_next(helper, ka, entry);
-            if (state != mystack_type::scan_up)
-                scanner.visit_leaf(stack, ka, ti);
             break;
 
         case mystack_type::scan_up:
-- 
2.43.0


From 141bfea40795498ff8f9a7f2665e54114713f656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 04/50] fix: full_unlocked_version_value pairs the version with
 its own size

The version and the size were read separately. A removal in between could
combine the old version with the new size, and that pair could equal a recorded
one although a key had been inserted and another removed since.
---
 masstree_struct.hh | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/masstree_struct.hh b/masstree_struct.hh
index 494dcca..650486e 100644
--- a/masstree_struct.hh
+++ b/masstree_struct.hh
@@ -338,6 +338,18 @@ class leaf : public node_base<P> {
     typename nodeversion_type::value_type full_unlocked_version_value() const {
         static_assert(int(nodeversion_type::traits_type::top_stable_bits) >= int(permuter_type::size_bits), "not enough bits to add size to version");
         typename node_base<P>::nodeversion_type v(*this);
+        int sz;
+        while (true) {
+            // read a size that belongs to version `v`
+            fence();
+            sz = size();
+            fence();
+            typename node_base<P>::nodeversion_type v2(*this);
+            if (!v2.has_changed(v)) {
+                break;
+            }
+            v = v2;
+        }
         if (v.locked()) {
             // subtly, unlocked_version_value() is different than v.unlock();
             // v.version_value() because the latter will add a split bit if
@@ -345,7 +357,7 @@ class leaf : public node_base<P> {
             // correct version.
             v.unlock();
         }
-        return (v.version_value() << permuter_type::size_bits) + size();
+        return (v.version_value() << permuter_type::size_bits) + sz;
     }
 
     using node_base<P>::has_changed;
-- 
2.43.0


From f759ff0575de299490145ea312e62bf59b97d96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 05/50] fix: versions recorded in a collapsed layer no longer
 validate

gc_layer marks an empty layer root as a deleted layer without changing its
version. A lookup that ended there had recorded that version, and it stayed
valid although keys of the layer were later inserted into the parent layer's
leaf.
---
 masstree_struct.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/masstree_struct.hh b/masstree_struct.hh
index 650486e..47ef26c 100644
--- a/masstree_struct.hh
+++ b/masstree_struct.hh
@@ -357,6 +357,12 @@ class leaf : public node_base<P> {
             // correct version.
             v.unlock();
         }
+        // A deleted layer's keys belong to the parent layer, so a version
+        // recorded here says nothing about them any more. Return a value
+        // that no stable version has.
+        if (deleted_layer()) {
+            return ~typename nodeversion_type::value_type(0);
+        }
         return (v.version_value() << permuter_type::size_bits) + sz;
     }
 
-- 
2.43.0


From 59f7ddda2f47d939335273189434e6cfbb2c54bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:54 +0000
Subject: [PATCH 06/50] fix: phantom epochs always reach the leaf that takes
 over the keys

Timestamps of re-inserted keys must exceed those of their removal, which the
leaf's phantom epoch ensures. The epoch got lost when (1) apply_remove raised it
with a plain store while the removal of the right neighbor raised it too, (2) the
left neighbor, having copied its epoch to a new right sibling, linked that
sibling after the epoch had been bequeathed, or (3) the left neighbor was itself
being removed. Raise epochs atomically, bequeath while the predecessor is
pinned, and refresh a new sibling's epoch once it is linked.
---
 btree_leaflink.hh  | 16 +++++++++++++++-
 kvrow.hh           |  9 +++++++--
 masstree_remove.hh | 28 +++++++---------------------
 masstree_split.hh  |  3 +++
 masstree_struct.hh | 15 +++++++++++++++
 5 files changed, 47 insertions(+), 24 deletions(-)

diff --git a/btree_leaflink.hh b/btree_leaflink.hh
index d1bb060..49b5b03 100644
--- a/btree_leaflink.hh
+++ b/btree_leaflink.hh
@@ -79,6 +79,14 @@ template <typename N> struct btree_leaflink<N, true> {
     /** @overload */
     template <typename SF>
     static void unlink(N *n, SF spin_function) {
+        unlink(n, spin_function, [] (N*) {});
+    }
+    /** @overload
+
+        Calls @a inherit(prev) on @a n's final predecessor while that
+        predecessor can neither be unlinked nor gain a new successor. */
+    template <typename SF, typename IF>
+    static void unlink(N *n, SF spin_function, IF inherit) {
         // Assume node order A <-> N <-> B. Since n is locked, n cannot split;
         // next node will always be B or one of its successors.
         N *next = lock_next(n, spin_function);
@@ -89,6 +97,7 @@ template <typename N> struct btree_leaflink<N, true> {
                 break;
             spin_function();
         }
+        inherit(prev);
         if (next)
             next->prev_ = prev;
         fence();
@@ -114,7 +123,12 @@ template <typename N> struct btree_leaflink<N, false> {
         unlink(n, do_nothing());
     }
     template <typename SF>
-    static void unlink(N *n, SF) {
+    static void unlink(N *n, SF spin_function) {
+        unlink(n, spin_function, [] (N*) {});
+    }
+    template <typename SF, typename IF>
+    static void unlink(N *n, SF, IF inherit) {
+        inherit(n->prev_);
         if (n->next_.ptr)
             n->next_.ptr->prev_ = n->prev_;
         n->prev_->next_.ptr = n->next_.ptr;
diff --git a/kvrow.hh b/kvrow.hh
index a92c9b2..cf7b379 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -258,8 +258,13 @@ inline void query<R>::apply_remove(R*& value, kvtimestamp_t& node_ts,
 
     R* old_value = value;
     assign_timestamp(ti, old_value->timestamp());
-    if (circular_int<kvtimestamp_t>::less_equal(node_ts, qtimes_.ts)) {
-        node_ts = qtimes_.ts + 2;
+    // atomic because node removal can concurrently raise a neighbor's epoch
+    while (true) {
+        kvtimestamp_t old_node_ts = node_ts;
+        if (!circular_int<kvtimestamp_t>::less_equal(old_node_ts, qtimes_.ts)
+            || bool_cmpxchg(&node_ts, old_node_ts, qtimes_.ts + 2)) {
+            break;
+        }
     }
     old_value->deallocate_rcu(ti);
 }
diff --git a/masstree_remove.hh b/masstree_remove.hh
index b1a749d..827856b 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -99,10 +99,7 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
         masstree_invariant(!lf->prev_ && !lf->next_.ptr);
         masstree_invariant(!lf->deleted());
         masstree_invariant(!lf->deleted_layer());
-        if (P::need_phantom_epoch
-            && circular_int<typename P::phantom_epoch_type>::less(n_->phantom_epoch_[0], lf->phantom_epoch_[0])) {
-            n_->phantom_epoch_[0] = lf->phantom_epoch_[0];
-        }
+        n_->raise_phantom_epoch(lf->phantom_epoch());
         lf->mark_deleted_layer();   // NB DO NOT mark as deleted (see above)
         lf->unlock();
         lf->deallocate_rcu(ti);
@@ -190,23 +187,12 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
     leaf->mark_deleted();
     leaf->deallocate_rcu(ti);
 
-    // Ensure node that becomes responsible for our keys has its phantom epoch
-    // kept up to date
-    while (P::need_phantom_epoch) {
-        leaf_type *prev = leaf->prev_;
-        typename P::phantom_epoch_type prev_ts = prev->phantom_epoch();
-        while (circular_int<typename P::phantom_epoch_type>::less(prev_ts, leaf->phantom_epoch())
-               && !bool_cmpxchg(&prev->phantom_epoch_[0], prev_ts, leaf->phantom_epoch())) {
-            prev_ts = prev->phantom_epoch();
-        }
-        fence();
-        if (prev == leaf->prev_) {
-            break;
-        }
-    }
-
-    // Unlink leaf from doubly-linked leaf list
-    btree_leaflink<leaf_type>::unlink(leaf);
+    // Unlink leaf from doubly-linked leaf list. Ensure node that becomes
+    // responsible for our keys has its phantom epoch kept up to date
+    btree_leaflink<leaf_type>::unlink(leaf, relax_fence_function(),
+        [leaf] (leaf_type* prev) {
+            prev->raise_phantom_epoch(leaf->phantom_epoch());
+        });
 
     // Remove leaf from tree, collapse trivial chains, and rewrite
     // ikey bounds.
diff --git a/masstree_split.hh b/masstree_split.hh
index ac8d97c..27b1910 100644
--- a/masstree_split.hh
+++ b/masstree_split.hh
@@ -115,6 +115,9 @@ int leaf<P>::split_into(leaf<P>* nr, tcursor<P>* cursor,
 
     // link `nr` across leaves
     btree_leaflink<leaf<P>, P::concurrent>::link_split(this, nr);
+    // a right neighbor might have bequeathed us its phantom epoch since `nr`
+    // was created
+    nr->raise_phantom_epoch(this->phantom_epoch());
 
     // return split type
     return p < mid ? 0 : 1 + (mid == width);
diff --git a/masstree_struct.hh b/masstree_struct.hh
index 47ef26c..39c3b9f 100644
--- a/masstree_struct.hh
+++ b/masstree_struct.hh
@@ -20,6 +20,7 @@
 #include "stringbag.hh"
 #include "mtcounters.hh"
 #include "timestamp.hh"
+#include "circular_int.hh"
 namespace Masstree {
 
 template <typename P>
@@ -325,6 +326,20 @@ class leaf : public node_base<P> {
         return P::need_phantom_epoch ? phantom_epoch_[0] : phantom_epoch_type();
     }
 
+    /** @brief Set the phantom epoch to at least @a epoch.
+
+        Atomic because the caller might hold the lock of a neighbor, rather
+        than this node's own lock. */
+    void raise_phantom_epoch(phantom_epoch_type epoch) {
+        while (P::need_phantom_epoch) {
+            phantom_epoch_type old = phantom_epoch_[0];
+            if (!circular_int<phantom_epoch_type>::less(old, epoch)
+                || bool_cmpxchg(&phantom_epoch_[0], old, epoch)) {
+                break;
+            }
+        }
+    }
+
     int size() const {
         return permuter_type::size(permutation_);
     }
-- 
2.43.0


From 310aced913e769ea4e8825162e11a9ddc676e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:46 +0000
Subject: [PATCH 07/50] fix: retire rows and nodes only after unlinking them

Objects were handed to RCU before they became unreachable. If the global
epoch advanced in between, a reader of the later epoch could still obtain
the pointer, yet the object was freed once the earlier epoch had passed.
---
 kvrow.hh            | 26 ++++++++++++++++----------
 masstree_remove.hh  | 36 ++++++++++++++++++++++--------------
 masstree_tcursor.hh |  2 +-
 3 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/kvrow.hh b/kvrow.hh
index cf7b379..a208187 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -88,7 +88,8 @@ class query {
                           const Json* lastreq, threadinfo& ti);
     inline bool apply_replace(R*& value, bool found, Str new_value,
                               threadinfo& ti);
-    inline void apply_remove(R*& value, kvtimestamp_t& node_ts, threadinfo& ti);
+    inline void apply_remove(R* old_value, kvtimestamp_t& node_ts,
+                             threadinfo& ti);
 
     template <typename RR> friend class query_json_scanner;
 };
@@ -185,7 +186,6 @@ inline bool query<R>::apply_put(R*& value, bool found, const Json* firstreq,
     }
 
     if (!found) {
-    insert:
         assign_timestamp(ti);
         value = R::create(firstreq, lastreq, qtimes_.ts, ti);
         return true;
@@ -194,8 +194,9 @@ inline bool query<R>::apply_put(R*& value, bool found, const Json* firstreq,
     R* old_value = value;
     assign_timestamp(ti, old_value->timestamp());
     if (row_is_marker(old_value)) {
+        value = R::create(firstreq, lastreq, qtimes_.ts, ti);
         old_value->deallocate_rcu(ti);
-        goto insert;
+        return true;
     }
 
     R* updated = old_value->update(firstreq, lastreq, qtimes_.ts, ti);
@@ -226,15 +227,18 @@ inline bool query<R>::apply_replace(R*& value, bool found, Str new_value,
         qtimes_.epoch = global_log_epoch;
     }
 
-    bool inserted = !found || row_is_marker(value);
+    R* old_value = found ? value : nullptr;
+    bool inserted = !found || row_is_marker(old_value);
     if (!found) {
         assign_timestamp(ti);
     } else {
-        assign_timestamp(ti, value->timestamp());
-        value->deallocate_rcu(ti);
+        assign_timestamp(ti, old_value->timestamp());
     }
 
     value = R::create1(new_value, qtimes_.ts, ti);
+    if (old_value) {
+        old_value->deallocate_rcu(ti);
+    }
     return inserted;
 }
 
@@ -242,21 +246,24 @@ template <typename R> template <typename T>
 bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     typename T::cursor_type lp(table, key);
     bool found = lp.find_locked(ti);
+    R* old_value = found ? lp.value() : nullptr;
     if (found)
-        apply_remove(lp.value(), lp.node()->phantom_epoch_[0], ti);
+        apply_remove(old_value, lp.node()->phantom_epoch_[0], ti);
     lp.finish(-1, ti);
+    // retire the row only now that no new reader can find it
+    if (found)
+        old_value->deallocate_rcu(ti);
     return found;
 }
 
 template <typename R>
-inline void query<R>::apply_remove(R*& value, kvtimestamp_t& node_ts,
+inline void query<R>::apply_remove(R* old_value, kvtimestamp_t& node_ts,
                                    threadinfo& ti) {
     if (loginfo* log = ti.logger()) {
         log->acquire();
         qtimes_.epoch = global_log_epoch;
     }
 
-    R* old_value = value;
     assign_timestamp(ti, old_value->timestamp());
     // atomic because node removal can concurrently raise a neighbor's epoch
     while (true) {
@@ -266,7 +273,6 @@ inline void query<R>::apply_remove(R*& value, kvtimestamp_t& node_ts,
             break;
         }
     }
-    old_value->deallocate_rcu(ti);
 }
 
 
diff --git a/masstree_remove.hh b/masstree_remove.hh
index 827856b..4de180e 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -20,8 +20,11 @@
 #include "circular_int.hh"
 namespace Masstree {
 
+/** Collapse the layer below the cursor's key if it is empty.
+ * @return The layer's empty leaf, or null if there is nothing to collapse.
+ *   The caller must remove the layer's entry, and then retire the leaf. */
 template <typename P>
-bool tcursor<P>::gc_layer(threadinfo& ti)
+leaf<P>* tcursor<P>::gc_layer(threadinfo& ti)
 {
     find_locked(ti);
     masstree_precondition(!n_->deleted() && !n_->deleted_layer());
@@ -30,7 +33,7 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
     // succeeded at removing multiple tree layers. So check that the whole
     // key has been consumed
     if (ka_.has_suffix()) {
-        return false;
+        return nullptr;
     }
 
     // find the slot for the child tree
@@ -40,12 +43,12 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
     // length ikey_size; we need to adjust ki_.
     kx_.i += has_value();
     if (kx_.i >= n_->size()) {
-        return false;
+        return nullptr;
     }
     permuter_type perm(n_->permutation_);
     kx_.p = perm[kx_.i];
     if (n_->ikey0_[kx_.p] != ka_.ikey() || !n_->is_layer(kx_.p)) {
-        return false;
+        return nullptr;
     }
 
     // remove redundant internode layers
@@ -63,7 +66,7 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
 
         internode_type *in = static_cast<internode_type *>(layer);
         if (in->size() > 0) {
-            return false;
+            return nullptr;
         }
         in->lock(*layer, ti.lock_fence(tc_internode_lock));
         if (!in->is_root() || in->size() > 0) {
@@ -88,7 +91,7 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
     {
         leaf_type* lf = static_cast<leaf_type*>(layer);
         if (lf->size() > 0) {
-            return false;
+            return nullptr;
         }
         lf->lock(*lf, ti.lock_fence(tc_leaf_lock));
         if (!lf->is_root() || lf->size() > 0) {
@@ -102,13 +105,12 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
         n_->raise_phantom_epoch(lf->phantom_epoch());
         lf->mark_deleted_layer();   // NB DO NOT mark as deleted (see above)
         lf->unlock();
-        lf->deallocate_rcu(ti);
-        return true;
+        return lf;
     }
 
  unlock_layer:
     layer->unlock();
-    return false;
+    return nullptr;
 }
 
 template <typename P>
@@ -136,10 +138,13 @@ void gc_layer_rcu_callback<P>::operator()(threadinfo& ti)
     }
     if (!root_->deleted()) {    // if not destroying tree...
         tcursor<P> lp(root_, s_, len_);
-        bool do_remove = lp.gc_layer(ti);
-        if (!do_remove || !lp.finish_remove(ti)) {
+        leaf<P>* empty = lp.gc_layer(ti);
+        if (!empty || !lp.finish_remove(ti)) {
             lp.n_->unlock();
         }
+        if (empty) {
+            empty->deallocate_rcu(ti);
+        }
         ti.deallocate(this, size(), memtag_masstree_gc);
     }
 }
@@ -183,9 +188,8 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         return false;
     }
 
-    // mark leaf deleted, RCU-free
+    // mark leaf deleted; it is RCU-freed once it is unreachable
     leaf->mark_deleted();
-    leaf->deallocate_rcu(ti);
 
     // Unlink leaf from doubly-linked leaf list. Ensure node that becomes
     // responsible for our keys has its phantom epoch kept up to date
@@ -224,6 +228,11 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
 
         n->unlock();
+        if (n == leaf) {
+            leaf->deallocate_rcu(ti);
+        } else {
+            static_cast<internode_type*>(n)->deallocate_rcu(ti);
+        }
         n = p;
 
         if (p->nkeys_ || p->is_root()) {
@@ -231,7 +240,6 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
 
         p->mark_deleted();
-        p->deallocate_rcu(ti);
         replacement = p->child_[0];
         p->child_[0] = nullptr;
     }
diff --git a/masstree_tcursor.hh b/masstree_tcursor.hh
index b3782dd..6b65d03 100644
--- a/masstree_tcursor.hh
+++ b/masstree_tcursor.hh
@@ -193,7 +193,7 @@ class tcursor {
     static bool remove_leaf(leaf_type* leaf, node_type* root,
                             Str prefix, threadinfo& ti);
 
-    bool gc_layer(threadinfo& ti);
+    leaf_type* gc_layer(threadinfo& ti);
     friend struct gc_layer_rcu_callback<P>;
 };
 
-- 
2.43.0


From fc2a25dc17e5c7acd626666f70b2c5a3dfd07e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:01 +0000
Subject: [PATCH 08/50] fix: publish a key's suffix before its keylenx says it
 has one

A reader with a stale permutation could otherwise fetch a suffix from a leaf
that has no suffix bag, and copy a garbage-length string.
---
 masstree_struct.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/masstree_struct.hh b/masstree_struct.hh
index 39c3b9f..caf9164 100644
--- a/masstree_struct.hh
+++ b/masstree_struct.hh
@@ -533,8 +533,11 @@ class leaf : public node_base<P> {
         if (!ka.has_suffix()) {
             keylenx_[p] = ka.length();
         } else {
-            keylenx_[p] = ksuf_keylenx;
+            // NB a concurrent reader may hold a stale permutation including p.
+            // It must not look for a suffix before there is a suffix bag.
             assign_ksuf(p, ka.suffix(), false, ti);
+            fence();
+            keylenx_[p] = ksuf_keylenx;
         }
     }
     inline void assign_initialize(int p, const key_type& ka, threadinfo& ti) {
-- 
2.43.0


From 49b172cdf17ea735848956c316bba9738406c551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:25 +0000
Subject: [PATCH 09/50] fix: collapse a layer whose leftmost leaf was emptied
 before its other leaves

Such a layer's empty leaf, and the entry leading to it, otherwise stayed
allocated forever.
---
 masstree_remove.hh | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index 4de180e..5601373 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -193,11 +193,20 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
 
     // Unlink leaf from doubly-linked leaf list. Ensure node that becomes
     // responsible for our keys has its phantom epoch kept up to date
+    leaf_type* prev = nullptr;
     btree_leaflink<leaf_type>::unlink(leaf, relax_fence_function(),
-        [leaf] (leaf_type* prev) {
-            prev->raise_phantom_epoch(leaf->phantom_epoch());
+        [leaf, &prev] (leaf_type* p) {
+            p->raise_phantom_epoch(leaf->phantom_epoch());
+            prev = p;
         });
 
+    // If that leaves an empty leaf alone in its layer, collapse the layer.
+    // (The layer might have been emptied before `leaf` was.)
+    fence();
+    if (!prefix.empty() && !prev->prev_ && !prev->next_.ptr && !prev->size()) {
+        gc_layer_rcu_callback<P>::make(root, prefix, ti);
+    }
+
     // Remove leaf from tree, collapse trivial chains, and rewrite
     // ikey bounds.
     ikey_type ikey = leaf->ikey_bound();
-- 
2.43.0


From 08353bfd5c9d6204fa415d99cf6622fe398af6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:41 +0000
Subject: [PATCH 10/50] fix: keep internodes that out-of-date root pointers may
 refer to

A former root stayed reachable through the table's root pointer, layer
entries and pending GC callbacks, but was freed like any other internode
once it had a single child left.
---
 masstree_remove.hh  | 15 ++++++++++++++-
 masstree_tcursor.hh |  1 +
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index 5601373..0a16bb2 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -177,6 +177,19 @@ bool tcursor<P>::finish_remove(threadinfo& ti) {
     }
 }
 
+/** Return true iff @a n is on the leftmost path of its layer.
+ * Such a node might once have been the layer's root, so out-of-date root
+ * pointers (in the table, in layer entries, and in GC callbacks) can still
+ * refer to it at any time. It must not be removed before its layer is. */
+template <typename P>
+bool tcursor<P>::is_leftmost(const node_type* n)
+{
+    while (n && !n->isleaf()) {
+        n = static_cast<const internode_type*>(n)->child_[0];
+    }
+    return n && !static_cast<const leaf_type*>(n)->prev_;
+}
+
 template <typename P>
 bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
                              Str prefix, threadinfo& ti)
@@ -244,7 +257,7 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
         n = p;
 
-        if (p->nkeys_ || p->is_root()) {
+        if (p->nkeys_ || p->is_root() || is_leftmost(p)) {
             break;
         }
 
diff --git a/masstree_tcursor.hh b/masstree_tcursor.hh
index 6b65d03..3469185 100644
--- a/masstree_tcursor.hh
+++ b/masstree_tcursor.hh
@@ -185,6 +185,7 @@ class tcursor {
 
     static void redirect(internode_type* n, ikey_type ikey,
                          ikey_type replacement, threadinfo& ti);
+    static bool is_leftmost(const node_type* n);
     /** Remove @a leaf from the Masstree rooted at @a rootp.
      * @param prefix String defining the path to the tree containing this leaf.
      *   If removing a leaf in layer 0, @a prefix is empty.
-- 
2.43.0


From 156b2b161e3488f1e3825d267479a0efd9086237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:12 +0000
Subject: [PATCH 11/50] fix: rotate only the used slots of a kpermuter, as
 documented

kpermuter::rotate rotated the slots [i, W) rather than [i, size()), so the
result differed from the documented one whenever the permuter was not full.
---
 kpermuter.hh | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/kpermuter.hh b/kpermuter.hh
index 51556b2..aaa2808 100644
--- a/kpermuter.hh
+++ b/kpermuter.hh
@@ -237,12 +237,14 @@ template <int W> class kpermuter {
         <li>Given k with i <= k < q.size(), q[k] == p[i + (k - i + j - i) mod (size() - i)]</li>
         </ul> */
     void rotate(int i, int j) {
-        value_type mask = (i == W ? (value_type) 0 : (value_type) 16 << (i << 2)) - 1;
-        // clear unused slots
-        value_type x = x_ & (((value_type) 16 << (W << 2)) - 1);
-        x_ = (x & mask)
-            | ((x >> ((j - i) << 2)) & ~mask)
-            | ((x & ~mask) << ((W - j) << 2));
+        int n = size();
+        // rotate slots [i, n), leave the others (and the size) unchanged
+        value_type mask = (((value_type) 16 << (n << 2)) - 1)
+            & ~(((value_type) 16 << (i << 2)) - 1);
+        value_type x = x_ & mask;
+        x_ = (x_ & ~mask)
+            | ((x >> ((j - i) << 2)) & mask)
+            | ((x << ((n - j) << 2)) & mask);
     }
     /** @brief Exchange the elements at positions @a i and @a j. */
     void exchange(int i, int j) {
-- 
2.43.0


From aed8f2527b261649f6e85cd31486917fb810138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:48 +0000
Subject: [PATCH 12/50] fix: link a split's new leaf from its left neighbour
 before the right one can unlink through it

---
 btree_leaflink.hh | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/btree_leaflink.hh b/btree_leaflink.hh
index 49b5b03..b96d453 100644
--- a/btree_leaflink.hh
+++ b/btree_leaflink.hh
@@ -62,9 +62,15 @@ template <typename N> struct btree_leaflink<N, true> {
         nr->prev_ = n;
         N *next = lock_next(n, spin_function);
         nr->next_.ptr = next;
-        if (next)
-            next->prev_ = nr;
         fence();
+        if (next) {
+            // Make `nr` reachable before `next` can be unlinked through it;
+            // otherwise `next` would remain reachable from `n` once unlinked.
+            n->next_.ptr = mark(nr);
+            fence();
+            next->prev_ = nr;
+            fence();
+        }
         n->next_.ptr = nr;
     }
 
-- 
2.43.0


From e59d4ff64558fca372180076d2897482af45d84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:01 +0000
Subject: [PATCH 13/50] fix: replay a logged remove as a marker, not as a
 changeset

---
 log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.cc b/log.cc
index 15d9553..d299496 100644
--- a/log.cc
+++ b/log.cc
@@ -550,7 +550,7 @@ inline void logrecord::apply(row_type*& value, bool found,
         }
 
     // actually apply change
-    if (command == logcmd_replace)
+    if (command == logcmd_replace || command == logcmd_remove)
         *cur_value = row_type::create1(val, ts, ti);
     else if (command != logcmd_modify
              || (*cur_value && (*cur_value)->timestamp() == prev_ts)) {
-- 
2.43.0


From af17b96010dbcef5335950b67496dc014796f5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:01 +0000
Subject: [PATCH 14/50] fix: log a parsed changeset in the form replay expects

---
 log.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/log.cc b/log.cc
index d299496..4700969 100644
--- a/log.cc
+++ b/log.cc
@@ -371,7 +371,6 @@ void loginfo::record(int command, const query_times& qtimes, Str key,
                      const lcdf::Json* req, const lcdf::Json* end_req) {
     lcdf::StringAccum sa(128);
     msgpack::unparser<lcdf::StringAccum> cu(sa);
-    cu.write_array_header(end_req - req);
     for (; req != end_req; ++req)
         cu << *req;
     record(command, qtimes, key, Str(sa.data(), sa.length()));
-- 
2.43.0


From 279af1f222d1344e8f1e62bc099649e31f726e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:01 +0000
Subject: [PATCH 15/50] fix: keep the key of a put or replace until it has been
 logged

---
 mtd.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index 0118285..fa0b313 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -971,8 +971,7 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
         Str key(request[2].as_s());
         const Json* req = request.array_data() + 3;
         const Json* end_req = request.end_array_data();
-        request[2] = q.run_put(tree->table(), request[2].as_s(),
-                               req, end_req, ti);
+        result_t result = q.run_put(tree->table(), key, req, end_req, ti);
         if (ti.logger() && request_str) {
             // use the client's parsed version of the request
             msgpack::parser mp(request_str.data());
@@ -980,12 +979,14 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
             ti.logger()->record(logcmd_put, q.query_times(), key, Str(mp.position(), request_str.end()));
         } else if (ti.logger())
             ti.logger()->record(logcmd_put, q.query_times(), key, req, end_req);
+        request[2] = result; // frees `key`
         request.resize(3);
     } else if (command == Cmd_Replace) { // insert or update
         Str key(request[2].as_s()), value(request[3].as_s());
-        request[2] = q.run_replace(tree->table(), key, value, ti);
+        result_t result = q.run_replace(tree->table(), key, value, ti);
         if (ti.logger()) // NB may block
             ti.logger()->record(logcmd_replace, q.query_times(), key, value);
+        request[2] = result; // frees `key`
         request.resize(3);
     } else if (command == Cmd_Remove) { // remove
         Str key(request[2].as_s());
-- 
2.43.0


From 8698e032c62783360b6d6e1f20b48927b9d7a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:01 +0000
Subject: [PATCH 16/50] fix: skip 64-bit msgpack primitives

---
 msgpack.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/msgpack.hh b/msgpack.hh
index 8b84e34..cc1321a 100644
--- a/msgpack.hh
+++ b/msgpack.hh
@@ -481,6 +481,11 @@ class parser {
                 s_ += 3 + read_in_net_order<uint16_t>(s_ + 1);
             else if (*s_ == format::fstr32 || *s_ == format::fbin32)
                 s_ += 5 + read_in_net_order<uint32_t>(s_ + 1);
+            else {
+                assert(*s_ == format::fuint64 || *s_ == format::fint64
+                       || *s_ == format::ffloat64);
+                s_ += 9;
+            }
         }
         return *this;
     }
-- 
2.43.0


From f4d8ff6492543b28782a18841de4e9c9606d0f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:01 +0000
Subject: [PATCH 17/50] fix: removing a key that has only a recovery marker
 removes nothing

---
 kvrow.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kvrow.hh b/kvrow.hh
index a208187..030ecfd 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -247,6 +247,11 @@ bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     typename T::cursor_type lp(table, key);
     bool found = lp.find_locked(ti);
     R* old_value = found ? lp.value() : nullptr;
+    if (found && row_is_marker(old_value)) {
+        // recovery left a marker for a key that is already removed
+        lp.finish(0, ti);
+        return false;
+    }
     if (found)
         apply_remove(old_value, lp.node()->phantom_epoch_[0], ti);
     lp.finish(-1, ti);
-- 
2.43.0


From c35e59b432657c5d11d6f0c8a6dc5f3c6b373fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:09 +0000
Subject: [PATCH 18/50] fix: treat a missing or empty log as one without
 records

Its recovery information was left uninitialized.
---
 mtd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index fa0b313..d5441fd 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1384,7 +1384,7 @@ recover(threadinfo *)
   recphase(nckthreads, REC_CKP);
 
   // find minimum maximum timestamp of entries in each log
-  rec_log_infos = new logreplay::info_type[nlogger];
+  rec_log_infos = new logreplay::info_type[nlogger]();
   recphase(nlogger, REC_LOG_TS);
 
   // replay log entries, remove inconsistent entries, and append
-- 
2.43.0


From 3806352abe5c34b2b80e3c5552770522b3b680df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:09 +0000
Subject: [PATCH 19/50] fix: accept logs that begin at the checkpoint's first
 epoch

Such a log holds everything the checkpoint may have missed, but recovery
asserted that it begins earlier.
---
 log.cc | 3 +--
 mtd.cc | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/log.cc b/log.cc
index 4700969..6576e58 100644
--- a/log.cc
+++ b/log.cc
@@ -705,8 +705,7 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
             break;
         }
         if (lr.command == logcmd_epoch) {
-            if ((min_epoch && lr.epoch < min_epoch)
-                || (!min_epoch && !repbegin))
+            if (!repbegin || (min_epoch && lr.epoch < min_epoch))
                 repbegin = pos;
             if (lr.epoch >= max_epoch) {
                 always_assert(repbegin);
diff --git a/mtd.cc b/mtd.cc
index d5441fd..09fb490 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1461,7 +1461,7 @@ recover(threadinfo *)
 
   // Checks.
   if (rec_ckp_min_epoch) {
-      always_assert(rec_ckp_min_epoch > max_first_epoch);
+      always_assert(rec_ckp_min_epoch >= max_first_epoch);
       always_assert(rec_ckp_min_epoch < rec_replay_max_epoch);
       always_assert(rec_ckp_max_epoch < rec_replay_max_epoch);
       fprintf(stderr, "replay [%" PRIu64 ",%" PRIu64 ") from [%" PRIu64 ",%" PRIu64 ") into ckp [%" PRIu64 ",%" PRIu64 "]\n",
-- 
2.43.0


From 1fad3f1dc4306d477252cf158113516cf3e30c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:09 +0000
Subject: [PATCH 20/50] fix: don't note a wake-up as logged before a log record
 tells of it

The log thread noticed a wake-up and left no record of it, so the next change
in that log was not preceded by a wake record, and recovery took changes of
the epochs after it although the log that woke up had lost its own.
---
 log.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/log.cc b/log.cc
index 6576e58..9ea8113 100644
--- a/log.cc
+++ b/log.cc
@@ -248,20 +248,19 @@ void* loginfo::run() {
         uint32_t nb = 0;
         acquire();
         kvepoch_t ge = global_log_epoch, we = global_wake_epoch;
-        if (wake_epoch_ != we) {
-            wake_epoch_ = we;
+        if (wake_epoch_ != we)
             quiescent_epoch_ = 0;
-        }
         // If the writing threads appear quiescent, and aren't about to write
         // to the log (f_.waiting_ != 0), then write a quiescence
         // notification.
         if (!recovering && pos_ == 0 && !quiescent_epoch_
             && ge != log_epoch_ && ge != we && !f_.waiting_) {
+            // (The new epoch record tells that this log has not missed
+            // the wake-up at `we`.)
             quiescent_epoch_ = log_epoch_ = ge;
+            wake_epoch_ = we;
             char *p = buf_;
             p += logrec_epoch::store(p, logcmd_epoch, log_epoch_);
-            if (log_epoch_ == wake_epoch_)
-                p += logrec_base::store(p, logcmd_wake);
             p += logrec_base::store(p, logcmd_quiesce);
             pos_ = p - buf_;
         }
-- 
2.43.0


From fa7b080f06d6efb00ccd596741e1c9b20d684e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:09 +0000
Subject: [PATCH 21/50] fix: wake a quiescent log before a change it will hold
 is visible

The wake-up was announced only when the change was recorded. A change in
another log that followed it in the meantime had no wake record before it, and
recovery could keep it and lose the one it depends on.
---
 kvrow.hh    | 18 ++++++------------
 kvthread.cc |  3 +++
 log.cc      | 13 -------------
 log.hh      | 24 ++++++++++++++++++++++++
 4 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/kvrow.hh b/kvrow.hh
index 030ecfd..512e157 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -180,10 +180,8 @@ result_t query<R>::run_put(T& table, Str key,
 template <typename R>
 inline bool query<R>::apply_put(R*& value, bool found, const Json* firstreq,
                                 const Json* lastreq, threadinfo& ti) {
-    if (loginfo* log = ti.logger()) {
-        log->acquire();
-        qtimes_.epoch = global_log_epoch;
-    }
+    if (loginfo* log = ti.logger())
+        qtimes_.epoch = log->start_record();
 
     if (!found) {
         assign_timestamp(ti);
@@ -222,10 +220,8 @@ result_t query<R>::run_replace(T& table, Str key, Str value, threadinfo& ti) {
 template <typename R>
 inline bool query<R>::apply_replace(R*& value, bool found, Str new_value,
                                     threadinfo& ti) {
-    if (loginfo* log = ti.logger()) {
-        log->acquire();
-        qtimes_.epoch = global_log_epoch;
-    }
+    if (loginfo* log = ti.logger())
+        qtimes_.epoch = log->start_record();
 
     R* old_value = found ? value : nullptr;
     bool inserted = !found || row_is_marker(old_value);
@@ -264,10 +260,8 @@ bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
 template <typename R>
 inline void query<R>::apply_remove(R* old_value, kvtimestamp_t& node_ts,
                                    threadinfo& ti) {
-    if (loginfo* log = ti.logger()) {
-        log->acquire();
-        qtimes_.epoch = global_log_epoch;
-    }
+    if (loginfo* log = ti.logger())
+        qtimes_.epoch = log->start_record();
 
     assign_timestamp(ti, old_value->timestamp());
     // atomic because node removal can concurrently raise a neighbor's epoch
diff --git a/kvthread.cc b/kvthread.cc
index 140e94d..81cab9d 100644
--- a/kvthread.cc
+++ b/kvthread.cc
@@ -14,6 +14,7 @@
  * is legally binding.
  */
 #include "kvthread.hh"
+#include "circular_int.hh"
 #include <string.h>
 #include <stdio.h>
 #include <stdlib.h>
@@ -25,6 +26,8 @@
 #endif
 
 threadinfo *threadinfo::allthreads;
+// (defined here because programs that don't use logs refer to it too)
+kvepoch_t global_wake_epoch;
 #if ENABLE_ASSERTIONS
 int threadinfo::no_pool_value;
 #endif
diff --git a/log.cc b/log.cc
index 9ea8113..9a8e306 100644
--- a/log.cc
+++ b/log.cc
@@ -31,7 +31,6 @@
 using lcdf::String;
 
 kvepoch_t global_log_epoch;
-kvepoch_t global_wake_epoch;
 struct timeval log_epoch_interval;
 static struct timeval log_epoch_time;
 extern Masstree::default_table* tree;
@@ -308,18 +307,6 @@ void loginfo::record(int command, const query_times& qtimes,
                 pos_ += logrec_epoch::store(buf_ + pos_, logcmd_epoch, qtimes.epoch);
             }
 
-            if (quiescent_epoch_) {
-                // We're recording a new log record on a log that's been
-                // quiescent for a while. If the quiescence marker has been
-                // flushed, then all epochs less than the query epoch are
-                // effectively on disk.
-                if (flushed_epoch_ == quiescent_epoch_)
-                    flushed_epoch_ = qtimes.epoch;
-                quiescent_epoch_ = 0;
-                while (we < qtimes.epoch)
-                    we = cmpxchg(&global_wake_epoch, we, qtimes.epoch);
-            }
-
             // Log epochs should be recorded in monotonically increasing
             // order, but the wake epoch may be ahead of the query epoch (if
             // the query took a while). So potentially record an EARLIER
diff --git a/log.hh b/log.hh
index 0a7212c..b7c853d 100644
--- a/log.hh
+++ b/log.hh
@@ -36,6 +36,10 @@ class loginfo {
     inline kvepoch_t flushed_epoch() const;
     inline bool quiescent() const;
 
+    // Lock the log for a change that is about to be made. Returns the
+    // change's epoch. Follow up with record(), which unlocks the log.
+    inline kvepoch_t start_record();
+
     // logging
     struct query_times {
         kvepoch_t epoch;
@@ -181,6 +185,26 @@ inline void loginfo::release() {
     test_and_set_release(&f_.lock_);
 }
 
+inline kvepoch_t loginfo::start_record() {
+    acquire();
+    kvepoch_t epoch = global_log_epoch;
+    if (quiescent_epoch_) {
+        // We're recording a new log record on a log that's been
+        // quiescent for a while. If the quiescence marker has been
+        // flushed, then all epochs less than the query epoch are
+        // effectively on disk.
+        if (flushed_epoch_ == quiescent_epoch_)
+            flushed_epoch_ = epoch;
+        quiescent_epoch_ = 0;
+        // Tell the other logs before anyone can see the change, so that
+        // changes that depend on it are logged after a wake record.
+        kvepoch_t we = global_wake_epoch;
+        while (we < epoch)
+            we = cmpxchg(&global_wake_epoch, we, epoch);
+    }
+    return epoch;
+}
+
 inline kvepoch_t loginfo::flushed_epoch() const {
     return flushed_epoch_;
 }
-- 
2.43.0


From 3260f8424306a00f3209c57586e41e4eea6441ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:09 +0000
Subject: [PATCH 22/50] fix: continue after recovery with an epoch that no log
 has used

The epoch that recovery stopped at, and later ones, may remain at the end of a
log. Changes made after recovery could fall into the same epochs.
---
 mtd.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index 09fb490..9ecfd41 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1490,7 +1490,10 @@ recover(threadinfo *)
   always_assert(deltas_created == deltas_removed);
 #endif
 
-  global_log_epoch = rec_replay_max_epoch.next_nonzero();
+  // continue beyond every epoch in the logs, some of which may be left there
+  if (max_epoch < rec_replay_max_epoch)
+      max_epoch = rec_replay_max_epoch;
+  global_log_epoch = max_epoch.next_nonzero();
 
   always_assert(pthread_mutex_unlock(&rec_mu) == 0);
   recovering = false;
-- 
2.43.0


From 784b5369aa745870e42b7808ba95f3b599acc144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:09 +0000
Subject: [PATCH 23/50] fix: mark logs quiescent on disk before clients are
 served

A log that had nothing on disk yet, or nothing since the last recovery, did not
limit what recovery takes from the other logs. Changes were recovered without
earlier ones they depend on.
---
 log.cc | 17 +++++++++++++++++
 log.hh |  2 +-
 mtd.cc |  8 ++++++--
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/log.cc b/log.cc
index 9a8e306..280cb86 100644
--- a/log.cc
+++ b/log.cc
@@ -243,6 +243,23 @@ void* loginfo::run() {
     char *x_buf = (char *) malloc(len_);
     always_assert(x_buf);
 
+    // Start quiescent. Without this marker recovery could not tell a log
+    // that has lost its first changes from one that had none.
+    waituntilphase(REC_LOG_START);
+    {
+        acquire();
+        log_epoch_ = quiescent_epoch_ = global_log_epoch;
+        char *p = x_buf;
+        p += logrec_epoch::store(p, logcmd_epoch, log_epoch_);
+        p += logrec_base::store(p, logcmd_quiesce);
+        release();
+        ssize_t r = write(fd, x_buf, p - x_buf);
+        always_assert(r == p - x_buf);
+        fsync(fd);
+        flushed_epoch_ = log_epoch_;
+    }
+    inactive();
+
     while (1) {
         uint32_t nb = 0;
         acquire();
diff --git a/log.hh b/log.hh
index b7c853d..59aae19 100644
--- a/log.hh
+++ b/log.hh
@@ -164,7 +164,7 @@ class logreplay {
 };
 
 enum { REC_NONE, REC_CKP, REC_LOG_TS, REC_LOG_ANALYZE_WAKE,
-       REC_LOG_REPLAY, REC_DONE };
+       REC_LOG_REPLAY, REC_LOG_START, REC_DONE };
 extern void recphase(int nactive, int state);
 extern void waituntilphase(int phase);
 extern void inactive();
diff --git a/mtd.cc b/mtd.cc
index 9ecfd41..c5e0c01 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1475,8 +1475,6 @@ recover(threadinfo *)
   rec_log_infos = 0;
   recphase(nlogger, REC_LOG_REPLAY);
 
-  // done recovering
-  recphase(0, REC_DONE);
 #if !NDEBUG
   // check that all delta markers have been recycled (leaving only remove
   // markers and real values)
@@ -1495,6 +1493,12 @@ recover(threadinfo *)
       max_epoch = rec_replay_max_epoch;
   global_log_epoch = max_epoch.next_nonzero();
 
+  // log the new epoch before anything can be changed in it
+  recphase(nlogger, REC_LOG_START);
+
+  // done recovering
+  recphase(0, REC_DONE);
+
   always_assert(pthread_mutex_unlock(&rec_mu) == 0);
   recovering = false;
   if (recovery_only)
-- 
2.43.0


From 48c9e529ca28d5ab2fe67b907a84c879cfdc64e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:09 +0000
Subject: [PATCH 24/50] fix: replay all that a committed checkpoint relies on

Logs that were quiescent when the checkpoint was committed, and have written an
old wake-up since, made recovery stop with a failed assertion.
---
 mtd.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mtd.cc b/mtd.cc
index c5e0c01..7e71802 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1455,6 +1455,12 @@ recover(threadinfo *)
           rec_replay_max_epoch = it->min_post_quiescent_wake_epoch;
   }
 
+  // The checkpoint has all changes of the epochs up to its max_epoch. They
+  // were on disk when it was committed.
+  if (rec_ckp_min_epoch
+      && rec_replay_max_epoch < rec_ckp_max_epoch.next_nonzero())
+      rec_replay_max_epoch = rec_ckp_max_epoch.next_nonzero();
+
   // Calculate lower bound of epochs to replay.
   rec_replay_min_epoch = rec_ckp_min_epoch;
   // XXX what about max_first_epoch?
-- 
2.43.0


From b52ca90769ae5eef71f0e33ba7be8fc8d664ef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:09 +0000
Subject: [PATCH 25/50] fix: let changes of earlier epochs finish before a
 checkpoint

A change of an epoch before min_epoch is not replayed, so the checkpoint must
have it, but it could be made visible after the checkpoint had passed its key.
---
 mtd.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mtd.cc b/mtd.cc
index 7e71802..32d8c49 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1669,6 +1669,12 @@ void* conc_checkpointer(void* x) {
       ti->rcu_stop();
 
       kvepoch_t min_epoch = global_log_epoch;
+      // Changes of earlier epochs are made with their log locked. Let them
+      // finish, so that the checkpoint has them.
+      for (int i = 0; i < nlogger; ++i) {
+          logs->log(i).acquire();
+          logs->log(i).release();
+      }
       pthread_mutex_lock(&checkpoint_mu);
       ckp_gen = ckp_gen.next_nonzero();
       for (int i = 0; i < nckthreads; i++) {
-- 
2.43.0


From 0d7e590b25a3fdd44154b48038dd111650eaf906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:09 +0000
Subject: [PATCH 26/50] fix: read the state of a log with its lock held

A log that a change is just waking up looked flushed.
---
 mtd.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mtd.cc b/mtd.cc
index 32d8c49..20722cb 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1608,7 +1608,9 @@ max_flushed_epoch()
     kvepoch_t mfe = 0, ge = global_log_epoch;
     for (int i = 0; i < nlogger; ++i) {
         loginfo& log = logs->log(i);
+        log.acquire();
         kvepoch_t fe = log.quiescent() ? ge : log.flushed_epoch();
+        log.release();
         if (!mfe || fe < mfe)
             mfe = fe;
     }
-- 
2.43.0


From ecd833119436b46767cc55a438b58cc5cc1b947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:01 +0000
Subject: [PATCH 27/50] fix: don't share a log's file name between threads

The main thread dropped its reference while the log thread took one. Reference
counts aren't atomic, so the name could be freed in use, and the log be
rewritten under a garbage name.
---
 log.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/log.cc b/log.cc
index 280cb86..e7d0e38 100644
--- a/log.cc
+++ b/log.cc
@@ -211,9 +211,13 @@ void* loginfo::trampoline(void* x) {
 void loginfo::initialize(const String& logfile) {
     assert(!ti_);
 
-    f_.filename_.deref();
-    f_.filename_ = logfile.internal_rep();
-    f_.filename_.ref();
+    {
+        // make a copy: reference counts must not be shared among threads
+        String filename(logfile.data(), logfile.length());
+        f_.filename_.deref();
+        f_.filename_ = filename.internal_rep();
+        f_.filename_.ref();
+    }
 
     ti_ = threadinfo::make(threadinfo::TI_LOG, logindex_);
     int r = pthread_create(&ti_->pthread(), 0, trampoline, this);
-- 
2.43.0


From 7471296ba159cfadcb13fca0a05230921124933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:42 +0000
Subject: [PATCH 28/50] fix: let quiescent logs answer wake records of later
 epochs

A wake record counts for the epoch it was logged in, which can be later than the
wake-up. A log that had gone quiescent in between seemed to have missed it, so
all changes since were given up in recovery, however long ago they had been made.
---
 log.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/log.cc b/log.cc
index e7d0e38..1861a10 100644
--- a/log.cc
+++ b/log.cc
@@ -332,12 +332,17 @@ void loginfo::record(int command, const query_times& qtimes,
             // order, but the wake epoch may be ahead of the query epoch (if
             // the query took a while). So potentially record an EARLIER
             // wake_epoch. This will get fixed shortly by the next log
-            // record.
-            if (we != wake_epoch_ && qtimes.epoch < we)
+            // record. If the query epoch is ahead, recovery will take it
+            // for the wake epoch, so logs that went quiescent before it
+            // must write another quiescence notification.
+            if (we != wake_epoch_)
                 we = qtimes.epoch;
             if (we != wake_epoch_) {
                 wake_epoch_ = we;
                 pos_ += logrec_base::store(buf_ + pos_, logcmd_wake);
+                kvepoch_t gwe = global_wake_epoch;
+                while (gwe < we)
+                    gwe = cmpxchg(&global_wake_epoch, gwe, we);
             }
 
             if (command == logcmd_put && qtimes.prev_ts
-- 
2.43.0


From a1640378ecb49172c80cbda5d8e8a7d79cd1873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:42 +0000
Subject: [PATCH 29/50] fix: let changes that wait for space in the log go
 first

A later change could overtake them, and recovery would take the older epoch
that followed it for the log's last one.
---
 log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.cc b/log.cc
index 1861a10..ad91535 100644
--- a/log.cc
+++ b/log.cc
@@ -319,7 +319,7 @@ void loginfo::record(int command, const query_times& qtimes,
     int stalls = 0;
     while (1) {
         if (len_ - pos_ >= n
-            && (wait.next == &wait || f_.waiting_ == &wait)) {
+            && (!f_.waiting_ || f_.waiting_ == &wait)) {
             kvepoch_t we = global_wake_epoch;
 
             // Potentially record a new epoch.
-- 
2.43.0


From ce588ea0a5dadd60aa000e75be888bfb67ecb892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:01 +0000
Subject: [PATCH 30/50] fix: replay changes to the empty key

The empty string is a key like any other, but its log records were skipped.
---
 log.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/log.cc b/log.cc
index ad91535..f4f63a3 100644
--- a/log.cc
+++ b/log.cc
@@ -736,12 +736,11 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
         // correctness of checkpoint scheme.
         assert(repbegin);
         repend = nextpos;
-        if (lr.key.len) { // skip empty entry
-            if (lr.command == logcmd_put
-                || lr.command == logcmd_replace
-                || lr.command == logcmd_modify
-                || lr.command == logcmd_remove)
-                lr.run(tree->table(), jrepo, *ti);
+        if (lr.command == logcmd_put
+            || lr.command == logcmd_replace
+            || lr.command == logcmd_modify
+            || lr.command == logcmd_remove) {
+            lr.run(tree->table(), jrepo, *ti);
             ++nr;
             if (nr % 100000 == 0)
                 fprintf(stderr,
-- 
2.43.0


From 85758a9405f692b86c4dcbabfa8220b38ecb0b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:01 +0000
Subject: [PATCH 31/50] fix: agree on where a damaged log ends

The passes over a log disagreed about unknown commands and bad key lengths:
the replay bounds could take epochs into account whose records were not
replayed, or leave records unreplayed behind an unknown one.
---
 log.cc | 81 +++++++++++++++++++++-------------------------------------
 mtd.cc |  1 +
 2 files changed, 30 insertions(+), 52 deletions(-)

diff --git a/log.cc b/log.cc
index f4f63a3..f4174bc 100644
--- a/log.cc
+++ b/log.cc
@@ -483,7 +483,8 @@ logrecord::extract(const char *buf, const char *end)
         val.assign(lk->buf_ + lk->keylen_, lk->size_ - sizeof(*lk) - lk->keylen_);
     } else if (command == logcmd_modify) {
         const logrec_kvdelta *lk = reinterpret_cast<const logrec_kvdelta *>(buf);
-        if (unlikely(lk->keylen_ > MASSTREE_MAXKEYLEN
+        if (unlikely(lk->size_ < sizeof(*lk)
+                     || lk->keylen_ > MASSTREE_MAXKEYLEN
                      || sizeof(*lk) + lk->keylen_ > lk->size_))
             goto fail;
         ts = lk->ts_;
@@ -495,7 +496,8 @@ logrecord::extract(const char *buf, const char *end)
         if (unlikely(lre->size_ < logrec_epoch::size()))
             goto fail;
         epoch = lre->epoch_;
-    }
+    } else if (command != logcmd_quiesce && command != logcmd_wake)
+        goto fail;
 
     return buf + lr->size_;
 }
@@ -620,42 +622,28 @@ logreplay::info() const
     x.first_epoch = x.last_epoch = x.wake_epoch = x.min_post_quiescent_wake_epoch = 0;
     x.quiescent = true;
 
-    const char *buf = buf_, *end = buf_ + size_;
+    // Consider exactly the records that replayandclean1() will find: the log
+    // ends at the first incomplete or corrupt record.
+    const char *pos = buf_, *end = buf_ + size_;
     off_t nr = 0;
     bool log_corrupt = false;
-    while (buf + sizeof(logrec_base) <= end) {
-        const logrec_base *lr = reinterpret_cast<const logrec_base *>(buf);
-        if (unlikely(lr->size_ < sizeof(logrec_base))) {
+    logrecord lr;
+    while (pos < end) {
+        const char *nextpos = lr.extract(pos, end);
+        if (lr.command == logcmd_none) {
             log_corrupt = true;
             break;
-        } else if (unlikely(buf + lr->size_ > end))
-            break;
-        x.quiescent = lr->command_ == logcmd_quiesce;
-        if (lr->command_ == logcmd_epoch) {
-            const logrec_epoch *lre =
-                reinterpret_cast<const logrec_epoch *>(buf);
-            if (unlikely(lre->size_ < sizeof(*lre))) {
-                log_corrupt = true;
-                break;
-            }
+        }
+        x.quiescent = lr.command == logcmd_quiesce;
+        if (lr.command == logcmd_epoch) {
             if (!x.first_epoch)
-                x.first_epoch = lre->epoch_;
-            x.last_epoch = lre->epoch_;
+                x.first_epoch = lr.epoch;
+            x.last_epoch = lr.epoch;
             if (x.wake_epoch && x.wake_epoch > x.last_epoch) // wrap-around
                 x.wake_epoch = 0;
-        } else if (lr->command_ == logcmd_wake)
+        } else if (lr.command == logcmd_wake)
             x.wake_epoch = x.last_epoch;
-#if !NDEBUG
-        else if (lr->command_ != logcmd_put
-                 && lr->command_ != logcmd_replace
-                 && lr->command_ != logcmd_modify
-                 && lr->command_ != logcmd_remove
-                 && lr->command_ != logcmd_quiesce) {
-            log_corrupt = true;
-            break;
-        }
-#endif
-        buf += lr->size_;
+        pos = nextpos;
         ++nr;
     }
 
@@ -663,7 +651,7 @@ logreplay::info() const
             filename_.c_str(), nr, x.first_epoch.value(),
             x.last_epoch.value(), x.wake_epoch.value(),
             x.quiescent ? ", quiescent" : "",
-            log_corrupt ? ", CORRUPT" : "", buf - buf_);
+            log_corrupt ? ", CORRUPT" : "", pos - buf_);
     return x;
 }
 
@@ -671,30 +659,19 @@ kvepoch_t
 logreplay::min_post_quiescent_wake_epoch(kvepoch_t quiescent_epoch) const
 {
     kvepoch_t e = 0;
-    const char *buf = buf_, *end = buf_ + size_;
-    bool log_corrupt = false;
-    while (buf + sizeof(logrec_base) <= end) {
-        const logrec_base *lr = reinterpret_cast<const logrec_base *>(buf);
-        if (unlikely(lr->size_ < sizeof(logrec_base))) {
-            log_corrupt = true;
-            break;
-        } else if (unlikely(buf + lr->size_ > end))
+    const char *pos = buf_, *end = buf_ + size_;
+    logrecord lr;
+    while (pos < end) {
+        pos = lr.extract(pos, end);
+        if (lr.command == logcmd_none)
             break;
-        if (lr->command_ == logcmd_epoch) {
-            const logrec_epoch *lre =
-                reinterpret_cast<const logrec_epoch *>(buf);
-            if (unlikely(lre->size_ < sizeof(*lre))) {
-                log_corrupt = true;
-                break;
-            }
-            e = lre->epoch_;
-        } else if (lr->command_ == logcmd_wake
-                   && e
-                   && e >= quiescent_epoch)
+        if (lr.command == logcmd_epoch)
+            e = lr.epoch;
+        else if (lr.command == logcmd_wake
+                 && e
+                 && e >= quiescent_epoch)
             return e;
-        buf += lr->size_;
     }
-    (void) log_corrupt;
     return 0;
 }
 
diff --git a/mtd.cc b/mtd.cc
index 20722cb..ff5c303 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1426,6 +1426,7 @@ recover(threadinfo *)
   for (logreplay::info_type *it = rec_log_infos;
        it != rec_log_infos + nlogger; ++it)
       if (it->quiescent
+          && it->last_epoch
           && (!min_quiescent_last_epoch || min_quiescent_last_epoch > it->last_epoch))
           min_quiescent_last_epoch = it->last_epoch;
 
-- 
2.43.0


From b1fbe4acccbff5d0869d7e8462cf8de1c3955514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:21 +0000
Subject: [PATCH 32/50] fix: refuse malformed requests instead of crashing the
 server

Requests without the arguments their command needs, with arguments of other
types, with overlong keys (whose log records recovery considers corrupt), or
with unsorted columns failed assertions or corrupted memory and with it the
data of all clients.
---
 mtd.cc | 45 +++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index ff5c303..0471659 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -17,6 +17,7 @@
 // mtd: key/value server
 //
 
+#include <limits>
 #include <stdio.h>
 #include <stdarg.h>
 #include <ctype.h>
@@ -844,7 +845,8 @@ main(int argc, char *argv[])
     msgpack::streaming_parser sp;
     if (nr == 0 || sp.consume(buf, nr) != (size_t) nr
         || !sp.result().is_a() || sp.result().size() < 2
-        || !sp.result()[1].is_i() || sp.result()[1].as_i() != Cmd_Handshake) {
+        || !sp.result()[1].is_i() || sp.result()[1].as_i() != Cmd_Handshake
+        || (sp.result().size() > 2 && !sp.result()[2].is_o())) {
         fprintf(stderr, "failed handshake\n");
         goto kill_connection;
     }
@@ -955,9 +957,46 @@ int handshake(Json& request, threadinfo& ti) {
     return request[2].as_b() ? 1 : -1;
 }
 
+// Check that a request has the arguments its command requires.
+static bool valid_request(const Json& request) {
+    if (request.size() < 2 || !request[1].is_i())
+        return false;
+    int command = request[1].as_i();
+    if (command == Cmd_Checkpoint)
+        return true;
+    // all other commands take a key
+    if (request.size() < 3 || !request[2].is_s()
+        || request[2].as_s().length() > MASSTREE_MAXKEYLEN)
+        return false;
+    int columns = request.size();
+    if (command == Cmd_Get)
+        columns = 3;
+    else if (command == Cmd_Scan) {
+        if (request.size() < 4 || !request[3].is_i() || request[3].as_i() <= 0)
+            return false;
+        columns = 4;
+    } else if (command == Cmd_Replace) {
+        if (request.size() < 4 || !request[3].is_s())
+            return false;
+    } else if (command == Cmd_Put) {
+        // columns are strictly increasing
+        for (int i = 3; i + 1 < request.size(); i += 2)
+            if (!request[i].is_i() || request[i].as_i() < 0
+                || request[i].as_i() > std::numeric_limits<row_type::index_type>::max()
+                || (i > 3 && request[i].as_i() <= request[i - 2].as_i())
+                || !request[i + 1].is_s())
+                return false;
+    }
+    for (int i = columns; i < request.size(); ++i)
+        if (!request[i].is_i()
+            || request[i].as_i() != row_type::index_type(request[i].as_i()))
+            return false;
+    return true;
+}
+
 // execute command, return result.
 int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
-    int command = request[1].as_i();
+    int command = valid_request(request) ? request[1].as_i() : -1;
     if (command == Cmd_Checkpoint) {
         // force checkpoint
         pthread_mutex_lock(&checkpoint_mu);
@@ -998,6 +1037,8 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
     } else if (command == Cmd_Scan) {
         q.run_scan(tree->table(), request, ti);
     } else {
+        if (request.size() < 1)
+            request.push_back(0);
         request[1] = -1;
         request.resize(2);
         return -1;
-- 
2.43.0


From ae740d74018b3c99e07e1d0f87427657e0adbc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:36 +0000
Subject: [PATCH 33/50] fix: keep the ranges of a checkpoint's parts disjoint

An empty pivot, as in small or empty trees, was taken for `no end', and
pivots of a changing tree could be out of order. Keys were then in several
parts, and recovery failed.
---
 checkpoint.cc | 2 +-
 checkpoint.hh | 1 +
 mtd.cc        | 5 ++++-
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/checkpoint.cc b/checkpoint.cc
index 0b43a88..0e7d07c 100644
--- a/checkpoint.cc
+++ b/checkpoint.cc
@@ -18,7 +18,7 @@
 // add one key/value to a checkpoint.
 // called by checkpoint_tree() for each node.
 bool ckstate::visit_value(Str key, const row_type* value, threadinfo&) {
-    if (endkey && key >= endkey)
+    if (!last && key >= endkey)
         return false;
     if (!row_is_marker(value)) {
         msgpack::unparser<kvout> up(*vals);
diff --git a/checkpoint.hh b/checkpoint.hh
index 7783a96..8f561c8 100644
--- a/checkpoint.hh
+++ b/checkpoint.hh
@@ -28,6 +28,7 @@ struct ckstate {
     threadinfo *ti;
     Str startkey;
     Str endkey;
+    bool last; // the last range has no `endkey`
 
     template <typename SS, typename K>
     void visit_leaf(const SS&, const K&, threadinfo&) {
diff --git a/mtd.cc b/mtd.cc
index 0471659..37fbed2 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1710,6 +1710,8 @@ void* conc_checkpointer(void* x) {
       for (int i = 0; i < nckthreads + 1; i++)
         pv[i].assign(NULL, 0);
       tree->findpivots(pv, nckthreads + 1);
+      // the tree may have changed in between two pivots
+      std::sort(pv + 1, pv + nckthreads);
       ti->rcu_stop();
 
       kvepoch_t min_epoch = global_log_epoch;
@@ -1723,7 +1725,8 @@ void* conc_checkpointer(void* x) {
       ckp_gen = ckp_gen.next_nonzero();
       for (int i = 0; i < nckthreads; i++) {
           cks[i].startkey = pv[i];
-          cks[i].endkey = (i == nckthreads - 1 ? Str() : pv[i + 1]);
+          cks[i].last = i == nckthreads - 1;
+          cks[i].endkey = (cks[i].last ? Str() : pv[i + 1]);
           cks[i].state = CKState_Go;
           pthread_cond_signal(&cks[i].state_cond);
       }
-- 
2.43.0


From 25a354b3c1b55f574faa723280585e7ea97e2e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:35 +0000
Subject: [PATCH 34/50] fix: don't keep other connections waiting for the rest
 of a request

A thread that had received part of a request blocked until the rest of it
arrived, and served none of its other connections meanwhile.
---
 mtd.cc | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index 37fbed2..2d19524 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -26,6 +26,7 @@
 #include <sys/socket.h>
 #include <netinet/in.h>
 #include <netinet/tcp.h>
+#include <poll.h>
 #include <sys/select.h>
 #include <sys/mman.h>
 #include <sys/stat.h>
@@ -469,7 +470,8 @@ struct conn {
 
     conn(int s)
         : fd(s), inbuf_(new char[inbufsz]),
-          inbufpos_(0), inbuflen_(0), kvout(new_kvout(s, 20 * 1024)),
+          inbufpos_(0), inbuflen_(0), requestpos_(0), incomplete_(false),
+          kvout(new_kvout(s, 20 * 1024)),
           inbuftotal_(0) {
     }
     ~conn() {
@@ -480,17 +482,29 @@ struct conn {
             delete[] x;
     }
 
+    // Receive the next request. Waits for data only at first; if the data
+    // that has arrived ends within a request, incomplete() is true and
+    // receive() should be called again when there is more.
     Json& receive() {
-        while (!parser_.done() && check(2))
+        if (parser_.empty())
+            requestpos_ = xposition();
+        int tryhard = 2;
+        while (!parser_.done() && check(tryhard)) {
             inbufpos_ += parser_.consume(inbuf_ + inbufpos_,
                                          inbuflen_ - inbufpos_,
                                          String::make_stable(inbuf_, inbufsz));
+            tryhard = 1;
+        }
+        incomplete_ = !parser_.done() && tryhard == 1;
         if (parser_.success() && parser_.result().is_a())
             parser_.reset();
-        else
+        else if (!incomplete_)
             parser_.result() = Json();
         return parser_.result();
     }
+    bool incomplete() const {
+        return incomplete_;
+    }
 
     int check(int tryhard) {
         if (inbufpos_ == inbuflen_ && tryhard)
@@ -501,9 +515,10 @@ struct conn {
     uint64_t xposition() const {
         return inbuftotal_ + inbufpos_;
     }
-    Str recent_string(uint64_t xposition) const {
-        if (xposition - inbuftotal_ <= unsigned(inbufpos_))
-            return Str(inbuf_ + (xposition - inbuftotal_),
+    // the bytes of the last received request, if still available
+    Str request_string() const {
+        if (requestpos_ - inbuftotal_ <= unsigned(inbufpos_))
+            return Str(inbuf_ + (requestpos_ - inbuftotal_),
                        inbuf_ + inbufpos_);
         else
             return Str();
@@ -515,6 +530,8 @@ struct conn {
     int inbuflen_;
     std::vector<char*> oldinbuf_;
     msgpack::streaming_parser parser_;
+    uint64_t requestpos_;
+    bool incomplete_;
   public:
     struct kvout *kvout;
   private:
@@ -538,11 +555,8 @@ void conn::hard_check(int tryhard) {
         inbufpos_ = inbuflen_ = 0;
     }
     if (tryhard == 1) {
-        fd_set rfds;
-        FD_ZERO(&rfds);
-        FD_SET(fd, &rfds);
-        struct timeval tv = {0, 0};
-        if (select(fd + 1, &rfds, NULL, NULL, &tv) <= 0)
+        struct pollfd pfd = {fd, POLLIN, 0};
+        if (poll(&pfd, 1, 0) <= 0)
             return;
     } else
         kvflush(kvout);
@@ -1191,13 +1205,17 @@ void* tcp_threadfunc(void* x) {
                 }
             } else if (c) {
                 // Should not block as suggested by epoll
-                uint64_t xposition = c->xposition();
                 Json& request = c->receive();
                 int ret;
+                if (c->incomplete()) {
+                    // don't keep other connections waiting
+                    kvflush(c->kvout);
+                    continue;
+                }
                 if (unlikely(!request))
                     goto closed;
                 ti->rcu_start();
-                ret = onego(q, request, c->recent_string(xposition), *ti);
+                ret = onego(q, request, c->request_string(), *ti);
                 ti->rcu_stop();
                 msgpack::unparse(*c->kvout, request);
                 request.clear();
-- 
2.43.0


From 274860a39920d1b8e86c28d20f506eaa38ae57a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:35 +0000
Subject: [PATCH 35/50] fix: take a request from the bytes of its datagram only

Bytes of earlier datagrams could complete a truncated request. A reply that
cannot be sent need not stop the server.
---
 mtd.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index 2d19524..fbaed56 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1273,7 +1273,7 @@ void* udp_threadfunc(void* x) {
     kvout_reset(kvout);
 
     parser.reset();
-    unsigned consumed = parser.consume(buf.data(), buf.length(), buf);
+    unsigned consumed = parser.consume(buf.data(), cc, buf);
 
     // Fail if we received a partial request
     if (parser.success() && parser.result().is_a()) {
@@ -1282,9 +1282,11 @@ void* udp_threadfunc(void* x) {
             sa.clear();
             msgpack::unparser<StringAccum> cu(sa);
             cu << parser.result();
+            // (may fail, for instance if the reply is too big for a datagram)
             cc = sendto(s, sa.data(), sa.length(), 0,
                         (struct sockaddr*) &sin, sinlen);
-            always_assert(cc == (ssize_t) sa.length());
+            if (cc != (ssize_t) sa.length())
+                perror("udpgo write");
         }
         ti->rcu_stop();
     } else
-- 
2.43.0


From 256703b05bb89dae7c19f258c98b30186ddb9248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:22:45 +0000
Subject: [PATCH 36/50] fix: answer a get of an absent key without columns

The reply contained the request's key and column numbers, as if they were the
values of the row's columns.
---
 kvrow.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kvrow.hh b/kvrow.hh
index 512e157..33f091c 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -135,7 +135,8 @@ void query<R>::run_get(T& table, Json& req, threadinfo& ti) {
         }
         req.resize(2);
         emit_fields(lp.value(), req, ti);
-    }
+    } else
+        req.resize(2);
 }
 
 template <typename R> template <typename T>
-- 
2.43.0


From 6e0c20b0e7caee1d79f8c6bfdfac7f92fac9a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 37/50] fix: write checkpoint pivots in a form that JSON can
 hold

A pivot key that isn't UTF-8 made the committed checkpoint's description
unreadable, so recovery ignored the checkpoint.
---
 mtd.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index fbaed56..594ddd6 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1635,7 +1635,8 @@ prepare_checkpoint(kvepoch_t min_epoch, int nckthreads, const Str *pv)
 
     Json pvj;
     for (int i = 1; i < nckthreads; ++i)
-        pvj.push_back(Json::make_string(pv[i].s, pv[i].len));
+        // keys can hold any bytes, JSON strings cannot
+        pvj.push_back(String(pv[i]).encode_uri_component());
     j.set("pivots", pvj);
 
     return j;
-- 
2.43.0


From 534e4030835fc95a31ac3f418c54483f75498a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:37 +0000
Subject: [PATCH 38/50] fix: don't let a client that has gone kill the server

Writing a reply to a closed connection raised SIGPIPE.
---
 mtd.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mtd.cc b/mtd.cc
index 594ddd6..bfa59ca 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -718,6 +718,7 @@ main(int argc, char *argv[])
 
   // for -pg profiling
   signal(SIGINT, catchint);
+  signal(SIGPIPE, SIG_IGN);     // writes to closed connections just fail
 
   // log epoch starts at 1
   global_log_epoch = 1;
-- 
2.43.0


From ebdf443eff14eccb262c4d296ec4469d349d476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:56 +0000
Subject: [PATCH 39/50] fix: don't let a connection without handshake keep
 others from connecting

The main thread waited for the handshake of each connection before it
accepted the next. A handshake that arrived in parts was refused.
---
 mtd.cc | 102 ++++++++++++++++++++++++++++++++++++---------------------
 1 file changed, 64 insertions(+), 38 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index bfa59ca..c43e2a0 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -836,51 +836,77 @@ main(int argc, char *argv[])
   ret = pthread_create(&canceling_tid, NULL, canceling, NULL);
   always_assert(ret == 0);
 
+  // Connections that haven't completed their handshake
+  struct newconn {
+      int s;
+      msgpack::streaming_parser sp;
+  };
+  std::vector<newconn*> newconns;
+  std::vector<struct pollfd> pfds;
   static int next = 0;
   while(1){
-    int s1;
-    struct sockaddr_in sin1;
-    socklen_t sinlen = sizeof(sin1);
-
-    bzero(&sin1, sizeof(sin1));
-    s1 = accept(s, (struct sockaddr *) &sin1, &sinlen);
-    always_assert(s1 >= 0);
-    setsockopt(s1, IPPROTO_TCP, TCP_NODELAY, &yes, sizeof(yes));
-
-    // Complete handshake.
-    char buf[BUFSIZ];
-    ssize_t nr = read(s1, buf, BUFSIZ);
-    if (nr == -1) {
-        perror("read");
-    kill_connection:
-        close(s1);
+    pfds.clear();
+    for (newconn* nc : newconns)
+        pfds.push_back({nc->s, POLLIN, 0});
+    pfds.push_back({s, POLLIN, 0});
+    if (poll(pfds.data(), pfds.size(), -1) <= 0)
         continue;
-    }
 
-    msgpack::streaming_parser sp;
-    if (nr == 0 || sp.consume(buf, nr) != (size_t) nr
-        || !sp.result().is_a() || sp.result().size() < 2
-        || !sp.result()[1].is_i() || sp.result()[1].as_i() != Cmd_Handshake
-        || (sp.result().size() > 2 && !sp.result()[2].is_o())) {
-        fprintf(stderr, "failed handshake\n");
-        goto kill_connection;
-    }
+    if (pfds.back().revents) {
+        struct sockaddr_in sin1;
+        socklen_t sinlen = sizeof(sin1);
+
+        bzero(&sin1, sizeof(sin1));
+        int s1 = accept(s, (struct sockaddr *) &sin1, &sinlen);
+        always_assert(s1 >= 0);
+        setsockopt(s1, IPPROTO_TCP, TCP_NODELAY, &yes, sizeof(yes));
+        newconns.push_back(new newconn);
+        newconns.back()->s = s1;
+    }
+
+    // Complete handshakes.
+    for (size_t nci = pfds.size() - 1; nci > 0; --nci) {
+        if (!pfds[nci - 1].revents)
+            continue;
+        newconn* nc = newconns[nci - 1];
+        msgpack::streaming_parser& sp = nc->sp;
+        char buf[BUFSIZ];
+        ssize_t nr = read(nc->s, buf, BUFSIZ);
+        bool all = nr > 0 && sp.consume(buf, nr) == (size_t) nr;
+        if (all && !sp.done())
+            continue;           // rest of handshake still to come
+        newconns.erase(newconns.begin() + (nci - 1));
+
+        if (nr == -1)
+            perror("read");
+        if (!all || !sp.success()
+            || !sp.result().is_a() || sp.result().size() < 2
+            || !sp.result()[1].is_i() || sp.result()[1].as_i() != Cmd_Handshake
+            || (sp.result().size() > 2 && !sp.result()[2].is_o())) {
+            if (nr != -1)
+                fprintf(stderr, "failed handshake\n");
+            close(nc->s);
+            delete nc;
+            continue;
+        }
 
-    int target_core = -1;
-    if (sp.result().size() >= 3 && sp.result()[2].is_o()
-        && sp.result()[2]["core"].is_i())
-        target_core = sp.result()[2]["core"].as_i();
-    if (target_core < 0 || target_core >= tcpthreads) {
-        target_core = next % tcpthreads;
-        ++next;
-    }
+        int target_core = -1;
+        if (sp.result().size() >= 3 && sp.result()[2].is_o()
+            && sp.result()[2]["core"].is_i())
+            target_core = sp.result()[2]["core"].as_i();
+        if (target_core < 0 || target_core >= tcpthreads) {
+            target_core = next % tcpthreads;
+            ++next;
+        }
 
-    conninfo* ci = new conninfo;
-    ci->s = s1;
-    swap(ci->handshake, sp.result());
+        conninfo* ci = new conninfo;
+        ci->s = nc->s;
+        swap(ci->handshake, sp.result());
+        delete nc;
 
-    ssize_t w = write(tcp_thread_pipes[2*target_core + 1], &ci, sizeof(ci));
-    always_assert((size_t) w == sizeof(ci));
+        ssize_t w = write(tcp_thread_pipes[2*target_core + 1], &ci, sizeof(ci));
+        always_assert((size_t) w == sizeof(ci));
+    }
   }
 }
 
-- 
2.43.0


From 52c7e8d6e786d094fbe08287fa81e074c7b0e66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:02 +0000
Subject: [PATCH 40/50] fix: don't trust the sizes in a malformed msgpack
 message

Sizes of 2^31 or more were taken as negative, so that the size of a string was
computed by looking for a null byte, and arrays were allocated in full before
their elements arrived, so that a five-byte message could exhaust memory.
---
 msgpack.cc | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/msgpack.cc b/msgpack.cc
index 4b8859b..407e30b 100644
--- a/msgpack.cc
+++ b/msgpack.cc
@@ -14,6 +14,8 @@ const uint8_t nbytes[] = {
     /* 0xDC-0xDD farray16-farray32 */ 3, 5,
     /* 0xDE-0xDF fmap16-fmap32 */ 3, 5
 };
+// Number of array elements to make room for before any has arrived
+enum { array_chunk = 1024 };
 }
 
 const uint8_t* streaming_parser::consume(const uint8_t* first,
@@ -69,6 +71,8 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             n = *first - format::ffixmap;
             ++first;
         map:
+            if (n < 0)
+                goto error;
             if (jx->is_o())
                 jx->clear();
             else
@@ -77,13 +81,19 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             n = *first - format::ffixarray;
             ++first;
         array:
+            // The size may be a lie; elements beyond the first few are
+            // added as they arrive.
+            if (n < 0)
+                goto error;
             if (!jx->is_a())
-                *jx = Json::make_array_reserve(n);
-            jx->resize(n);
+                *jx = Json::make_array_reserve(n < int(array_chunk) ? n : int(array_chunk));
+            jx->resize(n < int(array_chunk) ? n : int(array_chunk));
         } else if (format::is_fixstr(*first)) {
             n = *first - format::ffixstr;
             ++first;
         raw:
+            if (n < 0)
+                goto error;
             if (last - first < n) {
                 str_ = String(first, last);
                 stack_.push_back(selem{0, n});
@@ -191,9 +201,12 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             selem* top = &stack_.back();
             --top->size;
             Json* jo = (top == stack_.begin() ? &json_ : top[-1].jp);
-            if (jo->is_a())
-                ++top->jp;
-            else
+            if (jo->is_a()) {
+                Json::size_type i = top->jp - &jo->at_insert(0) + 1;
+                if (i == jo->size())
+                    jo->resize(i + (top->size < i ? top->size + 1 : i));
+                top->jp = &jo->at_insert(i);
+            } else
                 top->jp = &jokey_;
         }
     }
-- 
2.43.0


From 205a3464b3d01323639cdc964e0d0b20e17a21ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:02 +0000
Subject: [PATCH 41/50] fix: refuse msgpack messages nested too deeply to
 destroy

---
 msgpack.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/msgpack.cc b/msgpack.cc
index 407e30b..2321248 100644
--- a/msgpack.cc
+++ b/msgpack.cc
@@ -16,6 +16,9 @@ const uint8_t nbytes[] = {
 };
 // Number of array elements to make room for before any has arrived
 enum { array_chunk = 1024 };
+// Maximum depth of arrays and maps; destroying a deeper Json might exhaust
+// the stack
+enum { max_depth = 1024 };
 }
 
 const uint8_t* streaming_parser::consume(const uint8_t* first,
@@ -187,6 +190,9 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             continue;
         }
 
+        if ((jx->is_a() || jx->is_o()) && n != 0
+            && stack_.size() >= max_depth)
+            goto error;
         if (jx->is_a() && n != 0)
             stack_.push_back(selem{&jx->at_insert(0), n - 1});
         else if (jx->is_o() && n != 0)
-- 
2.43.0


From 07f3434fb83ac267ff78d0f37ba8bfec4bff0d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:01 +0000
Subject: [PATCH 42/50] fix: a writer must not walk right when its leaf splits
 just after it unlocked it

tcursor::find_locked checked for a split while it held the lock, but
advance_to_key() rereads the version after the unlock. A split in between
made the writer walk the leaf list, where it can accept a key that belongs to
a leaf already unlinked but still in its parent; the parent could then get
the same separator twice, and the wrong child be removed.
---
 masstree_get.hh | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/masstree_get.hh b/masstree_get.hh
index 19d3960..e75f123 100644
--- a/masstree_get.hh
+++ b/masstree_get.hh
@@ -99,16 +99,16 @@ bool tcursor<P>::find_locked(threadinfo& ti)
 
     n_->lock(v, ti.lock_fence(tc_leaf_lock));
     if (n_->has_changed(v) || n_->permutation() != perm) {
-        bool has_split = n_->simple_has_split(v);
-        ti.mark(threadcounter(tc_stable_leaf_insert + has_split));
+        ti.mark(threadcounter(tc_stable_leaf_insert + n_->simple_has_split(v)));
         n_->unlock();
-        // After a split, do not walk right to find the responsible leaf: it
-        // might have been emptied and unlinked from the leaf list, but not
-        // yet removed from its parent, and then a left sibling must not
-        // accept its keys.
-        if (unlikely(has_split))
+        // After a split, even one that happens after the unlock, do not walk
+        // right to find the responsible leaf: it might have been emptied and
+        // unlinked from the leaf list, but not yet removed from its parent,
+        // and then a left sibling must not accept its keys.
+        nodeversion_type oldv = v;
+        v = n_->stable_annotated(ti.stable_fence());
+        if (unlikely(v.has_split(oldv)))
             goto retry;
-        n_ = n_->advance_to_key(ka_, v, ti);
         goto forward;
     } else if (unlikely(state_ < 0)) {
         ka_.shift_by(-state_);
-- 
2.43.0


From edfc94db7adf8937ece5eba52737e6ebc68fac87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:11 +0000
Subject: [PATCH 43/50] fix: String::is_shared() told shared data from unshared
 the wrong way round

---
 string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.hh b/string.hh
index c1be610..8744562 100644
--- a/string.hh
+++ b/string.hh
@@ -782,7 +782,7 @@ inline String &String::operator+=(const String_base<T> &x) {
 /** @brief Test if the String's data is shared or stable. */
 inline bool String::is_shared() const {
     memo_type* m = _r.memo();
-    return !m || m->refunique();
+    return !m || !m->refunique();
 }
 
 /** @brief Test if the String's data is stable. */
-- 
2.43.0


From 54adeee28dd611c2b02ab963c8a03f752f70c109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:01 +0000
Subject: [PATCH 44/50] fix: storing a Json in a place inside itself, or one
 element in another's place

---
 json.hh | 54 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 30 insertions(+), 24 deletions(-)

diff --git a/json.hh b/json.hh
index 9238ba3..b296b2f 100644
--- a/json.hh
+++ b/json.hh
@@ -1108,7 +1108,7 @@ class Json_proxy_base {
     }
     template <typename Q>
     inline Json& set(const String& key, const Json_proxy_base<Q>& value) {
-        return this->value().set(key, value);
+        return set(key, Json(value.cvalue()));
     }
     Json& unset(Str key) {
         return value().unset(key);
@@ -1163,7 +1163,7 @@ class Json_proxy_base {
         return value().push_back(std::move(x));
     }
     template <typename Q> Json& push_back(const Json_proxy_base<Q>& x) {
-        return value().push_back(x);
+        return push_back(Json(x.cvalue()));
     }
     void pop_back() {
         value().pop_back();
@@ -1175,7 +1175,7 @@ class Json_proxy_base {
         return value().insert(position, std::move(x));
     }
     template <typename Q> Json::array_iterator insert(Json::array_iterator position, const Json_proxy_base<Q>& x) {
-        return value().insert(position, x);
+        return insert(position, Json(x.cvalue()));
     }
     Json::array_iterator erase(Json::array_iterator first, Json::array_iterator last) {
         return value().erase(first, last);
@@ -1333,16 +1333,20 @@ class Json_object_proxy : public Json_proxy_base<Json_object_proxy<T> > {
         return base_.get_insert(key_);
     }
     Json& operator=(const Json& x) {
-        return value() = x;
+        Json v(x); // value() might affect x
+        return value() = std::move(v);
     }
     Json& operator=(Json&& x) {
-        return value() = std::move(x);
+        Json v(std::move(x));
+        return value() = std::move(v);
     }
     Json& operator=(const Json_object_proxy<T>& x) {
-        return value() = x.cvalue();
+        Json v(x.cvalue());
+        return value() = std::move(v);
     }
     template <typename P> Json& operator=(const Json_proxy_base<P>& x) {
-        return value() = x.cvalue();
+        Json v(x.cvalue());
+        return value() = std::move(v);
     }
     Json_object_proxy(T& ref, const String& key)
         : base_(ref), key_(key) {
@@ -1361,16 +1365,20 @@ class Json_object_str_proxy : public Json_proxy_base<Json_object_str_proxy<T> >
         return base_.get_insert(key_);
     }
     Json& operator=(const Json& x) {
-        return value() = x;
+        Json v(x); // value() might affect x
+        return value() = std::move(v);
     }
     Json& operator=(Json&& x) {
-        return value() = std::move(x);
+        Json v(std::move(x));
+        return value() = std::move(v);
     }
     Json& operator=(const Json_object_str_proxy<T>& x) {
-        return value() = x.cvalue();
+        Json v(x.cvalue());
+        return value() = std::move(v);
     }
     template <typename P> Json& operator=(const Json_proxy_base<P>& x) {
-        return value() = x.cvalue();
+        Json v(x.cvalue());
+        return value() = std::move(v);
     }
     Json_object_str_proxy(T& ref, Str key)
         : base_(ref), key_(key) {
@@ -1389,16 +1397,20 @@ class Json_array_proxy : public Json_proxy_base<Json_array_proxy<T> > {
         return base_.get_insert(key_);
     }
     Json& operator=(const Json& x) {
-        return value() = x;
+        Json v(x); // value() might affect x
+        return value() = std::move(v);
     }
     Json& operator=(Json&& x) {
-        return value() = std::move(x);
+        Json v(std::move(x));
+        return value() = std::move(v);
     }
     Json& operator=(const Json_array_proxy<T>& x) {
-        return value() = x.cvalue();
+        Json v(x.cvalue());
+        return value() = std::move(v);
     }
     template <typename P> Json& operator=(const Json_proxy_base<P>& x) {
-        return value() = x.cvalue();
+        Json v(x.cvalue());
+        return value() = std::move(v);
     }
     Json_array_proxy(T& ref, int key)
         : base_(ref), key_(key) {
@@ -2319,9 +2331,7 @@ inline Json& Json::set(const String& key, Json value) {
 /** @overload */
 template <typename P>
 inline Json& Json::set(const String& key, const Json_proxy_base<P>& value) {
-    uniqueify_object(true);
-    ojson()->get_insert(key) = value.cvalue();
-    return *this;
+    return set(key, Json(value.cvalue()));
 }
 
 /** @brief Remove the value of @a key from an object Json.
@@ -2523,8 +2533,7 @@ inline Json& Json::push_back(Json x) {
 
 /** @overload */
 template <typename P> inline Json& Json::push_back(const Json_proxy_base<P>& x) {
-    new(uniqueify_array_insert(false, -1)) Json(x.cvalue());
-    return *this;
+    return push_back(Json(x.cvalue()));
 }
 
 /** @brief Remove the last element from an array.
@@ -2567,10 +2576,7 @@ inline Json::array_iterator Json::insert(array_iterator position, Json x) {
 
 /** @overload */
 template <typename P> inline Json::array_iterator Json::insert(array_iterator position, const Json_proxy_base<P>& x) {
-    precondition(position >= abegin() && position <= aend());
-    size_type pos = position - abegin();
-    new(uniqueify_array_insert(false, pos)) Json(x.cvalue());
-    return abegin() + pos;
+    return insert(position, Json(x.cvalue()));
 }
 
 inline Json::array_iterator Json::erase(array_iterator position) {
-- 
2.43.0


From 26627bf5b8ab1b824db0e2b0b7df27d6a67c655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:01 +0000
Subject: [PATCH 45/50] fix: merging a Json object with one of its own elements

---
 json.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/json.hh b/json.hh
index b296b2f..b4f5485 100644
--- a/json.hh
+++ b/json.hh
@@ -1130,10 +1130,11 @@ class Json_proxy_base {
         return value().erase(key);
     }
     Json& merge(const Json& x) {
-        return value().merge(x);
+        Json v(x);
+        return value().merge(v);
     }
     template <typename P2> Json& merge(const Json_proxy_base<P2>& x) {
-        return value().merge(x.cvalue());
+        return merge(x.cvalue());
     }
     const Json& get(Json::size_type x) const {
         return cvalue().get(x);
@@ -2421,8 +2422,9 @@ inline Json& Json::merge(const Json& x) {
     precondition(is_object() || is_null());
     precondition(x.is_object() || x.is_null());
     if (x.u_.o.x) {
+        Json hold(x); // x might be inside this object
         uniqueify_object(false);
-        ObjectJson *oj = ojson(), *xoj = x.ojson();
+        ObjectJson *oj = ojson(), *xoj = hold.ojson();
         const ObjectItem *xb = xoj->os_, *xe = xb + xoj->n_;
         for (; xb != xe; ++xb)
             if (xb->next_ > -2)
-- 
2.43.0


From 7faa589e2fbe00a6969aba5f3b4fa155cd88b19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:01 +0000
Subject: [PATCH 46/50] fix: assigning to a Json one of its own elements or its
 own string

---
 json.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/json.hh b/json.hh
index b4f5485..ca72a1e 100644
--- a/json.hh
+++ b/json.hh
@@ -2936,8 +2936,9 @@ inline Json& Json::operator=(const Json& x) {
         x.u_.str.ref();
     else if (x.u_.x.x && (x.u_.x.type == j_array || x.u_.x.type == j_object))
         x.u_.x.x->ref();
+    rep_type u = x.u_; // x might be inside this Json
     deref();
-    u_ = x.u_;
+    u_ = u;
     return *this;
 }
 
@@ -3010,9 +3011,10 @@ inline Json& Json::operator=(bool x) {
 }
 
 inline Json& Json::operator=(const String& x) {
+    String::rep_type str = x.internal_rep(); // x might be inside this Json
+    str.ref();
     deref();
-    u_.str = x.internal_rep();
-    u_.str.ref();
+    u_.str = str;
     return *this;
 }
 /** @endcond never */
-- 
2.43.0


From d628935189937d1db7212b4aacd2c76e49b6e43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:01 +0000
Subject: [PATCH 47/50] fix: adding a Json number added the sum to itself

---
 json.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/json.hh b/json.hh
index ca72a1e..c297501 100644
--- a/json.hh
+++ b/json.hh
@@ -3103,18 +3103,18 @@ inline Json& Json::operator-=(double x) {
 }
 inline Json& Json::operator+=(const Json& x) {
     if (x.is_unsigned())
-        add(u_.u.x);
+        add(x.u_.u.x);
     else if (x.is_int())
-        add(u_.i.x);
+        add(x.u_.i.x);
     else if (!x.is_null())
         add(x.as_d());
     return *this;
 }
 inline Json& Json::operator-=(const Json& x) {
     if (x.is_unsigned())
-        subtract(u_.u.x);
+        subtract(x.u_.u.x);
     else if (x.is_int())
-        subtract(u_.i.x);
+        subtract(x.u_.i.x);
     else if (!x.is_null())
         subtract(x.as_d());
     return *this;
-- 
2.43.0


From 6bdec3d00a9d0eb3fb965d06ed22c859f85bb0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:01 +0000
Subject: [PATCH 48/50] fix: erasing a key of an object that never had one

---
 json.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json.cc b/json.cc
index 68a0888..cc61d1b 100644
--- a/json.cc
+++ b/json.cc
@@ -198,6 +198,8 @@ void Json::ObjectJson::erase(int p) {
 }
 
 Json::size_type Json::ObjectJson::erase(Str key) {
+    if (hash_.empty())
+        return 0;
     int* b = &hash_[bucket(key.data(), key.length())];
     while (*b >= 0 && os_[*b].v_.first != key)
         b = &os_[*b].next_;
-- 
2.43.0


From c64f0b3ef91604321e9704a5f268541c3cdf1bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:30 +0000
Subject: [PATCH 49/50] fix: Json::empty() looked for an element count in the
 text of a stable string

---
 json.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json.hh b/json.hh
index c297501..f6dc263 100644
--- a/json.hh
+++ b/json.hh
@@ -1759,7 +1759,7 @@ inline bool Json::is_primitive() const {
     object. */
 inline bool Json::empty() const {
     return unsigned(u_.x.type) < unsigned(j_int)
-        && (!u_.x.x || u_.x.x->size == 0);
+        && (!u_.x.x || (u_.x.type != j_null && u_.x.x->size == 0));
 }
 /** @brief Return the number of elements in this complex Json.
     @pre is_array() || is_object() || is_null() */
-- 
2.43.0


From ecf1c505f7b85fc1de625f2dedc47610a00ea37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:27 +0000
Subject: [PATCH 50/50] fix: String::align() lost track of its memo

---
 string.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/string.cc b/string.cc
index 6bc3586..35e91c1 100644
--- a/string.cc
+++ b/string.cc
@@ -1047,6 +1047,7 @@ String::align(int n)
         offset = reinterpret_cast<uintptr_t>(s._r.data) % n;
         memcpy((char *)s._r.data + n - offset, _r.data, _r.length);
         s._r.data += n - offset;
+        s._r.memo_offset -= n - offset;
         s._r.length = _r.length;
         *this = s;
     }
-- 
2.43.0

