From 7350701893c1cca6ac3d894009c9cce1641adeaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:07 +0000
Subject: [PATCH 01/81] fix: json_stats miscounts keys below split layer roots
 and suffixed key lengths

---
 masstree_stats.hh | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/masstree_stats.hh b/masstree_stats.hh
index 36e59d8..b34a25c 100644
--- a/masstree_stats.hh
+++ b/masstree_stats.hh
@@ -41,17 +41,21 @@ void node_json_stats(node_base<P>* n, lcdf::Json& j, int layer, int depth,
             if (lf->is_layer(perm[i])) {
                 lcdf::Json x = j["l1_size"];
                 j["l1_size"] = 0;
-                node_json_stats(lf->lv_[perm[i]].layer(), j, layer + 1, 0, ti);
+                node_base<P>* lroot = lf->lv_[perm[i]].layer();
+                while (!lroot->is_root())   // link might precede root split
+                    lroot = lroot->maybe_parent();
+                node_json_stats(lroot, j, layer + 1, 0, ti);
                 j["l1_size_sum"] += j["l1_size"].to_i();
                 j["l1_size"] = x;
                 j["l1_count"] += 1;
             } else {
                 ++n;
-                int l = sizeof(typename P::ikey_type) * layer
-                    + lf->keylenx_[perm[i]];
-                if (lf->has_ksuf(perm[i])) {
+                int l = sizeof(typename P::ikey_type) * layer;
+                if (!lf->has_ksuf(perm[i])) {
+                    l += lf->keylenx_[perm[i]];
+                } else {
                     size_t ksuf_len = lf->ksuf(perm[i]).len;
-                    l += ksuf_len - 1;
+                    l += sizeof(typename P::ikey_type) + ksuf_len;
                     active_ksuf_len += ksuf_len;
                     ++nksuf;
                 }
-- 
2.43.0


From f21f8f34b987b02404cbaa675594a22684e96626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:07 +0000
Subject: [PATCH 02/81] fix: single-threaded nodes never report a destroyed
 tree

Pending layer collections went on working on (and registering more
collections for) a tree whose nodes were about to be freed.
---
 nodeversion.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nodeversion.hh b/nodeversion.hh
index 4d3bdb0..70706eb 100644
--- a/nodeversion.hh
+++ b/nodeversion.hh
@@ -241,7 +241,7 @@ class singlethreaded_nodeversion {
         return false;
     }
     bool deleted() const {
-        return false;
+        return v_ & P::deleted_bit;
     }
     bool has_changed(singlethreaded_nodeversion<P>) const {
         return false;
-- 
2.43.0


From b3c34975374105e30442c3f9958c1bd2895458a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:07 +0000
Subject: [PATCH 03/81] fix: layer collection callback leaks when its tree is
 destroyed

---
 masstree_remove.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index b1a749d..aa164eb 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -143,8 +143,8 @@ void gc_layer_rcu_callback<P>::operator()(threadinfo& ti)
         if (!do_remove || !lp.finish_remove(ti)) {
             lp.n_->unlock();
         }
-        ti.deallocate(this, size(), memtag_masstree_gc);
     }
+    ti.deallocate(this, size(), memtag_masstree_gc);
 }
 
 template <typename P>
-- 
2.43.0


From 33a825e7458745df61f647824ce26c8218800795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:57 +0000
Subject: [PATCH 04/81] fix: layer left with only an empty first leaf is never
 collected

Emptying the first leaf of a layer before its last other leaf left an
empty layer behind for good.
---
 masstree_remove.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index aa164eb..dc8550e 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -208,6 +208,14 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
     // Unlink leaf from doubly-linked leaf list
     btree_leaflink<leaf_type>::unlink(leaf);
 
+    // If only an empty first leaf remains in this layer, collect the layer
+    if (!prefix.empty()) {
+        leaf_type* prev = leaf->prev_;
+        if (!prev->prev_ && !prev->next_.ptr && prev->size() == 0) {
+            gc_layer_rcu_callback<P>::make(root, prefix, ti);
+        }
+    }
+
     // Remove leaf from tree, collapse trivial chains, and rewrite
     // ikey bounds.
     ikey_type ikey = leaf->ikey_bound();
-- 
2.43.0


From 3768a28b865ea68acb06abed2e0392ec9bc25ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:21 +0000
Subject: [PATCH 05/81] Verification hooks for pool blocks
 (MASSTREE_VERIF_HOOKS)

---
 kvthread.hh | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/kvthread.hh b/kvthread.hh
index 707b1e7..4275d61 100644
--- a/kvthread.hh
+++ b/kvthread.hh
@@ -28,6 +28,13 @@
 class threadinfo;
 class loginfo;
 
+#if MASSTREE_VERIF_HOOKS
+// Verification hooks: told when a pool block is handed out and when it goes
+// back to a free list.
+extern "C" void masstree_verif_pool_acquire(void* p, size_t sz);
+extern "C" void masstree_verif_pool_release(void* p, size_t sz);
+#endif
+
 typedef uint64_t mrcu_epoch_type;
 typedef int64_t mrcu_signed_epoch_type;
 
@@ -230,6 +237,9 @@ class threadinfo {
             refill_pool(nl);
         void* p = pool_[nl - 1];
         if (p) {
+#if MASSTREE_VERIF_HOOKS
+            masstree_verif_pool_acquire(p, nl * CACHE_LINE_SIZE);
+#endif
             pool_[nl - 1] = *reinterpret_cast<void **>(p);
             p = memdebug::make(p, sz, memtag(tag + nl));
             mark(threadcounter(tc_alloc + (tag > memtag_value)),
@@ -244,6 +254,9 @@ class threadinfo {
         if (use_pool()) {
             *reinterpret_cast<void **>(p) = pool_[nl - 1];
             pool_[nl - 1] = p;
+#if MASSTREE_VERIF_HOOKS
+            masstree_verif_pool_release(p, nl * CACHE_LINE_SIZE);
+#endif
         } else
             free(p);
         mark(threadcounter(tc_alloc + (tag > memtag_value)),
@@ -334,6 +347,9 @@ class threadinfo {
             int nl = tag & memtag_pool_mask;
             *reinterpret_cast<void**>(p) = pool_[nl - 1];
             pool_[nl - 1] = p;
+#if MASSTREE_VERIF_HOOKS
+            masstree_verif_pool_release(p, nl * CACHE_LINE_SIZE);
+#endif
         }
     }
 
-- 
2.43.0


From cc0292ee176cce1f1440f7de807c74312875d46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 06/81] fix: scan rereads keylenx and asserts when an entry
 turns into a layer

Scans copied an entry's key suffix with ksuf(p), which reads keylenx_[p]
a second time.  If a concurrent insertion turned the entry into a layer
in between, the precondition in ksuf() aborted the process before the
version check could send the scan back.  Use the value already read.
---
 masstree_scan.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/masstree_scan.hh b/masstree_scan.hh
index bccf7b6..b1351db 100644
--- a/masstree_scan.hh
+++ b/masstree_scan.hh
@@ -202,7 +202,7 @@ int scanstackelt<P>::find_initial(H& helper, key_type& ka, bool emit_equal,
         entry = n_->lv_[kx.p];
         entry.prefetch(keylenx);
         if (n_->keylenx_has_ksuf(keylenx)) {
-            suffix = n_->ksuf(kx.p);
+            suffix = n_->ksuf(kx.p, keylenx);
             memcpy(suffixbuf, suffix.s, suffix.len);
             suffix.s = suffixbuf;
         }
@@ -267,7 +267,7 @@ int scanstackelt<P>::find_next(H &helper, key_type &ka, leafvalue_type &entry)
         entry = n_->lv_[kp];
         entry.prefetch(keylenx);
         if (n_->keylenx_has_ksuf(keylenx))
-            keylen = ka.assign_store_suffix(n_->ksuf(kp));
+            keylen = ka.assign_store_suffix(n_->ksuf(kp, keylenx));
 
         if (n_->has_changed(v_))
             goto changed;
-- 
2.43.0


From c409a542fc937d56f10a53ca61f8466ff731fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:42 +0000
Subject: [PATCH 07/81] fix: lookups can miss keys after an aborted insertion
 splits a leaf

An aborted reverse-sequential insertion moves every key of the split leaf
to its right sibling.  The slot of the first removed key then still holds
a key of the sibling, and stable_last_key_compare() consulted it, so a
concurrent reader of that leaf could conclude that its key belongs in the
empty leaf, and not find a key that is present.
---
 masstree_struct.hh | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/masstree_struct.hh b/masstree_struct.hh
index 494dcca..73842b7 100644
--- a/masstree_struct.hh
+++ b/masstree_struct.hh
@@ -607,17 +607,13 @@ leaf<P>::stable_last_key_compare(const key_type& k, nodeversion_type v,
         typename leaf<P>::permuter_type perm(permutation_);
         int n = perm.size();
         // If `n == 0`, then this node is empty: it was deleted without ever
-        // splitting, or it split and then was emptied.
-        // - It is always safe to return 1, because then the caller will
-        //   check more precisely whether `k` belongs in `this`.
-        // - It is safe to return anything if `this->deleted()`, because
-        //   viewing the deleted node will always cause a retry.
-        // - Thus it is safe to return a comparison with the key stored in slot
-        //   `perm[0]`. If the node ever had keys in it, then kpermuter ensures
-        //   that slot holds the most recently deleted key, which would belong
-        //   in this leaf. Otherwise, `perm[0]` is 0.
-        int p = perm[n ? n - 1 : 0];
-        int cmp = compare_key(k, p);
+        // splitting, it split and then was emptied, or the insertion that
+        // split it was aborted. Return 1, which is always safe, because then
+        // the caller will check more precisely whether `k` belongs in `this`.
+        // (No slot's key can be relied upon: if an aborted insertion moved
+        // every key to the right sibling, then slot `perm[0]` might hold a
+        // key that no longer belongs in this leaf.)
+        int cmp = n ? compare_key(k, perm[n - 1]) : 1;
         if (likely(!this->has_changed(v))) {
             return cmp;
         }
-- 
2.43.0


From 80526c3a1ec41a8100943d578c7ed243c2e0888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 08/81] fix: unlinking a removed leaf before the tree is
 updated corrupts the tree

remove_leaf() unlinked the leaf from the leaf list before removing it from
its parent.  In between, a thread walking the list (advance_to_key) can
insert one of the leaf's keys into the previous leaf and split that leaf at
the removed leaf's ikey bound, so that the parent holds the same separator
twice.  The remover then drops the wrong child (or fails its invariant).
Unlink the leaf once the tree no longer leads to it.
---
 masstree_remove.hh | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index dc8550e..5db34c9 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -205,17 +205,6 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         }
     }
 
-    // Unlink leaf from doubly-linked leaf list
-    btree_leaflink<leaf_type>::unlink(leaf);
-
-    // If only an empty first leaf remains in this layer, collect the layer
-    if (!prefix.empty()) {
-        leaf_type* prev = leaf->prev_;
-        if (!prev->prev_ && !prev->next_.ptr && prev->size() == 0) {
-            gc_layer_rcu_callback<P>::make(root, prefix, ti);
-        }
-    }
-
     // Remove leaf from tree, collapse trivial chains, and rewrite
     // ikey bounds.
     ikey_type ikey = leaf->ikey_bound();
@@ -258,6 +247,21 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         p->child_[0] = nullptr;
     }
 
+    // Unlink leaf from doubly-linked leaf list. This must wait until the tree
+    // no longer leads to `leaf`: once `leaf` is unlinked, threads walking the
+    // list insert its keys into `prev`, and if `prev` then splits at our
+    // ikey bound, the tree's separators become ambiguous. Lookups that
+    // encounter the deleted leaf meanwhile will retry.
+    btree_leaflink<leaf_type>::unlink(leaf);
+
+    // If only an empty first leaf remains in this layer, collect the layer
+    if (!prefix.empty()) {
+        leaf_type* prev = leaf->prev_;
+        if (!prev->prev_ && !prev->next_.ptr && prev->size() == 0) {
+            gc_layer_rcu_callback<P>::make(root, prefix, ti);
+        }
+    }
+
     n->unlock();
     return true;
 }
-- 
2.43.0


From 5faade875cedb99a87c69f9c47b1eff7c73ba504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:28 +0000
Subject: [PATCH 09/81] fix: scans do not report every leaf they depend on to
 visit_leaf

A leaf without keys in range that ends a layer, or a layer found empty,
was never passed to the visitor, so users that validate the visited
versions could miss keys inserted there later.
---
 masstree_scan.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/masstree_scan.hh b/masstree_scan.hh
index b1351db..c83596a 100644
--- a/masstree_scan.hh
+++ b/masstree_scan.hh
@@ -351,9 +351,9 @@ int basic_table<P>::scan(H helper,
 
         case mystack_type::scan_find_next:
         find_next:
+            // visit every leaf reached, even if it has no keys in range
+            scanner.visit_leaf(stack, ka, ti);
             state = stack.find_next(helper, ka, entry);
-            if (state != mystack_type::scan_up)
-                scanner.visit_leaf(stack, ka, ti);
             break;
 
         case mystack_type::scan_up:
-- 
2.43.0


From 828a10419cafaf189ffaf3853036b29158c8448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:27 +0000
Subject: [PATCH 10/81] fix: collecting a layer leaves its leaf's version
 unchanged

A reader that found a key absent and recorded the leaf's version could not
tell that the (empty) layer was collected and the key inserted elsewhere,
both when it read the leaf before the collection and when it arrived after.
Bump the version, and let unlocked lookups that reach a collected layer
start over.
---
 masstree_get.hh    | 5 +++++
 masstree_remove.hh | 1 +
 2 files changed, 6 insertions(+)

diff --git a/masstree_get.hh b/masstree_get.hh
index 819ee8b..9f3b444 100644
--- a/masstree_get.hh
+++ b/masstree_get.hh
@@ -52,6 +52,11 @@ bool unlocked_tcursor<P>::find_unlocked(threadinfo& ti)
         ka_.shift_by(-match);
         root = lv_.layer();
         goto retry;
+    } else if (unlikely(n_->deleted_layer())) {
+        // the layer was collected; its keys now belong in an upper layer
+        ka_.unshift_all();
+        root = const_cast<node_base<P>*>(root_);
+        goto retry;
     } else
         return match;
 }
diff --git a/masstree_remove.hh b/masstree_remove.hh
index 5db34c9..465dd46 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -103,6 +103,7 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
             && circular_int<typename P::phantom_epoch_type>::less(n_->phantom_epoch_[0], lf->phantom_epoch_[0])) {
             n_->phantom_epoch_[0] = lf->phantom_epoch_[0];
         }
+        lf->mark_insert();          // observers must notice the change
         lf->mark_deleted_layer();   // NB DO NOT mark as deleted (see above)
         lf->unlock();
         lf->deallocate_rcu(ti);
-- 
2.43.0


From a32bb9f44fb40ba82b4e189b1e6eed8aae53a258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:04 +0000
Subject: [PATCH 11/81] fix: use after free of a former root internode

table root_, a layer's pointer in the layer above and pending layer
collections are corrected lazily and can point to an internode that has
stopped being the root.  If removals that began before the root split then
empty that internode, remove_leaf() frees it while they still hold it.
Keep former roots (at most one per level, above the layer's first leaf).
---
 masstree_remove.hh | 5 ++++-
 masstree_split.hh  | 3 +++
 masstree_struct.hh | 4 +++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/masstree_remove.hh b/masstree_remove.hh
index 465dd46..6d67901 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -238,7 +238,10 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
         n->unlock();
         n = p;
 
-        if (p->nkeys_ || p->is_root()) {
+        // A former root stays, even without keys: table and layer pointers
+        // and pending callbacks are corrected lazily and might still hold it.
+        // (It has the layer's first leaf below it, so `child_[0]` is valid.)
+        if (p->nkeys_ || p->is_root() || p->was_root_) {
             break;
         }
 
diff --git a/masstree_split.hh b/masstree_split.hh
index ac8d97c..b3ab906 100644
--- a/masstree_split.hh
+++ b/masstree_split.hh
@@ -222,6 +222,9 @@ bool tcursor<P>::make_split(threadinfo& ti)
             nn->nkeys_ = 1;
             if (kp < 0) {
                 nn->make_layer_root();
+                if (!n->isleaf()) {
+                    static_cast<internode_type*>(n)->was_root_ = true;
+                }
             } else {
                 nn->set_parent(p);
                 p->child_[kp] = nn;
diff --git a/masstree_struct.hh b/masstree_struct.hh
index 73842b7..661efbe 100644
--- a/masstree_struct.hh
+++ b/masstree_struct.hh
@@ -107,6 +107,7 @@ class internode : public node_base<P> {
     typedef typename P::threadinfo_type threadinfo;
 
     uint8_t nkeys_;
+    bool was_root_;     // has been a layer's root, so must not be deleted
     uint32_t height_;
     ikey_type ikey0_[width];
     node_base<P>* child_[width + 1];
@@ -114,7 +115,8 @@ class internode : public node_base<P> {
     kvtimestamp_t created_at_[P::debug_level > 0];
 
     internode(uint32_t height)
-        : node_base<P>(false), nkeys_(0), height_(height), parent_() {
+        : node_base<P>(false), nkeys_(0), was_root_(false), height_(height),
+          parent_() {
     }
 
     static internode<P>* make(uint32_t height, threadinfo& ti) {
-- 
2.43.0


From b5d7e5c060df126b86ec65cb244a3613d7344c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:25 +0000
Subject: [PATCH 12/81] fix: scans can read wild memory through a reused slot's
 suffix

A scan holding an old permutation can see that a reused slot has a suffix
before the leaf's first suffix storage is installed.  ksuf() then read past
the end of a leaf without internal storage, and the scan copied as many as
255 bytes from there into its key buffer.
---
 masstree_struct.hh | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/masstree_struct.hh b/masstree_struct.hh
index 661efbe..1ca26cc 100644
--- a/masstree_struct.hh
+++ b/masstree_struct.hh
@@ -394,7 +394,17 @@ class leaf : public node_base<P> {
     Str ksuf(int p, int keylenx) const {
         (void) keylenx;
         masstree_precondition(keylenx_has_ksuf(keylenx));
-        return ksuf_ ? ksuf_->get(p) : iksuf_[0].get(p);
+        // A concurrent reader might see a reused slot's keylenx before its
+        // first suffix storage exists. It will retry; don't read wild memory.
+        // (Check `extrasize64_` first: it changes after `ksuf_` is set.)
+        bool internal = extrasize64_ > 0;
+        acquire_fence();
+        if (ksuf_)
+            return ksuf_->get(p);
+        else if (internal)
+            return iksuf_[0].get(p);
+        else
+            return Str();
     }
     Str ksuf(int p) const {
         return ksuf(p, keylenx_[p]);
-- 
2.43.0


From 365bd1e6307de60ecbad2c4cb71b5b4c07788102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:47 +0000
Subject: [PATCH 13/81] fix: msgpack decoder trusts lengths and nesting in its
 input

32-bit lengths of 2^31 and more were handled as negative numbers (reading
outside the input), array headers allocated the announced size at once, and
nesting was unlimited (stack overflow when the value is destroyed).
---
 msgpack.cc | 38 ++++++++++++++++++++++++--------------
 msgpack.hh |  5 ++++-
 2 files changed, 28 insertions(+), 15 deletions(-)

diff --git a/msgpack.cc b/msgpack.cc
index 4b8859b..c861c6f 100644
--- a/msgpack.cc
+++ b/msgpack.cc
@@ -21,12 +21,12 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
                                          const String& str) {
     using std::swap;
     Json* jx;
-    int n = 0;
+    uint32_t n = 0;
 
     if (state_ < 0)
         return first;
     if (state_ == st_partial || state_ == st_string) {
-        int nneed;
+        ptrdiff_t nneed;
         if (state_ == st_partial)
             nneed = nbytes[str_.udata()[0] - 0xC0];
         else
@@ -77,14 +77,19 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             n = *first - format::ffixarray;
             ++first;
         array:
-            if (!jx->is_a())
-                *jx = Json::make_array_reserve(n);
-            jx->resize(n);
+            // The header is not to be trusted: elements are added as they
+            // arrive.
+            if (jx->is_a())
+                jx->clear();
+            else
+                *jx = Json::make_array_reserve(n < 64 ? n : 64);
         } else if (format::is_fixstr(*first)) {
             n = *first - format::ffixstr;
             ++first;
         raw:
-            if (last - first < n) {
+            if (n > max_string)
+                goto error;
+            if (last - first < ptrdiff_t(n)) {
                 str_ = String(first, last);
                 stack_.push_back(selem{0, n});
                 state_ = st_string;
@@ -177,11 +182,15 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             continue;
         }
 
-        if (jx->is_a() && n != 0)
-            stack_.push_back(selem{&jx->at_insert(0), n - 1});
-        else if (jx->is_o() && n != 0)
-            stack_.push_back(selem{&jokey_, n - 1});
-        else {
+        if ((jx->is_a() || jx->is_o()) && n != 0) {
+            if (stack_.size() >= max_depth)
+                goto error;
+            if (jx->is_a()) {
+                jx->push_back(Json());
+                stack_.push_back(selem{&jx->back(), n - 1});
+            } else
+                stack_.push_back(selem{&jokey_, n - 1});
+        } else {
             while (!stack_.empty() && stack_.back().size == 0)
                 stack_.pop_back();
             if (stack_.empty()) {
@@ -191,9 +200,10 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             selem* top = &stack_.back();
             --top->size;
             Json* jo = (top == stack_.begin() ? &json_ : top[-1].jp);
-            if (jo->is_a())
-                ++top->jp;
-            else
+            if (jo->is_a()) {
+                jo->push_back(Json());
+                top->jp = &jo->back();
+            } else
                 top->jp = &jokey_;
         }
     }
diff --git a/msgpack.hh b/msgpack.hh
index 8b84e34..e019381 100644
--- a/msgpack.hh
+++ b/msgpack.hh
@@ -361,9 +361,12 @@ class streaming_parser {
         st_final = -2, st_error = -1, st_normal = 0, st_partial = 1,
         st_string = 2
     };
+    enum {
+        max_depth = 2048, max_string = 0x7FFFFFFF
+    };
     struct selem {
         Json* jp;
-        int size;
+        uint32_t size;
     };
     int state_;
     small_vector<selem, 2> stack_;
-- 
2.43.0


From e4bdd9f7139d44f09682d462e3edc26994382c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:37 +0000
Subject: [PATCH 14/81] fix: msgpack::parser::skip_primitives does not skip
 64-bit numbers

---
 msgpack.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/msgpack.hh b/msgpack.hh
index e019381..5c1664d 100644
--- a/msgpack.hh
+++ b/msgpack.hh
@@ -478,6 +478,9 @@ class parser {
             else if (*s_ == format::fuint32 || *s_ == format::fint32
                      || *s_ == format::ffloat32)
                 s_ += 5;
+            else if (*s_ == format::fuint64 || *s_ == format::fint64
+                     || *s_ == format::ffloat64)
+                s_ += 9;
             else if (*s_ == format::fstr8 || *s_ == format::fbin8)
                 s_ += 2 + s_[1];
             else if (*s_ == format::fstr16 || *s_ == format::fbin16)
-- 
2.43.0


From 96309108d4cf7e02ee6d7e09a76be91dd327d873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:57 +0000
Subject: [PATCH 15/81] fix: append_utf8 mangles U+0800 to U+7FFF and drops
 U+FFFE and U+FFFF

---
 straccum.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/straccum.cc b/straccum.cc
index f82c153..c9f1f6d 100644
--- a/straccum.cc
+++ b/straccum.cc
@@ -203,11 +203,11 @@ StringAccum::hard_append_cstr(const char *cstr)
 bool
 StringAccum::append_utf8_hard(int ch)
 {
-    if (ch < 0x8000) {
+    if (ch < 0x800) {
         append(static_cast<char>(0xC0 | (ch >> 6)));
         goto char1;
     } else if (ch < 0x10000) {
-        if (unlikely((ch >= 0xD800 && ch < 0xE000) || ch > 0xFFFD))
+        if (unlikely(ch >= 0xD800 && ch < 0xE000))
             return false;
         append(static_cast<char>(0xE0 | (ch >> 12)));
         goto char2;
-- 
2.43.0


From 40e089aa92def0c920898cda0075d53d252e0cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:42 +0000
Subject: [PATCH 16/81] fix: JSON parser rejects or misreads valid texts

Escapes \u0000 and surrogate pairs with lower-case hex digits, several
trailing whitespace characters, integers beyond 64 bits, repeated members
whose first value is an array; and it read past the end of a chunk that ends
inside a multi-byte character.
---
 json.cc | 53 +++++++++++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 22 deletions(-)

diff --git a/json.cc b/json.cc
index 68a0888..01082c4 100644
--- a/json.cc
+++ b/json.cc
@@ -684,8 +684,8 @@ Json::assign_parse(const char* first, const char* last, const String& str)
     using std::swap;
     Json::streaming_parser jsp;
     first = jsp.consume(first, last, str, true);
-    if (first != last && (*first == ' ' || *first == '\n' || *first == '\r'
-                          || *first == '\t'))
+    while (first != last && (*first == ' ' || *first == '\n' || *first == '\r'
+                             || *first == '\t'))
         ++first;
     if (first == last && jsp.success()) {
         swap(jsp.result(), *this);
@@ -864,7 +864,7 @@ Json::streaming_parser::consume(const uint8_t* first,
 
         value: {
             Json* jp = current();
-            if (state_ != st_initial && jp->is_a()) {
+            if (state_ == st_array_initial || state_ == st_array_value) {
                 jp->push_back(std::move(j));
                 jp = &jp->back();
             } else
@@ -930,7 +930,7 @@ Json::streaming_parser::consume_string(const uint8_t* first,
             int want = 2 + (*first >= 0xE0) + (*first >= 0xF0);
             int n = last - first < want ? last - first : want;
             if ((n > 1 && unlikely(!in_range(first[1], 0x80, 0xC0)))
-                || (*first >= 0xE0
+                || (n > 1 && *first >= 0xE0
                     && ((*first == 0xE0 && first[1] < 0xA0) /* overlong */
                         || (*first == 0xED && first[1] >= 0xA0) /* surrogate */
                         || (*first == 0xF0 && first[1] < 0x90) /* overlong */
@@ -1006,7 +1006,7 @@ Json::streaming_parser::consume_backslash(StringAccum& sa,
                                           const uint8_t* first,
                                           const uint8_t* last) {
     const uint8_t* prev = first;
-    int ch = 0;
+    int ch = -1;
 
     if (first + 1 == last)
         goto incomplete;
@@ -1023,6 +1023,7 @@ Json::streaming_parser::consume_backslash(StringAccum& sa,
     else if (first[1] == 't')
         ch = '\t';
     else if (first[1] == 'u') {
+        ch = 0;
         for (int i = 2; i < 6; ++i) {
             if (first + i == last)
                 goto incomplete;
@@ -1056,7 +1057,7 @@ Json::streaming_parser::consume_backslash(StringAccum& sa,
                     ch2 = 16 * ch2 + first[i] - '0';
                 else if (in_range(first[i], 'A', 'F' + 1))
                     ch2 = 16 * ch2 + first[i] - 'A' + 10;
-                else if (in_range(first[i], 'A', 'F' + 1))
+                else if (in_range(first[i], 'a', 'f' + 1))
                     ch2 = 16 * ch2 + first[i] - 'a' + 10;
                 else
                     return error_at(&first[i]);
@@ -1068,7 +1069,9 @@ Json::streaming_parser::consume_backslash(StringAccum& sa,
         }
     }
 
-    if (!ch || !sa.append_utf8(ch))
+    if (ch == 0)
+        sa.append('\0');
+    else if (!sa.append_utf8(ch))
         return error_at(&first[1]);
     return first + 2;
 
@@ -1193,23 +1196,29 @@ Json::streaming_parser::consume_number(const uint8_t* first,
         }
         if (prev + 1 == first)
             j = Json(int(*prev - '0'));
-        else if (position < 4) {
-            bool negative = *prev == '-';
-            prev += int(negative);
-            uint64_t x = 0;
-            while (prev != first) {
-                x = (x * 10) + *prev - '0';
-                ++prev;
+        else {
+            bool integer = position < 4;
+            if (integer) {
+                bool negative = *prev == '-';
+                uint64_t x = 0, limit = negative ? uint64_t(1) << 63 : ~uint64_t(0);
+                for (const uint8_t* s = prev + int(negative);
+                     s != first && integer; ++s) {
+                    unsigned digit = *s - '0';
+                    integer = x <= (limit - digit) / 10;
+                    x = (x * 10) + digit;
+                }
+                if (integer && negative)
+                    j = Json(int64_t(-x));
+                else if (integer)
+                    j = Json(x);
             }
-            if (negative)
-                j = Json(-int64_t(x));
-            else
+            // integers that are too large become doubles
+            if (!integer) {
+                if (!(state_ & st_partlenmask))
+                    str_ = String(prev, first);
+                double x = strtod(str_.c_str(), 0);
                 j = Json(x);
-        } else {
-            if (!(state_ & st_partlenmask))
-                str_ = String(prev, first);
-            double x = strtod(str_.c_str(), 0);
-            j = Json(x);
+            }
         }
         state_ &= ~st_partmask;
         str_ = String();
-- 
2.43.0


From 7f4301e89bb4fa2d4b41da83d74291ab93250bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:42 +0000
Subject: [PATCH 17/81] fix: Json::empty reads outside constant strings

---
 json.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json.hh b/json.hh
index 9238ba3..86cc908 100644
--- a/json.hh
+++ b/json.hh
@@ -1746,7 +1746,7 @@ inline bool Json::is_primitive() const {
     object. */
 inline bool Json::empty() const {
     return unsigned(u_.x.type) < unsigned(j_int)
-        && (!u_.x.x || u_.x.x->size == 0);
+        && (!u_.x.x || (u_.x.type > 0 && u_.x.x->size == 0));
 }
 /** @brief Return the number of elements in this complex Json.
     @pre is_array() || is_object() || is_null() */
-- 
2.43.0


From a8c14d62bb0a6d627b8fc556e2522f8153e343ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:36 +0000
Subject: [PATCH 18/81] fix: JSON parser accepts -.1 and -e1

---
 json.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/json.cc b/json.cc
index 01082c4..e09bdee 100644
--- a/json.cc
+++ b/json.cc
@@ -1134,8 +1134,10 @@ Json::streaming_parser::consume_number(const uint8_t* first,
         case 1:
             while (first != last && in_range(*first, '0', '9' + 1))
                 ++first;
-        } else
+        } else {
             position = 2;
+            break;
+        }
         /* fallthru */
     case 3:
         if (first != last && *first == '.') {
-- 
2.43.0


From 402b36efcaf1fe1634850c31b0a0590ed4da5a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:40 +0000
Subject: [PATCH 19/81] fix: an empty JSON string without allocated storage is
 falsy

---
 json.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json.hh b/json.hh
index 86cc908..a42639b 100644
--- a/json.hh
+++ b/json.hh
@@ -1661,7 +1661,7 @@ inline Json Json::make_string(const char *s, int len) {
 
 /** @brief Test if this Json is truthy. */
 inline bool Json::truthy() const {
-    return (u_.x.x ? u_.x.type >= 0 || u_.str.length
+    return (u_.x.x ? u_.x.type > 0 || u_.str.length
             : (unsigned) (u_.x.type - 1) < (unsigned) (j_int - 1));
 }
 /** @brief Test if this Json is falsy. */
-- 
2.43.0


From 9cc680a344cda658b52e1de3af3ab258736d8ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:40 +0000
Subject: [PATCH 20/81] fix: assign a Json from one of its own members

---
 json.hh | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/json.hh b/json.hh
index a42639b..749c725 100644
--- a/json.hh
+++ b/json.hh
@@ -2928,14 +2928,17 @@ inline Json& Json::operator=(const Json& x) {
         x.u_.str.ref();
     else if (x.u_.x.x && (x.u_.x.type == j_array || x.u_.x.type == j_object))
         x.u_.x.x->ref();
+    // `x` may be stored inside `*this`
+    rep_type xu = x.u_;
     deref();
-    u_ = x.u_;
+    u_ = xu;
     return *this;
 }
 
 inline Json& Json::operator=(Json&& x) {
-    using std::swap;
-    swap(u_, x.u_);
+    // `x` may be stored inside `*this`
+    Json old(std::move(x));
+    swap(old);
     return *this;
 }
 
@@ -3002,9 +3005,11 @@ inline Json& Json::operator=(bool x) {
 }
 
 inline Json& Json::operator=(const String& x) {
+    // `x` may be stored inside `*this`
+    String::rep_type xu = x.internal_rep();
+    xu.ref();
     deref();
-    u_.str = x.internal_rep();
-    u_.str.ref();
+    u_.str = xu;
     return *this;
 }
 /** @endcond never */
-- 
2.43.0


From d63705a183e482b5528ee201eaa8c26defd769c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:40 +0000
Subject: [PATCH 21/81] fix: Json += and -= use the operand's value

---
 json.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/json.hh b/json.hh
index 749c725..3d0aeb2 100644
--- a/json.hh
+++ b/json.hh
@@ -3098,18 +3098,18 @@ inline Json& Json::operator-=(double x) {
 }
 inline Json& Json::operator+=(const Json& x) {
     if (x.is_unsigned())
-        add(u_.u.x);
+        add(x.u_.u.x);
     else if (x.is_int())
-        add(u_.i.x);
+        add(x.u_.i.x);
     else if (!x.is_null())
         add(x.as_d());
     return *this;
 }
 inline Json& Json::operator-=(const Json& x) {
     if (x.is_unsigned())
-        subtract(u_.u.x);
+        subtract(x.u_.u.x);
     else if (x.is_int())
-        subtract(u_.i.x);
+        subtract(x.u_.i.x);
     else if (!x.is_null())
         subtract(x.as_d());
     return *this;
-- 
2.43.0


From af1f3040f9c8a486af68bd3c4e93f607e9edc680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:54 +0000
Subject: [PATCH 22/81] fix: allow arithmetic on unsigned Json numbers

---
 json.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json.hh b/json.hh
index 3d0aeb2..6565457 100644
--- a/json.hh
+++ b/json.hh
@@ -2053,13 +2053,13 @@ inline const String& Json::as_s(const String& default_value) const {
 }
 
 inline void Json::force_number() {
-    precondition((u_.x.type == j_null && !u_.x.x) || u_.x.type == j_int || u_.x.type == j_double);
+    precondition((u_.x.type == j_null && !u_.x.x) || u_.x.type == j_int || u_.x.type == j_unsigned || u_.x.type == j_double);
     if (u_.x.type == j_null && !u_.x.x)
         u_.x.type = j_int;
 }
 
 inline void Json::force_double() {
-    precondition((u_.x.type == j_null && !u_.x.x) || u_.x.type == j_int || u_.x.type == j_double);
+    precondition((u_.x.type == j_null && !u_.x.x) || u_.x.type == j_int || u_.x.type == j_unsigned || u_.x.type == j_double);
     if (u_.x.type == j_null && !u_.x.x)
         u_.x.type = j_double;
     else if (u_.x.type == j_int) {
-- 
2.43.0


From f7ec74de51d5bd2b0086811ac128b069884304d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 23/81] fix: copy a Json proxy's value before changing its
 container

---
 json.hh | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/json.hh b/json.hh
index 6565457..bc7e144 100644
--- a/json.hh
+++ b/json.hh
@@ -1333,16 +1333,18 @@ class Json_object_proxy : public Json_proxy_base<Json_object_proxy<T> > {
         return base_.get_insert(key_);
     }
     Json& operator=(const Json& x) {
-        return value() = x;
+        // copy first: `x` may be stored inside `base_`
+        return *this = Json(x);
     }
     Json& operator=(Json&& x) {
-        return value() = std::move(x);
+        Json copy(std::move(x));
+        return value() = std::move(copy);
     }
     Json& operator=(const Json_object_proxy<T>& x) {
-        return value() = x.cvalue();
+        return *this = Json(x.cvalue());
     }
     template <typename P> Json& operator=(const Json_proxy_base<P>& x) {
-        return value() = x.cvalue();
+        return *this = Json(x.cvalue());
     }
     Json_object_proxy(T& ref, const String& key)
         : base_(ref), key_(key) {
@@ -1361,16 +1363,18 @@ class Json_object_str_proxy : public Json_proxy_base<Json_object_str_proxy<T> >
         return base_.get_insert(key_);
     }
     Json& operator=(const Json& x) {
-        return value() = x;
+        // copy first: `x` may be stored inside `base_`
+        return *this = Json(x);
     }
     Json& operator=(Json&& x) {
-        return value() = std::move(x);
+        Json copy(std::move(x));
+        return value() = std::move(copy);
     }
     Json& operator=(const Json_object_str_proxy<T>& x) {
-        return value() = x.cvalue();
+        return *this = Json(x.cvalue());
     }
     template <typename P> Json& operator=(const Json_proxy_base<P>& x) {
-        return value() = x.cvalue();
+        return *this = Json(x.cvalue());
     }
     Json_object_str_proxy(T& ref, Str key)
         : base_(ref), key_(key) {
@@ -1389,16 +1393,18 @@ class Json_array_proxy : public Json_proxy_base<Json_array_proxy<T> > {
         return base_.get_insert(key_);
     }
     Json& operator=(const Json& x) {
-        return value() = x;
+        // copy first: `x` may be stored inside `base_`
+        return *this = Json(x);
     }
     Json& operator=(Json&& x) {
-        return value() = std::move(x);
+        Json copy(std::move(x));
+        return value() = std::move(copy);
     }
     Json& operator=(const Json_array_proxy<T>& x) {
-        return value() = x.cvalue();
+        return *this = Json(x.cvalue());
     }
     template <typename P> Json& operator=(const Json_proxy_base<P>& x) {
-        return value() = x.cvalue();
+        return *this = Json(x.cvalue());
     }
     Json_array_proxy(T& ref, int key)
         : base_(ref), key_(key) {
@@ -2319,9 +2325,7 @@ inline Json& Json::set(const String& key, Json value) {
 /** @overload */
 template <typename P>
 inline Json& Json::set(const String& key, const Json_proxy_base<P>& value) {
-    uniqueify_object(true);
-    ojson()->get_insert(key) = value.cvalue();
-    return *this;
+    return set(key, Json(value.cvalue()));
 }
 
 /** @brief Remove the value of @a key from an object Json.
@@ -2523,8 +2527,7 @@ inline Json& Json::push_back(Json x) {
 
 /** @overload */
 template <typename P> inline Json& Json::push_back(const Json_proxy_base<P>& x) {
-    new(uniqueify_array_insert(false, -1)) Json(x.cvalue());
-    return *this;
+    return push_back(Json(x.cvalue()));
 }
 
 /** @brief Remove the last element from an array.
@@ -2567,10 +2570,7 @@ inline Json::array_iterator Json::insert(array_iterator position, Json x) {
 
 /** @overload */
 template <typename P> inline Json::array_iterator Json::insert(array_iterator position, const Json_proxy_base<P>& x) {
-    precondition(position >= abegin() && position <= aend());
-    size_type pos = position - abegin();
-    new(uniqueify_array_insert(false, pos)) Json(x.cvalue());
-    return abegin() + pos;
+    return insert(position, Json(x.cvalue()));
 }
 
 inline Json::array_iterator Json::erase(array_iterator position) {
-- 
2.43.0


From ec22b6e34fe51c7d4eb551ca40b2133596be9a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 24/81] fix: merge a Json object with one of its own members

---
 json.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json.hh b/json.hh
index bc7e144..ff6387b 100644
--- a/json.hh
+++ b/json.hh
@@ -2415,8 +2415,9 @@ inline Json& Json::merge(const Json& x) {
     precondition(is_object() || is_null());
     precondition(x.is_object() || x.is_null());
     if (x.u_.o.x) {
+        Json xcopy(x);          // `x` may be stored inside `*this`
         uniqueify_object(false);
-        ObjectJson *oj = ojson(), *xoj = x.ojson();
+        ObjectJson *oj = ojson(), *xoj = xcopy.ojson();
         const ObjectItem *xb = xoj->os_, *xe = xb + xoj->n_;
         for (; xb != xe; ++xb)
             if (xb->next_ > -2)
-- 
2.43.0


From 3f1593e667526116678a1e9919e18d7d5d290fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 25/81] fix: erase a key from an empty Json object

---
 json.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json.cc b/json.cc
index e09bdee..f183b36 100644
--- a/json.cc
+++ b/json.cc
@@ -198,6 +198,8 @@ void Json::ObjectJson::erase(int p) {
 }
 
 Json::size_type Json::ObjectJson::erase(Str key) {
+    if (hash_.empty())
+        return 0;
     int* b = &hash_[bucket(key.data(), key.length())];
     while (*b >= 0 && os_[*b].v_.first != key)
         b = &os_[*b].next_;
-- 
2.43.0


From 441bacbf56edf80224b27077383ee85cecdc75aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:12 +0000
Subject: [PATCH 26/81] fix: reject Json object keys too large to be array
 indexes

---
 json.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/json.cc b/json.cc
index f183b36..73af76a 100644
--- a/json.cc
+++ b/json.cc
@@ -15,6 +15,7 @@
  */
 // -*- c-basic-offset: 4 -*-
 #include "json.hh"
+#include <limits.h>
 #include "compiler.hh"
 #include <ctype.h>
 namespace lcdf {
@@ -221,11 +222,12 @@ template <typename T> bool string_to_int_key(const char *first,
     if (first == last || !isdigit((unsigned char) *first)
         || (first[0] == '0' && first + 1 != last))
         return false;
-    // XXX integer overflow
-    x = *first - '0';
-    for (++first; first != last && isdigit((unsigned char) *first); ++first)
-        x = 10 * x + *first - '0';
-    return first == last;
+    // array indexes are less than INT_MAX
+    unsigned long long n = *first - '0';
+    for (++first; first != last && isdigit((unsigned char) *first) && n < INT_MAX; ++first)
+        n = 10 * n + *first - '0';
+    x = n;
+    return first == last && n < INT_MAX;
 }
 }
 
-- 
2.43.0


From d91247b2101366269749a8740a08182a43baec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 27/81] fix: StringAccum::snprintf never writes or counts more
 than n characters

---
 straccum.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/straccum.cc b/straccum.cc
index c9f1f6d..b6eb74c 100644
--- a/straccum.cc
+++ b/straccum.cc
@@ -331,13 +331,12 @@ StringAccum &
 StringAccum::vsnprintf(int n, const char *format, va_list val)
 {
     if (char *x = reserve(n + 1)) {
-#if HAVE_VSNPRINTF
         int len = ::vsnprintf(x, n + 1, format, val);
-#else
-        int len = vsprintf(x, format, val);
-        assert(len <= n);
-#endif
-        adjust_length(len);
+        // output longer than `n` was truncated
+        if (len > n)
+            len = n;
+        if (len > 0)
+            adjust_length(len);
     }
     return *this;
 }
-- 
2.43.0


From 00091650d88f732e17b14657f5ded431ee3daf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 28/81] fix: cesu8_to_utf8 inserts the requested replacement
 characters

---
 string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.cc b/string.cc
index 6bc3586..f2a596c 100644
--- a/string.cc
+++ b/string.cc
@@ -1225,7 +1225,7 @@ String::cesu8_to_utf8(int flags) const
             last = s;
         } else {
             sa.append(last, s);
-            if ((flags & utf_replacement) && c != 0)
+            if ((flags & utf_replacement) && *s != 0)
                 sa.append_utf8(u_replacement);
             for (++s; s != ends && *s >= 0x80 && *s < 0xC0; ++s)
                 /* do nothing */;
-- 
2.43.0


From 8af64dca453b930627640d6c14a194d12849fdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 29/81] fix: Windows-1252 0x88 and 0x98 are U+02C6 and U+02DC

---
 string.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/string.cc b/string.cc
index f2a596c..e331518 100644
--- a/string.cc
+++ b/string.cc
@@ -1103,9 +1103,9 @@ String::parse_cesu8_char(const unsigned char *s, const unsigned char *end)
 
 static const uint16_t windows1252_c1_mapping[] = {
     0x20AC, 0x0081, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021,
-    0x20C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x008D, 0x017D, 0x008F,
+    0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x008D, 0x017D, 0x008F,
     0x0090, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014,
-    0x20DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x009D, 0x017E, 0x0178
+    0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x009D, 0x017E, 0x0178
 };
 
 String
-- 
2.43.0


From 6e80314c2eb9664d4b7def8c0a04a41124b2d6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 30/81] fix: String::is_shared is true for shared strings, not
 unshared ones

---
 string.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.hh b/string.hh
index c1be610..8744562 100644
--- a/string.hh
+++ b/string.hh
@@ -782,7 +782,7 @@ inline String &String::operator+=(const String_base<T> &x) {
 /** @brief Test if the String's data is shared or stable. */
 inline bool String::is_shared() const {
     memo_type* m = _r.memo();
-    return !m || m->refunique();
+    return !m || !m->refunique();
 }
 
 /** @brief Test if the String's data is stable. */
-- 
2.43.0


From 8160994bb2be47dd5a51a443de94ab8a4a4d20c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 31/81] fix: String::align keeps its memory reference

---
 string.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/string.cc b/string.cc
index e331518..0ca7377 100644
--- a/string.cc
+++ b/string.cc
@@ -1046,9 +1046,8 @@ String::align(int n)
         s.append_uninitialized(_r.length + n + 1);
         offset = reinterpret_cast<uintptr_t>(s._r.data) % n;
         memcpy((char *)s._r.data + n - offset, _r.data, _r.length);
-        s._r.data += n - offset;
-        s._r.length = _r.length;
-        *this = s;
+        const char* first = s._r.data + n - offset;
+        *this = s.fast_substring(first, first + _r.length);
     }
 }
 
-- 
2.43.0


From 68ef01c2a34eb562c9074e620608cbcb0be209bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 32/81] fix: find_right does not look past the end of the
 string

---
 string.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/string.cc b/string.cc
index 0ca7377..229e07d 100644
--- a/string.cc
+++ b/string.cc
@@ -375,7 +375,7 @@ int
 String_generic::find_right(const char *s, int len, int start,
                            const char *x, int x_len)
 {
-    if (start >= len)
+    if (start > len - x_len)
         start = len - x_len;
     if (x_len == 0)
         return start >= 0 ? start : -1;
-- 
2.43.0


From 6aca7896d1493d77f946263df2cfff7f4161bba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 33/81] fix: glob_match tests the first character of a
 character class

---
 string.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/string.cc b/string.cc
index 229e07d..22fe67c 100644
--- a/string.cc
+++ b/string.cc
@@ -450,8 +450,9 @@ bool String_generic::glob_match(const char* sbegin, int slen,
 
                       bool found = false;
                       do {
-                          if (*++ec == *s)
+                          if (*ec == *s)
                               found = true;
+                          ++ec;
                       } while (ec != pend && *ec != ']');
                       if (ec == pend)
                           goto normal_char;
-- 
2.43.0


From d20077fa34b87afae4ca7d9c5b1de63599c941ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:25 +0000
Subject: [PATCH 34/81] fix: printable(2) escapes quotes and backslashes in
 plain text

---
 string.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/string.cc b/string.cc
index 22fe67c..fb1365d 100644
--- a/string.cc
+++ b/string.cc
@@ -1001,7 +1001,8 @@ String::printable(int type) const
     // avoid copies
     if (!out_of_memory())
         for (int i = 0; i < _r.length; i++)
-            if (_r.data[i] < 32 || _r.data[i] > 126)
+            if (_r.data[i] < 32 || _r.data[i] > 126
+                || (type == 2 && (_r.data[i] == '\\' || _r.data[i] == '\"')))
                 return hard_printable(*this, i, type);
     return *this;
 }
-- 
2.43.0


From 001b203bb7e16481b08f41cd8f4f19d1841cd8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:01 +0000
Subject: [PATCH 35/81] fix: natural_compare is a consistent total order

---
 string.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/string.cc b/string.cc
index fb1365d..236d903 100644
--- a/string.cc
+++ b/string.cc
@@ -172,6 +172,7 @@ int String_generic::natural_compare(const char* a, int a_len,
             while (b < be && *b == '0')
                 ++b;
             int longer_zeros = (a - ia) - (b - ib);
+            const char *za = a, *zb = b;
 
             // walk over digits, remembering first nonidentical digit comparison
             int digit_compare = 0;
@@ -195,12 +196,19 @@ int String_generic::natural_compare(const char* a, int a_len,
                     ++ax;
                 while (bx < be && isdigit((unsigned char) *bx))
                     ++bx;
-                // watch for IP addresses: don't treat "0.2." like a decimal
-                if (!(ax + 1 < ae && *ax == '.' && !isspace((unsigned char) ax[1]))
-                    && !(bx + 1 < be && *bx == '.' && !isspace((unsigned char) bx[1]))) {
+                // watch for IP addresses: don't treat "0.2." like a decimal,
+                // and order decimals before IP addresses
+                bool a_ip = ax + 1 < ae && *ax == '.' && !isspace((unsigned char) ax[1]);
+                bool b_ip = bx + 1 < be && *bx == '.' && !isspace((unsigned char) bx[1]);
+                if (a_ip != b_ip)
+                    return a_ip ? 1 : -1;
+                if (!a_ip) {
                     negative = aperiod_negative;
-                    if (longer_zeros)
-                        return negative ? 1 : -1;
+                    // "05" is less than "5", but "00" is greater than "0"
+                    if (longer_zeros > 0)
+                        return negative == (bx == zb) ? -1 : 1;
+                    else if (longer_zeros < 0)
+                        return negative == (ax == za) ? 1 : -1;
                     if (digit_compare)
                         a_good = b_good;
                 }
@@ -231,9 +239,9 @@ int String_generic::natural_compare(const char* a, int a_len,
             // if we get here, the numeric portions were byte-for-byte
             // identical; move on
         } else if (isdigit((unsigned char) *a))
-            return isalpha((unsigned char) *b) ? -1 : 1;
+            return tolower((unsigned char) *b) >= 'a' ? -1 : 1;
         else if (isdigit((unsigned char) *b))
-            return isalpha((unsigned char) *a) ? 1 : -1;
+            return tolower((unsigned char) *a) >= 'a' ? 1 : -1;
         else {
             int alower = (unsigned char) tolower((unsigned char) *a);
             int blower = (unsigned char) tolower((unsigned char) *b);
-- 
2.43.0


From 269ef0fb7ada7fb1206a5520781ddf32b2378b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:00 +0000
Subject: [PATCH 36/81] fix: removing a key whose row is a remove marker does
 nothing

After log replay, removed keys are represented by marker rows. run_remove
treated them as present: it reported success (and logged another remove).
---
 kvrow.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kvrow.hh b/kvrow.hh
index a92c9b2..6a665a8 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -241,10 +241,10 @@ inline bool query<R>::apply_replace(R*& value, bool found, Str new_value,
 template <typename R> template <typename T>
 bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     typename T::cursor_type lp(table, key);
-    bool found = lp.find_locked(ti);
+    bool found = lp.find_locked(ti) && !row_is_marker(lp.value());
     if (found)
         apply_remove(lp.value(), lp.node()->phantom_epoch_[0], ti);
-    lp.finish(-1, ti);
+    lp.finish(found ? -1 : 0, ti);
     return found;
 }
 
-- 
2.43.0


From efba6dd13785c8ba6a33e92570c1afa73f59971f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:45 +0000
Subject: [PATCH 37/81] fix: concurrent removals can lose a leaf's phantom
 epoch

A leaf's phantom epoch may be raised by the remover of its successor, which
does not hold its lock. Plain stores by the lock holder, a concurrent split,
and concurrent removal of the predecessor could each lose such an update; a
later insertion of a removed key then reused an older timestamp, and log
replay would resurrect or drop it.
---
 kvrow.hh           | 14 +++++++-------
 masstree_remove.hh | 28 +++++++++++++++++-----------
 masstree_split.hh  |  3 +++
 masstree_struct.hh | 10 ++++++++++
 4 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/kvrow.hh b/kvrow.hh
index 6a665a8..47e0160 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -88,7 +88,8 @@ class query {
                           const Json* lastreq, threadinfo& ti);
     inline bool apply_replace(R*& value, bool found, Str new_value,
                               threadinfo& ti);
-    inline void apply_remove(R*& value, kvtimestamp_t& node_ts, threadinfo& ti);
+    template <typename N>
+    inline void apply_remove(R*& value, N* node, threadinfo& ti);
 
     template <typename RR> friend class query_json_scanner;
 };
@@ -243,14 +244,13 @@ bool query<R>::run_remove(T& table, Str key, threadinfo& ti) {
     typename T::cursor_type lp(table, key);
     bool found = lp.find_locked(ti) && !row_is_marker(lp.value());
     if (found)
-        apply_remove(lp.value(), lp.node()->phantom_epoch_[0], ti);
+        apply_remove(lp.value(), lp.node(), ti);
     lp.finish(found ? -1 : 0, ti);
     return found;
 }
 
-template <typename R>
-inline void query<R>::apply_remove(R*& value, kvtimestamp_t& node_ts,
-                                   threadinfo& ti) {
+template <typename R> template <typename N>
+inline void query<R>::apply_remove(R*& value, N* node, threadinfo& ti) {
     if (loginfo* log = ti.logger()) {
         log->acquire();
         qtimes_.epoch = global_log_epoch;
@@ -258,8 +258,8 @@ inline void query<R>::apply_remove(R*& value, kvtimestamp_t& node_ts,
 
     R* old_value = value;
     assign_timestamp(ti, old_value->timestamp());
-    if (circular_int<kvtimestamp_t>::less_equal(node_ts, qtimes_.ts)) {
-        node_ts = qtimes_.ts + 2;
+    if (circular_int<kvtimestamp_t>::less_equal(node->phantom_epoch(), qtimes_.ts)) {
+        node->raise_phantom_epoch(qtimes_.ts + 2);
     }
     old_value->deallocate_rcu(ti);
 }
diff --git a/masstree_remove.hh b/masstree_remove.hh
index 6d67901..2acef51 100644
--- a/masstree_remove.hh
+++ b/masstree_remove.hh
@@ -99,10 +99,7 @@ bool tcursor<P>::gc_layer(threadinfo& ti)
         masstree_invariant(!lf->prev_ && !lf->next_.ptr);
         masstree_invariant(!lf->deleted());
         masstree_invariant(!lf->deleted_layer());
-        if (P::need_phantom_epoch
-            && circular_int<typename P::phantom_epoch_type>::less(n_->phantom_epoch_[0], lf->phantom_epoch_[0])) {
-            n_->phantom_epoch_[0] = lf->phantom_epoch_[0];
-        }
+        n_->raise_phantom_epoch(lf->phantom_epoch());
         lf->mark_insert();          // observers must notice the change
         lf->mark_deleted_layer();   // NB DO NOT mark as deleted (see above)
         lf->unlock();
@@ -192,16 +189,25 @@ bool tcursor<P>::remove_leaf(leaf_type* leaf, node_type* root,
     leaf->deallocate_rcu(ti);
 
     // Ensure node that becomes responsible for our keys has its phantom epoch
-    // kept up to date
+    // kept up to date. A predecessor that is itself being removed may have
+    // passed on its phantom epoch already, so skip past it; a predecessor
+    // that splits concurrently passes on what it has after the split.
     while (P::need_phantom_epoch) {
+        memory_fence();
         leaf_type *prev = leaf->prev_;
-        typename P::phantom_epoch_type prev_ts = prev->phantom_epoch();
-        while (circular_int<typename P::phantom_epoch_type>::less(prev_ts, leaf->phantom_epoch())
-               && !bool_cmpxchg(&prev->phantom_epoch_[0], prev_ts, leaf->phantom_epoch())) {
-            prev_ts = prev->phantom_epoch();
+        while (true) {
+            prev->raise_phantom_epoch(leaf->phantom_epoch());
+            memory_fence();
+            if (!prev->deleted()) {
+                break;
+            }
+            prev = prev->prev_;
+        }
+        leaf_type *check = leaf->prev_;
+        while (check != prev && check->deleted()) {
+            check = check->prev_;
         }
-        fence();
-        if (prev == leaf->prev_) {
+        if (check == prev) {
             break;
         }
     }
diff --git a/masstree_split.hh b/masstree_split.hh
index b3ab906..beef5fc 100644
--- a/masstree_split.hh
+++ b/masstree_split.hh
@@ -199,6 +199,9 @@ bool tcursor<P>::make_split(threadinfo& ti)
     ikey_type xikey[2];
     int split_type = n_->split_into(static_cast<leaf_type*>(child),
                                     this, xikey[0], ti);
+    // `n_`'s phantom epoch may have risen before `child` was linked
+    memory_fence();
+    static_cast<leaf_type*>(child)->raise_phantom_epoch(n_->phantom_epoch());
     unsigned sense = 0;
     node_type* n = n_;
     uint32_t height = 0;
diff --git a/masstree_struct.hh b/masstree_struct.hh
index 1ca26cc..d067841 100644
--- a/masstree_struct.hh
+++ b/masstree_struct.hh
@@ -326,6 +326,16 @@ class leaf : public node_base<P> {
     phantom_epoch_type phantom_epoch() const {
         return P::need_phantom_epoch ? phantom_epoch_[0] : phantom_epoch_type();
     }
+    // Raise the phantom epoch to at least `x`. The leaf need not be locked.
+    void raise_phantom_epoch(phantom_epoch_type x) {
+        while (P::need_phantom_epoch) {
+            phantom_epoch_type e = phantom_epoch_[0];
+            if (!circular_int<phantom_epoch_type>::less(e, x)
+                || bool_cmpxchg(&phantom_epoch_[0], e, x)) {
+                break;
+            }
+        }
+    }
 
     int size() const {
         return permuter_type::size(permutation_);
-- 
2.43.0


From fe8c9be82499b94366788545b1515836942f6f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 38/81] fix: empty columns of array rows read as missing

---
 value_array.hh           | 6 ++++--
 value_versioned_array.hh | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/value_array.hh b/value_array.hh
index 5191027..1b60f42 100644
--- a/value_array.hh
+++ b/value_array.hh
@@ -80,10 +80,12 @@ inline int value_array::ncol() const {
 }
 
 inline Str value_array::col(int i) const {
-    if (unsigned(i) < unsigned(ncol_) && cols_[i])
+    if (unsigned(i) >= unsigned(ncol_))
+        return Str();
+    else if (cols_[i])
         return Str(cols_[i]->s, cols_[i]->len);
     else
-        return Str();
+        return Str("", 0); // not Str(), which reads as a missing column
 }
 
 inline size_t value_array::shallow_size(int ncol) {
diff --git a/value_versioned_array.hh b/value_versioned_array.hh
index 9f7a3b9..e49c2af 100644
--- a/value_versioned_array.hh
+++ b/value_versioned_array.hh
@@ -144,10 +144,12 @@ inline int value_versioned_array::ncol() const {
 }
 
 inline Str value_versioned_array::col(int i) const {
-    if (unsigned(i) < unsigned(ncol_) && cols_[i])
+    if (unsigned(i) >= unsigned(ncol_))
+        return Str();
+    else if (cols_[i])
         return Str(cols_[i]->s, cols_[i]->len);
     else
-        return Str();
+        return Str("", 0); // not Str(), which reads as a missing column
 }
 
 inline size_t value_versioned_array::shallow_size(int ncol) {
-- 
2.43.0


From 36062d165f38bf6dc4e2091c7bf2a7928a79b76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 39/81] fix: rows larger than 64 KB are corrupted

---
 kvrow.hh     | 2 +-
 value_bag.hh | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kvrow.hh b/kvrow.hh
index 47e0160..eb00daa 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -32,7 +32,7 @@ typedef value_versioned_array row_type;
 typedef value_string row_type;
 #else
 # include "value_bag.hh"
-typedef value_bag<uint16_t> row_type;
+typedef value_bag<uint32_t> row_type;
 #endif
 
 template <typename R>
diff --git a/value_bag.hh b/value_bag.hh
index 2dec89d..8cd6258 100644
--- a/value_bag.hh
+++ b/value_bag.hh
@@ -269,12 +269,12 @@ void value_bag<O>::print(FILE *f, const char *prefix, int indent,
     kvtimestamp_t adj_ts = timestamp_sub(ts_, initial_ts);
     if (d_.ncol_ == 1)
         fprintf(f, "%s%*s%.*s = %.*s @" PRIKVTSPARTS "%s\n", prefix, indent, "",
-                key.len, key.s, d_.pos_[1] - d_.pos_[0], d_.s_ + d_.pos_[0],
+                key.len, key.s, int(d_.pos_[1] - d_.pos_[0]), d_.s_ + d_.pos_[0],
                 KVTS_HIGHPART(adj_ts), KVTS_LOWPART(adj_ts), suffix);
     else {
         fprintf(f, "%s%*s%.*s = [", prefix, indent, "", key.len, key.s);
-        for (int col = 0; col < d_.ncol_; ++col) {
-            int pos = d_.pos_[col], len = std::min(40, d_.pos_[col + 1] - pos);
+        for (int col = 0; col < ncol(); ++col) {
+            int pos = d_.pos_[col], len = std::min(40, int(d_.pos_[col + 1]) - pos);
             fprintf(f, col ? "|%.*s" : "%.*s", len, d_.s_ + pos);
         }
         fprintf(f, "] @" PRIKVTSPARTS "%s\n",
-- 
2.43.0


From 13147d22a82f190b3fa66d9e8355b29eacba79ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 40/81] fix: string row updates read past the old value and
 leave gaps uninitialised

---
 value_string.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/value_string.hh b/value_string.hh
index dc35c40..4f3af33 100644
--- a/value_string.hh
+++ b/value_string.hh
@@ -137,7 +137,7 @@ value_string* value_string::update(const Json* first, const Json* last,
     for (auto it = first; it != last; it += 2) {
         unsigned idx = it[0].as_u(), length = it[1].as_s().length();
         if (idx == 0)
-            cut = length;
+            cut = std::min(cut, length);
         vallen = std::max(vallen, index_offset(idx) + length);
     }
     vallen = std::max(vallen, cut);
@@ -145,6 +145,7 @@ value_string* value_string::update(const Json* first, const Json* last,
     row->ts_ = ts;
     row->vallen_ = vallen;
     memcpy(row->s_, s_, cut);
+    memset(row->s_ + cut, 0, vallen - cut);
     for (; first != last; first += 2) {
         Str val = first[1].as_s();
         memcpy(row->s_ + index_offset(first[0].as_u()), val.data(), val.length());
-- 
2.43.0


From 02635379fcddca4c150834db3ec40b18b823e95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:48 +0000
Subject: [PATCH 41/81] fix: versioned array snapshots free columns of live
 rows and in-place updates keep the old timestamp

---
 value_versioned_array.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/value_versioned_array.cc b/value_versioned_array.cc
index dadd352..4998ad4 100644
--- a/value_versioned_array.cc
+++ b/value_versioned_array.cc
@@ -29,14 +29,14 @@ value_versioned_array* value_versioned_array::make_sized_row(int ncol, kvtimesta
 void value_versioned_array::snapshot(value_versioned_array*& storage,
                                      const std::vector<index_type>& f, threadinfo& ti) const {
     if (!storage || storage->ncol_cap_ < ncol_) {
-        if (storage)
-            storage->deallocate(ti);
+        if (storage)        // its columns belong to other rows
+            ti.deallocate(storage, shallow_size(storage->ncol_cap_), memtag_value);
         storage = make_sized_row(ncol_, ts_, ti);
     }
     storage->ncol_ = ncol_;
     rowversion v1 = ver_.stable();
     while (1) {
-        if (f.size() == 1)
+        if (f.size() == 1 && unsigned(f[0]) < unsigned(ncol_))
             storage->cols_[f[0]] = cols_[f[0]];
         else
             memcpy(storage->cols_, cols_, sizeof(cols_[0]) * storage->ncol_);
@@ -78,6 +78,7 @@ value_versioned_array::update(const Json* first, const Json* last,
     }
 
     if (row == this) {
+        ts_ = ts;
         fence();
         ver_.clearandbump();
     }
-- 
2.43.0


From 66adbef739813d607ccec1a5763169039b5a5bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:02 +0000
Subject: [PATCH 42/81] fix: masstree_struct.hh includes circular_int.hh

---
 masstree_struct.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/masstree_struct.hh b/masstree_struct.hh
index d067841..252416f 100644
--- a/masstree_struct.hh
+++ b/masstree_struct.hh
@@ -16,6 +16,7 @@
 #ifndef MASSTREE_STRUCT_HH
 #define MASSTREE_STRUCT_HH
 #include "masstree.hh"
+#include "circular_int.hh"
 #include "nodeversion.hh"
 #include "stringbag.hh"
 #include "mtcounters.hh"
-- 
2.43.0


From dd255100d0ccea2d987cd6b83362d78468ae0b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:54 +0000
Subject: [PATCH 43/81] verif hooks: yield points and log buffer size

---
 checkpoint.cc | 1 +
 kvthread.hh   | 8 ++++++++
 log.cc        | 5 +++++
 3 files changed, 14 insertions(+)

diff --git a/checkpoint.cc b/checkpoint.cc
index 0b43a88..d19cee0 100644
--- a/checkpoint.cc
+++ b/checkpoint.cc
@@ -18,6 +18,7 @@
 // add one key/value to a checkpoint.
 // called by checkpoint_tree() for each node.
 bool ckstate::visit_value(Str key, const row_type* value, threadinfo&) {
+    MASSTREE_VERIF_YIELD("checkpoint");
     if (endkey && key >= endkey)
         return false;
     if (!row_is_marker(value)) {
diff --git a/kvthread.hh b/kvthread.hh
index 4275d61..06bb5a4 100644
--- a/kvthread.hh
+++ b/kvthread.hh
@@ -33,6 +33,13 @@ class loginfo;
 // back to a free list.
 extern "C" void masstree_verif_pool_acquire(void* p, size_t sz);
 extern "C" void masstree_verif_pool_release(void* p, size_t sz);
+// Called where threads hold no locks, so another thread may run.
+extern "C" void masstree_verif_yield(const char* where) __attribute__((weak));
+#define MASSTREE_VERIF_YIELD(where) (masstree_verif_yield ? masstree_verif_yield(where) : (void) 0)
+// Size of the in-memory log buffers, if nonzero.
+extern "C" unsigned masstree_verif_log_size __attribute__((weak));
+#else
+#define MASSTREE_VERIF_YIELD(where) ((void) 0)
 #endif
 
 typedef uint64_t mrcu_epoch_type;
@@ -282,6 +289,7 @@ class threadinfo {
         if (perform_gc_epoch_ != active_epoch.load())
             hard_rcu_quiesce();
         gc_epoch_ = 0;
+        MASSTREE_VERIF_YIELD("rcu_stop");
     }
     void rcu_quiesce() {
         rcu_start();
diff --git a/log.cc b/log.cc
index 15d9553..3ca22ed 100644
--- a/log.cc
+++ b/log.cc
@@ -183,6 +183,10 @@ loginfo::loginfo(logset* ls, int logindex) {
     f_.filename_.ref();
 
     len_ = 20 * 1024 * 1024;
+#if MASSTREE_VERIF_HOOKS
+    if (&masstree_verif_log_size && masstree_verif_log_size)
+        len_ = masstree_verif_log_size;
+#endif
     pos_ = 0;
     buf_ = (char *) malloc(len_);
     always_assert(buf_);
@@ -699,6 +703,7 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
 
     // XXX
     while (pos < end) {
+        MASSTREE_VERIF_YIELD("replay");
         const char *nextpos = lr.extract(pos, end);
         if (lr.command == logcmd_none) {
             fprintf(stderr, "replay %s: %" PRIu64 " entries replayed, CORRUPT @%zu\n",
-- 
2.43.0


From 6c7b6cda5708562f4aa4f6c768aa51cd186712af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:25 +0000
Subject: [PATCH 44/81] fix: a get of a missing key replies without the key

---
 kvrow.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kvrow.hh b/kvrow.hh
index eb00daa..878af58 100644
--- a/kvrow.hh
+++ b/kvrow.hh
@@ -135,6 +135,8 @@ void query<R>::run_get(T& table, Json& req, threadinfo& ti) {
         }
         req.resize(2);
         emit_fields(lp.value(), req, ti);
+    } else {
+        req.resize(2);
     }
 }
 
-- 
2.43.0


From c46d97f3dd28b9c58d6d1642a180ed7581d647d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:25 +0000
Subject: [PATCH 45/81] fix: log records keep their own reference to the key

---
 mtd.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index 0118285..11251bf 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -968,11 +968,10 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
         q.run_get(tree->table(), request, ti);
     } else if (command == Cmd_Put && request.size() > 3
                && (request.size() % 2) == 1) { // insert or update
-        Str key(request[2].as_s());
+        String key(request[2].as_s());
         const Json* req = request.array_data() + 3;
         const Json* end_req = request.end_array_data();
-        request[2] = q.run_put(tree->table(), request[2].as_s(),
-                               req, end_req, ti);
+        request[2] = q.run_put(tree->table(), key, req, end_req, ti);
         if (ti.logger() && request_str) {
             // use the client's parsed version of the request
             msgpack::parser mp(request_str.data());
@@ -982,13 +981,13 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
             ti.logger()->record(logcmd_put, q.query_times(), key, req, end_req);
         request.resize(3);
     } else if (command == Cmd_Replace) { // insert or update
-        Str key(request[2].as_s()), value(request[3].as_s());
+        String key(request[2].as_s()), value(request[3].as_s());
         request[2] = q.run_replace(tree->table(), key, value, ti);
         if (ti.logger()) // NB may block
             ti.logger()->record(logcmd_replace, q.query_times(), key, value);
         request.resize(3);
     } else if (command == Cmd_Remove) { // remove
-        Str key(request[2].as_s());
+        String key(request[2].as_s());
         bool removed = q.run_remove(tree->table(), key, ti);
         if (removed && ti.logger()) // NB may block
             ti.logger()->record(logcmd_remove, q.query_times(), key, Str());
-- 
2.43.0


From 7bea1fa737d3c3bc9ada6400ae7f9fb1846eca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:25 +0000
Subject: [PATCH 46/81] fix: replaying a remove does not parse its marker as a
 change set

---
 log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.cc b/log.cc
index 3ca22ed..3dbbd3d 100644
--- a/log.cc
+++ b/log.cc
@@ -554,7 +554,7 @@ inline void logrecord::apply(row_type*& value, bool found,
         }
 
     // actually apply change
-    if (command == logcmd_replace)
+    if (command == logcmd_replace || command == logcmd_remove)
         *cur_value = row_type::create1(val, ts, ti);
     else if (command != logcmd_modify
              || (*cur_value && (*cur_value)->timestamp() == prev_ts)) {
-- 
2.43.0


From e52c1de7a60ec83f4282e58100fcdda232e6b660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:25 +0000
Subject: [PATCH 47/81] fix: change sets are logged without an array header

---
 log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.cc b/log.cc
index 3dbbd3d..b725aa1 100644
--- a/log.cc
+++ b/log.cc
@@ -375,7 +375,7 @@ void loginfo::record(int command, const query_times& qtimes, Str key,
                      const lcdf::Json* req, const lcdf::Json* end_req) {
     lcdf::StringAccum sa(128);
     msgpack::unparser<lcdf::StringAccum> cu(sa);
-    cu.write_array_header(end_req - req);
+    // the log contains column/value pairs with no array header
     for (; req != end_req; ++req)
         cu << *req;
     record(command, qtimes, key, Str(sa.data(), sa.length()));
-- 
2.43.0


From 8e368fdca6f8308da29b520b67b3fb28b6cab973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:25 +0000
Subject: [PATCH 48/81] fix: log replay recovers the empty key

---
 log.cc | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/log.cc b/log.cc
index b725aa1..4eff0c9 100644
--- a/log.cc
+++ b/log.cc
@@ -731,12 +731,11 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
         // correctness of checkpoint scheme.
         assert(repbegin);
         repend = nextpos;
-        if (lr.key.len) { // skip empty entry
-            if (lr.command == logcmd_put
-                || lr.command == logcmd_replace
-                || lr.command == logcmd_modify
-                || lr.command == logcmd_remove)
-                lr.run(tree->table(), jrepo, *ti);
+        if (lr.command == logcmd_put
+            || lr.command == logcmd_replace
+            || lr.command == logcmd_modify
+            || lr.command == logcmd_remove) { // skip empty entry
+            lr.run(tree->table(), jrepo, *ti);
             ++nr;
             if (nr % 100000 == 0)
                 fprintf(stderr,
-- 
2.43.0


From 8239b565b7db053790614f8409ab599df3872065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:21 +0000
Subject: [PATCH 49/81] verif hooks: yield point between checkpoint pivots

---
 query_masstree.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/query_masstree.cc b/query_masstree.cc
index d514d9a..2da8c74 100644
--- a/query_masstree.cc
+++ b/query_masstree.cc
@@ -159,8 +159,10 @@ void query_table<P>::findpivots(Str *pv, int npv) const
     char *cmaxk = (char *)malloc(MASSTREE_MAXKEYLEN);
     memset(cmaxk, 255, MASSTREE_MAXKEYLEN);
     pv[npv - 1].assign(cmaxk, MASSTREE_MAXKEYLEN);
-    for (int i = 1; i < npv - 1; i++)
+    for (int i = 1; i < npv - 1; i++) {
+        MASSTREE_VERIF_YIELD("pivot");
         pv[i] = findpv(table_.root(), i, npv - 1);
+    }
 }
 
 namespace {
-- 
2.43.0


From 0407a422c52b223a5697b4eab6090a219f2b519d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:21 +0000
Subject: [PATCH 50/81] fix: checkpoint ranges do not overlap when pivots are
 empty or unordered

---
 checkpoint.cc | 2 +-
 mtd.cc        | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/checkpoint.cc b/checkpoint.cc
index d19cee0..79e0067 100644
--- a/checkpoint.cc
+++ b/checkpoint.cc
@@ -19,7 +19,7 @@
 // called by checkpoint_tree() for each node.
 bool ckstate::visit_value(Str key, const row_type* value, threadinfo&) {
     MASSTREE_VERIF_YIELD("checkpoint");
-    if (endkey && key >= endkey)
+    if (key >= endkey)
         return false;
     if (!row_is_marker(value)) {
         msgpack::unparser<kvout> up(*vals);
diff --git a/mtd.cc b/mtd.cc
index 11251bf..c9e6ab8 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1657,8 +1657,9 @@ void* conc_checkpointer(void* x) {
       pthread_mutex_lock(&checkpoint_mu);
       ckp_gen = ckp_gen.next_nonzero();
       for (int i = 0; i < nckthreads; i++) {
-          cks[i].startkey = pv[i];
-          cks[i].endkey = (i == nckthreads - 1 ? Str() : pv[i + 1]);
+          // pivots can be empty, and out of order if the tree changes
+          cks[i].startkey = (i == 0 ? Str() : cks[i - 1].endkey);
+          cks[i].endkey = (i == nckthreads - 1 ? Str::maxkey : std::max(pv[i + 1], cks[i].startkey));
           cks[i].state = CKState_Go;
           pthread_cond_signal(&cks[i].state_cond);
       }
-- 
2.43.0


From 383da811c005d886b78c524be327dd9a2c9bc80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:21 +0000
Subject: [PATCH 51/81] fix: a checkpoint waits for logs that have never been
 flushed

---
 mtd.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index c9e6ab8..cbe692d 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1594,7 +1594,7 @@ max_flushed_epoch()
     for (int i = 0; i < nlogger; ++i) {
         loginfo& log = logs->log(i);
         kvepoch_t fe = log.quiescent() ? ge : log.flushed_epoch();
-        if (!mfe || fe < mfe)
+        if (i == 0 || fe < mfe)
             mfe = fe;
     }
     return mfe;
@@ -1639,7 +1639,7 @@ void* conc_checkpointer(void* x) {
 
       if (uncommitted_ckp) {
           kvepoch_t mfe = max_flushed_epoch();
-          if (!mfe || mfe > uncommitted_ckp["max_epoch"].to_u64()) {
+          if (mfe > uncommitted_ckp["max_epoch"].to_u64()) {
               commit_checkpoint(uncommitted_ckp);
               uncommitted_ckp = Json();
           }
-- 
2.43.0


From 1bfd93e249fea3ba7508c9074965cfa26c7b85b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:21 +0000
Subject: [PATCH 52/81] fix: recovery ignores missing and empty logs when
 looking for quiescent ones

---
 mtd.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index cbe692d..6882d28 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1382,7 +1382,7 @@ recover(threadinfo *)
   recphase(nckthreads, REC_CKP);
 
   // find minimum maximum timestamp of entries in each log
-  rec_log_infos = new logreplay::info_type[nlogger];
+  rec_log_infos = new logreplay::info_type[nlogger]();
   recphase(nlogger, REC_LOG_TS);
 
   // replay log entries, remove inconsistent entries, and append
@@ -1423,7 +1423,7 @@ recover(threadinfo *)
   kvepoch_t min_quiescent_last_epoch = 0;
   for (logreplay::info_type *it = rec_log_infos;
        it != rec_log_infos + nlogger; ++it)
-      if (it->quiescent
+      if (it->quiescent && it->last_epoch
           && (!min_quiescent_last_epoch || min_quiescent_last_epoch > it->last_epoch))
           min_quiescent_last_epoch = it->last_epoch;
 
@@ -1432,7 +1432,8 @@ recover(threadinfo *)
   // anything at or beyond the minimum missed wake epoch. So record, for
   // each log, the minimum wake command that at least one quiescent thread
   // missed.
-  if (max_wake_epoch && min_quiescent_last_epoch <= max_wake_epoch)
+  if (max_wake_epoch && min_quiescent_last_epoch
+      && min_quiescent_last_epoch <= max_wake_epoch)
       rec_replay_min_quiescent_last_epoch = min_quiescent_last_epoch;
   else
       rec_replay_min_quiescent_last_epoch = 0;
-- 
2.43.0


From 12ca933b20f77e2efcf740e60d5995d1bf0ecba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:21 +0000
Subject: [PATCH 53/81] fix: logs that begin after a checkpoint began can be
 recovered

---
 log.cc | 4 +---
 mtd.cc | 1 -
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/log.cc b/log.cc
index 4eff0c9..9bfb648 100644
--- a/log.cc
+++ b/log.cc
@@ -711,11 +711,9 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
             break;
         }
         if (lr.command == logcmd_epoch) {
-            if ((min_epoch && lr.epoch < min_epoch)
-                || (!min_epoch && !repbegin))
+            if ((min_epoch && lr.epoch < min_epoch) || !repbegin)
                 repbegin = pos;
             if (lr.epoch >= max_epoch) {
-                always_assert(repbegin);
                 repend = nextpos;
                 break;
             }
diff --git a/mtd.cc b/mtd.cc
index 6882d28..dbc7214 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1460,7 +1460,6 @@ recover(threadinfo *)
 
   // Checks.
   if (rec_ckp_min_epoch) {
-      always_assert(rec_ckp_min_epoch > max_first_epoch);
       always_assert(rec_ckp_min_epoch < rec_replay_max_epoch);
       always_assert(rec_ckp_max_epoch < rec_replay_max_epoch);
       fprintf(stderr, "replay [%" PRIu64 ",%" PRIu64 ") from [%" PRIu64 ",%" PRIu64 ") into ckp [%" PRIu64 ",%" PRIu64 "]\n",
-- 
2.43.0


From 23a88708b6e2d526684c64a5e7631c096d599b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:15 +0000
Subject: [PATCH 54/81] fix: every log records wake commands, in the epoch they
 belong to

---
 log.cc | 53 +++++++++++++++++++++++++++++++----------------------
 log.hh |  7 +++++--
 2 files changed, 36 insertions(+), 24 deletions(-)

diff --git a/log.cc b/log.cc
index 9bfb648..5f01942 100644
--- a/log.cc
+++ b/log.cc
@@ -252,20 +252,18 @@ void* loginfo::run() {
         uint32_t nb = 0;
         acquire();
         kvepoch_t ge = global_log_epoch, we = global_wake_epoch;
-        if (wake_epoch_ != we) {
-            wake_epoch_ = we;
-            quiescent_epoch_ = 0;
-        }
         // If the writing threads appear quiescent, and aren't about to write
         // to the log (f_.waiting_ != 0), then write a quiescence
-        // notification.
-        if (!recovering && pos_ == 0 && !quiescent_epoch_
-            && ge != log_epoch_ && ge != we && !f_.waiting_) {
+        // notification. A quiescent log writes another one when some other
+        // log wakes up.
+        if (!recovering && pos_ == 0
+            && (!quiescent_epoch_ || wake_epoch_ != we)
+            && ge != log_epoch_ && we < ge && !f_.waiting_) {
+            if (wake_epoch_ != we)
+                record_wake(we);
             quiescent_epoch_ = log_epoch_ = ge;
-            char *p = buf_;
+            char *p = buf_ + pos_;
             p += logrec_epoch::store(p, logcmd_epoch, log_epoch_);
-            if (log_epoch_ == wake_epoch_)
-                p += logrec_base::store(p, logcmd_wake);
             p += logrec_base::store(p, logcmd_quiesce);
             pos_ = p - buf_;
         }
@@ -294,12 +292,24 @@ void* loginfo::run() {
 
 
 
+// Record that a log woke up in epoch `we`. The wake command must not be logged
+// in a later epoch if we can help it: recovery would think that logs that went
+// quiescent between `we` and that epoch had missed it.
+inline void loginfo::record_wake(kvepoch_t we) {
+    if (log_epoch_ < we) {
+        log_epoch_ = we;
+        pos_ += logrec_epoch::store(buf_ + pos_, logcmd_epoch, we);
+    }
+    wake_epoch_ = we;
+    pos_ += logrec_base::store(buf_ + pos_, logcmd_wake);
+}
+
 // log entry format: see log.hh
 void loginfo::record(int command, const query_times& qtimes,
                      Str key, Str value) {
     assert(!recovering);
     size_t n = logrec_kvdelta::size(key.len, value.len)
-        + logrec_epoch::size() + logrec_base::size();
+        + 2 * logrec_epoch::size() + logrec_base::size();
     waitlist wait = { &wait };
     int stalls = 0;
     while (1) {
@@ -307,18 +317,13 @@ void loginfo::record(int command, const query_times& qtimes,
             && (wait.next == &wait || f_.waiting_ == &wait)) {
             kvepoch_t we = global_wake_epoch;
 
-            // Potentially record a new epoch.
-            if (qtimes.epoch != log_epoch_) {
-                log_epoch_ = qtimes.epoch;
-                pos_ += logrec_epoch::store(buf_ + pos_, logcmd_epoch, qtimes.epoch);
-            }
-
             if (quiescent_epoch_) {
                 // We're recording a new log record on a log that's been
                 // quiescent for a while. If the quiescence marker has been
                 // flushed, then all epochs less than the query epoch are
-                // effectively on disk.
-                if (flushed_epoch_ == quiescent_epoch_)
+                // effectively on disk (unless the log was about to record
+                // another quiescence marker).
+                if (flushed_epoch_ == quiescent_epoch_ && wake_epoch_ == we)
                     flushed_epoch_ = qtimes.epoch;
                 quiescent_epoch_ = 0;
                 while (we < qtimes.epoch)
@@ -332,9 +337,13 @@ void loginfo::record(int command, const query_times& qtimes,
             // record.
             if (we != wake_epoch_ && qtimes.epoch < we)
                 we = qtimes.epoch;
-            if (we != wake_epoch_) {
-                wake_epoch_ = we;
-                pos_ += logrec_base::store(buf_ + pos_, logcmd_wake);
+            if (we != wake_epoch_)
+                record_wake(we);
+
+            // Potentially record a new epoch.
+            if (qtimes.epoch != log_epoch_) {
+                log_epoch_ = qtimes.epoch;
+                pos_ += logrec_epoch::store(buf_ + pos_, logcmd_epoch, qtimes.epoch);
             }
 
             if (command == logcmd_put && qtimes.prev_ts
diff --git a/log.hh b/log.hh
index 0a7212c..192ea11 100644
--- a/log.hh
+++ b/log.hh
@@ -73,7 +73,8 @@ class loginfo {
     // We have logged all writes up to, but not including,
     // flushed_epoch_.
     // Log is quiesced to disk if quiescent_epoch_ != 0
-    // and quiescent_epoch_ == flushed_epoch_.
+    // and quiescent_epoch_ == flushed_epoch_,
+    // and no other log has woken up since.
     // When a log wakes up from quiescence, it sets global_wake_epoch;
     // other threads must record a logcmd_wake in their logs.
     // Invariant: log_epoch_ != quiescent_epoch_ (unless both are 0).
@@ -83,6 +84,7 @@ class loginfo {
 
     loginfo(logset* ls, int logindex);
     ~loginfo();
+    inline void record_wake(kvepoch_t we);
     void* run();
     static void* trampoline(void*);
 
@@ -186,7 +188,8 @@ inline kvepoch_t loginfo::flushed_epoch() const {
 }
 
 inline bool loginfo::quiescent() const {
-    return quiescent_epoch_ && quiescent_epoch_ == flushed_epoch_;
+    return quiescent_epoch_ && quiescent_epoch_ == flushed_epoch_
+        && wake_epoch_ == global_wake_epoch;
 }
 
 inline int logset::size() const {
-- 
2.43.0


From a5e0341ca6e1d123385fe67a335ceccfc94581f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:15 +0000
Subject: [PATCH 55/81] fix: log records do not overtake stalled records from
 earlier epochs

---
 log.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/log.cc b/log.cc
index 5f01942..e3a6a68 100644
--- a/log.cc
+++ b/log.cc
@@ -314,7 +314,7 @@ void loginfo::record(int command, const query_times& qtimes,
     int stalls = 0;
     while (1) {
         if (len_ - pos_ >= n
-            && (wait.next == &wait || f_.waiting_ == &wait)) {
+            && (wait.next == &wait ? !f_.waiting_ : f_.waiting_ == &wait)) {
             kvepoch_t we = global_wake_epoch;
 
             if (quiescent_epoch_) {
-- 
2.43.0


From 57950d79cedb1e1b7aba6079960bcacc8f6afc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:55 +0000
Subject: [PATCH 56/81] fix: every log ends with an epoch record after recovery

---
 log.cc | 24 ++++++++++++++++--------
 mtd.cc |  9 ++++++++-
 2 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/log.cc b/log.cc
index e3a6a68..a16466f 100644
--- a/log.cc
+++ b/log.cc
@@ -394,7 +394,7 @@ void loginfo::record(int command, const query_times& qtimes, Str key,
 // replay
 
 logreplay::logreplay(const String &filename)
-    : filename_(filename), errno_(0), buf_()
+    : filename_(filename), errno_(0), size_(0), buf_()
 {
     int fd = open(filename_.c_str(), O_RDONLY);
     if (fd == -1) {
@@ -707,6 +707,7 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
     uint64_t nr = 0;
     const char *pos = buf_, *end = buf_ + size_;
     const char *repbegin = 0, *repend = 0;
+    bool ended = false;
     logrecord lr;
     std::vector<lcdf::Json> jrepo;
 
@@ -724,6 +725,7 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
                 repbegin = pos;
             if (lr.epoch >= max_epoch) {
                 repend = nextpos;
+                ended = true;
                 break;
             }
         }
@@ -776,6 +778,14 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
     else
         fd = replay_copy(tmplog, repbegin, repend);
 
+    // A log that stops before max_epoch was quiescent, empty, or missing. It
+    // is complete up to max_epoch, but from now on it can't be considered
+    // quiescent: recovery must find out when later records aren't on disk.
+    if (!ended) {
+        char erec[sizeof(logrec_epoch)];
+        checked_write(fd, erec, logrec_epoch::store(erec, logcmd_epoch, max_epoch));
+    }
+
     r = fsync(fd);
     always_assert(r == 0);
     r = close(fd);
@@ -799,7 +809,7 @@ logreplay::replayandclean1(kvepoch_t min_epoch, kvepoch_t max_epoch,
 int
 logreplay::replay_truncate(size_t len)
 {
-    int fd = open(filename_.c_str(), O_RDWR);
+    int fd = open(filename_.c_str(), O_RDWR | O_CREAT, 0666);
     if (fd < 0) {
         fprintf(stderr, "replay %s: %s\n", filename_.c_str(), strerror(errno));
         abort();
@@ -868,11 +878,9 @@ logreplay::replay(int which, threadinfo *ti)
     inactive();
 
     waituntilphase(REC_LOG_REPLAY);
-    if (buf_) {
-        ti->rcu_start();
-        uint64_t nr = replayandclean1(rec_replay_min_epoch, rec_replay_max_epoch, ti);
-        ti->rcu_stop();
-        printf("recovered %" PRIu64 " records from %s\n", nr, filename_.c_str());
-    }
+    ti->rcu_start();
+    uint64_t nr = replayandclean1(rec_replay_min_epoch, rec_replay_max_epoch, ti);
+    ti->rcu_stop();
+    printf("recovered %" PRIu64 " records from %s\n", nr, filename_.c_str());
     inactive();
 }
diff --git a/mtd.cc b/mtd.cc
index dbc7214..ef11fed 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1454,6 +1454,9 @@ recover(threadinfo *)
           rec_replay_max_epoch = it->min_post_quiescent_wake_epoch;
   }
 
+  if (!rec_replay_max_epoch)    // no logs and no checkpoint
+      rec_replay_max_epoch = rec_replay_max_epoch.next_nonzero();
+
   // Calculate lower bound of epochs to replay.
   rec_replay_min_epoch = rec_ckp_min_epoch;
   // XXX what about max_first_epoch?
@@ -1488,7 +1491,11 @@ recover(threadinfo *)
   always_assert(deltas_created == deltas_removed);
 #endif
 
-  global_log_epoch = rec_replay_max_epoch.next_nonzero();
+  // Logs can retain an epoch record after rec_replay_max_epoch; new epochs
+  // must come after it
+  if (max_epoch < rec_replay_max_epoch)
+      max_epoch = rec_replay_max_epoch;
+  global_log_epoch = max_epoch.next_nonzero();
 
   always_assert(pthread_mutex_unlock(&rec_mu) == 0);
   recovering = false;
-- 
2.43.0


From 37b8b0ae806ce9499ddbf57551009ae9fe732a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:45 +0000
Subject: [PATCH 57/81] fix: binary pivots do not make a committed checkpoint
 unreadable

---
 mtd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index ef11fed..127cae4 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1565,7 +1565,7 @@ prepare_checkpoint(kvepoch_t min_epoch, int nckthreads, const Str *pv)
 
     Json pvj;
     for (int i = 1; i < nckthreads; ++i)
-        pvj.push_back(Json::make_string(pv[i].s, pv[i].len));
+        pvj.push_back(String(pv[i]).to_hex()); // pivots are binary, JSON is text
     j.set("pivots", pvj);
 
     return j;
-- 
2.43.0


From dee6b2fb17a677e000d32c480403be5e264ada4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:51 +0000
Subject: [PATCH 58/81] fix: UDP requests end with their datagram, and a reply
 too large to send is not fatal

---
 mtd.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index 127cae4..68dcdaa 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1212,7 +1212,7 @@ void* udp_threadfunc(void* x) {
     kvout_reset(kvout);
 
     parser.reset();
-    unsigned consumed = parser.consume(buf.data(), buf.length(), buf);
+    unsigned consumed = parser.consume(buf.data(), cc, buf);
 
     // Fail if we received a partial request
     if (parser.success() && parser.result().is_a()) {
@@ -1223,7 +1223,8 @@ void* udp_threadfunc(void* x) {
             cu << parser.result();
             cc = sendto(s, sa.data(), sa.length(), 0,
                         (struct sockaddr*) &sin, sinlen);
-            always_assert(cc == (ssize_t) sa.length());
+            if (cc != (ssize_t) sa.length()) // e.g. reply too large
+                perror("udpgo write");
         }
         ti->rcu_stop();
     } else
-- 
2.43.0


From ad4f932dae09730e01ccf65c75829c8b357d933a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:51 +0000
Subject: [PATCH 59/81] fix: records larger than the log buffer do not stall
 forever

---
 log.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/log.cc b/log.cc
index a16466f..0f925a9 100644
--- a/log.cc
+++ b/log.cc
@@ -246,6 +246,7 @@ void* loginfo::run() {
                   O_WRONLY | O_APPEND | O_CREAT, 0666);
     always_assert(fd >= 0);
     char *x_buf = (char *) malloc(len_);
+    uint32_t x_len = len_;
     always_assert(x_buf);
 
     while (1) {
@@ -270,6 +271,7 @@ void* loginfo::run() {
         if (!recovering && pos_ > 0) {
             uint32_t x_pos = pos_;
             std::swap(buf_, x_buf);
+            std::swap(len_, x_len);
             pos_ = 0;
             kvepoch_t x_epoch = log_epoch_;
             release();
@@ -313,6 +315,14 @@ void loginfo::record(int command, const query_times& qtimes,
     waitlist wait = { &wait };
     int stalls = 0;
     while (1) {
+        // a record larger than the whole buffer needs a larger buffer
+        if (n > len_ && pos_ == 0) {
+            free(buf_);
+            len_ = n;
+            buf_ = (char *) malloc(len_);
+            always_assert(buf_);
+        }
+
         if (len_ - pos_ >= n
             && (wait.next == &wait ? !f_.waiting_ : f_.waiting_ == &wait)) {
             kvepoch_t we = global_wake_epoch;
-- 
2.43.0


From 9cd8e39959952629752304707e67387caf7a1394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:14 +0000
Subject: [PATCH 60/81] fix: replies are built before the rows they refer to
 can be freed

---
 mtd.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mtd.cc b/mtd.cc
index 68dcdaa..942d83f 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1155,9 +1155,10 @@ void* tcp_threadfunc(void* x) {
                     goto closed;
                 ti->rcu_start();
                 ret = onego(q, request, c->recent_string(xposition), *ti);
-                ti->rcu_stop();
+                // the reply refers to row memory
                 msgpack::unparse(*c->kvout, request);
                 request.clear();
+                ti->rcu_stop();
                 if (likely(ret >= 0)) {
                     if (c->check(0))
                         ready.push_back(c);
-- 
2.43.0


From d715706e1ec2ba121ce123411bfae607c7cceef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:14 +0000
Subject: [PATCH 61/81] fix: a client that disconnects early does not kill the
 server

---
 mtd.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mtd.cc b/mtd.cc
index 942d83f..e2a2097 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -703,6 +703,7 @@ main(int argc, char *argv[])
 
   // for -pg profiling
   signal(SIGINT, catchint);
+  signal(SIGPIPE, SIG_IGN);     // clients may disconnect before their replies
 
   // log epoch starts at 1
   global_log_epoch = 1;
-- 
2.43.0


From 401647e7c2ca13611b2e4f61b352e2a657e3a5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:40 +0000
Subject: [PATCH 62/81] fix: a connection paused in the middle of a request
 does not block its thread

---
 mtd.cc | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index e2a2097..658706d 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -469,7 +469,7 @@ struct conn {
     conn(int s)
         : fd(s), inbuf_(new char[inbufsz]),
           inbufpos_(0), inbuflen_(0), kvout(new_kvout(s, 20 * 1024)),
-          inbuftotal_(0) {
+          inbuftotal_(0), reqposition_(0) {
     }
     ~conn() {
         close(fd);
@@ -479,15 +479,28 @@ struct conn {
             delete[] x;
     }
 
-    Json& receive() {
-        while (!parser_.done() && check(2))
+    // Parse what has arrived of the next request. Return false if that is only
+    // a part of it. Otherwise request() is the request, or null when there are
+    // no more requests.
+    bool receive() {
+        bool ok = check(2);
+        if (ok) {
+            if (parser_.empty())
+                reqposition_ = xposition();
             inbufpos_ += parser_.consume(inbuf_ + inbufpos_,
                                          inbuflen_ - inbufpos_,
                                          String::make_stable(inbuf_, inbufsz));
-        if (parser_.success() && parser_.result().is_a())
+            if (!parser_.done())
+                return false;
+            ok = parser_.success() && parser_.result().is_a();
+        }
+        if (ok)
             parser_.reset();
         else
             parser_.result() = Json();
+        return true;
+    }
+    Json& request() {
         return parser_.result();
     }
 
@@ -500,9 +513,9 @@ struct conn {
     uint64_t xposition() const {
         return inbuftotal_ + inbufpos_;
     }
-    Str recent_string(uint64_t xposition) const {
-        if (xposition - inbuftotal_ <= unsigned(inbufpos_))
-            return Str(inbuf_ + (xposition - inbuftotal_),
+    Str request_string() const {
+        if (reqposition_ - inbuftotal_ <= unsigned(inbufpos_))
+            return Str(inbuf_ + (reqposition_ - inbuftotal_),
                        inbuf_ + inbufpos_);
         else
             return Str();
@@ -518,6 +531,7 @@ struct conn {
     struct kvout *kvout;
   private:
     uint64_t inbuftotal_;
+    uint64_t reqposition_;
 
     void hard_check(int tryhard);
 };
@@ -1149,13 +1163,16 @@ void* tcp_threadfunc(void* x) {
                 }
             } else if (c) {
                 // Should not block as suggested by epoll
-                uint64_t xposition = c->xposition();
-                Json& request = c->receive();
+                if (!c->receive()) {
+                    kvflush(c->kvout);
+                    continue;
+                }
+                Json& request = c->request();
                 int ret;
                 if (unlikely(!request))
                     goto closed;
                 ti->rcu_start();
-                ret = onego(q, request, c->recent_string(xposition), *ti);
+                ret = onego(q, request, c->request_string(), *ti);
                 // the reply refers to row memory
                 msgpack::unparse(*c->kvout, request);
                 request.clear();
-- 
2.43.0


From 1ed75ae957572ca84606f393be6cfba0041c85b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:59 +0000
Subject: [PATCH 63/81] fix: a client that delays its handshake does not block
 others, and accept failures are not fatal

---
 mtd.cc | 108 +++++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 71 insertions(+), 37 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index 658706d..23d0ee0 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -26,6 +26,7 @@
 #include <netinet/in.h>
 #include <netinet/tcp.h>
 #include <sys/select.h>
+#include <poll.h>
 #include <sys/mman.h>
 #include <sys/stat.h>
 #include <limits.h>
@@ -570,6 +571,12 @@ struct conninfo {
     Json handshake;
 };
 
+// a connection whose handshake has not arrived yet
+struct newconn {
+    int s;
+    msgpack::streaming_parser sp;
+};
+
 
 /* main loop */
 
@@ -836,49 +843,76 @@ main(int argc, char *argv[])
   always_assert(ret == 0);
 
   static int next = 0;
+  std::vector<newconn*> newconns;
+  std::vector<struct pollfd> pfds;
   while(1){
-    int s1;
-    struct sockaddr_in sin1;
-    socklen_t sinlen = sizeof(sin1);
-
-    bzero(&sin1, sizeof(sin1));
-    s1 = accept(s, (struct sockaddr *) &sin1, &sinlen);
-    always_assert(s1 >= 0);
-    setsockopt(s1, IPPROTO_TCP, TCP_NODELAY, &yes, sizeof(yes));
-
-    // Complete handshake.
-    char buf[BUFSIZ];
-    ssize_t nr = read(s1, buf, BUFSIZ);
-    if (nr == -1) {
-        perror("read");
-    kill_connection:
-        close(s1);
+    pfds.resize(newconns.size() + 1);
+    for (size_t j = 0; j != newconns.size(); ++j)
+        pfds[j].fd = newconns[j]->s;
+    pfds.back().fd = s;
+    for (auto& pfd : pfds) {
+        pfd.events = POLLIN;
+        pfd.revents = 0;
+    }
+    if (poll(pfds.data(), pfds.size(), -1) < 0)
         continue;
-    }
 
-    msgpack::streaming_parser sp;
-    if (nr == 0 || sp.consume(buf, nr) != (size_t) nr
-        || !sp.result().is_a() || sp.result().size() < 2
-        || !sp.result()[1].is_i() || sp.result()[1].as_i() != Cmd_Handshake) {
-        fprintf(stderr, "failed handshake\n");
-        goto kill_connection;
-    }
+    for (size_t j = newconns.size(); j-- != 0; )
+        if (pfds[j].revents) {
+            newconn* nc = newconns[j];
+            msgpack::streaming_parser& sp = nc->sp;
+            char buf[BUFSIZ];
+            ssize_t nr = read(nc->s, buf, BUFSIZ);
+            if (nr > 0) {
+                ssize_t nused = sp.consume(buf, nr);
+                if (nused == nr && !sp.done())
+                    continue;
+                if (nused != nr)
+                    nr = 0;
+            } else if (nr == -1)
+                perror("read");
+
+            newconns.erase(newconns.begin() + j);
+            if (nr <= 0 || !sp.success()
+                || !sp.result().is_a() || sp.result().size() < 2
+                || !sp.result()[1].is_i() || sp.result()[1].as_i() != Cmd_Handshake
+                || (sp.result().size() >= 3 && !sp.result()[2].is_o())) {
+                fprintf(stderr, "failed handshake\n");
+                close(nc->s);
+                delete nc;
+                continue;
+            }
 
-    int target_core = -1;
-    if (sp.result().size() >= 3 && sp.result()[2].is_o()
-        && sp.result()[2]["core"].is_i())
-        target_core = sp.result()[2]["core"].as_i();
-    if (target_core < 0 || target_core >= tcpthreads) {
-        target_core = next % tcpthreads;
-        ++next;
-    }
+            int target_core = -1;
+            if (sp.result().size() >= 3 && sp.result()[2]["core"].is_i())
+                target_core = sp.result()[2]["core"].as_i();
+            if (target_core < 0 || target_core >= tcpthreads) {
+                target_core = next % tcpthreads;
+                ++next;
+            }
 
-    conninfo* ci = new conninfo;
-    ci->s = s1;
-    swap(ci->handshake, sp.result());
+            conninfo* ci = new conninfo;
+            ci->s = nc->s;
+            swap(ci->handshake, sp.result());
+            delete nc;
 
-    ssize_t w = write(tcp_thread_pipes[2*target_core + 1], &ci, sizeof(ci));
-    always_assert((size_t) w == sizeof(ci));
+            ssize_t w = write(tcp_thread_pipes[2*target_core + 1], &ci, sizeof(ci));
+            always_assert((size_t) w == sizeof(ci));
+        }
+
+    if (pfds.back().revents) {
+        int s1 = accept(s, NULL, NULL);
+        if (s1 < 0) {
+            // perhaps out of file descriptors
+            perror("accept");
+            napms(10);
+            continue;
+        }
+        setsockopt(s1, IPPROTO_TCP, TCP_NODELAY, &yes, sizeof(yes));
+        newconn* nc = new newconn;
+        nc->s = s1;
+        newconns.push_back(nc);
+    }
   }
 }
 
-- 
2.43.0


From ce9af28cab33f279df2b6777009cf8863b7f16d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:38 +0000
Subject: [PATCH 64/81] fix: the streaming msgpack parser consumes all its
 input after a split string header

---
 msgpack.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack.cc b/msgpack.cc
index c861c6f..3aa769b 100644
--- a/msgpack.cc
+++ b/msgpack.cc
@@ -49,7 +49,7 @@ const uint8_t* streaming_parser::consume(const uint8_t* first,
             state_ = st_normal;
             consume(str_.ubegin(), str_.uend(), str_);
             if (state_ != st_normal)
-                return next;
+                return consume(next, last, str);
         }
     }
 
-- 
2.43.0


From 82960ac6c064e5d1944d5a1d0bdf59cf3daafc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:17 +0000
Subject: [PATCH 65/81] fix: malformed requests get an error reply instead of
 crashing the server

---
 mtd.cc | 58 ++++++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 52 insertions(+), 6 deletions(-)

diff --git a/mtd.cc b/mtd.cc
index 23d0ee0..9f56a4a 100644
--- a/mtd.cc
+++ b/mtd.cc
@@ -1004,8 +1004,59 @@ int handshake(Json& request, threadinfo& ti) {
     return request[2].as_b() ? 1 : -1;
 }
 
+// Requests come from the network, so their shape must be checked.
+static bool is_column(const Json& j) {
+    return j.is_i() && j.as_i() >= 0
+        && j.as_i() < std::numeric_limits<row_type::index_type>::max();
+}
+
+static bool is_valid_request(const Json& request) {
+    if (!request.is_a() || request.size() < 2 || !request[1].is_i())
+        return false;
+    int64_t command = request[1].as_i();
+    if (command == Cmd_Checkpoint)
+        return true;
+    if (command != Cmd_Get && command != Cmd_Scan && command != Cmd_Put
+        && command != Cmd_Replace && command != Cmd_Remove)
+        return false;
+    if (request.size() < 3 || !request[2].is_s()
+        || request[2].as_s().length() > MASSTREE_MAXKEYLEN)
+        return false;
+    int pos = 3;
+    if (command == Cmd_Scan) {
+        if (request.size() < 4 || !request[3].is_i()
+            || request[3].as_i() <= 0 || request[3].as_i() > INT_MAX)
+            return false;
+        pos = 4;
+    }
+    if (command == Cmd_Get || command == Cmd_Scan)
+        for (; pos < request.size(); ++pos)
+            if (!is_column(request[pos]))
+                return false;
+    if (command == Cmd_Put) {
+        if (request.size() < 5 || request.size() % 2 == 0)
+            return false;
+        for (; pos < request.size(); pos += 2)
+            // columns must be sorted
+            if (!is_column(request[pos]) || !request[pos + 1].is_s()
+                || (pos > 3 && request[pos - 2].as_i() >= request[pos].as_i()))
+                return false;
+    }
+    if (command == Cmd_Replace
+        && (request.size() < 4 || !request[3].is_s()))
+        return false;
+    return true;
+}
+
 // execute command, return result.
 int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
+    if (!is_valid_request(request)) {
+        if (!request.is_a())
+            request = Json::make_array();
+        request[1] = -1;
+        request.resize(2);
+        return -1;
+    }
     int command = request[1].as_i();
     if (command == Cmd_Checkpoint) {
         // force checkpoint
@@ -1015,8 +1066,7 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
         request.resize(2);
     } else if (command == Cmd_Get) {
         q.run_get(tree->table(), request, ti);
-    } else if (command == Cmd_Put && request.size() > 3
-               && (request.size() % 2) == 1) { // insert or update
+    } else if (command == Cmd_Put) { // insert or update
         String key(request[2].as_s());
         const Json* req = request.array_data() + 3;
         const Json* end_req = request.end_array_data();
@@ -1044,10 +1094,6 @@ int onego(query<row_type>& q, Json& request, Str request_str, threadinfo& ti) {
         request.resize(3);
     } else if (command == Cmd_Scan) {
         q.run_scan(tree->table(), request, ti);
-    } else {
-        request[1] = -1;
-        request.resize(2);
-        return -1;
     }
     request[1] = command + 1;
     return 1;
-- 
2.43.0


From 925ae0a251d7da76b8bf28ead72763d14434d7d0 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:35:03 +0000
Subject: [PATCH 66/81] fix: small vectors of different inline capacities can
 be copied

---
 small_vector.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/small_vector.hh b/small_vector.hh
index 556f1f6..39effa0 100644
--- a/small_vector.hh
+++ b/small_vector.hh
@@ -76,6 +76,8 @@ class small_vector {
     typedef std::allocator_traits<A> atraits;
 
     void grow(size_type n = 0);
+
+    template <typename TT, unsigned NN, typename AA> friend class small_vector;
 };
 
 template <typename T, unsigned N, typename A>
-- 
2.43.0


From fe4c2df95a4d48cd05837dde5b86dacec7d55856 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 03:35:03 +0000
Subject: [PATCH 67/81] fix: a small vector's own elements can be appended to
 it

---
 small_vector.hh | 43 +++++++++++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/small_vector.hh b/small_vector.hh
index 39effa0..1fa3c2e 100644
--- a/small_vector.hh
+++ b/small_vector.hh
@@ -75,7 +75,9 @@ class small_vector {
     rep r_;
     typedef std::allocator_traits<A> atraits;
 
-    void grow(size_type n = 0);
+    void grow(size_type n);
+    template <typename... Args> void grow_emplace_back(Args&&... args);
+    void move_elements(T* m, size_type newcap);
 
     template <typename TT, unsigned NN, typename AA> friend class small_vector;
 };
@@ -144,7 +146,22 @@ void small_vector<T, N, A>::grow(size_type n) {
     size_t newcap = capacity() * 2;
     while (newcap < n)
         newcap *= 2;
+    move_elements(atraits::allocate(r_, newcap), newcap);
+}
+
+template <typename T, unsigned N, typename A> template <typename... Args>
+void small_vector<T, N, A>::grow_emplace_back(Args&&... args) {
+    size_t newcap = capacity() * 2;
     T* m = atraits::allocate(r_, newcap);
+    // `args` might refer to an existing element, so construct the new element
+    // before moving the others
+    atraits::construct(r_, m + size(), std::forward<Args>(args)...);
+    move_elements(m, newcap);
+    ++r_.last_;
+}
+
+template <typename T, unsigned N, typename A>
+void small_vector<T, N, A>::move_elements(T* m, size_type newcap) {
     for (T* it = r_.first_, *mit = m; it != r_.last_; ++it, ++mit) {
         atraits::construct(r_, mit, std::move(*it));
         atraits::destroy(r_, it);
@@ -249,25 +266,31 @@ inline const T& small_vector<T, N, A>::back() const {
 template <typename T, unsigned N, typename A>
 inline void small_vector<T, N, A>::push_back(const T& x) {
     if (r_.last_ == r_.capacity_)
-        grow();
-    atraits::construct(r_, r_.last_, x);
-    ++r_.last_;
+        grow_emplace_back(x);
+    else {
+        atraits::construct(r_, r_.last_, x);
+        ++r_.last_;
+    }
 }
 
 template <typename T, unsigned N, typename A>
 inline void small_vector<T, N, A>::push_back(T&& x) {
     if (r_.last_ == r_.capacity_)
-        grow();
-    atraits::construct(r_, r_.last_, std::move(x));
-    ++r_.last_;
+        grow_emplace_back(std::move(x));
+    else {
+        atraits::construct(r_, r_.last_, std::move(x));
+        ++r_.last_;
+    }
 }
 
 template <typename T, unsigned N, typename A> template <typename... Args>
 inline void small_vector<T, N, A>::emplace_back(Args&&... args) {
     if (r_.last_ == r_.capacity_)
-        grow();
-    atraits::construct(r_, r_.last_, std::forward<Args>(args)...);
-    ++r_.last_;
+        grow_emplace_back(std::forward<Args>(args)...);
+    else {
+        atraits::construct(r_, r_.last_, std::forward<Args>(args)...);
+        ++r_.last_;
+    }
 }
 
 template <typename T, unsigned N, typename A>
-- 
2.43.0


From 74a27f9c9663fb463e25e01f8d1852304c2f8d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:43 +0000
Subject: [PATCH 68/81] fix: string_slice::equals_sloppy ignores bytes past the
 end for slices narrower than int

---
 string_slice.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/string_slice.hh b/string_slice.hh
index 697932f..0248c63 100644
--- a/string_slice.hh
+++ b/string_slice.hh
@@ -157,10 +157,11 @@ template <typename T> struct string_slice {
                 return true;
             }
 # if WORDS_BIGENDIAN
-            return (delta >> (8 * (size - len))) == 0;
+            delta >>= 8 * (size - len);
 # else
-            return (delta << (8 * (size - len))) == 0;
+            delta <<= 8 * (size - len);
 # endif
+            return delta == 0;
         }
 #endif
         return memcmp(a, b, len) == 0;
-- 
2.43.0


From d9ca5a500041bd83afd27fb768215011240fa2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:14 +0000
Subject: [PATCH 69/81] fix: a suffix bag of maximum capacity can be filled
 completely

---
 stringbag.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/stringbag.hh b/stringbag.hh
index 630fb3f..b7e0ef8 100644
--- a/stringbag.hh
+++ b/stringbag.hh
@@ -92,7 +92,7 @@ class stringbag {
     stringbag(int width, size_t capacity) {
         size_t firstpos = overhead(width);
         assert(capacity >= firstpos && capacity <= max_size());
-        size_ = firstpos;
+        size_ = firstpos - 1;
         capacity_ = capacity - 1;
         for (int i = 0; i != width; ++i) {
             info_[i] = info_type();
@@ -105,7 +105,7 @@ class stringbag {
     }
     /** @brief Return the number of bytes used so far (including overhead). */
     size_t used_capacity() const {
-        return size_;
+        return size_ + 1;
     }
 
     /** @brief Return the string at position @a p.
@@ -132,9 +132,9 @@ class stringbag {
         unsigned pos, mylen = info_[p].len;
         if (mylen >= (unsigned) len)
             pos = info_[p].pos;
-        else if (size_ + (unsigned) std::max(len, slice_type::size)
+        else if (used_capacity() + (unsigned) std::max(len, slice_type::size)
                    <= capacity()) {
-            pos = size_;
+            pos = used_capacity();
             size_ += len;
         } else
             return false;
@@ -150,7 +150,7 @@ class stringbag {
     /** @brief Print a representation of the stringbag to @a f. */
     void print(int width, FILE *f, const char *prefix, int indent) {
         fprintf(f, "%s%*s%p (%d:)%d:%d...\n", prefix, indent, "",
-                this, (int) overhead(width), size_, capacity());
+                this, (int) overhead(width), (int) used_capacity(), (int) capacity());
         for (int i = 0; i < width; ++i)
             if (info_[i].len)
                 fprintf(f, "%s%*s  #%x %u:%u %.*s\n", prefix, indent, "",
-- 
2.43.0


From c2ca916a72f461e7ab28adbd5afba549f5537196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:21 +0000
Subject: [PATCH 70/81] fix: an interrupted read does not end the client's
 connection

---
 mtclient.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mtclient.cc b/mtclient.cc
index c75a51e..597e540 100644
--- a/mtclient.cc
+++ b/mtclient.cc
@@ -782,7 +782,10 @@ void KVConn::hard_check(int tryhard) {
     } else
         kvflush(out_);
 
-    ssize_t r = read(infd_, inbuf_ + inbufpos_, inbufsz - inbufpos_);
+    ssize_t r;
+    do {
+        r = read(infd_, inbuf_ + inbufpos_, inbufsz - inbufpos_);
+    } while (r == -1 && errno == EINTR);
     if (r != -1)
         inbuflen_ += r;
 }
-- 
2.43.0


From 9e8f6d20c672a02ebbf04876b0e985cbc285833b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:21 +0000
Subject: [PATCH 71/81] fix: the client sends column lists in the form the
 server accepts

---
 mtclient.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mtclient.hh b/mtclient.hh
index 3413166..d755cf0 100644
--- a/mtclient.hh
+++ b/mtclient.hh
@@ -89,11 +89,12 @@ class KVConn {
         send();
     }
     void sendget(Str key, const std::vector<unsigned>& f, unsigned seq) {
-        j_.resize(4);
+        j_.resize(3);
         j_[0] = seq;
         j_[1] = Cmd_Get;
         j_[2] = String::make_stable(key);
-        j_[3] = Json(f.begin(), f.end());
+        for (auto col : f)
+            j_.push_back(col);
         send();
     }
 
@@ -132,12 +133,13 @@ class KVConn {
     }
     void sendscan(Str firstkey, const std::vector<unsigned>& f,
                   int numpairs, unsigned seq) {
-        j_.resize(5);
+        j_.resize(4);
         j_[0] = seq;
         j_[1] = Cmd_Scan;
         j_[2] = String::make_stable(firstkey);
         j_[3] = numpairs;
-        j_[4] = Json(f.begin(), f.end());
+        for (auto col : f)
+            j_.push_back(col);
         send();
     }
 
-- 
2.43.0


From 6fc7892020e2e7c3b5bab642711ba305364f96ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:21 +0000
Subject: [PATCH 72/81] fix: kvflush retries interrupted writes and never
 repeats output after a failed one

---
 kvio.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kvio.cc b/kvio.cc
index 9208df2..58706c1 100644
--- a/kvio.cc
+++ b/kvio.cc
@@ -80,8 +80,12 @@ void kvflush(kvout* kv) {
             if (errno == EWOULDBLOCK) {
                 usleep(1);
                 continue;
-            }
+            } else if (errno == EINTR)
+                continue;
             perror("kvflush write");
+            // keep what has not been written
+            memmove(kv->buf, kv->buf + sent, kv->n - sent);
+            kv->n -= sent;
             return;
         }
         sent += cc;
-- 
2.43.0


From e620b17d77da334d3c731036ce355cff19ae07ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:08 +0000
Subject: [PATCH 73/81] fix: command-line option values can be false when
 written 0

---
 clp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clp.c b/clp.c
index cb9e5d8..f10ea3b 100644
--- a/clp.c
+++ b/clp.c
@@ -1178,7 +1178,7 @@ parse_bool(Clp_Parser *clp, const char *arg, int complain, void *user_data)
 	return 1;
     } else if (argcmp("no", lcarg, 1, 0) > 0
 	       || argcmp("false", lcarg, 1, 0) > 0
-	       || argcmp("1", lcarg, 1, 0) > 0) {
+	       || argcmp("0", lcarg, 1, 0) > 0) {
 	clp->val.i = 0;
 	return 1;
     }
-- 
2.43.0


From def806a3a63815df5ca564efc35cc11d97832736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:08 +0000
Subject: [PATCH 74/81] fix: clp error messages leave room for their
 terminating null byte

---
 clp.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/clp.c b/clp.c
index f10ea3b..6b168a8 100644
--- a/clp.c
+++ b/clp.c
@@ -2029,7 +2029,7 @@ static void build_string_program_prefix(Clp_BuildString* bs,
 
 static void build_string_init(Clp_BuildString* bs, Clp_Parser* clp) {
     bs->data = bs->pos = bs->buf;
-    bs->end_data = &bs->buf[sizeof(bs->buf)];
+    bs->end_data = &bs->buf[sizeof(bs->buf) - 1]; /* room for null */
     if (clp)
         build_string_program_prefix(bs, clp);
 }
@@ -2043,7 +2043,7 @@ static int build_string_grow(Clp_BuildString* bs, size_t want) {
     size_t ipos = bs->pos - bs->data, ncap;
     if (!bs->pos)
         return 0;
-    for (ncap = (bs->end_data - bs->data) << 1; ncap < want; ncap *= 2)
+    for (ncap = (bs->end_data - bs->data + 1) << 1; ncap <= want; ncap *= 2)
         /* nada */;
     if (bs->data == bs->buf) {
         if ((bs->data = (char*) malloc(ncap)))
@@ -2055,7 +2055,7 @@ static int build_string_grow(Clp_BuildString* bs, size_t want) {
         return 0;
     } else {
         bs->pos = bs->data + ipos;
-        bs->end_data = bs->data + ncap;
+        bs->end_data = bs->data + ncap - 1;
         return 1;
     }
 }
-- 
2.43.0


From 2f97d4834a63221e8e6afc8825581e70fdf59c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:08 +0000
Subject: [PATCH 75/81] fix: Clp_vsnprintf and Clp_CurOptionNameBuf accept
 buffers of size zero

---
 clp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clp.c b/clp.c
index 6b168a8..4d2e571 100644
--- a/clp.c
+++ b/clp.c
@@ -2363,7 +2363,7 @@ Clp_vsnprintf(Clp_Parser* clp, char* str, size_t size,
     if ((size_t) (bs.pos - bs.data) < size) {
         memcpy(str, bs.data, bs.pos - bs.data);
         str[bs.pos - bs.data] = 0;
-    } else {
+    } else if (size > 0) {
         memcpy(str, bs.data, size - 1);
         str[size - 1] = 0;
     }
@@ -2423,6 +2423,8 @@ copy_string(char *buf, int buflen, int bufpos, const char *what)
     int l = strlen(what);
     if (l > buflen - bufpos - 1)
 	l = buflen - bufpos - 1;
+    if (l < 0)
+	l = 0;
     memcpy(buf + bufpos, what, l);
     return l;
 }
-- 
2.43.0


From bc557eb2a14664e762dfa093b4442b394ab74bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:09 +0000
Subject: [PATCH 76/81] fix: Clp_IsLong works for options without a long name

---
 clp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clp.c b/clp.c
index 4d2e571..279ed84 100644
--- a/clp.c
+++ b/clp.c
@@ -2492,7 +2492,8 @@ Clp_IsLong(Clp_Parser *clp, const char *long_name)
 {
     Clp_Internal *cli = clp->internal;
     int optno = cli->current_option;
-    return optno >= 0 && strcmp(cli->opt[optno].long_name, long_name) == 0;
+    return optno >= 0 && cli->opt[optno].long_name
+	&& strcmp(cli->opt[optno].long_name, long_name) == 0;
 }
 
 int
-- 
2.43.0


From 555e9162aefd960f57a93c14c3b6dd564e16a3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:09 +0000
Subject: [PATCH 77/81] fix: complaints about string lists that accept numbers
 stay within the list

---
 clp.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clp.c b/clp.c
index 279ed84..b7f8e50 100644
--- a/clp.c
+++ b/clp.c
@@ -1238,7 +1238,7 @@ finish_string_list(Clp_Parser *clp, int val_type, int flags,
 {
     int i;
     Clp_StringList *clsl = (Clp_StringList *)malloc(sizeof(Clp_StringList));
-    Clp_InternOption *iopt = (Clp_InternOption *)malloc(sizeof(Clp_InternOption) * nitems);
+    Clp_InternOption *iopt = (Clp_InternOption *)malloc(sizeof(Clp_InternOption) * (nitems + 1));
     if (!clsl || !iopt)
 	goto error;
 
@@ -1250,6 +1250,7 @@ finish_string_list(Clp_Parser *clp, int val_type, int flags,
 
     if (nitems < MAX_AMBIGUOUS_VALUES && nitems < itemscap && clsl->allow_int) {
 	items[nitems].long_name = "any integer";
+	iopt[nitems].ilongoff = 0;
 	clsl->nitems_invalid_report = nitems + 1;
     } else if (nitems > MAX_AMBIGUOUS_VALUES + 1)
 	clsl->nitems_invalid_report = MAX_AMBIGUOUS_VALUES + 1;
-- 
2.43.0


From e85a47222c7b076331ebb2e9a4803fc25a12471f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:09 +0000
Subject: [PATCH 78/81] fix: options are not negated by a long name that was
 not found

---
 clp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clp.c b/clp.c
index b7f8e50..5ff30d3 100644
--- a/clp.c
+++ b/clp.c
@@ -1883,6 +1883,7 @@ Clp_Next(Clp_Parser *clp)
        find a long option, look for a short option */
     if (optno < 0 && cli->could_be_short) {
 	switch_to_short_argument(clp);
+	clp->negated = cli->whole_negated;
 	optno = find_short(clp, cli->xtext);
     }
 
-- 
2.43.0


From f3bd7faca28820fd51e90723038d56f2cd98ee7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:09 +0000
Subject: [PATCH 79/81] fix: an optional value that does not parse is not left
 in clp->vstr

---
 clp.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/clp.c b/clp.c
index 5ff30d3..f9f2ed9 100644
--- a/clp.c
+++ b/clp.c
@@ -1980,6 +1980,7 @@ Clp_Next(Clp_Parser *clp)
 	if (atr->func(clp, clp->vstr, complain, atr->user_data) <= 0) {
 	    /* parser failed */
 	    clp->have_val = 0;
+	    clp->vstr = 0;
 	    if (complain) {
 		clp->option = &clp_option_sentinel[-Clp_BadOption];
 		return Clp_BadOption;
-- 
2.43.0


From 6106a895777036c2e11ffee24614a64639938515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:09 +0000
Subject: [PATCH 80/81] fix: empty command-line arguments are not read past
 their end

---
 clp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/clp.c b/clp.c
index f9f2ed9..4434cd4 100644
--- a/clp.c
+++ b/clp.c
@@ -1574,6 +1574,8 @@ get_oclass(Clp_Parser *clp, const char *text, int *ocharskip)
 	c = (unsigned char) text[0];
 	*ocharskip = 1;
     }
+    if (c == 0)
+	*ocharskip = 0;
     return Clp_OptionChar(clp, c);
 }
 
-- 
2.43.0


From 965a6611b2649d13b57eca16d12c9a6dca3c5d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:52 +0000
Subject: [PATCH 81/81] fix: numeric option values with trailing garbage are
 rejected

---
 misc.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/misc.cc b/misc.cc
index b8a4722..2726ea4 100644
--- a/misc.cc
+++ b/misc.cc
@@ -33,8 +33,7 @@ int clp_parse_suffixdouble(Clp_Parser *clp, const char *vstr,
 	clp->val.d *= 1000000000, ++post;
     if (*vstr != 0 && *post == 0)
 	return 1;
-    else if (complain)
-	return Clp_OptionError(clp, "%<%O%> expects a real number, not %<%s%>", vstr);
-    else
-	return 0;
+    if (complain)
+	Clp_OptionError(clp, "%<%O%> expects a real number, not %<%s%>", vstr);
+    return 0;
 }
-- 
2.43.0

