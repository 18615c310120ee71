From 2fdc761ff6a9a43c91b795f6befb496654b57298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 01/53] fix: make swap() of two flat_segment_tree instances
 callable

The exception specification of the free function referred to itself.
---
 include/mdds/flat_segment_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index 88c8910..d4635d8 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -799,7 +799,7 @@ private:
 
 template<typename Key, typename Value>
 void swap(flat_segment_tree<Key, Value>& left, flat_segment_tree<Key, Value>& right) noexcept(
-    std::is_nothrow_swappable_v<flat_segment_tree<Key, Value>>)
+    noexcept(left.swap(right)))
 {
     left.swap(right);
 }
-- 
2.43.0


From f14ca49815257db2ac96f019d89abf67602f7d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:51 +0000
Subject: [PATCH 02/53] fix: fall back to normal search when the position
 passed to flat_segment_tree::search(pos, key) is not usable

---
 include/mdds/flat_segment_tree_def.inl | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 9c63927..ca48232 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -599,7 +599,13 @@ template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_iterator flat_segment_tree<Key, Value>::search(
     const_iterator pos, key_type key) const
 {
-    return search_by_key_impl(pos.get_pos(), key);
+    const node* p = pos.get_pos();
+    if (!p || this != pos.get_parent() || key < p->key)
+        // Invalid position, or a position already past the key.  Fall back to
+        // a search from the first position.
+        return search(key);
+
+    return search_by_key_impl(p, key);
 }
 
 template<typename Key, typename Value>
-- 
2.43.0


From ef4bbf0eeeca63c38c378651cc4fae6af72fe9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 03/53] fix: ignore a segment that ends at the minimum key of
 flat_segment_tree

Its end key is exclusive, so it does not overlap the range of the tree;
inserting it crashed.
---
 include/mdds/flat_segment_tree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index ca48232..7603be2 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -847,7 +847,7 @@ bool flat_segment_tree<Key, Value>::adjust_segment_range(key_type& start_key, ke
         // Invalid order of segment range.
         return false;
 
-    if (end_key < m_left_leaf->key || m_right_leaf->key <= start_key)
+    if (end_key <= m_left_leaf->key || m_right_leaf->key <= start_key)
         // The new segment does not overlap the current interval.
         return false;
 
-- 
2.43.0


From e521a3b4a27f55faef8213344739166e5eb674e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 04/53] fix: merge the last segment of flat_segment_tree with
 an equal neighbour after shift_left

When the last segment begins exactly where the initial value gets
appended, it kept its own leaf although its predecessor has the same value.
---
 include/mdds/flat_segment_tree.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index d4635d8..3b74136 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -688,6 +688,16 @@ private:
         if (m_right_leaf->prev->key == start_key)
         {
             m_right_leaf->prev->value_leaf.value = m_init_val;
+
+            node_ptr last_node = m_right_leaf->prev;
+            if (last_node->prev && last_node->prev->value_leaf.value == m_init_val)
+            {
+                // The previous segment has the same value.  Combine them by
+                // removing the redundant node.
+                st::detail::link_nodes<node_ptr>(last_node->prev, m_right_leaf);
+                disconnect_all_nodes(last_node.get());
+                m_valid_tree = false;
+            }
             return;
         }
 
-- 
2.43.0


From 99412237865353ecdc8e6929937db8add2a73e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:26 +0000
Subject: [PATCH 05/53] fix: do not dereference a null tree in to_segment() of
 a default flat_segment_tree iterator

---
 include/mdds/flat_segment_tree_def.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 7603be2..6031ce4 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -10,7 +10,10 @@ typename flat_segment_tree<Key, Value>::const_segment_iterator flat_segment_tree
 {
     const node* pos = get_pos();
     const auto* parent = get_parent();
-    if (!parent || is_end_pos() || !pos || !pos->next)
+    if (!parent)
+        return const_segment_iterator();
+
+    if (is_end_pos() || !pos || !pos->next)
         return parent->end_segment();
 
     return const_segment_iterator(pos, pos->next.get());
-- 
2.43.0


From 6e95007aa50788f4e2b42c0a9076fdabe7ede894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:48 +0000
Subject: [PATCH 06/53] fix: match each stored segment only once when comparing
 segment_tree instances

---
 include/mdds/segment_tree_def.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index f3f24da..4b70f83 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -294,23 +294,23 @@ bool segment_tree<KeyT, ValueT>::operator==(const segment_tree& r) const
         rhs.insert(&seg);
     }
 
-    std::size_t n_lhs = 0;
-
     for (const segment_type& seg : m_segment_store)
     {
         if (seg == segment_type{})
             continue;
 
-        ++n_lhs;
         const auto* src = &seg;
 
         auto it = std::find_if(rhs.begin(), rhs.end(), [src](const segment_type* p) { return *src == *p; });
 
         if (it == rhs.end())
             return false;
+
+        // Each stored segment can be matched only once.
+        rhs.erase(it);
     }
 
-    return n_lhs == rhs.size();
+    return rhs.empty();
 }
 
 template<typename KeyT, typename ValueT>
-- 
2.43.0


From bb7d59bc1476c0492a1755a6940ddd3a02bad596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:44 +0000
Subject: [PATCH 07/53] fix: reset a moved-from segment_tree to a valid empty
 state

---
 include/mdds/segment_tree.hpp     | 2 +-
 include/mdds/segment_tree_def.inl | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/mdds/segment_tree.hpp b/include/mdds/segment_tree.hpp
index d768d6f..b0f6dd9 100644
--- a/include/mdds/segment_tree.hpp
+++ b/include/mdds/segment_tree.hpp
@@ -334,7 +334,7 @@ public:
 
     segment_tree() noexcept(nothrow_default_constructible_v);
     segment_tree(const segment_tree& r);
-    segment_tree(segment_tree&& r) = default;
+    segment_tree(segment_tree&& r) noexcept(nothrow_move_constructible_v);
     ~segment_tree();
 
     segment_tree& operator=(const segment_tree& r);
diff --git a/include/mdds/segment_tree_def.inl b/include/mdds/segment_tree_def.inl
index 4b70f83..85780af 100644
--- a/include/mdds/segment_tree_def.inl
+++ b/include/mdds/segment_tree_def.inl
@@ -6,6 +6,7 @@
 #include <limits>
 #include <iterator>
 #include <unordered_set>
+#include <utility>
 
 namespace mdds {
 
@@ -256,6 +257,14 @@ segment_tree<KeyT, ValueT>::segment_tree(const segment_tree& r)
         build_tree();
 }
 
+template<typename KeyT, typename ValueT>
+segment_tree<KeyT, ValueT>::segment_tree(segment_tree&& r) noexcept(nothrow_move_constructible_v)
+    : m_nonleaf_node_pool(std::move(r.m_nonleaf_node_pool)), m_segment_store(std::move(r.m_segment_store)),
+      m_tagged_nodes_map(std::move(r.m_tagged_nodes_map)), m_root_node(std::exchange(r.m_root_node, nullptr)),
+      m_left_leaf(std::move(r.m_left_leaf)), m_right_leaf(std::move(r.m_right_leaf)),
+      m_valid_tree(std::exchange(r.m_valid_tree, false))
+{}
+
 template<typename KeyT, typename ValueT>
 segment_tree<KeyT, ValueT>::~segment_tree()
 {
-- 
2.43.0


From 53faadd76f432e43a7e2bdb9b5bd12e15c1d1ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 08/53] fix: let a point_quad_tree search result iterator step
 back from the end position

---
 include/mdds/point_quad_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index 83e8443..f4803dd 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -316,6 +316,7 @@ public:
 
                 m_cur_pos = mp_res_nodes->end();
                 --m_cur_pos; // Keep the position at the last data position.
+                update_current_value();
             }
 
             void update_current_value()
-- 
2.43.0


From a72c6c3b93972666439a2efaaf2725705c3812e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 09/53] fix: keep the contents of point_quad_tree on
 self-assignment

---
 include/mdds/point_quad_tree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index f4803dd..cbcac70 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -910,6 +910,9 @@ typename point_quad_tree<Key, Value>::node_access point_quad_tree<Key, Value>::g
 template<typename Key, typename Value>
 point_quad_tree<Key, Value>& point_quad_tree<Key, Value>::operator=(const point_quad_tree& r)
 {
+    if (this == &r)
+        return *this;
+
     m_xrange = key_range_type(0, 0);
     m_yrange = key_range_type(0, 0);
     clear_all_nodes();
-- 
2.43.0


From 0207d537f629239d4664c23f9d9cae05b589c5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:51 +0000
Subject: [PATCH 10/53] fix: keep all other points when removing a non-leaf
 node of point_quad_tree

---
 include/mdds/point_quad_tree.hpp | 120 +++++--------------------------
 1 file changed, 18 insertions(+), 102 deletions(-)

diff --git a/include/mdds/point_quad_tree.hpp b/include/mdds/point_quad_tree.hpp
index cbcac70..db8ce3a 100644
--- a/include/mdds/point_quad_tree.hpp
+++ b/include/mdds/point_quad_tree.hpp
@@ -761,116 +761,32 @@ void point_quad_tree<Key, Value>::remove(key_type x, key_type y)
         return;
     }
 
-    node_ptr repl_node = find_replacement_node(x, y, delete_node);
-    if (!repl_node)
-        // Non-leaf node should have at least one replacement candidate.
-        throw general_error("failed to find a replacement candidate node.");
-
-    node_quadrant_t repl_quad = delete_node->get_quadrant(repl_node->x, repl_node->y);
-
-    key_range_type xrange(delete_node->x, repl_node->x);
-    key_range_type yrange(delete_node->y, repl_node->y);
-    ensure_order(xrange);
-    ensure_order(yrange);
+    // Cut the node and its sub-trees off the tree, then re-insert all nodes in
+    // the sub-trees.
     reinsert_tree_array_type insert_list;
-
-    // Call the quadrant where the replacement node is quadrant I.  Adjust the
-    // quadrants adjacent to quadrant I first, then adjust quadrant I
-    // afterwards.
-    switch (repl_quad)
-    {
-        case quad_northeast:
-            adjust_quad(xrange, yrange, delete_node->northwest, dir_south, insert_list);
-            adjust_quad(xrange, yrange, delete_node->southeast, dir_west, insert_list);
-            set_new_root(xrange, yrange, delete_node->northeast, quad_southwest, insert_list);
-            break;
-        case quad_northwest:
-            adjust_quad(xrange, yrange, delete_node->northeast, dir_south, insert_list);
-            adjust_quad(xrange, yrange, delete_node->southwest, dir_east, insert_list);
-            set_new_root(xrange, yrange, delete_node->northwest, quad_southeast, insert_list);
-            break;
-        case quad_southeast:
-            adjust_quad(xrange, yrange, delete_node->northeast, dir_west, insert_list);
-            adjust_quad(xrange, yrange, delete_node->southwest, dir_north, insert_list);
-            set_new_root(xrange, yrange, delete_node->southeast, quad_northwest, insert_list);
-            break;
-        case quad_southwest:
-            adjust_quad(xrange, yrange, delete_node->northwest, dir_east, insert_list);
-            adjust_quad(xrange, yrange, delete_node->southeast, dir_north, insert_list);
-            set_new_root(xrange, yrange, delete_node->southwest, quad_northeast, insert_list);
-            break;
-        default:
-            throw general_error("quadrant for the replacement node is unspecified.");
-    }
-
-    // Reinsert all child nodes from the replacement node into the node to be
-    // "deleted".
-    switch (repl_quad)
+    for (node_ptr* child :
+         {&delete_node->northeast, &delete_node->northwest, &delete_node->southeast, &delete_node->southwest})
     {
-        case quad_northeast:
-        case quad_southwest:
-        {
-            node_ptr root = repl_node->northwest;
-            repl_node->northwest.reset();
-            reinsert_tree(delete_node, quad_northwest, root);
+        if (!*child)
+            continue;
 
-            root = repl_node->southeast;
-            repl_node->southeast.reset();
-            reinsert_tree(delete_node, quad_southeast, root);
-        }
-        break;
-        case quad_northwest:
-        case quad_southeast:
-        {
-            node_ptr root = repl_node->northeast;
-            repl_node->northeast.reset();
-            reinsert_tree(delete_node, quad_northeast, root);
-
-            root = repl_node->southwest;
-            repl_node->southwest.reset();
-            reinsert_tree(delete_node, quad_southwest, root);
-        }
-        break;
-        default:
-            throw general_error("quadrant for the replacement node is unspecified.");
+        (*child)->parent.reset();
+        insert_list.push_back(*child);
+        child->reset();
     }
 
-    // Finally, replace the node to be removed with the replacement node.
-    delete_node->x = repl_node->x;
-    delete_node->y = repl_node->y;
-    delete_node->data = repl_node->data;
-
-    // Reset the parent node.
-    delete_node->parent = repl_node->parent;
-    repl_node->parent.reset();
+    if (delete_node.get() == m_root.get())
+        m_root.reset();
+    else
+        disconnect_node_from_parent(delete_node);
 
-    switch (repl_quad)
+    for (node_ptr& sub_tree : insert_list)
     {
-        case quad_northeast:
-            delete_node->northeast = repl_node->northeast;
-            repl_node->northeast.reset();
-            break;
-        case quad_northwest:
-            delete_node->northwest = repl_node->northwest;
-            repl_node->northwest.reset();
-            break;
-        case quad_southeast:
-            delete_node->southeast = repl_node->southeast;
-            repl_node->southeast.reset();
-            break;
-        case quad_southwest:
-            delete_node->southwest = repl_node->southwest;
-            repl_node->southwest.reset();
-            break;
-        default:
-            throw general_error("quadrant for the replacement node is unspecified.");
+        if (m_root)
+            reinsert_tree(m_root, sub_tree);
+        else
+            m_root = sub_tree;
     }
-
-    // Lastly, re-insert all those trees that have been cut during the quad
-    // adjustment into the new root.
-    typename reinsert_tree_array_type::iterator itr = insert_list.begin(), itr_end = insert_list.end();
-    for (; itr != itr_end; ++itr)
-        reinsert_tree(delete_node, *itr);
 }
 
 template<typename Key, typename Value>
-- 
2.43.0


From 08403d22e76e2c9bef704673f1fbb0cc5029bbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 11/53] fix: initialize all coordinates of an rtree point
 constructed from fewer values than its dimensions

---
 include/mdds/rtree_def.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index b642e63..d78c93c 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -382,7 +382,6 @@ rtree<KeyT, ValueT, Traits>::point_type::point_type()
 template<typename KeyT, typename ValueT, typename Traits>
 rtree<KeyT, ValueT, Traits>::point_type::point_type(std::initializer_list<key_type> vs)
 {
-    // Initialize the point values with the key type's default value.
     key_type* dst = d;
     key_type* dst_end = dst + traits_type::dimensions;
 
@@ -394,6 +393,10 @@ rtree<KeyT, ValueT, Traits>::point_type::point_type(std::initializer_list<key_ty
         *dst = v;
         ++dst;
     }
+
+    // Fill the rest with the key type's default value.
+    for (; dst != dst_end; ++dst)
+        *dst = key_type{};
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
-- 
2.43.0


From f6854077a8e82421825897318fb99a4e7da2659f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 12/53] fix: update the parent pointers of all children when
 splitting the root node of rtree

---
 include/mdds/rtree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index d78c93c..b1197dc 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -2244,7 +2244,7 @@ void rtree<KeyT, ValueT, Traits>::split_node(node_store* ns)
         m_root.pack();
 
         for (node_store& ns_child : dir_root->children)
-            ns_child.reset_parent_pointers_of_children();
+            ns_child.reset_parent_pointers();
     }
     else
     {
-- 
2.43.0


From c9e2e8914f3d22f686513e0f7d3fcc8f3f8c63a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 13/53] fix: update parent pointers and extents when dissolving
 underfilled rtree nodes

---
 include/mdds/rtree_def.inl | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index b1197dc..584121f 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1613,7 +1613,8 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
     assert(erased);
 
     dir_ns->reset_parent_pointers();
-    dir_ns->pack();
+    if (dir_ns->pack())
+        dir_ns->pack_upward();
 
     orphan_node_entries_type orphan_dir_nodes;
 
@@ -1637,8 +1638,9 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         --depth;
         erased = dir_ns->erase_child(dir_ns_child);
         assert(erased);
-        dir_ns->reset_parent_pointers_of_children();
-        dir_ns->pack();
+        dir_ns->reset_parent_pointers();
+        if (dir_ns->pack())
+            dir_ns->pack_upward();
     }
 
     while (!orphan_dir_nodes.empty())
-- 
2.43.0


From 13977a255a7731285567f0236610a4b857341638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:32 +0000
Subject: [PATCH 14/53] fix: split a non-leaf rtree directory that becomes
 overfilled by re-inserted directories

---
 include/mdds/rtree_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index 584121f..e1f8702 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -686,7 +686,7 @@ bool rtree<KeyT, ValueT, Traits>::node_store::is_root() const
 template<typename KeyT, typename ValueT, typename Traits>
 bool rtree<KeyT, ValueT, Traits>::node_store::exceeds_capacity() const
 {
-    if (type != node_type::directory_leaf)
+    if (!is_directory())
         return false;
 
     return count > traits_type::max_node_size;
-- 
2.43.0


From 5a1516002a4f003381384b31369b41748adc9584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 15/53] fix: keep rtree balanced when re-inserting directories
 after erasing a value

---
 include/mdds/rtree.hpp     |  8 ++++----
 include/mdds/rtree_def.inl | 35 ++++++++++++++++++++++-------------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/include/mdds/rtree.hpp b/include/mdds/rtree.hpp
index 6781425..fddf156 100644
--- a/include/mdds/rtree.hpp
+++ b/include/mdds/rtree.hpp
@@ -370,7 +370,7 @@ private:
     struct orphan_node_entry
     {
         node_store ns;
-        size_t depth;
+        size_t height;
     };
 
     using orphan_node_entries_type = std::deque<orphan_node_entry>;
@@ -737,7 +737,7 @@ private:
     void insert_impl(const point_type& start, const point_type& end, value_type&& value);
     void insert_impl(const point_type& start, const point_type& end, const value_type& value);
 
-    void erase_impl(const node_store* ns, size_t depth);
+    void erase_impl(const node_store* ns);
 
     /**
      * Build and return a callable function object that you can call in order
@@ -751,7 +751,7 @@ private:
     std::string export_tree_extent_as_svg() const;
 
     void insert(node_store&& ns, std::unordered_set<size_t>* reinserted_depths);
-    void insert_dir(node_store&& ns, size_t max_depth);
+    void insert_dir(node_store&& ns, size_t height);
 
     /**
      * Split an overfilled node.  The node to split is expected to have
@@ -777,7 +777,7 @@ private:
     size_t pick_optimal_distribution(dir_store_type& children) const;
 
     insertion_point find_leaf_directory_node_for_insertion(const extent_type& bb);
-    node_store* find_nonleaf_directory_node_for_insertion(const extent_type& bb, size_t max_depth);
+    node_store* find_nonleaf_directory_node_for_insertion(const extent_type& bb, size_t height);
 
     template<typename FuncT>
     void descend_with_func(FuncT func) const;
diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index e1f8702..ba118e2 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1389,11 +1389,11 @@ void rtree<KeyT, ValueT, Traits>::insert(node_store&& ns, std::unordered_set<siz
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
-void rtree<KeyT, ValueT, Traits>::insert_dir(node_store&& ns, size_t max_depth)
+void rtree<KeyT, ValueT, Traits>::insert_dir(node_store&& ns, size_t height)
 {
     assert(ns.is_directory());
     extent_type ns_box = ns.extent;
-    node_store* dir_ns = find_nonleaf_directory_node_for_insertion(ns_box, max_depth);
+    node_store* dir_ns = find_nonleaf_directory_node_for_insertion(ns_box, height);
     assert(dir_ns);
     assert(dir_ns->type == node_type::directory_nonleaf);
     directory_node* dir = static_cast<directory_node*>(dir_ns->node_ptr);
@@ -1557,17 +1557,17 @@ typename rtree<KeyT, ValueT, Traits>::search_results rtree<KeyT, ValueT, Traits>
 template<typename KeyT, typename ValueT, typename Traits>
 void rtree<KeyT, ValueT, Traits>::erase(const_iterator pos)
 {
-    erase_impl(pos.m_pos->ns, pos.m_pos->depth);
+    erase_impl(pos.m_pos->ns);
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
 void rtree<KeyT, ValueT, Traits>::erase(iterator pos)
 {
-    erase_impl(pos.m_pos->ns, pos.m_pos->depth);
+    erase_impl(pos.m_pos->ns);
 }
 
 template<typename KeyT, typename ValueT, typename Traits>
-void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
+void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns)
 {
     assert(ns->type == node_type::value);
     assert(ns->parent);
@@ -1576,7 +1576,6 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
 
     // Move up to the parent and find its stored location.
     node_store* dir_ns = ns->parent;
-    --depth;
     assert(dir_ns->type == node_type::directory_leaf);
     bool erased = dir_ns->erase_child(ns);
     assert(erased);
@@ -1608,7 +1607,6 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
     // Move up one level, and remove this directory node from its parent directory node.
     node_store* child_ns = dir_ns;
     dir_ns = dir_ns->parent;
-    --depth;
     erased = dir_ns->erase_child(child_ns);
     assert(erased);
 
@@ -1617,6 +1615,7 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         dir_ns->pack_upward();
 
     orphan_node_entries_type orphan_dir_nodes;
+    size_t height = 0; // height of the orphaned directories, 0 being that of a leaf directory.
 
     while (!dir_ns->is_root() && dir_ns->count < traits_type::min_node_size)
     {
@@ -1628,14 +1627,14 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
         {
             orphan_dir_nodes.emplace_back();
             orphan_dir_nodes.back().ns.swap(dir->children.back());
-            orphan_dir_nodes.back().depth = depth + 1; // depth of the children.
+            orphan_dir_nodes.back().height = height;
             dir->children.pop_back();
         }
 
         // Find and remove this node from its parent store.
         node_store* dir_ns_child = dir_ns;
         dir_ns = dir_ns->parent;
-        --depth;
+        ++height;
         erased = dir_ns->erase_child(dir_ns_child);
         assert(erased);
         dir_ns->reset_parent_pointers();
@@ -1646,17 +1645,21 @@ void rtree<KeyT, ValueT, Traits>::erase_impl(const node_store* ns, size_t depth)
     while (!orphan_dir_nodes.empty())
     {
         orphan_node_entry& entry = orphan_dir_nodes.back();
-        insert_dir(std::move(entry.ns), entry.depth);
+        insert_dir(std::move(entry.ns), entry.height);
         orphan_dir_nodes.pop_back();
     }
 
+    if (!m_root.count)
+        // The root node has lost all its children.
+        m_root.type = node_type::directory_leaf;
+
     while (!orphan_value_nodes.empty())
     {
         insert(std::move(orphan_value_nodes.back()), nullptr);
         orphan_value_nodes.pop_back();
     }
 
-    if (m_root.count == 1)
+    while (m_root.type == node_type::directory_nonleaf && m_root.count == 1)
     {
         // If the root node only has one child, make that child the new root.
         // Be careful not to leak memory here...
@@ -2464,8 +2467,14 @@ typename rtree<KeyT, ValueT, Traits>::insertion_point rtree<
 
 template<typename KeyT, typename ValueT, typename Traits>
 typename rtree<KeyT, ValueT, Traits>::node_store* rtree<
-    KeyT, ValueT, Traits>::find_nonleaf_directory_node_for_insertion(const extent_type& bb, size_t max_depth)
+    KeyT, ValueT, Traits>::find_nonleaf_directory_node_for_insertion(const extent_type& bb, size_t height)
 {
+    // All leaf directories are at the same depth.  Pick a directory whose
+    // child directories are of the specified height.
+    size_t root_height = 0;
+    for (const node_store* p = &m_root; p->type == node_type::directory_nonleaf && p->count; ++root_height)
+        p = &p->get_directory_node()->children.front();
+
     node_store* dst = &m_root;
 
     for (size_t i = 0; i <= traits_type::max_tree_depth; ++i)
@@ -2478,7 +2487,7 @@ typename rtree<KeyT, ValueT, Traits>::node_store* rtree<
 
         assert(dst->type == node_type::directory_nonleaf);
 
-        if (i == max_depth)
+        if (root_height == i + height + 1)
             return dst;
 
         directory_node* dir = static_cast<directory_node*>(dst->node_ptr);
-- 
2.43.0


From 12373c4724c2eddd1dfb2301b87d563b852c701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:33 +0000
Subject: [PATCH 16/53] fix: let rtree bulk loader finish when segments would
 hold single entries

---
 include/mdds/rtree_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/rtree_def.inl b/include/mdds/rtree_def.inl
index ba118e2..d102776 100644
--- a/include/mdds/rtree_def.inl
+++ b/include/mdds/rtree_def.inl
@@ -1172,6 +1172,9 @@ void rtree<KeyT, ValueT, Traits>::bulk_loader::pack_level(dir_store_type& store,
                 std::ceil(seg.size / n_splits_per_dim), traits_type::min_node_size, traits_type::max_node_size,
                 seg.size);
 
+            // Segments of single entries would not reduce the number of nodes.
+            segment_size = std::max<size_t>(segment_size, 2);
+
             size_t n_cur_segment = 0;
             auto begin = seg.begin;
             for (auto it = begin; it != seg.end; ++it, ++n_cur_segment)
-- 
2.43.0


From 15f946f5795a811c2155768173ffed445baeddd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:14 +0000
Subject: [PATCH 17/53] fix: make prefix_search() of trie_map and
 packed_trie_map compile for std::vector keys

---
 include/mdds/trie_map_def.inl | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 7d8c93a..d4dc6c0 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -40,6 +40,16 @@ namespace trie { namespace detail {
 
 HAS_STATIC_CONSTEXPR_MEMBER(dump_packed_construction_state)
 
+template<typename KeyT, typename ViewT>
+KeyT make_key(const ViewT& view)
+{
+    KeyT key;
+    for (const auto& c : view)
+        key.push_back(c);
+
+    return key;
+}
+
 template<typename PackedT, typename HandlerT>
 struct traverse_packed_buffer
 {
@@ -987,7 +997,7 @@ typename trie_map<KeyT, ValueT, TraitsT>::search_results trie_map<KeyT, ValueT,
     const key_unit_type* p = prefix.data();
     const key_unit_type* p_end = p + prefix.size();
     const trie_node* node = find_prefix_node(m_root, p, p_end);
-    return search_results(node, key_type(prefix.data(), prefix.size()));
+    return search_results(node, trie::detail::make_key<key_type>(prefix));
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
@@ -1580,7 +1590,7 @@ typename packed_trie_map<KeyT, ValueT, TraitsT>::search_results packed_trie_map<
     const auto* node = trie::detail::find_prefix_node<pack_value_type, key_unit_type, size_type>(
         root, p, prefix_end, [](const pack_value_type*, const pack_value_type*, const pack_value_type*) noexcept {});
 
-    return search_results(&m_value_store, node, key_type(prefix.data(), prefix.size()));
+    return search_results(&m_value_store, node, trie::detail::make_key<key_type>(prefix));
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-- 
2.43.0


From 6fddea2bc6d2cea43ff982d212b0261d555b8519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 18/53] fix: do not match a proper prefix of the key in
 trie_map find() and erase()

---
 include/mdds/trie_map_def.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index d4dc6c0..ed361b7 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -878,7 +878,11 @@ void trie_map<KeyT, ValueT, TraitsT>::find_prefix_node_with_stack(
 
     auto it = node.children.find(*prefix);
     if (it == node.children.end())
+    {
+        // The stack must not be left with a partial match.
+        node_stack.clear();
         return;
+    }
 
     node_stack.emplace_back(&node, it);
 
-- 
2.43.0


From 6d4689bb3701394aed491d8ee01274c62922eb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 19/53] fix: step trie iterators back correctly from non-leaf
 nodes and from the end position

---
 include/mdds/trie_map_itr.hpp | 79 ++++++++---------------------------
 1 file changed, 17 insertions(+), 62 deletions(-)

diff --git a/include/mdds/trie_map_itr.hpp b/include/mdds/trie_map_itr.hpp
index b87bc4f..4ce9f2d 100644
--- a/include/mdds/trie_map_itr.hpp
+++ b/include/mdds/trie_map_itr.hpp
@@ -227,12 +227,14 @@ public:
     {
         trie_node_type* cur_node = m_node_stack.back().node;
 
-        if (m_type == iterator_type::end && cur_node->has_value)
+        if (m_type == iterator_type::end && cur_node->children.empty())
         {
+            // The root node is the only node with value.
             assert(m_node_stack.size() == 1);
+            assert(cur_node->has_value);
             m_type = iterator_type::normal;
         }
-        else if (m_node_stack.size() == 1)
+        else if (m_type == iterator_type::end)
         {
             // This is the end position aka root node.  Move down to the
             // right-most leaf node.
@@ -241,11 +243,12 @@ public:
             cur_node = descend_to_previus_leaf_node(m_node_stack, m_buffer);
             m_type = iterator_type::normal;
         }
-        else if (cur_node->children.empty())
+        else
         {
-            // This is a leaf node.  Keep going up until it finds a parent
-            // node with unvisited child nodes on the left side, then descend
-            // on that path all the way to its leaf.
+            // Keep going up until it finds a parent node with unvisited child
+            // nodes on the left side, then descend on that path all the way
+            // to its leaf.  A parent node with value but without unvisited
+            // child nodes is the previous position.
 
             do
             {
@@ -264,30 +267,6 @@ public:
                 }
             } while (!cur_node->has_value);
         }
-        else
-        {
-            // Non-leaf node with value.  Keep going up until either the root
-            // node or another node with value is reached.
-
-            assert(cur_node->has_value);
-            assert(m_node_stack.back().child_pos == cur_node->children.begin());
-
-            do
-            {
-                // Go up.
-                m_buffer.pop_back();
-                m_node_stack.pop_back();
-                auto& si = m_node_stack.back();
-                cur_node = si.node;
-
-                if (m_node_stack.size() == 1)
-                {
-                    // Root node reached.  Left and down.
-                    cur_node = descend_to_previus_leaf_node(m_node_stack, m_buffer);
-                    assert(cur_node->has_value);
-                }
-            } while (!cur_node->has_value);
-        }
 
         assert(cur_node->has_value);
         m_current_key = m_buffer;
@@ -648,12 +627,13 @@ public:
         pack_value_type v = *si->node_pos;
         size_t index_size = *(si->node_pos + 1); // index size for child nodes.
 
-        if (m_type == iterator_type::end && v != trie_type::null_value)
+        if (m_type == iterator_type::end && !index_size)
         {
+            // The root node is the only node with value.
             assert(m_node_stack.size() == 1);
             m_type = iterator_type::normal;
         }
-        else if (m_node_stack.size() == 1)
+        else if (m_type == iterator_type::end)
         {
             // This is the end position aka root node.  Move down to the
             // right-most leaf node.
@@ -663,11 +643,12 @@ public:
             v = *si->node_pos;
             m_type = iterator_type::normal;
         }
-        else if (!index_size)
+        else
         {
-            // This is a leaf node.  Keep going up until it finds a parent
-            // node with unvisited child nodes on the left side, then descend
-            // on that path all the way to its leaf.
+            // Keep going up until it finds a parent node with unvisited child
+            // nodes on the left side, then descend on that path all the way
+            // to its leaf.  A parent node with value but without unvisited
+            // child nodes is the previous position.
 
             do
             {
@@ -694,32 +675,6 @@ public:
                 }
             } while (v == trie_type::null_value);
         }
-        else
-        {
-            // Non-leaf node with value.  Keep going up until either the root
-            // node or another node with value is reached.
-
-            assert(*si->node_pos); // this node should have a value.
-            assert(si->child_pos == (si->node_pos + 2));
-
-            do
-            {
-                // Go up.
-                m_buffer.pop_back();
-                m_node_stack.pop_back();
-                si = &m_node_stack.back();
-                v = *si->node_pos;
-
-                if (m_node_stack.size() == 1)
-                {
-                    // Root node reached.
-                    descend_to_previous_leaf_node(m_node_stack, m_buffer);
-                    si = &m_node_stack.back();
-                    v = *si->node_pos;
-                    assert(v != trie_type::null_value);
-                }
-            } while (v == trie_type::null_value);
-        }
 
         assert(v != trie_type::null_value);
         m_current_value = v;
-- 
2.43.0


From 79838ed990237fce61a54606c2f14263edf50bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 20/53] fix: start the iteration of tries at the value of the
 empty key

---
 include/mdds/trie_map_def.inl | 39 ++++-------------------------------
 1 file changed, 4 insertions(+), 35 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index ed361b7..1ad1143 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -676,7 +676,7 @@ trie_map<KeyT, ValueT, TraitsT>::trie_map(trie_map&& other) : m_root(std::move(o
 template<typename KeyT, typename ValueT, typename TraitsT>
 typename trie_map<KeyT, ValueT, TraitsT>::const_iterator trie_map<KeyT, ValueT, TraitsT>::begin() const
 {
-    if (m_root.children.empty())
+    if (empty())
         // empty container
         return end();
 
@@ -685,10 +685,6 @@ typename trie_map<KeyT, ValueT, TraitsT>::const_iterator trie_map<KeyT, ValueT,
     const_node_stack_type node_stack;
     node_stack.emplace_back(&m_root, m_root.children.begin());
 
-    // Push root's first child node.
-    auto it = node_stack.back().child_pos;
-    const_iterator::push_child_node_to_stack(node_stack, buf, it);
-
     // In theory there should always be at least one value node along the
     // left-most branch.
 
@@ -704,7 +700,7 @@ typename trie_map<KeyT, ValueT, TraitsT>::const_iterator trie_map<KeyT, ValueT,
 template<typename KeyT, typename ValueT, typename TraitsT>
 typename trie_map<KeyT, ValueT, TraitsT>::iterator trie_map<KeyT, ValueT, TraitsT>::begin()
 {
-    if (m_root.children.empty())
+    if (empty())
         // empty container
         return end();
 
@@ -713,10 +709,6 @@ typename trie_map<KeyT, ValueT, TraitsT>::iterator trie_map<KeyT, ValueT, Traits
     node_stack_type node_stack;
     node_stack.emplace_back(&m_root, m_root.children.begin());
 
-    // Push root's first child node.
-    auto it = node_stack.back().child_pos;
-    iterator::push_child_node_to_stack(node_stack, buf, it);
-
     // In theory there should always be at least one value node along the
     // left-most branch.
 
@@ -1455,35 +1447,12 @@ typename packed_trie_map<KeyT, ValueT, TraitsT>::const_iterator packed_trie_map<
 {
     node_stack_type node_stack = get_root_stack();
 
-    const stack_item* si = &node_stack.back();
-    if (si->child_pos == si->child_end)
+    if (m_value_store.empty())
         // empty container.
         return const_iterator(&m_value_store, std::move(node_stack), key_type());
 
-    const auto* node_pos = si->node_pos;
-    const auto* child_pos = si->child_pos;
-    const auto* child_end = si->child_end;
-    const auto* p = child_pos;
-
-    // Follow the root node's left-most child.
     key_type buf;
-    key_unit_type c = *p;
-    buf.push_back(c);
-    ++p;
-    size_type offset = *p;
-
-    node_pos -= offset; // jump to the child node.
-    p = node_pos;
-    ++p;
-    size_type index_size = *p;
-    ++p;
-    child_pos = p;
-    child_end = child_pos + index_size;
-
-    // Push this child node onto the stack.
-    node_stack.emplace_back(&m_value_store, node_pos, child_pos, child_end);
-
-    pack_value_type pos = *node_pos;
+    pack_value_type pos = *node_stack.back().node_pos;
     while (pos == null_value)
     {
         // Keep following the left child node until we reach a node with value.
-- 
2.43.0


From 0b2494565aa53e9a0244259e79ee94cdd9acaef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 21/53] fix: copy the value store pointer of packed trie search
 results

---
 include/mdds/trie_map_itr.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/mdds/trie_map_itr.hpp b/include/mdds/trie_map_itr.hpp
index 4ce9f2d..7c15947 100644
--- a/include/mdds/trie_map_itr.hpp
+++ b/include/mdds/trie_map_itr.hpp
@@ -729,6 +729,7 @@ class packed_search_results
 
     void swap(packed_search_results& other)
     {
+        std::swap(m_value_store, other.m_value_store);
         std::swap(m_node, other.m_node);
         std::swap(m_buffer, other.m_buffer);
     }
@@ -739,10 +740,12 @@ public:
     packed_search_results() : m_node(nullptr)
     {}
 
-    packed_search_results(const packed_search_results& other) : m_node(other.m_node), m_buffer(other.m_buffer)
+    packed_search_results(const packed_search_results& other)
+        : m_value_store(other.m_value_store), m_node(other.m_node), m_buffer(other.m_buffer)
     {}
 
-    packed_search_results(packed_search_results&& other) : m_node(other.m_node), m_buffer(std::move(other.m_buffer))
+    packed_search_results(packed_search_results&& other)
+        : m_value_store(other.m_value_store), m_node(other.m_node), m_buffer(std::move(other.m_buffer))
     {
         other.m_node = nullptr;
     }
-- 
2.43.0


From 989b6dbc3b293f23b00303299c12e4e4329bb134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 22/53] fix: do not give the root node of an empty
 packed_trie_map a value

---
 include/mdds/trie_map_def.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 1ad1143..a056b43 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1305,6 +1305,7 @@ packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map() : m_packed(3, 0u)
 
     // root offset (0), root value (1), and root child count (2).
     m_packed[0] = 1;
+    m_packed[1] = null_value;
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
@@ -1399,8 +1400,10 @@ packed_trie_map<KeyT, ValueT, TraitsT>::packed_trie_map(packed_trie_map&& other)
     : m_value_store(std::move(other.m_value_store)), m_packed(std::move(other.m_packed))
 {
     // Even the empty structure needs to have the root offset and the empty root record.
-    other.m_packed.resize(3, 0u); // root offset (0), root value (1), and root child count (2).
+    other.m_packed.assign(3, 0u); // root offset (0), root value (1), and root child count (2).
     other.m_packed[0] = 1;
+    other.m_packed[1] = null_value;
+    other.m_value_store.clear();
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-- 
2.43.0


From 08ee2b3a6d516530ade2152af312db603f1777c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 23/53] fix: accept zero key units in the entries of
 packed_trie_map

---
 include/mdds/trie_map_def.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index a056b43..830107e 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1048,7 +1048,7 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::traverse_range(
         ++range_count;
         key_unit_type c = p->key[pos];
 
-        if (!range_char)
+        if (range_count == 1)
             range_char = c;
         else if (range_char != c)
         {
@@ -1067,7 +1067,6 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::traverse_range(
 
     if (range_count)
     {
-        assert(range_char);
         node_pool.emplace_back(range_char);
         root.children.push_back(&node_pool.back());
         traverse_range(*root.children.back(), node_pool, range_start, end, pos + 1);
-- 
2.43.0


From 10678339fa9bb000537e9b2752027eb9bda79da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 24/53] fix: order the child nodes of packed_trie_map built
 from entries by their key units

---
 include/mdds/trie_map_def.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 830107e..4f3c3cf 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1087,6 +1087,13 @@ typename packed_trie_map<KeyT, ValueT, TraitsT>::size_type packed_trie_map<KeyT,
         child_offsets.emplace_back(child_offset, child_node.key);
     });
 
+    // Lookup and iteration expect the child nodes to be ordered by key unit
+    // values, which may differ from the order of the entries when the key unit
+    // type is signed.
+    std::sort(child_offsets.begin(), child_offsets.end(), [](const auto& left, const auto& right) {
+        return std::get<1>(left) < std::get<1>(right);
+    });
+
     // Process this node.
     size_type offset = m_packed.size();
     if (node.value)
-- 
2.43.0


From 165e5dc04c9d6924e331cb54f127c0c6e2d1fa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 25/53] fix: refuse to pack a trie whose key units or child
 counts do not fit the pack value type

---
 include/mdds/trie_map_def.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 4f3c3cf..1e8bf8c 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -1171,11 +1171,17 @@ template<typename KeyT, typename ValueT, typename TraitsT>
 void packed_trie_map<KeyT, ValueT, TraitsT>::push_child_offsets(
     size_type offset, const child_offsets_type& child_offsets)
 {
+    if (child_offsets.size() > null_value / 2u)
+        throw size_error("number of child nodes exceeds the maximum value of the pack value type");
+
     m_packed.push_back(pack_value_type(child_offsets.size() * 2));
 
     std::for_each(child_offsets.begin(), child_offsets.end(), [&](const std::tuple<size_t, key_unit_type>& v) {
         key_unit_type key = std::get<1>(v);
         size_t child_offset = std::get<0>(v);
+        if (static_cast<key_unit_type>(static_cast<pack_value_type>(key)) != key)
+            throw size_error("key unit does not fit the pack value type");
+
         m_packed.push_back(key);
         m_packed.push_back(offset - child_offset);
     });
-- 
2.43.0


From bc479f72fa9c40d4708984c3fe7b6251a0f09225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 26/53] fix: return empty results from prefix_search() of an
 empty trie_map

---
 include/mdds/trie_map_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 1e8bf8c..644f4bb 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -990,6 +990,9 @@ template<typename KeyT, typename ValueT, typename TraitsT>
 typename trie_map<KeyT, ValueT, TraitsT>::search_results trie_map<KeyT, ValueT, TraitsT>::prefix_search(
     key_view_type prefix) const
 {
+    if (empty())
+        return search_results(nullptr, key_type());
+
     const key_unit_type* p = prefix.data();
     const key_unit_type* p_end = p + prefix.size();
     const trie_node* node = find_prefix_node(m_root, p, p_end);
-- 
2.43.0


From cf00860140f1a3cb2abee9883e461192b21785cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 27/53] fix: let packed_trie_map::load_state() fail on
 truncated streams without changing the map

---
 include/mdds/trie_map_def.inl | 74 ++++++++++++++---------------------
 1 file changed, 30 insertions(+), 44 deletions(-)

diff --git a/include/mdds/trie_map_def.inl b/include/mdds/trie_map_def.inl
index 644f4bb..2c3d45f 100644
--- a/include/mdds/trie_map_def.inl
+++ b/include/mdds/trie_map_def.inl
@@ -326,6 +326,13 @@ inline const char* value_type_size_name(bool variable_size)
     return variable_size ? "varaible size" : "fixed size";
 }
 
+/** Throw when the last read from the stream has failed. */
+inline void check_stream_or_throw(const std::istream& is)
+{
+    if (!is)
+        throw std::invalid_argument("failed to read the state from the stream.");
+}
+
 union bin_value
 {
     char buffer[8];
@@ -424,6 +431,7 @@ struct read_fixed_size_values_from_istream
 
         // read the size of the value.
         is.read(bv.buffer, 4);
+        check_stream_or_throw(is);
         size_t size = bv.ui32;
 
         if (size != FuncT::value_size)
@@ -437,6 +445,7 @@ struct read_fixed_size_values_from_istream
         {
             value_store.emplace_back();
             FuncT::read(is, size, value_store.back());
+            check_stream_or_throw(is);
         }
 
         return value_store;
@@ -456,10 +465,12 @@ struct read_variable_size_values_from_istream
         for (uint32_t i = 0; i < value_count; ++i)
         {
             is.read(bv.buffer, 4);
+            check_stream_or_throw(is);
             size_t size = bv.ui32;
 
             ValueT v;
             FuncT::read(is, size, v);
+            check_stream_or_throw(is);
 
             value_store.push_back(std::move(v));
         }
@@ -510,15 +521,8 @@ void numeric_value_serializer<T>::read(std::istream& is, size_t n, T& v)
 
     } buf;
 
-    char* p = buf.buffer;
-
-    while (n)
-    {
-        is.read(p, s);
-        auto size_read = is.gcount();
-        n -= size_read;
-        p += size_read;
-    }
+    is.read(buf.buffer, s);
+    detail::check_stream_or_throw(is);
 
     v = buf.v;
 }
@@ -541,7 +545,8 @@ void numeric_sequence_value_serializer<T>::read(std::istream& is, size_t n, T& v
         std::is_arithmetic<typename T::value_type>::value, "value type of this vector is not a numeric type.");
 
     constexpr size_t elem_size = element_serializer::value_size;
-    assert(n % elem_size == 0);
+    if (n % elem_size != 0)
+        throw std::invalid_argument("the size of the value is not a multiple of the size of its elements.");
 
     size_t elem_count = n / elem_size;
 
@@ -562,15 +567,15 @@ inline void variable_value_serializer<std::string>::write(std::ostream& os, cons
 template<>
 inline void variable_value_serializer<std::string>::read(std::istream& is, size_t n, std::string& v)
 {
-    v.resize(n);
-    char* p = const_cast<char*>(v.data());
+    v.clear();
+    char buf[1024];
 
     while (n)
     {
-        is.read(p, n);
-        auto size_read = is.gcount();
-        n -= size_read;
-        p += size_read;
+        is.read(buf, std::min(n, sizeof(buf)));
+        detail::check_stream_or_throw(is);
+        v.append(buf, is.gcount());
+        n -= is.gcount();
     }
 }
 
@@ -1705,6 +1710,7 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::load_state(std::istream& is)
 {
     trie::detail::bin_value bv;
     is.read(bv.buffer, 2);
+    trie::detail::check_stream_or_throw(is);
 
     uint16_t flags = bv.ui16;
     bool variable_size = (flags & 0x0001) != 0;
@@ -1719,19 +1725,22 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::load_state(std::istream& is)
 
     // read the number of values
     is.read(bv.buffer, 4);
+    trie::detail::check_stream_or_throw(is);
     uint32_t value_count = bv.ui32;
 
     using value_size_type = std::bool_constant<FuncT::variable_size>;
     trie::detail::read_values_from_istream<FuncT, value_type, value_size_type> func;
-    m_value_store = func(is, value_count);
+    value_store_type value_store = func(is, value_count);
 
     // There should be a check byte of 0xFF.
     is.read(bv.buffer, 1);
+    trie::detail::check_stream_or_throw(is);
     if (bv.ui8 != 0xFF)
         throw std::invalid_argument("failed to find the check byte at the end of the value section.");
 
     // Size of pack_value_type
     is.read(bv.buffer, 1);
+    trie::detail::check_stream_or_throw(is);
     size_type pvt_size = bv.ui8;
 
     if (pvt_size != sizeof(pack_value_type))
@@ -1739,50 +1748,27 @@ void packed_trie_map<KeyT, ValueT, TraitsT>::load_state(std::istream& is)
 
     // Size of the packed blob.
     is.read(bv.buffer, 8);
+    trie::detail::check_stream_or_throw(is);
 
     size_t n = bv.ui64;
     packed_type packed;
-    packed.reserve(n);
 
     for (size_t i = 0; i < n; ++i)
     {
         is.read(bv.buffer, pvt_size);
+        trie::detail::check_stream_or_throw(is);
         const auto* p = reinterpret_cast<const pack_value_type*>(bv.buffer);
         packed.push_back(*p);
     }
 
     // the last byte must be 0xFF.
     is.read(bv.buffer, 1);
+    trie::detail::check_stream_or_throw(is);
     if (bv.ui8 != 0xFF)
         throw std::invalid_argument("failed to find the check byte at the end of the packed blob section.");
 
+    m_value_store.swap(value_store);
     m_packed.swap(packed);
-
-    struct _handler
-    {
-        packed_trie_map& m_parent;
-
-        void root_offset(size_t /*i*/, pack_value_type /*v*/) const
-        {}
-
-        void node_value(size_t i, pack_value_type v) const
-        {
-            m_parent.m_packed[i] = v;
-        }
-
-        void node_index_size(size_t /*i*/, pack_value_type /*v*/) const
-        {}
-        void node_child_key(size_t /*i*/, pack_value_type /*v*/) const
-        {}
-        void node_child_offset(size_t /*i*/, pack_value_type /*v*/) const
-        {}
-
-        _handler(packed_trie_map& parent) : m_parent(parent)
-        {}
-
-    } handler(*this);
-
-    trie::detail::traverse_packed_buffer<packed_type, _handler>{}(m_packed, handler);
 }
 
 template<typename KeyT, typename ValueT, typename TraitsT>
-- 
2.43.0


From 877c66084e1866b597d0b6c3c049de14136ae5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:44 +0000
Subject: [PATCH 28/53] fix: do not look up a hinted position in the blocks of
 an empty multi_type_vector

---
 include/mdds/multi_type_vector/aos/main_def.inl | 3 +++
 include/mdds/multi_type_vector/soa/main_def.inl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index e3744c5..2d80d22 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -919,6 +919,9 @@ template<typename Traits>
 typename multi_type_vector<Traits>::size_type multi_type_vector<Traits>::get_block_position(
     const typename value_type::private_data& pos_data, size_type row) const
 {
+    if (row >= m_cur_size)
+        return m_blocks.size();
+
     size_type block_index = 0;
     if (pos_data.parent == this && pos_data.block_index < m_blocks.size())
         block_index = pos_data.block_index;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index e10fd73..40f14df 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -4231,6 +4231,9 @@ template<typename Traits>
 typename multi_type_vector<Traits>::size_type multi_type_vector<Traits>::get_block_position(
     const typename value_type::private_data& pos_data, size_type row) const
 {
+    if (row >= m_cur_size)
+        return m_block_store.positions.size();
+
     size_type block_index = 0;
     if (pos_data.parent == this && pos_data.block_index < m_block_store.positions.size())
         block_index = pos_data.block_index;
-- 
2.43.0


From af25f34c6df27135020ab64a3d5195a2197af5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 29/53] fix: notify the event handler of the new element block,
 not of the shifted one, on insertion to soa multi_type_vector

---
 include/mdds/multi_type_vector/soa/main_def.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 40f14df..edce2d1 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -2123,8 +2123,8 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::insert_c
         // Just insert a new block before the current block.
         m_block_store.insert(block_index, m_block_store.positions[block_index], length, nullptr);
         m_block_store.element_blocks[block_index] = block_funcs::create_new_block(cat, 0);
-        m_hdl_event.element_block_acquired(blk_data);
         blk_data = m_block_store.element_blocks[block_index];
+        m_hdl_event.element_block_acquired(blk_data);
         mdds_mtv_assign_values(*blk_data, *it_begin, it_begin, it_end);
         m_block_store.sizes[block_index] = length;
         m_cur_size += length;
-- 
2.43.0


From e09aab35a71765975442668923c8a06999a4ac38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:14 +0000
Subject: [PATCH 30/53] fix: keep the element block when overwriting its upper
 part with values of another type

The block got replaced with a new one without notifying the event handler.
---
 .../mdds/multi_type_vector/aos/main_def.inl    | 18 +++---------------
 .../mdds/multi_type_vector/soa/main_def.inl    | 16 +++-------------
 2 files changed, 6 insertions(+), 28 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 2d80d22..1c5103f 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -3775,23 +3775,11 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
         if (blk->data)
         {
             // Erase the upper part of the data from the current data array.
-            std::unique_ptr<base_element_block, element_block_deleter> new_data(
-                block_funcs::create_new_block(mdds::mtv::get_block_type(*blk->data), 0));
-
-            if (!new_data)
-                throw std::logic_error("failed to instantiate a new data array.");
-
+            // The element block itself stays the same, hence no element block
+            // events here.
             size_type pos = end_row - start_row_in_block + 1;
-            block_funcs::assign_values_from_block(*new_data, *blk->data, pos, length);
             block_funcs::overwrite_values(*blk->data, 0, pos);
-
-            // Resize the block to zero before deleting, to prevent the
-            // managed cells from being deleted when the block is deleted.
-            block_funcs::resize_block(*blk->data, 0);
-            block_funcs::delete_block(blk->data);
-            blk->data = new_data.release();
-
-            // We don't call element block event listeners here.
+            block_funcs::erase(*blk->data, 0, pos);
         }
 
         length = end_row - start_row + 1;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index edce2d1..ce9ce11 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -2921,21 +2921,11 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
         if (blk_data)
         {
             // Erase the upper part of the data from the current element block.
-            std::unique_ptr<base_element_block, element_block_deleter> new_data(
-                block_funcs::create_new_block(mdds::mtv::get_block_type(*blk_data), 0));
-
-            if (!new_data)
-                throw std::logic_error("failed to create a new element block.");
-
+            // The element block itself stays the same, hence no element block
+            // events here.
             size_type pos = end_row - start_row_in_block + 1;
-            block_funcs::assign_values_from_block(*new_data, *blk_data, pos, length);
             block_funcs::overwrite_values(*blk_data, 0, pos);
-
-            block_funcs::resize_block(*blk_data, 0); // to prevent deletion of elements
-            block_funcs::delete_block(blk_data);
-            m_block_store.element_blocks[block_index] = new_data.release();
-
-            // We intentionally don't trigger element block events here.
+            block_funcs::erase(*blk_data, 0, pos);
         }
 
         length = end_row - start_row + 1;
-- 
2.43.0


From fc4f4ebeaf45d9776e220a253172f2ea0092245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 31/53] fix: overwrite the right elements of the block that
 gets shrunk when resizing multi_type_vector

---
 include/mdds/multi_type_vector/aos/main_def.inl | 2 +-
 include/mdds/multi_type_vector/soa/main_def.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 1c5103f..0f2908e 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4351,7 +4351,7 @@ void multi_type_vector<Traits>::resize_impl(size_type new_size)
         size_type new_block_size = new_end_row - start_row_in_block + 1;
         if (blk->data)
         {
-            block_funcs::overwrite_values(*blk->data, new_end_row + 1, end_row_in_block - new_end_row);
+            block_funcs::overwrite_values(*blk->data, new_block_size, end_row_in_block - new_end_row);
             block_funcs::resize_block(*blk->data, new_block_size);
         }
         blk->size = new_block_size;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index ce9ce11..1a249e4 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -5118,7 +5118,7 @@ void multi_type_vector<Traits>::resize_impl(size_type new_size)
         size_type new_block_size = new_end_row - start_row_in_block + 1;
         if (data)
         {
-            block_funcs::overwrite_values(*data, new_end_row + 1, end_row_in_block - new_end_row);
+            block_funcs::overwrite_values(*data, new_block_size, end_row_in_block - new_end_row);
             block_funcs::resize_block(*data, new_block_size);
         }
         m_block_store.sizes[block_index] = new_block_size;
-- 
2.43.0


From a35b9544fc55bf64a742e7805979e9a78fbf77f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 32/53] fix: merge with the next block when setting values over
 multiple blocks extends the first one

---
 include/mdds/multi_type_vector/aos/main_def.inl | 3 +++
 include/mdds/multi_type_vector/soa/main_def.inl | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 0f2908e..53aada2 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4097,6 +4097,9 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
         delete_element_blocks(it_erase_begin, it_erase_end);
         m_blocks.erase(it_erase_begin, it_erase_end);
 
+        // The block that follows may be of the same type.
+        merge_with_next_block(block_index1);
+
         return get_iterator(block_index1);
     }
 
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 1a249e4..65491d3 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -3258,6 +3258,9 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
         delete_element_blocks(index_erase_begin, index_erase_end);
         m_block_store.erase(index_erase_begin, index_erase_end - index_erase_begin);
 
+        // The block that follows may be of the same type.
+        merge_with_next_block(block_index1);
+
         return get_iterator(block_index1);
     }
 
-- 
2.43.0


From c86312ba5f6a2fa87db617d3ecf05678cc78332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:07 +0000
Subject: [PATCH 33/53] fix: overwrite the values erased from the last block
 when setting values over multiple blocks

---
 include/mdds/multi_type_vector/aos/main_def.inl | 1 +
 include/mdds/multi_type_vector/soa/main_def.inl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 53aada2..8e91dea 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -4081,6 +4081,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             {
                 // Erase the upper part of block 2.
                 size_type size_to_erase = end_row - start_row_in_block2 + 1;
+                block_funcs::overwrite_values(*blk2->data, 0, size_to_erase);
                 block_funcs::erase(*blk2->data, 0, size_to_erase);
                 blk2->size -= size_to_erase;
                 blk2->position += size_to_erase;
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 65491d3..6ff2e37 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -3242,6 +3242,7 @@ typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::set_cell
             {
                 // Erase the upper part of block 2.
                 size_type size_to_erase = end_row - start_row_in_block2 + 1;
+                block_funcs::overwrite_values(*blk2_data, 0, size_to_erase);
                 block_funcs::erase(*blk2_data, 0, size_to_erase);
                 m_block_store.sizes[block_index2] -= size_to_erase;
                 m_block_store.positions[block_index2] += size_to_erase;
-- 
2.43.0


From 6814bd70666158588b6193cfbca1fd3a57cb9a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:26 +0000
Subject: [PATCH 34/53] fix: do not delete the elements merged with the
 previous block when swapping ranges of multi_type_vector

---
 include/mdds/multi_type_vector/aos/main_def.inl | 1 +
 include/mdds/multi_type_vector/soa/main_def.inl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 8e91dea..545ed33 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -3508,6 +3508,7 @@ base_element_block* multi_type_vector<Traits>::exchange_elements(
                 {
                     // Apend elements from the next block too.
                     block_funcs::append_block(*blk_prev->data, *blk_next->data);
+                    block_funcs::resize_block(*blk_next->data, 0); // prevent double-delete.
                     blk_prev->size += blk_next->size;
                     ++it_end;
                     delete_element_block(*blk_next);
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 6ff2e37..3e3aa0f 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -4844,6 +4844,7 @@ base_element_block* multi_type_vector<Traits>::exchange_elements(
                     // Apend elements from the next block too.
                     base_element_block* dst_next_data = m_block_store.element_blocks[dst_index + 1];
                     block_funcs::append_block(*dst_prev_data, *dst_next_data);
+                    block_funcs::resize_block(*dst_next_data, 0); // prevent double-delete.
                     m_block_store.sizes[dst_index - 1] += m_block_store.sizes[dst_index + 1];
                     ++dst_erase_size;
                     delete_element_block(dst_index + 1);
-- 
2.43.0


From f36b799a5f4a34b955d74f6a501a78808e677554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:26 +0000
Subject: [PATCH 35/53] fix: leave a moved-from multi_type_vector empty

---
 include/mdds/multi_type_vector/aos/main_def.inl | 2 +-
 include/mdds/multi_type_vector/soa/main_def.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 545ed33..6e001c5 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -326,7 +326,7 @@ multi_type_vector<Traits>::multi_type_vector(const multi_type_vector& other)
 template<typename Traits>
 multi_type_vector<Traits>::multi_type_vector(multi_type_vector&& other) noexcept(nothrow_move_constructible_v)
     : m_hdl_event(std::move(other.m_hdl_event)), m_blocks(std::move(other.m_blocks)),
-      m_cur_size(std::move(other.m_cur_size))
+      m_cur_size(std::exchange(other.m_cur_size, 0))
 {
 #ifdef MDDS_MULTI_TYPE_VECTOR_DEBUG
     debug_check_full("move construction");
diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index 3e3aa0f..b97b0fb 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -517,7 +517,7 @@ multi_type_vector<Traits>::multi_type_vector(const multi_type_vector& other)
 template<typename Traits>
 multi_type_vector<Traits>::multi_type_vector(multi_type_vector&& other) noexcept(nothrow_move_constructible_v)
     : m_hdl_event(std::move(other.m_hdl_event)), m_block_store(std::move(other.m_block_store)),
-      m_cur_size(std::move(other.m_cur_size)), m_cow_store(std::move(other.m_cow_store))
+      m_cur_size(std::exchange(other.m_cur_size, 0)), m_cow_store(std::move(other.m_cow_store))
 {
     MDDS_MTV_TRACE_ARGS(constructor, "other=? (move)");
 
-- 
2.43.0


From cde32da6ed2952e1497c07aaa69fc162619aaf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:46 +0000
Subject: [PATCH 36/53] fix: free the element blocks copied so far when copying
 of an aos multi_type_vector throws

---
 .../mdds/multi_type_vector/aos/main_def.inl   | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 6e001c5..58d8677 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -308,13 +308,31 @@ template<typename Traits>
 multi_type_vector<Traits>::multi_type_vector(const multi_type_vector& other)
     : m_hdl_event(other.m_hdl_event), m_blocks(other.m_blocks), m_cur_size(other.m_cur_size)
 {
-    // Copy all element blocks.
-    for (auto& blk : m_blocks)
+    // Copy all element blocks into a temporary store first, so that a copy
+    // throwing mid-way (e.g. for a noncopyable block) doesn't leak the blocks
+    // copied so far.
+    std::vector<base_element_block*> owned(m_blocks.size(), nullptr);
+
+    try
     {
-        if (blk.data)
+        for (std::size_t i = 0; i < m_blocks.size(); ++i)
+            if (m_blocks[i].data)
+                owned[i] = block_funcs::copy_block(*m_blocks[i].data);
+    }
+    catch (...)
+    {
+        for (const base_element_block* p : owned)
+            if (p)
+                block_funcs::delete_block(p);
+        throw;
+    }
+
+    for (std::size_t i = 0; i < m_blocks.size(); ++i)
+    {
+        if (owned[i])
         {
-            blk.data = block_funcs::copy_block(*blk.data);
-            m_hdl_event.element_block_acquired(blk.data);
+            m_blocks[i].data = owned[i];
+            m_hdl_event.element_block_acquired(owned[i]);
         }
     }
 
-- 
2.43.0


From 0dce75d46576a71b86d57e1bb6e53bedeadda7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:03 +0000
Subject: [PATCH 37/53] fix: advance multi_type_vector positions correctly over
 blocks larger than the range of int

---
 include/mdds/multi_type_vector/util.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/mdds/multi_type_vector/util.hpp b/include/mdds/multi_type_vector/util.hpp
index 738994c..446d7de 100644
--- a/include/mdds/multi_type_vector/util.hpp
+++ b/include/mdds/multi_type_vector/util.hpp
@@ -192,17 +192,18 @@ T advance_position(const T& pos, int steps)
 
     if (steps > 0)
     {
-        while (steps > 0)
+        std::size_t n = steps;
+        while (n > 0)
         {
-            if (ret.second + steps < ret.first->size)
+            if (n < ret.first->size - ret.second)
             {
                 // element is still in the same block.
-                ret.second += steps;
+                ret.second += n;
                 break;
             }
             else
             {
-                steps -= static_cast<int>(ret.first->size - ret.second);
+                n -= ret.first->size - ret.second;
                 ++ret.first;
                 ret.second = 0;
             }
@@ -210,16 +211,18 @@ T advance_position(const T& pos, int steps)
     }
     else
     {
-        while (steps < 0)
+        // NB: negating the lowest value of int would overflow.
+        std::size_t n = std::size_t(0) - static_cast<std::size_t>(steps);
+        while (n > 0)
         {
-            if (static_cast<int>(ret.second) >= -steps)
+            if (ret.second >= n)
             {
-                ret.second += steps;
+                ret.second -= n;
                 break;
             }
             else
             {
-                steps += static_cast<int>(ret.second + 1);
+                n -= ret.second + 1;
                 --ret.first;
                 ret.second = ret.first->size - 1;
             }
-- 
2.43.0


From ed39b2b2ebd3392c87d0ff1e24eb90d74894c093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:06 +0000
Subject: [PATCH 38/53] fix: reject the hinted transfer() of an aos
 multi_type_vector to itself

---
 include/mdds/multi_type_vector/aos/main_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/multi_type_vector/aos/main_def.inl b/include/mdds/multi_type_vector/aos/main_def.inl
index 58d8677..4e103e9 100644
--- a/include/mdds/multi_type_vector/aos/main_def.inl
+++ b/include/mdds/multi_type_vector/aos/main_def.inl
@@ -1835,6 +1835,9 @@ template<typename Traits>
 typename multi_type_vector<Traits>::iterator multi_type_vector<Traits>::transfer(
     const iterator& pos_hint, size_type start_pos, size_type end_pos, multi_type_vector& dest, size_type dest_pos)
 {
+    if (&dest == this)
+        throw invalid_arg_error("You cannot transfer between the same container.");
+
     size_type block_index1 = get_block_position(pos_hint->__private_data, start_pos);
     if (block_index1 == m_blocks.size())
         mdds::mtv::detail::throw_block_position_not_found(
-- 
2.43.0


From b65cf854f390ab460e172438709f9380339466f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 39/53] fix: resolve the ambiguity of inserting an rvalue into
 delayed_delete_vector at an iterator

---
 include/mdds/multi_type_vector/delayed_delete_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mdds/multi_type_vector/delayed_delete_vector.hpp b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
index 128397a..1c6fe85 100644
--- a/include/mdds/multi_type_vector/delayed_delete_vector.hpp
+++ b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
@@ -130,7 +130,7 @@ public:
         m_vec.emplace_back(std::forward<Args>(args)...);
     }
 
-    iterator insert(iterator pos, const T& value)
+    iterator insert(const_iterator pos, const T& value)
     {
         return m_vec.insert(pos, value);
     }
-- 
2.43.0


From 7c425d8470d051f4f04bf7e2641fefb7e20aed7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 40/53] fix: let at() of delayed_delete_vector reject positions
 that overflow with its front offset

---
 include/mdds/multi_type_vector/delayed_delete_vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/delayed_delete_vector.hpp b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
index 1c6fe85..2664c7c 100644
--- a/include/mdds/multi_type_vector/delayed_delete_vector.hpp
+++ b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
@@ -101,12 +101,14 @@ public:
 
     reference at(size_type pos)
     {
-        return m_vec.at(pos + m_front_offset);
+        // a large position must not wrap around to an element in the front
+        return m_vec.at(pos < size() ? pos + m_front_offset : m_vec.size());
     }
 
     const_reference at(size_type pos) const
     {
-        return m_vec.at(pos + m_front_offset);
+        // a large position must not wrap around to an element in the front
+        return m_vec.at(pos < size() ? pos + m_front_offset : m_vec.size());
     }
 
     void push_back(const T& value)
-- 
2.43.0


From 8a9cbfaa5111ce55c0cd473e4beeaaafd87b933c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 41/53] fix: swap the front offsets of delayed_delete_vector
 instances

---
 include/mdds/multi_type_vector/delayed_delete_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mdds/multi_type_vector/delayed_delete_vector.hpp b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
index 2664c7c..1948af7 100644
--- a/include/mdds/multi_type_vector/delayed_delete_vector.hpp
+++ b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
@@ -124,6 +124,7 @@ public:
     void swap(delayed_delete_vector& other) noexcept(std::is_nothrow_swappable_v<store_type>)
     {
         m_vec.swap(other.m_vec);
+        std::swap(m_front_offset, other.m_front_offset);
     }
 
     template<typename... Args>
-- 
2.43.0


From 5cf1be0a667c73eddfeda5a5d5a773eda106c379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 42/53] fix: leave a moved-from delayed_delete_vector empty

---
 .../delayed_delete_vector.hpp                 | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/include/mdds/multi_type_vector/delayed_delete_vector.hpp b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
index 1948af7..870659f 100644
--- a/include/mdds/multi_type_vector/delayed_delete_vector.hpp
+++ b/include/mdds/multi_type_vector/delayed_delete_vector.hpp
@@ -49,6 +49,29 @@ public:
     delayed_delete_vector(InputIt first, InputIt last) : m_vec(first, last)
     {}
 
+    delayed_delete_vector(const delayed_delete_vector& other) = default;
+
+    delayed_delete_vector(delayed_delete_vector&& other) noexcept(std::is_nothrow_move_constructible_v<store_type>)
+        : m_vec(std::move(other.m_vec)), m_front_offset(other.m_front_offset)
+    {
+        other.reset_moved();
+    }
+
+    delayed_delete_vector& operator=(const delayed_delete_vector& other) = default;
+
+    delayed_delete_vector& operator=(delayed_delete_vector&& other) noexcept(
+        std::is_nothrow_move_assignable_v<store_type>)
+    {
+        if (this != &other)
+        {
+            m_vec = std::move(other.m_vec);
+            m_front_offset = other.m_front_offset;
+            other.reset_moved();
+        }
+
+        return *this;
+    }
+
     iterator begin() noexcept
     {
         return m_vec.begin() + m_front_offset;
@@ -211,6 +234,12 @@ public:
     }
 
 private:
+    void reset_moved() noexcept
+    {
+        m_vec.clear();
+        m_front_offset = 0;
+    }
+
     void clear_removed()
     {
         m_vec.erase(m_vec.begin(), m_vec.begin() + m_front_offset);
-- 
2.43.0


From 77ac01585b7635f36c57fbf394246bbb9666adaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 43/53] fix: overflow in the range checks of mtv::collection

---
 include/mdds/multi_type_vector/collection_def.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/collection_def.inl b/include/mdds/multi_type_vector/collection_def.inl
index be9876d..e12b907 100644
--- a/include/mdds/multi_type_vector/collection_def.inl
+++ b/include/mdds/multi_type_vector/collection_def.inl
@@ -194,7 +194,7 @@ void collection<MtvT>::check_collection_range(size_type start, size_type size) c
     if (!size)
         throw invalid_arg_error("size of 0 is not allowed.");
 
-    if ((start + size) > m_vectors.size())
+    if (size > m_vectors.size() - start)
         throw invalid_arg_error("size is too large.");
 }
 
@@ -211,7 +211,7 @@ void collection<MtvT>::check_element_range(size_type start, size_type size) cons
     if (!size)
         throw invalid_arg_error("size of 0 is not allowed.");
 
-    if ((start + size) > m_mtv_size)
+    if (size > m_mtv_size - start)
         throw invalid_arg_error("size is too large.");
 }
 
-- 
2.43.0


From 5bc4075170d0060cb9228477bf5c6770533583b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 44/53] fix: constructing mtv::collection from an empty range
 dereferences the end iterator

---
 include/mdds/multi_type_vector/collection_def.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/mdds/multi_type_vector/collection_def.inl b/include/mdds/multi_type_vector/collection_def.inl
index e12b907..9427848 100644
--- a/include/mdds/multi_type_vector/collection_def.inl
+++ b/include/mdds/multi_type_vector/collection_def.inl
@@ -114,6 +114,9 @@ collection<MtvT>::collection(const T& begin, const T& end) : m_mtv_size(0), m_id
     for (T it = begin; it != end; ++it)
         init_insert_vector(*it);
 
+    if (m_vectors.empty())
+        return;
+
     // Create a single value that identifies the whole collection.
     auto it = m_vectors.begin();
     uintptr_t identity = reinterpret_cast<uintptr_t>(*it);
-- 
2.43.0


From 05e18fbb083e37ca9fd385fc0a58cb1adc1241b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 45/53] fix: transpose, copy and resize a matrix with integer
 elements

---
 include/mdds/multi_type_matrix_def.inl | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 75cedb3..422caae 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -409,6 +409,13 @@ multi_type_matrix<Traits>& multi_type_matrix<Traits>::transpose()
                     tmp.set(old_col_new_row, old_row_new_col, val);
                 }
                 break;
+                case mtm::element_integer:
+                {
+                    integer_type val;
+                    m_store.get(get_pos(old_row_new_col, old_col_new_row), val);
+                    tmp.set(old_col_new_row, old_row_new_col, val);
+                }
+                break;
                 case mtm::element_empty:
                     break;
                 default:
@@ -482,6 +489,14 @@ void multi_type_matrix<Traits>::copy(const multi_type_matrix& src)
                     blk_pos = m_store.set(pos_dest.first, logical_pos_dest, it, ite);
                 }
                 break;
+                case mtm::element_integer:
+                {
+                    auto it = src_node.template begin<integer_block_type>();
+                    auto ite = src_node.template end<integer_block_type>();
+
+                    blk_pos = m_store.set(pos_dest.first, logical_pos_dest, it, ite);
+                }
+                break;
                 case mtm::element_empty:
                 {
                     size_type end = logical_pos_dest + section_size - 1;
-- 
2.43.0


From 5e37454131c0eba6f8fb03f33d7e3f4ed8cdd6a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 46/53] fix: bounds check of the sub-range walks of
 multi_type_matrix

---
 include/mdds/multi_type_matrix_def.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 422caae..be40ae8 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -659,7 +659,7 @@ FuncT multi_type_matrix<Traits>::walk(FuncT func, const size_pair_type& start, c
         throw size_error(os.str());
     }
 
-    if (end.row > m_size.row || end.column > m_size.column)
+    if (end.row >= m_size.row || end.column >= m_size.column)
         throw size_error("multi_type_matrix: end position is out-of-bound.");
 
     size_t rows = end.row - start.row + 1;
@@ -743,8 +743,8 @@ FuncT multi_type_matrix<Traits>::walk(
         throw size_error(os.str());
     }
 
-    if (end.row > m_size.row || end.column > m_size.column || end.row > right.size().row ||
-        end.column > right.size().column)
+    if (end.row >= m_size.row || end.column >= m_size.column || end.row >= right.size().row ||
+        end.column >= right.size().column)
         throw size_error("multi_type_matrix: end position is out-of-bound.");
 
     size_t rows = end.row - start.row + 1;
-- 
2.43.0


From aa2049f5ff476fca784581274e44d16e71a9ac3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 47/53] fix: leave a moved-from multi_type_matrix with the size
 of its content

---
 include/mdds/multi_type_matrix.hpp     |  4 ++--
 include/mdds/multi_type_matrix_def.inl | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_matrix.hpp b/include/mdds/multi_type_matrix.hpp
index 41cc925..102bbec 100644
--- a/include/mdds/multi_type_matrix.hpp
+++ b/include/mdds/multi_type_matrix.hpp
@@ -242,7 +242,7 @@ public:
     /**
      * Move constructor.
      */
-    multi_type_matrix(multi_type_matrix&& other) = default;
+    multi_type_matrix(multi_type_matrix&& other) noexcept(std::is_nothrow_move_constructible_v<store_type>);
 
     /**
      * Destructor.
@@ -252,7 +252,7 @@ public:
     bool operator==(const multi_type_matrix& other) const noexcept(nothrow_eq_comparable_v);
 
     multi_type_matrix& operator=(const multi_type_matrix& other) = default;
-    multi_type_matrix& operator=(multi_type_matrix&& other) = default;
+    multi_type_matrix& operator=(multi_type_matrix&& other) noexcept(std::is_nothrow_move_assignable_v<store_type>);
 
     /**
      * Get a mutable reference of an element (position object) at specified
diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index be40ae8..11d5dcd 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -89,6 +89,24 @@ multi_type_matrix<Traits>::multi_type_matrix(const multi_type_matrix& other)
     : m_store(other.m_store), m_size(other.m_size)
 {}
 
+template<typename Traits>
+multi_type_matrix<Traits>::multi_type_matrix(multi_type_matrix&& other) noexcept(
+    std::is_nothrow_move_constructible_v<store_type>)
+    : m_store(std::move(other.m_store)), m_size(std::exchange(other.m_size, size_pair_type()))
+{}
+
+template<typename Traits>
+multi_type_matrix<Traits>& multi_type_matrix<Traits>::operator=(multi_type_matrix&& other) noexcept(
+    std::is_nothrow_move_assignable_v<store_type>)
+{
+    if (this == &other)
+        return *this;
+
+    m_store = std::move(other.m_store);
+    m_size = std::exchange(other.m_size, size_pair_type());
+    return *this;
+}
+
 template<typename Traits>
 bool multi_type_matrix<Traits>::operator==(const multi_type_matrix& r) const noexcept(nothrow_eq_comparable_v)
 {
-- 
2.43.0


From 4d6ec7b4371d69204fb7b35f02afb348e499ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:51 +0000
Subject: [PATCH 48/53] fix: reject reading the matrix element past the last
 one

---
 include/mdds/multi_type_matrix.hpp     |  6 ++++++
 include/mdds/multi_type_matrix_def.inl | 17 ++++++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/mdds/multi_type_matrix.hpp b/include/mdds/multi_type_matrix.hpp
index 102bbec..b14df52 100644
--- a/include/mdds/multi_type_matrix.hpp
+++ b/include/mdds/multi_type_matrix.hpp
@@ -817,6 +817,12 @@ private:
         return pos.first->position + pos.second;
     }
 
+    /**
+     * Get the position object of an element to read.  Unlike position(), it
+     * does not accept the position past the last element.
+     */
+    const_position_type get_read_position(size_type row, size_type col) const;
+
 private:
     store_type m_store;
     size_pair_type m_size;
diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 11d5dcd..2e280c9 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -177,7 +177,7 @@ mtm::element_t multi_type_matrix<Traits>::get_type(size_type row, size_type col)
 template<typename Traits>
 double multi_type_matrix<Traits>::get_numeric(size_type row, size_type col) const
 {
-    return get_numeric(m_store.position(get_pos(row, col)));
+    return get_numeric(get_read_position(row, col));
 }
 
 template<typename Traits>
@@ -209,7 +209,7 @@ template<typename Traits>
 typename multi_type_matrix<Traits>::integer_type multi_type_matrix<Traits>::get_integer(
     size_type row, size_type col) const
 {
-    return get_integer(m_store.position(get_pos(row, col)));
+    return get_integer(get_read_position(row, col));
 }
 
 template<typename Traits>
@@ -235,7 +235,7 @@ template<typename Traits>
 const typename multi_type_matrix<Traits>::string_type& multi_type_matrix<Traits>::get_string(
     size_type row, size_type col) const
 {
-    return get_string(m_store.position(get_pos(row, col)));
+    return get_string(get_read_position(row, col));
 }
 
 template<typename Traits>
@@ -801,4 +801,15 @@ FuncT multi_type_matrix<Traits>::walk(
     return func;
 }
 
+template<typename Traits>
+typename multi_type_matrix<Traits>::const_position_type multi_type_matrix<Traits>::get_read_position(
+    size_type row, size_type col) const
+{
+    const_position_type pos = m_store.position(get_pos(row, col));
+    if (pos.first == m_store.end())
+        throw std::out_of_range("multi_type_matrix: position is out of range.");
+
+    return pos;
+}
+
 } // namespace mdds
-- 
2.43.0


From 6ce5d8c19998b60870e099f747d418ae6ef981ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:21 +0000
Subject: [PATCH 49/53] fix: multi_type_matrix::get() throws when the element
 is of another type

---
 include/mdds/multi_type_matrix_def.inl | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_matrix_def.inl b/include/mdds/multi_type_matrix_def.inl
index 2e280c9..a8a6e5b 100644
--- a/include/mdds/multi_type_matrix_def.inl
+++ b/include/mdds/multi_type_matrix_def.inl
@@ -252,8 +252,13 @@ template<typename Traits>
 template<typename _T>
 _T multi_type_matrix<Traits>::get(size_type row, size_type col) const
 {
-    _T val;
-    m_store.get(get_pos(row, col), val);
+    _T val{};
+    size_type pos = get_pos(row, col);
+    mtv::element_t type = m_store.get_type(pos);
+    if (type != mtv::element_type_empty && type != store_type::get_element_type(val))
+        throw general_error("multi_type_matrix: element is not of the specified type.");
+
+    m_store.get(pos, val);
     return val;
 }
 
-- 
2.43.0


From 73426dbddbbd56c09c7673e1e77144549237acf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 50/53] fix: copying a managed element block leaks the copied
 elements when one of them throws

---
 include/mdds/multi_type_vector/types.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/mdds/multi_type_vector/types.hpp b/include/mdds/multi_type_vector/types.hpp
index 21b4489..58b6b2c 100644
--- a/include/mdds/multi_type_vector/types.hpp
+++ b/include/mdds/multi_type_vector/types.hpp
@@ -827,11 +827,12 @@ struct managed_element_block
     {}
     managed_element_block(size_t n) : base_type(n)
     {}
-    managed_element_block(const managed_element_block& r) : base_type()
+    managed_element_block(const managed_element_block& r) : managed_element_block(r.m_array.size())
     {
-        detail::reserve(m_array, r.m_array.size());
-        for (const auto& v : r.m_array)
-            m_array.push_back(new ValueT(*v));
+        // The delegated constructor has completed at this point, so the
+        // destructor deletes the elements copied so far should one throw.
+        std::transform(
+            r.m_array.begin(), r.m_array.end(), m_array.begin(), [](const ValueT* v) { return new ValueT(*v); });
     }
 
     template<typename Iter>
-- 
2.43.0


From 8e09048517d28bd156ee4183251ada421f7d331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 51/53] fix: cloning a managed element block leaks an element
 when its store fails to grow

---
 include/mdds/multi_type_vector/types.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/mdds/multi_type_vector/types.hpp b/include/mdds/multi_type_vector/types.hpp
index 58b6b2c..2a87956 100644
--- a/include/mdds/multi_type_vector/types.hpp
+++ b/include/mdds/multi_type_vector/types.hpp
@@ -269,7 +269,17 @@ struct clone_block<BlockT, std::void_t<decltype(clone_value<typename BlockT::val
             // carry state across the elements of the block.
             CV cloner;
             for (const auto& v : src.store())
-                dest_store.push_back(cloner(v));
+            {
+                if constexpr (std::is_pointer_v<value_type>)
+                {
+                    // Make room first, so that the new element is owned by
+                    // the block as soon as it exists.
+                    dest_store.push_back(nullptr);
+                    *std::prev(dest_store.end()) = cloner(v);
+                }
+                else
+                    dest_store.push_back(cloner(v));
+            }
 
             return dest_blk.release();
         }
-- 
2.43.0


From f426135ba71e0d9d3b15bb6f2efa360fbf0bf88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:37 +0000
Subject: [PATCH 52/53] fix: an allocation failure while sharing the blocks of
 a multi_type_vector leaks them

---
 include/mdds/multi_type_vector/soa/main_def.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mdds/multi_type_vector/soa/main_def.inl b/include/mdds/multi_type_vector/soa/main_def.inl
index b97b0fb..44c47a9 100644
--- a/include/mdds/multi_type_vector/soa/main_def.inl
+++ b/include/mdds/multi_type_vector/soa/main_def.inl
@@ -559,8 +559,9 @@ void multi_type_vector<Traits>::share() const
 
         // Transfer ownership of the blocks from the parent store to a shared
         // COW store.
-        m_cow_store = std::make_shared<shared_element_blocks>();
-        m_cow_store->blocks = m_block_store.element_blocks;
+        auto cow_store = std::make_shared<shared_element_blocks>();
+        cow_store->blocks = m_block_store.element_blocks;
+        m_cow_store = std::move(cow_store);
     }
 }
 
-- 
2.43.0


From b109333f327ee741dc8bba6ee94c5e2469f06df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:32 +0000
Subject: [PATCH 53/53] fix: flat_segment_tree::segment_range() changes
 reference counts of a const tree

The range held owning pointers to the leaf nodes at both ends, whose
reference counts are not atomic: two threads going through the segments
of a tree that nobody modifies could end up with a leaf node freed under
them.  The range now points to the nodes the way the iterators do.
---
 include/mdds/flat_segment_tree.hpp     | 6 +++---
 include/mdds/flat_segment_tree_def.inl | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/mdds/flat_segment_tree.hpp b/include/mdds/flat_segment_tree.hpp
index 3b74136..d9f21c4 100644
--- a/include/mdds/flat_segment_tree.hpp
+++ b/include/mdds/flat_segment_tree.hpp
@@ -126,11 +126,11 @@ public:
 
     class const_segment_range_type
     {
-        node_ptr m_left_leaf;
-        node_ptr m_right_leaf;
+        const node* m_left_leaf;
+        const node* m_right_leaf;
 
     public:
-        const_segment_range_type(node_ptr left_leaf, node_ptr right_leaf);
+        const_segment_range_type(const node* left_leaf, const node* right_leaf);
 
         const_segment_iterator begin() const;
         const_segment_iterator end() const;
diff --git a/include/mdds/flat_segment_tree_def.inl b/include/mdds/flat_segment_tree_def.inl
index 6031ce4..6e862c0 100644
--- a/include/mdds/flat_segment_tree_def.inl
+++ b/include/mdds/flat_segment_tree_def.inl
@@ -21,7 +21,7 @@ typename flat_segment_tree<Key, Value>::const_segment_iterator flat_segment_tree
 
 template<typename Key, typename Value>
 flat_segment_tree<Key, Value>::const_segment_range_type::const_segment_range_type(
-    node_ptr left_leaf, node_ptr right_leaf)
+    const node* left_leaf, const node* right_leaf)
     : m_left_leaf(left_leaf), m_right_leaf(right_leaf)
 {}
 
@@ -29,14 +29,14 @@ template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_segment_iterator flat_segment_tree<
     Key, Value>::const_segment_range_type::begin() const
 {
-    return const_segment_iterator(m_left_leaf.get(), m_left_leaf->next.get());
+    return const_segment_iterator(m_left_leaf, m_left_leaf->next.get());
 }
 
 template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_segment_iterator flat_segment_tree<
     Key, Value>::const_segment_range_type::end() const
 {
-    return const_segment_iterator(m_right_leaf.get(), nullptr);
+    return const_segment_iterator(m_right_leaf, nullptr);
 }
 
 template<typename Key, typename Value>
@@ -54,7 +54,7 @@ typename flat_segment_tree<Key, Value>::const_segment_iterator flat_segment_tree
 template<typename Key, typename Value>
 typename flat_segment_tree<Key, Value>::const_segment_range_type flat_segment_tree<Key, Value>::segment_range() const
 {
-    return const_segment_range_type(m_left_leaf, m_right_leaf);
+    return const_segment_range_type(m_left_leaf.get(), m_right_leaf.get());
 }
 
 template<typename Key, typename Value>
-- 
2.43.0

