From 20158405a5fd02c1e6b8522f3c5ea9cadb3f1548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:23 +0000
Subject: [PATCH 1/7] fix: pop_back erased one past the last element as far as
 the mixins were concerned

The finder passed to Erase was the insertion position for appending, so in a leaf
summed/min/max read the slot after the last element, and a persistent leaf was
copied with one element too many (never destroyed).
---
 include/bpptree/bpptree.hpp           | 2 +-
 include/bpptree/detail/operations.hpp | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index c15c013..f4b7a62 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -322,7 +322,7 @@ public:
 
         Value pop_back() {
             Value ret = this->self().back();
-            this->self().dispatch(Modify<Erase>(), find_last, Empty::empty);
+            this->self().dispatch(Modify<Erase>(), find_last_element, Empty::empty);
             return ret;
         }
 
diff --git a/include/bpptree/detail/operations.hpp b/include/bpptree/detail/operations.hpp
index c817d28..b614c22 100644
--- a/include/bpptree/detail/operations.hpp
+++ b/include/bpptree/detail/operations.hpp
@@ -71,6 +71,11 @@ inline constexpr auto find_last = [](auto const& node, Empty const&) {
     }
 };
 
+// unlike find_last, which is the insertion position for appending, this finds the last element itself
+inline constexpr auto find_last_element = [](auto const& node, Empty const&) {
+    return std::tuple<int32_t, Empty>(node.length - 1, Empty::empty);
+};
+
 inline constexpr auto find_iterator = [](auto const& node, uint64_t const& it) {
     return std::tuple<int32_t, uint64_t>(node.get_index(it), it);
 };
-- 
2.43.0


From c5b8898cbd8467df10da8007b1e99dff8455c7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:32 +0000
Subject: [PATCH 2/7] fix: operator< on reverse iterators held for equal
 positions

---
 include/bpptree/detail/iterator.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/detail/iterator.hpp b/include/bpptree/detail/iterator.hpp
index 694ddf9..fa4ecc0 100644
--- a/include/bpptree/detail/iterator.hpp
+++ b/include/bpptree/detail/iterator.hpp
@@ -264,7 +264,11 @@ struct IteratorDetail : public IteratorBase<Tree, is_const> {
             throw std::logic_error("cannot compare iterators from different trees");
         }
 #endif
-        return reverse ^ (iter + 1 < rhs.iter + 1);
+        if constexpr (reverse) {
+            return rhs.iter + 1 < iter + 1;
+        } else {
+            return iter + 1 < rhs.iter + 1;
+        }
     }
 
     template <typename RHS>
-- 
2.43.0


From 303fde90ca2f42aa31fd8f4f905348ae8e1fa569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:36 +0000
Subject: [PATCH 3/7] fix: build the element before shifting or summarising in
 insert and assign

Inserting a reference to an element of the same tree stored a neighbouring
element, and derived sums and minima were computed from the arguments rather
than from the element they convert to.
---
 include/bpptree/detail/leafnodebase.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index 45d659a..3e9ba73 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -148,28 +148,31 @@ struct LeafNodeBase : public Parent {
 
     template <typename R, typename S, typename... Args>
     void insert_index(IndexType index, R&& do_replace, S&& do_split, size_t& size, uint64_t& iter, bool right_most, Args&&... args) noexcept(disable_exceptions) {
+        // the element is built before anything else is done with the arguments: they may convert to Value with a change of
+        // value, and they may refer to an element that is about to be shifted
+        Value value(std::forward<Args>(args)...);
         ++size;
         if (this->length != leaf_size) {
             set_index(iter, index);
             ReplaceType replace{};
-            compute_delta_insert(index, replace.delta, args...);
+            compute_delta_insert(index, replace.delta, value);
             if (this->persistent) {
                 replace.delta.ptr = make_ptr<NodeType>();
                 replace.delta.ptr_changed = true;
-                insert_no_split(*replace.delta.ptr, index, std::forward<Args>(args)...);
+                insert_no_split(*replace.delta.ptr, index, std::move(value));
                 do_replace(replace);
             } else {
-                insert_no_split(this->self(), index, std::forward<Args>(args)...);
+                insert_no_split(this->self(), index, std::move(value));
                 do_replace(replace);
             }
         } else {
             auto right = make_ptr<NodeType>();
             if (this->persistent) {
                 NodePtr<NodeType> left = make_ptr<NodeType>();
-                bool new_element_left = insert_split(*left, *right, index, iter, right_most, std::forward<Args>(args)...);
+                bool new_element_left = insert_split(*left, *right, index, iter, right_most, std::move(value));
                 do_split(SplitType(std::move(left), std::move(right), true, new_element_left));
             } else {
-                bool new_element_left = insert_split(this->self(), *right, index, iter, right_most, std::forward<Args>(args)...);
+                bool new_element_left = insert_split(this->self(), *right, index, iter, right_most, std::move(value));
                 do_split(SplitType(&(this->self()), std::move(right), false, new_element_left));
             }
         }
@@ -183,16 +186,17 @@ struct LeafNodeBase : public Parent {
 
     template <typename R, typename... Args>
     void assign2(IndexType index, R&& do_replace, uint64_t& iter, Args&&... args) {
+        Value value(std::forward<Args>(args)...);
         set_index(iter, index);
         ReplaceType replace{};
-        compute_delta_set(index, replace.delta, args...);
+        compute_delta_set(index, replace.delta, value);
         if (this->persistent) {
             replace.delta.ptr = make_ptr<NodeType>(this->self());
             replace.delta.ptr_changed = true;
-            replace.delta.ptr->values.emplace(index, replace.delta.ptr->length, std::forward<Args>(args)...);
+            replace.delta.ptr->values.emplace(index, replace.delta.ptr->length, std::move(value));
             do_replace(replace);
         } else {
-            values.emplace_unchecked(index, std::forward<Args>(args)...);
+            values.emplace_unchecked(index, std::move(value));
             do_replace(replace);
         }
     }
-- 
2.43.0


From 79ed3401c49e839b0bf410dcef07b4afdb12224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:24 +0000
Subject: [PATCH 4/7] fix: data race between threads that share a persistent
 tree

Making a new version persistent wrote the persistent flag of every leaf it
shares with other versions, racing with threads that use those versions.
---
 include/bpptree/detail/leafnodebase.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index 3e9ba73..b1bda63 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -277,7 +277,10 @@ struct LeafNodeBase : public Parent {
     }
 
     void make_persistent() {
-        this->persistent = true;
+        // a leaf that is already persistent may be shared with other threads and must not be written to
+        if (!this->persistent) {
+            this->persistent = true;
+        }
     }
 
     void seek_first(uint64_t& it) const {
-- 
2.43.0


From 20582d85de82dd5346ecc034e64954996366ff51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:05 +0000
Subject: [PATCH 5/7] fix: editing a copy of a mutable tree changed the
 original

A copied Transient shared its nodes with the original without either knowing,
so edits through one handle were visible through the other and left its size
and iteration inconsistent.
---
 include/bpptree/bpptree.hpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/include/bpptree/bpptree.hpp b/include/bpptree/bpptree.hpp
index f4b7a62..f85a989 100644
--- a/include/bpptree/bpptree.hpp
+++ b/include/bpptree/bpptree.hpp
@@ -243,6 +243,34 @@ public:
         template <typename... Us>
         explicit Transient(Us&&... us) : Parent(std::forward<Us>(us)...) {}
 
+        // a copy shares all nodes with the original, so they must be marked as shared for edits to copy them first
+        Transient(Transient const& other) : Parent(static_cast<Parent const&>(other)), mod_count(other.mod_count) {
+            share_nodes();
+        }
+
+        Transient(Transient& other) : Transient(std::as_const(other)) {}
+
+        Transient(Transient&& other) = default;
+
+        Transient& operator=(Transient const& other) {
+            Parent::operator=(static_cast<Parent const&>(other));
+            share_nodes();
+            ++mod_count;
+            return *this;
+        }
+
+        Transient& operator=(Transient&& other) = default;
+
+        ~Transient() = default;
+
+    private:
+        void share_nodes() {
+            this->self().dispatch([](auto&, auto& root) {
+                root->make_persistent();
+            });
+        }
+
+    public:
         [[nodiscard]] Persistent persistent() const& {
             return Persistent(this->root_variant, this->tree_size);
         }
-- 
2.43.0


From 6d51b4c8f767481b29ed46bd7b659b465a45e313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:03 +0000
Subject: [PATCH 6/7] fix: an insertion refused at the maximum depth lost
 elements

The nodes on the path had already been split when the exception was thrown,
and the size had been incremented.
---
 include/bpptree/detail/internalnodebase.hpp |  4 ++++
 include/bpptree/detail/leafnodebase.hpp     |  4 ++++
 include/bpptree/detail/modify.hpp           | 10 ++++++++++
 include/bpptree/detail/operations.hpp       | 12 ++++++++++++
 4 files changed, 30 insertions(+)

diff --git a/include/bpptree/detail/internalnodebase.hpp b/include/bpptree/detail/internalnodebase.hpp
index 56ec30a..7f635ff 100644
--- a/include/bpptree/detail/internalnodebase.hpp
+++ b/include/bpptree/detail/internalnodebase.hpp
@@ -442,6 +442,10 @@ struct InternalNodeBase : public Parent {
         return pointers[get_index(it)]->get_iter(it);
     }
 
+    [[nodiscard]] bool is_full() const {
+        return this->length == internal_size;
+    }
+
     void make_persistent() {
         if (!this->persistent) {
             this->persistent = true;
diff --git a/include/bpptree/detail/leafnodebase.hpp b/include/bpptree/detail/leafnodebase.hpp
index b1bda63..279a2f2 100644
--- a/include/bpptree/detail/leafnodebase.hpp
+++ b/include/bpptree/detail/leafnodebase.hpp
@@ -276,6 +276,10 @@ struct LeafNodeBase : public Parent {
         return values[get_index(it)];
     }
 
+    [[nodiscard]] bool is_full() const {
+        return this->length == leaf_size;
+    }
+
     void make_persistent() {
         // a leaf that is already persistent may be shared with other threads and must not be written to
         if (!this->persistent) {
diff --git a/include/bpptree/detail/modify.hpp b/include/bpptree/detail/modify.hpp
index c43b772..3dffc56 100644
--- a/include/bpptree/detail/modify.hpp
+++ b/include/bpptree/detail/modify.hpp
@@ -83,6 +83,7 @@ struct ModifyTypes {
                 tree.root_variant = std::move(root_node);
             } else {
 #ifdef BPPTREE_SAFETY_CHECKS
+                --tree.tree_size;
                 throw std::logic_error("maximum depth exceeded");
 #endif
             }
@@ -105,6 +106,15 @@ struct ModifyTypes {
         template <typename TreeType, typename NodeType, typename F, typename T, typename... Us>
         uint64_t operator()(TreeType& tree, NodePtr<NodeType>& root, F&& finder, T const& search_val, Us&&... params) {
             uint64_t ret = 0;
+#ifdef BPPTREE_SAFETY_CHECKS
+            // DoSplit refuses to split a full root at the maximum depth. Persistent nodes are copied rather than
+            // modified, so marking them persistent first leaves the tree unchanged in that case.
+            if constexpr (Operation::can_split && NodeType::depth == max_depth) {
+                if (root->is_full()) {
+                    root->make_persistent();
+                }
+            }
+#endif
             Operation()(*root, search_val, finder,
                 DoReplace<TreeType, NodeType>(tree, root),
                 DoSplit<TreeType, NodeType>(tree, root, ret),
diff --git a/include/bpptree/detail/operations.hpp b/include/bpptree/detail/operations.hpp
index b614c22..4bf15ce 100644
--- a/include/bpptree/detail/operations.hpp
+++ b/include/bpptree/detail/operations.hpp
@@ -15,6 +15,8 @@
 namespace bpptree::detail {
 
 struct Assign {
+    static constexpr bool can_split = false;
+
     template<typename N, typename T, typename F, typename R, typename S, typename E, typename... Args>
     void operator()(N& node, T const &search_val, F const& finder, R&& do_replace, S&&, E&&, size_t&, uint64_t& iter, bool, Args&&... args) {
         node.assign(search_val, finder, do_replace, iter, std::forward<decltype(args)>(args)...);
@@ -22,6 +24,8 @@ struct Assign {
 };
 
 struct Erase {
+    static constexpr bool can_split = false;
+
     template<typename N, typename T, typename F, typename R, typename S, typename E>
     void operator()(N& node, T const &search_val, F const& finder, R&& do_replace, S&&, E&& do_erase, size_t& size, uint64_t& iter, bool right_most) {
         node.erase(search_val, finder, do_replace, do_erase, size, iter, right_most);
@@ -29,6 +33,8 @@ struct Erase {
 };
 
 struct Insert {
+    static constexpr bool can_split = true;
+
     template<typename N, typename T, typename F, typename R, typename S, typename E, typename... Args>
     void operator()(N& node, T const &search_val, F const& finder, R&& do_replace, S&& do_split, E&&, size_t &size, uint64_t& iter, bool right_most, Args&&... args) {
         node.insert(search_val, finder, do_replace, do_split, size, iter, right_most, std::forward<decltype(args)>(args)...);
@@ -36,6 +42,8 @@ struct Insert {
 };
 
 struct Update {
+    static constexpr bool can_split = false;
+
     template<typename N, typename T, typename F, typename R, typename S, typename E, typename U>
     void operator()(N& node, T const &search_val, F const& finder, R&& do_replace, S&&, E&&, size_t&, uint64_t& iter, bool, U&& updater) {
         node.update(search_val, finder, do_replace, iter, updater);
@@ -43,6 +51,8 @@ struct Update {
 };
 
 struct Update2 {
+    static constexpr bool can_split = false;
+
     template<typename N, typename T, typename F, typename R, typename S, typename E, typename U>
     void operator()(N& node, T const &search_val, F const& finder, R&& do_replace, S&&, E&&, size_t&, uint64_t& iter, bool, U&& updater) {
         node.update2(search_val, finder, do_replace, iter, updater);
@@ -51,6 +61,8 @@ struct Update2 {
 
 template <DuplicatePolicy duplicate_policy>
 struct InsertOrAssign {
+    static constexpr bool can_split = true;
+
     template<typename N, typename T, typename F, typename R, typename S, typename E, typename... Args>
     void operator()(N& node, T const &search_val, F const& finder, R&& do_replace, S&& do_split, E&&,
             size_t &size, uint64_t& iter, bool right_most, Args&&... args) {
-- 
2.43.0


From 84afa5f04eb41b1acf8512ce2d974ca7f85037f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:41 +0000
Subject: [PATCH 7/7] fix: options given after disable_exceptions reset it to
 the default

BppTreeMap, BppTreeSet and BppTreeVector dropped disable_exceptions_v in their other option aliases, so that for
example disable_exceptions<false>::compare<C> terminated on an exception when the default is true.
---
 include/bpptree/indexed.hpp |  8 ++++----
 include/bpptree/ordered.hpp | 20 ++++++++++----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/bpptree/indexed.hpp b/include/bpptree/indexed.hpp
index 6f1b971..bea62cb 100644
--- a/include/bpptree/indexed.hpp
+++ b/include/bpptree/indexed.hpp
@@ -323,16 +323,16 @@ template <
 struct BppTreeVector {
 
     template <typename T>
-    using size_type = BppTreeVector<Value, T, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using size_type = BppTreeVector<Value, T, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int l>
-    using leaf_node_bytes = BppTreeVector<Value, SizeType, l, internal_node_bytes_v, depth_limit_v>;
+    using leaf_node_bytes = BppTreeVector<Value, SizeType, l, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int i>
-    using internal_node_bytes = BppTreeVector<Value, SizeType, leaf_node_bytes_v, i, depth_limit_v>;
+    using internal_node_bytes = BppTreeVector<Value, SizeType, leaf_node_bytes_v, i, depth_limit_v, disable_exceptions_v>;
 
     template <int d>
-    using depth_limit = BppTreeVector<Value, SizeType, leaf_node_bytes_v, internal_node_bytes_v, d>;
+    using depth_limit = BppTreeVector<Value, SizeType, leaf_node_bytes_v, internal_node_bytes_v, d, disable_exceptions_v>;
 
     template <bool b>
     using disable_exceptions = BppTreeVector<Value, SizeType, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, b>;
diff --git a/include/bpptree/ordered.hpp b/include/bpptree/ordered.hpp
index e905b32..280f89d 100644
--- a/include/bpptree/ordered.hpp
+++ b/include/bpptree/ordered.hpp
@@ -421,19 +421,19 @@ template <
 struct BppTreeMap {
 
     template <typename T>
-    using compare = BppTreeMap<Key, Value, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using compare = BppTreeMap<Key, Value, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <bool b>
-    using binary_search = BppTreeMap<Key, Value, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using binary_search = BppTreeMap<Key, Value, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int l>
-    using leaf_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v>;
+    using leaf_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int i>
-    using internal_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v>;
+    using internal_node_bytes = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v, disable_exceptions_v>;
 
     template <int d>
-    using depth_limit = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d>;
+    using depth_limit = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d, disable_exceptions_v>;
 
     template <bool b>
     using disable_exceptions = BppTreeMap<Key, Value, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, b>;
@@ -467,19 +467,19 @@ template <
 struct BppTreeSet {
 
     template <typename T>
-    using compare = BppTreeSet<Key, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using compare = BppTreeSet<Key, T, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <bool b>
-    using binary_search = BppTreeSet<Key, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v>;
+    using binary_search = BppTreeSet<Key, Compare, b, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int l>
-    using leaf_node_bytes = BppTreeSet<Key, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v>;
+    using leaf_node_bytes = BppTreeSet<Key, Compare, binary_search_v, l, internal_node_bytes_v, depth_limit_v, disable_exceptions_v>;
 
     template <int i>
-    using internal_node_bytes = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v>;
+    using internal_node_bytes = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, i, depth_limit_v, disable_exceptions_v>;
 
     template <int d>
-    using depth_limit = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d>;
+    using depth_limit = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, d, disable_exceptions_v>;
 
     template <bool b>
     using disable_exceptions = BppTreeSet<Key, Compare, binary_search_v, leaf_node_bytes_v, internal_node_bytes_v, depth_limit_v, b>;
-- 
2.43.0

