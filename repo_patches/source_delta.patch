From a296314ba4bf52ee734085240bf448913f544a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 01/11] fix: include every standard header seq.hpp uses

---
 include/boost/segmented_tree/seq.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 06ea217..76648ce 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -9,9 +9,16 @@
 
 #include <algorithm>
 #include <array>
+#include <cstddef>
+#include <cstdint>
 #include <cstring>
 #include <functional>
+#include <initializer_list>
+#include <iterator>
 #include <limits>
+#include <memory>
+#include <new>
+#include <stdexcept>
 #include <type_traits>
 #include <utility>
 
-- 
2.43.0


From 328488e46cb1c1be13687c2760ef2d18b62b47be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 02/11] fix: do not deallocate a null segment when purging an
 empty sequence

---
 include/boost/segmented_tree/seq.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 76648ce..8ca7e4f 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1237,7 +1237,10 @@ class seq {
   }
 
   // purge
-  void purge() { purge_root(get_root(), get_size(), get_height()); }
+  void purge() {
+    if (get_root() != nullptr)
+      purge_root(get_root(), get_size(), get_height());
+  }
 
   void purge_segment(element_pointer, size_type, std::true_type) {}
 
-- 
2.43.0


From bc58a0dd4002016053b0aea5c7e790c5a4af6c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 03/11] fix: before_segment(count) moves count elements before
 the previous segment's last

---
 include/boost/segmented_tree/seq.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 8ca7e4f..c2d0ead 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -702,8 +702,8 @@ struct static_traits_t {
   }
 
   static void move_before_segment_count(iterator_data& it, size_type count) {
-    it.pos -= it.entry.segment.index + 1 - count;
-    move_prev_leaf_count(it.entry, count);
+    it.pos -= it.entry.segment.index + 1 + count;
+    move_prev_leaf_count(it.entry, count + 1);
   }
 };
 }
-- 
2.43.0


From 678bdb1545af23a40db821f3c57892b93416d938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 04/11] fix: insert(pos, count, value) and resize(count, value)
 accept an element of *this

---
 include/boost/segmented_tree/seq.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index c2d0ead..1a637b8 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3130,7 +3130,9 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   iterator insert(const_iterator pos, size_type count, T const& value) {
-    return emplace_count(pos.it_, count, value);
+    // value may refer to an element of *this.
+    value_type const copy(value);
+    return emplace_count(pos.it_, count, copy);
   }
 
   /// \par Effects
@@ -3369,7 +3371,9 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void resize(size_type count, value_type const& value) {
-    resize_count(count, value);
+    // value may refer to an element of *this.
+    value_type const copy(value);
+    resize_count(count, copy);
   }
 
   /// \par Effects
-- 
2.43.0


From 3d29c2e6d513c6d5a72d5fbb9253577aaa59299d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 05/11] fix: splice of a single element moves it instead of
 copying it

---
 include/boost/segmented_tree/seq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 1a637b8..2666459 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -3514,7 +3514,7 @@ class seq {
   /// \par Exception safety
   ///   Basic.
   void splice(const_iterator pos, seq& other, const_iterator it) {
-    insert(pos, std::move(*it));
+    insert(pos, std::move(*iterator{it.it_}));
     other.erase(it);
   }
 
-- 
2.43.0


From e75f32ae553098bc8f866131ee73a73ce284d51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 06/11] fix: never give an index node more children than its 16
 bit length can count

---
 include/boost/segmented_tree/seq.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 2666459..9c22eaa 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -112,12 +112,18 @@ struct static_traits_t {
     return base_free() / sizeof(node_data);
   }
 
+  // A node stores its length and parent index as 16 bit integers.
+  static constexpr std::size_t index_max() {
+    return (std::numeric_limits<std::uint16_t>::max)();
+  }
+
   static constexpr std::size_t segment_max() {
     return segment_fit() > 1 ? segment_fit() : 1;
   }
 
   static constexpr std::size_t base_max() {
-    return base_fit() > 3 ? base_fit() : 3;
+    return base_fit() > 3 ? (base_fit() < index_max() ? base_fit() : index_max())
+                          : 3;
   }
 
   static constexpr std::size_t segment_min() { return (segment_max() + 1) / 2; }
-- 
2.43.0


From 28f60ac386eb3b79bbf595fe26209be29a06b6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 07/11] fix: leave an empty sequence empty when constructing
 its first element throws

---
 include/boost/segmented_tree/seq.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 9c22eaa..e87d8eb 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -1638,10 +1638,15 @@ class seq {
 
     if (pointer == nullptr) {
       auto alloc = allocate_segment();
+      try {
+        construct_segment(alloc, 0, std::move(value));
+      } catch (...) {
+        deallocate_segment(alloc);
+        throw;
+      }
       get_root() = alloc;
       get_size() = 1;
       get_height() = 1;
-      construct_segment(alloc, 0, std::move(value));
       entry.segment.pointer = alloc;
       entry.segment.length = 1;
       return;
-- 
2.43.0


From 70bf1863148d8e58c256f2c9e1bf564c708cf995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 08/11] fix: resize removes the elements it already added when
 adding one throws

---
 include/boost/segmented_tree/seq.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index e87d8eb..d7158e7 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -2241,8 +2241,14 @@ class seq {
     auto last = find_end();
     if (count < sz)
       erase_range(find_index(count), last);
-    else
-      emplace_count(last, count - sz, std::forward<Args>(args)...);
+    else {
+      try {
+        emplace_count(last, count - sz, std::forward<Args>(args)...);
+      } catch (...) {
+        erase_range(nth(sz).it_, find_end());
+        throw;
+      }
+    }
   }
 
   void copy_assign_alloc(seq const& other) {
-- 
2.43.0


From db6aac1520f445e5ae4d7366102e24cfd35eee5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 09/11] fix: let iterator and const_iterator be compared and
 subtracted in either order

---
 include/boost/segmented_tree/seq.hpp | 37 ++++++++++++++--------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index d7158e7..36481e0 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -933,8 +933,9 @@ class iterator_t {
   ///
   /// \par Complexity
   ///   Constant.
-  difference_type operator-(iterator_t const& other) const {
-    return static_traits::difference(it_, other.it_);
+  friend difference_type operator-(iterator_t const& it,
+                                   iterator_t const& other) {
+    return static_traits::difference(it.it_, other.it_);
   }
 
   /// \par Effects
@@ -1065,8 +1066,8 @@ class iterator_t {
   ///
   /// \par Complexity
   ///   Constant.
-  bool operator!=(iterator_t const& other) const {
-    return it_.pos != other.it_.pos;
+  friend bool operator!=(iterator_t const& it, iterator_t const& other) {
+    return it.it_.pos != other.it_.pos;
   }
 
   /// \par Returns
@@ -1074,46 +1075,46 @@ class iterator_t {
   ///
   /// \par Complexity
   ///   Constant.
-  bool operator==(iterator_t const& other) const {
-    return it_.pos == other.it_.pos;
+  friend bool operator==(iterator_t const& it, iterator_t const& other) {
+    return it.it_.pos == other.it_.pos;
   }
 
   /// \par Returns
-  ///   True if *this points to an element before other. False otherwise.
+  ///   True if it points to an element before other. False otherwise.
   ///
   /// \par Complexity
   ///   Constant.
-  bool operator<(iterator_t const& other) const {
-    return it_.pos < other.it_.pos;
+  friend bool operator<(iterator_t const& it, iterator_t const& other) {
+    return it.it_.pos < other.it_.pos;
   }
 
   /// \par Returns
-  ///   True if *this points to an element after other. False otherwise.
+  ///   True if it points to an element after other. False otherwise.
   ///
   /// \par Complexity
   ///   Constant.
-  bool operator>(iterator_t const& other) const {
-    return it_.pos > other.it_.pos;
+  friend bool operator>(iterator_t const& it, iterator_t const& other) {
+    return it.it_.pos > other.it_.pos;
   }
 
   /// \par Returns
-  ///   True if *this points to the same element or before other. False
+  ///   True if it points to the same element or before other. False
   ///   otherwise.
   ///
   /// \par Complexity
   ///   Constant.
-  bool operator<=(iterator_t const& other) const {
-    return it_.pos <= other.it_.pos;
+  friend bool operator<=(iterator_t const& it, iterator_t const& other) {
+    return it.it_.pos <= other.it_.pos;
   }
 
   /// \par Returns
-  ///   True if *this points to the same element or after other. False
+  ///   True if it points to the same element or after other. False
   ///   otherwise.
   ///
   /// \par Complexity
   ///   Constant.
-  bool operator>=(iterator_t const& other) const {
-    return it_.pos >= other.it_.pos;
+  friend bool operator>=(iterator_t const& it, iterator_t const& other) {
+    return it.it_.pos >= other.it_.pos;
   }
 
   /// \par Returns
-- 
2.43.0


From eebe1b9a2a3a4ea78798caf44075355de5f14645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 10/11] fix: seq works with allocators that cannot be swapped

---
 include/boost/segmented_tree/seq.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 36481e0..2a0eb1c 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -35,16 +35,19 @@ namespace is_nothrow_swappable_impl {
 using std::swap;
 
 template <typename T>
-struct test {
-  static bool const value =
-      noexcept(swap(std::declval<T&>(), std::declval<T&>()));
-};
+std::integral_constant<bool, noexcept(swap(std::declval<T&>(),
+                                           std::declval<T&>()))>
+test(int);
+
+// A type that cannot be swapped at all is not nothrow swappable.
+template <typename T>
+std::false_type test(...);
 }
 
 template <typename T>
 struct is_nothrow_swappable
-    : std::integral_constant<bool, is_nothrow_swappable_impl::test<T>::value> {
-};
+    : std::integral_constant<
+          bool, decltype(is_nothrow_swappable_impl::test<T>(0))::value> {};
 
 template <typename T, typename Alloc>
 struct is_alloc_move_construct_default {
-- 
2.43.0


From e87adf65418e0665513cafbb6b2b825a944e446d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:24 +0000
Subject: [PATCH 11/11] fix: destroy trivially destructible elements through
 the allocator's destroy when it has one

---
 include/boost/segmented_tree/seq.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/boost/segmented_tree/seq.hpp b/include/boost/segmented_tree/seq.hpp
index 2a0eb1c..4bac798 100644
--- a/include/boost/segmented_tree/seq.hpp
+++ b/include/boost/segmented_tree/seq.hpp
@@ -64,6 +64,20 @@ struct is_alloc_move_construct_default {
       decltype(test<Alloc>(std::declval<Alloc>()))::value;
 };
 
+template <typename T, typename Alloc>
+struct is_alloc_destroy_default {
+ private:
+  template <typename U>
+  static auto test(U alloc)
+      -> decltype(alloc.destroy(std::declval<T*>()), std::false_type{});
+  template <typename>
+  static std::true_type test(...);
+
+ public:
+  static bool constexpr value =
+      decltype(test<Alloc>(std::declval<Alloc>()))::value;
+};
+
 template <typename T, typename VoidPointer, typename SizeType,
           std::size_t segment_target, std::size_t base_target>
 struct static_traits_t {
@@ -1261,8 +1275,12 @@ class seq {
   void purge_segment(element_pointer pointer, size_type sz) {
     purge_segment(
         pointer, sz,
-        std::integral_constant<bool,
-                               std::is_trivially_destructible<T>::value>{});
+        std::integral_constant < bool,
+        std::is_trivially_destructible<T>::value &&
+            (std::is_same<allocator_type, std::allocator<value_type>>::value ||
+             detail::is_alloc_destroy_default<value_type,
+                                              allocator_type>::value) >
+                {});
     deallocate_segment(pointer);
   }
 
-- 
2.43.0

