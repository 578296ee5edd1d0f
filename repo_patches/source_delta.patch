From 4fd8ccb67b913909fa39bd5c1c9f3e270ff5a867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:57 +0000
Subject: [PATCH 01/13] fix: devector: free the allocated block (bos_) in
 reset()

---
 include/sfl/devector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 9c33ae8..eb279db 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -1394,7 +1394,7 @@ private:
         sfl::dtl::deallocate
         (
             data_.ref_to_alloc(),
-            data_.first_,
+            data_.bos_,
             std::distance(data_.bos_, data_.eos_)
         );
 
-- 
2.43.0


From 2263a9122af3a9f2fc55fd3fc791a781ccbe9732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:58 +0000
Subject: [PATCH 02/13] fix: devector: resize(n, value) with value referring to
 own element

---
 include/sfl/devector.hpp | 70 ++++++++++++++++++++++++++++------------
 1 file changed, 50 insertions(+), 20 deletions(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index eb279db..2578a0a 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -1014,6 +1014,8 @@ public:
                 }
                 else
                 {
+                    const value_type tmp(value);
+
                     grow_storage_back(n - (available_front + size + available_back));
 
                     data_.last_ = sfl::dtl::uninitialized_fill_n_a
@@ -1021,7 +1023,7 @@ public:
                         data_.ref_to_alloc(),
                         data_.last_,
                         n - (size + available_front),
-                        value
+                        tmp
                     );
 
                     sfl::dtl::uninitialized_fill_a
@@ -1029,7 +1031,7 @@ public:
                         data_.ref_to_alloc(),
                         data_.bos_,
                         data_.first_,
-                        value
+                        tmp
                     );
 
                     data_.first_ = data_.bos_;
@@ -1100,20 +1102,36 @@ public:
 
             if (n > size + available_front)
             {
+                const value_type tmp(value);
+
                 grow_storage_front(n - (size + available_front));
-            }
 
-            const pointer new_first = data_.first_ - (n - size);
+                const pointer new_first = data_.first_ - (n - size);
 
-            sfl::dtl::uninitialized_fill_a
-            (
-                data_.ref_to_alloc(),
-                new_first,
-                data_.first_,
-                value
-            );
+                sfl::dtl::uninitialized_fill_a
+                (
+                    data_.ref_to_alloc(),
+                    new_first,
+                    data_.first_,
+                    tmp
+                );
 
-            data_.first_ = new_first;
+                data_.first_ = new_first;
+            }
+            else
+            {
+                const pointer new_first = data_.first_ - (n - size);
+
+                sfl::dtl::uninitialized_fill_a
+                (
+                    data_.ref_to_alloc(),
+                    new_first,
+                    data_.first_,
+                    value
+                );
+
+                data_.first_ = new_first;
+            }
         }
     }
 
@@ -1175,16 +1193,28 @@ public:
 
             if (n > size + available_back)
             {
+                const value_type tmp(value);
+
                 grow_storage_back(n - (size + available_back));
-            }
 
-            data_.last_ = sfl::dtl::uninitialized_fill_n_a
-            (
-                data_.ref_to_alloc(),
-                data_.last_,
-                n - size,
-                value
-            );
+                data_.last_ = sfl::dtl::uninitialized_fill_n_a
+                (
+                    data_.ref_to_alloc(),
+                    data_.last_,
+                    n - size,
+                    tmp
+                );
+            }
+            else
+            {
+                data_.last_ = sfl::dtl::uninitialized_fill_n_a
+                (
+                    data_.ref_to_alloc(),
+                    data_.last_,
+                    n - size,
+                    value
+                );
+            }
         }
     }
 
-- 
2.43.0


From 4a0dc9dadf4992be68eb8c8cc0b11ea9979a3bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:58 +0000
Subject: [PATCH 03/13] fix: compact_vector: deallocate with the allocated size
 when assignment fails

---
 include/sfl/compact_vector.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/sfl/compact_vector.hpp b/include/sfl/compact_vector.hpp
index a1dadd1..72889ed 100644
--- a/include/sfl/compact_vector.hpp
+++ b/include/sfl/compact_vector.hpp
@@ -1205,7 +1205,16 @@ private:
             }
             SFL_CATCH (...)
             {
-                clear();
+                sfl::dtl::deallocate
+                (
+                    data_.ref_to_alloc(),
+                    data_.first_,
+                    n
+                );
+
+                data_.first_ = nullptr;
+                data_.last_  = nullptr;
+
                 SFL_RETHROW;
             }
         }
@@ -1266,7 +1275,16 @@ private:
             }
             SFL_CATCH (...)
             {
-                clear();
+                sfl::dtl::deallocate
+                (
+                    data_.ref_to_alloc(),
+                    data_.first_,
+                    n
+                );
+
+                data_.first_ = nullptr;
+                data_.last_  = nullptr;
+
                 SFL_RETHROW;
             }
         }
-- 
2.43.0


From 02577b1c12905f5f7ddac7856ab9054c84644ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:58 +0000
Subject: [PATCH 04/13] fix: compact_vector: resize(n, value) with value
 referring to own element

---
 include/sfl/compact_vector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sfl/compact_vector.hpp b/include/sfl/compact_vector.hpp
index 72889ed..90f0b73 100644
--- a/include/sfl/compact_vector.hpp
+++ b/include/sfl/compact_vector.hpp
@@ -842,6 +842,8 @@ public:
         {
             if (n > size())
             {
+                const value_type tmp(value);
+
                 new_last = sfl::dtl::uninitialized_move_if_noexcept_a
                 (
                     data_.ref_to_alloc(),
@@ -855,7 +857,7 @@ public:
                     data_.ref_to_alloc(),
                     new_last,
                     n - size(),
-                    value
+                    tmp
                 );
             }
             else if (n < size())
-- 
2.43.0


From 6c67b4dcb1b373286c9e437cc00bd48d33a6c131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:31 +0000
Subject: [PATCH 05/13] fix: devector: destroy the relocated elements when an
 insertion fails

---
 include/sfl/devector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 2578a0a..b1f4c5d 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -2773,7 +2773,7 @@ private:
                 );
 
                 const auto sg2 = sfl::dtl::make_scope_guard([&](){
-                    sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q10);
+                    sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q11);
                 });
 
                 if (p11 != q11)
-- 
2.43.0


From 2a23947bd49f9c2cc1eae95f252ab17056a3643c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:35 +0000
Subject: [PATCH 06/13] fix: devector: do not destroy live elements when an
 insertion fails

---
 include/sfl/devector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index b1f4c5d..9e0e6c7 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -3703,7 +3703,7 @@ private:
                     );
 
                     const auto sg1 = sfl::dtl::make_scope_guard([&](){
-                        sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q20);
+                        sfl::dtl::destroy_a(data_.ref_to_alloc(), q10, q11);
                     });
 
                     if (p11 != q11) // To avoid moving elements into themselves.
-- 
2.43.0


From 3c1089e66585c6cb4debd3eae49a30bf2b27a022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:14 +0000
Subject: [PATCH 07/13] fix: devector: insert(pos, n, value) with value
 referring to own element

---
 include/sfl/devector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sfl/devector.hpp b/include/sfl/devector.hpp
index 9e0e6c7..877b533 100644
--- a/include/sfl/devector.hpp
+++ b/include/sfl/devector.hpp
@@ -4079,7 +4079,9 @@ private:
 
     iterator insert_fill_n(const_iterator pos, size_type n, const T& value)
     {
-        insert_fill_n_proxy proxy(value);
+        const value_type tmp(value);
+
+        insert_fill_n_proxy proxy(tmp);
         return insert_aux(pos, n, proxy);
     }
 
-- 
2.43.0


From 9b5fbe368119dea73af75557cea3bcc2ea6af743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:23 +0000
Subject: [PATCH 08/13] fix: assignment of an initializer list sorts and
 removes duplicates in static flat sets and maps

static_flat_{set,map,multiset,multimap}::operator=(initializer_list) and
static_unordered_flat_{set,map}::operator=(initializer_list) copied the list
verbatim, leaving unsorted elements and equivalent keys behind.
---
 include/sfl/static_flat_map.hpp           | 4 +++-
 include/sfl/static_flat_multimap.hpp      | 4 +++-
 include/sfl/static_flat_multiset.hpp      | 4 +++-
 include/sfl/static_flat_set.hpp           | 4 +++-
 include/sfl/static_unordered_flat_map.hpp | 4 +++-
 include/sfl/static_unordered_flat_set.hpp | 4 +++-
 6 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/sfl/static_flat_map.hpp b/include/sfl/static_flat_map.hpp
index a2dd667..d106e17 100644
--- a/include/sfl/static_flat_map.hpp
+++ b/include/sfl/static_flat_map.hpp
@@ -305,7 +305,9 @@ public:
 
     static_flat_map& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        SFL_ASSERT(ilist.size() <= capacity());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_multimap.hpp b/include/sfl/static_flat_multimap.hpp
index 6a95c67..786d5e9 100644
--- a/include/sfl/static_flat_multimap.hpp
+++ b/include/sfl/static_flat_multimap.hpp
@@ -305,7 +305,9 @@ public:
 
     static_flat_multimap& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        SFL_ASSERT(ilist.size() <= capacity());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_multiset.hpp b/include/sfl/static_flat_multiset.hpp
index 702f09a..66f1831 100644
--- a/include/sfl/static_flat_multiset.hpp
+++ b/include/sfl/static_flat_multiset.hpp
@@ -251,7 +251,9 @@ public:
 
     static_flat_multiset& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        SFL_ASSERT(ilist.size() <= capacity());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_flat_set.hpp b/include/sfl/static_flat_set.hpp
index 5fe031c..691a774 100644
--- a/include/sfl/static_flat_set.hpp
+++ b/include/sfl/static_flat_set.hpp
@@ -251,7 +251,9 @@ public:
 
     static_flat_set& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        SFL_ASSERT(ilist.size() <= capacity());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_unordered_flat_map.hpp b/include/sfl/static_unordered_flat_map.hpp
index e56f4b0..d284579 100644
--- a/include/sfl/static_unordered_flat_map.hpp
+++ b/include/sfl/static_unordered_flat_map.hpp
@@ -303,7 +303,9 @@ public:
 
     static_unordered_flat_map& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        SFL_ASSERT(ilist.size() <= capacity());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
diff --git a/include/sfl/static_unordered_flat_set.hpp b/include/sfl/static_unordered_flat_set.hpp
index 5c61594..1e66380 100644
--- a/include/sfl/static_unordered_flat_set.hpp
+++ b/include/sfl/static_unordered_flat_set.hpp
@@ -248,7 +248,9 @@ public:
 
     static_unordered_flat_set& operator=(std::initializer_list<value_type> ilist)
     {
-        assign_range(ilist.begin(), ilist.end());
+        SFL_ASSERT(ilist.size() <= capacity());
+        clear();
+        insert(ilist.begin(), ilist.end());
         return *this;
     }
 
-- 
2.43.0


From 4d8a98abef5c3e27744bb1ee315b59089fceaaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:00 +0000
Subject: [PATCH 09/13] fix: unordered flat multiset and multimap: erase(key)
 with key referring to own element

---
 include/sfl/small_unordered_flat_multimap.hpp | 19 ++++++++++++++++---
 include/sfl/small_unordered_flat_multiset.hpp | 19 ++++++++++++++++---
 .../sfl/static_unordered_flat_multimap.hpp    | 19 ++++++++++++++++---
 .../sfl/static_unordered_flat_multiset.hpp    | 19 ++++++++++++++++---
 4 files changed, 64 insertions(+), 12 deletions(-)

diff --git a/include/sfl/small_unordered_flat_multimap.hpp b/include/sfl/small_unordered_flat_multimap.hpp
index c8711e0..e2d37e5 100644
--- a/include/sfl/small_unordered_flat_multimap.hpp
+++ b/include/sfl/small_unordered_flat_multimap.hpp
@@ -938,11 +938,22 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
+        // `key` may refer to an element of this container, so it must not be
+        // used after the first erasure. Other elements are compared to the
+        // first equal element, which stays in place until it is erased last.
 
-        for (auto it = begin(); it != end();)
+        const auto first = find(key);
+
+        if (first == end())
         {
-            if (data_.ref_to_equal()(*it, key))
+            return 0;
+        }
+
+        size_type n = 1;
+
+        for (auto it = std::next(first); it != end();)
+        {
+            if (data_.ref_to_equal()(*it, first->first))
             {
                 it = erase(it);
                 ++n;
@@ -953,6 +964,8 @@ public:
             }
         }
 
+        erase(first);
+
         return n;
     }
 
diff --git a/include/sfl/small_unordered_flat_multiset.hpp b/include/sfl/small_unordered_flat_multiset.hpp
index 000660c..88f9302 100644
--- a/include/sfl/small_unordered_flat_multiset.hpp
+++ b/include/sfl/small_unordered_flat_multiset.hpp
@@ -852,11 +852,22 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
+        // `key` may refer to an element of this container, so it must not be
+        // used after the first erasure. Other elements are compared to the
+        // first equal element, which stays in place until it is erased last.
 
-        for (auto it = begin(); it != end();)
+        const auto first = find(key);
+
+        if (first == end())
         {
-            if (data_.ref_to_equal()(*it, key))
+            return 0;
+        }
+
+        size_type n = 1;
+
+        for (auto it = std::next(first); it != end();)
+        {
+            if (data_.ref_to_equal()(*it, *first))
             {
                 it = erase(it);
                 ++n;
@@ -867,6 +878,8 @@ public:
             }
         }
 
+        erase(first);
+
         return n;
     }
 
diff --git a/include/sfl/static_unordered_flat_multimap.hpp b/include/sfl/static_unordered_flat_multimap.hpp
index 4356bcd..5a042c1 100644
--- a/include/sfl/static_unordered_flat_multimap.hpp
+++ b/include/sfl/static_unordered_flat_multimap.hpp
@@ -585,11 +585,22 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
+        // `key` may refer to an element of this container, so it must not be
+        // used after the first erasure. Other elements are compared to the
+        // first equal element, which stays in place until it is erased last.
 
-        for (auto it = begin(); it != end();)
+        const auto first = find(key);
+
+        if (first == end())
         {
-            if (data_.ref_to_equal()(*it, key))
+            return 0;
+        }
+
+        size_type n = 1;
+
+        for (auto it = std::next(first); it != end();)
+        {
+            if (data_.ref_to_equal()(*it, first->first))
             {
                 it = erase(it);
                 ++n;
@@ -600,6 +611,8 @@ public:
             }
         }
 
+        erase(first);
+
         return n;
     }
 
diff --git a/include/sfl/static_unordered_flat_multiset.hpp b/include/sfl/static_unordered_flat_multiset.hpp
index 26a1904..d707b0c 100644
--- a/include/sfl/static_unordered_flat_multiset.hpp
+++ b/include/sfl/static_unordered_flat_multiset.hpp
@@ -497,11 +497,22 @@ public:
 
     size_type erase(const Key& key)
     {
-        size_type n = 0;
+        // `key` may refer to an element of this container, so it must not be
+        // used after the first erasure. Other elements are compared to the
+        // first equal element, which stays in place until it is erased last.
 
-        for (auto it = begin(); it != end();)
+        const auto first = find(key);
+
+        if (first == end())
         {
-            if (data_.ref_to_equal()(*it, key))
+            return 0;
+        }
+
+        size_type n = 1;
+
+        for (auto it = std::next(first); it != end();)
+        {
+            if (data_.ref_to_equal()(*it, *first))
             {
                 it = erase(it);
                 ++n;
@@ -512,6 +523,8 @@ public:
             }
         }
 
+        erase(first);
+
         return n;
     }
 
-- 
2.43.0


From 5b3c747ef625b9db2b1b6238075284333350e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:56 +0000
Subject: [PATCH 10/13] fix: static_vector::insert(pos, first, last): assert
 pos for input iterators

The documented precondition was asserted only by the emplace() calls in the
loop, so an invalid position went unnoticed when the range is empty.
---
 include/sfl/static_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sfl/static_vector.hpp b/include/sfl/static_vector.hpp
index c993413..a47e2e8 100644
--- a/include/sfl/static_vector.hpp
+++ b/include/sfl/static_vector.hpp
@@ -704,6 +704,8 @@ public:
               sfl::dtl::enable_if_t<sfl::dtl::is_exactly_input_iterator<InputIt>::value>* = nullptr>
     iterator insert(const_iterator pos, InputIt first, InputIt last)
     {
+        SFL_ASSERT(cbegin() <= pos && pos <= cend());
+
         const difference_type offset = std::distance(cbegin(), pos);
 
         while (first != last)
-- 
2.43.0


From 17019186a02a489bb1c78fc78bd9fb9240d26286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:30 +0000
Subject: [PATCH 11/13] fix: static_unordered_flat_multiset: add the documented
 data() member

---
 include/sfl/static_unordered_flat_multiset.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/sfl/static_unordered_flat_multiset.hpp b/include/sfl/static_unordered_flat_multiset.hpp
index d707b0c..ffe9d75 100644
--- a/include/sfl/static_unordered_flat_multiset.hpp
+++ b/include/sfl/static_unordered_flat_multiset.hpp
@@ -729,6 +729,18 @@ public:
     // ---- ELEMENT ACCESS ----------------------------------------------------
     //
 
+    SFL_NODISCARD
+    value_type* data() noexcept
+    {
+        return data_.first_;
+    }
+
+    SFL_NODISCARD
+    const value_type* data() const noexcept
+    {
+        return data_.first_;
+    }
+
 private:
 
     template <typename ForwardIt,
-- 
2.43.0


From 7a4dfbcbb376e00c65700435e8973755085a169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:30 +0000
Subject: [PATCH 12/13] fix: segmented containers: swap must not exchange
 propagated allocators twice

---
 include/sfl/segmented_devector.hpp | 3 ++-
 include/sfl/segmented_vector.hpp   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index 45cd92e..e4f689a 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -1173,7 +1173,8 @@ public:
             swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
-        swap(this->data_, other.data_);
+        // Swap everything except allocator.
+        swap(static_cast<data_base&>(this->data_), static_cast<data_base&>(other.data_));
     }
 
 private:
diff --git a/include/sfl/segmented_vector.hpp b/include/sfl/segmented_vector.hpp
index d5c9e50..3432beb 100644
--- a/include/sfl/segmented_vector.hpp
+++ b/include/sfl/segmented_vector.hpp
@@ -805,7 +805,8 @@ public:
             swap(this->data_.ref_to_alloc(), other.data_.ref_to_alloc());
         }
 
-        swap(this->data_, other.data_);
+        // Swap everything except allocator.
+        swap(static_cast<data_base&>(this->data_), static_cast<data_base&>(other.data_));
     }
 
 private:
-- 
2.43.0


From 74f8ec25fdab4ebbd3629c987c42fb1002dcd24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:30 +0000
Subject: [PATCH 13/13] fix: segmented_devector: do not step before first
 element when inserting long range at end

---
 include/sfl/segmented_devector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sfl/segmented_devector.hpp b/include/sfl/segmented_devector.hpp
index e4f689a..846f1e1 100644
--- a/include/sfl/segmented_devector.hpp
+++ b/include/sfl/segmented_devector.hpp
@@ -2422,10 +2422,11 @@ private:
             }
 
             const iterator p1 = data_.first_ + dist_to_begin;
-            const iterator p2 = data_.last_ - n;
 
             if (dist_to_end > n)
             {
+                const iterator p2 = data_.last_ - n;
+
                 const iterator old_last = data_.last_;
 
                 data_.last_ = sfl::dtl::uninitialized_move_a
-- 
2.43.0

