From ce05c1358120fe5e65dadd0ac93d9e49d54c7d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:53 +0000
Subject: [PATCH 01/55] fix: static_string copies whole characters, not bytes,
 for wide character types

---
 include/dice/template-library/static_string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index c05fa48..c1d0c11 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -49,7 +49,7 @@ namespace dice::template_library {
 
             if (size_ != 0) {
                 data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-                std::memcpy(std::to_address(data_), std::to_address(other.data_), size_);
+                std::memcpy(std::to_address(data_), std::to_address(other.data_), size_ * sizeof(value_type));
             } else {
                 data_ = nullptr;
             }
@@ -69,7 +69,7 @@ namespace dice::template_library {
             }
 
             data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-            std::memcpy(std::to_address(data_), sv.data(), size_);
+            std::memcpy(std::to_address(data_), sv.data(), size_ * sizeof(value_type));
         }
 
         basic_static_string(basic_static_string const &other) : basic_static_string{static_cast<view_type>(other), other.alloc_} {
-- 
2.43.0


From 2e4a8bdf56215216c05cc68bbcda2714d2020b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:53 +0000
Subject: [PATCH 02/55] fix: static_string copy assignment releases its buffer
 with the allocator that owns it

---
 .../dice/template-library/static_string.hpp    | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index c1d0c11..448ce00 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -40,18 +40,21 @@ namespace dice::template_library {
             swap(a.size_, b.size_);
         }
 
-        void copy_assign_from_other(basic_static_string const &other) {
-            if (size_ != 0) {
+        void release_data() noexcept {
+            if (data_ != nullptr) {
                 std::allocator_traits<allocator_type>::deallocate(alloc_, data_, size_);
+                data_ = nullptr;
+                size_ = 0;
             }
+        }
 
-            size_ = other.size_;
+        void copy_assign_from_other(basic_static_string const &other) {
+            release_data();
 
-            if (size_ != 0) {
-                data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
+            if (other.size_ != 0) {
+                data_ = std::allocator_traits<allocator_type>::allocate(alloc_, other.size_);
+                size_ = other.size_;
                 std::memcpy(std::to_address(data_), std::to_address(other.data_), size_ * sizeof(value_type));
-            } else {
-                data_ = nullptr;
             }
         }
 
@@ -81,6 +84,7 @@ namespace dice::template_library {
             }
 
             if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value) {
+                release_data(); // must happen while alloc_ is still the allocator that allocated data_
                 alloc_ = other.alloc_;
             }
 
-- 
2.43.0


From 93554f2f404e9b9c6fb24c22c6f7fa264d71b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:18 +0000
Subject: [PATCH 03/55] fix: variant2 assignment is trivial only if
 construction and destruction are trivial as well

---
 include/dice/template-library/variant2.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 9f672f8..86ecb64 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -327,14 +327,18 @@ namespace dice::template_library {
         }
 
         constexpr variant2 &operator=(variant2 const &other) noexcept
-            requires (std::is_trivially_copy_assignable_v<T> && std::is_trivially_copy_assignable_v<U>)
+            requires (std::is_trivially_copy_assignable_v<T> && std::is_trivially_copy_assignable_v<U>
+                      && std::is_trivially_copy_constructible_v<T> && std::is_trivially_copy_constructible_v<U>
+                      && std::is_trivially_destructible_v<T> && std::is_trivially_destructible_v<U>)
             = default;
 
         constexpr variant2 &
         operator=(variant2 const &other) noexcept(std::is_nothrow_copy_assignable_v<T> && std::is_nothrow_destructible_v<T>
                                                   && std::is_nothrow_copy_constructible_v<T> && std::is_nothrow_copy_assignable_v<U>
                                                   && std::is_nothrow_destructible_v<U> && std::is_nothrow_copy_constructible_v<U>)
-            requires (!std::is_trivially_copy_assignable_v<T> || !std::is_trivially_copy_assignable_v<U>)
+            requires (!std::is_trivially_copy_assignable_v<T> || !std::is_trivially_copy_assignable_v<U>
+                      || !std::is_trivially_copy_constructible_v<T> || !std::is_trivially_copy_constructible_v<U>
+                      || !std::is_trivially_destructible_v<T> || !std::is_trivially_destructible_v<U>)
         {
             if (this == &other) [[unlikely]] {
                 return *this;
@@ -418,14 +422,18 @@ namespace dice::template_library {
         }
 
         constexpr variant2 &operator=(variant2 &&other) noexcept
-            requires (std::is_trivially_move_assignable_v<T> && std::is_trivially_move_assignable_v<U>)
+            requires (std::is_trivially_move_assignable_v<T> && std::is_trivially_move_assignable_v<U>
+                      && std::is_trivially_move_constructible_v<T> && std::is_trivially_move_constructible_v<U>
+                      && std::is_trivially_destructible_v<T> && std::is_trivially_destructible_v<U>)
             = default;
 
         constexpr variant2 &
         operator=(variant2 &&other) noexcept(std::is_nothrow_move_assignable_v<T> && std::is_nothrow_destructible_v<T>
                                              && std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<U>
                                              && std::is_nothrow_destructible_v<U> && std::is_nothrow_move_constructible_v<U>)
-            requires (!std::is_trivially_move_assignable_v<T> || !std::is_trivially_move_assignable_v<U>)
+            requires (!std::is_trivially_move_assignable_v<T> || !std::is_trivially_move_assignable_v<U>
+                      || !std::is_trivially_move_constructible_v<T> || !std::is_trivially_move_constructible_v<U>
+                      || !std::is_trivially_destructible_v<T> || !std::is_trivially_destructible_v<U>)
         {
             assert(this != &other);
 
-- 
2.43.0


From 353c668979ca9046c31de7f0ff00f7dc1588c22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:18 +0000
Subject: [PATCH 04/55] fix: variant2 rvalue constructors are noexcept only if
 moving is noexcept

---
 include/dice/template-library/variant2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 86ecb64..0540400 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -261,7 +261,7 @@ namespace dice::template_library {
             new (&a_) T{value};
         }
 
-        constexpr variant2(T &&value) noexcept(std::is_nothrow_copy_constructible_v<T>)
+        constexpr variant2(T &&value) noexcept(std::is_nothrow_move_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
             new (&a_) T{std::move(value)};
         }
@@ -271,7 +271,7 @@ namespace dice::template_library {
             new (&b_) U{value};
         }
 
-        constexpr variant2(U &&value) noexcept(std::is_nothrow_copy_constructible_v<U>)
+        constexpr variant2(U &&value) noexcept(std::is_nothrow_move_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
             new (&b_) U{std::move(value)};
         }
-- 
2.43.0


From 29b79c13e68de14042dc09b0b2d96dd125adce5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:18 +0000
Subject: [PATCH 05/55] fix: hashing a valueless variant2 does not terminate

---
 include/dice/template-library/variant2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 0540400..17fa24c 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -41,6 +41,10 @@ namespace std {
     template<typename T, typename U>
     struct hash<::dice::template_library::variant2<T, U>> {
         [[nodiscard]] size_t operator()(::dice::template_library::variant2<T, U> const &var) const noexcept {
+            if (var.valueless_by_exception()) [[unlikely]] {
+                return static_cast<size_t>(-1);
+            }
+
             return visit([]<typename X>(X const &x) noexcept {
                 // this is as far as I can tell what std::variant does
                 if constexpr (std::is_same_v<X, T>) {
-- 
2.43.0


From 13c33fddab6f8091017d2e01a5e6bf08e62c64f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:18 +0000
Subject: [PATCH 06/55] fix: inplace_polymorphic with trivially destructible
 types can be reassigned

---
 include/dice/template-library/inplace_polymorphic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/inplace_polymorphic.hpp b/include/dice/template-library/inplace_polymorphic.hpp
index d354c6c..3303d46 100644
--- a/include/dice/template-library/inplace_polymorphic.hpp
+++ b/include/dice/template-library/inplace_polymorphic.hpp
@@ -77,7 +77,7 @@ namespace dice::template_library {
 
 		void drop() noexcept {
 			if constexpr ((std::is_trivially_destructible_v<Ts> && ...)) {
-				// noop
+				valueless_ = true;
 			} else {
 				if (!valueless_) {
 					(**this).~Base();
-- 
2.43.0


From 342d7c44222661e5557bb3aa93c62e97a5067d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:18 +0000
Subject: [PATCH 07/55] fix: pointer_tag_pair converts a pointer to derived
 before storing it

---
 include/dice/template-library/pointer_tag_pair.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/pointer_tag_pair.hpp b/include/dice/template-library/pointer_tag_pair.hpp
index 5bc1ab5..3b92b42 100644
--- a/include/dice/template-library/pointer_tag_pair.hpp
+++ b/include/dice/template-library/pointer_tag_pair.hpp
@@ -67,18 +67,18 @@ namespace dice::template_library {
         template<detail_pointer_tag_pair::taggable_pointer<T> P>
         requires (BitsRequested <= detail_pointer_tag_pair::taggable_bits_available<std::remove_pointer_t<P>>())
         pointer_tag_pair(P const pointer, Tag const tag) noexcept
-            : pointer_tag_pair{reinterpret_cast<uintptr_t>(pointer) | static_cast<uintptr_t>(tag)} {
-            assert((reinterpret_cast<uintptr_t>(pointer) & tag_mask) == 0);
+            : pointer_tag_pair{reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) | static_cast<uintptr_t>(tag)} {
+            assert((reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) & tag_mask) == 0);
             assert(static_cast<uintptr_t>(tag) <= tag_mask);
         }
 
         template<unsigned PromisedAlignment, detail_pointer_tag_pair::taggable_pointer<T> P>
         requires (BitsRequested <= detail_pointer_tag_pair::taggable_bits_available<std::remove_pointer_t<P>, PromisedAlignment>())
         [[nodiscard]] static pointer_tag_pair from_overaligned(P const pointer, Tag const tag) noexcept {
-            assert((reinterpret_cast<uintptr_t>(pointer) & tag_mask) == 0);
+            assert((reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) & tag_mask) == 0);
             assert(static_cast<uintptr_t>(tag) <= tag_mask);
 
-            return pointer_tag_pair{reinterpret_cast<uintptr_t>(pointer) | static_cast<uintptr_t>(tag)};
+            return pointer_tag_pair{reinterpret_cast<uintptr_t>(static_cast<T *>(pointer)) | static_cast<uintptr_t>(tag)};
         }
 
         [[nodiscard]] static pointer_tag_pair from_tagged(tagged_pointer_type const pointer) noexcept {
-- 
2.43.0


From 7a5c7c108f169a81d775d917dee53150920fec53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 08/55] fix: pool_allocator rejects element counts whose byte
 size overflows

---
 include/dice/template-library/pool_allocator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index 65afc3f..0fe34c0 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -6,6 +6,7 @@
 #include <algorithm>
 #include <array>
 #include <cstddef>
+#include <new>
 #include <type_traits>
 #include <memory>
 
@@ -176,6 +177,10 @@ namespace dice::template_library {
 		}
 
 		pointer allocate(size_t n) {
+			if (n > static_cast<size_type>(-1) / sizeof(T)) [[unlikely]] {
+				throw std::bad_array_new_length{};
+			}
+
 			return static_cast<pointer>(pool_->allocate(sizeof(T) * n));
 		}
 
-- 
2.43.0


From 0ecf6e6b4356531c65db15be05c01ed0fefa5ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 09/55] fix: moved-from pool_allocator keeps its pool

---
 include/dice/template-library/pool_allocator.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index 0fe34c0..01bdc61 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -9,6 +9,7 @@
 #include <new>
 #include <type_traits>
 #include <memory>
+#include <utility>
 
 namespace dice::template_library {
 
@@ -162,9 +163,16 @@ namespace dice::template_library {
 		}
 
 		pool_allocator(pool_allocator const &other) noexcept = default;
-		pool_allocator(pool_allocator &&other) noexcept = default;
+		pool_allocator(pool_allocator &&other) noexcept
+			: pool_allocator{std::as_const(other)} {
+			// a moved-from allocator must stay usable (the moved-from container keeps using it)
+		}
+
 		pool_allocator &operator=(pool_allocator const &other) noexcept = default;
-		pool_allocator &operator=(pool_allocator &&other) noexcept = default;
+		pool_allocator &operator=(pool_allocator &&other) noexcept {
+			return *this = std::as_const(other);
+		}
+
 		~pool_allocator() noexcept = default;
 
 		template<typename U>
-- 
2.43.0


From 945c6d47ee7fc8fde1e0ff858ec18a542cce3de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 10/55] fix: unsynchronized limit_allocator can be rebound

---
 include/dice/template-library/limit_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index e836280..011aaaf 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -115,7 +115,7 @@ namespace dice::template_library {
 		constexpr ~limit_allocator() = default;
 
 		template<typename U>
-		constexpr limit_allocator(limit_allocator<U, Allocator> const &other) noexcept(std::is_nothrow_constructible_v<upstream_allocator_type, typename limit_allocator<U, Allocator>::upstream_allocator_type const &>)
+		constexpr limit_allocator(limit_allocator<U, Allocator, syncness> const &other) noexcept(std::is_nothrow_constructible_v<upstream_allocator_type, typename limit_allocator<U, Allocator, syncness>::upstream_allocator_type const &>)
 			: control_block_{other.control_block_},
 			  inner_{other.inner_} {
 		}
-- 
2.43.0


From 428bee27e82f73a65673c93740e2a0b5c4e19185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 11/55] fix: moved-from limit_allocator keeps its limit

---
 include/dice/template-library/limit_allocator.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index 011aaaf..60dbf04 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -109,9 +109,19 @@ namespace dice::template_library {
         }
 
 		constexpr limit_allocator(limit_allocator const &other) noexcept(std::is_nothrow_move_constructible_v<upstream_allocator_type>) = default;
-		constexpr limit_allocator(limit_allocator &&other) noexcept(std::is_nothrow_copy_constructible_v<upstream_allocator_type>) = default;
+		constexpr limit_allocator(limit_allocator &&other) noexcept(std::is_nothrow_move_constructible_v<upstream_allocator_type>)
+			: control_block_{other.control_block_},
+			  inner_{std::move(other.inner_)} {
+			// a moved-from allocator must stay usable (the moved-from container keeps using it)
+		}
+
 		constexpr limit_allocator &operator=(limit_allocator const &other) noexcept(std::is_nothrow_copy_assignable_v<upstream_allocator_type>) = default;
-		constexpr limit_allocator &operator=(limit_allocator &&other) noexcept(std::is_nothrow_move_assignable_v<upstream_allocator_type>) = default;
+		constexpr limit_allocator &operator=(limit_allocator &&other) noexcept(std::is_nothrow_move_assignable_v<upstream_allocator_type>) {
+			control_block_ = other.control_block_;
+			inner_ = std::move(other.inner_);
+			return *this;
+		}
+
 		constexpr ~limit_allocator() = default;
 
 		template<typename U>
-- 
2.43.0


From b64defc86eb74c969666e0e23b8af6902a76ea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 12/55] fix: mutex and shared_mutex can be used with a custom
 mutex type

---
 include/dice/template-library/mutex.hpp        |  8 ++++----
 include/dice/template-library/shared_mutex.hpp | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 39746f0..6b3cc7b 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -108,8 +108,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] mutex_guard<value_type> lock() {
-            return mutex_guard<value_type>{std::unique_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] mutex_guard<value_type, mutex_type> lock() {
+            return mutex_guard<value_type, mutex_type>{std::unique_lock<mutex_type>{mutex_}, value_};
         }
 
 		/**
@@ -119,13 +119,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<mutex_guard<value_type>> try_lock() {
+        [[nodiscard]] std::optional<mutex_guard<value_type, mutex_type>> try_lock() {
             std::unique_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return mutex_guard<value_type>{std::move(lock), value_};
+            return mutex_guard<value_type, mutex_type>{std::move(lock), value_};
         }
     };
 
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index 52b43cd..414dab0 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -110,8 +110,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] shared_mutex_guard<value_type> lock() {
-            return shared_mutex_guard<value_type>{std::unique_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] shared_mutex_guard<value_type, mutex_type> lock() {
+            return shared_mutex_guard<value_type, mutex_type>{std::unique_lock<mutex_type>{mutex_}, value_};
         }
 
 		/**
@@ -121,13 +121,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<shared_mutex_guard<value_type>> try_lock() {
+        [[nodiscard]] std::optional<shared_mutex_guard<value_type, mutex_type>> try_lock() {
             std::unique_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return shared_mutex_guard<value_type>{std::move(lock), value_};
+            return shared_mutex_guard<value_type, mutex_type>{std::move(lock), value_};
         }
 
         /**
@@ -137,8 +137,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] shared_mutex_guard<value_type const> lock_shared() const {
-            return shared_mutex_guard<value_type const>{std::shared_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] shared_mutex_guard<value_type const, mutex_type> lock_shared() const {
+            return shared_mutex_guard<value_type const, mutex_type>{std::shared_lock<mutex_type>{mutex_}, value_};
         }
 
         /**
@@ -148,13 +148,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<shared_mutex_guard<value_type const>> try_lock_shared() const {
+        [[nodiscard]] std::optional<shared_mutex_guard<value_type const, mutex_type>> try_lock_shared() const {
             std::shared_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return shared_mutex_guard<value_type const>{std::move(lock), value_};
+            return shared_mutex_guard<value_type const, mutex_type>{std::move(lock), value_};
         }
     };
 
-- 
2.43.0


From d182d502503ad6d11ad1d5e1ea963d56b5bef917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:42 +0000
Subject: [PATCH 13/55] fix: mutex guards can be swapped

---
 include/dice/template-library/mutex.hpp        | 2 +-
 include/dice/template-library/shared_mutex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 6b3cc7b..22c7498 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -54,7 +54,7 @@ namespace dice::template_library {
             return *value_ptr_;
         }
 
-        friend void swap(mutex_guard const &lhs, mutex_guard const &rhs) noexcept {
+        friend void swap(mutex_guard &lhs, mutex_guard &rhs) noexcept {
             using std::swap;
             swap(lhs.value_ptr_, rhs.value_ptr_);
             swap(lhs.lock_, rhs.lock_);
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index 414dab0..1be577f 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -56,7 +56,7 @@ namespace dice::template_library {
             return *value_ptr_;
         }
 
-        friend void swap(shared_mutex_guard const &lhs, shared_mutex_guard const &rhs) noexcept {
+        friend void swap(shared_mutex_guard &lhs, shared_mutex_guard &rhs) noexcept {
             using std::swap;
             swap(lhs.value_ptr_, rhs.value_ptr_);
             swap(lhs.lock_, rhs.lock_);
-- 
2.43.0


From 65e0ba066e9aa41632f9d04a5c359b7533c10c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:33 +0000
Subject: [PATCH 14/55] fix: reversed integral range() yields the same elements
 as the forward range

---
 include/dice/template-library/ranges.hpp | 31 ++++++++++++------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 1c94625..58fdeea 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -353,6 +353,16 @@ namespace dice::template_library {
 			T stop_;
 			S step_;
 
+			/**
+			 * @return the element at position off (must be a valid position)
+			 * @note calculated using (wrapping) unsigned arithmetic, because intermediate values do not necessarily fit into T
+			 */
+			[[nodiscard]] constexpr T element(size_t off) const noexcept
+					requires (std::integral<T> && std::integral<S>)
+			{
+				return static_cast<T>(static_cast<size_t>(current_) + off * static_cast<size_t>(step_));
+			}
+
 		public:
             range_iterator() noexcept
                     requires (std::is_default_constructible_v<T> && std::is_constructible_v<S, int>)
@@ -413,26 +423,14 @@ namespace dice::template_library {
 					return std::nullopt;
 				}
 
-				current_ += static_cast<T>(off) * step_;
+				current_ = element(off);
 				return next();
 			}
 
             [[nodiscard]] constexpr std::optional<T> next_back() noexcept
                     requires (std::integral<T> && std::integral<S>)
             {
-				if (step_ > S{}) {
-					if (current_ >= stop_) {
-						return std::nullopt;
-					}
-					stop_ -= step_;
-					return stop_;
-				} else {
-					if (current_ <= stop_) {
-						return std::nullopt;
-					}
-					stop_ -= step_;
-					return stop_;
-				}
+				return nth_back(0);
 			}
 
             [[nodiscard]] constexpr std::optional<T> nth_back(size_t off) noexcept
@@ -444,8 +442,9 @@ namespace dice::template_library {
 					return std::nullopt;
 				}
 
-				stop_ -= static_cast<T>(off) * step_;
-				return next_back();
+				// note: stop_ itself is not necessarily a multiple of step_ away from current_
+				stop_ = element(rem - 1 - off);
+				return stop_;
 			}
 		};
 	}// namespace ranges_algo_detail
-- 
2.43.0


From 6211f5915df04bc68b033ab6061971b84c858c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:34 +0000
Subject: [PATCH 15/55] fix: range() does not overflow close to the limits of
 the value type

---
 include/dice/template-library/ranges.hpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 58fdeea..7e1cbc4 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -353,6 +353,19 @@ namespace dice::template_library {
 			T stop_;
 			S step_;
 
+			/**
+			 * @return hi - lo, calculated such that it cannot overflow
+			 */
+			[[nodiscard]] static constexpr size_t distance(T lo, T hi) noexcept
+					requires (std::integral<T> && std::integral<S>)
+			{
+				return static_cast<size_t>(hi) - static_cast<size_t>(lo);
+			}
+
+			[[nodiscard]] static constexpr size_t div_ceil(size_t num, size_t denom) noexcept {
+				return num / denom + (num % denom != 0 ? 1 : 0);
+			}
+
 			/**
 			 * @return the element at position off (must be a valid position)
 			 * @note calculated using (wrapping) unsigned arithmetic, because intermediate values do not necessarily fit into T
@@ -389,6 +402,13 @@ namespace dice::template_library {
 					}
 				}
 
+				if constexpr (std::integral<T> && std::integral<S>) {
+					if (remaining() == 1) {
+						// last element, current_ + step_ might not be representable
+						return std::exchange(current_, stop_);
+					}
+				}
+
 				return std::exchange(current_, current_ + step_);
 			}
 
@@ -402,7 +422,7 @@ namespace dice::template_library {
 						return 0;
 					}
 
-					return static_cast<size_t>((stop_ - current_ + step_ - 1) / step_);
+					return div_ceil(distance(current_, stop_), static_cast<size_t>(step_));
 				} else {
 					// backward
 					if (step_ > S{}) {
@@ -410,7 +430,7 @@ namespace dice::template_library {
 						return 0;
 					}
 
-					return static_cast<size_t>((current_ - stop_ + -step_ - 1) / -step_);
+					return div_ceil(distance(stop_, current_), -static_cast<size_t>(step_));
 				}
 			}
 
-- 
2.43.0


From 3d0fffb45adb8db33609f70dea1296bc1fcee7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:34 +0000
Subject: [PATCH 16/55] fix: next_to_view::crbegin is available whenever rbegin
 is

---
 include/dice/template-library/next_to_range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/next_to_range.hpp b/include/dice/template-library/next_to_range.hpp
index 38ed862..f1eb233 100644
--- a/include/dice/template-library/next_to_range.hpp
+++ b/include/dice/template-library/next_to_range.hpp
@@ -471,7 +471,7 @@ namespace dice::template_library {
 			return next_back_to_reverse_iter<Iter>{iter_};
 		}
 
-		[[nodiscard]] constexpr auto crbegin() const requires (nth_back_iterator<Iter>) {
+		[[nodiscard]] constexpr auto crbegin() const requires (next_back_iterator<Iter>) {
 			return rbegin();
 		}
 
-- 
2.43.0


From 41db92f895d6486723b17e4e95e7dc5ac3a6ba86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 17/55] fix: channel does not lose a wakeup if constructing or
 moving an element throws

---
 include/dice/template-library/channel.hpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index d5b685e..32f0d37 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -97,7 +97,14 @@ namespace dice::template_library {
                     return false;
                 }
 
-                queue_.emplace_back(std::forward<Args>(args)...);
+                try {
+                    queue_.emplace_back(std::forward<Args>(args)...);
+                } catch (...) {
+                    // the free slot was not used, hand the notification over to another waiting producer
+                    lock.unlock();
+                    queue_not_full_.notify_one();
+                    throw;
+                }
             }
 
             queue_not_empty_.notify_one();
@@ -185,7 +192,15 @@ namespace dice::template_library {
                 return std::nullopt;
             }
 
-            auto ret = std::move(queue_.front());
+            std::optional<value_type> ret;
+            try {
+                ret.emplace(std::move(queue_.front()));
+            } catch (...) {
+                // the element was not removed, hand the notification over to another waiting consumer
+                lock.unlock();
+                queue_not_empty_.notify_one();
+                throw;
+            }
             queue_.pop_front();
 
 			lock.unlock();
@@ -203,7 +218,7 @@ namespace dice::template_library {
                 return std::nullopt;
             }
 
-            auto ret = std::move(queue_.front());
+            std::optional<value_type> ret{std::in_place, std::move(queue_.front())};
             queue_.pop_front();
 
             lock.unlock();
-- 
2.43.0


From e13f8995331a77f45fc760477731f6709e636bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:09 +0000
Subject: [PATCH 18/55] fix: exchange_channel does not lose a value or a wakeup
 if moving it out throws

---
 .../dice/template-library/exchange_channel.hpp  | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/exchange_channel.hpp b/include/dice/template-library/exchange_channel.hpp
index a6d75ed..8d07230 100644
--- a/include/dice/template-library/exchange_channel.hpp
+++ b/include/dice/template-library/exchange_channel.hpp
@@ -132,7 +132,18 @@ namespace dice::template_library {
                 return std::nullopt;
             }
 
-            return *std::exchange(value_, std::nullopt);
+            std::optional<value_type> ret;
+            try {
+                ret.emplace(*std::move(value_));
+            } catch (...) {
+                // the value was not removed, hand the notification over to another waiting consumer
+                lock.unlock();
+                has_value_.notify_one();
+                throw;
+            }
+
+            value_.reset();
+            return ret;
         }
 
         /**
@@ -145,7 +156,9 @@ namespace dice::template_library {
                 return std::nullopt;
             }
 
-            return *std::exchange(value_, std::nullopt);
+            std::optional<value_type> ret{std::in_place, *std::move(value_)};
+            value_.reset();
+            return ret;
         }
 
         struct iterator {
-- 
2.43.0


From 9f04b7b6690dc6e0427f5fc12e17936cfa0eaa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:41 +0000
Subject: [PATCH 19/55] fix: flex_array can be constructed from every input
 iterator and sentinel

---
 include/dice/template-library/flex_array.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/flex_array.hpp b/include/dice/template-library/flex_array.hpp
index e7ebfcd..20f815d 100644
--- a/include/dice/template-library/flex_array.hpp
+++ b/include/dice/template-library/flex_array.hpp
@@ -5,6 +5,7 @@
 #include <array>
 #include <cassert>
 #include <concepts>
+#include <iterator>
 #include <span>
 #include <stdexcept>
 #include <vector>
@@ -319,7 +320,7 @@ namespace dice::template_library {
 		template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
 		constexpr flex_array(Iter first, Sent last) {
 			if constexpr (has_max_extent && std::random_access_iterator<Iter>) {
-				auto const range_size = std::distance(first, last);
+				auto const range_size = std::ranges::distance(first, last);
 				if (static_cast<size_t>(range_size) > max_size()) [[unlikely]] {
 					throw std::length_error{"flex_array::flex_array: maximum size exceeded"};
 				}
@@ -334,10 +335,12 @@ namespace dice::template_library {
 						}
 					}
 
-					inner_.data_[ix++] = *first++;
+					inner_.data_[ix++] = *first;
 				} else {
-					inner_.data_.push_back(*first++);
+					inner_.data_.push_back(*first);
 				}
+
+				++first;
 			}
 
 			if constexpr (extent == dynamic_extent && max_extent != dynamic_extent) {
-- 
2.43.0


From a7ed0c595fa36330e6cb8bd2a879b8cc8ee3b26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:45 +0000
Subject: [PATCH 20/55] fix: all_equal accepts ranges with move-only iterators

The iterators were copied although std::input_iterator does not require
copyability, such that e.g. std::views::istream<int>(in) | all_equal() did
not compile.
---
 include/dice/template-library/ranges.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 7e1cbc4..26f13fa 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -183,7 +183,7 @@ namespace dice::template_library {
             ++first;
 
             // Check if all subsequent elements in the range match the first one.
-            return std::ranges::subrange(first, last)
+            return std::ranges::subrange(std::move(first), std::move(last))
                    | dice::template_library::all_of([&](auto const &current_element) {
                          return std::invoke(pred, current_element, first_element);
                      });
-- 
2.43.0


From eda9e11293c37eb213783ba42f8e8070d940f3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:15 +0000
Subject: [PATCH 21/55] fix: is_sorted_unique does not read elements of
 single-pass ranges after incrementing

For input iterators that are not forward iterators the previous element was
read through an iterator copy after another copy had been incremented, such
that e.g. a range of std::istreambuf_iterator never was considered sorted. Ranges
with move-only iterators did not compile.
---
 include/dice/template-library/ranges.hpp | 28 +++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 26f13fa..9ad85a5 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -562,15 +562,27 @@ namespace dice::template_library {
                 return true;
             }
 
-            auto it = first;
-            while (++it != last) {
-                // We require that 'prev' is strictly less than 'curr'.
-                // cmp(a, b) ~ a < b
-                // <-> !cmp(a, b) ~ a >= b
-                if (!std::invoke(cmp, std::invoke(proj, *first), std::invoke(proj, *it))) {
-                    return false;
+            // We require that 'prev' is strictly less than 'curr'.
+            // cmp(a, b) ~ a < b
+            // <-> !cmp(a, b) ~ a >= b
+            if constexpr (std::forward_iterator<I>) {
+                auto it = first;
+                while (++it != last) {
+                    if (!std::invoke(cmp, std::invoke(proj, *first), std::invoke(proj, *it))) {
+                        return false;
+                    }
+                    first = it;
+                }
+            } else {
+                // single-pass: the previous element is gone once the iterator is incremented
+                std::iter_value_t<I> prev(*first);
+                while (++first != last) {
+                    std::iter_value_t<I> curr(*first);
+                    if (!std::invoke(cmp, std::invoke(proj, prev), std::invoke(proj, curr))) {
+                        return false;
+                    }
+                    prev = std::move(curr);
                 }
-                first = it;
             }
             return true;
         }
-- 
2.43.0


From 23c80bf3297819a790a1d9dc67bc4178fcbd6e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:55 +0000
Subject: [PATCH 22/55] fix: fmt_join accepts string objects as separators

std::ranges::copy returns the input iterator, too; separators that are ranges
(e.g. std::string, std::string_view) did not compile.
---
 include/dice/template-library/fmt_join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/fmt_join.hpp b/include/dice/template-library/fmt_join.hpp
index 6d79999..fa03ed5 100644
--- a/include/dice/template-library/fmt_join.hpp
+++ b/include/dice/template-library/fmt_join.hpp
@@ -68,7 +68,7 @@ namespace std {
 			while (it != end) {
 				// format separator
 				if constexpr (std::ranges::range<Sep const &>) {
-					format_ctx.advance_to(std::ranges::copy(join_obj.separator, format_ctx.out()));
+					format_ctx.advance_to(std::ranges::copy(join_obj.separator, format_ctx.out()).out);
 				} else {
 					// otherwise single character
 					*format_ctx.out()++ = join_obj.separator;
-- 
2.43.0


From 4c020b2f74e1852acc63cb8d7b87d6718a7c519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:55 +0000
Subject: [PATCH 23/55] fix: fmt_join formats ranges that are not
 const-iterable

The formatter only accepted the range as const, such that e.g. filter views and
istream views did not compile.
---
 include/dice/template-library/fmt_join.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/fmt_join.hpp b/include/dice/template-library/fmt_join.hpp
index fa03ed5..82df8b3 100644
--- a/include/dice/template-library/fmt_join.hpp
+++ b/include/dice/template-library/fmt_join.hpp
@@ -1,9 +1,12 @@
 #ifndef DICE_TEMPLATE_LIBRARY_FMT_JOIN_HPP
 #define DICE_TEMPLATE_LIBRARY_FMT_JOIN_HPP
 
+#include <concepts>
 #include <format>
 #include <iterator>
 #include <ranges>
+#include <type_traits>
+#include <utility>
 #include <vector>
 
 namespace dice::template_library {
@@ -52,7 +55,11 @@ namespace std {
 			return element_formatter_.parse(parse_ctx);
 		}
 
-		auto format(dice::template_library::fmt_join_algo_detail::joiner<R, Sep> const &join_obj, auto &format_ctx) const {
+		// not every range can be iterated while being const (e.g. std::views::filter, std::views::istream)
+		template<typename Joiner>
+			requires (std::same_as<std::remove_const_t<Joiner>, dice::template_library::fmt_join_algo_detail::joiner<R, Sep>>
+					  && std::ranges::input_range<decltype((std::declval<Joiner &>().range))>)
+		auto format(Joiner &join_obj, auto &format_ctx) const {
 			auto it = std::ranges::begin(join_obj.range);
 			auto const end = std::ranges::end(join_obj.range);
 
-- 
2.43.0


From 6f7e932d90dad73569eaed3d2b300e7f472908c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:55 +0000
Subject: [PATCH 24/55] fix: switch_cases passes constants of the type of the
 condition

For types narrower than int all constants after the first were of type int due
to integral promotion, such that handlers whose result type depends on the type
of the constant did not compile.
---
 include/dice/template-library/switch_cases.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/switch_cases.hpp b/include/dice/template-library/switch_cases.hpp
index dbea69e..1cb3a5d 100644
--- a/include/dice/template-library/switch_cases.hpp
+++ b/include/dice/template-library/switch_cases.hpp
@@ -14,7 +14,7 @@ namespace dice::template_library {
 		constexpr decltype(auto) execute_case(decltype(i) value, F &&cases_function) {
 			if constexpr (i < ((max == min) ? max : max - 1)) {
 				if (value != i) {
-					return execute_case<i + 1, max, min>(value, std::forward<F>(cases_function));
+					return execute_case<static_cast<decltype(i)>(i + 1), max, min>(value, std::forward<F>(cases_function));
 				}
 			}
 
-- 
2.43.0


From be83809895c6938649b701336fe05d911f8515ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:55 +0000
Subject: [PATCH 25/55] fix: for_range passes constants of the type of its
 bounds

For types narrower than int the constants were of type int due to integral
promotion, and ranges with more values than the maximum of a signed type
did not compile.
---
 include/dice/template-library/for.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/dice/template-library/for.hpp b/include/dice/template-library/for.hpp
index 4abfdd8..8190a6c 100644
--- a/include/dice/template-library/for.hpp
+++ b/include/dice/template-library/for.hpp
@@ -1,6 +1,8 @@
 #ifndef DICE_TEMPLATE_LIBRARY_FOR_HPP
 #define DICE_TEMPLATE_LIBRARY_FOR_HPP
 
+#include <concepts>
+#include <cstddef>
 #include <functional>
 #include <type_traits>
 #include <utility>
@@ -39,18 +41,21 @@ namespace dice::template_library {
 	  */
 	template<std::integral auto first, decltype(first) last, typename F>
 	constexpr void for_range(F &&f) {
+		using int_t = decltype(first);
+
+		// note: calculated in (wrapping) unsigned arithmetic, because the number of values does not necessarily fit into int_t
 		if constexpr (first < last) {
-			auto const impl = [&f]<auto... xs>(std::integer_sequence<decltype(first), xs...>) {
-				for_values<(first + xs)...>(std::forward<F>(f));
+			auto const impl = [&f]<size_t... xs>(std::index_sequence<xs...>) {
+				for_values<static_cast<int_t>(static_cast<size_t>(first) + xs)...>(std::forward<F>(f));
 			};
 
-			impl(std::make_integer_sequence<decltype(first), last - first>{});
+			impl(std::make_index_sequence<static_cast<size_t>(last) - static_cast<size_t>(first)>{});
 		} else {
-			auto const impl = [&f]<auto... xs>(std::integer_sequence<decltype(first), xs...>) {
-				for_values<(first - xs)...>(std::forward<F>(f));
+			auto const impl = [&f]<size_t... xs>(std::index_sequence<xs...>) {
+				for_values<static_cast<int_t>(static_cast<size_t>(first) - xs)...>(std::forward<F>(f));
 			};
 
-			impl(std::make_integer_sequence<decltype(first), first - last>{});
+			impl(std::make_index_sequence<static_cast<size_t>(first) - static_cast<size_t>(last)>{});
 		}
 	}
 }// namespace dice::template_library
-- 
2.43.0


From 687fe614f6af83f68b1f1455335b651f20edfe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:55 +0000
Subject: [PATCH 26/55] fix: make_integer_sequence supports all ranges of
 signed integers

Ranges with more values than the maximum of the type (e.g. [-100, 100) for
int8_t) did not compile.
---
 include/dice/template-library/integral_sequence.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/dice/template-library/integral_sequence.hpp b/include/dice/template-library/integral_sequence.hpp
index 6b8fda7..109de0d 100644
--- a/include/dice/template-library/integral_sequence.hpp
+++ b/include/dice/template-library/integral_sequence.hpp
@@ -24,20 +24,21 @@ namespace dice::template_library {
 	 */
 	template<std::integral Int, Int first, Int last>
 	using make_integer_sequence = decltype([] {
+		// note: calculated in (wrapping) unsigned arithmetic, because the number of values does not necessarily fit into Int
 		if constexpr (first == last) {
 			return std::integer_sequence<Int>{};
 		} else if constexpr (first < last) {
 			// Ascending [first, last)
-			auto const impl = []<Int... xs>(std::integer_sequence<Int, xs...>) {
-				return std::integer_sequence<Int, (first + xs)...>{};
+			auto const impl = []<size_t... xs>(std::index_sequence<xs...>) {
+				return std::integer_sequence<Int, static_cast<Int>(static_cast<size_t>(first) + xs)...>{};
 			};
-			return impl(std::make_integer_sequence<Int, last - first>{});
+			return impl(std::make_index_sequence<static_cast<size_t>(last) - static_cast<size_t>(first)>{});
 		} else {
 			// Descending (last, first]
-			auto const impl = []<Int... xs>(std::integer_sequence<Int, xs...>) {
-				return std::integer_sequence<Int, (first - xs)...>{};
+			auto const impl = []<size_t... xs>(std::index_sequence<xs...>) {
+				return std::integer_sequence<Int, static_cast<Int>(static_cast<size_t>(first) - xs)...>{};
 			};
-			return impl(std::make_integer_sequence<Int, first - last>{});
+			return impl(std::make_index_sequence<static_cast<size_t>(first) - static_cast<size_t>(last)>{});
 		}
 	}());
 
-- 
2.43.0


From 4711ffca85c8db302d1a8fc7cf480dc5cf5fe0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:55 +0000
Subject: [PATCH 27/55] fix: exceptions of copy constructors leave
 integral_template_variant

The copy constructor was declared noexcept whenever the alternatives were
copyable, such that an exception thrown by an alternative terminated the program.
---
 include/dice/template-library/integral_template_variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/integral_template_variant.hpp b/include/dice/template-library/integral_template_variant.hpp
index fdbe8ee..ae7fe98 100644
--- a/include/dice/template-library/integral_template_variant.hpp
+++ b/include/dice/template-library/integral_template_variant.hpp
@@ -62,7 +62,7 @@ namespace dice::template_library {
 
 	public:
 		constexpr integral_template_variant() noexcept(std::is_nothrow_default_constructible_v<underlying_type>) = default;
-		constexpr integral_template_variant(integral_template_variant const &other) noexcept(std::is_copy_constructible_v<underlying_type>) = default;
+		constexpr integral_template_variant(integral_template_variant const &other) noexcept(std::is_nothrow_copy_constructible_v<underlying_type>) = default;
 		constexpr integral_template_variant(integral_template_variant &&other) noexcept(std::is_nothrow_move_constructible_v<underlying_type>) = default;
 		constexpr integral_template_variant &operator=(integral_template_variant const &other) noexcept(std::is_nothrow_copy_assignable_v<underlying_type>) = default;
 		constexpr integral_template_variant &operator=(integral_template_variant &&other) noexcept(std::is_nothrow_move_assignable_v<underlying_type>) = default;
-- 
2.43.0


From 6aa29074f5637249590848f881d431e82d59a3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:55 +0000
Subject: [PATCH 28/55] fix: tuple_fold and tuple_type_fold do not return a
 dangling reference

With an lvalue as initial accumulator the result was a reference to a destroyed
local (const lvalue) or did not compile (non-const lvalue).
---
 include/dice/template-library/tuple_algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/tuple_algorithm.hpp b/include/dice/template-library/tuple_algorithm.hpp
index 2c01327..5284a8e 100644
--- a/include/dice/template-library/tuple_algorithm.hpp
+++ b/include/dice/template-library/tuple_algorithm.hpp
@@ -63,7 +63,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr Acc tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) noexcept {
+	constexpr std::remove_cvref_t<Acc> tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) noexcept {
 		return tuple_algo_detail::tuple_fold_impl(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<Tuple>>>{}, tuple, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
@@ -77,7 +77,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr Acc tuple_type_fold(Acc &&init, FoldF &&f) noexcept {
+	constexpr std::remove_cvref_t<Acc> tuple_type_fold(Acc &&init, FoldF &&f) noexcept {
 		return tuple_algo_detail::tuple_type_fold_impl<Tuple>(std::make_index_sequence<std::tuple_size_v<Tuple>>{}, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
-- 
2.43.0


From 49e0e3375f1fa2edebb9343ca14ec811c5c55892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:11 +0000
Subject: [PATCH 29/55] fix: copies of single element standard_layout_tuples
 are copies

The forwarding constructor was preferred over the copy constructor when copying
a non-const tuple with one element, and tried to construct the element from the
tuple.
---
 include/dice/template-library/standard_layout_tuple.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/standard_layout_tuple.hpp b/include/dice/template-library/standard_layout_tuple.hpp
index e0a965e..2551fef 100644
--- a/include/dice/template-library/standard_layout_tuple.hpp
+++ b/include/dice/template-library/standard_layout_tuple.hpp
@@ -74,7 +74,9 @@ namespace dice::template_library {
 		constexpr standard_layout_tuple() = default;
 
 		template<typename ...Args>
-		explicit constexpr standard_layout_tuple(Args &&...args) requires (sizeof...(Args) == 1 + sizeof...(Ts))
+		explicit constexpr standard_layout_tuple(Args &&...args)
+			requires (sizeof...(Args) == 1 + sizeof...(Ts)
+					  && !(sizeof...(Args) == 1 && (std::is_base_of_v<standard_layout_tuple, std::remove_cvref_t<Args>> && ...))) // do not hijack copies
 			: standard_layout_tuple{individual_construct, std::forward<Args>(args)...}
 		{
 		}
-- 
2.43.0


From 08f6fbe97b139d67269ca2bf5680bcf379984b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:31 +0000
Subject: [PATCH 30/55] fix: fmt_join formats temporary joined ranges

Elements that are joined ranges themselves are usually prvalues of a
transform view, which the formatter did not accept anymore.
---
 include/dice/template-library/fmt_join.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/fmt_join.hpp b/include/dice/template-library/fmt_join.hpp
index 82df8b3..2ee6b2f 100644
--- a/include/dice/template-library/fmt_join.hpp
+++ b/include/dice/template-library/fmt_join.hpp
@@ -57,9 +57,9 @@ namespace std {
 
 		// not every range can be iterated while being const (e.g. std::views::filter, std::views::istream)
 		template<typename Joiner>
-			requires (std::same_as<std::remove_const_t<Joiner>, dice::template_library::fmt_join_algo_detail::joiner<R, Sep>>
+			requires (std::same_as<std::remove_cvref_t<Joiner>, dice::template_library::fmt_join_algo_detail::joiner<R, Sep>>
 					  && std::ranges::input_range<decltype((std::declval<Joiner &>().range))>)
-		auto format(Joiner &join_obj, auto &format_ctx) const {
+		auto format(Joiner &&join_obj, auto &format_ctx) const {
 			auto it = std::ranges::begin(join_obj.range);
 			auto const end = std::ranges::end(join_obj.range);
 
-- 
2.43.0


From 656cb0f340eefc60b639d80b2f1a51f09024f7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:35 +0000
Subject: [PATCH 31/55] fix: wide streams use the wide formatter of a type

operator<< checked for std::formattable<T, wchar_t> but formatted with char.
---
 include/dice/template-library/format_to_ostream.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/format_to_ostream.hpp b/include/dice/template-library/format_to_ostream.hpp
index 01e6e98..8153bab 100644
--- a/include/dice/template-library/format_to_ostream.hpp
+++ b/include/dice/template-library/format_to_ostream.hpp
@@ -47,7 +47,11 @@ namespace dice::template_library {
  */
 template<typename T, typename Char = char, typename CharTraits = std::char_traits<char>, typename = std::enable_if_t<std::formattable<T, Char> && !dice::template_library::is_ostreamable_v<T, Char, CharTraits>>>
 std::basic_ostream<Char, CharTraits> &operator<<(std::basic_ostream<Char, CharTraits> &stream, T const &value) {
-    std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, "{}", value);
+    if constexpr (std::is_same_v<Char, wchar_t>) {
+        std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, L"{}", value);
+    } else {
+        std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, "{}", value);
+    }
     return stream;
 }
 
-- 
2.43.0


From b74b222945352964669f370a39ddcc07c4d1851e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:35 +0000
Subject: [PATCH 32/55] fix: operator<< for formattable types respects the
 state of the stream

It wrote to streams that are not good() and did not report a failing stream
buffer.
---
 .../template-library/format_to_ostream.hpp     | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/format_to_ostream.hpp b/include/dice/template-library/format_to_ostream.hpp
index 8153bab..4a96a08 100644
--- a/include/dice/template-library/format_to_ostream.hpp
+++ b/include/dice/template-library/format_to_ostream.hpp
@@ -47,11 +47,21 @@ namespace dice::template_library {
  */
 template<typename T, typename Char = char, typename CharTraits = std::char_traits<char>, typename = std::enable_if_t<std::formattable<T, Char> && !dice::template_library::is_ostreamable_v<T, Char, CharTraits>>>
 std::basic_ostream<Char, CharTraits> &operator<<(std::basic_ostream<Char, CharTraits> &stream, T const &value) {
-    if constexpr (std::is_same_v<Char, wchar_t>) {
-        std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, L"{}", value);
-    } else {
-        std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, "{}", value);
+    typename std::basic_ostream<Char, CharTraits>::sentry const ready{stream};
+    if (ready) {
+        auto out = [&stream, &value] {
+            if constexpr (std::is_same_v<Char, wchar_t>) {
+                return std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, L"{}", value);
+            } else {
+                return std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, "{}", value);
+            }
+        }();
+
+        if (out.failed()) {
+            stream.setstate(std::ios_base::badbit);
+        }
     }
+
     return stream;
 }
 
-- 
2.43.0


From ade5cc3b693deebbae77adb3809b5166d0f35129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:15 +0000
Subject: [PATCH 33/55] fix: sandbox flushes the wide standard streams

---
 include/dice/template-library/sandbox.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dice/template-library/sandbox.hpp b/include/dice/template-library/sandbox.hpp
index 4cd4866..f5bdd60 100644
--- a/include/dice/template-library/sandbox.hpp
+++ b/include/dice/template-library/sandbox.hpp
@@ -65,6 +65,10 @@ namespace dice::template_library {
             // was ever called they have their own buffers
             std::cout.flush();
             std::cerr.flush();
+            std::clog.flush();
+            std::wcout.flush();
+            std::wcerr.flush();
+            std::wclog.flush();
 
             fflush(nullptr);
 
-- 
2.43.0


From e3787a523ae3a0d920fbf00945c06ee115c693b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:07 +0000
Subject: [PATCH 34/55] fix: lazy_switch does not instantiate the providers of
 cases that do not match

---
 include/dice/template-library/lazy_conditional.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/lazy_conditional.hpp b/include/dice/template-library/lazy_conditional.hpp
index 6da706a..ae1b3f3 100644
--- a/include/dice/template-library/lazy_conditional.hpp
+++ b/include/dice/template-library/lazy_conditional.hpp
@@ -139,7 +139,8 @@ namespace dice::template_library {
 	};
 
 	// Recursive case: check first case, recurse if false
-	template<typename DefaultProvider, bool Cond, type_provider Provider, lazy_case... Rest>
+	template<typename DefaultProvider, bool Cond, typename Provider, lazy_case... Rest>
+		requires (!Cond || type_provider<Provider>)
 	struct lazy_switch_default<DefaultProvider, case_<Cond, Provider>, Rest...> {
 		using type = lazy_conditional_t<
 				Cond,
@@ -164,7 +165,8 @@ namespace dice::template_library {
 	struct lazy_switch;
 
 	// Recursive case: check first case, recurse if false
-	template<bool Cond, type_provider Provider, lazy_case... Rest>
+	template<bool Cond, typename Provider, lazy_case... Rest>
+		requires (!Cond || type_provider<Provider>)
 	struct lazy_switch<case_<Cond, Provider>, Rest...> {
 		using type = lazy_conditional_t<
 				Cond,
-- 
2.43.0


From 3efd07c76656c8d78ec93a466139aca04e640a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:17 +0000
Subject: [PATCH 35/55] fix: is_strict_invocable_r calls with the value
 categories that are given

---
 include/dice/template-library/type_traits.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/type_traits.hpp b/include/dice/template-library/type_traits.hpp
index f8ed65a..b2de1b0 100644
--- a/include/dice/template-library/type_traits.hpp
+++ b/include/dice/template-library/type_traits.hpp
@@ -4,6 +4,7 @@
 #include <cstdint>
 #include <functional>
 #include <type_traits>
+#include <utility>
 
 namespace dice::template_library {
 	namespace detail_zst {
@@ -154,8 +155,8 @@ namespace dice::template_library {
 
 	template<typename R, typename F, typename ...Args>
 	struct is_strict_invocable_r {
-	    static constexpr bool value = requires (F func, Args ...args) {
-	    	{ std::invoke(func, args...) } -> std::same_as<R>;
+	    static constexpr bool value = requires {
+	    	{ std::invoke(std::declval<F>(), std::declval<Args>()...) } -> std::same_as<R>;
 	    };
 	};
 
-- 
2.43.0


From a3342686b3cdd36b4167d489ee5131e6c2651952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:18 +0000
Subject: [PATCH 36/55] fix: DICE_MOVE_IF_VALUE accepts const rvalue references

---
 include/dice/template-library/type_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/type_traits.hpp b/include/dice/template-library/type_traits.hpp
index b2de1b0..97c3686 100644
--- a/include/dice/template-library/type_traits.hpp
+++ b/include/dice/template-library/type_traits.hpp
@@ -212,7 +212,7 @@ namespace dice::template_library {
     [&]<bool _dice_detail_no_move = std::is_lvalue_reference_v<decltype(expr)> || std::is_const_v<std::remove_reference_t<decltype(expr)>>>() \
             -> std::conditional_t<_dice_detail_no_move, decltype(expr), std::add_rvalue_reference_t<std::remove_cvref_t<decltype(expr)>>> {   \
         if constexpr (_dice_detail_no_move) {                                                                                                 \
-            return expr;                                                                                                                      \
+            return static_cast<decltype(expr)>(expr);                                                                                         \
         } else {                                                                                                                              \
             return std::move(expr);                                                                                                           \
         }                                                                                                                                     \
-- 
2.43.0


From 480b798d3f1426bccfd26a0958e5f70c4b01a134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:40 +0000
Subject: [PATCH 37/55] fix: integral_template_variant required its
 alternatives to be comparable

---
 include/dice/template-library/integral_template_variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/integral_template_variant.hpp b/include/dice/template-library/integral_template_variant.hpp
index ae7fe98..6daf9c1 100644
--- a/include/dice/template-library/integral_template_variant.hpp
+++ b/include/dice/template-library/integral_template_variant.hpp
@@ -129,7 +129,7 @@ namespace dice::template_library {
 		}
 
 		constexpr auto operator<=>(integral_template_variant const &other) const noexcept = default;
-		constexpr bool operator==(integral_template_variant const &other) const noexcept = default;
+		bool operator==(integral_template_variant const &other) const noexcept = default; // constexpr if possible; stating it rejects alternatives that are not comparable
 	};
 
 }// namespace dice::template_library
-- 
2.43.0


From fb6c1c140c8aaca8cafd9c41dca4968b5d2ee8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:33 +0000
Subject: [PATCH 38/55] fix: for_values terminates if only the lvalue call of
 its function throws

---
 include/dice/template-library/for.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/for.hpp b/include/dice/template-library/for.hpp
index 8190a6c..4c2745c 100644
--- a/include/dice/template-library/for.hpp
+++ b/include/dice/template-library/for.hpp
@@ -26,7 +26,7 @@ namespace dice::template_library {
 	 * @param f The lambda
 	 */
 	template<auto ...xs, typename F>
-	constexpr void for_values(F &&f) noexcept((std::is_nothrow_invocable_v<F, std::integral_constant<decltype(xs), xs>> && ...)) {
+	constexpr void for_values(F &&f) noexcept((std::is_nothrow_invocable_v<F &, std::integral_constant<decltype(xs), xs>> && ...)) {
 		(std::invoke(f, std::integral_constant<decltype(xs), xs>{}), ...);
 	}
 
-- 
2.43.0


From 6480a2a02d94278b2ace5286fbdf22bf7ad368d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:59 +0000
Subject: [PATCH 39/55] fix: iterators of channels with move-only elements
 claimed to be copyable

---
 include/dice/template-library/channel.hpp        | 16 ++--------------
 .../dice/template-library/exchange_channel.hpp   | 16 ++--------------
 2 files changed, 4 insertions(+), 28 deletions(-)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index 32f0d37..2228a69 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -249,20 +249,8 @@ namespace dice::template_library {
                 advance();
             }
 
-            iterator(iterator const &other) noexcept(std::is_nothrow_copy_constructible_v<value_type>)
-                : chan_{other.chan_},
-                  buf_{other.buf_} {
-            }
-
-            iterator &operator=(iterator const &other) noexcept(std::is_nothrow_copy_assignable_v<value_type>) {
-                if (this == &other) {
-                    return *this;
-                }
-
-                chan_ = other.chan_;
-                buf_ = other.buf_;
-                return *this;
-            }
+            iterator(iterator const &other) = default;
+            iterator &operator=(iterator const &other) = default;
 
             iterator(iterator &&other) noexcept(std::is_nothrow_move_constructible_v<value_type>)
                 : chan_{other.chan_},
diff --git a/include/dice/template-library/exchange_channel.hpp b/include/dice/template-library/exchange_channel.hpp
index 8d07230..b37af8b 100644
--- a/include/dice/template-library/exchange_channel.hpp
+++ b/include/dice/template-library/exchange_channel.hpp
@@ -185,20 +185,8 @@ namespace dice::template_library {
                 advance();
             }
 
-            iterator(iterator const &other) noexcept(std::is_nothrow_copy_constructible_v<value_type>)
-                : chan_{other.chan_},
-                  buf_{other.buf_} {
-            }
-
-            iterator &operator=(iterator const &other) noexcept(std::is_nothrow_copy_assignable_v<value_type>) {
-                if (this == &other) {
-                    return *this;
-                }
-
-                chan_ = other.chan_;
-                buf_ = other.buf_;
-                return *this;
-            }
+            iterator(iterator const &other) = default;
+            iterator &operator=(iterator const &other) = default;
 
             iterator(iterator &&other) noexcept(std::is_nothrow_move_constructible_v<value_type>)
                 : chan_{other.chan_},
-- 
2.43.0


From 43b0386c994e7143236ada4abcacce66accc78d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:47 +0000
Subject: [PATCH 40/55] fix: switch_cases without a fallback instantiated the
 handler with the bound that is not a case

---
 include/dice/template-library/switch_cases.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/switch_cases.hpp b/include/dice/template-library/switch_cases.hpp
index 1cb3a5d..5fbf9bf 100644
--- a/include/dice/template-library/switch_cases.hpp
+++ b/include/dice/template-library/switch_cases.hpp
@@ -84,7 +84,8 @@ namespace dice::template_library {
 	 */
 	template<std::integral auto first, decltype(first) last, typename F>
 	constexpr decltype(auto) switch_cases(decltype(first) condition, F &&cases_function) {
-		return switch_cases<first, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, first>);
+		// the larger bound is not a case, cases_function is not necessarily callable with it
+		return switch_cases<first, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, std::min(first, last)>);
 	}
 
 	/**
@@ -121,7 +122,7 @@ namespace dice::template_library {
 	 */
 	template<std::integral auto last, typename F>
 	constexpr decltype(auto) switch_cases(decltype(last) condition, F &&cases_function) {
-		return switch_cases<decltype(last){}, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, last>);
+		return switch_cases<decltype(last){}, last>(condition, std::forward<F>(cases_function));
 	}
 
 	/**
-- 
2.43.0


From 74a13bc628eb048513fa3dff2e0238df89291466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:55 +0000
Subject: [PATCH 41/55] fix: type_list unique instantiated exponentially many
 types

---
 include/dice/template-library/type_list.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/type_list.hpp b/include/dice/template-library/type_list.hpp
index cf843cc..39ba4f6 100644
--- a/include/dice/template-library/type_list.hpp
+++ b/include/dice/template-library/type_list.hpp
@@ -692,10 +692,10 @@ namespace dice::template_library::type_list {
 		// Recursive step
 		template<typename ...Seen, typename T, typename ...Remaining>
 		struct unique_impl<type_list<Seen...>, T, Remaining...> {
-			using type = std::conditional_t<
+			using type = typename std::conditional_t<
 					contains_v<type_list<Seen...>, T>,
-					typename unique_impl<type_list<Seen...>, Remaining...>::type,
-					typename unique_impl<type_list<Seen..., T>, Remaining...>::type>;
+					unique_impl<type_list<Seen...>, Remaining...>,
+					unique_impl<type_list<Seen..., T>, Remaining...>>::type;
 		};
 	}// namespace detail_unique
 
-- 
2.43.0


From 39a710c3bed9d17155926b9fa2bc7b8cceb79ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:47 +0000
Subject: [PATCH 42/55] fix: limit_allocator accepted element counts whose byte
 size is not representable

---
 include/dice/template-library/limit_allocator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index 60dbf04..71a954d 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -147,6 +147,10 @@ namespace dice::template_library {
 		}
 
 		constexpr pointer allocate(size_t n) {
+			if (n > static_cast<size_t>(-1) / sizeof(T)) [[unlikely]] {
+				throw std::bad_array_new_length{};
+			}
+
 			control_block_->allocate(n * sizeof(T));
 
 			try {
-- 
2.43.0


From 9fa1d0c42d6381fd068dc3f05be5dd72a586c72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:47 +0000
Subject: [PATCH 43/55] fix: flex_array terminated the program if copying or
 comparing an element throws

---
 include/dice/template-library/flex_array.hpp | 58 ++++++++++----------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/include/dice/template-library/flex_array.hpp b/include/dice/template-library/flex_array.hpp
index 20f815d..c9d9c16 100644
--- a/include/dice/template-library/flex_array.hpp
+++ b/include/dice/template-library/flex_array.hpp
@@ -52,7 +52,7 @@ namespace dice::template_library {
 				return data_;
 			}
 
-			constexpr auto operator<=>(flex_array_inner const &) const noexcept = default;
+			constexpr auto operator<=>(flex_array_inner const &) const = default;
 		};
 
 		template<typename T, size_t max_extent>
@@ -81,14 +81,14 @@ namespace dice::template_library {
 			}
 
 			template<typename Cmp>
-			constexpr auto lex_compare_impl(flex_array_inner const &other) const noexcept {
+			constexpr auto lex_compare_impl(flex_array_inner const &other) const {
 				std::span<T const> const self_s{*this};
 				std::span<T const> const other_s{other};
 				return std::ranges::lexicographical_compare(self_s, other_s, Cmp{});
 			}
 
 			template<typename Cmp>
-			constexpr auto eq_compare_impl(flex_array_inner const &other) const noexcept {
+			constexpr auto eq_compare_impl(flex_array_inner const &other) const {
 				std::span<T const> const self_s{*this};
 				std::span<T const> const other_s{other};
 				return std::ranges::equal(self_s, other_s, Cmp{});
@@ -97,33 +97,33 @@ namespace dice::template_library {
 			// operator <=> is not defaulted
 			// so we need to provide all comparison operators manually
 
-			constexpr auto operator<=>(flex_array_inner const &other) const noexcept requires requires (T x) { x <=> x; } {
+			constexpr auto operator<=>(flex_array_inner const &other) const requires requires (T x) { x <=> x; } {
 				std::span<T const> const self_s{*this};
 				std::span<T const> const other_s{other};
 				return std::lexicographical_compare_three_way(self_s.begin(), self_s.end(), other_s.begin(), other_s.end());
 			}
 
-			constexpr bool operator==(flex_array_inner const &other) const noexcept requires requires (T x) { x == x; } {
+			constexpr bool operator==(flex_array_inner const &other) const requires requires (T x) { x == x; } {
 				return eq_compare_impl<std::equal_to<T>>(other);
 			}
 
-			constexpr bool operator!=(flex_array_inner const &other) const noexcept requires requires (T x) { x != x; } {
+			constexpr bool operator!=(flex_array_inner const &other) const requires requires (T x) { x != x; } {
 				return eq_compare_impl<std::not_equal_to<T>>(other);
 			}
 
-			constexpr bool operator<(flex_array_inner const &other) const noexcept requires requires (T x) { x < x; } {
+			constexpr bool operator<(flex_array_inner const &other) const requires requires (T x) { x < x; } {
 				return lex_compare_impl<std::less<T>>(other);
 			}
 
-			constexpr bool operator<=(flex_array_inner const &other) const noexcept requires requires (T x) { x <= x; } {
+			constexpr bool operator<=(flex_array_inner const &other) const requires requires (T x) { x <= x; } {
 				return lex_compare_impl<std::less_equal<T>>(other);
 			}
 
-			constexpr bool operator>(flex_array_inner const &other) const noexcept requires requires (T x) { x > x; } {
+			constexpr bool operator>(flex_array_inner const &other) const requires requires (T x) { x > x; } {
 				return lex_compare_impl<std::greater<T>>(other);
 			}
 
-			constexpr bool operator>=(flex_array_inner const &other) const noexcept requires requires (T x) { x >= x; } {
+			constexpr bool operator>=(flex_array_inner const &other) const requires requires (T x) { x >= x; } {
 				return lex_compare_impl<std::greater_equal<T>>(other);
 			}
 		};
@@ -150,8 +150,8 @@ namespace dice::template_library {
 				data_.resize(size);
 			}
 
-			bool operator==(flex_array_inner const &other) const noexcept = default;
-			auto operator<=>(flex_array_inner const &other) const noexcept = default;
+			bool operator==(flex_array_inner const &other) const = default;
+			auto operator<=>(flex_array_inner const &other) const = default;
 		};
 
 #if __has_include(<ankerl/svector.h>)
@@ -179,14 +179,14 @@ namespace dice::template_library {
 			}
 
 			template<typename Cmp>
-			constexpr auto lex_compare_impl(flex_array_inner const &other) const noexcept {
+			constexpr auto lex_compare_impl(flex_array_inner const &other) const {
 				std::span<T const> const self_s{*this};
 				std::span<T const> const other_s{other};
 				return std::ranges::lexicographical_compare(self_s, other_s, Cmp{});
 			}
 
 			template<typename Cmp>
-			constexpr auto eq_compare_impl(flex_array_inner const &other) const noexcept {
+			constexpr auto eq_compare_impl(flex_array_inner const &other) const {
 				std::span<T const> const self_s{*this};
 				std::span<T const> const other_s{other};
 				return std::ranges::equal(self_s, other_s, Cmp{});
@@ -195,33 +195,33 @@ namespace dice::template_library {
 			// operator <=> is not defaulted
 			// so we need to provide all comparison operators manually
 
-			constexpr auto operator<=>(flex_array_inner const &other) const noexcept requires requires (T x) { x <=> x; } {
+			constexpr auto operator<=>(flex_array_inner const &other) const requires requires (T x) { x <=> x; } {
 				std::span<T const> const self_s{*this};
 				std::span<T const> const other_s{other};
 				return std::lexicographical_compare_three_way(self_s.begin(), self_s.end(), other_s.begin(), other_s.end());
 			}
 
-			constexpr bool operator==(flex_array_inner const &other) const noexcept requires requires (T x) { x == x; } {
+			constexpr bool operator==(flex_array_inner const &other) const requires requires (T x) { x == x; } {
 				return eq_compare_impl<std::equal_to<T>>(other);
 			}
 
-			constexpr bool operator!=(flex_array_inner const &other) const noexcept requires requires (T x) { x != x; } {
+			constexpr bool operator!=(flex_array_inner const &other) const requires requires (T x) { x != x; } {
 				return eq_compare_impl<std::not_equal_to<T>>(other);
 			}
 
-			constexpr bool operator<(flex_array_inner const &other) const noexcept requires requires (T x) { x < x; } {
+			constexpr bool operator<(flex_array_inner const &other) const requires requires (T x) { x < x; } {
 				return lex_compare_impl<std::less<T>>(other);
 			}
 
-			constexpr bool operator<=(flex_array_inner const &other) const noexcept requires requires (T x) { x <= x; } {
+			constexpr bool operator<=(flex_array_inner const &other) const requires requires (T x) { x <= x; } {
 				return lex_compare_impl<std::less_equal<T>>(other);
 			}
 
-			constexpr bool operator>(flex_array_inner const &other) const noexcept requires requires (T x) { x > x; } {
+			constexpr bool operator>(flex_array_inner const &other) const requires requires (T x) { x > x; } {
 				return lex_compare_impl<std::greater<T>>(other);
 			}
 
-			constexpr bool operator>=(flex_array_inner const &other) const noexcept requires requires (T x) { x >= x; } {
+			constexpr bool operator>=(flex_array_inner const &other) const requires requires (T x) { x >= x; } {
 				return lex_compare_impl<std::greater_equal<T>>(other);
 			}
 		};
@@ -278,11 +278,11 @@ namespace dice::template_library {
 		inner_type inner_;
 
 	public:
-		constexpr flex_array() noexcept = default;
-		constexpr flex_array(flex_array const &) noexcept = default;
-		constexpr flex_array(flex_array &&) noexcept = default;
-		constexpr flex_array &operator=(flex_array const &) noexcept = default;
-		constexpr flex_array &operator=(flex_array &&) noexcept = default;
+		constexpr flex_array() = default;
+		constexpr flex_array(flex_array const &) = default;
+		constexpr flex_array(flex_array &&) = default;
+		constexpr flex_array &operator=(flex_array const &) = default;
+		constexpr flex_array &operator=(flex_array &&) = default;
 		constexpr ~flex_array() noexcept = default;
 
 		/**
@@ -367,7 +367,7 @@ namespace dice::template_library {
 		 * Converts from a flex_array of static extent to a flex_array of dynamic extent
 		 */
 		template<size_t other_extent>
-		constexpr flex_array(flex_array<value_type, other_extent> const &other) noexcept requires (has_dynamic_extent && other_extent != dynamic_extent) {
+		constexpr flex_array(flex_array<value_type, other_extent> const &other) requires (has_dynamic_extent && other_extent != dynamic_extent) {
 			static_assert(other_extent <= max_extent, "extent of other is too large for this flex_array");
 
 			inner_.set_size(other.size());
@@ -415,9 +415,9 @@ namespace dice::template_library {
 		constexpr reference operator[](size_type const ix) noexcept { return inner_.data_[ix]; }
 		constexpr const_reference operator[](size_type const ix) const noexcept { return inner_.data_[ix]; }
 
-		constexpr auto operator<=>(flex_array const &other) const noexcept = default;
+		constexpr auto operator<=>(flex_array const &other) const = default;
 
-		friend constexpr void swap(flex_array &lhs, flex_array &rhs) noexcept {
+		friend constexpr void swap(flex_array &lhs, flex_array &rhs) noexcept(std::is_nothrow_swappable_v<inner_type>) {
 			std::swap(lhs.inner_, rhs.inner_);
 		}
 	};
-- 
2.43.0


From 6987dc65f6311fd74e47c5f836b6a623841f46fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:47 +0000
Subject: [PATCH 44/55] fix: tuple_fold and tuple_type_fold terminated the
 program if the function throws

---
 include/dice/template-library/tuple_algorithm.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/tuple_algorithm.hpp b/include/dice/template-library/tuple_algorithm.hpp
index 5284a8e..080f0b2 100644
--- a/include/dice/template-library/tuple_algorithm.hpp
+++ b/include/dice/template-library/tuple_algorithm.hpp
@@ -30,13 +30,13 @@ namespace dice::template_library {
 		}
 
 		template<typename Tuple, typename Acc, typename FoldF, size_t... Ixs>
-		constexpr Acc tuple_type_fold_impl(std::index_sequence<Ixs...>, Acc init, FoldF f) noexcept {
+		constexpr Acc tuple_type_fold_impl(std::index_sequence<Ixs...>, Acc init, FoldF f) {
 			((init = f.template operator()<std::tuple_element_t<Ixs, Tuple>>(std::move(init))), ...);
 			return init;
 		}
 
 		template<typename Tuple, typename Acc, typename FoldF, size_t... Ixs>
-		constexpr Acc tuple_fold_impl(std::index_sequence<Ixs...>, Tuple const &tuple, Acc init, FoldF f) noexcept {
+		constexpr Acc tuple_fold_impl(std::index_sequence<Ixs...>, Tuple const &tuple, Acc init, FoldF f) {
 			((init = f(std::move(init), get_impl<Ixs>(tuple))), ...);
 			return init;
 		}
@@ -63,7 +63,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr std::remove_cvref_t<Acc> tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) noexcept {
+	constexpr std::remove_cvref_t<Acc> tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) {
 		return tuple_algo_detail::tuple_fold_impl(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<Tuple>>>{}, tuple, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
@@ -77,7 +77,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr std::remove_cvref_t<Acc> tuple_type_fold(Acc &&init, FoldF &&f) noexcept {
+	constexpr std::remove_cvref_t<Acc> tuple_type_fold(Acc &&init, FoldF &&f) {
 		return tuple_algo_detail::tuple_type_fold_impl<Tuple>(std::make_index_sequence<std::tuple_size_v<Tuple>>{}, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
-- 
2.43.0


From 6f0a0f726d45f733adeac194ad4c5e4f4f8ebb21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:47 +0000
Subject: [PATCH 45/55] fix: exceptions from flushing streams escaped into the
 code of the caller in the sandboxed process

---
 include/dice/template-library/sandbox.hpp | 33 +++++++++++++----------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/include/dice/template-library/sandbox.hpp b/include/dice/template-library/sandbox.hpp
index f5bdd60..a2ab8c7 100644
--- a/include/dice/template-library/sandbox.hpp
+++ b/include/dice/template-library/sandbox.hpp
@@ -87,6 +87,24 @@ namespace dice::template_library {
             }
         }
 
+        // noexcept for the same reason: no exception may escape into the code of the caller, e.g. from a stream
+        // that is set up to throw if it cannot be flushed
+        template<typename F>
+        [[noreturn]] void run_child(F &&func) noexcept {
+            // remove signal handles that may have been installed (e.g. by doctest)
+            clear_all_signal_handlers();
+
+            // invoke user provided function
+
+            int const exit_code = invoke_like_main(std::forward<F>(func));
+
+            // flush again, to avoid loosing output if the function does not abort
+            flush_all_streams();
+
+            // ensure no destructors can run even if func does not abort
+            _exit(exit_code);
+        }
+
         struct SandBox {};
 
         template<typename F>
@@ -103,20 +121,7 @@ namespace dice::template_library {
             }
 
             if (pid == 0) {
-                // child process
-
-                // remove signal handles that may have been installed (e.g. by doctest)
-                clear_all_signal_handlers();
-
-                // invoke user provided function
-
-                int const exit_code = invoke_like_main(std::move(func));
-
-                // flush again, to avoid loosing output if the function does not abort
-                flush_all_streams();
-
-                // ensure no destructors can run even if func does not abort
-                _exit(exit_code);
+                run_child(std::move(func));
             }
 
             // parent process
-- 
2.43.0


From 450c3a0936cd8035a4c47a732598b43ee1cdcb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:47 +0000
Subject: [PATCH 46/55] fix: channel iterators terminated the program if moving
 an element throws

---
 include/dice/template-library/channel.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index 2228a69..92194d3 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -240,12 +240,12 @@ namespace dice::template_library {
             channel_type *chan_;
             mutable std::optional<value_type> buf_; ///< this has to be mutable for this iterator to fullfill std::input_iterator
 
-            void advance() noexcept {
+            void advance() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
                 buf_ = chan_->pop();
             }
 
         public:
-            explicit iterator(channel_type *chan) noexcept : chan_{chan} {
+            explicit iterator(channel_type *chan) noexcept(std::is_nothrow_move_constructible_v<value_type>) : chan_{chan} {
                 advance();
             }
 
@@ -280,12 +280,12 @@ namespace dice::template_library {
                 return &*buf_;
             }
 
-            iterator &operator++() noexcept {
+            iterator &operator++() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
                 advance();
                 return *this;
             }
 
-            void operator++(int) noexcept {
+            void operator++(int) noexcept(std::is_nothrow_move_constructible_v<value_type>) {
                 advance();
             }
 
@@ -300,7 +300,7 @@ namespace dice::template_library {
          * @return an iterator over all present and future elements of this channel
          * @note iterator == end() is true once the channel is closed
          */
-        [[nodiscard]] iterator begin() noexcept {
+        [[nodiscard]] iterator begin() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
             return iterator{this};
         }
 
-- 
2.43.0


From 77caad8d2fd26f70cd7c223aca47780f90330ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:47 +0000
Subject: [PATCH 47/55] fix: comparisons of variants and tuples terminated the
 program if comparing elements throws

---
 include/dice/template-library/integral_template_tuple.hpp | 4 ++--
 .../dice/template-library/integral_template_variant.hpp   | 4 ++--
 include/dice/template-library/standard_layout_tuple.hpp   | 8 ++++----
 include/dice/template-library/variant2.hpp                | 4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/dice/template-library/integral_template_tuple.hpp b/include/dice/template-library/integral_template_tuple.hpp
index 07e40cd..bb78404 100644
--- a/include/dice/template-library/integral_template_tuple.hpp
+++ b/include/dice/template-library/integral_template_tuple.hpp
@@ -121,8 +121,8 @@ namespace dice::template_library {
 					dice::template_library::forward_like<Self>(self.base::template subtuple<make_index<new_first>(), sub_last>()));
 		}
 
-		constexpr auto operator<=>(integral_template_tuple const &other) const noexcept = default;
-		constexpr bool operator==(integral_template_tuple const &other) const noexcept = default;
+		constexpr auto operator<=>(integral_template_tuple const &other) const = default;
+		constexpr bool operator==(integral_template_tuple const &other) const = default;
 	};
 
 }// namespace dice::template_library
diff --git a/include/dice/template-library/integral_template_variant.hpp b/include/dice/template-library/integral_template_variant.hpp
index 6daf9c1..a406ade 100644
--- a/include/dice/template-library/integral_template_variant.hpp
+++ b/include/dice/template-library/integral_template_variant.hpp
@@ -128,8 +128,8 @@ namespace dice::template_library {
 			return std::holds_alternative<U>(repr_);
 		}
 
-		constexpr auto operator<=>(integral_template_variant const &other) const noexcept = default;
-		bool operator==(integral_template_variant const &other) const noexcept = default; // constexpr if possible; stating it rejects alternatives that are not comparable
+		constexpr auto operator<=>(integral_template_variant const &other) const = default;
+		bool operator==(integral_template_variant const &other) const = default; // constexpr if possible; stating it rejects alternatives that are not comparable
 	};
 
 }// namespace dice::template_library
diff --git a/include/dice/template-library/standard_layout_tuple.hpp b/include/dice/template-library/standard_layout_tuple.hpp
index 2551fef..92554db 100644
--- a/include/dice/template-library/standard_layout_tuple.hpp
+++ b/include/dice/template-library/standard_layout_tuple.hpp
@@ -60,8 +60,8 @@ namespace dice::template_library {
 			return *this;
 		}
 
-		constexpr auto operator<=>(standard_layout_tuple const &other) const noexcept = default;
-		constexpr bool operator==(standard_layout_tuple const &other) const noexcept = default;
+		constexpr auto operator<=>(standard_layout_tuple const &other) const = default;
+		constexpr bool operator==(standard_layout_tuple const &other) const = default;
 	};
 
 	template<typename T, typename ...Ts>
@@ -142,8 +142,8 @@ namespace dice::template_library {
 			}
 		}
 
-		constexpr auto operator<=>(standard_layout_tuple const &other) const noexcept = default;
-		constexpr bool operator==(standard_layout_tuple const &other) const noexcept = default;
+		constexpr auto operator<=>(standard_layout_tuple const &other) const = default;
+		constexpr bool operator==(standard_layout_tuple const &other) const = default;
 	};
 
 } // namespace dice::template_library
diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 17fa24c..2187c37 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -733,7 +733,7 @@ namespace dice::template_library {
             rhs = std::move(tmp);
         }
 
-        constexpr bool operator==(variant2 const &other) const noexcept requires (std::equality_comparable<T> && std::equality_comparable<U>) {
+        constexpr bool operator==(variant2 const &other) const requires (std::equality_comparable<T> && std::equality_comparable<U>) {
             if (discriminant_ != other.discriminant_) {
                 return false;
             }
@@ -755,7 +755,7 @@ namespace dice::template_library {
             }
         }
 
-        constexpr auto operator<=>(variant2 const &other) const noexcept requires (std::three_way_comparable<T> && std::three_way_comparable<U>) {
+        constexpr auto operator<=>(variant2 const &other) const requires (std::three_way_comparable<T> && std::three_way_comparable<U>) {
             using ret_type = std::common_comparison_category_t<std::compare_three_way_result_t<T>, std::compare_three_way_result_t<U>>;
 
             if (discriminant_ != other.discriminant_) {
-- 
2.43.0


From 4fb89ab19b4d88fd5a20f9640d661545072420e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:28 +0000
Subject: [PATCH 48/55] fix: variant2 wrapped alternatives into a list of
 themselves when copying or moving them

Copies, moves and values were initialized with braces, which prefers an
initializer_list constructor: a copied vector<any> held a vector<any>.
---
 include/dice/template-library/variant2.hpp | 48 +++++++++++-----------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 2187c37..780151a 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -215,11 +215,11 @@ namespace dice::template_library {
             : discriminant_{other.discriminant_} {
             switch (discriminant_) {
                 case discriminant_type::First: {
-                    new (&a_) T{other.a_};
+                    new (&a_) T(other.a_);
                     break;
                 }
                 case discriminant_type::Second: {
-                    new (&b_) U{other.b_};
+                    new (&b_) U(other.b_);
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
@@ -242,11 +242,11 @@ namespace dice::template_library {
             : discriminant_{other.discriminant_} {
             switch (discriminant_) {
                 case discriminant_type::First: {
-                    new (&a_) T{std::move(other.a_)};
+                    new (&a_) T(std::move(other.a_));
                     break;
                 }
                 case discriminant_type::Second: {
-                    new (&b_) U{std::move(other.b_)};
+                    new (&b_) U(std::move(other.b_));
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
@@ -262,22 +262,22 @@ namespace dice::template_library {
 
         constexpr variant2(T const &value) noexcept(std::is_nothrow_copy_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{value};
+            new (&a_) T(value);
         }
 
         constexpr variant2(T &&value) noexcept(std::is_nothrow_move_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{std::move(value)};
+            new (&a_) T(std::move(value));
         }
 
         constexpr variant2(U const &value) noexcept(std::is_nothrow_copy_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{value};
+            new (&b_) U(value);
         }
 
         constexpr variant2(U &&value) noexcept(std::is_nothrow_move_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{std::move(value)};
+            new (&b_) U(std::move(value));
         }
 
         template<typename ...Args>
@@ -357,7 +357,7 @@ namespace dice::template_library {
                         }
                         case discriminant_type::Second: {
                             a_.~T();
-                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, { new (&b_) U{other.b_}; });
+                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, { new (&b_) U(other.b_); });
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -375,7 +375,7 @@ namespace dice::template_library {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
                             b_.~U();
-                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, { new (&a_) T{other.a_}; });
+                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, { new (&a_) T(other.a_); });
                             break;
                         }
                         case discriminant_type::Second: {
@@ -396,11 +396,11 @@ namespace dice::template_library {
                 case discriminant_type::ValuelessByException: {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
-                            new (&a_) T{other.a_};
+                            new (&a_) T(other.a_);
                             break;
                         }
                         case discriminant_type::Second: {
-                            new (&b_) U{other.b_};
+                            new (&b_) U(other.b_);
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -451,7 +451,7 @@ namespace dice::template_library {
                         case discriminant_type::Second: {
                             a_.~T();
                             DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<U>, {
-                                new (&b_) U{std::move(other.b_)};
+                                new (&b_) U(std::move(other.b_));
                             });
                             break;
                         }
@@ -471,7 +471,7 @@ namespace dice::template_library {
                         case discriminant_type::First: {
                             b_.~U();
                             DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<T>, {
-                                new (&a_) T{std::move(other.a_)};
+                                new (&a_) T(std::move(other.a_));
                             });
                             break;
                         }
@@ -493,11 +493,11 @@ namespace dice::template_library {
                 case discriminant_type::ValuelessByException: {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
-                            new (&a_) T{std::move(other.a_)};
+                            new (&a_) T(std::move(other.a_));
                             break;
                         }
                         case discriminant_type::Second: {
-                            new (&b_) U{std::move(other.b_)};
+                            new (&b_) U(std::move(other.b_));
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -534,13 +534,13 @@ namespace dice::template_library {
                 case discriminant_type::Second: {
                     b_.~U();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, {
-                        new (&a_) T{value};
+                        new (&a_) T(value);
                     });
                     discriminant_ = discriminant_type::First;
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&a_) T{value};
+                    new (&a_) T(value);
                     discriminant_ = discriminant_type::First;
                     break;
                 }
@@ -565,13 +565,13 @@ namespace dice::template_library {
                 case discriminant_type::Second: {
                     b_.~U();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<T>, {
-                        new (&a_) T{std::move(value)};
+                        new (&a_) T(std::move(value));
                     });
                     discriminant_ = discriminant_type::First;
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&a_) T{std::move(value)};
+                    new (&a_) T(std::move(value));
                     discriminant_ = discriminant_type::First;
                     break;
                 }
@@ -591,7 +591,7 @@ namespace dice::template_library {
                 case discriminant_type::First: {
                     a_.~T();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, {
-                        new (&b_) U{value};
+                        new (&b_) U(value);
                     });
                     discriminant_ = discriminant_type::Second;
                     break;
@@ -601,7 +601,7 @@ namespace dice::template_library {
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&b_) U{value};
+                    new (&b_) U(value);
                     discriminant_ = discriminant_type::Second;
                     break;
                 }
@@ -620,7 +620,7 @@ namespace dice::template_library {
                 case discriminant_type::First: {
                     a_.~T();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<U>, {
-                        new (&b_) U{std::move(value)};
+                        new (&b_) U(std::move(value));
                     });
                     discriminant_ = discriminant_type::Second;
                     break;
@@ -630,7 +630,7 @@ namespace dice::template_library {
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&b_) U{std::move(value)};
+                    new (&b_) U(std::move(value));
                     discriminant_ = discriminant_type::Second;
                     break;
                 }
-- 
2.43.0


From 01d5306a7b7f9adef7a3227ab011875341d6c63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:28 +0000
Subject: [PATCH 49/55] fix: mutex and shared_mutex wrapped their initial value
 into a list of itself

---
 include/dice/template-library/mutex.hpp        | 4 ++--
 include/dice/template-library/shared_mutex.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 22c7498..18aeb24 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -89,11 +89,11 @@ namespace dice::template_library {
         mutex &operator=(mutex &&other) = delete;
 
         explicit constexpr mutex(value_type const &value) noexcept(std::is_nothrow_copy_constructible_v<value_type>)
-            : value_{value} {
+            : value_(value) {
         }
 
         explicit constexpr mutex(value_type &&value) noexcept(std::is_nothrow_move_constructible_v<value_type>)
-            : value_{std::move(value)} {
+            : value_(std::move(value)) {
         }
 
         template<typename ...Args>
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index 1be577f..e2fee3b 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -91,11 +91,11 @@ namespace dice::template_library {
         shared_mutex &operator=(shared_mutex &&other) = delete;
 
         explicit constexpr shared_mutex(value_type const &value) noexcept(std::is_nothrow_copy_constructible_v<value_type>)
-            : value_{value} {
+            : value_(value) {
         }
 
         explicit constexpr shared_mutex(value_type &&value) noexcept(std::is_nothrow_move_constructible_v<value_type>)
-            : value_{std::move(value)} {
+            : value_(std::move(value)) {
         }
 
         template<typename ...Args>
-- 
2.43.0


From d2bf8eb771a8e24196132d52be7704d0cdd40f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:28 +0000
Subject: [PATCH 50/55] fix: standard_layout_tuple wrapped elements into lists
 of themselves

---
 include/dice/template-library/standard_layout_tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/standard_layout_tuple.hpp b/include/dice/template-library/standard_layout_tuple.hpp
index 92554db..576fd02 100644
--- a/include/dice/template-library/standard_layout_tuple.hpp
+++ b/include/dice/template-library/standard_layout_tuple.hpp
@@ -83,7 +83,7 @@ namespace dice::template_library {
 
 		template<typename Arg, typename ...Args>
 		explicit constexpr standard_layout_tuple(individual_construct_t, Arg &&first, Args &&...rest) requires (sizeof...(Ts) == sizeof...(Args))
-			: first{std::forward<Arg>(first)},
+			: first(std::forward<Arg>(first)),
 			  rest{std::forward<Args>(rest)...}
 		{
 		}
-- 
2.43.0


From 4d0cbf403ec09a04f4bdbeec49f58c38eb27bdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:28 +0000
Subject: [PATCH 51/55] fix: remove_element wrapped the removed value into a
 list of itself

---
 include/dice/template-library/ranges.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 9ad85a5..67af217 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -137,7 +137,7 @@ namespace dice::template_library {
 		public:
 			template<typename V, typename P>
 			constexpr remove_element_pipeline(V &&value, P &&pred)
-				: value_{std::forward<V>(value)}, pred_{std::forward<P>(pred)} {
+				: value_(std::forward<V>(value)), pred_{std::forward<P>(pred)} {
 			}
 
 			template<std::ranges::viewable_range R>
-- 
2.43.0


From 6aa9f8fd3f175330db9a4d47dd7cde359cc8636c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:28 +0000
Subject: [PATCH 52/55] fix: all_equal compared with a reference that no longer
 referred to the first element

For ranges with proxy references (zip, ...) over single pass iterators,
the copied reference refers to an element that is gone after incrementing.
---
 include/dice/template-library/ranges.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 67af217..57c2bbb 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -179,7 +179,7 @@ namespace dice::template_library {
                 return true;
             }
 
-            auto const first_element = *first;
+            std::iter_value_t<I> const first_element(*first); // note: the reference might be a proxy that refers to an element that is gone after incrementing
             ++first;
 
             // Check if all subsequent elements in the range match the first one.
-- 
2.43.0


From 013c90f79c19298b91ea3fff5f4792c6b7949582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:28 +0000
Subject: [PATCH 53/55] fix: copying a non-const iterator of next_to_range
 skipped an element

The variadic constructor was preferred over the copy constructor; it
sliced the iterator and advanced the copy.
---
 include/dice/template-library/next_to_range.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/next_to_range.hpp b/include/dice/template-library/next_to_range.hpp
index f1eb233..f00bb6c 100644
--- a/include/dice/template-library/next_to_range.hpp
+++ b/include/dice/template-library/next_to_range.hpp
@@ -131,7 +131,8 @@ namespace dice::template_library {
 		public:
             template<typename... Args>
             explicit constexpr next_to_iter_impl(Args &&...args)
-                    requires (std::is_constructible_v<Iter, decltype(std::forward<Args>(args))...>)
+                    requires (std::is_constructible_v<Iter, decltype(std::forward<Args>(args))...>
+                              && !(sizeof...(Args) == 1 && (std::is_base_of_v<next_to_iter_impl, std::remove_cvref_t<Args>> && ...)))
                 : Iter{std::forward<Args>(args)...},
                   cur_{next()} {
             }
-- 
2.43.0


From e3d99fd42a8b755fe0594bca2b8300163e976fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:28 +0000
Subject: [PATCH 54/55] fix: containers with a limit_allocator could not be
 copied if the upstream is not default constructible

---
 include/dice/template-library/limit_allocator.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index 71a954d..3b0e98f 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -96,7 +96,6 @@ namespace dice::template_library {
 		[[no_unique_address]] upstream_allocator_type inner_;
 
 		constexpr limit_allocator(std::shared_ptr<control_block_type> const &control_block, upstream_allocator_type const &alloc)
-                requires (std::is_default_constructible_v<upstream_allocator_type>)
             : control_block_{control_block},
               inner_{alloc} {
         }
-- 
2.43.0


From c949194fce8bd227487a41607573f6f487e19f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:22 +0000
Subject: [PATCH 55/55] fix: range() over a class terminated the program if its
 arithmetic throws

---
 include/dice/template-library/ranges.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 57c2bbb..3f839d1 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -377,7 +377,7 @@ namespace dice::template_library {
 			}
 
 		public:
-            range_iterator() noexcept
+            range_iterator() noexcept(std::is_nothrow_default_constructible_v<T> && std::is_nothrow_constructible_v<S, int>)
                     requires (std::is_default_constructible_v<T> && std::is_constructible_v<S, int>)
                 : current_{},
                   stop_{},
@@ -391,7 +391,7 @@ namespace dice::template_library {
 				}
 			}
 
-			[[nodiscard]] constexpr std::optional<T> next() noexcept {
+			[[nodiscard]] constexpr std::optional<T> next() noexcept(std::is_arithmetic_v<T> && std::is_arithmetic_v<S>) {
 				if (step_ > S{}) {
 					if (current_ >= stop_) {
 						return std::nullopt;
-- 
2.43.0

