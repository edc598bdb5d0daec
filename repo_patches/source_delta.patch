From 233f1e4e8eeb5cb3738145d28581320a18e6497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:32 +0000
Subject: [PATCH 01/14] fix: call operator of function<> with non-default
 capacity or alignment

function_traits cast itself to function<Signature> with the default
storage parameters, so invoking any other instantiation did not compile.
---
 include/embedded/function.h | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 81b06fb..e33505a 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -121,30 +121,33 @@ struct is_function : std::false_type {};
 template <typename S, size_t C, size_t A>
 struct is_function<function<S, C, A>> : std::true_type {};
 
-template <typename Signature>
+template <typename Signature, size_t Capacity, size_t Alignment>
 struct function_traits;
 
-template <typename Return, typename... Args>
-struct function_traits<Return(Args...)> {
+template <typename Return, typename... Args, size_t Capacity, size_t Alignment>
+struct function_traits<Return(Args...), Capacity, Alignment> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, T&, Args...>;
   using signature = Return(Args...);
 
   Return operator()(Args... args) {
-    auto fn = static_cast<function<Return(Args...)>*>(this);
+    auto fn =
+        static_cast<function<Return(Args...), Capacity, Alignment>*>(this);
     return fn->vtbl_->call(std::addressof(fn->storage_),
                            std::forward<Args>(args)...);
   }
 };
 
-template <typename Return, typename... Args>
-struct function_traits<Return(Args...) const> {
+template <typename Return, typename... Args, size_t Capacity, size_t Alignment>
+struct function_traits<Return(Args...) const, Capacity, Alignment> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, const T&, Args...>;
   using signature = Return(Args...);
 
   Return operator()(Args... args) const {
-    auto fn = static_cast<function<Return(Args...) const> const*>(this);
+    auto fn =
+        static_cast<function<Return(Args...) const, Capacity, Alignment> const*>(
+            this);
     return fn->vtbl_->call(std::addressof(fn->storage_),
                            std::forward<Args>(args)...);
   }
@@ -175,9 +178,10 @@ struct function_traits<Return(Args...) const> {
  * https://github.com/WG21-SG14/SG14/blob/master/Docs/Proposals/NonAllocatingStandardFunction.pdf
  */
 template <typename Signature, size_t Capacity, size_t Alignment>
-class function final : private detail::function_traits<Signature> {
+class function final
+    : private detail::function_traits<Signature, Capacity, Alignment> {
  public:
-  using traits = detail::function_traits<Signature>;
+  using traits = detail::function_traits<Signature, Capacity, Alignment>;
   using signature = typename traits::signature;
   using vtbl_t = detail::vtbl<signature>;
   using empty_vtbl = detail::empty_vtbl<signature>;
-- 
2.43.0


From f06f000fabc99527b93297b459b9908603f1c475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:53 +0000
Subject: [PATCH 02/14] fix: const function<> calls its target as a const
 object

A function with a const signature dispatched to the non-const call
operator of its target, which could then be modified through a const
wrapper.
---
 include/embedded/function.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index e33505a..24191b3 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -65,7 +65,7 @@ class vtbl<Return(Args...)> {
   template <typename T>
   explicit constexpr vtbl(wrap<T>) noexcept
       : call{&vt_call<T>}
-      , proc{&vt_proc<T>} {}
+      , proc{&vt_proc<typename std::remove_const<T>::type>} {}
 
  private:
   static Return empty_call(storage_t, Args&&...) {
@@ -128,6 +128,8 @@ template <typename Return, typename... Args, size_t Capacity, size_t Alignment>
 struct function_traits<Return(Args...), Capacity, Alignment> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, T&, Args...>;
+  template <typename T>
+  using target = T;
   using signature = Return(Args...);
 
   Return operator()(Args... args) {
@@ -142,6 +144,8 @@ template <typename Return, typename... Args, size_t Capacity, size_t Alignment>
 struct function_traits<Return(Args...) const, Capacity, Alignment> {
   template <typename T>
   using is_invocable = is_invocable_r<Return, const T&, Args...>;
+  template <typename T>
+  using target = T const;
   using signature = Return(Args...);
 
   Return operator()(Args... args) const {
@@ -186,7 +190,8 @@ class function final
   using vtbl_t = detail::vtbl<signature>;
   using empty_vtbl = detail::empty_vtbl<signature>;
   template <typename T>
-  using typed_vtbl = detail::typed_vtbl<signature, T>;
+  using typed_vtbl =
+      detail::typed_vtbl<signature, typename traits::template target<T>>;
 
   friend traits;
 
-- 
2.43.0


From f5dfc4baa19b89afcf30ab5647a723d8a5436635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:42 +0000
Subject: [PATCH 03/14] fix: make the circular buffer's const_iterator usable

For a non-const element type the const_iterator could not be copied,
moved along the buffer or used to obtain a raw index: the copy
constructor was suppressed, and its pointer to const could not be passed
to the adapter.
---
 include/embedded/detail/circular_buffer_adapter.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/embedded/detail/circular_buffer_adapter.h b/include/embedded/detail/circular_buffer_adapter.h
index 02b51b7..1e72ca1 100644
--- a/include/embedded/detail/circular_buffer_adapter.h
+++ b/include/embedded/detail/circular_buffer_adapter.h
@@ -67,10 +67,16 @@ class cba_iterator {
 
   cba_iterator() = default;
 
-  cba_iterator(cba_iterator<T, cba_mutable_iterator_traits<T>> const& other)
+  template <typename Tr,
+            typename std::enable_if<
+                std::is_same<Tr, cba_mutable_iterator_traits<T>>::value &&
+                    !std::is_same<Tr, Traits>::value,
+                bool>::type = true>
+  cba_iterator(cba_iterator<T, Tr> const& other)
       : adapter_{other.adapter_}
       , it_{other.it_} {}
 
+  cba_iterator(cba_iterator const&) = default;
   cba_iterator(cba_iterator&&) = default;
   cba_iterator& operator=(cba_iterator const&) = default;
   cba_iterator& operator=(cba_iterator&&) = default;
@@ -183,7 +189,7 @@ class cba_iterator {
   }
 
  private:
-  cba_iterator(circular_buffer_adapter<T> const* adapter, pointer it)
+  cba_iterator(circular_buffer_adapter<T> const* adapter, T* it)
       : adapter_{adapter}
       , it_{it} {}
 
@@ -191,10 +197,10 @@ class cba_iterator {
     return it_ ? adapter_->index(it_) : adapter_->size();
   }
 
-  pointer realiter() const { return it_ ? it_ : adapter_->last_; }
+  T* realiter() const { return it_ ? it_ : adapter_->last_; }
 
   circular_buffer_adapter<T> const* adapter_{nullptr};
-  pointer it_{nullptr};
+  T* it_{nullptr};
 };
 
 template <typename T, typename Traits>
-- 
2.43.0


From c0e0ccd41d7fb94dccd3b6cc86b401c94da63a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:16 +0000
Subject: [PATCH 04/14] fix: attach circular buffer with its first element
 index at the end of memory

A recorded raw first index equal to the capacity left first_ at end_, so
the first access went past the memory and wrapping never happened.
---
 include/embedded/circular_buffer_adapter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/circular_buffer_adapter.h b/include/embedded/circular_buffer_adapter.h
index bd4f0fc..db45e52 100644
--- a/include/embedded/circular_buffer_adapter.h
+++ b/include/embedded/circular_buffer_adapter.h
@@ -95,8 +95,8 @@ class circular_buffer_adapter {
                           size_type item_count)
       : begin_{begin}
       , end_{end}
-      , first_{first}
-      , last_{add(first, item_count)}
+      , first_{first != end ? first : begin}
+      , last_{add(first_, item_count)}
       , size_{item_count} {
     assert(begin <= first);
     assert(first <= end);
-- 
2.43.0


From 113dcb3d364ba3d5875b0d86ff3e702a1e835de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:29 +0000
Subject: [PATCH 05/14] fix: vector equality compares elements for equality

operator== treated two elements as equal whenever neither was less than
the other, so vectors holding unordered values (NaN) compared equal to
anything.
---
 include/embedded/constexpr_math/vector.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/embedded/constexpr_math/vector.h b/include/embedded/constexpr_math/vector.h
index 1c2da14..ba423df 100644
--- a/include/embedded/constexpr_math/vector.h
+++ b/include/embedded/constexpr_math/vector.h
@@ -128,14 +128,14 @@ class prod_reducer {
 
 template <typename T, std::size_t Size, std::size_t I = 0>
 struct compare {
-  constexpr int operator()(T const& a, T const& b) const noexcept {
-    return a[I] < b[I] ? -1 : a[I] > b[I] ? 1 : compare<T, Size, I + 1>()(a, b);
+  constexpr bool operator()(T const& a, T const& b) const noexcept {
+    return a[I] == b[I] && compare<T, Size, I + 1>()(a, b);
   }
 };
 
 template <typename T, std::size_t Size>
 struct compare<T, Size, Size> {
-  constexpr int operator()(T const&, T const&) const noexcept { return 0; }
+  constexpr bool operator()(T const&, T const&) const noexcept { return true; }
 };
 
 template <typename T, std::size_t Size, typename Pred, std::size_t I = 0>
@@ -296,7 +296,7 @@ class vector {
   }
 
   constexpr bool operator==(vector const& other) const noexcept {
-    return detail::compare<vector, Size>()(*this, other) == 0;
+    return detail::compare<vector, Size>()(*this, other);
   }
 
   template <typename Pred>
-- 
2.43.0


From e9a9bf91d30be0d8597c2f33fbc9dea59d7c93b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:32 +0000
Subject: [PATCH 06/14] fix: move_wrapper construction only noexcept if the
 move is

The noexcept specification tested default construction, so a throwing
move constructor of a type with a noexcept default constructor ended the
program.
---
 include/embedded/move_wrapper.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index d1cf836..b6796f1 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -30,7 +30,8 @@ namespace embedded {
 template <typename T>
 class move_wrapper {
  public:
-  explicit move_wrapper(T&& t) noexcept(std::is_nothrow_constructible<T>::value)
+  explicit move_wrapper(T&& t) noexcept(
+      std::is_nothrow_move_constructible<T>::value)
       : val_{std::forward<T>(t)} {}
 
   move_wrapper(move_wrapper const& other) noexcept(
-- 
2.43.0


From 99fb3eb90db1cc626d481d0cb45fa8793e250d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:48 +0000
Subject: [PATCH 07/14] fix: pair a real pole with another real pole when
 building sections

The ordering used to pick the second pole of a section preferred complex
poles (and compared a.is_real() with itself), so designs with two or
more real poles next to complex ones got sections with wrong
coefficients.
---
 include/embedded/signal/detail/filter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/signal/detail/filter.h b/include/embedded/signal/detail/filter.h
index f28690b..9413eee 100644
--- a/include/embedded/signal/detail/filter.h
+++ b/include/embedded/signal/detail/filter.h
@@ -235,8 +235,8 @@ struct unit_circle_distance_real_less {
   template <typename F>
   constexpr bool operator()(cmath::complex<F> const& a,
                             cmath::complex<F> const& b) const noexcept {
-    return a.is_real() < b.is_real() ||
-           (a.is_real() == a.is_real() && unit_distance(a) < unit_distance(b));
+    return a.is_real() > b.is_real() ||
+           (a.is_real() == b.is_real() && unit_distance(a) < unit_distance(b));
   }
 };
 
-- 
2.43.0


From 27aae4776eaa8ee021b062458141596a23180f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:07 +0000
Subject: [PATCH 08/14] fix: empty ranges at end() in copy_in and copy_out

The end iterator's null pointer was used as the source or destination of
the copy, which is undefined even for zero elements.
---
 include/embedded/circular_buffer_adapter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/circular_buffer_adapter.h b/include/embedded/circular_buffer_adapter.h
index db45e52..7011811 100644
--- a/include/embedded/circular_buffer_adapter.h
+++ b/include/embedded/circular_buffer_adapter.h
@@ -289,7 +289,7 @@ class circular_buffer_adapter {
     assert(begin() <= first);
     assert(first <= last);
     assert(last <= end());
-    copy_in(first.it_, data, last - first);
+    copy_in(first.realiter(), data, last - first);
   }
 
   template <typename U,
@@ -300,7 +300,7 @@ class circular_buffer_adapter {
     assert(begin() <= first);
     assert(first <= last);
     assert(last <= end());
-    copy_out(data, first.it_, last - first);
+    copy_out(data, first.realiter(), last - first);
   }
 
  private:
-- 
2.43.0


From 34e889d98b3d60982442049c73b439a131d98966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 09/14] fix: limit the debug record's name by the field, not
 the argument

sizeof(name) named the constructor's parameter, so a name of exactly 119
characters was stored without its terminating zero and a longer one did not
compile.
---
 include/embedded/signal/detail/debug_filter_coefs.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/signal/detail/debug_filter_coefs.h b/include/embedded/signal/detail/debug_filter_coefs.h
index 21e9488..37066cb 100644
--- a/include/embedded/signal/detail/debug_filter_coefs.h
+++ b/include/embedded/signal/detail/debug_filter_coefs.h
@@ -66,7 +66,8 @@ struct filter_debug_header {
                                 char const (&name)[S]) noexcept
       : filter_debug_header(
             length, structure, valtype, name,
-            make_index_sequence<cmath::min(sizeof(name) - 1, S)>{}) {}
+            make_index_sequence<cmath::min(
+                sizeof(filter_debug_header::name) - 1, S)>{}) {}
 
   template <size_t S, std::size_t... Ints>
   constexpr filter_debug_header(uint16_t length_,
-- 
2.43.0


From 87ca4aac284706d8047a45666960621edf0d4467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 10/14] fix: vector::count counts an element once whatever the
 predicate returns

The predicate's result was added to the count, so a predicate that returns
any true value other than 1 (isdigit() and friends, bit tests) was
overcounted.
---
 include/embedded/constexpr_math/vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/constexpr_math/vector.h b/include/embedded/constexpr_math/vector.h
index ba423df..2fec3a5 100644
--- a/include/embedded/constexpr_math/vector.h
+++ b/include/embedded/constexpr_math/vector.h
@@ -159,7 +159,8 @@ template <typename T, std::size_t Size, typename Pred, std::size_t I = 0>
 struct count {
   constexpr std::size_t
   operator()(T const& a, Pred const& pred) const noexcept {
-    return pred(a[I]) + count<T, Size, Pred, I + 1>()(a, pred);
+    return (pred(a[I]) ? 1 : 0) +
+           count<T, Size, Pred, I + 1>()(a, pred);
   }
 };
 
-- 
2.43.0


From 3109e501a52ece4aba3030747f64c97605d0cc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:10 +0000
Subject: [PATCH 11/14] fix: self move assignment of function keeps its target

---
 include/embedded/function.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 24191b3..3fc6848 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -233,8 +233,10 @@ class function final
   }
 
   function& operator=(function&& other) noexcept {
-    this->~function();
-    ::new (this) function(std::move(other));
+    if (this != std::addressof(other)) {
+      this->~function();
+      ::new (this) function(std::move(other));
+    }
     return *this;
   }
 
-- 
2.43.0


From 71da572b981d9f2e2675c93e6bdadca049264a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 12/14] fix: varint decode rejects values that do not fit bool

---
 include/embedded/varint.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/embedded/varint.h b/include/embedded/varint.h
index ccfa0bf..e0586ca 100644
--- a/include/embedded/varint.h
+++ b/include/embedded/varint.h
@@ -24,6 +24,7 @@
 
 #include <cstdint>
 #include <iterator>
+#include <limits>
 #include <type_traits>
 
 namespace embedded {
@@ -186,7 +187,7 @@ class varint {
                                uint8_t>::value,
                   "varint can only be encoded to uint8_t iterators");
 
-    constexpr int type_bits = 8 * sizeof(T);
+    constexpr int type_bits = std::numeric_limits<T>::digits;
     constexpr int max_shift = type_bits - 1;
     int shift = 0;
     auto it = begin;
-- 
2.43.0


From df7b42487db2a4134a6107d869ca59239ef4f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:18 +0000
Subject: [PATCH 13/14] fix: move_wrapper moves the value itself and finds it
 by address

Values with initializer list constructors were converted to a list element
instead of being moved, and an overloaded operator& changed what -> yields.
---
 include/embedded/move_wrapper.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/embedded/move_wrapper.h b/include/embedded/move_wrapper.h
index b6796f1..924cc47 100644
--- a/include/embedded/move_wrapper.h
+++ b/include/embedded/move_wrapper.h
@@ -22,6 +22,7 @@
 
 #pragma once
 
+#include <memory>
 #include <type_traits>
 #include <utility>
 
@@ -32,20 +33,20 @@ class move_wrapper {
  public:
   explicit move_wrapper(T&& t) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::forward<T>(t)} {}
+      : val_(std::forward<T>(t)) {}
 
   move_wrapper(move_wrapper const& other) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::move(const_cast<move_wrapper&>(other).val_)} {}
+      : val_(std::move(const_cast<move_wrapper&>(other).val_)) {}
   move_wrapper(move_wrapper&& other) noexcept(
       std::is_nothrow_move_constructible<T>::value)
-      : val_{std::move(other.val_)} {}
+      : val_(std::move(other.val_)) {}
 
   T const& operator*() const { return val_; }
   T& operator*() { return val_; }
 
-  T const* operator->() const { return &val_; }
-  T* operator->() { return &val_; }
+  T const* operator->() const { return std::addressof(val_); }
+  T* operator->() { return std::addressof(val_); }
 
  private:
   T val_;
-- 
2.43.0


From 40c5b6d4396f73aa0293cc294756b5da22c8c215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:27 +0000
Subject: [PATCH 14/14] fix: function stores callables with initializer list
 constructors as they are

---
 include/embedded/function.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/embedded/function.h b/include/embedded/function.h
index 3fc6848..b430d08 100644
--- a/include/embedded/function.h
+++ b/include/embedded/function.h
@@ -87,7 +87,7 @@ class vtbl<Return(Args...)> {
   static void vt_proc(oper op, storage_t src, storage_t dst) noexcept {
     switch (op) {
     case oper::move:
-      ::new (dst) T{std::move(*static_cast<T*>(src))};
+      ::new (dst) T(std::move(*static_cast<T*>(src)));
       // fallthrough
     case oper::destroy:
       static_cast<T*>(src)->~T();
@@ -222,7 +222,7 @@ class function final
     static_assert(Alignment % alignof(C) == 0,
                   "function<> alignment too small for this type");
 
-    ::new (std::addressof(storage_)) C{std::forward<T>(fun)};
+    ::new (std::addressof(storage_)) C(std::forward<T>(fun));
   }
 
   function(function&& other) noexcept
-- 
2.43.0

