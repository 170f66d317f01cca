From 173e5321e85db6b8644d1d04ebc33602223c4a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:38 +0000
Subject: [PATCH 1/4] fix: transform() must not terminate when the callable
 throws

ConstructPayloadFromFunction() was noexcept as soon as the payload was nothrow constructible from the
callable's result, even if the callable itself can throw. The exception then ended in std::terminate().
---
 include/tiny/optional.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 7b5a9b6..a2cae18 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -1082,7 +1082,8 @@ namespace impl
 
     template <class FuncT, class ArgT>
     void ConstructPayloadFromFunction(FuncT && func, ArgT && arg) noexcept(
-        std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>)
+        std::is_nothrow_invocable_v<FuncT, ArgT>
+        && std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>)
     {
       assert(!has_value());
       FlagManipulator::invalidate_empty_flag(GetIsEmptyFlag());
@@ -1092,7 +1093,9 @@ namespace impl
       // NOLINTBEGIN(clang-analyzer-core.uninitialized.Assign)
 
       // In analogy to ConstructPayload().
-      if constexpr (std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>) {
+      if constexpr (
+          std::is_nothrow_invocable_v<FuncT, ArgT>
+          && std::is_nothrow_constructible_v<PayloadType, std::invoke_result_t<FuncT, ArgT>>) {
         ::new (const_cast<void *>(static_cast<void volatile const *>(std::addressof(GetPayload()))))
             PayloadType(std::invoke(std::forward<FuncT>(func), std::forward<ArgT>(arg)));
       }
-- 
2.43.0


From afaf4bb0c28cf8302c3aa938db2b58d06d48ee01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:22 +0000
Subject: [PATCH 2/4] fix: destroy the IsEmpty flag object of an empty optional

init_empty_flag() creates an object that only invalidate_empty_flag() destroys. The destructor of an empty
optional did not call it, and neither did the constructors if constructing the payload threw, so that flag
objects owning resources leaked. The Readme documents that destroying an empty optional calls
invalidate_empty_flag().
---
 include/tiny/optional.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index a2cae18..03d47aa 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -960,17 +960,19 @@ namespace impl
 
     template <class... ArgsT>
     explicit StorageBase(std::in_place_t, ArgsT &&... args)
+      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it. Moreover, by delegating, the
+      // destructor cleans up the IsEmpty flag in case the construction of the payload throws.
+      : StorageBase()
     {
-      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it.
-      FlagManipulator::init_empty_flag(GetIsEmptyFlag());
       ConstructPayload(std::forward<ArgsT>(args)...);
     }
 
     template <class FuncT, class ArgT>
     StorageBase(DirectInitializationFromFunctionTag, FuncT && func, ArgT && arg)
+      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it. Moreover, by delegating, the
+      // destructor cleans up the IsEmpty flag in case the construction of the payload throws.
+      : StorageBase()
     {
-      // Initialize the IsEmpty flag first since invalidate_empty_flag() might depend on it.
-      FlagManipulator::init_empty_flag(GetIsEmptyFlag());
       ConstructPayloadFromFunction(std::forward<FuncT>(func), std::forward<ArgT>(arg));
     }
 
@@ -980,6 +982,10 @@ namespace impl
       if (has_value()) {
         DestroyPayload();
       }
+      else {
+        // Destroy the IsEmpty flag that was created by init_empty_flag().
+        FlagManipulator::invalidate_empty_flag(GetIsEmptyFlag());
+      }
     }
 
     // The proper implemention of the following are defined in the derived classes.
-- 
2.43.0


From 271e0f180d5763ea6bfb38099a0f238e660b079d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:48 +0000
Subject: [PATCH 3/4] fix: let unqualified swap() of two tiny::optional use
 optional's swap

With 'using std::swap; swap(o1, o2);' the generic std::swap() was a better match than the overload for the
base class TinyOptionalImpl. So neither the payload's own swap() nor the exception guarantees of
optional::swap() applied, in contrast to std::optional.
---
 include/tiny/optional.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index 03d47aa..a7552da 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -2280,6 +2280,24 @@ public:
 };
 
 
+// Required in addition to the version for TinyOptionalImpl: For 'using std::swap; swap(o1, o2);' the latter would need
+// a conversion to the base class, and hence the generic std::swap() would be selected instead.
+// clang-format off
+template <
+    class PayloadType,
+    auto sentinelOrMemPtr,
+    auto irrelevantOrSentinel,
+    std::enable_if_t<std::is_move_constructible_v<PayloadType> && std::is_swappable_v<PayloadType>, int> = 0>
+void swap(
+    optional<PayloadType, sentinelOrMemPtr, irrelevantOrSentinel> & lhs,
+    optional<PayloadType, sentinelOrMemPtr, irrelevantOrSentinel> & rhs)
+  noexcept(noexcept(lhs.swap(rhs)))
+{
+  lhs.swap(rhs);
+}
+// clang-format on
+
+
 // Deduction guide.
 template <class T>
 optional(T) -> optional<T, UseDefaultValue, UseDefaultValue>;
-- 
2.43.0


From e8476cebe46f8c6f92af89a9e50974d91db96ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:53 +0000
Subject: [PATCH 4/4] fix: sentinel_flag_manipulator must not use an overloaded
 operator& of the payload

init_empty_flag() took the address of the payload memory with '&'. For payload types that overload operator&, the
sentinel was written somewhere else and the optional did not become empty. Use std::addressof, as everywhere else.
---
 include/tiny/optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tiny/optional.h b/include/tiny/optional.h
index a7552da..7dab67b 100644
--- a/include/tiny/optional.h
+++ b/include/tiny/optional.h
@@ -237,7 +237,7 @@ struct sentinel_flag_manipulator
 
   static void init_empty_flag(PayloadType & uninitializedPayloadMemory) noexcept
   {
-    ::new (&uninitializedPayloadMemory) PayloadType(SentinelValue);
+    ::new (static_cast<void *>(std::addressof(uninitializedPayloadMemory))) PayloadType(SentinelValue);
   }
 
   static void invalidate_empty_flag(PayloadType & emptyPayload) noexcept
-- 
2.43.0

