From 9d38874096a1385b66583ccc36107365990346dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:36 +0000
Subject: [PATCH 01/35] fix: simple_resource: do not claim an extra block for
 exact multiples of the block size

The last block of an allocation was computed from the one-past-the-end
pointer, so a request whose size is a multiple of the block size took one
block too many, and one that fills the last free run ran past the block map.
---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 995d026..a0be8fe 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -413,7 +413,7 @@ class simple_resource : public memory_resource
                          std::size_t aSize) noexcept
     {
         const BIndex first = pointer_to_block_index(aPtr);
-        const BIndex last = pointer_to_block_index(aPtr + aSize);
+        const BIndex last = pointer_to_block_index(aPtr + aSize - 1);
         const BIndex after_free = at(aFreeRegion).next_index();
         const BIndex last_of_free =
             after_free ? after_free - 1 : static_cast<BIndex>(block_count_ - 1);
-- 
2.43.0


From a06e4044b636705a534a6fbc4ef2a7bf602f1fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:36 +0000
Subject: [PATCH 02/35] fix: simple_resource: huge sizes no longer wrap around
 in the fit test

skip + aSize could overflow and make a request close to SIZE_MAX look as if
it fitted in the buffer.
---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index a0be8fe..fcb733e 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -309,7 +309,7 @@ class simple_resource : public memory_resource
                               block_index_to_pointer(aIndex);
                           const auto skip =
                               skip_to_align(block_pointer, aAlignment);
-                          if (skip + aSize <= block_size)
+                          if (skip <= block_size && aSize <= block_size - skip)
                           {
                               pointer = block_pointer + skip;
                               allocate_blocks(aIndex, pointer, aSize);
-- 
2.43.0


From 87d7080c3a622a5ef51d3ca74aff3ebef8201edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:36 +0000
Subject: [PATCH 03/35] fix: simple_resource: release() of a resource without
 blocks is a no-op

It walked the block map from block 0, which does not exist when the buffer
holds no complete block.
---
 sources/include/utils/memory/simple_resource.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index fcb733e..f854e37 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -213,6 +213,11 @@ class simple_resource : public memory_resource
 
     void release() noexcept
     {
+        if (!data_)
+        {
+            return;
+        }
+
         apply([this](BIndex aIndex) noexcept -> bool { return in_use(aIndex); },
               [this](BIndex aIndex) mutable noexcept -> bool
               { return at(deallocate_blocks(aIndex)).next_index(); });
-- 
2.43.0


From d3e3ad3082ab92ed9b6497dceef139474661900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:36 +0000
Subject: [PATCH 04/35] fix: simple_resource: ask upstream for at least block
 alignment

deallocate() insists on block alignment for every pointer, upstream ones
included, but upstream was only asked for the caller's alignment, so a valid
allocate/deallocate pair could abort.
---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index f854e37..39e9784 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -328,7 +328,7 @@ class simple_resource : public memory_resource
         if (!pointer && upstream_)
         {
             pointer = static_cast<std::byte *>(
-                upstream_->allocate(aSize, aAlignment));
+                upstream_->allocate(aSize, std::max(aAlignment, BlockSize)));
         }
 
         assert(is_aligned(pointer, BlockSize));
-- 
2.43.0


From 82a18f3b3f4fb49215f4b0251920f3258563bbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:36 +0000
Subject: [PATCH 05/35] fix: compute alignments of 2^31 and more in
 std::size_t, not in int

---
 sources/include/utils/common.h                 | 2 +-
 sources/include/utils/memory/simple_resource.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 45589ff..677b675 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -423,7 +423,7 @@ constexpr std::size_t max_alignment_inside_block(
     const std::size_t msb = bits_count(value) - 1;
 
     // 2. return 2^msb
-    const std::size_t max_alignment = 1 << msb;
+    const std::size_t max_alignment = std::size_t{1} << msb;
 
     return max_alignment;
     ;
diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 39e9784..d33fd96 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -300,7 +300,7 @@ class simple_resource : public memory_resource
         if (data_)
         {
             const std::size_t kBufferAlignment =
-                1 << ctz(reinterpret_cast<uintptr_t>(data_));
+                std::size_t{1} << ctz(reinterpret_cast<uintptr_t>(data_));
             if (aAlignment <= max_alignment_inside_block(
                                   kBufferAlignment, block_count_ * BlockSize))
             {
-- 
2.43.0


From 190aa80ea63837cd940aca04830f8841c6257d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:36 +0000
Subject: [PATCH 06/35] fix: monotonic_buffer_resource: huge sizes no longer
 wrap around

The end pointer of a request close to SIZE_MAX wrapped around and compared
as being inside of the buffer: a bogus pointer was returned and the resource
moved backwards over live allocations.
---
 .../include/utils/memory/monotonic_buffer_resource.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/sources/include/utils/memory/monotonic_buffer_resource.h b/sources/include/utils/memory/monotonic_buffer_resource.h
index 33f5368..d28ab47 100644
--- a/sources/include/utils/memory/monotonic_buffer_resource.h
+++ b/sources/include/utils/memory/monotonic_buffer_resource.h
@@ -1,8 +1,6 @@
 #ifndef utils_monotonic_buffer_resource_h
 #define utils_monotonic_buffer_resource_h
 
-#include <functional>
-
 #include "memory.h"
 
 namespace utils
@@ -72,12 +70,12 @@ class monotonic_buffer_resource : public memory_resource
         if (data_)
         {
             const auto skip = skip_to_align(next_, aAlignment);
-            std::byte *supposed_result = next_ + skip;
-            if (std::less_equal<std::byte *>{}(supposed_result + aSize,
-                                               data_ + size_))
+            const auto available =
+                static_cast<std::size_t>(data_ + size_ - next_);
+            if (skip <= available && aSize <= available - skip)
             {
-                next_ = supposed_result + aSize;
-                pointer = supposed_result;
+                pointer = next_ + skip;
+                next_ = pointer + aSize;
             }
         }
 
-- 
2.43.0


From 80a6d55ade3728698435666e34fef424a89450b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:51 +0000
Subject: [PATCH 07/35] fix: allocator: refuse element counts whose byte size
 overflows

aCount * sizeof(T) wrapped around and a block much smaller than requested was
handed out.
---
 sources/include/utils/memory/allocator.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index c783925..299a8c8 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -1,6 +1,7 @@
 #ifndef utils_allocator_h
 #define utils_allocator_h
 
+#include <limits>
 #include <type_traits>
 
 #include "memory.h"
@@ -28,8 +29,7 @@ class allocator
 
     [[nodiscard]] T* allocate(std::size_t aCount) noexcept
     {
-        return static_cast<T*>(
-            resource_->allocate(aCount * sizeof(T), alignof(T)));
+        return allocate_object<T>(aCount);
     }
 
     void deallocate(T* aPtr) noexcept { resource_->deallocate(aPtr); }
@@ -52,6 +52,10 @@ class allocator
     template <typename U>
     [[nodiscard]] U* allocate_object(std::size_t aCount = 1) noexcept
     {
+        if (aCount > std::numeric_limits<std::size_t>::max() / sizeof(U))
+        {
+            return nullptr;
+        }
         return static_cast<U*>(allocate_bytes(aCount * sizeof(U), alignof(U)));
     }
 
-- 
2.43.0


From e0baf38d37b6b36e4244100e18c683c54bb3e4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:51 +0000
Subject: [PATCH 08/35] fix: allocator: forward constructor arguments as they
 were given

construct() forwarded every argument as T&&: lvalues were moved from, numbers
were converted to T on the way, and other argument types did not compile.
---
 sources/include/utils/memory/allocator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index 299a8c8..642cc99 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -37,7 +37,7 @@ class allocator
     template <typename U, typename... Args>
     void construct(U* aPtr, Args&&... aArgs) noexcept
     {
-        new (aPtr) U(std::forward<T>(aArgs)...);
+        new (aPtr) U(std::forward<Args>(aArgs)...);
     }
 
     [[nodiscard]] void* allocate_bytes(
@@ -72,7 +72,7 @@ class allocator
         U* ptr = this->allocate_object<U>();
         if (ptr)
         {
-            this->construct(ptr, aArgs...);
+            this->construct(ptr, std::forward<CtorArgs>(aArgs)...);
         }
         return ptr;
     }
-- 
2.43.0


From 3e4dbfddcdc2141f9200e395d60412d0f16ca79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:51 +0000
Subject: [PATCH 09/35] fix: allocator: rebinding and cross-type comparison
 compile

They named the private member of a different specialization.
---
 sources/include/utils/memory/allocator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index 642cc99..448b674 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -21,7 +21,8 @@ class allocator
     allocator& operator=(const allocator&) = delete;
 
     template <typename U>
-    allocator(const allocator<U>& aOther) noexcept : resource_(aOther.resource_)
+    allocator(const allocator<U>& aOther) noexcept
+        : resource_(aOther.resource())
     {
     }
 
@@ -108,7 +109,7 @@ class allocator
 template <class T1, class T2>
 bool operator==(const allocator<T1>& aLhs, const allocator<T2>& aRhs) noexcept
 {
-    return *aLhs.resource_ == *aRhs.resource_;
+    return *aLhs.resource() == *aRhs.resource();
 }
 
 template <class T1, class T2>
-- 
2.43.0


From 08ccc395af825b11eee92ea9a7668169dba72673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:51 +0000
Subject: [PATCH 10/35] fix: memory: one system, null and default resource per
 program

The accessors were static, so that every translation unit had a system and a
null resource of its own: they did not compare equal, and the inline default
resource was initialized differently in each translation unit.
---
 sources/include/utils/memory/memory.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 8daca9f..80fef1f 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -218,8 +218,8 @@ class memory_resource
     deallocate_t deallocate_{};
 };
 
-static memory_resource *system_memory_resource() noexcept;
-static memory_resource *null_memory_resource() noexcept;
+inline memory_resource *system_memory_resource() noexcept;
+inline memory_resource *null_memory_resource() noexcept;
 
 namespace details
 {
@@ -286,25 +286,25 @@ class null_memory_resource : public memory_resource
 };
 }  // namespace details
 
-[[maybe_unused]] static memory_resource *system_memory_resource() noexcept
+inline memory_resource *system_memory_resource() noexcept
 {
     static details::system_memory_resource r;
     return &r;
 }
 
-[[maybe_unused]] static memory_resource *null_memory_resource() noexcept
+inline memory_resource *null_memory_resource() noexcept
 {
     static details::null_memory_resource r;
     return &r;
 }
 
-[[maybe_unused]] static memory_resource *set_default_resource(
+inline memory_resource *set_default_resource(
     memory_resource *aResource) noexcept
 {
     return details::default_resource.exchange(aResource);
 }
 
-[[maybe_unused]] static memory_resource *get_default_resource() noexcept
+inline memory_resource *get_default_resource() noexcept
 {
     return details::default_resource.load();
 }
-- 
2.43.0


From 3da8c8433003a6ed515bd5e2a55485de26af863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 11/35] fix: make_array: every element gets the value

The value was moved into every element in turn, so that for types like
std::string only the first one got it.
---
 sources/include/utils/common.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 677b675..d2cba32 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -176,9 +176,16 @@ constexpr decltype(auto) make_element_for_index(T&& aValue) noexcept
 
 template <typename T, std::size_t... I>
 constexpr std::array<T, sizeof...(I)> make_array_with_value_impl(
-    [[maybe_unused]] T aValue, std::index_sequence<I...>) noexcept
+    [[maybe_unused]] const T& aValue, std::index_sequence<I...>) noexcept
 {
-    return {make_element_for_index<T, I>(std::move(aValue))...};
+    return {make_element_for_index<const T&, I>(aValue)...};
+}
+
+template <typename T, std::size_t... I>
+constexpr std::array<T, sizeof...(I)> make_zero_array_impl(
+    std::index_sequence<I...>) noexcept
+{
+    return {(static_cast<void>(I), T{})...};
 }
 
 template <std::size_t... I>
@@ -327,8 +334,7 @@ constexpr decltype(auto) sv_to_array(const std::string_view aSV) noexcept
 template <typename T, std::size_t N>
 constexpr std::array<T, N> make_zero_array()
 {
-    return details::make_array_with_value_impl<T>(
-        T{}, std::make_index_sequence<N>{});
+    return details::make_zero_array_impl<T>(std::make_index_sequence<N>{});
 }
 
 template <class T, std::size_t N>
-- 
2.43.0


From 686bfa8d1418d63d07782fea0d58835a6d4ee901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 12/35] fix: div: same result at run time as in constant
 expressions

At run time unsigned operands were divided as long long: 64-bit values above
INT64_MAX gave a wrong result, and operands of mixed signedness a different
one than the conversion to their common type.
---
 sources/include/utils/common.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index d2cba32..5a9c721 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -597,12 +597,12 @@ constexpr decltype(auto) div(T aNumerator, U aDenominator) noexcept
     static_assert(std::is_integral_v<T>);
     static_assert(std::is_integral_v<U>);
     using type = std::common_type_t<remove_cvref_t<T>, remove_cvref_t<U>>;
-    if (__builtin_is_constant_evaluated())
+    const auto numerator = static_cast<type>(aNumerator);
+    const auto denominator = static_cast<type>(aDenominator);
+    if (std::is_unsigned_v<type> || __builtin_is_constant_evaluated())
     {
-        return div_t<type>{static_cast<type>(static_cast<type>(aNumerator) /
-                                             static_cast<type>(aDenominator)),
-                           static_cast<type>(static_cast<type>(aNumerator) %
-                                             static_cast<type>(aDenominator))};
+        return div_t<type>{static_cast<type>(numerator / denominator),
+                           static_cast<type>(numerator % denominator)};
     }
     else
     {
@@ -612,8 +612,8 @@ constexpr decltype(auto) div(T aNumerator, U aDenominator) noexcept
             std::conditional_t<types_with_builtin_impl::contains_v<common_t>,
                                common_t, long long>;
 
-        const auto result = std::div(static_cast<work_t>(aNumerator),
-                                     static_cast<work_t>(aDenominator));
+        const auto result = std::div(static_cast<work_t>(numerator),
+                                     static_cast<work_t>(denominator));
         return div_t<type>{static_cast<type>(result.quot),
                            static_cast<type>(result.rem)};
     }
-- 
2.43.0


From 45d0b641ec88196dd4a8a86ee26120e861e6bc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 13/35] fix: values_in_range: the number of values may exceed
 their type

The count of values was computed in the type of the values, so that the full
range of uint8_t gave an empty list.
---
 sources/include/utils/common.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 5a9c721..08ecb40 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -710,13 +710,13 @@ struct values_in_range
 {
    private:
     using SeqT = std::common_type_t<decltype(First), decltype(Last)>;
-    using Indices = shifted_sequence_t<
-        std::make_integer_sequence<SeqT, static_cast<SeqT>(Last + 1 - First)>,
-        static_cast<SeqT>(First)>;
+    using Indices =
+        std::make_index_sequence<static_cast<std::size_t>(Last) -
+                                 static_cast<std::size_t>(First) + 1>;
 
-    template <auto... I>
-    static value_list<I...> values_in_range_impl(
-        std::integer_sequence<SeqT, I...>) noexcept;
+    template <std::size_t... I>
+    static value_list<static_cast<SeqT>(static_cast<std::size_t>(First) + I)...>
+    values_in_range_impl(std::index_sequence<I...>) noexcept;
 
    public:
     using type = decltype(values_in_range_impl(Indices{}));
-- 
2.43.0


From 665bc4995755d16f96e43829c56c800a18b93730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 14/35] fix: memmove: copy backwards when the destination
 overlaps the source's tail

In constant expressions the bytes were always copied forwards, which
overwrites source bytes before they are read.
---
 sources/include/utils/memory/memory.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 80fef1f..5820dc4 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -98,6 +98,17 @@ constexpr std::byte *memmove(std::byte *aDst, const std::byte *aSrc,
         {
             return aDst;
         }
+        for (std::size_t i = 1; i < aCount; ++i)
+        {
+            if (aSrc + i == aDst)
+            {
+                while (aCount--)
+                {
+                    *(aDst + aCount) = *(aSrc + aCount);
+                }
+                return aDst;
+            }
+        }
         for (std::size_t i = 0; i < aCount; ++i)
         {
             *(aDst + i) = *(aSrc + i);
-- 
2.43.0


From 2928dbbc112e36a6d1bbf875836f8ec7cca9da06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:52 +0000
Subject: [PATCH 15/35] fix: secure_zero_memory: keep the optimizer from
 dropping the writes

The writes were plain stores, which are removed as dead when the memory is
freed or goes out of scope afterwards.
---
 sources/include/utils/memory/memory.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 5820dc4..59b1ca2 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -66,7 +66,13 @@ inline constexpr void secure_zero_memory(std::byte *aPtr,
 #ifdef __STDC_LIB_EXT1__
         sysops::memory::ops::memset_s(aPtr, aSize, '\0', aSize);
 #else
-        handmade_zero_mem(aPtr, aSize);
+        // volatile: the compiler must not drop these writes, even if the
+        // memory is never read again
+        volatile std::byte *const buf = aPtr;
+        for (std::size_t i = 0; i < aSize; ++i)
+        {
+            buf[i] = std::byte{};
+        }
 #endif
 #endif
     }
-- 
2.43.0


From de8fda2694fdde7327a68e6b972b8414c52b6ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 16/35] fix: timer: destroy and relocate the stored callback
 properly

The callback was moved between timers by copying its bytes, which breaks
callables that refer to themselves (such as one holding a short std::string),
it was never destroyed, and moving a timer onto itself lost it.
---
 sources/include/utils/timer.h | 57 +++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index 002ea87..ffac357 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -20,6 +20,7 @@ struct timer_impl
     using callback_ref_t = void (&)(const Timer &) noexcept;
 
     using callback_t = void (*)(std::byte *, const Timer &) noexcept;
+    using relocate_t = void (*)(std::byte *, std::byte *) noexcept;
 
     template <typename Callable>
     struct storable
@@ -47,19 +48,18 @@ struct timer_impl
         return *reinterpret_cast<T *>(aData);
     }
 
-    template <std::size_t... I>
-    static constexpr void copy_impl(std::byte (&aDst)[sizeof...(I)],
-                                    std::byte (&aSrc)[sizeof...(I)],
-                                    std::index_sequence<I...>) noexcept
-    {
-        (..., (aDst[I] = aSrc[I]));
-    }
-
-    template <std::size_t Size>
-    static constexpr void copy(std::byte (&aDst)[Size],
-                               std::byte (&aSrc)[Size]) noexcept
+    // Destroys the callback stored in aSrc, after moving it to aDst if there is
+    // one.
+    template <typename FinishCallback>
+    static void relocate(std::byte *aDst, std::byte *aSrc) noexcept
     {
-        copy_impl(aDst, aSrc, std::make_index_sequence<Size>{});
+        FinishCallback &src = callback<FinishCallback>(aSrc);
+        if (aDst)
+        {
+            new (&callback<FinishCallback>(aDst))
+                FinishCallback(std::move(src));
+        }
+        src.~FinishCallback();
     }
 };
 
@@ -82,6 +82,7 @@ class timer
         if (callback_)
         {
             std::invoke(callback_, data_, *this);
+            std::invoke(relocate_, nullptr, data_);
         }
     }
 
@@ -93,6 +94,8 @@ class timer
         : start_{impl::clock::now()}
         , callback_{&impl::template call_finish_callback<
               typename impl::template storable_t<FinishCallback>>}
+        , relocate_{&impl::template relocate<
+              typename impl::template storable_t<FinishCallback>>}
     {
         using stored_callback_t =
             typename impl::template storable_t<FinishCallback>;
@@ -115,18 +118,22 @@ class timer
     timer() = delete;
     timer(const timer &) = delete;
     timer(timer &&aOther) noexcept
-        : start_(aOther.start_), callback_(aOther.callback_)
+        : start_(aOther.start_)
     {
-        impl::template copy(data_, aOther.data_);
-        aOther.callback_ = nullptr;
+        take_callback(aOther);
     }
     timer &operator=(const timer &) = delete;
     timer &operator=(timer &&aOther) noexcept
     {
-        start_ = aOther.start_;
-        callback_ = aOther.callback_;
-        aOther.callback_ = nullptr;
-        impl::template copy(data_, aOther.data_);
+        if (this != &aOther)
+        {
+            start_ = aOther.start_;
+            if (callback_)
+            {
+                std::invoke(relocate_, nullptr, data_);
+            }
+            take_callback(aOther);
+        }
         return *this;
     }
 
@@ -157,8 +164,20 @@ class timer
     void reset() noexcept { start_ = clock::now(); }
 
    private:
+    void take_callback(timer &aOther) noexcept
+    {
+        callback_ = aOther.callback_;
+        relocate_ = aOther.relocate_;
+        if (callback_)
+        {
+            std::invoke(relocate_, data_, aOther.data_);
+            aOther.callback_ = nullptr;
+        }
+    }
+
     time_point start_ = clock::now();
     typename impl::callback_t callback_{};
+    typename impl::relocate_t relocate_{};
     alignas(MaxCallbackAlignment) std::byte data_[MaxCallbackSize]{};
 };
 }  // namespace details
-- 
2.43.0


From c2d9005c440b57f7d049808b390b726429d8004e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 17/35] fix: UTILS_ABORT_IF: print the file name instead of
 using it as a format

A percent sign in the path of the source file was taken for a conversion.
---
 sources/include/utils/common.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 08ecb40..dd97912 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -45,10 +45,9 @@
 #endif
 
 #ifndef UTILS_ABORT_IF
-#define UTILS_ABORT_IF_HELPER(condition, format_str, ...)                \
-    utils::abort_if(condition,                                           \
-                    "[ERROR]\n" UTILS_FILE_LINE "\nfunc: %s" format_str, \
-                    UTILS_FUNC, __VA_ARGS__)
+#define UTILS_ABORT_IF_HELPER(condition, format_str, ...)               \
+    utils::abort_if(condition, "[ERROR]\n%s\nfunc: %s" format_str,      \
+                    UTILS_FILE_LINE, UTILS_FUNC, __VA_ARGS__)
 #define UTILS_ABORT_IF(...) UTILS_ABORT_IF_HELPER(__VA_ARGS__, "", "")
 #else
 #error "UTILS_ABORT_IF already defined somewhere"
-- 
2.43.0


From 8b1cf90564f845688e27ef870ed1d6e458f6c3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:06 +0000
Subject: [PATCH 18/35] fix: simple_resource: a resource without blocks has no
 free region

It reported one.
---
 sources/include/utils/memory/simple_resource.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index d33fd96..7199cb4 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -556,7 +556,7 @@ class simple_resource : public memory_resource
     memory_resource *upstream_{memory::get_default_resource()};
     block_info infos_[MaxBlockCount]{};
     std::bitset<MaxBlockCount> in_use_{};
-    std::size_t free_count_{1};
+    std::size_t free_count_{block_count_ ? std::size_t{1} : std::size_t{0}};
     std::size_t busy_count_{};
 };
 }  // namespace memory
-- 
2.43.0


From 7b22b5771cc401dcff22fe66497d935f0f023734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:40 +0000
Subject: [PATCH 19/35] fix: simple_resource: walk the block map by index, not
 by truth value

The actions that return the next region to look at were declared to return
bool, so that the walk went on at block 1 instead: free regions were missed,
regions overlapped and release() left allocations behind.
---
 sources/include/utils/memory/simple_resource.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 7199cb4..62c8caf 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -219,7 +219,7 @@ class simple_resource : public memory_resource
         }
 
         apply([this](BIndex aIndex) noexcept -> bool { return in_use(aIndex); },
-              [this](BIndex aIndex) mutable noexcept -> bool
+              [this](BIndex aIndex) mutable noexcept -> BIndex
               { return at(deallocate_blocks(aIndex)).next_index(); });
     }
 
@@ -307,7 +307,7 @@ class simple_resource : public memory_resource
                 apply([this](BIndex aIndex) noexcept -> bool
                       { return not in_use(aIndex); },
                       [this, &pointer, aAlignment,
-                       aSize](BIndex aIndex) mutable noexcept -> bool
+                       aSize](BIndex aIndex) mutable noexcept -> BIndex
                       {
                           const auto block_size = block_size_in_bytes(aIndex);
                           std::byte *const block_pointer =
@@ -396,7 +396,7 @@ class simple_resource : public memory_resource
 
     template <typename Predicate, typename Action>
     std::enable_if_t<std::is_nothrow_invocable_r_v<bool, Predicate, BIndex> &&
-                     std::is_nothrow_invocable_r_v<bool, Action, BIndex>>
+                     std::is_nothrow_invocable_r_v<BIndex, Action, BIndex>>
     apply(Predicate &&aPredicate, Action &&aAction) noexcept
     {
         BIndex i = 0;
-- 
2.43.0


From fb056f5db9ab99d104c2e9c52ef8a16e4058e884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:18 +0000
Subject: [PATCH 20/35] fix: memory: default resource is initialized on first
 use

As an inline variable it was still null for objects initialized earlier (seen
with clang).
---
 sources/include/utils/memory/memory.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 59b1ca2..012ff3a 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -240,8 +240,11 @@ inline memory_resource *null_memory_resource() noexcept;
 
 namespace details
 {
-inline std::atomic<memory_resource *> default_resource =
-    system_memory_resource();
+inline std::atomic<memory_resource *> &default_resource() noexcept
+{
+    static std::atomic<memory_resource *> r{system_memory_resource()};
+    return r;
+}
 
 class system_memory_resource : public memory_resource
 {
@@ -318,12 +321,12 @@ inline memory_resource *null_memory_resource() noexcept
 inline memory_resource *set_default_resource(
     memory_resource *aResource) noexcept
 {
-    return details::default_resource.exchange(aResource);
+    return details::default_resource().exchange(aResource);
 }
 
 inline memory_resource *get_default_resource() noexcept
 {
-    return details::default_resource.load();
+    return details::default_resource().load();
 }
 }  // namespace memory
 }  // namespace utils
-- 
2.43.0


From 6a9c18818d04ab259d085f6e61e1107eb62dfccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:00 +0000
Subject: [PATCH 21/35] fix: cartesian_product: an empty list gives an empty
 product

A list other than the last that has no elements made concatenate<>, which
is not defined.
---
 sources/include/utils/cartesian_product.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/include/utils/cartesian_product.h b/sources/include/utils/cartesian_product.h
index 563c628..d13c9d9 100644
--- a/sources/include/utils/cartesian_product.h
+++ b/sources/include/utils/cartesian_product.h
@@ -85,6 +85,7 @@ template <std::size_t I, auto... Values, typename List>
 struct cartesian_product_impl<I, value_list<Values...>, List>
 {
     using type = concatenate_t<
+        type_list<>,
         typename one_element_mult<I == 0, value_list<Values>, List>::type...>;
 };
 
@@ -92,6 +93,7 @@ template <std::size_t I, typename... Ts, typename List>
 struct cartesian_product_impl<I, type_list<Ts...>, List>
 {
     using type = concatenate_t<
+        type_list<>,
         typename one_element_mult<I == 0, type_list<Ts>, List>::type...>;
 };
 }  // namespace details
-- 
2.43.0


From 1cf9bfc2085db25ead7ab931b574dd5dbb3edd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:02 +0000
Subject: [PATCH 22/35] fix: function_traits: reference members and bit-fields
 are data members

No pointer to them can be formed, so the checkers did not see them.
---
 sources/include/utils/function_traits.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/function_traits.h b/sources/include/utils/function_traits.h
index 72ba4a5..dd5344e 100644
--- a/sources/include/utils/function_traits.h
+++ b/sources/include/utils/function_traits.h
@@ -77,8 +77,14 @@
     template <typename T>                                              \
     using not_static_##member_data##_type = decltype(&T::member_data); \
                                                                        \
+    template <typename T>                                              \
+    using lvalue_##member_data##_type = decltype((T::member_data));    \
+                                                                       \
+    /* there are no pointers to reference members and bit-fields */    \
     template <typename T, bool>                                        \
-    struct has_data_##member_data : std::false_type                    \
+    struct has_data_##member_data                                      \
+        : std::is_lvalue_reference<                                    \
+              ::utils::detected_t<lvalue_##member_data##_type, T>>     \
     {                                                                  \
     };                                                                 \
                                                                        \
-- 
2.43.0


From 5044057cbeacbcd15b93b4bd1e37a43ef1201501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:11 +0000
Subject: [PATCH 23/35] fix: is_uint: cv-qualified bool and byte are what bool
 and byte are

---
 sources/include/utils/common.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index dd97912..f157e0c 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -64,7 +64,7 @@ namespace utils
 template <typename T>
 struct is_uint
     : std::conjunction<std::is_unsigned<T>,
-                       std::negation<std::is_same<T, bool>>>
+                       std::negation<std::is_same<std::remove_cv_t<T>, bool>>>
 {
 };
 
@@ -73,7 +73,8 @@ inline constexpr bool is_uint_v = is_uint<T>::value;
 
 template <typename T>
 struct is_uint_or_byte
-    : std::disjunction<is_uint<T>, std::is_same<T, std::byte>>
+    : std::disjunction<is_uint<T>,
+                       std::is_same<std::remove_cv_t<T>, std::byte>>
 {
 };
 
-- 
2.43.0


From 4b0eec91e778d39397ad64251b537c013ad94b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:28 +0000
Subject: [PATCH 24/35] fix: fast_pimpl: hold types with their own operator& or
 operator new

---
 sources/include/utils/fast_pimpl.h | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/sources/include/utils/fast_pimpl.h b/sources/include/utils/fast_pimpl.h
index 6514c47..c870546 100644
--- a/sources/include/utils/fast_pimpl.h
+++ b/sources/include/utils/fast_pimpl.h
@@ -1,6 +1,7 @@
 #ifndef utils_fast_pimpl_h
 #define utils_fast_pimpl_h
 
+#include <memory>
 #include <new>
 #include <type_traits>
 
@@ -22,37 +23,37 @@ class fast_pimpl final
 
     fast_pimpl() noexcept(std::is_nothrow_constructible_v<T>)
     {
-        new (&get()) T();
+        ::new (static_cast<void *>(data_)) T();
     }
 
     template <typename... Args>
     explicit fast_pimpl(forwarding_constructor, Args &&...args) noexcept(
         std::is_nothrow_constructible_v<T, Args...>)
     {
-        new (&get()) T(std::forward<Args>(args)...);
+        ::new (static_cast<void *>(data_)) T(std::forward<Args>(args)...);
     }
 
     fast_pimpl(const fast_pimpl &aOther) noexcept(
         std::is_nothrow_copy_constructible_v<T>)
     {
-        new (&get()) T(aOther.get());
+        ::new (static_cast<void *>(data_)) T(aOther.get());
     }
 
     fast_pimpl(const T &aOther) noexcept(
         std::is_nothrow_copy_constructible_v<T>)
     {
-        new (&get()) T(aOther);
+        ::new (static_cast<void *>(data_)) T(aOther);
     }
 
     fast_pimpl(fast_pimpl &&aOther) noexcept(
         std::is_nothrow_move_constructible_v<T>)
     {
-        new (&get()) T(std::move(aOther.get()));
+        ::new (static_cast<void *>(data_)) T(std::move(aOther.get()));
     }
 
     fast_pimpl(T &&aOther) noexcept(std::is_nothrow_move_constructible_v<T>)
     {
-        new (&get()) T(std::move(aOther));
+        ::new (static_cast<void *>(data_)) T(std::move(aOther));
     }
 
     fast_pimpl &operator=(const fast_pimpl &aOther) noexcept(
@@ -83,9 +84,9 @@ class fast_pimpl final
         return *this;
     }
 
-    T *operator->() noexcept { return &get(); }
+    T *operator->() noexcept { return std::addressof(get()); }
 
-    const T *operator->() const noexcept { return &get(); }
+    const T *operator->() const noexcept { return std::addressof(get()); }
 
     template <std::size_t ActualSize, std::size_t ActualAlignment>
     static void validate() noexcept
-- 
2.43.0


From 79b55f091631b3bdfd3e6306c15b63cea1a9ce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:28 +0000
Subject: [PATCH 25/35] fix: timer: store callbacks with their own operator& or
 operator new

---
 sources/include/utils/timer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index ffac357..a8cee14 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -56,7 +56,7 @@ struct timer_impl
         FinishCallback &src = callback<FinishCallback>(aSrc);
         if (aDst)
         {
-            new (&callback<FinishCallback>(aDst))
+            ::new (static_cast<void *>(aDst))
                 FinishCallback(std::move(src));
         }
         src.~FinishCallback();
@@ -105,12 +105,12 @@ class timer
         static_assert(std::is_invocable_r_v<void, FinishCallback, duration>);
         if constexpr (std::is_same_v<FinishCallback, callback_ref_t>)
         {
-            new (&impl::template callback<stored_callback_t>(data_))
+            ::new (static_cast<void *>(data_))
                 stored_callback_t(aCallback);
         }
         else
         {
-            new (&impl::template callback<stored_callback_t>(data_))
+            ::new (static_cast<void *>(data_))
                 stored_callback_t(std::forward<FinishCallback>(aCallback));
         }
     }
-- 
2.43.0


From ff4f205dfba526c78619f560f8b8bc41b1c7d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:28 +0000
Subject: [PATCH 26/35] fix: allocator: construct objects of classes with their
 own operator new

---
 sources/include/utils/memory/allocator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/include/utils/memory/allocator.h b/sources/include/utils/memory/allocator.h
index 448b674..804b0a1 100644
--- a/sources/include/utils/memory/allocator.h
+++ b/sources/include/utils/memory/allocator.h
@@ -38,7 +38,7 @@ class allocator
     template <typename U, typename... Args>
     void construct(U* aPtr, Args&&... aArgs) noexcept
     {
-        new (aPtr) U(std::forward<Args>(aArgs)...);
+        ::new (static_cast<void*>(aPtr)) U(std::forward<Args>(aArgs)...);
     }
 
     [[nodiscard]] void* allocate_bytes(
-- 
2.43.0


From b1e88eaf3e1547125b52901ca9d36e7e2533721f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:28 +0000
Subject: [PATCH 27/35] fix: bit_cast: types with their own operator&

---
 sources/include/utils/common.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index f157e0c..9920163 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -10,6 +10,7 @@
 #include <cstring>
 #include <functional>
 #include <limits>
+#include <memory>
 #include <string_view>
 #include <tuple>
 #include <type_traits>
@@ -678,7 +679,7 @@ bit_cast(const From& src) noexcept
                   "to be trivially constructible");
 
     To dst;
-    std::memcpy(&dst, &src, sizeof(To));
+    std::memcpy(std::addressof(dst), std::addressof(src), sizeof(To));
     return dst;
 }
 
-- 
2.43.0


From 5232fd42b587d4c675b3db46dad1eab74c532905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:28 +0000
Subject: [PATCH 28/35] fix: for_each_arg: functions whose result overloads the
 comma

---
 sources/include/utils/common.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 9920163..d739802 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -656,7 +656,8 @@ template <typename F, typename... Ts>
 void for_each_arg(F&& f, Ts&&... ts)
 {
     using I = std::initializer_list<int>;
-    (void)I{(std::forward<F>(f)(std::forward<Ts>(ts)), 0)...};
+    (void)I{
+        (static_cast<void>(std::forward<F>(f)(std::forward<Ts>(ts))), 0)...};
 }
 
 template <typename F, typename T>
-- 
2.43.0


From 7f2ca3323bed987b64fc883420ce16f447219438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:23 +0000
Subject: [PATCH 29/35] fix: abort_if: get the message out when stderr is
 buffered

---
 sources/include/utils/common.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index d739802..4d988c0 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -461,6 +461,8 @@ inline bool is_aligned(void const* aPtr) noexcept
             va_start(arglist, aFormat);
             vfprintf(stderr, aFormat, arglist);
             va_end(arglist);
+            // the standard streams need not be flushed on abort
+            std::fflush(stderr);
         }
         std::abort();
     }
-- 
2.43.0


From 6461fad3c39daae419dce43e595bdd569bd9e1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:23 +0000
Subject: [PATCH 30/35] fix: has_convertible_type: a missing type converts to
 nothing

---
 sources/include/utils/function_traits.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/function_traits.h b/sources/include/utils/function_traits.h
index dd5344e..4c5f6e6 100644
--- a/sources/include/utils/function_traits.h
+++ b/sources/include/utils/function_traits.h
@@ -62,8 +62,10 @@
                                                                             \
     template <typename T, typename To>                                      \
     struct has_convertible_type_##member_type                               \
-        : ::utils::is_detected_convertible<                                 \
-              To, details::has_type_##member_type##_helper, T>              \
+        : std::conjunction<                                                 \
+              has_type_##member_type<T>,                                    \
+              ::utils::is_detected_convertible<                             \
+                  To, details::has_type_##member_type##_helper, T>>         \
     {                                                                       \
     };                                                                      \
                                                                             \
-- 
2.43.0


From 711c72e7d4d60ca0c118fab6472c7da52e097714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:50 +0000
Subject: [PATCH 31/35] fix: headers include what they use

---
 sources/include/utils/cartesian_product.h | 2 ++
 sources/include/utils/common.h            | 5 +++++
 sources/include/utils/details/cxz.h       | 2 ++
 sources/include/utils/fast_pimpl.h        | 1 +
 sources/include/utils/timer.h             | 4 ++++
 sources/include/utils/value_list.h        | 1 +
 6 files changed, 15 insertions(+)

diff --git a/sources/include/utils/cartesian_product.h b/sources/include/utils/cartesian_product.h
index d13c9d9..7b3a2a0 100644
--- a/sources/include/utils/cartesian_product.h
+++ b/sources/include/utils/cartesian_product.h
@@ -1,6 +1,8 @@
 #ifndef utils_cartesian_product_h
 #define utils_cartesian_product_h
 
+#include <cstddef>
+
 namespace utils
 {
 template <typename... Ts>
diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 4d988c0..ea5a3ad 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -1,19 +1,24 @@
 #ifndef utils_common_h
 #define utils_common_h
 
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <climits>
 #include <cstdarg>
+#include <cstddef>
+#include <cstdint>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
 #include <functional>
+#include <initializer_list>
 #include <limits>
 #include <memory>
 #include <string_view>
 #include <tuple>
 #include <type_traits>
+#include <utility>
 
 #include "value_list.h"
 
diff --git a/sources/include/utils/details/cxz.h b/sources/include/utils/details/cxz.h
index f477c96..14a4fa7 100644
--- a/sources/include/utils/details/cxz.h
+++ b/sources/include/utils/details/cxz.h
@@ -1,6 +1,8 @@
 #ifndef utils_details_cxz_h
 #define utils_details_cxz_h
 
+#include <type_traits>
+
 namespace utils
 {
 namespace details
diff --git a/sources/include/utils/fast_pimpl.h b/sources/include/utils/fast_pimpl.h
index c870546..52c79ba 100644
--- a/sources/include/utils/fast_pimpl.h
+++ b/sources/include/utils/fast_pimpl.h
@@ -1,6 +1,7 @@
 #ifndef utils_fast_pimpl_h
 #define utils_fast_pimpl_h
 
+#include <cstddef>
 #include <memory>
 #include <new>
 #include <type_traits>
diff --git a/sources/include/utils/timer.h b/sources/include/utils/timer.h
index a8cee14..eb62569 100644
--- a/sources/include/utils/timer.h
+++ b/sources/include/utils/timer.h
@@ -2,6 +2,10 @@
 #define utils_timer_h
 
 #include <chrono>
+#include <cstddef>
+#include <functional>
+#include <memory>
+#include <new>
 #include <type_traits>
 #include <utility>
 
diff --git a/sources/include/utils/value_list.h b/sources/include/utils/value_list.h
index 5247db4..a40e30b 100644
--- a/sources/include/utils/value_list.h
+++ b/sources/include/utils/value_list.h
@@ -1,6 +1,7 @@
 #ifndef utils_value_list_h
 #define utils_value_list_h
 
+#include <algorithm>
 #include <cstddef>
 #include <tuple>
 #include <type_traits>
-- 
2.43.0


From 820437cfc4f9e486b6212146d225c5d4c5bea60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:43 +0000
Subject: [PATCH 32/35] fix: make_array_from_range: ranges up to the greatest
 value of their type

---
 sources/include/utils/common.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index ea5a3ad..0342f83 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -303,23 +303,22 @@ constexpr auto make_array_from_range() noexcept
 
     auto step_count = [](auto aBegin, auto aEnd, auto aStep) constexpr
     {
-        std::size_t count{};
-        while (aBegin <= aEnd)
-        {
-            ++count;
-            aBegin += aStep;
-        }
-        return count;
+        // the value after the last one may not be representable
+        const auto distance = static_cast<std::size_t>(aEnd) -
+                              static_cast<std::size_t>(aBegin);
+        return aBegin < aEnd ? distance / static_cast<std::size_t>(aStep) + 1
+                             : std::size_t{1};
     };
 
     constexpr auto kCount = step_count(kMin, kMax, Step);
 
     std::array<CommonT, kCount> result{};
     auto currentValue = Begin;
-    for (auto& v: result)
+    result[0] = CommonT{currentValue};
+    for (std::size_t i = 1; i < kCount; ++i)
     {
-        v = CommonT{currentValue};
         currentValue = currentValue + Step;
+        result[i] = CommonT{currentValue};
     }
     return result;
 }
-- 
2.43.0


From a0c014380c17c3df7631a8588af64518ff928fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:00 +0000
Subject: [PATCH 33/35] fix: resources cannot be assigned

Assigning one resource to another made both hand out the same bytes, and
assigning through the base class replaced the functions of a resource by those
of another class.
---
 sources/include/utils/memory/memory.h                    | 5 +++++
 sources/include/utils/memory/monotonic_buffer_resource.h | 2 ++
 sources/include/utils/memory/simple_resource.h           | 1 +
 3 files changed, 8 insertions(+)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 012ff3a..2fa2ecf 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -196,6 +196,9 @@ class memory_resource
     {
     }
 
+    // not public: would replace the functions of a resource by those of another
+    memory_resource &operator=(const memory_resource &) = default;
+
    public:
     virtual ~memory_resource() = default;
     [[nodiscard]] void *allocate(
@@ -250,6 +253,7 @@ class system_memory_resource : public memory_resource
 {
    public:
     system_memory_resource(const system_memory_resource &) = delete;
+    system_memory_resource &operator=(const system_memory_resource &) = delete;
 
     bool is_equal(const memory_resource &aOther) const noexcept override
     {
@@ -280,6 +284,7 @@ class null_memory_resource : public memory_resource
 {
    public:
     null_memory_resource(const null_memory_resource &) = delete;
+    null_memory_resource &operator=(const null_memory_resource &) = delete;
 
     bool is_equal(const memory_resource &aOther) const noexcept override
     {
diff --git a/sources/include/utils/memory/monotonic_buffer_resource.h b/sources/include/utils/memory/monotonic_buffer_resource.h
index d28ab47..2c67dec 100644
--- a/sources/include/utils/memory/monotonic_buffer_resource.h
+++ b/sources/include/utils/memory/monotonic_buffer_resource.h
@@ -13,6 +13,8 @@ class monotonic_buffer_resource : public memory_resource
 
    public:
     monotonic_buffer_resource(const monotonic_buffer_resource &) = delete;
+    monotonic_buffer_resource &operator=(const monotonic_buffer_resource &) =
+        delete;
     monotonic_buffer_resource(std::byte *const aBuffer, const std::size_t aSize,
                               memory_resource *aUpstream) noexcept
         : memory_resource(
diff --git a/sources/include/utils/memory/simple_resource.h b/sources/include/utils/memory/simple_resource.h
index 62c8caf..b67e846 100644
--- a/sources/include/utils/memory/simple_resource.h
+++ b/sources/include/utils/memory/simple_resource.h
@@ -176,6 +176,7 @@ class simple_resource : public memory_resource
     }
 
     simple_resource(const simple_resource &) = delete;
+    simple_resource &operator=(const simple_resource &) = delete;
     simple_resource() noexcept = delete;
     simple_resource(std::byte *const aBuffer, const std::size_t aSize,
                     memory_resource *aUpstream) noexcept
-- 
2.43.0


From 8a162acc88a69601284f6b59041051a5f9098cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:04 +0000
Subject: [PATCH 34/35] fix: widths of more than 31 bytes are refused by every
 compiler

g++ narrows the number of bits silently in the dependent case, which made
uint_from_nbytes_t<33> an uint8_t.
---
 sources/include/utils/common.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/include/utils/common.h b/sources/include/utils/common.h
index 0342f83..a9f5927 100644
--- a/sources/include/utils/common.h
+++ b/sources/include/utils/common.h
@@ -472,7 +472,7 @@ inline bool is_aligned(void const* aPtr) noexcept
     }
 }
 
-template <uint8_t BitsCount>
+template <uint16_t BitsCount>
 struct uint_from_nbits
 {
    private:
@@ -510,7 +510,7 @@ struct uint_from_nbits
     using type = decltype(getType());
 };
 
-template <uint8_t BitsCount>
+template <uint16_t BitsCount>
 using uint_from_nbits_t = typename uint_from_nbits<BitsCount>::type;
 
 template <uint8_t BytesCount>
@@ -524,7 +524,7 @@ struct enum_properties
     using SerializeT = uint_from_nbits_t<numBits>;
 };
 
-template <uint8_t BitsCount>
+template <uint16_t BitsCount>
 struct fast_uint_from_nbits
 {
    private:
@@ -562,7 +562,7 @@ struct fast_uint_from_nbits
     using type = decltype(getType());
 };
 
-template <uint8_t BitsCount>
+template <uint16_t BitsCount>
 using fast_uint_from_nbits_t = typename fast_uint_from_nbits<BitsCount>::type;
 
 template <uint8_t BytesCount>
-- 
2.43.0


From c3c57b0402eb0d9e5f92773714be18101b69cf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:44 +0000
Subject: [PATCH 35/35] fix: the system and null resources serve until the
 program's end

They were destroyed at exit, so objects with static storage duration that
outlive them (an allocator or a resource above the system compares and uses
them in its destructor) called a destroyed object.
---
 sources/include/utils/memory/memory.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sources/include/utils/memory/memory.h b/sources/include/utils/memory/memory.h
index 2fa2ecf..aa020ee 100644
--- a/sources/include/utils/memory/memory.h
+++ b/sources/include/utils/memory/memory.h
@@ -9,6 +9,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <functional>
+#include <new>
 #include <system_error>
 #include <type_traits>
 
@@ -313,13 +314,21 @@ class null_memory_resource : public memory_resource
 
 inline memory_resource *system_memory_resource() noexcept
 {
-    static details::system_memory_resource r;
+    // never destroyed: objects with static storage may still use it at exit
+    alignas(details::system_memory_resource) static std::byte
+        storage[sizeof(details::system_memory_resource)];
+    static details::system_memory_resource &r =
+        *::new (static_cast<void *>(storage)) details::system_memory_resource;
     return &r;
 }
 
 inline memory_resource *null_memory_resource() noexcept
 {
-    static details::null_memory_resource r;
+    // never destroyed: objects with static storage may still use it at exit
+    alignas(details::null_memory_resource) static std::byte
+        storage[sizeof(details::null_memory_resource)];
+    static details::null_memory_resource &r =
+        *::new (static_cast<void *>(storage)) details::null_memory_resource;
     return &r;
 }
 
-- 
2.43.0

