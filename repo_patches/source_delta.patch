From 81b041ec2ea38e62e5bd5eb6dfc1e9c9e31ed0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 01/14] fix: read the data being hashed without type-based
 aliasing assumptions

The input was read through plain uintNN_t lvalues, so when a caller and the
library are optimized together (LTO, amalgamation) the compiler was free to
move or drop stores which the caller did through other types, e.g. hashing a
local array of double or uint32_t gave a hash of stale bytes.
---
 src/t1ha_bits.h | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 93b6b51..5e27ed0 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -401,14 +401,27 @@ static __always_inline uint16_t bswap16(uint16_t v) { return v << 8 | v >> 8; }
 #endif
 #endif /* bswap16 */
 
+#if defined(__GNUC__) || __has_attribute(__may_alias__)
+/* The hashed data could be objects of any type, so the reading of it
+ * must not be a subject for the type-based alias analysis. */
+#define __t1ha_may_alias __attribute__((__may_alias__))
+#else
+#define __t1ha_may_alias
+#endif
+typedef uint16_t __t1ha_may_alias t1ha_aliased_uint16_t;
+typedef uint32_t __t1ha_may_alias t1ha_aliased_uint32_t;
+typedef uint64_t __t1ha_may_alias t1ha_aliased_uint64_t;
+
 #if defined(__ia32__) ||                                                       \
     T1HA_SYS_UNALIGNED_ACCESS == T1HA_UNALIGNED_ACCESS__EFFICIENT
 /* The __builtin_assume_aligned() leads gcc/clang to load values into the
  * registers, even when it is possible to directly use an operand from memory.
  * This can lead to a shortage of registers and a significant slowdown.
  * Therefore avoid unnecessary use of  __builtin_assume_aligned() for x86. */
-#define read_unaligned(ptr, bits) (*(const uint##bits##_t *__restrict)(ptr))
-#define read_aligned(ptr, bits) (*(const uint##bits##_t *__restrict)(ptr))
+#define read_unaligned(ptr, bits)                                              \
+  (*(const t1ha_aliased_uint##bits##_t *__restrict)(ptr))
+#define read_aligned(ptr, bits)                                                \
+  (*(const t1ha_aliased_uint##bits##_t *__restrict)(ptr))
 #endif /* __ia32__ */
 
 #ifndef read_unaligned
@@ -418,7 +431,7 @@ typedef struct {
   uint16_t unaligned_16;
   uint32_t unaligned_32;
   uint64_t unaligned_64;
-} __attribute__((__packed__)) t1ha_unaligned_proxy;
+} __attribute__((__packed__)) __t1ha_may_alias t1ha_unaligned_proxy;
 #define read_unaligned(ptr, bits)                                              \
   (((const t1ha_unaligned_proxy *)((const uint8_t *)(ptr)-offsetof(            \
         t1ha_unaligned_proxy, unaligned_##bits)))                              \
@@ -447,28 +460,29 @@ typedef struct {
 #ifndef read_aligned
 #if __GNUC_PREREQ(4, 8) || __has_builtin(__builtin_assume_aligned)
 #define read_aligned(ptr, bits)                                                \
-  (*(const uint##bits##_t *)__builtin_assume_aligned(ptr, ALIGNMENT_##bits))
+  (*(const t1ha_aliased_uint##bits##_t *)__builtin_assume_aligned(             \
+      ptr, ALIGNMENT_##bits))
 #elif (__GNUC_PREREQ(3, 3) || __has_attribute(__aligned__)) &&                 \
     !defined(__clang__)
 #define read_aligned(ptr, bits)                                                \
-  (*(const uint##bits##_t                                                      \
+  (*(const t1ha_aliased_uint##bits##_t                                         \
      __attribute__((__aligned__(ALIGNMENT_##bits))) *)(ptr))
 #elif __has_attribute(__assume_aligned__)
 
 static __always_inline const
-    uint16_t *__attribute__((__assume_aligned__(ALIGNMENT_16)))
+    t1ha_aliased_uint16_t *__attribute__((__assume_aligned__(ALIGNMENT_16)))
     cast_aligned_16(const void *ptr) {
-  return (const uint16_t *)ptr;
+  return (const t1ha_aliased_uint16_t *)ptr;
 }
 static __always_inline const
-    uint32_t *__attribute__((__assume_aligned__(ALIGNMENT_32)))
+    t1ha_aliased_uint32_t *__attribute__((__assume_aligned__(ALIGNMENT_32)))
     cast_aligned_32(const void *ptr) {
-  return (const uint32_t *)ptr;
+  return (const t1ha_aliased_uint32_t *)ptr;
 }
 static __always_inline const
-    uint64_t *__attribute__((__assume_aligned__(ALIGNMENT_64)))
+    t1ha_aliased_uint64_t *__attribute__((__assume_aligned__(ALIGNMENT_64)))
     cast_aligned_64(const void *ptr) {
-  return (const uint64_t *)ptr;
+  return (const t1ha_aliased_uint64_t *)ptr;
 }
 
 #define read_aligned(ptr, bits) (*cast_aligned_##bits(ptr))
-- 
2.43.0


From f868e1999c324cfee47a51cd248aba8fa4ad0e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 02/14] fix: don't read the tail by 8 bytes from a 4-byte
 aligned address

When ALIGNMENT_64 is 4 (i.e. 32-bit targets) and unaligned access is not
EFFICIENT, the 'oneshot' read of a tail shorter than 8 bytes could cross a page
boundary and fault if the next page is not accessible.
---
 src/t1ha_bits.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 5e27ed0..8a0fca8 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -618,7 +618,8 @@ fetch64_le_unaligned(const void *v) {
 static __maybe_unused __always_inline uint64_t tail64_le_aligned(const void *v,
                                                                  size_t tail) {
   const uint8_t *const p = (const uint8_t *)v;
-#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
+#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__) &&            \
+    ALIGNMENT_64 == 8
   /* We can perform a 'oneshot' read, which is little bit faster. */
   const unsigned shift = ((8 - tail) & 7) << 3;
   return fetch64_le_aligned(p) & ((~UINT64_C(0)) >> shift);
@@ -861,7 +862,8 @@ fetch64_be_unaligned(const void *v) {
 static __maybe_unused __always_inline uint64_t tail64_be_aligned(const void *v,
                                                                  size_t tail) {
   const uint8_t *const p = (const uint8_t *)v;
-#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
+#if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__) &&            \
+    ALIGNMENT_64 == 8
   /* We can perform a 'oneshot' read, which is little bit faster. */
   const unsigned shift = ((8 - tail) & 7) << 3;
   return fetch64_be_aligned(p) >> shift;
-- 
2.43.0


From f64c8b85baf1beb84ea21755dc6c4978f33f178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 03/14] fix: export t1ha0_32le() and t1ha0_32be() from the
 shared library

Both are part of the public API, and the inline t1ha0() refers to them when the
runtime dispatching is disabled, but they were hidden in libt1ha.so.
---
 t1ha.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t1ha.h b/t1ha.h
index 498f0dd..8ea3b46 100644
--- a/t1ha.h
+++ b/t1ha.h
@@ -585,9 +585,9 @@ T1HA_API uint64_t t1ha1_be(const void *data, size_t length, uint64_t seed);
 #ifndef T1HA0_DISABLED
 
 /* The little-endian variant for 32-bit CPU. */
-uint64_t t1ha0_32le(const void *data, size_t length, uint64_t seed);
+T1HA_API uint64_t t1ha0_32le(const void *data, size_t length, uint64_t seed);
 /* The big-endian variant for 32-bit CPU. */
-uint64_t t1ha0_32be(const void *data, size_t length, uint64_t seed);
+T1HA_API uint64_t t1ha0_32be(const void *data, size_t length, uint64_t seed);
 
 /* Define T1HA0_AESNI_AVAILABLE to 0 for disable AES-NI support. */
 #ifndef T1HA0_AESNI_AVAILABLE
-- 
2.43.0


From 9b0fbb063938240b859804cf09ab2bdbcb130638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 04/14] fix: use existing fetch32_be_unaligned() instead of
 undefined fetch32_be()

The typo breaks building for big-endian targets with efficient unaligned access.
---
 src/t1ha_bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 8a0fca8..390fe68 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -951,7 +951,7 @@ tail64_be_unaligned(const void *v, size_t tail) {
   case 3:
     return (uint32_t)fetch16_be_unaligned(p) << 8 | p[2];
   case 4:
-    return fetch32_be(p);
+    return fetch32_be_unaligned(p);
   case 5:
     return (uint64_t)fetch32_be_unaligned(p) << 8 | p[4];
   case 6:
-- 
2.43.0


From 2b69198697f72eb187cc5839753a5215903f3cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 05/14] fix: make t1ha0() callable before the library
 constructor has run

Without indirect functions t1ha0_funcptr was NULL until the constructor of the
library, so calling t1ha0() from an earlier constructor crashed.
---
 src/t1ha0.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/t1ha0.c b/src/t1ha0.c
index 635f19d..4d6c60a 100644
--- a/src/t1ha0.c
+++ b/src/t1ha0.c
@@ -438,14 +438,6 @@ __asm("\t.globl\tt1ha0\n\t.type\tt1ha0, "
       "%gnu_indirect_function\n\t.set\tt1ha0,t1ha0_resolve");
 #endif /* __has_attribute(__ifunc__) */
 
-#elif __GNUC_PREREQ(4, 0) || __has_attribute(__constructor__)
-
-uint64_t (*t1ha0_funcptr)(const void *, size_t, uint64_t);
-
-static __cold void __attribute__((__constructor__)) t1ha0_init(void) {
-  t1ha0_funcptr = t1ha0_resolve();
-}
-
 #else /* T1HA_USE_INDIRECT_FUNCTIONS */
 
 static __cold uint64_t t1ha0_proxy(const void *data, size_t len,
@@ -454,8 +446,16 @@ static __cold uint64_t t1ha0_proxy(const void *data, size_t len,
   return t1ha0_funcptr(data, len, seed);
 }
 
+/* The t1ha0() could be called before the t1ha0_init(),
+ * e.g. from an another constructor. */
 uint64_t (*t1ha0_funcptr)(const void *, size_t, uint64_t) = t1ha0_proxy;
 
+#if __GNUC_PREREQ(4, 0) || __has_attribute(__constructor__)
+static __cold void __attribute__((__constructor__)) t1ha0_init(void) {
+  t1ha0_funcptr = t1ha0_resolve();
+}
+#endif /* __constructor__ */
+
 #endif /* !T1HA_USE_INDIRECT_FUNCTIONS */
 #endif /* T1HA0_RUNTIME_SELECT */
 
-- 
2.43.0


From 7e9d2fb757981df43898158b993693ee05776a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 06/14] fix: don't use AVX/AVX2 when the OS didn't enable YMM
 state in XCR0

OSXSAVE with AVX bit in CPUID are not enough: the OS or hypervisor may keep
YMM state disabled in XCR0, and then AVX instructions raise #UD.
---
 src/t1ha0.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/t1ha0.c b/src/t1ha0.c
index 4d6c60a..86c153c 100644
--- a/src/t1ha0.c
+++ b/src/t1ha0.c
@@ -361,6 +361,7 @@ uint64_t t1ha0_32be(const void *data, size_t len, uint64_t seed) {
 __cold uint64_t t1ha_ia32cpu_features(void) {
   uint32_t features = 0;
   uint32_t extended = 0;
+  uint32_t xcr0 = 0;
 #ifdef __GNUC__
   uint32_t eax, ebx, ecx, edx;
   const unsigned cpuid_max = __get_cpuid_max(0, NULL);
@@ -369,6 +370,10 @@ __cold uint64_t t1ha_ia32cpu_features(void) {
     if (cpuid_max >= 7)
       __cpuid_count(7, 0, eax, extended, ecx, edx);
   }
+  if (features & UINT32_C(0x08000000) /* OSXSAVE */)
+    __asm __volatile(".byte 0x0f, 0x01, 0xd0" /* xgetbv */
+                     : "=a"(xcr0), "=d"(edx)
+                     : "c"(0));
 #elif defined(_MSC_VER)
   int info[4];
   __cpuid(info, 0);
@@ -381,7 +386,14 @@ __cold uint64_t t1ha_ia32cpu_features(void) {
       extended = info[1];
     }
   }
+  if (features & UINT32_C(0x08000000) /* OSXSAVE */)
+    xcr0 = (uint32_t)_xgetbv(0);
 #endif
+  if ((xcr0 & 6) != 6) {
+    /* XMM and YMM state are not both enabled by OS, so AVX is unusable */
+    features &= ~UINT32_C(0x10000000);
+    extended &= ~UINT32_C(0x00000020);
+  }
   return features | (uint64_t)extended << 32;
 }
 #endif /* T1HA0_AESNI_AVAILABLE && __ia32__ */
-- 
2.43.0


From fe105cb305d478802904490b3ff5b396447d4e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 07/14] fix: don't truncate the length to 32 bits where long is
 shorter than size_t

On LLP64 targets (64-bit Windows) ~15ul is a 32-bit mask, so for lengths of
4 GiB and more the bulk of data was not hashed at all.
---
 src/t1ha0_ia32aes_b.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/t1ha0_ia32aes_b.h b/src/t1ha0_ia32aes_b.h
index f8759dd..3411e5b 100644
--- a/src/t1ha0_ia32aes_b.h
+++ b/src/t1ha0_ia32aes_b.h
@@ -56,7 +56,7 @@ uint64_t T1HA_IA32AES_NAME(const void *data, size_t len, uint64_t seed) {
 
     const __m128i *v = (const __m128i *)data;
     const __m128i *const detent =
-        (const __m128i *)((const uint8_t *)data + (len & ~15ul));
+        (const __m128i *)((const uint8_t *)data + (len & ~(size_t)15));
     data = detent;
 
     if (len & 16) {
-- 
2.43.0


From 925f20188205a6f757e285b609f5804454a831fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:19 +0000
Subject: [PATCH 08/14] fix: don't claim natural alignment for unaligned data
 on non-x86

Where unaligned access is efficient (e.g. ARMv7, AArch64) the words at
arbitrary addresses were read as naturally aligned objects. That allows a
compiler to use instructions which always need an alignment, e.g. both
gcc and clang use LDRD/LDM for ARMv7.
---
 src/t1ha_bits.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 390fe68..699de71 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -412,8 +412,7 @@ typedef uint16_t __t1ha_may_alias t1ha_aliased_uint16_t;
 typedef uint32_t __t1ha_may_alias t1ha_aliased_uint32_t;
 typedef uint64_t __t1ha_may_alias t1ha_aliased_uint64_t;
 
-#if defined(__ia32__) ||                                                       \
-    T1HA_SYS_UNALIGNED_ACCESS == T1HA_UNALIGNED_ACCESS__EFFICIENT
+#if defined(__ia32__)
 /* The __builtin_assume_aligned() leads gcc/clang to load values into the
  * registers, even when it is possible to directly use an operand from memory.
  * This can lead to a shortage of registers and a significant slowdown.
-- 
2.43.0


From 5e53725ab88f3e3aefa2a451689a603ca5e22831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:53 +0000
Subject: [PATCH 09/14] fix: declare actual alignment of 64-bit words on 32-bit
 platforms

ALIGNMENT_64 is 4 on 32-bit platforms, but such words were read through
a type with natural alignment of 8. That allows a compiler to use
instructions which require the one, e.g. LDD on SPARC or LDRD on ARMv5.
---
 src/t1ha_bits.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 699de71..0e17f11 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -408,9 +408,16 @@ static __always_inline uint16_t bswap16(uint16_t v) { return v << 8 | v >> 8; }
 #else
 #define __t1ha_may_alias
 #endif
-typedef uint16_t __t1ha_may_alias t1ha_aliased_uint16_t;
-typedef uint32_t __t1ha_may_alias t1ha_aliased_uint32_t;
-typedef uint64_t __t1ha_may_alias t1ha_aliased_uint64_t;
+/* On 32-bit platforms the 64-bit words are read from addresses with 4-byte
+ * alignment, which could be less than natural one for the type. */
+#if defined(__GNUC__) || __has_attribute(__aligned__)
+#define __t1ha_aligned(bits) __attribute__((__aligned__(ALIGNMENT_##bits)))
+#else
+#define __t1ha_aligned(bits)
+#endif
+typedef uint16_t __t1ha_may_alias t1ha_aliased_uint16_t __t1ha_aligned(16);
+typedef uint32_t __t1ha_may_alias t1ha_aliased_uint32_t __t1ha_aligned(32);
+typedef uint64_t __t1ha_may_alias t1ha_aliased_uint64_t __t1ha_aligned(64);
 
 #if defined(__ia32__)
 /* The __builtin_assume_aligned() leads gcc/clang to load values into the
-- 
2.43.0


From bd7b180ac24acac6f1786605f57dfe0b2de38bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:47 +0000
Subject: [PATCH 10/14] fix: hide the out-of-bounds oneshot reads from a
 compiler

The oneshot read of a tail may go beyond the hashed object. When it is inlined
into a caller (LTO, amalgamation) a compiler concludes that an 8-byte access
can't touch e.g. a two-byte object, and drops or moves the caller's stores,
so a hash of stale bytes was returned.
---
 src/t1ha0.c     | 15 +++++++++------
 src/t1ha_bits.h | 42 ++++++++++++++++++++++++++++++++++++------
 2 files changed, 45 insertions(+), 12 deletions(-)

diff --git a/src/t1ha0.c b/src/t1ha0.c
index 86c153c..0ef721c 100644
--- a/src/t1ha0.c
+++ b/src/t1ha0.c
@@ -51,7 +51,8 @@ static __maybe_unused __always_inline uint32_t tail32_le_aligned(const void *v,
 #if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
   /* We can perform a 'oneshot' read, which is little bit faster. */
   const unsigned shift = ((4 - tail) & 3) << 3;
-  return fetch32_le_aligned(p) & ((~UINT32_C(0)) >> shift);
+  return oneshot_val32(fetch32_le_aligned(oneshot_ptr(p))) &
+         ((~UINT32_C(0)) >> shift);
 #else
   uint32_t r = 0;
   switch (tail & 3) {
@@ -101,9 +102,10 @@ tail32_le_unaligned(const void *v, size_t tail) {
   const unsigned shift = offset << 3;
   if (likely(can_read_underside(p, 4))) {
     p -= offset;
-    return fetch32_le_unaligned(p) >> shift;
+    return oneshot_val32(fetch32_le_unaligned(oneshot_ptr(p))) >> shift;
   }
-  return fetch32_le_unaligned(p) & ((~UINT32_C(0)) >> shift);
+  return oneshot_val32(fetch32_le_unaligned(oneshot_ptr(p))) &
+         ((~UINT32_C(0)) >> shift);
 #else
   uint32_t r = 0;
   switch (tail & 3) {
@@ -151,7 +153,7 @@ static __maybe_unused __always_inline uint32_t tail32_be_aligned(const void *v,
 #if T1HA_USE_FAST_ONESHOT_READ && !defined(__SANITIZE_ADDRESS__)
   /* We can perform a 'oneshot' read, which is little bit faster. */
   const unsigned shift = ((4 - tail) & 3) << 3;
-  return fetch32_be_aligned(p) >> shift;
+  return oneshot_val32(fetch32_be_aligned(oneshot_ptr(p))) >> shift;
 #else
   switch (tail & 3) {
   default:
@@ -194,9 +196,10 @@ tail32_be_unaligned(const void *v, size_t tail) {
   const unsigned shift = offset << 3;
   if (likely(can_read_underside(p, 4))) {
     p -= offset;
-    return fetch32_be_unaligned(p) & ((~UINT32_C(0)) >> shift);
+    return oneshot_val32(fetch32_be_unaligned(oneshot_ptr(p))) &
+           ((~UINT32_C(0)) >> shift);
   }
-  return fetch32_be_unaligned(p) >> shift;
+  return oneshot_val32(fetch32_be_unaligned(oneshot_ptr(p))) >> shift;
 #else
   switch (tail & 3) {
   default:
diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 0e17f11..33ed2db 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -621,6 +621,33 @@ fetch64_le_unaligned(const void *v) {
 }
 #endif /* fetch64_le_unaligned */
 
+/* The 'oneshot' reads below may go beyond the bounds of the hashed object.
+ * If such code is inlined into a caller (LTO, amalgamation) then a compiler
+ * concludes that so large access could not be related to the smaller object,
+ * and moves or drops the caller's stores. Therefore hide this from a compiler
+ * by passing both the address and the value thru such fences. */
+static __maybe_unused __always_inline const uint8_t *
+oneshot_ptr(const uint8_t *ptr) {
+#if defined(__GNUC__) || defined(__clang__)
+  __asm__ __volatile__("" : "+r"(ptr) : : "memory");
+#endif
+  return ptr;
+}
+
+static __maybe_unused __always_inline uint32_t oneshot_val32(uint32_t v) {
+#if defined(__GNUC__) || defined(__clang__)
+  __asm__ __volatile__("" : "+r"(v) : : "memory");
+#endif
+  return v;
+}
+
+static __maybe_unused __always_inline uint64_t oneshot_val64(uint64_t v) {
+#if defined(__GNUC__) || defined(__clang__)
+  __asm__ __volatile__("" : "+r"(v) : : "memory");
+#endif
+  return v;
+}
+
 static __maybe_unused __always_inline uint64_t tail64_le_aligned(const void *v,
                                                                  size_t tail) {
   const uint8_t *const p = (const uint8_t *)v;
@@ -628,7 +655,8 @@ static __maybe_unused __always_inline uint64_t tail64_le_aligned(const void *v,
     ALIGNMENT_64 == 8
   /* We can perform a 'oneshot' read, which is little bit faster. */
   const unsigned shift = ((8 - tail) & 7) << 3;
-  return fetch64_le_aligned(p) & ((~UINT64_C(0)) >> shift);
+  return oneshot_val64(fetch64_le_aligned(oneshot_ptr(p))) &
+         ((~UINT64_C(0)) >> shift);
 #else
   uint64_t r = 0;
   switch (tail & 7) {
@@ -713,9 +741,10 @@ tail64_le_unaligned(const void *v, size_t tail) {
   const unsigned shift = offset << 3;
   if (likely(can_read_underside(p, 8))) {
     p -= offset;
-    return fetch64_le_unaligned(p) >> shift;
+    return oneshot_val64(fetch64_le_unaligned(oneshot_ptr(p))) >> shift;
   }
-  return fetch64_le_unaligned(p) & ((~UINT64_C(0)) >> shift);
+  return oneshot_val64(fetch64_le_unaligned(oneshot_ptr(p))) &
+         ((~UINT64_C(0)) >> shift);
 #else
   uint64_t r = 0;
   switch (tail & 7) {
@@ -872,7 +901,7 @@ static __maybe_unused __always_inline uint64_t tail64_be_aligned(const void *v,
     ALIGNMENT_64 == 8
   /* We can perform a 'oneshot' read, which is little bit faster. */
   const unsigned shift = ((8 - tail) & 7) << 3;
-  return fetch64_be_aligned(p) >> shift;
+  return oneshot_val64(fetch64_be_aligned(oneshot_ptr(p))) >> shift;
 #else
   switch (tail & 7) {
   default:
@@ -938,9 +967,10 @@ tail64_be_unaligned(const void *v, size_t tail) {
   const unsigned shift = offset << 3;
   if (likely(can_read_underside(p, 8))) {
     p -= offset;
-    return fetch64_be_unaligned(p) & ((~UINT64_C(0)) >> shift);
+    return oneshot_val64(fetch64_be_unaligned(oneshot_ptr(p))) &
+           ((~UINT64_C(0)) >> shift);
   }
-  return fetch64_be_unaligned(p) >> shift;
+  return oneshot_val64(fetch64_be_unaligned(oneshot_ptr(p))) >> shift;
 #else
   switch (tail & 7) {
   default:
-- 
2.43.0


From 9ad8103c9b01c0df6bae1a220924c70544de4f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:16 +0000
Subject: [PATCH 11/14] fix: don't pass a null pointer to memcpy() when
 updating with no data

---
 src/t1ha2.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/t1ha2.c b/src/t1ha2.c
index 009f922..91762c1 100644
--- a/src/t1ha2.c
+++ b/src/t1ha2.c
@@ -311,6 +311,9 @@ void t1ha2_init(t1ha_context_t *ctx, uint64_t seed_x, uint64_t seed_y) {
 
 void t1ha2_update(t1ha_context_t *__restrict ctx, const void *__restrict data,
                   size_t length) {
+  if (unlikely(length == 0))
+    return /* data may be NULL, which must not be passed to memcpy() */;
+
   ctx->total += length;
 
   if (ctx->partial) {
-- 
2.43.0


From 36980a2dd5a2e0cf8c2e21a607f3698cdbc2d505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:21 +0000
Subject: [PATCH 12/14] fix: don't use oneshot reads under MemorySanitizer

---
 src/t1ha_bits.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/t1ha_bits.h b/src/t1ha_bits.h
index 33ed2db..389dae6 100644
--- a/src/t1ha_bits.h
+++ b/src/t1ha_bits.h
@@ -122,6 +122,12 @@
 #define __SANITIZE_ADDRESS__ 1
 #endif
 
+#if __has_feature(memory_sanitizer)
+/* MemorySanitizer doesn't see that garbage is masked out of 'oneshot' reads. */
+#undef T1HA_USE_FAST_ONESHOT_READ
+#define T1HA_USE_FAST_ONESHOT_READ 0
+#endif
+
 #ifndef __optimize
 #if defined(__clang__) && !__has_attribute(__optimize__)
 #define __optimize(ops)
-- 
2.43.0


From f8b04ae52d57460c34d68dd9bc3d085095d68344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:28 +0000
Subject: [PATCH 13/14] fix: don't probe for CPUID by toggling EFLAGS where it
 is always present

---
 src/t1ha0.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/t1ha0.c b/src/t1ha0.c
index 0ef721c..6d8415f 100644
--- a/src/t1ha0.c
+++ b/src/t1ha0.c
@@ -367,7 +367,15 @@ __cold uint64_t t1ha_ia32cpu_features(void) {
   uint32_t xcr0 = 0;
 #ifdef __GNUC__
   uint32_t eax, ebx, ecx, edx;
+#if defined(__x86_64__) || defined(__i586__) || defined(__i686__) ||           \
+    defined(__SSE__)
+  /* CPUID is always present. Moreover, the probing of it by toggling a flag
+   * in the EFLAGS could be confused by an interrupting signal handler. */
+  unsigned cpuid_max;
+  __cpuid(0, cpuid_max, ebx, ecx, edx);
+#else
   const unsigned cpuid_max = __get_cpuid_max(0, NULL);
+#endif
   if (cpuid_max >= 1) {
     __cpuid_count(1, 0, eax, ebx, features, edx);
     if (cpuid_max >= 7)
-- 
2.43.0


From c2b8c458b02047622f05ae4239f1294a93c49523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:45 +0000
Subject: [PATCH 14/14] fix: make accesses to t1ha0_funcptr atomic, the choice
 may be made by several threads

---
 src/t1ha0.c | 16 +++++++++++++---
 t1ha.h      |  5 +++++
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/t1ha0.c b/src/t1ha0.c
index 6d8415f..cc59f44 100644
--- a/src/t1ha0.c
+++ b/src/t1ha0.c
@@ -463,10 +463,20 @@ __asm("\t.globl\tt1ha0\n\t.type\tt1ha0, "
 
 #else /* T1HA_USE_INDIRECT_FUNCTIONS */
 
+/* Several threads may make the choice at the same time. */
+static __cold t1ha0_function_t t1ha0_choose(void) {
+  const t1ha0_function_t choice = t1ha0_resolve();
+#if defined(__GCC_ATOMIC_POINTER_LOCK_FREE) && __GCC_ATOMIC_POINTER_LOCK_FREE > 1
+  __atomic_store_n(&t1ha0_funcptr, choice, __ATOMIC_RELAXED);
+#else
+  t1ha0_funcptr = choice;
+#endif
+  return choice;
+}
+
 static __cold uint64_t t1ha0_proxy(const void *data, size_t len,
                                    uint64_t seed) {
-  t1ha0_funcptr = t1ha0_resolve();
-  return t1ha0_funcptr(data, len, seed);
+  return t1ha0_choose()(data, len, seed);
 }
 
 /* The t1ha0() could be called before the t1ha0_init(),
@@ -475,7 +485,7 @@ uint64_t (*t1ha0_funcptr)(const void *, size_t, uint64_t) = t1ha0_proxy;
 
 #if __GNUC_PREREQ(4, 0) || __has_attribute(__constructor__)
 static __cold void __attribute__((__constructor__)) t1ha0_init(void) {
-  t1ha0_funcptr = t1ha0_resolve();
+  t1ha0_choose();
 }
 #endif /* __constructor__ */
 
diff --git a/t1ha.h b/t1ha.h
index 8ea3b46..cd2cc9d 100644
--- a/t1ha.h
+++ b/t1ha.h
@@ -636,7 +636,12 @@ T1HA_API extern uint64_t (*t1ha0_funcptr)(const void *data, size_t length,
                                           uint64_t seed);
 static __force_inline uint64_t t1ha0(const void *data, size_t length,
                                      uint64_t seed) {
+#if defined(__GCC_ATOMIC_POINTER_LOCK_FREE) && __GCC_ATOMIC_POINTER_LOCK_FREE > 1
+  /* Another thread may be making the choice just now. */
+  return __atomic_load_n(&t1ha0_funcptr, __ATOMIC_RELAXED)(data, length, seed);
+#else
   return t1ha0_funcptr(data, length, seed);
+#endif
 }
 #endif /* T1HA_USE_INDIRECT_FUNCTIONS */
 
-- 
2.43.0

