/* What the sources use of Microsoft's intrin.h, for the MSVC rendition (see vlib.Check.windows). */
#pragma once
#include <immintrin.h>
#define MSVC_FN static __inline__ __attribute__((__always_inline__, __nodebug__))
MSVC_FN unsigned __int64 _byteswap_uint64(unsigned __int64 v) { return __builtin_bswap64(v); }
MSVC_FN unsigned long _byteswap_ulong(unsigned long v) { return __builtin_bswap32(v); }
MSVC_FN unsigned short _byteswap_ushort(unsigned short v) { return __builtin_bswap16(v); }
#ifdef __x86_64__
MSVC_FN unsigned __int64 msvc_umul128(unsigned __int64 a, unsigned __int64 b, unsigned __int64 *h) {
  unsigned __int128 p = (unsigned __int128)a * b;
  *h = (unsigned __int64)(p >> 64);
  return (unsigned __int64)p;
}
#define _umul128 msvc_umul128
MSVC_FN unsigned __int64 msvc_umulh(unsigned __int64 a, unsigned __int64 b) { return (unsigned __int64)((unsigned __int128)a * b >> 64); }
#define __umulh msvc_umulh
#endif
MSVC_FN unsigned __int64 msvc_emulu(unsigned a, unsigned b) { return (unsigned __int64)a * b; }
#define __emulu msvc_emulu
#undef __cpuid
#undef __cpuidex
MSVC_FN void msvc_cpuidex(int *r, int leaf, int sub) {
#ifdef __x86_64__
  __asm__ volatile("xchgq %%rbx, %q1; cpuid; xchgq %%rbx, %q1" : "=a"(r[0]), "=&r"(r[1]), "=c"(r[2]), "=d"(r[3]) : "0"(leaf), "2"(sub));
#else
  __asm__ volatile("cpuid" : "=a"(r[0]), "=b"(r[1]), "=c"(r[2]), "=d"(r[3]) : "0"(leaf), "2"(sub));
#endif
}
#define __cpuidex msvc_cpuidex
#define __cpuid(r, leaf) msvc_cpuidex(r, leaf, 0)
MSVC_FN unsigned __int64 msvc_xgetbv(unsigned n) {
  unsigned a, d;
  __asm__ volatile(".byte 0x0f, 0x01, 0xd0" : "=a"(a), "=d"(d) : "c"(n));
  return (unsigned __int64)d << 32 | a;
}
#define _xgetbv msvc_xgetbv
