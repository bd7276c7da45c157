/* The entry points under check and their references, as uniform functions. */
#pragma once
#include "common.h"
#include "../ref/ref.h"
#include "t1ha.h"

typedef struct { uint64_t lo, hi; } res;
typedef struct {
  const char *name;
  int two_seeds, wide, aes, w32; /* w32: 32-bit words */
  res (*impl)(const void *, size_t, uint64_t, uint64_t);
  res (*ref)(const void *, size_t, uint64_t, uint64_t);
} entry;

#define R64(x) do { res r = {(x), 0}; return r; } while (0)
#define IMPL3(n) static res i_##n(const void *d, size_t l, uint64_t x, uint64_t y) { (void)y; R64(n(d, l, x)); }
#define REF3(n, f) static res r_##n(const void *d, size_t l, uint64_t x, uint64_t y) { (void)y; R64(f(d, l, x)); }
#ifndef T1HA2_DISABLED
IMPL3(t1ha2_atonce)
REF3(t1ha2_atonce, ref_t1ha2_atonce)
/* the destination stands between canaries, at every alignment the ABI allows */
static unsigned dst_step;
static res i_t1ha2_atonce128(const void *d, size_t l, uint64_t x, uint64_t y) {
  static struct { uint64_t v[8]; } box __attribute__((aligned(64)));
  const uint64_t canary = UINT64_C(0x5AC0FFEE5AC0FFEE) ^ x ^ l;
  unsigned at = 1 + dst_step++ % 6;
  (void)y;
  for (int i = 0; i < 8; ++i)
    box.v[i] = canary + i;
  res r;
  r.lo = t1ha2_atonce128(&box.v[at], d, l, x);
  r.hi = box.v[at];
  for (unsigned i = 0; i < 8; ++i)
    if (i != at && box.v[i] != canary + i)
      fail("t1ha2_atonce128 wrote outside of extra_result: word %d from it, len=%zu seed=0x%" PRIx64, (int)i - (int)at, l, x);
  return r;
}
static res r_t1ha2_atonce128(const void *d, size_t l, uint64_t x, uint64_t y) {
  (void)y;
  ref128 v = ref_t1ha2_atonce128(d, l, x);
  res r = {v.lo, v.hi};
  return r;
}
static res i_stream64(const void *d, size_t l, uint64_t x, uint64_t y) {
  t1ha_context_t c;
  t1ha2_init(&c, x, y);
  t1ha2_update(&c, d, l);
  R64(t1ha2_final(&c, NULL));
}
static res r_stream64(const void *d, size_t l, uint64_t x, uint64_t y) { R64(ref_t1ha2_stream(d, l, x, y)); }
static res i_stream128(const void *d, size_t l, uint64_t x, uint64_t y) {
  t1ha_context_t c;
  struct { uint64_t a, v, b; } box = {x ^ 77, x ^ l ^ 5, y ^ 99};
  res r;
  t1ha2_init(&c, x, y);
  t1ha2_update(&c, d, l);
  r.lo = t1ha2_final(&c, &box.v);
  r.hi = box.v;
  if (box.a != (x ^ 77) || box.b != (y ^ 99))
    fail("t1ha2_final wrote next to extra_result: len=%zu seeds=0x%" PRIx64 ",0x%" PRIx64, l, x, y);
  return r;
}
static res r_stream128(const void *d, size_t l, uint64_t x, uint64_t y) {
  ref128 v = ref_t1ha2_stream128(d, l, x, y);
  res r = {v.lo, v.hi};
  return r;
}
#endif
#ifndef T1HA1_DISABLED
IMPL3(t1ha1_le)
IMPL3(t1ha1_be)
REF3(t1ha1_le, ref_t1ha1_le)
REF3(t1ha1_be, ref_t1ha1_be)
#endif
#ifndef T1HA0_DISABLED
IMPL3(t1ha0_32le)
IMPL3(t1ha0_32be)
REF3(t1ha0_32le, ref_t1ha0_32le)
REF3(t1ha0_32be, ref_t1ha0_32be)
/* t1ha0() promises no particular value; its "reference" is itself on a private copy of the message */
static res i_t1ha0(const void *d, size_t l, uint64_t x, uint64_t y) { (void)y; R64(t1ha0(d, l, x)); }
static res r_t1ha0(const void *d, size_t l, uint64_t x, uint64_t y) {
  static uint8_t copy[1 << 16] __attribute__((aligned(64)));
  (void)y;
  if (l > sizeof copy - 64)
    abort();
  memcpy(copy + 32, d, l);
  memset(copy + 32 + l, 0x11, 32);
  R64(t1ha0(copy + 32, l, x));
}
#if T1HA0_AESNI_AVAILABLE
IMPL3(t1ha0_ia32aes_noavx)
IMPL3(t1ha0_ia32aes_avx)
#ifndef __e2k__
IMPL3(t1ha0_ia32aes_avx2)
REF3(t1ha0_ia32aes_avx2, ref_aes_b)
#endif
REF3(t1ha0_ia32aes_noavx, ref_aes_a)
REF3(t1ha0_ia32aes_avx, ref_aes_a)
#endif
#endif
static entry all[] = {
#ifndef T1HA2_DISABLED
    {"t1ha2_atonce", 0, 0, 0, 0, i_t1ha2_atonce, r_t1ha2_atonce},
    {"t1ha2_atonce128", 0, 1, 0, 0, i_t1ha2_atonce128, r_t1ha2_atonce128},
    {"stream64", 1, 0, 0, 0, i_stream64, r_stream64},
    {"stream128", 1, 1, 0, 0, i_stream128, r_stream128},
#endif
#ifndef T1HA1_DISABLED
    {"t1ha1_le", 0, 0, 0, 0, i_t1ha1_le, r_t1ha1_le},
    {"t1ha1_be", 0, 0, 0, 0, i_t1ha1_be, r_t1ha1_be},
#endif
#ifndef T1HA0_DISABLED
    {"t1ha0_32le", 0, 0, 0, 1, i_t1ha0_32le, r_t1ha0_32le},
    {"t1ha0_32be", 0, 0, 0, 1, i_t1ha0_32be, r_t1ha0_32be},
    {"t1ha0", 0, 0, 0, 0, i_t1ha0, r_t1ha0},
#if T1HA0_AESNI_AVAILABLE
    {"t1ha0_ia32aes_noavx", 0, 0, 1, 0, i_t1ha0_ia32aes_noavx, r_t1ha0_ia32aes_noavx},
    {"t1ha0_ia32aes_avx", 0, 0, 2, 0, i_t1ha0_ia32aes_avx, r_t1ha0_ia32aes_avx},
#ifndef __e2k__
    {"t1ha0_ia32aes_avx2", 0, 0, 3, 0, i_t1ha0_ia32aes_avx2, r_t1ha0_ia32aes_avx2},
#endif
#endif
#endif
};
#define NALL (sizeof all / sizeof *all)
static int cpu_can(const entry *e) {
#if defined(__i386__) || defined(__x86_64__) || defined(__e2k__) /* (imitated) */
  return !((e->aes == 1 && !__builtin_cpu_supports("aes")) || (e->aes == 2 && !(__builtin_cpu_supports("aes") && __builtin_cpu_supports("avx"))) ||
           (e->aes == 3 && !(__builtin_cpu_supports("aes") && __builtin_cpu_supports("avx2"))));
#else
  return !e->aes;
#endif
}

