/* A user of the public header (P22): compiled as C and as C++, in every language
 * standard, and linked against the static or the shared library.  Sticks to what
 * C89 and C++98 offer. */
#ifdef USAGE_BEFORE /* headers commonly met before it */
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#if defined(__i386__) || defined(__x86_64__)
#include <x86intrin.h>
#endif
#endif
#include "t1ha.h"
#ifdef USAGE_TWICE
#include "t1ha.h"
#endif
#include "../ref/ref.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef uint64_t (*usage_fn)(const void *, size_t, uint64_t);
typedef uint64_t (*usage_ref)(const void *, uint64_t, uint64_t);
#ifdef USAGE_SECOND /* another translation unit, maybe of the other language */
#ifdef __cplusplus
extern "C"
#endif
#ifndef T1HA2_DISABLED
void usage_update(t1ha_context_t *c, const void *d, size_t n) { t1ha2_update(c, d, n); }
#else
void usage_update(void *c, const void *d, size_t n) { (void)c, (void)d, (void)n; }
#endif
#ifndef T1HA0_DISABLED
#ifdef __cplusplus
extern "C"
#endif
uint64_t usage_t1ha0(const void *d, size_t n, uint64_t s) { return t1ha0(d, n, s); }
#endif
#ifdef __cplusplus
extern "C"
#endif
const size_t usage_layout[6] = {sizeof(t1ha_context_t), sizeof(t1ha_state256_t), offsetof(t1ha_context_t, buffer), offsetof(t1ha_context_t, partial),
  offsetof(t1ha_context_t, total), offsetof(t1ha_state256_t, n)};
#else
#ifdef __cplusplus
extern "C" {
#endif
#ifndef T1HA2_DISABLED
extern void usage_update(t1ha_context_t *c, const void *d, size_t n);
#endif
extern uint64_t usage_t1ha0(const void *d, size_t n, uint64_t s);
extern const size_t usage_layout[6];
#ifdef __cplusplus
}
template <usage_fn F> struct as_parameter {
  static uint64_t call(const void *d, size_t n, uint64_t s) { return F(d, n, s); }
};
#endif

static unsigned char msg[512];
static unsigned long calls;
static void bad(const char *what, unsigned long n) {
  printf("FAIL %s of %lu bytes is not the published value\n", what, n);
  exit(1);
}
#define SAME(what, a, b) do { ++calls; if ((a) != (b)) bad(what, (unsigned long)n); } while (0)
#define ZERO(f) do { int (*p)(void) = f; ++calls; if (f() != 0 || p() != 0) { printf("FAIL " #f "() = %d\n", f()); exit(1); } } while (0)

/* addresses as constants */
static const struct { const char *name; usage_fn f; usage_ref ref; } table[] = {
#ifndef T1HA2_DISABLED
    {"t1ha2_atonce by address", t1ha2_atonce, ref_t1ha2_atonce},
#endif
#ifndef T1HA1_DISABLED
    {"t1ha1_le by address", t1ha1_le, ref_t1ha1_le},
    {"t1ha1_be by address", t1ha1_be, ref_t1ha1_be},
#endif
#ifndef T1HA0_DISABLED
    {"t1ha0_32le by address", t1ha0_32le, ref_t1ha0_32le},
    {"t1ha0_32be by address", t1ha0_32be, ref_t1ha0_32be},
    {"t1ha0 by address", t1ha0, NULL},
#endif
    {NULL, NULL, NULL}};

static uint64_t ref_choice(const void *d, uint64_t n, uint64_t s) {
#if T1HA0_RUNTIME_SELECT && T1HA0_AESNI_AVAILABLE
  if (__builtin_cpu_supports("aes"))
    return __builtin_cpu_supports("avx2") ? ref_aes_b(d, n, s) : ref_aes_a(d, n, s);
#endif
#ifdef __LP64__
#ifndef T1HA1_DISABLED
  return ref_t1ha1_le(d, n, s);
#elif !defined(T1HA2_DISABLED)
  return ref_t1ha2_atonce(d, n, s);
#endif
#endif
  return ref_t1ha0_32le(d, n, s);
}

int main(void) {
  size_t n, i;
  unsigned seed = 1;
  for (i = 0; i < sizeof msg; ++i)
    msg[i] = (unsigned char)((seed = seed * 1103515245u + 12345u) >> 16);
  {
    const size_t mine[6] = {sizeof(t1ha_context_t), sizeof(t1ha_state256_t), offsetof(t1ha_context_t, buffer), offsetof(t1ha_context_t, partial),
      offsetof(t1ha_context_t, total), offsetof(t1ha_state256_t, n)};
    if (memcmp(mine, usage_layout, sizeof mine)) {
      printf("FAIL C and C++ do not agree on the layout of t1ha_context_t\n");
      return 1;
    }
  }
  for (n = 0; n < 300; n += n < 70 ? 1 : 23) {
    const unsigned char *p = msg + n % 9;
    const uint64_t s = (uint64_t)n << 56 ^ n;
    for (i = 0; table[i].name; ++i)
      SAME(table[i].name, table[i].f(p, n, s), (table[i].ref ? table[i].ref : (usage_ref)ref_choice)(p, n, s));
#ifndef T1HA2_DISABLED
    {
      uint64_t hi = 1, hi2 = 2;
      ref128 r = ref_t1ha2_atonce128(p, n, s);
      t1ha_context_t c;
      SAME("t1ha2_atonce", t1ha2_atonce(p, n, s), ref_t1ha2_atonce(p, n, s));
      SAME("t1ha2_atonce128 (low half)", t1ha2_atonce128(&hi, p, n, s), r.lo);
      SAME("t1ha2_atonce128 (high half)", hi, r.hi);
      t1ha2_init(&c, s, ~s);
      t1ha2_update(&c, p, n / 2);
      usage_update(&c, p + n / 2, n - n / 2);
      SAME("stream", t1ha2_final(&c, NULL), ref_t1ha2_stream(p, n, s, ~s));
      t1ha2_init(&c, s, ~s);
      usage_update(&c, p, n / 3);
      t1ha2_update(&c, p + n / 3, n - n / 3);
      r = ref_t1ha2_stream128(p, n, s, ~s);
      SAME("128-bit stream (low half)", t1ha2_final(&c, &hi2), r.lo);
      SAME("128-bit stream (high half)", hi2, r.hi);
    }
#endif
#ifndef T1HA1_DISABLED
    SAME("t1ha1_le", t1ha1_le(p, n, s), ref_t1ha1_le(p, n, s));
    SAME("t1ha1_be", t1ha1_be(p, n, s), ref_t1ha1_be(p, n, s));
#ifdef __cplusplus
    SAME("t1ha1_le as a template parameter", as_parameter<t1ha1_le>::call(p, n, s), ref_t1ha1_le(p, n, s));
#endif
#endif
#ifndef T1HA0_DISABLED
    SAME("t1ha0_32le", t1ha0_32le(p, n, s), ref_t1ha0_32le(p, n, s));
    SAME("t1ha0_32be", t1ha0_32be(p, n, s), ref_t1ha0_32be(p, n, s));
    SAME("t1ha0", t1ha0(p, n, s), ref_choice(p, n, s));
    SAME("t1ha0 in another translation unit", usage_t1ha0(p, n, s), ref_choice(p, n, s));
#if T1HA0_RUNTIME_SELECT
    {
      t1ha0_function_t f = t1ha0_resolve();
      SAME("t1ha0_resolve()'s function", f(p, n, s), ref_choice(p, n, s));
    }
#if !T1HA_USE_INDIRECT_FUNCTIONS
    SAME("t1ha0_funcptr", t1ha0_funcptr(p, n, s), ref_choice(p, n, s));
#endif
#endif
#endif
  }
#ifndef T1HA2_DISABLED
  ZERO(t1ha_selfcheck__t1ha2_atonce);
  ZERO(t1ha_selfcheck__t1ha2_atonce128);
  ZERO(t1ha_selfcheck__t1ha2_stream);
  ZERO(t1ha_selfcheck__t1ha2);
#endif
#ifndef T1HA1_DISABLED
  ZERO(t1ha_selfcheck__t1ha1_le);
  ZERO(t1ha_selfcheck__t1ha1_be);
  ZERO(t1ha_selfcheck__t1ha1);
#endif
#ifndef T1HA0_DISABLED
  ZERO(t1ha_selfcheck__t1ha0_32le);
  ZERO(t1ha_selfcheck__t1ha0_32be);
  ZERO(t1ha_selfcheck__t1ha0);
#if T1HA0_AESNI_AVAILABLE
  if (__builtin_cpu_supports("aes") && __builtin_cpu_supports("avx2")) {
    ZERO(t1ha_selfcheck__t1ha0_ia32aes_noavx);
    ZERO(t1ha_selfcheck__t1ha0_ia32aes_avx);
    ZERO(t1ha_selfcheck__t1ha0_ia32aes_avx2);
  }
#endif
#endif
  ZERO(t1ha_selfcheck__all_enabled);
  printf("STAT states 1\nSTAT transitions %lu\nSTAT traces %lu\nDONE\n", calls, calls);
  return 0;
}
#endif
