/* Callers that are optimised together with the library (P21).
 *
 *   -DENTRY=<entry point>          which one is called
 *   -DUNITY='"path/src/x.c"' ...   single translation unit, else LTO
 *   -DFLAT                         everything is inlined into the callers
 *
 * Each caller writes an object of some type, calls the hash function and goes
 * on using the object.  The expected bytes are tracked in volatile storage. */
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "../ref/ref.h"
#ifdef UNITY
#include UNITY
#ifdef UNITY2
#include UNITY2
#endif
#ifdef UNITY3
#include UNITY3
#endif
#endif
#include "t1ha.h"
#include "../ref/ref.h"

#define E_t1ha2_atonce 1
#define E_t1ha2_atonce128 2
#define E_stream64 3
#define E_stream128 4
#define E_t1ha1_le 5
#define E_t1ha1_be 6
#define E_t1ha0_32le 7
#define E_t1ha0_32be 8
#define E_t1ha0 9
#define E_t1ha0_ia32aes_noavx 10
#define E_t1ha0_ia32aes_avx 11
#define E_t1ha0_ia32aes_avx2 12
#define XCAT(a, b) a##b
#define CAT(a, b) XCAT(a, b)
#define XSTR(a) #a
#define STR(a) XSTR(a)
#define WHAT CAT(E_, ENTRY)

typedef struct { uint64_t lo, hi; } pair;

/* the call, as callers write it */
static inline __attribute__((always_inline)) pair call(const void *p, size_t n, uint64_t s) {
  pair r = {0, 0};
#if WHAT == E_t1ha2_atonce128
  uint64_t hi = 5;
  r.lo = t1ha2_atonce128(&hi, p, n, s);
  r.hi = hi;
#elif WHAT == E_stream64 || WHAT == E_stream128
  t1ha_context_t c, d;
  size_t k = n / 2 & ~(size_t)7;
  t1ha2_init(&c, s, s + 1);
  t1ha2_update(&c, p, k);
  d = c; /* both go on */
  t1ha2_update(&d, (const char *)p + k, n - k);
#if WHAT == E_stream64
  r.lo = t1ha2_final(&d, NULL);
  t1ha2_update(&c, (const char *)p + k, n - k);
  if (t1ha2_final(&c, NULL) != r.lo)
    r.hi = 1;
#else
  uint64_t hi = 5, hi2 = 6;
  r.lo = t1ha2_final(&d, &hi);
  t1ha2_update(&c, (const char *)p + k, n - k);
  r.hi = hi;
  if (t1ha2_final(&c, &hi2) != r.lo || hi2 != hi)
    r.hi = ~hi;
#endif
#else
  r.lo = ENTRY(p, n, s);
#endif
  return r;
}
static pair want(const void *p, size_t n, uint64_t s) {
  pair r = {0, 0};
#if WHAT == E_t1ha2_atonce128
  ref128 v = ref_t1ha2_atonce128(p, n, s);
  r.lo = v.lo, r.hi = v.hi;
#elif WHAT == E_stream64
  r.lo = ref_t1ha2_stream(p, n, s, s + 1);
#elif WHAT == E_stream128
  ref128 v = ref_t1ha2_stream128(p, n, s, s + 1);
  r.lo = v.lo, r.hi = v.hi;
#elif WHAT == E_t1ha0_ia32aes_noavx || WHAT == E_t1ha0_ia32aes_avx
  r.lo = ref_aes_a(p, n, s);
#elif WHAT == E_t1ha0_ia32aes_avx2
  r.lo = ref_aes_b(p, n, s);
#elif WHAT == E_t1ha0
#if T1HA0_RUNTIME_SELECT && T1HA0_AESNI_AVAILABLE
  if (__builtin_cpu_supports("aes"))
    r.lo = __builtin_cpu_supports("avx2") ? ref_aes_b(p, n, s) : ref_aes_a(p, n, s);
  else
#endif
  r.lo = sizeof(void *) > 4 ? ref_t1ha1_le(p, n, s) : ref_t1ha0_32le(p, n, s);
#else
  r.lo = CAT(ref_, ENTRY)(p, n, s);
#endif
  return r;
}

static unsigned long calls, fails;
static void __attribute__((noinline)) judge(const char *type, int n, const char *pattern, pair got, const void *bytes, size_t len, uint64_t s) {
  pair w = want(bytes, len, s);
  ++calls;
  if (got.lo != w.lo || got.hi != w.hi) {
    printf("FAIL " STR(ENTRY) " of %zu bytes written as %s[%d] (%s): %016" PRIx64 ":%016" PRIx64 ", %016" PRIx64 ":%016" PRIx64 " expected\n", len, type, n, pattern,
           got.hi, got.lo, w.hi, w.lo);
    if (++fails >= 3) {
      fflush(stdout);
      exit(1);
    }
  }
}

#ifdef FLAT
#define CALLER __attribute__((noinline, flatten))
#else
#define CALLER __attribute__((noinline))
#endif

/* plain stores; another store after the call must not swallow the one before it;
 * a store between two calls must be seen by the second only */
#define CASE(T, N)                                                                                                                                   \
  static CALLER void put_##T##_##N(uint64_t v) {                                                                                                     \
    T a[N];                                                                                                                                          \
    volatile T b[N];                                                                                                                                 \
    static unsigned char t[sizeof(T) * N];                                                                                                           \
    for (int i = 0; i < N; ++i)                                                                                                                      \
      a[i] = (T)(v + (uint64_t)i * 7), b[i] = (T)(v + (uint64_t)i * 7);                                                                              \
    pair r = call(a, sizeof a, v);                                                                                                                   \
    for (unsigned i = 0; i < sizeof t; ++i)                                                                                                          \
      t[i] = ((volatile unsigned char *)b)[i];                                                                                                       \
    judge(#T, N, "just written", r, t, sizeof t, v);                                                                                                 \
    a[N / 2] = (T)(v * 3 + 1), b[N / 2] = (T)(v * 3 + 1);                                                                                            \
    r = call(a, sizeof a, v);                                                                                                                        \
    a[N / 2] = (T)5;                                                                                                                                 \
    for (unsigned i = 0; i < sizeof t; ++i)                                                                                                          \
      t[i] = ((volatile unsigned char *)b)[i];                                                                                                       \
    judge(#T, N, "changed before and after the call", r, t, sizeof t, v);                                                                            \
    sink = (uint64_t)a[N - 1] + (uint64_t)a[N / 2];                                                                                                  \
  }                                                                                                                                                  \
  static T s_##T##_##N[N + 1];                                                                                                                       \
  static CALLER void stat_##T##_##N(uint64_t v) {                                                                                                    \
    T *a = s_##T##_##N;                                                                                                                              \
    volatile T b[N + 1];                                                                                                                             \
    static unsigned char t[sizeof(T) * (N + 1)];                                                                                                     \
    memset(a, 0x3C, sizeof s_##T##_##N);                                                                                                             \
    for (int i = N; i >= 0; --i)                                                                                                                     \
      a[i] = (T)(v - (uint64_t)i * 31), b[i] = (T)(v - (uint64_t)i * 31);                                                                            \
    pair r = call(a + 1, sizeof(T) * N - (v & 1), v);                                                                                                \
    for (int i = 0; i <= N; ++i)                                                                                                                     \
      a[i] = (T)0;                                                                                                                                   \
    for (unsigned i = 0; i < sizeof t; ++i)                                                                                                          \
      t[i] = ((volatile unsigned char *)b)[i];                                                                                                       \
    judge(#T, N, "static object, from its second element", r, t + sizeof(T), sizeof(T) * N - (v & 1), v);                                           \
  }
static volatile uint64_t sink;

typedef unsigned char u8;
typedef signed char s8;
typedef uint16_t u16;
typedef int16_t i16;
typedef uint32_t u32;
typedef int32_t i32;
typedef uint64_t u64;
typedef long lng;
typedef long long ll;
typedef float flt;
typedef double dbl;
typedef void *ptr_;
#define TYPES(N) TYPES_(N)
#ifdef SMALLSET
#define EACH(X, N) X(u16, N) X(i32, N) X(u64, N) X(dbl, N)
#else
#define EACH(X, N) X(u8, N) X(u16, N) X(i16, N) X(u32, N) X(i32, N) X(u64, N) X(lng, N) X(ll, N) X(flt, N) X(dbl, N)
#endif
#define ALLN(X) EACH(X, 1) EACH(X, 2) EACH(X, 3) EACH(X, 5) EACH(X, 9) EACH(X, 18)
ALLN(CASE)

/* objects of structure and union types, pointers */
struct rec { i16 a, b; i32 c; flt d; i16 e[3]; u16 f; dbl g; ptr_ h; i32 i[2]; };
union uni { dbl d[3]; u16 s[12]; u32 w[6]; };
static CALLER void structures(uint64_t v) {
  struct rec a;
  volatile struct rec b;
  static unsigned char t[sizeof(struct rec)];
  memset(&a, 0, sizeof a);
  memset((void *)&b, 0, sizeof b);
#define SET(f, x) a.f = (x), b.f = (x)
  SET(a, (i16)v), SET(b, (i16)(v >> 7)), SET(c, (i32)(v * 5)), SET(d, (flt)v), SET(e[0], 1), SET(e[1], (i16)v), SET(e[2], 3), SET(f, (u16)v);
  SET(g, (dbl)v), SET(h, (void *)(uintptr_t)(v | 1)), SET(i[0], (i32)v), SET(i[1], ~(i32)v);
  pair r = call(&a, sizeof a, v);
  for (unsigned i = 0; i < sizeof t; ++i)
    t[i] = ((volatile unsigned char *)&b)[i];
  judge("structure", 1, "just written", r, t, sizeof t, v);
  SET(e[1], (i16)(v + 9)), SET(g, 1.0 / (1 + (dbl)v)), SET(h, (void *)&a);
  r = call(&a, sizeof a, v);
  for (unsigned i = 0; i < sizeof t; ++i)
    t[i] = ((volatile unsigned char *)&b)[i];
  judge("structure", 1, "changed", r, t, sizeof t, v);
  union uni u, *m = malloc(sizeof *m * 2);
  volatile union uni w;
  static unsigned char q[sizeof(union uni)];
  for (int i = 0; i < 3; ++i)
    m[1].d[i] = u.d[i] = (dbl)v + i, w.d[i] = (dbl)v + i;
  r = call(&u, sizeof u, v);
  pair r2 = call(&m[1], sizeof *m, v);
  m[1].s[7] = u.s[7] = (u16)v;
  for (unsigned i = 0; i < sizeof q; ++i)
    q[i] = ((volatile unsigned char *)&w)[i];
  judge("union of double", 3, "just written", r, q, sizeof q, v);
  judge("union of double", 3, "just written, allocated", r2, q, sizeof q, v);
  r = call(&u, sizeof u, v), r2 = call(&m[1], sizeof *m, v);
  w.s[7] = (u16)v;
  free(m);
  for (unsigned i = 0; i < sizeof q; ++i)
    q[i] = ((volatile unsigned char *)&w)[i];
  judge("union of short", 12, "changed", r, q, sizeof q, v);
  judge("union of short", 12, "changed, allocated, then freed", r2, q, sizeof q, v);
  /* swapped through pointers of its own type */
  i32 x[6], k;
  volatile i32 y[6];
  static unsigned char z[24];
  for (k = 0; k < 6; ++k)
    x[k] = (i32)(v ^ (uint64_t)k * 1000003u);
  for (k = 0; k < 3; ++k) {
    i32 s = x[k];
    x[k] = x[5 - k], x[5 - k] = s;
  }
  for (k = 0; k < 6; ++k)
    y[k] = (i32)(v ^ (uint64_t)(5 - k) * 1000003u);
  r = call(x, sizeof x, v);
  for (unsigned i = 0; i < sizeof z; ++i)
    z[i] = ((volatile unsigned char *)y)[i];
  judge("int", 6, "reversed in place", r, z, sizeof z, v);
}

/* nothing at all: the caller still distinguishes a null pointer afterwards */
static volatile int is_null, was_null;
static CALLER void nothing(const void *p, size_t n, uint64_t v) {
  pair r = call(p, n, v);
  is_null = p == NULL;
  judge("nothing", 0, "empty", r, p ? p : "", n, v);
  if (is_null != was_null) {
    printf("FAIL " STR(ENTRY) " of %zu bytes: the caller's null pointer is no longer taken for one\n", n);
    ++fails;
  }
}
#if WHAT == E_stream64
static CALLER void no_extra(uint64_t *extra, const void *p, size_t n, uint64_t v) {
  t1ha_context_t c;
  t1ha2_init(&c, v, v + 1);
  t1ha2_update(&c, p, n);
  pair r = {t1ha2_final(&c, extra), 0};
  is_null = extra == NULL;
  judge("bytes", (int)n, "no room for the second half", r, p, n, v);
  if (!is_null) {
    printf("FAIL " STR(ENTRY) ": the caller's null pointer to the second half is no longer taken for one\n");
    ++fails;
  }
}
#endif

/* everything known to the compiler */
#define TEXT "The quick brown fox jumps over the lazy dog, 0123456789 times and once more; then it rests: zzz. And so on until the end of the line has come at last"
#define LIT(N)                                                                                                                                        \
  static CALLER void lit_##N(void) {                                                                                                                 \
    static const char end[] = TEXT;                                                                                                                  \
    static const unsigned char tab[N + 1] = {1, 2, 3, 4, 5, 6, 7, 0x88};                                                                             \
    char loc[N + 1];                                                                                                                                 \
    pair r = call(TEXT, N, 42);                                                                                                                      \
    judge("literal", N, "its beginning", r, TEXT, N, 42);                                                                                            \
    r = call(&TEXT[sizeof TEXT - 1 - N], N, N);                                                                                                      \
    judge("literal", N, "its end", r, end + sizeof end - 1 - N, N, N);                                                                               \
    r = call(tab, N, 0);                                                                                                                             \
    judge("constant table", N, "of its own", r, tab, N, 0);                                                                                          \
    for (unsigned i = 0; i < N; ++i)                                                                                                                 \
      loc[i] = end[i];                                                                                                                               \
    loc[N] = 1;                                                                                                                                      \
    r = call(loc, N, 1);                                                                                                                             \
    loc[N / 2] = 0;                                                                                                                                  \
    sink = (uint64_t)loc[N] + (uint64_t)loc[N / 2];                                                                                                  \
    judge("copy of a literal", N, "before its middle changed", r, TEXT, N, 1);                                                                       \
  }
#ifdef SMALLSET
#define LITS(X) X(3) X(7) X(33) X(131)
#elif !defined(BIGSET)
#define LITS(X) X(1) X(4) X(7) X(8) X(15) X(25) X(33) X(131)
#else
#define LITS(X)                                                                                                                                      \
  X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(11) X(12) X(15) X(16) X(17) X(23) X(24) X(25) X(31) X(32) X(33) X(40) X(41) X(48) X(63) X(64) X(65) X(127) X(128) X(131)
#endif
LITS(LIT)

int main(void) {
  unsigned checked, n = 0;
  if (ref_validate(&checked))
    return 2;
  static const uint64_t vs[] = {0, 1, 255, 40000, 0x7fff1234u};
  for (unsigned i = 0; i < sizeof vs / sizeof *vs; ++i) {
#define RUN(T, N) put_##T##_##N(vs[i]), stat_##T##_##N(vs[i]), ++n;
    ALLN(RUN)
    structures(vs[i]), ++n;
  }
  static char one[1];
  char *volatile from[] = {NULL, one};
  for (unsigned i = 0; i < 4; ++i) {
    was_null = !(i & 1);
    nothing(from[i & 1], 0, i), ++n;
#if WHAT == E_stream64
    uint64_t *volatile none = NULL;
    static const char some[100] = "some bytes";
    no_extra(none, some, 33 * i, i);
#endif
  }
#define RUNL(N) lit_##N(), ++n;
  LITS(RUNL)
  printf("STAT states %u\nSTAT transitions %lu\nSTAT traces %lu\nDONE\n", n, calls, calls);
  return fails != 0;
}
