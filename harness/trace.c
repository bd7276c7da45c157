/* Access explorer: every load and store of the library code is reported to the
 * callbacks below (clang -fsanitize-coverage=trace-loads,trace-stores; memcpy
 * and friends are redirected to trace_*).
 *   trace exact <tier>    P10: reads lie inside the message and cover it, writes go to documented outputs only
 *   trace aligned <tier>  P23: every access is aligned
 */
#include "entries.h"

static int thorough, exact;
static uint64_t states, transitions, accesses;
static entry *E;
static uint8_t *arena;
#define ARENA (1u << 17)
static struct { uintptr_t lo, hi; } M, C, X; /* message, context, extra result */
static uintptr_t stack_lo, stack_hi;
static uint8_t seen[ARENA];
static int on;
static uint64_t bad;

#define NOSAN __attribute__((no_sanitize("address")))
NOSAN static void report(const char *what, uintptr_t a, size_t n) {
  on = 0;
  if (bad++ < 3)
    fail("%s: %s of %zu bytes at message%+ld (message of %zu bytes at %p, alignment %u)", cur_fn, what, n, (long)(a - M.lo), (size_t)(M.hi - M.lo), (void *)M.lo,
         (unsigned)(M.lo & 15));
  if (bad > 2)
    _exit(1);
  on = 1;
}
NOSAN static void rd(uintptr_t a, size_t n) {
  if (!on || !n)
    return;
  ++accesses;
  if (!exact) {
    size_t al = n < sizeof(size_t) ? n : sizeof(size_t);
    if (n < 16 && a % al)
      report("misaligned load", a, n);
    return;
  }
  uintptr_t lo = (uintptr_t)arena, hi = lo + ARENA;
  if (a >= M.lo && a + n <= M.hi) {
    memset(seen + (a - lo), 1, n);
    return;
  }
  for (uintptr_t b = a; b < a + n; ++b)
    if (b >= M.lo && b < M.hi)
      seen[b - lo] = 1;
  if ((a < hi && a + n > lo))
    report("load outside of the message", a, n);
  if (C.hi && a < C.hi + 4096 && a + n > C.lo - 4096 && !(a >= C.lo && a + n <= C.hi) && !(a >= X.lo && a + n <= X.hi))
    report("load outside of the context", a, n);
}
NOSAN static void wr(uintptr_t a, size_t n) {
  if (!on || !n)
    return;
  ++accesses;
  if (!exact) {
    size_t al = n < sizeof(size_t) ? n : sizeof(size_t);
    if (n < 16 && a % al)
      report("misaligned store", a, n);
    return;
  }
  if (a >= stack_lo && a + n <= stack_hi)
    return;
  if (a >= C.lo && a + n <= C.hi)
    return;
  if (a >= X.lo && a + n <= X.hi)
    return;
  report("store to an undocumented place", a, n);
}
#define CB(sz)                                                                                                           \
  NOSAN void __sanitizer_cov_load##sz(void *p) { rd((uintptr_t)p, sz); }                                               \
  NOSAN void __sanitizer_cov_store##sz(void *p) { wr((uintptr_t)p, sz); }
CB(1) CB(2) CB(4) CB(8) CB(16)
NOSAN void *trace_memcpy(void *d, const void *s, size_t n) {
  int o = on;
  if (exact)
    rd((uintptr_t)s, n), wr((uintptr_t)d, n);
  on = 0;
  volatile uint8_t *dd = d;
  const volatile uint8_t *ss = s;
  if ((uintptr_t)d <= (uintptr_t)s)
    for (size_t i = 0; i < n; ++i)
      dd[i] = ss[i];
  else
    while (n--)
      dd[n] = ss[n];
  on = o;
  return d;
}
NOSAN void *trace_memmove(void *d, const void *s, size_t n) { return trace_memcpy(d, s, n); }
NOSAN void *trace_memset(void *d, int v, size_t n) {
  if (exact)
    wr((uintptr_t)d, n);
  volatile uint8_t *dd = d;
  for (size_t i = 0; i < n; ++i)
    dd[i] = (uint8_t)v;
  return d;
}

NOSAN static void covered(const char *what) {
  if (!exact)
    return;
  for (uintptr_t a = M.lo; a < M.hi; ++a)
    if (!seen[a - (uintptr_t)arena]) {
      if (bad++ < 3)
        fail("%s: byte %zu of %zu is never read (alignment %u) %s", cur_fn, (size_t)(a - M.lo), (size_t)(M.hi - M.lo), (unsigned)(M.lo & 15), what);
      return;
    }
}
static void set_msg(uint8_t *p, size_t len) {
  M.lo = (uintptr_t)p, M.hi = M.lo + len;
  memset(seen + (p - arena), 0, len + 1);
  cur_ptr = M.lo, cur_len = len, cur_tick = cur_tick + 1;
}

int main(int argc, char **argv) {
  if (argc < 3)
    return 2;
  guard_setup();
  exact = !strcmp(argv[1], "exact");
  thorough = !strcmp(argv[2], "thorough");
  arena = mmap(NULL, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (unsigned i = 0; i < ARENA; ++i)
    arena[i] = (uint8_t)(i * 31 + 1);
  volatile char here;
  stack_hi = (uintptr_t)&here + 65536;
  if (stack_hi < 65536)
    stack_hi = (uintptr_t)-1; /* near the top of a 32-bit address space */
  stack_lo = (uintptr_t)&here - (1 << 20);
  size_t L = thorough ? 700 : 300;
  unsigned n = 0;
  for (unsigned i = 0; i < NALL; ++i) {
    E = &all[i];
    if (!cpu_can(E))
      continue;
    ++n;
    C.lo = C.hi = 0;
    for (size_t len = 0; len <= L; ++len)
      for (unsigned off = 0; off < 32; ++off)
        for (unsigned where = 0; where < 2; ++where) {
          if (len > 160 && !thorough && (off > 8 || where))
            continue;
          uint8_t *p = arena + 512 + off + (where ? 4096 - 512 - 16 : 0);
          static uint64_t box[3];
          (void)box;
          set_msg(p, len);
          cur_fn = E->name;
          X.lo = (uintptr_t)arena - 1, X.hi = X.lo; /* nothing */
          static int is128 = -1;
          (void)is128;
          on = 1;
          res r;
          if (!strcmp(E->name, "t1ha2_atonce128")) {
#ifndef T1HA2_DISABLED
            static uint64_t out[4];
            X.lo = (uintptr_t)&out[1], X.hi = X.lo + 8;
            r.lo = t1ha2_atonce128(&out[1], p, len, off);
#endif
          } else
            r = E->impl(p, len, off, len);
          on = 0;
          (void)r;
          covered("");
          ++states, ++transitions;
        }
    for (size_t len = 301; exact && len < 9000; len += thorough ? 1 + len / 64 : 97 + len / 4)
      for (unsigned off = 0; off < 8; ++off) {
        set_msg(arena + 4096 + off, len);
        static uint64_t out[4];
        X.lo = (uintptr_t)&out[1], X.hi = X.lo + 8;
        on = 1;
        if (!strcmp(E->name, "t1ha2_atonce128")) {
#ifndef T1HA2_DISABLED
          t1ha2_atonce128(&out[1], arena + 4096 + off, len, off);
#endif
        } else
          E->impl(arena + 4096 + off, len, off, len);
        on = 0;
        covered("(long)");
        ++states, ++transitions;
      }
    sample("%s: %" PRIu64 " accesses checked so far", E->name, accesses);
  }
#ifndef T1HA2_DISABLED
  /* streams: contexts inside a fence; all waiting counts x lengths x alignments */
  uint8_t *cpage = mmap(NULL, 16384, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  t1ha_context_t *c = (t1ha_context_t *)(cpage + 8192);
  uint64_t *x = (uint64_t *)(cpage + 4096);
  C.lo = (uintptr_t)c, C.hi = C.lo + sizeof *c;
  for (unsigned pre = 0; pre < 33; ++pre)
    for (size_t len = 0; len <= (thorough ? 200 : 100); ++len)
      for (unsigned off = 0; off < 9; ++off) {
        X.lo = X.hi = C.lo;
        cur_fn = "t1ha2_init";
        M.lo = M.hi = (uintptr_t)arena;
        on = 1;
        t1ha2_init(c, 1, pre);
        on = 0;
        set_msg(arena + 1000, pre);
        cur_fn = "t1ha2_update";
        on = 1;
        t1ha2_update(c, arena + 1000, pre);
        on = 0;
        covered("(first update)");
        set_msg(arena + 2048 + off, len);
        on = 1;
        t1ha2_update(c, arena + 2048 + off, len);
        on = 0;
        covered("(second update)");
        M.lo = M.hi = (uintptr_t)arena;
        cur_fn = "t1ha2_final";
        if (len & 1)
          X.lo = (uintptr_t)x, X.hi = X.lo + 8;
        on = 1;
        t1ha2_final(c, len & 1 ? x : NULL);
        on = 0;
        ++states, transitions += 4;
      }
#endif
  cur_fn = NULL;
  stat_u("functions", n);
  stat_u("states", states);
  stat_u("transitions", accesses);
  stat_u("traces", transitions);
  if (!accesses) {
    printf("ERROR no access was reported\n");
    return 2;
  }
  printf("DONE\n");
  return nfails ? 1 : 0;
}
