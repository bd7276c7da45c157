/* Interleaving explorer (P13).
 *
 *   sched <instrumented libt1ha.so> <quick|thorough> <tsan 0|1> <part> <parts> [early]
 *
 * Two real threads run one call each on the instrumented library; every access
 * to memory other than the running thread's stack is a scheduling point at which
 * a controlled scheduler may switch.  All schedules with at most 2 (thorough: 3)
 * preemptions are executed, each from the initial library memory, and each call
 * has to return what it returns alone.  In every execution a vector-clock
 * detector looks for conflicting unordered accesses.
 *
 * early: the library's constructors have not run (its .init_array is renamed);
 * they are one more operation, for one of the threads.
 */
#define t1ha_IMPORTS
#include "common.h"
#include "t1ha.h"
#include <dlfcn.h>
#include <linux/futex.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>

static int thorough, tsan;
static uint64_t schedules, points_total, states, races_checked;
static const char *libpath;

/*--------------------------------------------------------- library memory */
static struct { uint8_t *p; size_t n; } seg[32];
static unsigned nseg;
static uint8_t *snap;
static int on_phdr(struct dl_phdr_info *i, size_t sz, void *x) {
  (void)x, (void)sz;
  if (!i->dlpi_name || !strstr(i->dlpi_name, strrchr(libpath, '/') + 1))
    return 0;
  uintptr_t ro = 0, roe = 0;
  for (int k = 0; k < i->dlpi_phnum; ++k)
    if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
      ro = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      roe = (ro + i->dlpi_phdr[k].p_memsz) & ~(uintptr_t)(PG - 1);
    }
  for (int k = 0; k < i->dlpi_phnum; ++k) {
    const ElfW(Phdr) *h = &i->dlpi_phdr[k];
    if (h->p_type == PT_LOAD && (h->p_flags & PF_W)) {
      uintptr_t a = i->dlpi_addr + h->p_vaddr, e = a + h->p_memsz;
      if (a < roe && ro <= a)
        a = roe;
      if (a < e)
        seg[nseg].p = (uint8_t *)a, seg[nseg++].n = e - a;
    }
  }
  return 0;
}
static size_t rw_size(void) {
  size_t n = 0;
  for (unsigned i = 0; i < nseg; ++i)
    n += seg[i].n;
  return n;
}
static void save(uint8_t *b) {
  for (unsigned i = 0; i < nseg; ++i)
    memcpy(b, seg[i].p, seg[i].n), b += seg[i].n;
}
static void restore(void) {
  const uint8_t *b = snap;
  for (unsigned i = 0; i < nseg; ++i)
    memcpy(seg[i].p, b, seg[i].n), b += seg[i].n;
}

/*-------------------------------------------------------------- operations */
typedef uint64_t (*fn3)(const void *, size_t, uint64_t);
enum { K_PLAIN, K_128, K_S64, K_S128, K_UPDATE, K_FUNCPTR, K_RESOLVE, K_CTOR, K_SELF };
typedef struct { int kind; const char *name; fn3 f; } opk;
static opk kinds[40];
static unsigned nkinds;
static uint64_t (*p_atonce128)(uint64_t *, const void *, size_t, uint64_t);
static void (*p_init)(t1ha_context_t *, uint64_t, uint64_t);
static void (*p_update)(t1ha_context_t *, const void *, size_t);
static uint64_t (*p_final)(t1ha_context_t *, uint64_t *);
static fn3 p_funcptr;
static fn3 (*p_resolve)(void);
static void (*p_ctors)(void);
typedef struct { uint64_t lo, hi; } res;
typedef struct { const opk *k; size_t len; unsigned off; uint64_t seed; } call;
static uint8_t *input;

static __thread int me = -1; /* 0, 1 in a controlled thread */
static res perform(const call *c, t1ha_context_t *ctx) {
  res r = {0, 0};
  const uint8_t *p = input + c->off;
  switch (c->k->kind) {
  case K_PLAIN: r.lo = c->k->f(p, c->len, c->seed); break;
  case K_FUNCPTR: r.lo = p_funcptr(p, c->len, c->seed); break;
  case K_RESOLVE: r.lo = p_resolve()(p, c->len, c->seed); break;
  case K_CTOR: p_ctors(); break;
  case K_SELF: r.lo = (uint64_t)((int (*)(void))c->k->f)(); break;
  case K_128: r.lo = p_atonce128(&r.hi, p, c->len, c->seed); break;
  case K_S64: p_init(ctx, c->seed, 5), p_update(ctx, p, c->len), r.lo = p_final(ctx, NULL); break;
  case K_S128: p_init(ctx, 5, c->seed), p_update(ctx, p, c->len), r.lo = p_final(ctx, &r.hi); break;
  default: p_init(ctx, c->seed, 5), p_update(ctx, p, c->len / 3), p_update(ctx, p + c->len / 3, c->len - c->len / 3), r.lo = p_final(ctx, NULL);
  }
  return r;
}

/*--------------------------------------------------------------- scheduler */
static volatile int turn = -1; /* thread that may run; -1: the controller */
static void fwait(volatile int *w, int v) {
  while (*w == v)
    syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, v, NULL, NULL, 0);
}
static void pass(int to) {
  __atomic_store_n(&turn, to, __ATOMIC_SEQ_CST);
  syscall(SYS_futex, &turn, FUTEX_WAKE_PRIVATE, 8, NULL, NULL, 0);
}
static void wait_turn(int id) {
  for (;;) {
    int t = __atomic_load_n(&turn, __ATOMIC_SEQ_CST);
    if (t == id)
      return;
    fwait(&turn, t);
  }
}
/* a schedule: thread "start" begins; its k-th preemption happens before global step at[k] */
static int start_thread;
static uint32_t at[4];
static unsigned nat, next_at;
static uint32_t steps;           /* points passed in this execution */
static uint32_t steps_of[2];
static int done[2];
static uintptr_t stk_lo[2], stk_hi[2];
static int recording;

/* race detector */
typedef struct { uintptr_t a; uint8_t n, wr, atomic, th; uint32_t clk[2]; } acc;
static acc *accs;
static unsigned naccs, capaccs;
static uint32_t vc[2][2];
static struct { uintptr_t a; uint32_t c[2]; } syncv[64];
static unsigned nsync;
static char race_text[300];

static void sync_on(uintptr_t a) {
  unsigned i;
  for (i = 0; i < nsync && syncv[i].a != a; ++i)
    ;
  if (i == nsync) {
    if (nsync == 64)
      return;
    memset(&syncv[i], 0, sizeof syncv[i]);
    syncv[nsync++].a = a;
  }
  for (int k = 0; k < 2; ++k) {
    uint32_t m = syncv[i].c[k] > vc[me][k] ? syncv[i].c[k] : vc[me][k];
    syncv[i].c[k] = vc[me][k] = m;
  }
  vc[me][me]++;
}
static void point(uintptr_t a, unsigned n, int wr, int atomic) {
  if (me < 0)
    return;
  if (a >= stk_lo[me] && a < stk_hi[me])
    return;
  /* preempt before this access? */
  int self = me;
  if (next_at < nat && steps == at[next_at]) {
    ++next_at;
    if (!done[!self]) {
      pass(!self);
      wait_turn(self);
    }
  }
  ++steps;
  ++steps_of[self];
  {
    if (atomic)
      sync_on(a);
    if (naccs == capaccs) {
      capaccs = capaccs ? capaccs * 2 : 1024;
      accs = realloc(accs, capaccs * sizeof *accs);
    }
    acc *x = &accs[naccs++];
    x->a = a, x->n = (uint8_t)n, x->wr = (uint8_t)wr, x->atomic = (uint8_t)atomic, x->th = (uint8_t)self;
    x->clk[0] = vc[self][0], x->clk[1] = vc[self][1];
  }
}
static unsigned conflicts; /* of accesses by different threads, atomic ones included */
static int by_address(const void *a, const void *b) {
  const acc *x = &accs[*(const unsigned *)a], *y = &accs[*(const unsigned *)b];
  return x->a < y->a ? -1 : x->a > y->a;
}
static void find_races(void) {
  static unsigned *ord, cap;
  if (cap < naccs)
    ord = realloc(ord, (cap = naccs * 2) * sizeof *ord);
  for (unsigned i = 0; i < naccs; ++i)
    ord[i] = i;
  conflicts = 0;
  unsigned writes = 0;
  for (unsigned i = 0; i < naccs; ++i)
    writes += accs[i].wr;
  if (!writes)
    return;
  qsort(ord, naccs, sizeof *ord, by_address);
  for (unsigned p = 0; p < naccs; ++p)
    for (unsigned q = p + 1; q < naccs && accs[ord[q]].a < accs[ord[p]].a + 16; ++q) {
      unsigned i = ord[p] < ord[q] ? ord[p] : ord[q], j = ord[p] < ord[q] ? ord[q] : ord[p];
      acc *x = &accs[i], *y = &accs[j]; /* x happened first */
      if (x->th == y->th || !(x->wr | y->wr) || x->a >= y->a + y->n || y->a >= x->a + x->n)
        continue;
      ++conflicts, ++races_checked;
      if (!tsan || (x->atomic && y->atomic))
        continue; /* without tsan's callbacks it is not known which accesses are atomic */
      if (x->clk[x->th] <= y->clk[x->th] && y->clk[x->th])
        continue; /* ordered through an atomic */
      Dl_info d = {0};
      dladdr((void *)x->a, &d);
      snprintf(race_text, sizeof race_text, "unordered %s of %u bytes and %s of %u bytes at %s%s+0x%lx", x->wr ? "write" : "read", x->n, y->wr ? "write" : "read", y->n,
               x->a >= (uintptr_t)input && x->a < (uintptr_t)input + 4096 ? "the input " : "", d.dli_sname ? d.dli_sname : d.dli_fname ? "library data" : "memory",
               d.dli_fname ? (unsigned long)(x->a - (uintptr_t)d.dli_fbase) : (unsigned long)x->a);
      return;
    }
}

/* instrumentation callbacks */
#define EXPORT __attribute__((visibility("default")))
#define RW(n)                                                                                                            \
  EXPORT void __tsan_read##n(void *p) { point((uintptr_t)p, n, 0, 0); }                                                  \
  EXPORT void __tsan_write##n(void *p) { point((uintptr_t)p, n, 1, 0); }                                                 \
  EXPORT void __tsan_unaligned_read##n(void *p) { point((uintptr_t)p, n, 0, 0); }                                        \
  EXPORT void __tsan_unaligned_write##n(void *p) { point((uintptr_t)p, n, 1, 0); }                                       \
  EXPORT void __tsan_volatile_read##n(void *p) { point((uintptr_t)p, n, 0, 0); }                                         \
  EXPORT void __tsan_volatile_write##n(void *p) { point((uintptr_t)p, n, 1, 0); }                                        \
  EXPORT void __tsan_read_write##n(void *p) { point((uintptr_t)p, n, 0, 0), point((uintptr_t)p, n, 1, 0); }              \
  EXPORT void __tsan_unaligned_read_write##n(void *p) { point((uintptr_t)p, n, 0, 0), point((uintptr_t)p, n, 1, 0); }    \
  EXPORT void __sanitizer_cov_load##n(void *p) { point((uintptr_t)p, n, 0, 0); }                                         \
  EXPORT void __sanitizer_cov_store##n(void *p) { point((uintptr_t)p, n, 1, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_init(void) {}
EXPORT void __tsan_func_entry(void *p) { (void)p; }
EXPORT void __tsan_func_exit(void) {}
EXPORT void __tsan_ignore_thread_begin(void) {}
EXPORT void __tsan_ignore_thread_end(void) {}
EXPORT void __tsan_vptr_update(void **p, void *v) { (void)v; point((uintptr_t)p, sizeof(void *), 1, 0); }
EXPORT void __tsan_vptr_read(void **p) { point((uintptr_t)p, sizeof(void *), 0, 0); }
static void range(uintptr_t a, size_t n, int wr) {
  for (; n; ) {
    unsigned k = n > 8 ? 8 : (unsigned)n;
    point(a, k, wr, 0);
    a += k, n -= k;
  }
}
EXPORT void __tsan_read_range(void *p, unsigned long n) { range((uintptr_t)p, n, 0); }
EXPORT void __tsan_write_range(void *p, unsigned long n) { range((uintptr_t)p, n, 1); }
/* byte-group-wise, so that another thread may run in the middle */
EXPORT void *__tsan_memmove(void *d, const void *s, size_t n) {
  uint8_t *dd = d;
  const uint8_t *ss = s;
  if (dd <= ss || dd >= ss + n)
    for (size_t i = 0; i < n; i += 8) {
      size_t k = n - i < 8 ? n - i : 8;
      point((uintptr_t)ss + i, (unsigned)k, 0, 0);
      uint8_t t[8];
      memcpy(t, ss + i, k);
      point((uintptr_t)dd + i, (unsigned)k, 1, 0);
      memcpy(dd + i, t, k);
    }
  else
    memmove(d, s, n);
  return d;
}
EXPORT void *__tsan_memcpy(void *d, const void *s, size_t n) { return __tsan_memmove(d, s, n); }
EXPORT void *__tsan_memset(void *d, int v, size_t n) {
  for (size_t i = 0; i < n; i += 8) {
    size_t k = n - i < 8 ? n - i : 8;
    point((uintptr_t)d + i, (unsigned)k, 1, 0);
    memset((uint8_t *)d + i, v, k);
  }
  return d;
}
EXPORT void *sched_memcpy(void *d, const void *s, size_t n) { return __tsan_memmove(d, s, n); }
EXPORT void *sched_memmove(void *d, const void *s, size_t n) { return __tsan_memmove(d, s, n); }
EXPORT void *sched_memset(void *d, int v, size_t n) { return __tsan_memset(d, v, n); }
#define AT(bits, T)                                                                                                       \
  EXPORT T __tsan_atomic##bits##_load(const volatile T *p, int o) { (void)o; point((uintptr_t)p, bits / 8, 0, 1); return __atomic_load_n(p, 5); } \
  EXPORT void __tsan_atomic##bits##_store(volatile T *p, T v, int o) { (void)o; point((uintptr_t)p, bits / 8, 1, 1); __atomic_store_n(p, v, 5); } \
  EXPORT T __tsan_atomic##bits##_exchange(volatile T *p, T v, int o) { (void)o; point((uintptr_t)p, bits / 8, 1, 1); return __atomic_exchange_n(p, v, 5); } \
  EXPORT T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int o) { (void)o; point((uintptr_t)p, bits / 8, 1, 1); return __atomic_fetch_add(p, v, 5); } \
  EXPORT T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int o) { (void)o; point((uintptr_t)p, bits / 8, 1, 1); return __atomic_fetch_sub(p, v, 5); } \
  EXPORT T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int o) { (void)o; point((uintptr_t)p, bits / 8, 1, 1); return __atomic_fetch_or(p, v, 5); } \
  EXPORT T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int o) { (void)o; point((uintptr_t)p, bits / 8, 1, 1); return __atomic_fetch_and(p, v, 5); } \
  EXPORT T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int o) { (void)o; point((uintptr_t)p, bits / 8, 1, 1); return __atomic_fetch_xor(p, v, 5); } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int o, int f) { (void)o, (void)f; point((uintptr_t)p, bits / 8, 1, 1); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  EXPORT int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int o, int f) { return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, o, f); } \
  EXPORT T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int o, int f) { __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, o, f); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t)
#ifdef __LP64__
AT(64, uint64_t)
#endif
EXPORT void __tsan_atomic_thread_fence(int o) { (void)o; if (me >= 0) sync_on(1); }
EXPORT void __tsan_atomic_signal_fence(int o) { (void)o; }

/*----------------------------------------------------------------- threads */
static call job[2];
static res got[2];
static t1ha_context_t ctxs[2] __attribute__((aligned(64)));
static void *worker(void *arg) {
  int id = (int)(intptr_t)arg;
  pthread_attr_t a;
  void *sp;
  size_t sn;
  pthread_getattr_np(pthread_self(), &a);
  pthread_attr_getstack(&a, &sp, &sn);
  stk_lo[id] = (uintptr_t)sp, stk_hi[id] = (uintptr_t)sp + sn;
  for (;;) {
    wait_turn(id);
    me = id;
    got[id] = perform(&job[id], &ctxs[id]);
    me = -1;
    done[id] = 1;
    pass(done[!id] ? -1 : !id);
    /* wait for the controller to take over and restart */
    while (done[id])
      fwait((volatile int *)&done[id], 1);
  }
  return NULL;
}
static void execute(int s, unsigned n, uint32_t a0, uint32_t a1, uint32_t a2) {
  restore();
  memset(ctxs, 0x77, sizeof ctxs);
  naccs = nsync = 0;
  race_text[0] = 0;
  vc[0][0] = vc[1][1] = 1, vc[0][1] = vc[1][0] = 0;
  steps = steps_of[0] = steps_of[1] = 0;
  next_at = 0, nat = n, at[0] = a0, at[1] = a1, at[2] = a2;
  for (int i = 0; i < 2; ++i)
    if (done[i]) {
      __atomic_store_n(&done[i], 0, __ATOMIC_SEQ_CST);
      syscall(SYS_futex, &done[i], FUTEX_WAKE_PRIVATE, 8, NULL, NULL, 0);
    }
  pass(s);
  for (int t; (t = __atomic_load_n(&turn, __ATOMIC_SEQ_CST)) != -1; )
    fwait(&turn, t);
  ++schedules;
  points_total += steps;
  cur_tick = cur_tick + 1;
}
static const char *txt(const call *c) {
  static char b[2][100];
  static int k;
  k = !k;
  snprintf(b[k], 100, "%s(len=%zu, offset %u)", c->k->name, c->len, c->off);
  return b[k];
}
static void verdict(const res *alone, int s, unsigned n, uint32_t a0, uint32_t a1, uint32_t a2) {
  for (int i = 0; i < 2; ++i)
    if (got[i].lo != alone[i].lo || got[i].hi != alone[i].hi)
      fail("%s running together with %s returns %016" PRIx64 ":%016" PRIx64 ", alone %016" PRIx64 ":%016" PRIx64
           "; schedule: call %d starts, switches before memory accesses %s%.0d%u,%u,%u", txt(&job[i]), txt(&job[!i]), got[i].hi, got[i].lo, alone[i].hi, alone[i].lo, s,
           "", 0, n > 0 ? a0 : 0, n > 1 ? a1 : 0, n > 2 ? a2 : 0);
  if (race_text[0])
    fail("data race between %s and %s: %s", txt(&job[0]), txt(&job[1]), race_text);
}

int main(int argc, char **argv) {
  if (argc < 6)
    return 2;
  guard_setup();
  max_fails = 1;
  libpath = argv[1], thorough = !strcmp(argv[2], "thorough"), tsan = atoi(argv[3]);
  unsigned part = (unsigned)atoi(argv[4]), parts = (unsigned)atoi(argv[5]);
  void *lib = dlopen(libpath, RTLD_NOW | RTLD_LOCAL);
  if (!lib) {
    printf("ERROR %s\n", dlerror());
    return 2;
  }
  input = guarded(4096);
  uint64_t s = 11;
  for (unsigned i = 0; i < 4096; ++i)
    input[i] = (uint8_t)splitmix(&s);
  dl_iterate_phdr(on_phdr, NULL);
  snap = malloc(rw_size() + 1);
  save(snap);
  static const char *const names[] = {"t1ha2_atonce", "t1ha1_le", "t1ha1_be", "t1ha0_32le", "t1ha0_32be", "t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2"};
  for (unsigned i = 0; i < sizeof names / sizeof *names; ++i) {
    if ((i >= 5 && !__builtin_cpu_supports("aes")) || (i == 6 && !__builtin_cpu_supports("avx")) || (i == 7 && !__builtin_cpu_supports("avx2")))
      continue;
    fn3 f = (fn3)dlsym(lib, names[i]);
    if (f)
      kinds[nkinds++] = (opk){K_PLAIN, names[i], f};
  }
  p_atonce128 = (void *)dlsym(lib, "t1ha2_atonce128");
  p_init = (void *)dlsym(lib, "t1ha2_init"), p_update = (void *)dlsym(lib, "t1ha2_update"), p_final = (void *)dlsym(lib, "t1ha2_final");
  p_resolve = (void *)dlsym(lib, "t1ha0_resolve");
  p_funcptr = (fn3)dlsym(lib, "verif_t1ha0");
  if (p_atonce128)
    kinds[nkinds++] = (opk){K_128, "t1ha2_atonce128", NULL};
  if (p_init) {
    kinds[nkinds++] = (opk){K_S64, "stream64", NULL};
    kinds[nkinds++] = (opk){K_S128, "stream128", NULL};
    kinds[nkinds++] = (opk){K_UPDATE, "split stream", NULL};
  }
  if (p_funcptr)
    kinds[nkinds++] = (opk){K_FUNCPTR, "t1ha0", NULL};
  if (p_resolve)
    kinds[nkinds++] = (opk){K_RESOLVE, "t1ha0_resolve", NULL};
  unsigned settled = nkinds;
  if (argc > 6) {
    settled = 0;
    while (settled < nkinds && kinds[settled].kind != K_FUNCPTR && kinds[settled].kind != K_RESOLVE)
      ++settled;
    p_ctors = (void (*)(void))dlsym(lib, "verif_ctors");
    if (p_ctors && p_funcptr)
      kinds[nkinds++] = (opk){K_CTOR, "the constructors", NULL};
  }
  static const char *const selfs[] = {"t1ha2_atonce128", "t1ha2_stream", "t1ha2_atonce", "t1ha1_le", "t1ha1_be", "t1ha0_32le", "t1ha0_32be", "t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx",
                                      "t1ha0_ia32aes_avx2", "t1ha0", "all_enabled"};
  for (unsigned i = 0; i < sizeof selfs / sizeof *selfs; ++i) {
    static char nm[16][60];
    snprintf(nm[i], 60, "t1ha_selfcheck__%s", selfs[i]);
    fn3 f = (fn3)dlsym(lib, nm[i]);
    if (f && !(strstr(nm[i], "noavx") && !__builtin_cpu_supports("aes")) && !(strstr(nm[i], "aes_avx") && !__builtin_cpu_supports("avx")) &&
        !(strstr(nm[i], "avx2") && !__builtin_cpu_supports("avx2")))
      kinds[nkinds++] = (opk){K_SELF, nm[i], f};
  }
  cpu_set_t cs;
  CPU_ZERO(&cs);
  CPU_SET(part % (unsigned)sysconf(_SC_NPROCESSORS_ONLN), &cs);
  sched_setaffinity(0, sizeof cs, &cs); /* handing over is much cheaper on one CPU */
  pthread_t t[2];
  for (int i = 0; i < 2; ++i)
    pthread_create(&t[i], NULL, worker, (void *)(intptr_t)i);
  while (!stk_hi[0] || !stk_hi[1])
    usleep(100);
  cur_fn = "concurrent calls";
  static const struct { size_t la, lb; unsigned oa, ob; } shapes[] = {{5, 5, 0, 0}, {13, 37, 3, 3}, {37, 13, 64, 67}, {40, 40, 1, 1}, {0, 17, 8, 8}, {77, 77, 0, 5}, {150, 139, 0, 0}, {300, 31, 7, 9}};
  unsigned nshapes = thorough ? 8 : 6, bound = 2, pair = 0;
  for (unsigned x = 0; x < nkinds; ++x)
    for (unsigned y = x; y < nkinds; ++y) {
      if (argc > 6 ? y < settled || (kinds[x].kind == K_CTOR) : 0)
        continue;
      if (pair++ % parts != part)
        continue;
      int self = kinds[x].kind == K_SELF || kinds[y].kind == K_SELF;
      for (unsigned h = 0; h < (self ? 1 : nshapes); ++h)
        for (unsigned same = 0; same < 2; ++same) {
          if (same && h)
            continue;
          job[0] = (call){&kinds[x], shapes[h].la, shapes[h].oa, 7};
          job[1] = (call){&kinds[y], shapes[h].lb, shapes[h].ob, same ? 7 : 99};
          res alone[2];
          for (int i = 0; i < 2; ++i) {
            restore();
            alone[i] = perform(&job[i], &ctxs[i]);
          }
          /* no preemption: both orders; the length of each run */
          uint32_t n0[2] = {0, 0};
          for (int st = 0; st < 2; ++st) {
            execute(st, 0, 0, 0, 0);
            n0[st] = steps_of[st];
            find_races();
            verdict(alone, st, 0, 0, 0, 0);
          }
          ++states;
          if (self && (!conflicts || n0[0] + n0[1] > 3000))
            continue; /* no two accesses of different threads conflict: all schedules are equivalent */
          for (int st = 0; st < 2; ++st) {
            uint32_t total = n0[0] + n0[1];
            /* first switch while the first call runs, second while the other one runs (third: the first again) */
            for (uint32_t a = 0; a < n0[st]; ++a)
              for (uint32_t b = a + 1; b <= total; ++b) {
                uint32_t st2 = total > 160 && !thorough ? 1 + (total / 40) : 1;
                if (total > 160 && !thorough && (b - a) % st2 && b - a > 12)
                  continue;
                execute(st, bound, a, b, 0);
                if (tsan && (a == 0 || b == a + 1))
                  find_races();
                verdict(alone, st, bound, a, b, 0);
                if (steps < b)
                  break;
                if (thorough && h < 2 && total < 80)
                  for (uint32_t c = b + 1; c < total; ++c) {
                    execute(st, 3, a, b, c);
                    verdict(alone, st, 3, a, b, c);
                  }
              }
          }
          if ((pair & 31) == 1 && h == 1)
            sample("%s with %s: %u+%u scheduling points", txt(&job[0]), txt(&job[1]), n0[0], n0[1]);
        }
    }
  cur_fn = NULL;
  stat_u("states", schedules);
  stat_u("transitions", points_total);
  stat_u("traces", schedules);
  stat_u("pairs", states);
  stat_u("conflicts", races_checked);
  printf("DONE\n");
  fflush(stdout);
  _exit(nfails ? 1 : 0);
}
