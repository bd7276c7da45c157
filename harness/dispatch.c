/* Dispatch explorer (P08).
 *
 *   dispatch <patched libt1ha.so> <table> <noif 0|1> <quick|thorough>
 *   dispatch <patched libt1ha.so> <table> <noif 0|1> trace
 *
 * State: a machine (answers to cpuid and xgetbv).  For every machine of the
 * enumeration the library is loaded afresh, so that resolvers and constructors
 * run on that machine, and asked which implementation it chose.
 * trace: single-steps the loading, the resolver and every implementation and
 * prints the library instructions executed, for classification.
 */
#define t1ha_IMPORTS
#include "cpuenv.h"
#include "../ref/ref.h"
#include "t1ha.h"
#include <dlfcn.h>
#include <link.h>

typedef uint64_t (*fn3)(const void *, size_t, uint64_t);
static const char *path;
static int noif;
static uint64_t states, transitions;
static uint8_t msg[4096];
static const char *const variant_name[] = {
#ifdef __LP64__
    "t1ha1_le",
#else
    "t1ha0_32le",
#endif
    "t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2"};
static const size_t lens[] = {0, 5, 40, 129, 300, 1000};
static uint64_t want_val[4][6];

static uint64_t seen_choice[4];
static int is_variant(uintptr_t off) {
  const char *n = sym_at(off);
  return !strncmp(n, "t1ha0_ia32aes", 13) || !strncmp(n, "t1ha1_", 6) || !strncmp(n, "t1ha0_32", 8) || !strncmp(n, "t1ha2_", 6);
}
static void try_machine(const machine_t *m) {
  M = *m;
  illegal = NULL;
  cur_fn = "loading the library", cur_tick = cur_tick + 1;
  snprintf(cur_desc, sizeof cur_desc, "%s", machine_text(m));
  void *lib = dlopen(path, RTLD_NOW | RTLD_LOCAL);
  if (!lib) {
    fail("dlopen: %s on %s", dlerror(), cur_desc);
    return;
  }
  struct link_map *lm;
  dlinfo(lib, RTLD_DI_LINKMAP, &lm);
  uintptr_t base = (uintptr_t)lm->l_addr;
  int best = best_variant(m);
  cur_fn = "t1ha0_resolve";
  fn3 (*res)(void) = (void *)dlsym(lib, "t1ha0_resolve");
  fn3 r1 = res ? res() : NULL;
  cur_fn = "t1ha0";
  fn3 f = noif ? *(fn3 *)dlsym(lib, "t1ha0_funcptr") : (fn3)dlsym(lib, "t1ha0");
  fn3 r2 = res ? res() : NULL;
  ++states;
  transitions += 3;
  if (illegal)
    fail("%s, on a machine with %s", illegal, machine_text(m));
  if (r1 != r2)
    fail("t1ha0_resolve() gives %s, then %s on one machine: %s", sym_at((uintptr_t)r1 - base), sym_at((uintptr_t)r2 - base), machine_text(m));
  if (r1 && sym(variant_name[best]) && (uintptr_t)r1 - base != sym(variant_name[best]))
    fail("t1ha0_resolve() chose %s where %s is right: %s", sym_at((uintptr_t)r1 - base), variant_name[best], machine_text(m));
  /* a pointer to another variant; a pointer to anything else (a thunk) is judged by what it does */
  if (f != r1 && is_variant((uintptr_t)f - base))
    fail("t1ha0() runs %s while t1ha0_resolve() says %s: %s", sym_at((uintptr_t)f - base), sym_at((uintptr_t)r1 - base), machine_text(m));
  /* the value identifies what is run; only call it when the host can */
  if (__builtin_cpu_supports("avx2") && __builtin_cpu_supports("aes"))
    for (unsigned i = 0; i < sizeof lens / sizeof *lens; ++i) {
      uint64_t v = f(msg + (i & 7), lens[i], 42);
      ++transitions;
      if (v != want_val[best][i])
        fail("t1ha0(len=%zu) = %016" PRIx64 ", not the value of %s, on %s", lens[i], v, variant_name[best], machine_text(m));
    }
  if (noif) {
    fn3 g = *(fn3 *)dlsym(lib, "t1ha0_funcptr");
    if (g != r1 && is_variant((uintptr_t)g - base))
      fail("t1ha0_funcptr is %s after use while t1ha0_resolve() says %s: %s", sym_at((uintptr_t)g - base), sym_at((uintptr_t)r1 - base), machine_text(m));
  }
  if (!seen_choice[best]++)
    sample("%s <- %s", variant_name[best], machine_text(m));
  dlclose(lib);
  if (dlopen(path, RTLD_NOW | RTLD_NOLOAD)) {
    printf("ERROR the library stays loaded\n");
    _exit(2);
  }
}

/*-------------------------------------------------------------- tracing */
static uint8_t *hit;
static uintptr_t tbase, tlen;
static const char *tname;
static void trap_handler(int sig, siginfo_t *si, void *ctx) {
  (void)sig, (void)si;
  ucontext_t *uc = ctx;
  uintptr_t pc = (uintptr_t)uc->uc_mcontext.gregs[REG_PC];
  if (pc - tbase < tlen)
    hit[pc - tbase] = 1;
}
static inline __attribute__((always_inline)) void tf(int on) {
  if (on)
    __asm__ __volatile__("pushf\n\torl $0x100, (%%" 
#ifdef __x86_64__
                         "rsp"
#else
                         "esp"
#endif
                         ")\n\tpopf" ::: "memory", "cc");
  else
    __asm__ __volatile__("pushf\n\tandl $~0x100, (%%"
#ifdef __x86_64__
                         "rsp"
#else
                         "esp"
#endif
                         ")\n\tpopf" ::: "memory", "cc");
}
static int find_base(struct dl_phdr_info *i, size_t sz, void *x) {
  (void)sz, (void)x;
  if (!i->dlpi_name || strcmp(i->dlpi_name, path))
    return 0;
  tbase = i->dlpi_addr;
  tlen = 0;
  for (int k = 0; k < i->dlpi_phnum; ++k)
    if (i->dlpi_phdr[k].p_type == PT_LOAD && i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz > tlen)
      tlen = i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz;
  return 1;
}
static void dump(const char *what) {
  for (uintptr_t o = 0; o < tlen; ++o)
    if (hit[o])
      printf("TRACE %s %lx\n", what, (unsigned long)o), ++transitions;
  memset(hit, 0, 1 << 22);
}
static void trace(machine_t *kinds, unsigned n) {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = trap_handler;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  sigaction(SIGTRAP, &sa, NULL);
  hit = calloc(1 << 22, 1);
  for (unsigned k = 0; k < n; ++k) {
    M = kinds[k];
    int best = best_variant(&M);
    char what[100];
    cur_fn = "traced";
    /* loading: the base is not known beforehand, so any code inside [base, base+len) is sought afterwards by
       loading again at the same place: record by page offsets within an anonymous reservation is overkill; the
       loader reuses the address after dlclose */
    void *lib = dlopen(path, RTLD_NOW | RTLD_LOCAL);
    dl_iterate_phdr(find_base, NULL);
    uintptr_t b0 = tbase;
    dlclose(lib);
    tf(1);
    lib = dlopen(path, RTLD_NOW | RTLD_LOCAL);
    tf(0);
    dl_iterate_phdr(find_base, NULL);
    if (tbase == b0) {
      snprintf(what, sizeof what, "loading@%d", best);
      dump(what);
    } else {
      memset(hit, 0, 1 << 22);
      printf("NOTE loading could not be traced: address changed\n");
    }
    fn3 (*res)(void) = (void *)dlsym(lib, "t1ha0_resolve");
    tf(1);
    fn3 f = res();
    tf(0);
    snprintf(what, sizeof what, "t1ha0_resolve@%d", best);
    dump(what);
    fn3 g = noif ? *(fn3 *)dlsym(lib, "t1ha0_funcptr") : (fn3)dlsym(lib, "t1ha0");
    fn3 fs[2] = {f, g};
    for (int j = 0; j < (g == f ? 1 : 2); ++j) {
      f = fs[j];
      for (unsigned len = 0; len <= 420; ++len)
        for (unsigned off = 0; off < 8; off += len & 1 ? 3 : 5) {
          tf(1);
          f(msg + 64 + off, len, len);
          tf(0);
          ++states;
        }
      snprintf(what, sizeof what, "t1ha0@%d", best);
      dump(what);
    }
    dlclose(lib);
  }
}

int main(int argc, char **argv) {
  if (argc < 5)
    return 2;
  guard_setup();
  path = argv[1];
  read_table(argv[2]);
  noif = atoi(argv[3]);
  int thorough = !strcmp(argv[4], "thorough");
  cpuenv_setup();
  uint64_t s = 9;
  for (unsigned i = 0; i < sizeof msg; ++i)
    msg[i] = (uint8_t)splitmix(&s);
  for (unsigned i = 0; i < sizeof lens / sizeof *lens; ++i) {
    const uint8_t *p = msg + (i & 7);
#ifdef __LP64__
    want_val[0][i] = ref_t1ha1_le(p, lens[i], 42);
#else
    want_val[0][i] = ref_t1ha0_32le(p, lens[i], 42);
#endif
    want_val[1][i] = want_val[2][i] = ref_aes_a(p, lens[i], 42);
    want_val[3][i] = ref_aes_b(p, lens[i], 42);
  }
  static const uint32_t leafs[] = {0, 1, 2, 4, 5, 6, 7, 8, 0xd, 0x16, 0x1f, 0x24};
  static const uint64_t x0s[] = {1, 3, 5, 7, 2, 4, 6, 0, 0x1f, 0xe7, 0x2e7, 0x602e7, UINT64_C(0x4000000000000007), UINT64_C(0x0000000600000001), 0xe1, 0xe3};
  machine_t full[4];
  memset(full, 0, sizeof full);
  for (int i = 0; i < 4; ++i) {
    full[i].max_leaf = 0x16;
    full[i].l1 = (regs4){0x000306a9, 0x00100800, 0x7fbae3ffu & ~(1u << 25 | 1u << 28 | 1u << 27), 0xbfebfbff};
    full[i].l7 = (regs4){0, 0x029c67afu & ~32u, 0, 0xbc000600};
    full[i].xcr0 = i >= 2 ? 7 : 3;
    if (i)
      full[i].l1.c |= 1u << 25;
    full[i].l1.c |= 1u << 27;
    if (i >= 2)
      full[i].l1.c |= 1u << 28;
    if (i == 3)
      full[i].l7.b |= 32;
  }
  if (!strcmp(argv[4], "trace")) {
    trace(full, 4);
    stat_u("states", states);
    stat_u("transitions", transitions);
    printf("DONE\n");
    return nfails ? 1 : 0;
  }
  /* A: the product of everything that matters, and of everything that must not */
  for (unsigned l = 0; l < sizeof leafs / sizeof *leafs; ++l)
    for (unsigned bits = 0; bits < 32; ++bits)
      for (unsigned x = 0; x < sizeof x0s / sizeof *x0s; ++x)
        for (int j = 0; j < 4; ++j)
          for (int rest = 0; rest < 3; ++rest) {
            if (!thorough && ((j && rest == 1) || (x > 9 && rest) || (j && (x + l) % 3)))
              continue;
            machine_t m;
            memset(&m, 0, sizeof m);
            m.max_leaf = leafs[l];
            m.junk = j;
            m.xcr0 = x0s[x];
            if (rest == 0)
              m.l1 = full[3].l1, m.l7 = full[3].l7;
            else
              memset(&m.l1, rest == 1 ? 0 : 0xff, sizeof m.l1), memset(&m.l7, rest == 1 ? 0 : 0xff, sizeof m.l7);
            m.l1.c &= ~(1u << 25 | 1u << 26 | 1u << 27 | 1u << 28);
            m.l7.b &= ~32u;
            m.l1.c |= (bits & 1) << 25 | (bits >> 1 & 1) << 27 | (bits >> 2 & 1) << 28 | (bits >> 3 & 1) << 26;
            m.l7.b |= (bits >> 4 & 1) << 5;
            try_machine(&m);
          }
  /* B: every single bit of every answer flipped (thorough: every pair), around each kind of machine */
  for (int k = 0; k < 4; ++k)
    for (int b = 0; b < 320; ++b)
      for (int b2 = thorough ? b : 319; b2 < 320; ++b2) {
        machine_t m = full[k];
        int bb[2] = {b, b2 == b ? -1 : thorough ? b2 : -1};
        for (int z = 0; z < 2; ++z) {
          int q = bb[z];
          if (q < 0)
            continue;
          if (q < 256) {
            uint32_t *w = q < 128 ? (uint32_t *)&m.l1 : (uint32_t *)&m.l7;
            w[q % 128 / 32] ^= 1u << q % 32;
          } else
            m.xcr0 ^= UINT64_C(1) << (q - 256);
        }
        m.junk = b & 3;
        try_machine(&m);
      }
  /* C: every maximal leaf up to 64 */
  for (int k = 0; k < 4; ++k)
    for (uint32_t l = 0; l < 64; ++l)
      for (int j = 0; j < 4; ++j) {
        machine_t m = full[k];
        m.max_leaf = l, m.junk = j;
        try_machine(&m);
      }
  cur_fn = NULL;
  for (int i = 0; i < 4; ++i)
    if (!seen_choice[i])
      printf("ERROR variant %d was never the right one\n", i);
  if (!nqueries) {
    printf("ERROR no CPU query was seen\n");
    return 2;
  }
  stat_u("states", states);
  stat_u("transitions", transitions);
  stat_u("traces", states);
  stat_u("cpu_queries", nqueries);
  printf("DONE\n");
  return nfails ? 1 : 0;
}
