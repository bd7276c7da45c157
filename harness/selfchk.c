/* Self-check explorer (P15): fault injection into every hash function under the
 * real self-check code of the built shared library.
 *
 *   selfchk <patched libt1ha.so> <table> <quick|thorough>
 *
 * Every hash function's entry is overwritten with a jump to a stand-in that
 * returns the published value of the probed vector, with a fault chosen by the
 * explorer.  The machine (cpuid, xgetbv) is modelled as in P08.
 */
#define t1ha_IMPORTS
#include "cpuenv.h"
#include "../ref/golden.h"
#include "../ref/ref.h"
#include "t1ha.h"
#include <dlfcn.h>
#include <link.h>

enum { F_ATONCE, F_ATONCE128, F_STREAM, F_STREAM128, F_1LE, F_1BE, F_32LE, F_32BE, F_NOAVX, F_AVX, F_AVX2, NF };
static const char *const fname[NF] = {"t1ha2_atonce", "t1ha2_atonce128", "t1ha2 stream (64)", "t1ha2 stream (128)", "t1ha1_le", "t1ha1_be",
                                      "t1ha0_32le", "t1ha0_32be", "t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2"};
static const uint64_t *const gold[NF] = {golden_2atonce, golden_2atonce128, golden_2stream, golden_2stream128, golden_64le, golden_64be,
                                         golden_32le, golden_32be, golden_ia32aes_a, golden_ia32aes_a, golden_ia32aes_b};
static int present[NF];
static uint64_t states, transitions;

/* the published probes */
static const uint8_t pattern[64] = {0,    1,    2,    3,    4,    5,    6,    7,    0xFF, 0x7F, 0x3F, 0x1F, 0xF,  8,    16,   32,
                                    64,   0x80, 0xFE, 0xFC, 0xF8, 0xF0, 0xE0, 0xC0, 0xFD, 0xFB, 0xF7, 0xEF, 0xDF, 0xBF, 0x55, 0xAA,
                                    11,   17,   19,   23,   29,   37,   42,   43,   'a',  'b',  'c',  'd',  'e',  'f',  'g',  'h',
                                    'i',  'j',  'k',  'l',  'm',  'n',  'o',  'p',  'q',  'r',  's',  't',  'u',  'v',  'w',  'x'};
static uint8_t lng[512];
static struct { const uint8_t *p; size_t len; uint64_t seed; } probe[81];
static void probes(void) {
  unsigned n = 0;
  for (unsigned i = 0; i < 512; ++i)
    lng[i] = (uint8_t)i;
  probe[n].p = pattern, probe[n].len = 0, probe[n++].seed = 0;
  probe[n].p = pattern, probe[n].len = 0, probe[n++].seed = ~UINT64_C(0);
  probe[n].p = pattern, probe[n].len = 64, probe[n++].seed = 0;
  for (unsigned i = 1; i < 64; ++i)
    probe[n].p = pattern, probe[n].len = i, probe[n++].seed = UINT64_C(1) << (i - 1);
  for (unsigned i = 1; i <= 7; ++i)
    probe[n].p = pattern + i, probe[n].len = 64 - i, probe[n++].seed = ~UINT64_C(0) << i;
  for (unsigned i = 0; i <= 7; ++i)
    probe[n].p = lng + i, probe[n].len = 128 + i * 17, probe[n++].seed = ~UINT64_C(0) << 7;
}
static int which(const void *d, size_t len, uint64_t seed) {
  for (int i = len < 65 && len ? (int)len + 1 : 0; i < 81; ++i)
    if (probe[i].len == len && probe[i].seed == seed && (!len || !memcmp(probe[i].p, d, len)))
      return i;
  for (int i = 0; i < 81; ++i)
    if (probe[i].len == len && probe[i].seed == seed && (!len || !memcmp(probe[i].p, d, len)))
      return i;
  return -1;
}

/* the fault: for each function a mask to xor into vector v1 and v2, or into all of them */
static struct { uint64_t mask; int v1, v2; int all; int zero; } fault[NF];
static uint64_t called[NF];
static const char *lacking; /* code was run that the machine lacks */

static uint64_t answer(int f, const void *d, size_t len, uint64_t seed) {
  ++called[f];
  ++transitions;
  if (f >= F_NOAVX && best_variant(&M) < f - F_NOAVX + 1)
    lacking = fname[f];
  int v = which(d, len, seed);
  uint64_t r;
  if (v < 0) /* not a published vector: the true value */
    switch (f) {
    case F_ATONCE: return ref_t1ha2_atonce(d, len, seed);
    case F_ATONCE128: return ref_t1ha2_atonce128(d, len, seed).lo;
    case F_STREAM: return ref_t1ha2_stream(d, len, seed, seed);
    case F_STREAM128: return ref_t1ha2_stream128(d, len, seed, seed).lo;
    case F_1LE: return ref_t1ha1_le(d, len, seed);
    case F_1BE: return ref_t1ha1_be(d, len, seed);
    case F_32LE: return ref_t1ha0_32le(d, len, seed);
    case F_32BE: return ref_t1ha0_32be(d, len, seed);
    case F_AVX2: return ref_aes_b(d, len, seed);
    default: return ref_aes_a(d, len, seed);
    }
  r = gold[f][v];
  if (fault[f].all || v == fault[f].v1 || v == fault[f].v2)
    r = fault[f].zero ? (fault[f].zero == 1 ? 0 : fault[f].mask) : r ^ fault[f].mask;
  return r;
}
#define W(n, f) static uint64_t w_##n(const void *d, size_t l, uint64_t s) { return answer(f, d, l, s); }
W(atonce, F_ATONCE) W(le, F_1LE) W(be, F_1BE) W(le32, F_32LE) W(be32, F_32BE) W(noavx, F_NOAVX) W(avx, F_AVX) W(avx2, F_AVX2)
static uint64_t w_atonce128(uint64_t *x, const void *d, size_t l, uint64_t s) {
  *x = ref_t1ha2_atonce128(d, l, s).hi;
  return answer(F_ATONCE128, d, l, s);
}
/* streams: messages are collected per context */
static struct { t1ha_context_t *c; uint64_t sx, sy; size_t n; uint8_t b[2048]; } str[8];
static unsigned nstr;
static void w_init(t1ha_context_t *c, uint64_t sx, uint64_t sy) {
  unsigned i;
  memset(c, 0x3c, sizeof *c);
  for (i = 0; i < 8 && str[i].c != c; ++i)
    ;
  if (i == 8)
    i = nstr++ & 7;
  str[i].c = c, str[i].sx = sx, str[i].sy = sy, str[i].n = 0;
}
static int slot_of(t1ha_context_t *c) {
  for (int i = 0; i < 8; ++i)
    if (str[i].c == c)
      return i;
  return -1;
}
static void w_update(t1ha_context_t *c, const void *d, size_t l) {
  int i = slot_of(c);
  if (i < 0 || str[i].n + l > sizeof str[i].b) {
    printf("ERROR stream stand-in\n");
    _exit(2);
  }
  if (l)
    memcpy(str[i].b + str[i].n, d, l);
  str[i].n += l;
}
static uint64_t w_final(t1ha_context_t *c, uint64_t *x) {
  int i = slot_of(c);
  if (i < 0) {
    printf("ERROR stream stand-in\n");
    _exit(2);
  }
  str[i].c = NULL;
  ref128 r = ref_t1ha2_stream128(str[i].b, str[i].n, str[i].sx, str[i].sy);
  if (x)
    *x = r.hi;
  if (str[i].sx != str[i].sy)
    return x ? r.lo : ref_t1ha2_stream(str[i].b, str[i].n, str[i].sx, str[i].sy);
  return answer(x ? F_STREAM128 : F_STREAM, str[i].b, str[i].n, str[i].sx);
}

static uintptr_t base;
static int redirect(const char *name, void *to) {
  uintptr_t off = sym(name);
  if (!off)
    return 0;
  uint8_t *p = (uint8_t *)(base + off);
  uintptr_t pg = (uintptr_t)p & ~(uintptr_t)(PG - 1);
  if (mprotect((void *)pg, 2 * PG, PROT_READ | PROT_WRITE | PROT_EXEC))
    mprotect((void *)pg, PG, PROT_READ | PROT_WRITE | PROT_EXEC);
#ifdef __x86_64__
  uint8_t j[13] = {0x49, 0xbb, 0, 0, 0, 0, 0, 0, 0, 0, 0x41, 0xff, 0xe3};
  memcpy(j + 2, &to, 8);
  memcpy(p, j, sizeof j);
#else
  uint8_t j[5] = {0xe9};
  uint32_t rel = (uint32_t)((uintptr_t)to - (uintptr_t)p - 5);
  memcpy(j + 1, &rel, 4);
  memcpy(p, j, sizeof j);
#endif
  return 1;
}

typedef int (*chk)(void);
static chk get(const char *n) { return sym(n) ? (chk)(base + sym(n)) : NULL; }

static machine_t kinds[12];
static const char *kname[12] = {"no AES", "AES", "AES+AVX", "AES+AVX+AVX2", "AVX2 without AES", "AES+AVX+AVX2, OS without YMM", "AES+AVX2, no OSXSAVE", "max leaf 1", "max leaf 0"};
static unsigned nk;
static void machines(void) {
  for (unsigned i = 0; i < 9; ++i) {
    machine_t *m = &kinds[i];
    memset(m, 0, sizeof *m);
    m->max_leaf = 0x16, m->xcr0 = 7, m->junk = 3;
    m->l1 = (regs4){0x000306a9, 0x00100800, 0x7fbae3ffu, 0xbfebfbff};
    m->l7 = (regs4){0, 0x029c67afu, 0, 0xbc000600};
    if (i == 0 || i == 4)
      m->l1.c &= ~(1u << 25);
    if (i < 2)
      m->l1.c &= ~(1u << 28);
    if (i < 3)
      m->l7.b &= ~32u;
    if (i == 5)
      m->xcr0 = 3;
    if (i == 6)
      m->l1.c &= ~(1u << 27);
    if (i == 7)
      m->max_leaf = 1;
    if (i == 8)
      m->max_leaf = 0;
  }
  nk = 9;
}

static struct { const char *name; chk f; uint32_t must, may; } member[16], aggr[8];
static unsigned nmember, naggr;
static void clear(void) { memset(fault, 0, sizeof fault); for (int i = 0; i < NF; ++i) fault[i].v1 = fault[i].v2 = -1; }
static int run(chk f, const char *name) {
  cur_fn = name, cur_tick = cur_tick + 1;
  lacking = NULL, illegal = NULL;
  int rc = f();
  ++states;
  return rc;
}
/* functions an aggregate has to cover on this machine (bit mask) */
static uint32_t enabled(uint32_t m) {
  for (int i = F_NOAVX; i < NF; ++i)
    if (best_variant(&M) < i - F_NOAVX + 1)
      m &= ~(1u << i);
  for (int i = 0; i < NF; ++i)
    if (!present[i])
      m &= ~(1u << i);
  return m;
}
static void safe(const char *name, const char *where) {
  if (lacking)
    fail("%s runs %s on a machine without it (%s)", name, lacking, where);
  if (illegal)
    fail("%s: %s (%s)", name, illegal, where);
}

int main(int argc, char **argv) {
  if (argc < 4)
    return 2;
  guard_setup();
  read_table(argv[2]);
  int thorough = !strcmp(argv[3], "thorough");
  cpuenv_setup();
  probes();
  machines();
  unsigned checked;
  if (ref_validate(&checked)) {
    printf("ERROR reference\n");
    return 2;
  }
  M = kinds[3];
  void *lib = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
  if (!lib) {
    printf("ERROR %s\n", dlerror());
    return 2;
  }
  struct link_map *lm;
  dlinfo(lib, RTLD_DI_LINKMAP, &lm);
  base = (uintptr_t)lm->l_addr;
  present[F_ATONCE] = redirect("t1ha2_atonce", w_atonce);
  present[F_ATONCE128] = redirect("t1ha2_atonce128", w_atonce128);
  present[F_STREAM] = present[F_STREAM128] = redirect("t1ha2_init", w_init) && redirect("t1ha2_update", w_update) && redirect("t1ha2_final", w_final);
  present[F_1LE] = redirect("t1ha1_le", w_le);
  present[F_1BE] = redirect("t1ha1_be", w_be);
  present[F_32LE] = redirect("t1ha0_32le", w_le32);
  present[F_32BE] = redirect("t1ha0_32be", w_be32);
  present[F_NOAVX] = redirect("t1ha0_ia32aes_noavx", w_noavx);
  present[F_AVX] = redirect("t1ha0_ia32aes_avx", w_avx);
  present[F_AVX2] = redirect("t1ha0_ia32aes_avx2", w_avx2);
#define MEM(n, m) if ((member[nmember].f = get("t1ha_selfcheck__" n))) member[nmember].name = n, member[nmember].must = (m), member[nmember].may = (m), ++nmember
#define AGG(n, mu, ma) if ((aggr[naggr].f = get("t1ha_selfcheck__" n))) aggr[naggr].name = n, aggr[naggr].must = (mu), aggr[naggr].may = (ma), ++naggr
  MEM("t1ha2_atonce", 1u << F_ATONCE);
  MEM("t1ha2_atonce128", 1u << F_ATONCE128);
  MEM("t1ha2_stream", 1u << F_STREAM | 1u << F_STREAM128);
  MEM("t1ha1_le", 1u << F_1LE);
  MEM("t1ha1_be", 1u << F_1BE);
  MEM("t1ha0_32le", 1u << F_32LE);
  MEM("t1ha0_32be", 1u << F_32BE);
  MEM("t1ha0_ia32aes_noavx", 1u << F_NOAVX);
  MEM("t1ha0_ia32aes_avx", 1u << F_AVX);
  MEM("t1ha0_ia32aes_avx2", 1u << F_AVX2);
  const uint32_t T2 = 1u << F_ATONCE | 1u << F_ATONCE128 | 1u << F_STREAM | 1u << F_STREAM128, T1 = 1u << F_1LE | 1u << F_1BE,
                 T0 = 1u << F_32LE | 1u << F_32BE | 1u << F_NOAVX | 1u << F_AVX | 1u << F_AVX2;
  uint32_t t0extra = 0;
  if (sizeof(void *) == 8)
    t0extra = present[F_1LE] ? T1 : T2; /* the portable t1ha0() of 64-bit builds */
  AGG("t1ha2", T2, T2);
  AGG("t1ha1", T1, T1);
  AGG("t1ha0", T0, T0 | t0extra);
  AGG("all_enabled", T0 | T1 | T2, T0 | T1 | T2);
  if (!nmember || !naggr) {
    printf("ERROR no self-checks found\n");
    return 2;
  }

  /* members */
  for (unsigned i = 0; i < nmember; ++i) {
    uint32_t m = member[i].must;
    char t[120];
    M = kinds[3];
    clear();
    int rc = run(member[i].f, member[i].name);
    if (rc)
      fail("t1ha_selfcheck__%s() = %d although its function is right on all vectors", member[i].name, rc);
    for (int f = 0; f < NF; ++f) {
      if (!(m >> f & 1) || !present[f])
        continue;
      for (int v = 0; v < 81; ++v) {
        for (int bit = 0; bit < 67; ++bit) {
          clear();
          fault[f].v1 = v;
          fault[f].mask = bit < 64 ? UINT64_C(1) << bit : bit == 64 ? ~UINT64_C(0) : 0;
          if (bit >= 65) { /* a wrong constant: zero, or the right answer to another probe */
            fault[f].zero = bit - 64;
            fault[f].mask = gold[f][(v + 1) % 81];
            if (gold[f][v] == 0 && bit == 65)
              continue;
          }
          rc = run(member[i].f, member[i].name);
          if (rc != -1)
            fail("t1ha_selfcheck__%s() = %d although %s is wrong (fault %d) on vector %d", member[i].name, rc, fname[f], bit, v);
        }
        /* two vectors at once */
        for (int v2 = 0; v2 < v; ++v2)
          for (int bit = 0; bit < 64; bit += thorough ? 1 : 21) {
            clear();
            fault[f].v1 = v, fault[f].v2 = v2, fault[f].mask = UINT64_C(1) << bit;
            rc = run(member[i].f, member[i].name);
            if (rc != -1)
              fail("t1ha_selfcheck__%s() = %d although %s is wrong (bit %d) on vectors %d and %d", member[i].name, rc, fname[f], bit, v2, v);
          }
      }
      for (int bit = 0; bit < 64; ++bit) {
        clear();
        fault[f].all = 1, fault[f].mask = UINT64_C(1) << bit;
        rc = run(member[i].f, member[i].name);
        if (rc != -1)
          fail("t1ha_selfcheck__%s() = %d although %s is wrong (bit %d) on every vector", member[i].name, rc, fname[f], bit);
      }
    }
    /* another function being wrong is not its business */
    for (int f = 0; f < NF; ++f) {
      if (m >> f & 1 || !present[f])
        continue;
      clear();
      fault[f].all = 1, fault[f].mask = 1;
      rc = run(member[i].f, member[i].name);
      if (rc)
        fail("t1ha_selfcheck__%s() = %d because of %s", member[i].name, rc, fname[f]);
    }
    snprintf(t, sizeof t, "t1ha_selfcheck__%s: %" PRIu64 " faults so far", member[i].name, states);
    if (i < 2)
      sample("%s", t);
  }
  /* aggregates: every machine, every single faulty (function, vector), every set of faulty functions */
  for (unsigned k = 0; k < nk; ++k)
    for (unsigned a = 0; a < naggr; ++a) {
      M = kinds[k];
      uint32_t must = enabled(aggr[a].must), may = enabled(aggr[a].may);
      if (!strcmp(aggr[a].name, "t1ha0") && best_variant(&M) == 0 && sizeof(void *) == 8)
        must |= enabled(present[F_1LE] ? 1u << F_1LE : 1u << F_ATONCE);
      clear();
      int rc = run(aggr[a].f, aggr[a].name);
      safe(aggr[a].name, kname[k]);
      if (rc)
        fail("t1ha_selfcheck__%s() = %d although all functions are right (%s)", aggr[a].name, rc, kname[k]);
      for (int f = 0; f < NF; ++f) {
        if (!present[f])
          continue;
        for (int v = 0; v < 81; v += k == 3 || thorough ? 1 : 16)
          for (int bit = 0; bit < 64; bit += k == 3 ? 9 : 63) {
            clear();
            fault[f].v1 = v, fault[f].mask = UINT64_C(1) << bit;
            rc = run(aggr[a].f, aggr[a].name);
            safe(aggr[a].name, kname[k]);
            if (must >> f & 1 && !rc)
              fail("t1ha_selfcheck__%s() = 0 although %s is wrong (bit %d) on vector %d (%s)", aggr[a].name, fname[f], bit, v, kname[k]);
            if (!(may >> f & 1) && rc)
              fail("t1ha_selfcheck__%s() = %d because of %s, which is not its member (%s)", aggr[a].name, rc, fname[f], kname[k]);
          }
      }
      for (uint32_t set = 1; set < 1u << NF; ++set) {
        int ok = 1;
        for (int f = 0; f < NF; ++f)
          if (set >> f & 1 && !present[f])
            ok = 0;
        if (!ok || (!thorough && k != 3 && (set % 5) != k % 5))
          continue;
        clear();
        for (int f = 0; f < NF; ++f)
          if (set >> f & 1)
            fault[f].v1 = (int)((set * 7 + (unsigned)f) % 81), fault[f].mask = 1;
        rc = run(aggr[a].f, aggr[a].name);
        if (set & must && !rc)
          fail("t1ha_selfcheck__%s() = 0 although members 0x%x are wrong (%s)", aggr[a].name, set & must, kname[k]);
        if (!(set & may) && rc)
          fail("t1ha_selfcheck__%s() = %d because of functions 0x%x that are not its members (%s)", aggr[a].name, rc, set, kname[k]);
      }
    }
  for (int f = 0; f < NF; ++f)
    if (present[f] && !called[f])
      fail("no self-check ever called %s", fname[f]);
  cur_fn = NULL;
  stat_u("states", states);
  stat_u("transitions", transitions);
  stat_u("traces", states);
  stat_u("members", nmember);
  printf("DONE\n");
  return nfails ? 1 : 0;
}
