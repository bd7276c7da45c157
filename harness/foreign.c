/* Explores the portable entry points compiled for a foreign target (gen.c), executed on the simulated machine. */
#include "common.h"
#include "../ref/ref.h"
#include GEN

static const char *target;
static void vm_fail(const char *fmt, ...) {
  char b[400];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  max_fails = 1;
  fail("%s: %s len=%llu at 0x%llx seed=0x%llx %s: %s", target, (const char *)cur_fn, (unsigned long long)cur_len,
       (unsigned long long)(vm_base + vm_mlo), (unsigned long long)cur_seed, cur_desc, b);
  _exit(1);
}

typedef struct { uint64_t lo, hi; } res;
static unsigned ctx_align, ctx_size, u64_align;
static unsigned step, cut1, cut2;
static u64 msg_addr(void) { return vm_base + vm_mlo; }
#define L() (vm_mhi - vm_mlo)
#define ARG cur_seed
/* result destination between canaries, contexts at every address the target's ABI allows */
static u64 place(int i, unsigned size, unsigned align) {
  u64 a = VM_CTX(i);
  unsigned o = step++ % 4 * align;
  memset(vm_mem + (a - vm_base), 0xC5, 512);
  (void)size;
  return a + 64 + o;
}
static void canaries(int i, u64 at, unsigned size) {
  u64 a = VM_CTX(i);
  for (u64 x = a; x < a + 512; ++x)
    if ((x < at || x >= at + size) && vm_mem[x - vm_base] != 0xC5)
      vm_fail("wrote %lld bytes from the object of %u bytes it was given", (long long)(x - at), size);
}
typedef struct {
  const char *name;
  int wide;
  res (*impl)(void);
  res (*ref)(const void *, uint64_t, uint64_t, uint64_t);
} entry;
#define SIMPLE(n, f)                                                                                                  \
  static res i_##n(void) {                                                                                            \
    res r = {F_##n(msg_addr(), L(), ARG), 0};                                                                         \
    return r;                                                                                                         \
  }                                                                                                                   \
  static res r_##n(const void *d, uint64_t l, uint64_t x, uint64_t y) {                                               \
    (void)y;                                                                                                          \
    res r = {f(d, l, x), 0};                                                                                          \
    return r;                                                                                                         \
  }
#ifdef HAVE_t1ha2_atonce
SIMPLE(t1ha2_atonce, ref_t1ha2_atonce)
static res i_t1ha2_atonce128(void) {
  res r;
  u64 d = place(0, 8, u64_align);
  r.lo = F_t1ha2_atonce128(d, msg_addr(), L(), ARG);
  r.hi = vm_peek64(d);
  canaries(0, d, 8);
  return r;
}
static res r_t1ha2_atonce128(const void *d, uint64_t l, uint64_t x, uint64_t y) {
  (void)y;
  ref128 v = ref_t1ha2_atonce128(d, l, x);
  res r = {v.lo, v.hi};
  return r;
}
static void feed(u64 c) {
  u64 a = vm_mlo, e = vm_mhi, x = a + (cut1 < e - a ? cut1 : e - a), y = x + (cut2 < e - x ? cut2 : e - x);
  u64 p[4] = {a, x, y, e};
  for (int i = 0; i < 3; ++i) {
    if (p[i] == p[i + 1] && i != (int)(step & 3))
      continue;
    vm_mlo = p[i], vm_mhi = p[i + 1];
    F_t1ha2_update(c, vm_base + p[i], p[i + 1] - p[i]);
  }
  vm_mlo = vm_mhi = e;
}
static res stream(int wide) {
  u64 lo = vm_mlo, hi = vm_mhi;
  u64 c = place(1, ctx_size, ctx_align), d = place(0, 8, u64_align);
  vm_mlo = vm_mhi; /* no message while init runs */
  F_t1ha2_init(c, cur_seed, cur_seed2);
  vm_mlo = lo;
  feed(c);
  res r;
  r.lo = F_t1ha2_final(c, wide ? d : 0);
  r.hi = wide ? vm_peek64(d) : 0;
  canaries(0, d, wide ? 8 : 0);
  canaries(1, c, ctx_size);
  vm_mlo = lo, vm_mhi = hi;
  return r;
}
static res i_stream64(void) { return stream(0); }
static res i_stream128(void) { return stream(1); }
static res r_stream64(const void *d, uint64_t l, uint64_t x, uint64_t y) {
  res r = {ref_t1ha2_stream(d, l, x, y), 0};
  return r;
}
static res r_stream128(const void *d, uint64_t l, uint64_t x, uint64_t y) {
  ref128 v = ref_t1ha2_stream128(d, l, x, y);
  res r = {v.lo, v.hi};
  return r;
}
#endif
#ifdef HAVE_t1ha1_le
SIMPLE(t1ha1_le, ref_t1ha1_le)
SIMPLE(t1ha1_be, ref_t1ha1_be)
#endif
#ifdef HAVE_t1ha0_32le
SIMPLE(t1ha0_32le, ref_t1ha0_32le)
SIMPLE(t1ha0_32be, ref_t1ha0_32be)
#if defined(HAVE_t1ha1_le)
#define BIGW(d, l, x) (VM_BIG ? ref_t1ha1_be(d, l, x) : ref_t1ha1_le(d, l, x))
#elif defined(HAVE_t1ha2_atonce)
#define BIGW(d, l, x) ref_t1ha2_atonce(d, l, x)
#else
#define BIGW(d, l, x) SMALLW(d, l, x)
#endif
#define SMALLW(d, l, x) (VM_BIG ? ref_t1ha0_32be(d, l, x) : ref_t1ha0_32le(d, l, x))
static int is64;
static uint64_t ref_w_t1ha0(const void *d, uint64_t l, uint64_t x) { return is64 ? BIGW(d, l, x) : SMALLW(d, l, x); }
SIMPLE(w_t1ha0, ref_w_t1ha0)
#ifdef HAVE_w_t1ha0_resolved
SIMPLE(w_t1ha0_resolved, ref_w_t1ha0)
#endif
#endif
static const entry all[] = {
#define E(n, w) {#n, w, i_##n, r_##n},
#ifdef HAVE_t1ha2_atonce
    E(t1ha2_atonce, 0) E(t1ha2_atonce128, 1) E(stream64, 0) E(stream128, 1)
#endif
#ifdef HAVE_t1ha1_le
    E(t1ha1_le, 0) E(t1ha1_be, 0)
#endif
#ifdef HAVE_t1ha0_32le
    E(t1ha0_32le, 0) E(t1ha0_32be, 0) E(w_t1ha0, 0)
#ifdef HAVE_w_t1ha0_resolved
    E(w_t1ha0_resolved, 0)
#endif
#endif
};
static int value_rule;
static uint64_t calls, states;
static fpset seen;

static void one(const entry *e, unsigned off, unsigned len, uint64_t s1, uint64_t s2) {
  u64 acc0 = vm_accesses, sp = vm_sp;
  cur_fn = e->name, cur_len = len, cur_seed = s1, cur_seed2 = s2, ++cur_tick;
  vm_mlo = off, vm_mhi = off + len;
  if (vm_exact)
    memset(vm_touched + off, 0, len);
  uint8_t copy[1024];
  memcpy(copy, vm_mem + off, len);
  res r = e->impl(), x = e->ref(copy, len, s1, s2);
  ++calls;
  if (vm_sp != sp)
    vm_fail("harness: unbalanced stack");
  if (value_rule && (r.lo != x.lo || (e->wide && r.hi != x.hi))) {
    char h[300];
    hex(h, copy, len, 64);
    fail("%s: %s len=%u address=0x%llx seeds=0x%" PRIx64 ",0x%" PRIx64 " %s gives %016" PRIx64 ":%016" PRIx64 " instead of %016" PRIx64 ":%016" PRIx64 " message=%s",
         target, e->name, len, (unsigned long long)(vm_base + off), s1, s2, cur_desc, r.hi, r.lo, x.hi, x.lo, h);
  }
  if (memcmp(copy, vm_mem + off, len))
    vm_fail("the message was modified");
  if (vm_exact)
    for (unsigned i = 0; i < len; ++i)
      if (len && !vm_touched[off + i])
        vm_fail("message byte %u was never read", i);
  states += (unsigned)fp_add(&seen, fp_mix(fp_mix((uint64_t)(e - all), len | (uint64_t)(off & 4095) << 32), fp_mix(r.lo, vm_accesses - acc0)));
}
static void fill(int k, uint64_t salt) {
  uint64_t s = salt * 77 + (uint64_t)k;
  for (unsigned i = 0; i < VM_USER; ++i)
    vm_mem[i] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? (uint8_t)(0x80 + i * 37) : (uint8_t)splitmix(&s);
}

int main(int argc, char **argv) {
  target = argv[1];
  unsigned maxlen = (unsigned)atoi(argv[2]);
  vm_exact = strchr(argv[3], 'e') != NULL;
  vm_align_rule = strchr(argv[3], 'a') != NULL;
  vm_page_rule = strchr(argv[3], 'p') != NULL;
  value_rule = strchr(argv[3], 'v') != NULL;
  uint64_t seed = strtoull(argv[4], NULL, 10);
  unsigned nfill = (unsigned)atoi(argv[5]);
  guard_setup();
  if (argc < 6)
    return 2;
  vm_boot();
  cur_fn = "size of context";
  ctx_size = F_w_ctx_size(), ctx_align = F_w_ctx_align(), u64_align = F_w_u64_align();
  if (F_w_big() != VM_BIG)
    vm_fail("the header takes the machine for a %s-endian one", VM_BIG ? "little" : "big");
#ifdef HAVE_t1ha0_32le
  is64 = F_w_long_bits() > 32;
#endif
  uint64_t rnd = seed * 1000003 + 17;
  uint64_t seeds[4][2] = {{0, 0}, {42, 1}, {~UINT64_C(0), UINT64_C(0x8000000000000000)}, {splitmix(&rnd), splitmix(&rnd)}};
  for (unsigned len = 0; len <= maxlen; len += len < 140 ? 1 : len < 300 ? 13 : 37)
    for (unsigned f = 0; f < nfill; ++f) {
      fill((int)((f + 3) & 3), seed + len + f);
      for (unsigned si = 0; si < 4; ++si) {
        if (f && si != (f + len) % 4)
          continue;
        /* starts at and around both borders of a page, ends at and around the end of one, every residue mod 8 */
        unsigned pos[40], n = 0;
        for (unsigned k = 0; k < 8; ++k) {
          pos[n++] = 4 * 4096 + k;                     /* just after a border */
          pos[n++] = 8 * 4096 - len - k;               /* up to the border (and the wrap of the low address half) */
        }
        if (!f)
          for (unsigned k = 1; k < 9; ++k)
            pos[n++] = 8 * 4096 - (len / 2 + k > len ? len : len / 2 + k); /* across */
        for (unsigned k = 0; k < n; ++k)
          for (unsigned e = 0; e < sizeof all / sizeof *all; ++e) {
            cut1 = cut2 = ~0u;
            cur_desc[0] = 0;
            one(&all[e], pos[k], len, seeds[si][0], seeds[si][1]);
          }
      }
    }
  sample("%s: every length 0..%u at 24 positions, e.g. t1ha2_atonce128 at 0x%llx", target, maxlen, (unsigned long long)(vm_base + 8 * 4096 - 9));
#ifdef HAVE_t1ha2_atonce
  /* histories of two cuts: (cut1, cut2) over every residue of both blocks */
  fill(3, seed);
  for (unsigned len = 0; len <= 100; len += len < 40 ? 1 : 7)
    for (cut1 = 0; cut1 <= len; ++cut1)
      for (unsigned c2 = 0; c2 <= len - cut1; c2 += 1 + (len > 40) * 4) {
        cut2 = c2;
        snprintf(cur_desc, sizeof cur_desc, "cut in %u+%u+%u", cut1, cut2, len - cut1 - cut2);
        step = cut1 + cut2;
        for (unsigned e = 2; e < 4; ++e)
          one(&all[e], 6 * 4096 + (cut1 * 3 + len) % 11, len, seeds[3][0], seeds[1][1]);
      }
#endif
#ifdef HAVE_t1ha_selfcheck__all_enabled
  cur_desc[0] = 0;
  vm_mlo = vm_mhi = 0;
  cur_fn = "t1ha_selfcheck__all_enabled";
  vm_exact = 0;
  if ((int)F_t1ha_selfcheck__all_enabled() != 0 && value_rule)
    vm_fail("returned failure");
  ++calls;
#endif
  stat_u("states", states);
  stat_u("transitions", calls);
  stat_u("traces", calls);
  stat_u("accesses", vm_accesses);
  printf("DONE\n");
  return nfails != 0;
}
