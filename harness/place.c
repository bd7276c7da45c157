/* Placement explorer.
 *   place guard <quick|thorough>   P09: inaccessible pages around the message
 *   place around <quick|thorough>  P11: neighbours and addresses
 * Oracle: no fault, and the value equals that of the same message in a private
 * roomy place.
 */
#include "entries.h"

static int thorough;
static uint64_t states, transitions, distinct_out;
static uint8_t *ref_place; /* roomy, 64-aligned */
static fpset outs;
static entry *E;

static res roomy(const uint8_t *m, size_t len, uint64_t x, uint64_t y) {
  memset(ref_place, 0x11, 256);
  memcpy(ref_place + 256, m, len);
  memset(ref_place + 256 + len, 0x11, 256);
  cur_fn = E->name, cur_ptr = (uintptr_t)ref_place + 256, cur_len = len, cur_seed = x, cur_tick = cur_tick + 1;
  return E->impl(ref_place + 256, len, x, y);
}
static void at(const uint8_t *p, size_t len, uint64_t x, uint64_t y, res want, const char *what) {
  cur_fn = E->name, cur_ptr = (uintptr_t)p, cur_len = len, cur_seed = x, cur_seed2 = y, cur_tick = cur_tick + 1;
  res got = E->impl(p, len, x, y);
  ++transitions;
  if (got.lo != want.lo || (E->wide && got.hi != want.hi))
    fail("%s(len=%zu, page offset=%u) %s: %016" PRIx64 ":%016" PRIx64 " instead of %016" PRIx64 ":%016" PRIx64 " elsewhere", E->name, len,
         (unsigned)((uintptr_t)p & (PG - 1)), what, got.hi, got.lo, want.hi, want.lo);
}
static uint8_t text[1 << 16];

/*---------------------------------------------------------------- P09 */
static uint8_t *page1, *pages2, *pages3; /* 1, 2, 3 accessible pages between guards */
static void guard(void) {
  for (unsigned i = 0; i < sizeof text; ++i)
    text[i] = (uint8_t)(i * 167 + (i >> 8) + 3);
  /* every length that fits, ending at and starting at the border */
  size_t L = thorough ? 3 * PG : PG + 300;
  for (size_t len = 0; len <= L; ++len) {
    uint8_t *area = len <= PG ? page1 : len <= 2 * PG ? pages2 : pages3;
    size_t n = len <= PG ? PG : len <= 2 * PG ? 2 * PG : 3 * PG;
    res want = roomy(text, len, len, 7);
    fp_add(&outs, fp_mix(want.lo, len));
    memcpy(area + n - len, text, len);
    at(area + n - len, len, len, 7, want, "ending at an inaccessible page");
    memcpy(area, text, len);
    at(area, len, len, 7, want, "starting after an inaccessible page");
    states += 2;
  }
  /* every offset of short messages in a lone page */
  size_t S = thorough ? 300 : 140;
  for (size_t len = 1; len <= S; ++len) {
    res want = roomy(text + 5, len, 3, 4);
    for (size_t off = 0; off + len <= PG; ++off) {
      int near = off < 160 || off + len > PG - 160 || thorough || len < 40;
      if (!near && (off & 63) > 8)
        continue;
      memcpy(page1 + off, text + 5, len);
      at(page1 + off, len, 3, 4, want, "in a lone page");
      ++states;
    }
    /* across the border of the two pages */
    for (size_t in = 1; in < len; ++in) {
      memcpy(pages2 + PG - in, text + 5, len);
      at(pages2 + PG - in, len, 3, 4, want, "across a page border");
      ++states;
    }
  }
  /* nothing at all may be touched for length 0 */
  uint8_t *bad[] = {NULL, (uint8_t *)1, page1 - 1, page1 - PG, page1 - 8, page1 + PG, page1 + PG + 1, page1 + PG + 7, page1 + PG + 2048, page1 + PG - 1,
                    (uint8_t *)~(uintptr_t)0, (uint8_t *)~(uintptr_t)7, (uint8_t *)(~(uintptr_t)0 >> 1), (uint8_t *)(~(uintptr_t)0 << 12)};
  for (unsigned s = 0; s < 64; ++s) {
    res want = roomy(text, 0, s, s);
    for (unsigned i = 0; i < sizeof bad / sizeof *bad; ++i, ++states)
      at(bad[i], 0, s, s, want, "of length 0 at an inaccessible address");
    for (unsigned i = 0; i < 64; ++i, ++states)
      at(page1 + PG + i, 0, s, s, want, "of length 0 at an inaccessible address");
  }
}
#ifndef T1HA2_DISABLED
/* updates with waiting bytes in the context; the context itself and the extra result at page borders */
static void guard_stream(void) {
  res rr;
  cur_fn = "t1ha2_update";
  for (size_t pre = 0; pre < 34; ++pre)
    for (size_t len = 0; len <= (thorough ? 300u : 140u); ++len)
      for (unsigned side = 0; side < 4; ++side) {
        t1ha_context_t *c = (t1ha_context_t *)(side & 1 ? pages2 : pages2 + 2 * PG - sizeof(t1ha_context_t));
        uint64_t *x = (uint64_t *)(side & 1 ? pages3 : pages3 + 3 * PG - 8);
        uint8_t *p = side & 2 ? page1 : page1 + PG - len;
        memcpy(p, text, len);
        cur_len = len;
        t1ha2_init(c, 1, 2);
        t1ha2_update(c, text + 100, pre);
        t1ha2_update(c, p, len);
        if (!len)
          t1ha2_update(c, NULL, 0), t1ha2_update(c, (void *)~(uintptr_t)0, 0), t1ha2_update(c, page1 + PG, 0);
        t1ha_context_t k = *c;
        rr.lo = t1ha2_final(c, x);
        rr.hi = *x;
        uint64_t f = t1ha2_final(&k, NULL);
        fp_add(&outs, rr.lo ^ f ^ rr.hi);
        t1ha2_init(&k, 1, 2);
        uint8_t b[512];
        memcpy(b, text + 100, pre), memcpy(b + pre, text, len);
        t1ha2_update(&k, b, pre + len);
        t1ha_context_t k2 = k;
        uint64_t h = 0, l = t1ha2_final(&k, &h), f2 = t1ha2_final(&k2, NULL);
        if (h != rr.hi || l != rr.lo || f != f2)
          fail("stream update of %zu bytes at a page border after %zu bytes gives another result", len, pre);
        ++states, transitions += 5;
      }
  /* extra_result of the at-once function at the borders */
  for (size_t len = 0; len < 100; ++len) {
    uint64_t a, *x1 = (uint64_t *)(page1 + PG - 8), *x2 = (uint64_t *)page1;
    uint64_t r = t1ha2_atonce128(&a, text, len, 9);
    if (t1ha2_atonce128(x1, text, len, 9) != r || *x1 != a || t1ha2_atonce128(x2, text, len, 9) != r || *x2 != a)
      fail("t1ha2_atonce128 result at a page border differs, len=%zu", len);
    ++states, transitions += 3;
  }
}
#endif

/*---------------------------------------------------------------- P11 */
static void put(uint8_t *p, const uint8_t *m, size_t len, uint8_t lo, uint8_t hi) {
  memset(p - 64, lo, 64);
  memcpy(p, m, len);
  memset(p + len, hi, 64);
}
static void *map_at(uintptr_t a, size_t n) {
#ifndef MAP_FIXED_NOREPLACE
#define MAP_FIXED_NOREPLACE 0x100000
#endif
  void *p = mmap((void *)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (p != (void *)a) {
    if (p != MAP_FAILED)
      munmap(p, n);
    return NULL;
  }
  return p;
}
static uint8_t *bases[64];
static unsigned nbases;
static void find_bases(void) {
  static const uint64_t want[] = {0x10000, 0x7ffff000, 0x80000000, 0xbffff000, 0xf0000000, 0xffff0000, 0xfffff000, 0x100000000, 0x1fffff000,
                                  0x7ffffffff000, 0x7fff00000000, 0x100000000000, 0xffffffff000, 0x200000000000, 0x3ffffffff000, 0x800000000, 0xffffff000, 0x40000000, 0x20000000};
  for (unsigned i = 0; i < sizeof want / sizeof *want; ++i) {
    if (want[i] > UINTPTR_MAX - 0x8000)
      continue;
    /* the middle of three pages lies at the wanted address */
    uint8_t *p = map_at((uintptr_t)want[i] - (want[i] > 0x20000 ? PG : 0), 4 * PG);
    if (p)
      bases[nbases++] = p;
  }
  uint8_t *p = mmap(NULL, 4 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  bases[nbases++] = p;
}
static void around(void) {
  uint8_t *base = bases[nbases - 1];
  size_t L = thorough ? 300 : 145;
  for (unsigned i = 0; i < sizeof text; ++i)
    text[i] = (uint8_t)(i * 151 + (i >> 7) + 1);
  for (size_t len = 0; len <= L; ++len) {
    const uint8_t *m = text + len;
    res want = roomy(m, len, len * 3, 1);
    fp_add(&outs, fp_mix(want.lo, len));
    static const uint8_t fills[][2] = {{0, 0}, {0xff, 0xff}, {0, 0xff}, {0xff, 0}, {0x80, 1}, {0x5a, 0xa5}};
    /* every offset near the page borders, every residue modulo 64 elsewhere */
    for (size_t off = 64; off < 2 * PG; ++off) {
      size_t o = off & (PG - 1);
      int edge = o < 72 || o + 72 + len >= PG || (o > 2040 && o < 2056);
      if (!edge && !(off / 64 == 20))
        continue;
      for (unsigned f = 0; f < 6; ++f) {
        if (f > 1 && !thorough && (off + len) % 4 != f % 4)
          continue;
        put(base + off, m, len, fills[f][0], fills[f][1]);
        at(base + off, len, len * 3, 1, want, "with other neighbouring bytes");
        ++states;
      }
    }
    /* every single bit of the neighbouring bytes, at every alignment */
    for (unsigned off = 0; off < 16; ++off) {
      uint8_t *p = base + 1024 + off;
      put(p, m, len, 0, 0);
      for (int d = -16; d < 16; ++d)
        for (unsigned b = 0; b < 8; ++b) {
          uint8_t *q = d < 0 ? p + d : p + len + d;
          if (!thorough && off >= 8 && (b & 3))
            continue;
          *q ^= 1 << b;
          at(p, len, len * 3, 1, want, "with one neighbouring bit changed");
          *q ^= 1 << b;
          ++states;
        }
      if (off < 9) {
        p = base + PG + off - 4;
        put(p, m, len, 0, 0);
        for (int d = -8; d < 8; ++d) {
          uint8_t *q = d < 0 ? p + d : p + len + d;
          *q = 0xff;
          at(p, len, len * 3, 1, want, "with one neighbouring byte changed");
          *q = 0;
          ++states;
        }
      }
    }
    /* anywhere in the address space */
    for (unsigned i = 0; i < nbases; ++i)
      for (unsigned k = 0; k < 12; ++k) {
        uint8_t *p = bases[i] + PG - (k < 10 ? k : len / 2 + k - 10);
        if (p < bases[i])
          continue;
        memcpy(p, m, len);
        at(p, len, len * 3, 1, want, "at another address");
        ++states;
      }
  }
  /* long ones: all alignments, two neighbourhoods, far addresses */
  for (size_t len = 146; len <= 3 * PG; len += thorough ? 13 : 97) {
    res want = roomy(text, len, 1, 1);
    for (unsigned i = 0; i < nbases; ++i)
      for (unsigned off = 0; off < 9 && off + len < 4 * PG; ++off) {
        memset(bases[i], i & 1 ? 0xff : 0, off);
        memset(bases[i] + off + len, 0xff, 4 * PG - off - len);
        memcpy(bases[i] + off, text, len);
        at(bases[i] + off, len, 1, 1, want, "at another address");
        ++states;
      }
  }
}
#ifndef T1HA2_DISABLED
/* chunks of a stream, with waiting bytes */
static void around_stream(void) {
  uint8_t *base = bases[nbases - 1];
  cur_fn = "t1ha2_update";
  for (unsigned pre = 0; pre < 32; ++pre)
    for (size_t len = 0; len <= 100; ++len) {
      res want = {0, 0};
      for (unsigned v = 0; v < 34; ++v) {
        uint8_t *p = base + (v < 24 ? 512 + v % 8 : PG - (v - 24) * 8 - v % 3);
        put(p, text + 7, len, v & 1 ? 0xff : 0, v & 2 ? 0xff : (uint8_t)v);
        t1ha_context_t cc[2], *c = &cc[v & 1], k;
        memset(cc, (int)(v * 37), sizeof cc);
        t1ha2_init(c, 3, 4);
        t1ha2_update(c, text, pre);
        t1ha2_update(c, p, len);
        k = *c;
        res r;
        r.hi = 0;
        r.lo = t1ha2_final(c, &r.hi);
        r.hi += t1ha2_final(&k, NULL) * 3;
        if (!v)
          want = r;
        else if (r.lo != want.lo || r.hi != want.hi)
          fail("stream: update of %zu bytes after %u bytes depends on its address or neighbours (page offset %u)", len, pre,
               (unsigned)((uintptr_t)p & (PG - 1)));
        ++states, transitions += 2;
      }
    }
}
#endif

int main(int argc, char **argv) {
  if (argc < 3)
    return 2;
  guard_setup();
  thorough = !strcmp(argv[2], "thorough");
  int g = !strcmp(argv[1], "guard");
  ref_place = mmap(NULL, 1 << 17, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  page1 = guarded(PG), pages2 = guarded(2 * PG), pages3 = guarded(3 * PG);
  if (!g)
    find_bases();
  unsigned n = 0;
  for (unsigned i = 0; i < NALL; ++i) {
    E = &all[i];
    if (!cpu_can(E))
      continue;
    ++n;
    uint64_t s0 = states;
    if (g)
      guard();
    else
      around();
    sample("%s: %" PRIu64 " placements", E->name, states - s0);
  }
#ifndef T1HA2_DISABLED
  if (g)
    guard_stream();
  else
    around_stream();
#endif
  cur_fn = NULL;
  stat_u("functions", n);
  stat_u("states", states);
  stat_u("transitions", transitions);
  stat_u("traces", outs.n);
  stat_u("bases", nbases);
  printf("DONE\n");
  return nfails ? 1 : 0;
}
