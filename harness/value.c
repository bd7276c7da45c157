/* Value explorer: enumerates input points and compares every entry point under
 * check with the reference model, on every placement of the message.
 *
 *   value <function,...> <quick|thorough> <mined constants file>
 */
#include "entries.h"

static fpset points;
static uint64_t calls, *mined;
static size_t nmined;
static uint8_t *arena; /* guarded, page aligned */
static size_t arena_bytes;
static int thorough;
static uint8_t msg[1 << 23];
static entry *E;

static void once(const uint8_t *at, size_t len, uint64_t x, uint64_t y, res want) {
  cur_fn = E->name, cur_ptr = (uintptr_t)at, cur_len = len, cur_seed = x, cur_seed2 = y, cur_tick = cur_tick + 1;
  res got = E->impl(at, len, x, y);
  ++calls;
  if (got.lo != want.lo || (E->wide && got.hi != want.hi)) {
    static char h[300];
    hex(h, at, len, 140);
    fail("%s(len=%zu, offset=%u, seed=0x%" PRIx64 ", 0x%" PRIx64 ") = %016" PRIx64 ":%016" PRIx64 ", want %016" PRIx64
         ":%016" PRIx64 ", data=%s", E->name, len, (unsigned)((uintptr_t)at & (PG - 1)), x, y, got.hi, got.lo, want.hi,
         want.lo, h);
  }
}

/* Compare one input point on the given set of placements.
 *  place: bit k (0..15) - offset k from a page start; bit 16 - ending at a page end (guard behind);
 *  bit 17 - starting at a page start (guard before); bit 18 - crossing a page border in the middle */
#define ALL8 0xffu
#define ATEND (1u << 16)
#define CROSS (1u << 18)
static void point(const uint8_t *m, size_t len, uint64_t x, uint64_t y, unsigned place) {
  res want = E->ref(m, len, x, y);
  if (fp_add(&points, fp_mix(fp_mix(fp_mix((uintptr_t)(E - all), len), x), fp_mix(y, want.lo))) &&
      (points.n & (points.n - 1)) == 0 && points.n > 512) {
    static char h[64];
    hex(h, m, len, 12);
    sample("%s len=%zu seed=0x%" PRIx64 "/0x%" PRIx64 " data=%s -> 0x%016" PRIx64, E->name, len, x, y, h, want.lo);
  }
  for (unsigned k = 0; k < 16; ++k)
    if (place >> k & 1) {
      memcpy(arena + k, m, len);
      once(arena + k, len, x, y, want);
    }
  if (place & ATEND) {
    uint8_t *p = arena + arena_bytes - len;
    memcpy(p, m, len);
    once(p, len, x, y, want);
  }
  if (place & CROSS) {
    uint8_t *p = arena + (len + PG) / PG * PG - len / 2;
    if (p < arena)
      p = arena;
    memcpy(p, m, len);
    once(p, len, x, y, want);
  }
}

static const uint64_t seeds[] = {0, ~UINT64_C(0), 1, UINT64_C(1) << 63, UINT64_C(0x0123456789ABCDEF), UINT64_C(0xFFFFFFFF), UINT64_C(0xFFFFFFFF00000000)};
#define NSEED (sizeof seeds / sizeof *seeds)
static uint64_t second(uint64_t x, unsigned i) {
  switch (i % 6) {
  case 0: return x;
  case 1: return ~x;
  case 2: return 0;
  case 3: return x * 3 + 1;
  case 4: return x << 32 | x >> 32;
  default: return UINT64_C(0xA5A5A5A55A5A5A5A);
  }
}
static unsigned nsecond(void) { return E->two_seeds ? 6 : 1; }

static void tape(uint8_t *p, size_t n, unsigned t) {
  uint64_t s = 12345 + t;
  for (size_t i = 0; i < n; ++i)
    switch (t) {
    case 0: p[i] = 0; break;
    case 1: p[i] = 0xff; break;
    case 2: p[i] = (uint8_t)(i + 1); break;
    case 3: p[i] = (uint8_t)(0x80 >> (i & 7)); break;
    default: p[i] = (uint8_t)splitmix(&s);
    }
}

/* A: length x tape x seed x placement */
static void lengths(void) {
  size_t L = thorough ? 4400 : 1100;
  for (unsigned t = 0; t < 6; ++t) {
    tape(msg, L, t);
    for (size_t len = 0; len <= L; ++len) {
      unsigned ns = len <= 300 ? NSEED : 2;
      for (unsigned s = 0; s < ns; ++s) {
        unsigned n2 = len <= 300 ? nsecond() : 1;
        for (unsigned q = 0; q < n2; ++q) {
          unsigned place = len <= 300 && !q && s < 3 ? 0xffffu | ATEND | CROSS : (1u << ((len + s + t) & 7)) | (s ? ATEND : CROSS);
          point(msg, len, seeds[s], second(seeds[s], q + (len > 300)), place);
        }
      }
    }
  }
}
/* seeds that are related to the length or the data */
static void related(void) {
  for (unsigned t = 2; t < 5; t += 2)
    for (size_t len = 0; len <= 200; ++len) {
      tape(msg, len, t);
      uint64_t w = 0;
      memcpy(&w, msg, len < 8 ? len : 8);
      uint64_t rel[] = {len, ~(uint64_t)len, -(uint64_t)len, (uint64_t)len << 32, (uint64_t)len << 3, w, ~w, -w};
      for (unsigned i = 0; i < sizeof rel / sizeof *rel; ++i)
        for (unsigned q = 0; q < nsecond(); ++q)
          point(msg, len, rel[i], second(rel[i], q), 1u << (i & 7));
      /* words equal to the seed or the length */
      for (size_t at = 0; at + 8 <= len && at < 72; at += 8) {
        uint64_t v[] = {UINT64_C(0x0123456789ABCDEF), len, (uint64_t)len << 3 ^ UINT64_C(1) << 63};
        for (unsigned i = 0; i < 3; ++i) {
          tape(msg, len, t);
          memcpy(msg + at, &v[i], 8);
          point(msg, len, UINT64_C(0x0123456789ABCDEF), UINT64_C(0x0123456789ABCDEF), 1);
        }
      }
    }
}
/* B: around powers of two and multiples of the page size */
static void big(void) {
  tape(msg, sizeof msg, 4);
  for (unsigned k = 10; k <= (thorough ? 22u : 20u); ++k)
    for (int d = k <= 16 || thorough ? -140 : -36; d <= (k <= 16 || thorough ? 140 : 36); k <= 14 || thorough ? d++ : k <= 16 ? (d += 3) : (d += 1 + 7 * (d % 8 == 0))) {
      size_t len = ((size_t)1 << k) + d;
      point(msg, len, seeds[4], ~seeds[4], 1u << (d & 7));
    }
  for (unsigned j = 3; j <= 40; ++j)
    for (int d = -1; d <= 1; ++d)
      point(msg, (size_t)j * PG + d, j, j + 1, 1u << (j & 7));
}
/* C: every bit of every short message */
static void bitwalk(void) {
  size_t L = thorough ? 400 : 160;
  for (unsigned t = 0; t < 5; t += 2)
    for (size_t len = 1; len <= L; ++len) {
      tape(msg, len, t);
      for (size_t b = 0; b < len * 8; ++b) {
        if (t && len > 100 && !thorough && (b + len) % 5)
          continue;
        msg[b / 8] ^= 1 << b % 8;
        point(msg, len, t * 77, t * 177, 1u << ((b + len) & 7));
        msg[b / 8] ^= 1 << b % 8;
      }
    }
}
/* D: every bit of the seeds, and pairs of bits */
static void seedwalk(void) {
  tape(msg, 300, 4);
  for (size_t len = 0; len <= 130; ++len)
    for (unsigned i = 0; i < 64; ++i)
      for (unsigned c = 0; c < 2; ++c) {
        uint64_t s = UINT64_C(1) << i;
        if (c)
          s = ~s;
        point(msg, len, s, 0, 1u << (i & 7));
        if (E->two_seeds) {
          point(msg, len, 0, s, 1u << (i & 7));
          point(msg, len, s, s, 1);
        }
      }
  const size_t ls[] = {0, 1, 7, 8, 13, 16, 31, 32, 33, 64, 100, 128, 161};
  for (unsigned k = 0; k < sizeof ls / sizeof *ls; ++k)
    for (unsigned i = 0; i < 64; ++i)
      for (unsigned j = 0; j < 64; ++j)
        if (i != j || !k)
          point(msg, ls[k], (UINT64_C(1) << i) | (E->two_seeds ? 0 : UINT64_C(1) << j),
                E->two_seeds ? UINT64_C(1) << j : 0, 1u << (i & 7));
  /* every small seed, in either half */
  for (uint32_t s = 0; s < (thorough ? 1u << 20 : 1u << 16); ++s) {
    point(msg, s % 37, s, s * 7, 1);
    point(msg, s % 67, (uint64_t)s << 48, s, 1);
  }
}
/* E: all messages of one and two (three) bytes; constant bytes; two values at one place */
static void tiny(void) {
  for (unsigned n = 1; n <= (thorough ? 3u : 2u); ++n)
    for (uint32_t v = 0; v < UINT32_C(1) << 8 * n; ++v) {
      uint8_t b[4] = {(uint8_t)v, (uint8_t)(v >> 8), (uint8_t)(v >> 16), 0};
      point(b, n, 0, 0, 1u << (v & 7));
      if (n < 3)
        point(b, n, seeds[4], seeds[1], 1u << (v >> 3 & 7) | ATEND);
    }
  for (unsigned c = 0; c < 256; ++c)
    for (size_t len = 0; len <= 200; len < 68 ? ++len : (len += 7)) {
      memset(msg, (int)c, len);
      point(msg, len, c, len, 1u << (c & 7));
    }
  /* every value of a byte at every position */
  for (size_t len = 1; len <= 68; ++len) {
    tape(msg, len, 4);
    for (size_t at = 0; at < len; ++at) {
      uint8_t keep = msg[at];
      for (unsigned c = 0; c < 256; c += thorough || len <= 34 ? 1 : 5) {
        msg[at] = (uint8_t)c;
        point(msg, len, 5, 6, 1u << (at & 7));
      }
      msg[at] = keep;
    }
  }
  /* two equal words in otherwise distinct ones */
  for (size_t len = 16; len <= 160; len += 8) {
    for (size_t i = 0; i + 8 <= len; i += 8)
      for (size_t j = 0; j < i; j += 8) {
        tape(msg, len, 5);
        memcpy(msg + i, msg + j, 8);
        point(msg, len, 9, 8, 1);
      }
  }
}
/* F: operands of the multiplications steered onto arithmetic edges */
static void edges(void) {
  static const uint32_t h[] = {0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x0000ffff, 0xffff0000, 0x00010000};
  enum { NH = sizeof h / sizeof *h };
  static const size_t prefix[] = {0, 32, 64, 128, 160};
  unsigned W = E->w32 ? 4 : 8;
  size_t T = E->w32 ? 16 : 32; /* longest tail */
  for (unsigned pi = 0; pi < 5; ++pi) {
    if (E->aes && pi && pi < 3)
      continue;
    size_t pre = prefix[pi];
    for (size_t tail = 1; tail <= T; ++tail) {
      size_t len = pre + tail;
      if (pre && tail == T)
        continue;
      if (pi > 1 && !thorough && tail % W > 1)
        continue;
      unsigned words = (unsigned)((tail + W - 1) / W);
      for (unsigned k = 0; k < words; ++k) {
        unsigned wn = tail - k * W < W ? (unsigned)(tail - k * W) : W;
        for (unsigned i = 0; i < NH; ++i)
          for (unsigned j = 0; j < NH; ++j) {
            uint64_t target = E->w32 ? h[i] ^ (j ? h[j] << 1 : 0) : (uint64_t)h[i] << 32 | h[j];
            tape(msg, len, 4);
            for (int acc = 0; acc < 2; ++acc) {
              uint64_t w = target;
              if (acc) {
                ref_rec_n = 0;
                E->ref(msg, len, seeds[4], seeds[1]);
                if (k >= ref_rec_n)
                  break;
                w = target - ref_rec[k];
              }
              uint8_t b[8];
              memcpy(b, &w, 8);
              for (int order = 0; order < 2; ++order) {
                uint8_t keep[8];
                memcpy(keep, msg + pre + k * W, wn);
                for (unsigned z = 0; z < wn; ++z)
                  msg[pre + k * W + z] = order ? b[wn - 1 - z] : b[z];
                point(msg, len, seeds[4], seeds[1], 1u << (k & 7));
                memcpy(msg + pre + k * W, keep, wn);
              }
            }
          }
      }
    }
  }
  /* edge words inside the blocks */
  for (size_t len = 2 * T; len <= 8 * T; len += T)
    for (size_t at = 0; at + 8 <= len && at < 128; at += W)
      for (unsigned i = 0; i < NH; ++i)
        for (unsigned j = 0; j < NH; ++j) {
          uint64_t w = (uint64_t)h[i] << 32 | h[j];
          tape(msg, len, 4);
          memcpy(msg + at, &w, 8);
          point(msg, len, seeds[2], seeds[3], 1);
        }
}
/* G: constants found in the code under check, as lengths, seeds and data */
static void constants(void) {
  tape(msg, sizeof msg, 4);
  for (size_t i = 0; i < nmined; ++i) {
    uint64_t c = mined[i];
    for (unsigned m = 1; m <= 128; m *= 2)
      if (c && c < sizeof msg / 2 / m)
        for (int d = -1; d <= 1; ++d) {
          size_t len = (size_t)(c * m) + d;
          if (m > 1 && len > 1 << 20)
            continue;
          if (len <= 1100 && m == 1 && !(d == 0))
            continue;
          point(msg, len, seeds[2], seeds[4], 1u << (i & 7));
          if (!d)
            point(msg, len, seeds[0], seeds[0], 1u << 3);
        }
  }
  for (size_t i = 0; i < nmined; ++i) {
    uint64_t c = mined[i];
    uint64_t v[] = {c, __builtin_bswap64(c), ~c, -c, c << 32, (uint64_t)(uint32_t)c, c << 32 | (uint32_t)c,
                    (uint64_t)__builtin_bswap32((uint32_t)c), c << 56, c << 48, c >> 3, c << 3};
    unsigned nv = sizeof v / sizeof *v;
    for (unsigned k = 0; k < nv; ++k) {
      static const size_t ls[] = {0, 1, 3, 4, 8, 12, 15, 16, 24, 31, 32, 33, 48, 63, 64, 96, 100, 127, 128, 129, 200, 256, 300};
      tape(msg, 300, 4);
      for (unsigned n = 0; n < sizeof ls / sizeof *ls; ++n) {
        point(msg, ls[n], v[k], seeds[2], 1);
        if (E->two_seeds) {
          point(msg, ls[n], seeds[2], v[k], 1);
          point(msg, ls[n], v[k], v[k], 1);
        }
      }
      /* as a data word */
      if (k < 8)
        for (unsigned n = 3; n < sizeof ls / sizeof *ls; ++n) {
          size_t len = ls[n];
          unsigned wn = k == 5 || k == 7 ? 4 : 8;
          for (size_t at = 0; at < len && at < 140; at += len <= 33 ? 1 : wn) {
            uint8_t keep[8];
            size_t m = len - at < wn ? len - at : wn;
            memcpy(keep, msg + at, m);
            memcpy(msg + at, &v[k], m);
            point(msg, len, seeds[4], seeds[0], 1u << (at & 7));
            memcpy(msg + at, keep, m);
          }
        }
    }
    if (c < 256 || (int64_t)c > -129)
      for (size_t len = 1; len <= 130; ++len) {
        /* a byte value at the ends */
        tape(msg, len, 4);
        msg[len - 1] = (uint8_t)c;
        point(msg, len, 3, 4, 1);
        msg[0] = (uint8_t)c;
        point(msg, len, 3, 4, 1);
      }
  }
}

/* the inputs of the published vectors (the model reproduces the vectors, see ref_validate) */
static uint64_t golden_replayed;
static void golden(void) {
  static const uint8_t pattern[64] = {0,    1,    2,    3,    4,    5,    6,    7,    0xFF, 0x7F, 0x3F, 0x1F, 0xF,  8,    16,   32,
                                      64,   0x80, 0xFE, 0xFC, 0xF8, 0xF0, 0xE0, 0xC0, 0xFD, 0xFB, 0xF7, 0xEF, 0xDF, 0xBF, 0x55, 0xAA,
                                      11,   17,   19,   23,   29,   37,   42,   43,   'a',  'b',  'c',  'd',  'e',  'f',  'g',  'h',
                                      'i',  'j',  'k',  'l',  'm',  'n',  'o',  'p',  'q',  'r',  's',  't',  'u',  'v',  'w',  'x'};
  uint8_t lng[512];
  uint64_t seed = 1, before = calls;
  for (unsigned i = 0; i < 512; ++i)
    lng[i] = (uint8_t)i;
  point(pattern, 0, 0, 0, 1);
  point(pattern, 0, ~UINT64_C(0), ~UINT64_C(0), 1);
  point(pattern, 64, 0, 0, 1);
  for (unsigned i = 1; i < 64; ++i, seed <<= 1)
    point(pattern, i, seed, seed, 1);
  seed = ~UINT64_C(0);
  for (unsigned i = 1; i <= 7; ++i, seed <<= 1)
    point(pattern + i, 64 - i, seed << 1, seed << 1, 1u << i);
  for (unsigned i = 0; i <= 7; ++i)
    point(lng + i, 128 + i * 17, seed, seed, 1u << i);
  golden_replayed += calls - before;
}

int main(int argc, char **argv) {
  unsigned checked = 0;
  if (argc < 4)
    return 2;
  guard_setup();
  thorough = !strcmp(argv[2], "thorough");
  if (ref_validate(&checked)) {
    printf("ERROR reference model disagrees with the golden vectors\n");
    return 2;
  }
  arena_bytes = sizeof msg + 4 * PG;
  arena = guarded(arena_bytes);
  FILE *f = fopen(argv[3], "r");
  if (f) {
    mined = calloc(100000, 8);
    while (nmined < 100000 && fscanf(f, "%" SCNx64, &mined[nmined]) == 1)
      ++nmined;
    fclose(f);
  }
  char list[400];
  snprintf(list, sizeof list, ",%s,", argv[1]);
  unsigned done = 0;
  for (unsigned i = 0; i < NALL; ++i) {
    char key[64];
    snprintf(key, sizeof key, ",%s,", all[i].name);
    if (!strstr(list, key))
      continue;
    E = &all[i];
    if (!cpu_can(E)) {
      printf("NOTE %s skipped: not supported by this CPU\n", E->name);
      continue;
    }
    ++done;
    golden();
    lengths();
    related();
    big();
    bitwalk();
    seedwalk();
    tiny();
    edges();
    constants();
  }
  cur_fn = NULL;
  stat_u("functions", done);
  stat_u("states", points.n);
  stat_u("transitions", calls);
  stat_u("golden", golden_replayed);
  stat_u("mined_constants", nmined);
  printf("DONE\n");
  return nfails ? 1 : 0;
}
