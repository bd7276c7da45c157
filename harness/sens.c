/* Sensitivity explorer (P19): from every base point, all single-bit neighbours
 * (message bits, seed bits) and all lengthenings by 1..64 zero bytes and by any
 * one byte must lead to another result.
 *   sens <quick|thorough> <number of the entry point>
 */
#include "entries.h"
static uint64_t states, transitions;
static entry *E;
static int thorough;
static uint8_t *arena;
static uint8_t m[1 << 17];

static res call(const uint8_t *p, size_t len, uint64_t x, uint64_t y) {
  cur_fn = E->name, cur_len = len, cur_seed = x, cur_seed2 = y, cur_ptr = (uintptr_t)p, cur_tick = cur_tick + 1;
  ++transitions;
  return E->impl(p, len, x, y);
}
static void differ(res a, res b, const char *what, size_t i, size_t len, uint64_t x, uint64_t y, unsigned t) {
  if (a.lo == b.lo || (E->wide && a.hi == b.hi))
    fail("%s: %s %zu does not change the %s: len=%zu seeds 0x%" PRIx64 ",0x%" PRIx64 " data pattern %u, 0x%016" PRIx64 ":%016" PRIx64, E->name, what, i,
         a.lo == b.lo ? (E->wide ? "low half" : "result") : "high half", len, x, y, t, a.hi, a.lo);
}
static void tape(uint8_t *p, size_t n, unsigned t) {
  uint64_t s = 4711 + t;
  for (size_t i = 0; i < n; ++i)
    p[i] = t == 0 ? (uint8_t)splitmix(&s) : t == 1 ? 0 : t == 2 ? 0xff : (uint8_t)(i * 3 + 1);
}
static void base(size_t len, unsigned t, uint64_t x, uint64_t y, unsigned off, int bits) {
  uint8_t *p = arena + 64 + off;
  memcpy(p, m, len);
  memset(p + len, 0, 72);
  res r = call(p, len, x, y);
  ++states;
  if (bits)
    for (size_t b = 0; b < len * 8; ++b) {
      if (bits == 2 && b > 1100 && b < len * 8 - 1100 && b % 61)
        continue;
      p[b / 8] ^= (uint8_t)(1 << b % 8);
      differ(r, call(p, len, x, y), "flipping message bit", b, len, x, y, t);
      p[b / 8] ^= (uint8_t)(1 << b % 8);
    }
  for (unsigned b = 0; b < 64; ++b) {
    differ(r, call(p, len, x ^ UINT64_C(1) << b, y), "flipping seed bit", b, len, x, y, t);
    if (E->two_seeds)
      differ(r, call(p, len, x, y ^ UINT64_C(1) << b), "flipping second-seed bit", b, len, x, y, t);
  }
  for (unsigned k = 1; k <= (len < 300 ? 64 : 17); ++k)
    differ(r, call(p, len + k, x, y), "number of appended zero bytes", k, len, x, y, t);
  if (len < 300) {
    for (unsigned c = 1; c < 256; ++c) {
      p[len] = (uint8_t)c;
      differ(r, call(p, len + 1, x, y), "appending byte", c, len, x, y, t);
    }
    p[len] = 0;
  }
}
int main(int argc, char **argv) {
  if (argc < 2)
    return 2;
  guard_setup();
  thorough = !strcmp(argv[1], "thorough");
  arena = guarded(1 << 18);
  static const uint64_t sd[][2] = {{0, 0}, {UINT64_C(0x0123456789ABCDEF), UINT64_C(0xFEDCBA9876543210)}, {~UINT64_C(0), 1}};
  unsigned n = 0;
  for (unsigned i = 0; i < NALL; ++i) {
    E = &all[i];
    if (!cpu_can(E) || (argc > 2 && i != (unsigned)atoi(argv[2])))
      continue;
    ++n;
    for (unsigned t = 0; t < 4; ++t) {
      tape(m, sizeof m, t);
      for (size_t len = 0; len <= (thorough ? 600 : 230); ++len)
        for (unsigned s = 0; s < 3; ++s)
          base(len, t, sd[s][0], sd[s][1], t == 0 ? s * 2u : t == 1 ? 4u : (unsigned)(len + s * 3 + t) & 7, s == 0 || (s == 1 && t == 0) || thorough);
      for (size_t len = 231; len < 1300; len += thorough ? 1 : 7 + t)
        base(len, t, sd[1][0], sd[1][1], t ? (unsigned)len & 7 : 0, t == 0 || (t == 1 && len % 3 == 0));
      for (unsigned k = 11; k <= 16; ++k)
        for (int d = -2; d <= 2; ++d)
          base(((size_t)1 << k) + (size_t)d, t, sd[1][0], sd[1][1], t ? k & 7 : 0, t < 2 ? 2 : 0);
    }
    /* all lengths of one repeated byte give different results */
    for (unsigned t = 1; t < 3; ++t) {
      fpset s = {0};
      size_t N = thorough ? 60000 : 12000;
      tape(arena, 65000, t);
      for (size_t len = 0; len <= N; ++len) {
        res r = call(arena, len, 0, 0);
        ++states;
        if (!fp_add(&s, r.lo ? r.lo : 1))
          fail("%s: two lengths up to %zu of repeated byte %u give the same result 0x%016" PRIx64, E->name, len, arena[0], r.lo);
      }
      free(s.v);
    }
    sample("%s: %" PRIu64 " calls compared so far", E->name, transitions);
  }
  cur_fn = NULL;
  stat_u("states", states);
  stat_u("transitions", transitions);
  stat_u("traces", states);
  printf("DONE\n");
  return nfails ? 1 : 0;
}
