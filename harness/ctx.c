/* Context life-cycle explorer (P14).
 *
 *   ctx <quick|thorough>
 *
 * World: two contexts in slots between canaries (optionally against an
 * inaccessible page), each together with the reference model of what has been
 * fed to it.  Exhaustive search over all sequences of
 *   init(slot, seeds)  update(slot, chunk)  final64(slot)  final128(slot)  copy(slot -> slot)
 * up to a depth.  A slot may be initialised whatever it held before (raw
 * garbage, a finalised context, a running stream); other operations need a
 * running stream.  After every operation: result as the model says, the other
 * slot and all canaries unchanged.
 */
#include "common.h"
#include "../ref/ref.h"
#include "t1ha.h"

#define CTX ((size_t)sizeof(t1ha_context_t))
static int thorough;
static uint64_t states, transitions, finals;
static uint8_t *slotmem[2]; /* page-aligned area of each slot */
static t1ha_context_t *slot[2];
static size_t slotoff[2];
static uint8_t data[4096];

typedef struct { int live; ref_stream m; } model;
typedef struct { model m[2]; uint8_t raw[2][sizeof(t1ha_context_t)]; } world;
static fpset seen;

static const uint64_t sd[][2] = {{0, 0}, {UINT64_C(0x0123456789ABCDEF), UINT64_C(0xFEDCBA9876543210)}, {7, UINT64_C(1) << 63}};
static const size_t chunks[] = {0, 1, 7, 31, 32, 33, 70, 128};
#define NCH (sizeof chunks / sizeof *chunks)
static unsigned nsd, nch;

static char path[400];
static void push(size_t at, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(path + at, sizeof path - at, fmt, ap);
  va_end(ap);
}
static uint8_t can(int s, size_t i) { return (uint8_t)(0xC3 + 31 * s + i * 13); }
static void canaries(int s) {
  for (size_t i = 0; i < PG; ++i)
    if (i < slotoff[s] || i >= slotoff[s] + CTX)
      slotmem[s][i] = can(s, i);
}
static void near_ok(int s) {
  size_t o = slotoff[s], lo = o > 96 ? o - 96 : 0, hi = o + CTX + 96 < PG ? o + CTX + 96 : PG;
  for (size_t i = lo; i < hi; ++i)
    if ((i < o || i >= o + CTX) && slotmem[s][i] != can(s, i)) {
      fail("wrote outside of the context, at context%+ld, after %s", (long)i - (long)o, path);
      slotmem[s][i] = can(s, i);
    }
}
static void all_ok(int s) {
  for (size_t i = 0; i < PG; ++i)
    if ((i < slotoff[s] || i >= slotoff[s] + CTX) && slotmem[s][i] != can(s, i)) {
      fail("wrote outside of the context, at context%+ld, somewhere before %s", (long)i - (long)slotoff[s], path);
      slotmem[s][i] = can(s, i);
    }
}
static void load(const world *w) {
  memcpy(slot[0], w->raw[0], CTX);
  memcpy(slot[1], w->raw[1], CTX);
}
static void step_done(const world *before, world *w, int s) {
  ++transitions;
  near_ok(0), near_ok(1);
  if (memcmp(slot[!s], before->raw[!s], CTX))
    fail("an operation on one context changed the other: %s", path);
  memcpy(w->raw[s], slot[s], CTX);
}
static void explore(const world *w, unsigned depth, size_t at);
static void go(world *n, unsigned depth, size_t at) {
  uint64_t h = 0; /* fingerprint of the world (raw memory of both contexts and both models) */
  const uint8_t *q = (const uint8_t *)n;
  for (size_t i = 0; i + 8 <= sizeof *n; i += 8) {
    uint64_t v;
    memcpy(&v, q + i, 8);
    h = fp_mix(h, v);
  }
  if (!fp_add(&seen, fp_mix(h, depth + 1)))
    return;
  ++states;
  if (depth)
    explore(n, depth - 1, at);
}
static void explore(const world *w, unsigned depth, size_t at) {
  for (int s = 0; s < 2; ++s) {
    for (unsigned i = 0; i < nsd; ++i) {
      world n = *w;
      load(w);
      push(at, "init(%c,%u) ", 'A' + s, i);
      cur_fn = "t1ha2_init", cur_tick = cur_tick + 1;
      t1ha2_init(slot[s], sd[i][0], sd[i][1]);
      memset(&n.m[s], 0, sizeof n.m[s]);
      n.m[s].live = 1;
      ref_stream_init(&n.m[s].m, sd[i][0], sd[i][1]);
      step_done(w, &n, s);
      go(&n, depth, at + strlen(path + at));
    }
    if (!w->m[s].live)
      continue;
    for (unsigned i = 0; i < nch; ++i) {
      world n = *w;
      load(w);
      push(at, "update(%c,%zu) ", 'A' + s, chunks[i]);
      const uint8_t *p = data + (w->m[s].m.total * 7 + (unsigned)s * 500) % 2000;
      cur_fn = "t1ha2_update", cur_len = chunks[i], cur_tick = cur_tick + 1;
      t1ha2_update(slot[s], p, chunks[i]);
      ref_stream_feed(&n.m[s].m, p, chunks[i]);
      step_done(w, &n, s);
      go(&n, depth, at + strlen(path + at));
    }
    for (int wide = 0; wide < 2; ++wide) {
      world n = *w;
      load(w);
      push(at, "final%d(%c) ", wide ? 128 : 64, 'A' + s);
      uint64_t box[3] = {11, 22, 33}, got;
      cur_fn = "t1ha2_final", cur_tick = cur_tick + 1;
      got = t1ha2_final(slot[s], wide ? &box[1] : NULL);
      ++finals;
      if (wide) {
        ref128 r = ref_stream_final128(&w->m[s].m);
        if (got != r.lo || box[1] != r.hi)
          fail("%s= %016" PRIx64 ":%016" PRIx64 ", want %016" PRIx64 ":%016" PRIx64, path, box[1], got, r.hi, r.lo);
      } else {
        uint64_t r = ref_stream_final64(&w->m[s].m);
        if (got != r)
          fail("%s= %016" PRIx64 ", want %016" PRIx64, path, got, r);
      }
      if (box[0] != 11 || box[2] != 33 || (!wide && box[1] != 22))
        fail("%swrote next to extra_result", path);
      if (finals == 1000 || finals == 100000)
        sample("%s -> %016" PRIx64, path, got);
      memset(&n.m[s], 0, sizeof n.m[s]);
      step_done(w, &n, s);
      go(&n, depth, at + strlen(path + at));
    }
    { /* copy to the other slot */
      world n = *w;
      load(w);
      push(at, "copy(%c->%c) ", 'A' + s, 'A' + !s);
      if (depth & 1)
        *slot[!s] = *slot[s];
      else
        memcpy(slot[!s], slot[s], CTX);
      n.m[!s] = w->m[s];
      memcpy(n.raw[!s], slot[!s], CTX);
      go(&n, depth, at + strlen(path + at));
    }
  }
  path[at] = 0;
}

int main(int argc, char **argv) {
  if (argc < 2)
    return 2;
  guard_setup();
  thorough = !strcmp(argv[1], "thorough");
  slotmem[0] = guarded(PG);
  slotmem[1] = guarded(PG);
  uint64_t s = 5;
  for (unsigned i = 0; i < sizeof data; ++i)
    data[i] = (uint8_t)splitmix(&s);
  const size_t al = _Alignof(t1ha_context_t);
  /* main search: first slot against the page end, second at the page start */
  struct { size_t o0, o1; uint8_t f0, f1; unsigned depth, nsd, nch; } runs[] = {
      {PG - CTX, 0, 0x00, 0xff, thorough ? 6 : 5, 2, NCH},
      {0, PG - CTX, 0xA5, 0x00, thorough ? 6 : 5, 3, NCH},
      {PG - CTX, PG - CTX, 0xff, 0x5A, thorough ? 10 : 8, 1, 3},
      {1024 + al, 1024 + 3 * al, 0xff, 0xff, thorough ? 5 : 4, 3, NCH},
  };
  for (unsigned r = 0; r < sizeof runs / sizeof *runs; ++r) {
    free(seen.v);
    memset(&seen, 0, sizeof seen);
    slotoff[0] = runs[r].o0 / al * al, slotoff[1] = runs[r].o1 / al * al;
    for (int k = 0; k < 2; ++k) {
      slot[k] = (t1ha_context_t *)(slotmem[k] + slotoff[k]);
      canaries(k);
    }
    nsd = runs[r].nsd, nch = (unsigned)runs[r].nch;
    world w;
    memset(&w, 0, sizeof w);
    memset(w.raw[0], runs[r].f0, CTX);
    memset(w.raw[1], runs[r].f1, CTX);
    snprintf(cur_desc, sizeof cur_desc, "life-cycle search %u", r);
    explore(&w, runs[r].depth - 1, 0);
    all_ok(0), all_ok(1);
  }
  /* every placement of a context in a page, every initial fill, a full life with re-use after final */
  for (size_t off = 0; off + CTX <= PG; off += al)
    for (unsigned f = 0; f < 256; f += off < 256 || off + CTX + 256 > PG ? 1 : 85) {
      slotoff[0] = off;
      slot[0] = (t1ha_context_t *)(slotmem[0] + off);
      if (!f)
        canaries(0);
      memset(slot[0], (int)f, CTX);
      for (unsigned round = 0; round < 3; ++round) {
        snprintf(path, sizeof path, "context at page offset %zu, filled with 0x%02x, use number %u: ", off, f, round);
        ref_stream m;
        size_t a = (f * 5 + round * 11 + off) % 75, b = (f + round * 37) % 99;
        cur_fn = "life";
        t1ha2_init(slot[0], off, f);
        ref_stream_init(&m, off, f);
        t1ha2_update(slot[0], data + f, a), ref_stream_feed(&m, data + f, a);
        t1ha2_update(slot[0], data + 99, b), ref_stream_feed(&m, data + 99, b);
        uint64_t hi = 0, got;
        ++transitions, ++finals, ++states;
        if (round == 1) {
          ref128 want = ref_stream_final128(&m);
          got = t1ha2_final(slot[0], &hi);
          if (got != want.lo || hi != want.hi)
            fail("%swrong 128-bit result", path);
        } else if (t1ha2_final(slot[0], NULL) != ref_stream_final64(&m))
          fail("%swrong result", path);
        near_ok(0);
      }
    }
  /* extra_result anywhere aligned, also inside memory adjacent to the context, and against guards */
  uint8_t *x = guarded(PG);
  for (unsigned k = 0; k < 2; ++k)
    for (size_t n = 0; n < 70; ++n) {
      uint64_t *e = (uint64_t *)(k ? x + PG - 8 : x);
      t1ha_context_t c;
      ref_stream m;
      cur_fn = "t1ha2_final", cur_len = n;
      t1ha2_init(&c, n, k);
      ref_stream_init(&m, n, k);
      t1ha2_update(&c, data, n), ref_stream_feed(&m, data, n);
      ref128 want = ref_stream_final128(&m);
      uint64_t got = t1ha2_final(&c, e);
      ++transitions, ++finals;
      if (got != want.lo || *e != want.hi)
        fail("final128 with the destination at a page border, total %zu", n);
    }
  /* many contexts used in turns */
  enum { MANY = 200 };
  static t1ha_context_t many[MANY];
  static ref_stream mm[MANY];
  memset(many, 0xEE, sizeof many);
  for (unsigned i = 0; i < MANY; ++i)
    t1ha2_init(&many[i], i, ~i), ref_stream_init(&mm[i], i, ~i);
  for (unsigned r = 0; r < 40; ++r)
    for (unsigned i = 0; i < MANY; ++i) {
      size_t n = (i * 7 + r * 13) % 81;
      t1ha2_update(&many[i], data + r, n), ref_stream_feed(&mm[i], data + r, n);
      t1ha_context_t t = many[i];
      ++transitions, ++finals, ++states;
      if (t1ha2_final(&t, NULL) != ref_stream_final64(&mm[i]))
        fail("context %u of %u used in turns gives a wrong result at total %" PRIu64, i, MANY, mm[i].total);
    }
  cur_fn = NULL;
  stat_u("states", states);
  stat_u("transitions", transitions);
  stat_u("traces", finals);
  printf("DONE\n");
  return nfails ? 1 : 0;
}
