/* Stream explorer.
 *
 *   stream <self|ref> <quick|thorough> <mined constants file>
 *
 * Explicit-state search over update histories of the real code.  A state is the
 * complete memory of the context plus the number of message bytes fed so far;
 * a transition feeds the next k bytes (k = 0..rest) from an address of a chosen
 * alignment.  States are merged only when every byte of the context is equal, so
 * merged states have the same futures.  In every state both finals are taken on
 * copies and compared
 *   self: with init; one update(prefix); final  of the code itself (P03)
 *   ref:  with the reference model of the prefix (P04)
 */
#include "common.h"
#include "../ref/ref.h"
#include "t1ha.h"

static int use_ref, thorough;
static uint64_t states, transitions, finals;
static uint64_t mined[100000];
static size_t nmined;
static uint8_t *arena;
#define ARENA (1u << 23)
#define CTX ((size_t)sizeof(t1ha_context_t))

static uint8_t tape[ARENA / 2];
static void fill_tape(unsigned t, size_t n) {
  uint64_t s = 99 + t;
  for (size_t i = 0; i < n; ++i)
    switch (t) {
    case 0: tape[i] = (uint8_t)splitmix(&s); break;
    case 1: tape[i] = 0; break;
    case 2: tape[i] = 0xff; break;
    default: tape[i] = (uint8_t)((i % 32) * 7 + 1); break;
    }
}

typedef struct { uint64_t f64, lo, hi; } fin;
static fin finals_of(const t1ha_context_t *c) {
  t1ha_context_t x;
  fin f;
  cur_fn = "t1ha2_final";
  cur_tick = cur_tick + 1;
  memcpy(&x, c, CTX);
  f.f64 = t1ha2_final(&x, NULL);
  memcpy(&x, c, CTX);
  f.hi = ~UINT64_C(0);
  f.lo = t1ha2_final(&x, &f.hi);
  finals += 2;
  return f;
}
static fin expected(size_t n, uint64_t sx, uint64_t sy) {
  fin f;
  if (use_ref) {
    f.f64 = ref_t1ha2_stream(tape, n, sx, sy);
    ref128 r = ref_t1ha2_stream128(tape, n, sx, sy);
    f.lo = r.lo, f.hi = r.hi;
    return f;
  }
  t1ha_context_t c;
  memset(&c, 0, CTX);
  t1ha2_init(&c, sx, sy);
  cur_fn = "t1ha2_update";
  t1ha2_update(&c, tape, n);
  f = finals_of(&c);
  return f;
}

/* feed bytes from an address with the wanted alignment, as close to a guard page as possible */
static void feed(t1ha_context_t *c, const uint8_t *p, size_t k, int align) {
  const uint8_t *at = p;
  if (align >= 0) {
    uint8_t *q = arena + ARENA - k;
    q -= ((uintptr_t)q - (unsigned)align) & 7;
    memcpy(q, p, k);
    at = q;
  }
  if (!k && align == 1)
    at = NULL;
  cur_fn = "t1ha2_update", cur_len = k, cur_ptr = (uintptr_t)at, cur_tick = cur_tick + 1;
  t1ha2_update(c, at, k);
  ++transitions;
}

/*------------------------------------------------------------------ search */
typedef struct { uint8_t *ctx; uint32_t *parent; uint16_t *chunk; uint32_t n, cap; } layer;
static layer *L;
static void path(size_t pos, uint32_t idx, char *out, size_t max) {
  char tmp[64][12];
  int n = 0;
  size_t p = pos;
  uint32_t i = idx;
  out[0] = 0;
  while (n < 64) {
    uint32_t par = L[p].parent[i];
    if (par == UINT32_MAX)
      break;
    unsigned k = L[p].chunk[i];
    sprintf(tmp[n++], "%u", k);
    p -= k;
    i = par;
  }
  while (n-- && strlen(out) + 14 < max) {
    strcat(out, tmp[n]);
    if (n)
      strcat(out, "+");
  }
}
static uint32_t put(size_t pos, const t1ha_context_t *c, uint32_t parent, unsigned chunk) {
  layer *l = &L[pos];
  for (uint32_t i = 0; i < l->n; ++i)
    if (!memcmp(l->ctx + CTX * i, c, CTX))
      return UINT32_MAX;
  if (l->n == l->cap) {
    l->cap = l->cap ? l->cap * 2 : 8;
    l->ctx = realloc(l->ctx, CTX * l->cap);
    l->parent = realloc(l->parent, 4 * l->cap);
    l->chunk = realloc(l->chunk, 2 * l->cap);
  }
  memcpy(l->ctx + CTX * l->n, c, CTX);
  l->parent[l->n] = parent;
  l->chunk[l->n] = (uint16_t)chunk;
  ++states;
  return l->n++;
}
static uint64_t capped, max_layer;
static void search(size_t N, uint64_t sx, uint64_t sy, int nalign, const int *aligns, uint32_t cap) {
  L = calloc(N + 1, sizeof *L);
  static const uint8_t junk[3] = {0, 0xff, 0xA5};
  for (unsigned j = 0; j < 3; ++j) {
    t1ha_context_t c;
    memset(&c, junk[j], CTX);
    cur_fn = "t1ha2_init", cur_seed = sx, cur_seed2 = sy;
    t1ha2_init(&c, sx, sy);
    put(0, &c, UINT32_MAX, 0);
  }
  for (size_t pos = 0; pos <= N; ++pos) {
    fin want = expected(pos, sx, sy);
    for (uint32_t i = 0; i < L[pos].n; ++i) { /* grows while empty updates make new states */
      if (i >= cap) {
        ++capped;
        break;
      }
      t1ha_context_t c;
      memcpy(&c, L[pos].ctx + CTX * i, CTX);
      fin got = finals_of(&c);
      if (got.f64 != want.f64 || got.lo != want.lo || got.hi != want.hi) {
        char b[400];
        path(pos, i, b, sizeof b);
        fail("final after updates %s (total %zu, seeds 0x%" PRIx64 ",0x%" PRIx64 ", first data byte 0x%02x) = %016" PRIx64 " / %016" PRIx64
             ":%016" PRIx64 ", want %016" PRIx64 " / %016" PRIx64 ":%016" PRIx64, *b ? b : "(none)", pos, sx, sy, tape[0], got.f64, got.hi,
             got.lo, want.f64, want.hi, want.lo);
      }
      if ((states & 0x3fff) == 1 && i == 0) {
        char b[400];
        path(pos, i, b, sizeof b);
        sample("history %s -> %016" PRIx64, b, got.f64);
      }
      for (size_t k = 0; k <= N - pos; ++k)
        for (int a = 0; a < nalign; ++a) {
          memcpy(&c, L[pos].ctx + CTX * i, CTX);
          feed(&c, tape + pos, k, aligns[a]);
          put(pos + k, &c, i, (unsigned)k);
        }
    }
    if (L[pos].n > max_layer)
      max_layer = L[pos].n;
  }
  for (size_t pos = 0; pos <= N; ++pos)
    free(L[pos].ctx), free(L[pos].parent), free(L[pos].chunk);
  free(L);
}

/* all sequences of up to depth chunks from an alphabet of sizes that reach large lengths */
static size_t sizes[400];
static unsigned nsizes;
static uint64_t big_sx = 5, big_sy = 77;
static void deep(const t1ha_context_t *c, const ref_stream *r, size_t pos, unsigned depth, size_t limit, char *desc, size_t dl) {
  fin got = finals_of(c);
  if (use_ref) {
    uint64_t w = ref_stream_final64(r);
    ref128 v = ref_stream_final128(r);
    if (got.f64 != w || got.lo != v.lo || got.hi != v.hi)
      fail("final after updates %s differs from the reference: %016" PRIx64 " want %016" PRIx64, desc, got.f64, w);
  } else {
    static struct { size_t pos; fin f; } memo[4096];
    unsigned h = (unsigned)(pos * 2654435761u >> 20) & 4095;
    if (!memo[h].pos || memo[h].pos != pos + 1) {
      memo[h].pos = pos + 1;
      memo[h].f = expected(pos, big_sx, big_sy);
    }
    if (memcmp(&got, &memo[h].f, sizeof got))
      fail("final after updates %s differs from that after one update: %016" PRIx64 " want %016" PRIx64, desc, got.f64, memo[h].f.f64);
  }
  ++states;
  if (!depth)
    return;
  for (unsigned i = 0; i < nsizes; ++i) {
    size_t k = sizes[i];
    if (pos + k > limit)
      continue;
    t1ha_context_t n;
    memcpy(&n, c, CTX);
    feed(&n, tape + pos, k, (int)(i & 7));
    ref_stream rn = *r;
    if (use_ref)
      ref_stream_feed(&rn, tape + pos, k);
    size_t l = dl + (size_t)sprintf(desc + dl, "%s%zu", dl ? "+" : "", k);
    deep(&n, &rn, pos + k, depth - 1, limit, desc, l);
    desc[dl] = 0;
  }
}
static void run_deep(unsigned depth, size_t limit) {
  t1ha_context_t c;
  ref_stream r;
  char desc[400] = "";
  memset(&c, 0x5a, CTX);
  t1ha2_init(&c, big_sx, big_sy);
  ref_stream_init(&r, big_sx, big_sy);
  deep(&c, &r, 0, depth, limit, desc, 0);
}
/* one update of each size repeated */
static void run_repeat(size_t N) {
  for (size_t k = 1; k <= 257; ++k) {
    t1ha_context_t c;
    memset(&c, 0x5a, CTX);
    t1ha2_init(&c, big_sx, big_sy);
    size_t pos = 0;
    for (unsigned n = 0; pos + k <= N && n < 3000; ++n) {
      feed(&c, tape + pos, k, (int)((pos >> 1) & 7));
      pos += k;
      if ((n & (n - 1)) == 0 || pos % 4096 < k || (n < 20)) {
        fin got = finals_of(&c), want = expected(pos, big_sx, big_sy);
        ++states;
        if (memcmp(&got, &want, sizeof got))
          fail("final after %u updates of %zu bytes = %016" PRIx64 " want %016" PRIx64, n + 1, k, got.f64, want.f64);
      }
    }
  }
}

int main(int argc, char **argv) {
  if (argc < 4)
    return 2;
  guard_setup();
  use_ref = !strcmp(argv[1], "ref");
  thorough = !strcmp(argv[2], "thorough");
  FILE *f = fopen(argv[3], "r");
  if (f) {
    while (nmined < 100000 && fscanf(f, "%" SCNx64, &mined[nmined]) == 1)
      ++nmined;
    fclose(f);
  }
  unsigned checked;
  if (ref_validate(&checked)) {
    printf("ERROR reference\n");
    return 2;
  }
  arena = guarded(ARENA);
  static const int natural[] = {-1}, all8[] = {0, 1, 2, 3, 4, 5, 6, 7}, some[] = {0, 1, 4};
  static const uint64_t sd[][2] = {{0, 0}, {UINT64_C(0x0123456789ABCDEF), UINT64_C(0xFEDCBA9876543210)}, {1, 0}, {~UINT64_C(0), UINT64_C(1) << 63}};
  for (unsigned s = 0; s < 4; ++s)
    for (unsigned t = 0; t < 4; ++t) {
      fill_tape(t, 4096);
      snprintf(cur_desc, sizeof cur_desc, "tape %u seeds %u", t, s);
      if (s == 0 && t == 0)
        search(thorough ? 1300 : 420, sd[s][0], sd[s][1], 1, natural, 300);
      if (s == 1 && t == 0)
        search(thorough ? 300 : 140, sd[s][0], sd[s][1], 8, all8, 300);
      search(thorough ? 260 : 100, sd[s][0], sd[s][1], 3, some, 300);
    }
  fill_tape(0, sizeof tape);
  static const size_t base[] = {0, 1, 4, 8, 31, 32, 33, 63, 64, 96, 127, 255, 256, 1000, 4064, 4095, 4096, 4097, 65535, 65536, 65537};
  for (unsigned i = 0; i < sizeof base / sizeof *base; ++i)
    sizes[nsizes++] = base[i];
  run_deep(thorough ? 4 : 3, 150000);
  /* sizes made of constants found in the code, alone and in pairs with short ones */
  nsizes = 0;
  for (size_t i = 0; i < nmined && nsizes < 380; ++i)
    for (unsigned m = 1; m <= 32; m *= 32)
      if (mined[i] * m > 100 && mined[i] * m < 300000) {
        sizes[nsizes++] = (size_t)mined[i] * m;
        if (m == 1)
          sizes[nsizes++] = (size_t)mined[i] - 1, sizes[nsizes++] = (size_t)mined[i] + 1;
      }
  for (unsigned i = 0; i < 3; ++i)
    sizes[nsizes++] = 1 + 31 * i;
  run_deep(2, sizeof tape);
  run_repeat(sizeof tape);
  /* the first update of 2^k +- d bytes after 0..33 bytes */
  for (unsigned pre = 0; pre < 34; ++pre)
    for (unsigned k = 9; k <= 18; ++k)
      for (int d = -1; d <= 1; ++d) {
        t1ha_context_t c;
        t1ha2_init(&c, big_sx, big_sy);
        size_t n = ((size_t)1 << k) + d;
        feed(&c, tape, pre, 3);
        feed(&c, tape + pre, n, (int)(pre & 7));
        fin got = finals_of(&c), want = expected(pre + n, big_sx, big_sy);
        ++states;
        if (memcmp(&got, &want, sizeof got))
          fail("final after updates %u+%zu = %016" PRIx64 " want %016" PRIx64, pre, n, got.f64, want.f64);
      }
  cur_fn = NULL;
  stat_u("states", states);
  stat_u("transitions", transitions);
  stat_u("traces", finals);
  stat_u("capped_layers", capped);
  stat_u("max_states_per_position", max_layer);
  printf("DONE\n");
  return nfails ? 1 : 0;
}
