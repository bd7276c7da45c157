/* Uninitialised-memory explorer (P24), under MemorySanitizer: everything around the message, everything of the
 * context before init, the destination and the dead stack are uninitialised; no result may depend on them and no
 * branch or address may be taken from them (MemorySanitizer stops there).
 *   msan <quick|thorough> */
#include "entries.h"
#include <sanitizer/msan_interface.h>

static uint64_t states, transitions;
static uint8_t *arena;
static __attribute__((noinline)) void dirty_stack(void) {
  volatile uint8_t junk[6000];
  __msan_poison(junk, sizeof junk);
}
static void defined(const char *what, const void *p, size_t n) {
  intptr_t at = __msan_test_shadow(p, n);
  if (at >= 0)
    fail("%s: byte %ld of the %s depends on uninitialised memory, len=%llu at page offset %u %s", (const char *)cur_fn, (long)at, what, (unsigned long long)cur_len,
         (unsigned)(cur_ptr & (PG - 1)), cur_desc);
}
static void message(uint8_t *p, size_t len) {
  __msan_poison(arena, 4 * PG);
  for (size_t i = 0; i < len; ++i)
    p[i] = (uint8_t)(i * 11 + len);
  __msan_unpoison(p, len);
}
static void set(const char *fn, const uint8_t *p, size_t len) { cur_fn = fn, cur_ptr = (uintptr_t)p, cur_len = len, cur_tick = cur_tick + 1; }
static void one(uint8_t *p, size_t len) {
  message(p, len);
  ++states;
  for (unsigned i = 0; i < NALL; ++i) {
    entry *e = &all[i];
    uint64_t lo, hi = 0;
    if (!cpu_can(e) || e->impl == i_t1ha0)
      continue;
    set(e->name, p, len);
    ++transitions;
    dirty_stack();
    if (e->impl == i_t1ha2_atonce128) {
      __msan_poison(&hi, sizeof hi);
      lo = t1ha2_atonce128(&hi, p, len, 5);
    } else if (e->impl == i_stream64 || e->impl == i_stream128) {
      t1ha_context_t c;
      __msan_poison(&c, sizeof c);
      t1ha2_init(&c, 1, 2);
      t1ha2_update(&c, p, len);
      if (e->wide) {
        __msan_poison(&hi, sizeof hi);
        lo = t1ha2_final(&c, &hi);
      } else
        lo = t1ha2_final(&c, NULL);
    } else {
      res r = e->impl(p, len, 5, 6);
      lo = r.lo, hi = r.hi;
    }
    defined("result", &lo, sizeof lo);
    defined("high half", &hi, sizeof hi);
    res want = e->ref(p, len, e->two_seeds ? 1 : 5, e->two_seeds ? 2 : 6);
    if (want.lo != lo || (e->wide && want.hi != hi))
      fail("%s: wrong value for len=%zu", e->name, len);
  }
}
static void pieces(uint8_t *p, size_t a, size_t b, size_t d) {
  t1ha_context_t c, k;
  uint64_t hi;
  message(p, a + b + d);
  ++states;
  set("stream in pieces", p, a + b + d);
  snprintf(cur_desc, sizeof cur_desc, "(pieces of %zu, %zu, %zu bytes)", a, b, d);
  dirty_stack();
  __msan_poison(&c, sizeof c);
  __msan_poison(&hi, sizeof hi);
  t1ha2_init(&c, 1, 2);
  t1ha2_update(&c, p, a);
  t1ha2_update(&c, p + a, b);
  k = c;
  t1ha2_update(&c, p + a + b, d);
  uint64_t lo = t1ha2_final(&c, &hi);
  defined("result", &lo, 8);
  defined("high half", &hi, 8);
  t1ha2_update(&k, p + a + b, d);
  uint64_t l64 = t1ha2_final(&k, NULL);
  defined("64-bit result of a copy", &l64, 8);
  ref128 w = ref_t1ha2_stream128(p, a + b + d, 1, 2);
  if (w.lo != lo || w.hi != hi || l64 != ref_t1ha2_stream(p, a + b + d, 1, 2))
    fail("stream of %zu+%zu+%zu bytes: wrong value", a, b, d);
  /* used again after final */
  t1ha2_init(&c, 3, 4);
  t1ha2_update(&c, p, b);
  lo = t1ha2_final(&c, NULL);
  defined("result after re-initialisation", &lo, 8);
  transitions += 10;
  cur_desc[0] = 0;
}
int main(int argc, char **argv) {
  const int thorough = argc > 1 && !strcmp(argv[1], "thorough");
  guard_setup();
  arena = guarded(4 * PG);
  uint8_t *mid = arena + PG;
  for (size_t len = 0; len <= (thorough ? 1100 : 300); ++len)
    for (unsigned off = 0; off < 8; ++off) {
      one(mid + off, len);                    /* just after a page border */
      one(mid + 2 * PG - off - len, len);     /* just before one */
      one(mid + PG - len / 2 + off, len);     /* across */
      one(mid + 500 + off, len);
    }
  const size_t L = thorough ? 70 : 40;
  for (size_t a = 0; a <= L; ++a)
    for (size_t b = 0; b <= L; ++b)
      for (size_t d = 0; d <= L; d += thorough ? 1 : 1 + (a + b) % 3)
        pieces(mid + 900 + (a & 7), a, b, d);
  int s = t1ha_selfcheck__all_enabled();
  set("t1ha_selfcheck__all_enabled", NULL, 0);
  defined("self-check result", &s, sizeof s);
  if (s)
    fail("self-check fails");
  cur_fn = NULL;
  stat_u("states", states);
  stat_u("transitions", transitions);
  stat_u("traces", states);
  sample("%" PRIu64 " messages, %" PRIu64 " calls", states, transitions);
  printf("DONE\n");
  return nfails ? 1 : 0;
}
