/* Configuration explorer (P16): one point of the lattice of build options.
 *
 * Compiled and linked against a library built in that configuration.  Refers
 * to every entry point the header declares there, checks the values each of
 * them gives, that t1ha0() is the documented choice, and the self-checks. */
#include "entries.h"

static uint8_t *area;
#define MAXLEN 600

#ifndef T1HA0_DISABLED
/* what the header and README promise for t1ha0() */
static res r_choice(const void *d, size_t l, uint64_t x, uint64_t y) {
#if T1HA0_RUNTIME_SELECT && T1HA0_AESNI_AVAILABLE && defined(__ia32__)
  if (__builtin_cpu_supports("aes")) {
    if (__builtin_cpu_supports("avx2"))
      return r_t1ha0_ia32aes_avx2(d, l, x, y);
    return r_t1ha0_ia32aes_noavx(d, l, x, y);
  }
#endif
  if (sizeof(void *) > 4 || sizeof(long) > 4) {
#ifndef T1HA1_DISABLED
    return r_t1ha1_le(d, l, x, y);
#elif !defined(T1HA2_DISABLED)
    return r_t1ha2_atonce(d, l, x, y);
#endif
  }
  return r_t1ha0_32le(d, l, x, y);
}
#endif

int main(int argc, char **argv) {
  uint64_t states = 0, transitions = 0, s = 12345;
  unsigned chk;
  (void)argc;
  guard_setup();
  if (ref_validate(&chk)) {
    printf("reference model does not match the golden vectors\n");
    return 2;
  }
  const size_t maxlen = (size_t)atoi(argv[1]);
  area = guarded(2 * PG);
  for (size_t i = 0; i < 2 * PG; ++i)
    area[i] = (uint8_t)splitmix(&s);
  static const uint64_t seeds[] = {0, UINT64_C(0xFEDCBA9876543210), ~UINT64_C(0)};
  for (unsigned e = 0; e < NALL; ++e) {
    entry *q = &all[e];
    if (!cpu_can(q))
      continue;
#ifndef T1HA0_DISABLED
    if (!strcmp(q->name, "t1ha0"))
      q->ref = r_choice;
#endif
    cur_fn = q->name;
    for (size_t len = 0; len <= maxlen; ++len)
      for (unsigned a = 0; a < 8; ++a)
        for (unsigned k = 0; k < 3; ++k) {
          if (k && (a + len) % 3)
            continue;
          /* k = 0: ends at the end of accessible memory for some lengths */
          const uint8_t *p = k == 0 ? area + 2 * PG - len - a : area + 64 + a;
          cur_len = len, cur_ptr = (uintptr_t)p, cur_seed = seeds[k], ++cur_tick;
          res i = q->impl(p, len, seeds[k], ~seeds[k] * 3), r = q->ref(p, len, seeds[k], ~seeds[k] * 3);
          ++transitions;
          if (i.lo != r.lo || i.hi != r.hi)
            fail("%s(len=%zu, misalignment %u, seed=0x%" PRIx64 ") = %016" PRIx64 ":%016" PRIx64 ", %016" PRIx64 ":%016" PRIx64 " expected", q->name, len,
                 (unsigned)((uintptr_t)p & 15), seeds[k], i.hi, i.lo, r.hi, r.lo);
        }
    ++states;
  }
  cur_fn = "self-check";
#define CHECK(f) do { ++states; int rc = f(); if (rc != 0) fail(#f "() = %d", rc); } while (0)
#ifndef T1HA2_DISABLED
  CHECK(t1ha_selfcheck__t1ha2_atonce);
  CHECK(t1ha_selfcheck__t1ha2_atonce128);
  CHECK(t1ha_selfcheck__t1ha2_stream);
  CHECK(t1ha_selfcheck__t1ha2);
#endif
#ifndef T1HA1_DISABLED
  CHECK(t1ha_selfcheck__t1ha1_le);
  CHECK(t1ha_selfcheck__t1ha1_be);
  CHECK(t1ha_selfcheck__t1ha1);
#endif
#ifndef T1HA0_DISABLED
  CHECK(t1ha_selfcheck__t1ha0_32le);
  CHECK(t1ha_selfcheck__t1ha0_32be);
  CHECK(t1ha_selfcheck__t1ha0);
#if T1HA0_AESNI_AVAILABLE
  if (__builtin_cpu_supports("aes")) {
    CHECK(t1ha_selfcheck__t1ha0_ia32aes_noavx);
    if (__builtin_cpu_supports("avx"))
      CHECK(t1ha_selfcheck__t1ha0_ia32aes_avx);
#ifndef __e2k__
    if (__builtin_cpu_supports("avx2"))
      CHECK(t1ha_selfcheck__t1ha0_ia32aes_avx2);
#endif
  }
#endif
#if T1HA0_RUNTIME_SELECT
  if (t1ha0_resolve() == NULL)
    fail("t1ha0_resolve() = NULL");
#endif
#endif
  CHECK(t1ha_selfcheck__all_enabled);
  stat_u("states", states);
  stat_u("transitions", transitions);
  stat_u("traces", transitions);
  printf("DONE\n");
  return 0;
}
