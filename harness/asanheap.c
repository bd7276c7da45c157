/* Messages in heap blocks of exactly their size under AddressSanitizer. */
#include "entries.h"
int main(int argc, char **argv) {
  uint64_t states = 0, n = 0;
  size_t L = argc > 1 && !strcmp(argv[1], "thorough") ? 700 : 270;
  fpset outs = {0};
  for (unsigned i = 0; i < NALL; ++i) {
    if (!cpu_can(&all[i]))
      continue;
    ++n;
    for (size_t len = 0; len <= L; ++len)
      for (unsigned off = 0; off < 9; ++off) {
        uint8_t *p = malloc(len + off);
        for (size_t k = 0; k < len; ++k)
          p[off + k] = (uint8_t)(k * 7 + len);
        res r = all[i].impl(p + off, len, len, off);
        res w = all[i].ref(p + off, len, len, off);
        fp_add(&outs, r.lo);
        if (r.lo != w.lo || (all[i].wide && r.hi != w.hi))
          fail("%s(len=%zu, alignment %u) has another value under AddressSanitizer", all[i].name, len, off);
        free(p);
        ++states;
      }
  }
#ifndef T1HA2_DISABLED
  for (unsigned pre = 0; pre < 33; ++pre)
    for (size_t len = 0; len < 100; ++len) {
      t1ha_context_t *c;
      if (posix_memalign((void **)&c, 32, sizeof *c))
        return 2;
      uint64_t *x = malloc(8);
      uint8_t *a = malloc(pre), *b = malloc(len);
      memset(a, 1, pre), memset(b, 2, len);
      t1ha2_init(c, 1, 2);
      t1ha2_update(c, a, pre);
      t1ha2_update(c, b, len);
      t1ha2_final(c, len & 1 ? x : NULL);
      free(a), free(b), free(c), free(x);
      ++states;
    }
#endif
  stat_u("functions", n);
  stat_u("states", states);
  stat_u("transitions", states);
  stat_u("traces", outs.n);
  printf("DONE\n");
  return nfails ? 1 : 0;
}
