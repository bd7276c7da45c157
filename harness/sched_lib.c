/* Linked into the instrumented library (P13): a caller of t1ha0() as the public
 * header has it, and the constructors that were renamed away from .init_array. */
#include "t1ha.h"
#pragma GCC visibility push(default)
uint64_t verif_t1ha0(const void *, size_t, uint64_t);
void verif_ctors(void);
#pragma GCC visibility pop
uint64_t verif_t1ha0(const void *p, size_t n, uint64_t s) { return t1ha0(p, n, s); }

typedef void (*fn)(int, char **, char **);
extern fn __start_verif_ctors_sec[] __attribute__((weak, visibility("hidden")));
extern fn __stop_verif_ctors_sec[] __attribute__((weak, visibility("hidden")));
void verif_ctors(void) {
  static char *none[1];
  for (fn *f = __start_verif_ctors_sec; f < __stop_verif_ctors_sec; ++f)
    if (*f)
      (*f)(0, none, none);
}
