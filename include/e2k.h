/* Included first: gcc on x86-64 imitates LCC for Elbrus so far that the sources take the branches written for it. */
#include <assert.h>
#include <inttypes.h>
#include <limits.h>
#include <signal.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <x86intrin.h>
#undef __x86_64__
#undef __x86_64
#undef __amd64__
#undef __amd64
#undef i386
#undef __i386
#undef __i386__
#define __e2k__ 1
#ifndef __iset__
#define __iset__ 5
#endif
#ifndef __LCC__
#define __LCC__ 125
#endif
#define __LCC_MINOR__ 9
#define __builtin_e2k_umulhd(a, b) ((uint64_t)((unsigned __int128)(uint64_t)(a) * (uint64_t)(b) >> 64))
#define __builtin_e2k_addcd(a, b, c) ((uint64_t)(a) + (uint64_t)(b) + ((c) & 1))
#define __builtin_e2k_addcd_c(a, b, c) ((uint64_t)(((unsigned __int128)(uint64_t)(a) + (uint64_t)(b) + ((c) & 1)) >> 64))
static __inline__ __attribute__((__unused__, __always_inline__)) uint64_t __builtin_e2k_ld_64s_be(const void *p) {
  uint64_t v;
  memcpy(&v, p, 8);
  return __builtin_bswap64(v);
}
static __inline__ __attribute__((__unused__, __always_inline__)) uint32_t __builtin_e2k_ld_32u_be(const void *p) {
  uint32_t v;
  memcpy(&v, p, 4);
  return __builtin_bswap32(v);
}
