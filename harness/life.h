/* A moment of a process's life at which t1ha0() may be called (P20). */
#pragma once
#define _GNU_SOURCE
#include "../ref/ref.h"
#include "t1ha.h"
#include <inttypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

enum { M_PREINIT, M_LIB_CTOR, M_CTOR101, M_CTOR, M_CTOR_THREAD, M_MAIN, M_THREAD, M_FORK, M_PLUGIN_CTOR, M_PLUGIN_DTOR,
       M_ATEXIT, M_DTOR, M_DTOR101, M_LIB_DTOR, M_COUNT };
#define M_NAMES { "preinit_array", "constructor of a library", "constructor(101)", "constructor", "thread started by a constructor", "main", \
  "thread", "forked child", "constructor of a dlopen'ed library", "destructor of a dlopen'ed library", "atexit handler", "destructor", \
  "destructor(101)", "destructor of a library" }

static uint8_t life_msg[700];
static const uint16_t life_len[] = {0, 3, 17, 127, 128, 300, 600};

static uint64_t life_want(size_t len, uint64_t seed) {
#if T1HA0_RUNTIME_SELECT && T1HA0_AESNI_AVAILABLE
  __builtin_cpu_init();
  if (__builtin_cpu_supports("aes"))
    return __builtin_cpu_supports("avx2") ? ref_aes_b(life_msg, len, seed) : ref_aes_a(life_msg, len, seed);
#endif
#ifdef __LP64__
  return ref_t1ha1_le(life_msg, len, seed);
#else
  return ref_t1ha0_32le(life_msg, len, seed);
#endif
}

static void life_say(const char *fmt, int m, unsigned long long a, unsigned long long b, unsigned long long d) {
  char t[200];
  int n = snprintf(t, sizeof t, fmt, m, a, b, d);
  if (write(1, t, (size_t)n) < 0)
    _exit(3);
}

static const char *life_env; /* libc does not know the environment yet when preinit_array runs */
/* LIFE=<mask of moments>,<operation pattern> */
static void life_moment(int m) {
  const char *e = life_env ? life_env + 5 : getenv("LIFE");
  if (!e)
    return;
  char *comma;
  unsigned long mask = strtoul(e, &comma, 10);
  unsigned pat = (unsigned)strtoul(comma + 1, NULL, 10);
  if (!(mask >> m & 1))
    return;
  if (!life_msg[1]) {
    uint32_t s = 99;
    for (unsigned i = 0; i < sizeof life_msg; ++i)
      life_msg[i] = (uint8_t)((s = s * 1664525u + 1013904223u) >> 23) | 1;
  }
  const unsigned op = (pat + (unsigned)m) % 3; /* 0: t1ha0, 1: t1ha0_resolve first, 2: t1ha0 by its address */
  uint64_t (*f)(const void *, size_t, uint64_t) = t1ha0;
#if T1HA0_RUNTIME_SELECT
  if (op == 1) {
    f = t1ha0_resolve();
    if (!f) {
      life_say("FAIL at moment %d t1ha0_resolve() gives NULL\n", m, 0, 0, 0);
      _exit(1);
    }
  }
#endif
  life_say("B%d\n", m, 0, 0, 0);
  for (unsigned i = 0; i < sizeof life_len / sizeof *life_len; ++i) {
    uint64_t want = life_want(life_len[i], i * 77), got = op ? f(life_msg, life_len[i], i * 77) : t1ha0(life_msg, life_len[i], i * 77);
    if (got != want) {
      life_say("FAIL at moment %d t1ha0(len=%llu) = %llx, %llx expected\n", m, life_len[i], got, want);
      _exit(1);
    }
  }
#if T1HA0_RUNTIME_SELECT
  f = t1ha0_resolve();
  if (!f || f(life_msg, 600, 5) != life_want(600, 5)) {
    life_say("FAIL at moment %d t1ha0_resolve() gives another function\n", m, 0, 0, 0);
    _exit(1);
  }
#endif
  life_say("E%d\n", m, 0, 0, 0);
}
