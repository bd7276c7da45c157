/* Shared by the explorers: reporting, watchdog, crash reports, placement. */
#pragma once
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <inttypes.h>
#include <signal.h>
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#define PG 4096u

/* What is being executed, for crash and hang reports. */
static char cur_desc[256];
static volatile uint64_t cur_tick;
static volatile const char *cur_fn;
static volatile uint64_t cur_len, cur_seed, cur_seed2;
static volatile uintptr_t cur_ptr;

static unsigned max_fails = 3, nfails;

static void stat_u(const char *k, uint64_t v) { printf("STAT %s %" PRIu64 "\n", k, v); }
static void sample(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  printf("SAMPLE ");
  vprintf(fmt, ap);
  printf("\n");
  va_end(ap);
}
static void fail(const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  printf("FAIL ");
  vprintf(fmt, ap);
  printf("\n");
  va_end(ap);
  fflush(stdout);
  if (++nfails >= max_fails)
    _exit(1);
}

static void crash_handler(int sig, siginfo_t *si, void *uc) {
  (void)uc;
  char b[600];
  int n = snprintf(b, sizeof b,
                   "FAIL signal %d (fault address %p) in %s len=%llu ptr=%p seed=0x%llx seed2=0x%llx %s\n", sig,
                   si ? si->si_addr : NULL, cur_fn ? (const char *)cur_fn : "?", (unsigned long long)cur_len,
                   (void *)cur_ptr, (unsigned long long)cur_seed, (unsigned long long)cur_seed2, cur_desc);
  fflush(stdout);
  if (write(1, b, (size_t)n) < 0) {}
  _exit(1);
}
/* 30 seconds of CPU time inside a single call is a hang */
static void tick_handler(int sig) {
  (void)sig;
  static uint64_t last = ~UINT64_C(0);
  static int same;
  if (cur_tick == last && cur_fn) {
    if (++same >= 30) {
      char b[600];
      int n = snprintf(b, sizeof b, "FAIL no return within 30 s of CPU time from %s len=%llu seed=0x%llx %s\n",
                       (const char *)cur_fn, (unsigned long long)cur_len, (unsigned long long)cur_seed, cur_desc);
      if (write(1, b, (size_t)n) < 0) {}
      _exit(1);
    }
  } else {
    same = 0;
    last = cur_tick;
  }
}
static void guard_setup(void) {
  static char altstack[65536];
  stack_t ss = {.ss_sp = altstack, .ss_size = sizeof altstack};
  sigaltstack(&ss, NULL);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = crash_handler;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT};
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; ++i)
    sigaction(sigs[i], &sa, NULL);
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = tick_handler;
  sa.sa_flags = SA_RESTART | SA_ONSTACK;
  sigaction(SIGPROF, &sa, NULL);
  struct itimerval tv = {{1, 0}, {1, 0}};
  setitimer(ITIMER_PROF, &tv, NULL);
  setvbuf(stdout, NULL, _IOFBF, 1 << 16);
}

/* pages usable bytes between two inaccessible pages */
static uint8_t *guarded(size_t bytes) {
  size_t n = (bytes + PG - 1) / PG * PG;
  uint8_t *p = mmap(NULL, n + 2 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED || mprotect(p + PG, n, PROT_READ | PROT_WRITE)) {
    perror("mmap");
    exit(2);
  }
  return p + PG;
}

static uint64_t splitmix(uint64_t *s) {
  uint64_t z = (*s += UINT64_C(0x9E3779B97F4A7C15));
  z = (z ^ z >> 30) * UINT64_C(0xBF58476D1CE4E5B9);
  z = (z ^ z >> 27) * UINT64_C(0x94D049BB133111EB);
  return z ^ z >> 31;
}

/* growing set of 64-bit fingerprints */
typedef struct { uint64_t *v; size_t cap, n; } fpset;
static int fp_add(fpset *s, uint64_t k) {
  if (!k)
    k = 1;
  if (s->n * 2 >= s->cap) {
    size_t oc = s->cap;
    uint64_t *ov = s->v;
    s->cap = oc ? oc * 2 : 1 << 16;
    s->v = calloc(s->cap, sizeof *s->v);
    s->n = 0;
    for (size_t i = 0; i < oc; ++i)
      if (ov[i])
        fp_add(s, ov[i]);
    free(ov);
  }
  uint64_t h = k * UINT64_C(0x9E3779B97F4A7C15);
  h ^= h >> 32;
  size_t i = (size_t)h & (s->cap - 1);
  for (; s->v[i]; i = (i + 1) & (s->cap - 1))
    if (s->v[i] == k)
      return 0;
  s->v[i] = k;
  s->n++;
  return 1;
}
static uint64_t fp_mix(uint64_t a, uint64_t b) {
  uint64_t s = a ^ (b * UINT64_C(0xD6E8FEB86659FD93) + UINT64_C(0x632BE59BD9B4E019));
  return splitmix(&s);
}
static void hex(char *out, const uint8_t *p, size_t n, size_t max) {
  size_t i;
  for (i = 0; i < n && i < max; ++i)
    sprintf(out + 2 * i, "%02x", p[i]);
  strcpy(out + 2 * i, n > max ? "..." : "");
}
