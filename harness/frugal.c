/* Resource explorer (P26): what a call takes besides its arguments.
 *   frugal <quick|thorough> <stack limit>
 *
 * Every call runs in a process that may not enter the kernel (seccomp strict mode: only read, write, exit), with the
 * allocator replaced by one that notes calls during a hash call, and on a stack painted beforehand, so that the
 * deepest byte it used is seen.  Nothing here may depend on the length. */
#include "entries.h"
#include <errno.h>
#include <linux/seccomp.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>

static volatile int in_call;
typedef struct {
  volatile char name[64];
  volatile size_t len, off, part;
  volatile uint64_t states, transitions, deepest;
  volatile size_t deepest_len;
  volatile char deepest_name[64];
  volatile int nfail;
  char msg[8][400];
} report;
static report *rep;

/* -------------------------------------------------------- the allocator */
static uint8_t heap[1 << 24] __attribute__((aligned(64)));
static size_t heap_used;
static volatile int allocations;
void *malloc(size_t n) {
  if (in_call)
    allocations++;
  n = (n + 79) & ~(size_t)63;
  if (heap_used + n > sizeof heap)
    return NULL;
  void *p = heap + heap_used + 64;
  *(size_t *)(heap + heap_used + 56) = n - 64;
  heap_used += n + 64;
  return p;
}
void free(void *p) {
  (void)p;
  if (in_call)
    allocations++;
}
void *calloc(size_t a, size_t b) {
  void *p = malloc(a * b);
  if (p)
    memset(p, 0, a * b);
  return p;
}
void *realloc(void *p, size_t n) {
  void *q = malloc(n);
  if (p && q) {
    size_t old = ((size_t *)p)[-1];
    memcpy(q, p, old < n ? old : n);
  }
  return q;
}
void *memalign(size_t a, size_t n) {
  uint8_t *p = malloc(n + a);
  return p ? p + (a - (uintptr_t)p % a) % a : NULL;
}
void *aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void **q, size_t a, size_t n) { return (*q = memalign(a, n)) ? 0 : ENOMEM; }

/* ------------------------------------------------------------ the stack */
#define DEEP (1 << 17)
static __attribute__((noinline)) void paint(void) {
  volatile uint64_t a[DEEP / 8];
  for (size_t i = 0; i < DEEP / 8; ++i)
    a[i] = UINT64_C(0xA5C3E1F0A5C3E1F0);
}
static __attribute__((noinline)) size_t depth(void) {
  volatile uint64_t a[DEEP / 8];
  size_t i = 0;
  __asm volatile("" : : "r"(a) : "memory");
  while (i < DEEP / 8 && a[i] == UINT64_C(0xA5C3E1F0A5C3E1F0))
    ++i;
  return DEEP - i * 8;
}
/* wiping 128 KiB per call would be slow: a shallow painting unless the call used more */
#define SHALLOW (1 << 13)
static __attribute__((noinline)) void paint_s(void) {
  volatile uint64_t a[SHALLOW / 8];
  for (size_t i = 0; i < SHALLOW / 8; ++i)
    a[i] = UINT64_C(0xA5C3E1F0A5C3E1F0);
}

static size_t limit;
static void bad(const char *fmt, ...) {
  va_list ap;
  if (rep->nfail >= 8)
    return;
  va_start(ap, fmt);
  vsnprintf(rep->msg[rep->nfail++], sizeof rep->msg[0], fmt, ap);
  va_end(ap);
}
typedef struct { int kind; entry *e; const uint8_t *p; size_t len, part; t1ha_context_t *c; } job;
static __attribute__((noinline)) void run(const job *j) {
  in_call = 1;
  switch (j->kind) {
  case 0: {
    res r = j->e->impl(j->p, j->len, 3, 4);
    __asm volatile("" : : "r"(&r) : "memory");
    break;
  }
#ifndef T1HA2_DISABLED
  case 1: t1ha2_init(j->c, 5, 6); break;
  case 2: t1ha2_update(j->c, j->p, j->len); break;
  case 3: t1ha2_final(j->c, NULL); break;
  case 4: {
    uint64_t hi;
    t1ha2_final(j->c, &hi);
    break;
  }
#endif
#if T1HA0_RUNTIME_SELECT && !defined(T1HA0_DISABLED)
  case 5: t1ha0_resolve(); break;
#endif
  }
  in_call = 0;
}
static void go(const char *name, const job *j, int deep) {
  size_t k = 0;
  for (; name[k] && k < 63; ++k)
    rep->name[k] = name[k];
  rep->name[k] = 0;
  rep->len = j->len, rep->off = (uintptr_t)j->p & 4095, rep->part = j->part;
  rep->transitions++;
  allocations = 0;
  deep ? paint() : paint_s();
  run(j);
  size_t d = depth();
  if (allocations)
    bad("%s allocates memory: %d allocator call(s), len=%zu at page offset %zu, %zu bytes before", name, allocations, j->len, rep->off, j->part);
  if (!deep && d > SHALLOW) { /* what was deeper may be older: measure again */
    paint();
    run(j);
    d = depth();
  }
  if (d > rep->deepest) {
    rep->deepest = d, rep->deepest_len = j->len;
    for (size_t i = 0; i < 64; ++i)
      rep->deepest_name[i] = rep->name[i];
  }
  if (d > limit)
    bad("%s needs %s%zu bytes of stack, len=%zu at page offset %zu, %zu bytes before", name, d >= DEEP ? "at least " : "", d, j->len, rep->off, j->part);
}
static uint8_t *area;
static const size_t AREA = (size_t)1 << 21;
#ifndef T1HA2_DISABLED
static t1ha_context_t C;
#endif
static void all_of(int thorough) {
  const size_t far_[] = {1500, 2048, 3001, 4096, 4099, 8191, 16384, 32769, 65536, 65551, 131072, 262147, 524288, (1 << 20) + 5};
  for (unsigned i = 0; i < NALL; ++i)
    if (cpu_can(&all[i])) {
      job j = {0, &all[i], area, 300, 0, NULL};
      run(&j); /* lazy binding */
      for (size_t len = 0; len <= (thorough ? 1100 : 400); ++len)
        for (unsigned off = 0; off < 8; ++off) {
          j.p = area + 64 + off, j.len = len;
          go(all[i].name, &j, 0);
          j.p = area + 4096 - len / 2 + off;
          go(all[i].name, &j, 0);
          rep->states += 2;
        }
      for (unsigned k = 0; k < sizeof far_ / sizeof *far_; ++k)
        for (unsigned off = 0; off < (thorough ? 16 : 8); ++off) {
          if (strcmp(all[i].name, "t1ha0") == 0 && far_[k] > 1 << 19)
            continue;
          j.p = area + 64 + off, j.len = far_[k];
          go(all[i].name, &j, 1);
          rep->states++;
        }
    }
#ifndef T1HA2_DISABLED
  for (size_t part = 0; part <= 64; ++part)
    for (size_t len = 0; len <= (thorough ? 260 : 130); ++len) {
      job j = {1, NULL, area + 64 + (len & 7), 0, part, &C};
      go("t1ha2_init", &j, 0);
      j.kind = 2, j.len = part;
      go("t1ha2_update", &j, 0);
      j.len = len;
      go("t1ha2_update", &j, 0);
      j.kind = 3 + ((len + part) & 1);
      go("t1ha2_final", &j, 0);
      rep->states++;
    }
  for (size_t part = 0; part <= 33; part += 3)
    for (unsigned k = 0; k < sizeof far_ / sizeof *far_; ++k)
      for (unsigned off = 0; off < 8; ++off) {
        t1ha2_init(&C, 1, 2);
        t1ha2_update(&C, area, part);
        job j = {2, NULL, area + 64 + off, far_[k], part, &C};
        go("t1ha2_update", &j, 1);
        rep->states++;
      }
#endif
#if T1HA0_RUNTIME_SELECT && !defined(T1HA0_DISABLED)
  job j = {5, NULL, NULL, 0, 0, NULL};
  go("t1ha0_resolve", &j, 1);
#endif
}
int main(int argc, char **argv) {
  if (argc < 3)
    return 2;
  const int thorough = !strcmp(argv[1], "thorough");
  limit = (size_t)atoi(argv[2]);
  rep = mmap(NULL, sizeof *rep, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  area = mmap(NULL, AREA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (size_t i = 0; i < AREA; ++i)
    area[i] = (uint8_t)(i * 37 + (i >> 9));
  fflush(stdout);
  pid_t pid = fork();
  if (!pid) {
    /* may the kernel refuse (a container): then the calls still run, only system calls go unseen */
    if (!thorough || 1)
      rep->msg[7][0] = prctl(PR_SET_SECCOMP, SECCOMP_MODE_STRICT) ? 'n' : 'y';
    char filter = rep->msg[7][0];
    all_of(thorough);
    (void)filter;
    syscall(SYS_exit, 0);
  }
  int st;
  waitpid(pid, &st, 0);
  const char filter = rep->msg[7][0];
  for (int i = 0; i < rep->nfail && i < 7; ++i)
    printf("FAIL %s\n", rep->msg[i]);
  if (WIFSIGNALED(st) || WEXITSTATUS(st)) {
    rep->nfail = rep->nfail + 1;
    printf("FAIL %s(len=%zu at page offset %zu, %zu bytes before) %s (status 0x%x)\n", (const char *)rep->name, rep->len, rep->off, rep->part,
           WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && filter == 'y' ? "makes a system call" : "does not survive in a process that may not enter the kernel", st);
  }
  if (filter != 'y')
    printf("NOTE seccomp is not available: system calls were not watched\n");
  stat_u("states", rep->states);
  stat_u("transitions", rep->transitions);
  stat_u("traces", rep->transitions);
  stat_u("deepest", rep->deepest);
  printf("SAMPLE deepest stack: %s(len=%zu) %zu bytes\n", (const char *)rep->deepest_name, rep->deepest_len, (size_t)rep->deepest);
  printf("DONE\n");
  return rep->nfail ? 1 : 0;
}
