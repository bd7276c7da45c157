/* Interruption explorer (P25): a signal handler that hashes itself may interrupt a call anywhere.
 *
 *   intr <quick|thorough> <part> <parts>
 *
 * Outer calls are single-stepped by the CPU (trap flag).  For every outer call, every inner call and every
 * instruction of the outer call there is one execution in which the handler runs the inner call right before that
 * instruction; one more execution per pair interrupts at every instruction.  Both have to return what they return
 * alone.  */
#define _GNU_SOURCE
#include "entries.h"
#include <ucontext.h>

static int thorough;
static uint64_t executions, steps_total, points, missed;
static uint8_t *arena, *arena2;

/* ------------------------------------------------------------- the calls */
typedef struct {
  char name[56];
  int kind; /* 0: entry e; 1 init, 2 update, 3 final64, 4 final128 of a running stream; 5 self-check; 6 resolve */
  entry *e;
  size_t pre, len;
  unsigned off;
} op;
typedef struct { uint64_t lo, hi, h; } out;
typedef struct { uint8_t *msg; t1ha_context_t *c; } place;
static op *ops;
static unsigned nops;
#ifndef T1HA2_DISABLED
static t1ha_context_t ctx_outer, ctx_inner;
#endif

static void add(int kind, entry *e, size_t pre, size_t len, unsigned off, const char *name) {
  ops = realloc(ops, (nops + 1) * sizeof *ops);
  op *o = &ops[nops++];
  memset(o, 0, sizeof *o);
  o->kind = kind, o->e = e, o->pre = pre, o->len = len, o->off = off;
  snprintf(o->name, sizeof o->name, "%s(pre=%zu len=%zu off=%u)", name, pre, len, off);
}
/* before the call: what is not interrupted */
static void prepare(const op *o, const place *p, unsigned who) {
  for (size_t i = 0; i < 640; ++i)
    p->msg[i] = (uint8_t)(i * (who ? 13 : 7) + (i >> 5) * 29 + who * 101 + o->len);
  if (o->kind >= 1 && o->kind <= 4) {
    memset(p->c, 0x77, sizeof *p->c);
    if (o->kind != 1) {
      t1ha2_init(p->c, who + 5, who * 3 + 9);
      t1ha2_update(p->c, p->msg + 256, o->pre);
    }
  }
}
static __attribute__((noinline)) out call(const op *o, const place *p, unsigned who) {
  out r = {0, 0, 0};
  switch (o->kind) {
  case 0: {
    if (o->e->impl == i_t1ha2_atonce128) { /* (whose canaries are shared) */
      r.lo = t1ha2_atonce128(&r.hi, p->msg + o->off, o->len, who + 1);
      break;
    }
    res v = o->e->impl(p->msg + o->off, o->len, who + 1, who + 2);
    r.lo = v.lo, r.hi = v.hi;
    break;
  }
  case 1: t1ha2_init(p->c, who + 3, who + 4); break;
  case 2: t1ha2_update(p->c, p->msg + o->off, o->len); break;
  case 3: r.lo = t1ha2_final(p->c, NULL); break;
  case 4: r.lo = t1ha2_final(p->c, &r.hi); break;
  case 5: r.lo = (uint64_t)t1ha_selfcheck__t1ha2_stream(); break;
  case 6: r.lo = (uint64_t)(uintptr_t)t1ha0_resolve(); break;
  }
  return r;
}
/* after it: the rest of the stream, the message, the context's memory */
static void conclude(const op *o, const place *p, out *r) {
  if (o->kind == 1 || o->kind == 2) {
    uint64_t hi;
    r->lo = t1ha2_final(p->c, &hi);
    r->hi = hi;
  }
  for (size_t i = 0; i < 640; ++i)
    r->h = fp_mix(r->h, p->msg[i]);
}

/* --------------------------------------------------- the machine, stepped */
enum { STEP, EVERY, ONCE }; /* record the path; interrupt before every instruction; before one */
static volatile int mode, active;
static const op *inner_op;
static place inner_place;
static out inner_want, inner_got;
static volatile int inner_bad, inner_ran;
static uintptr_t *path;
static volatile long step;
static uint8_t *bp; /* ONCE: where, and at which passing of it */
static volatile long bp_left;
static uint8_t bp_byte;
#define STEPPER __attribute__((noinline, section("stepper")))
extern char __start_stepper[], __stop_stepper[];
#ifdef __x86_64__
#define REG_PC REG_RIP
#define FLAGS(how, v) __asm volatile("pushfq; " how " $" v ", (%%rsp); popfq" ::: "memory", "cc")
#else
#define REG_PC REG_EIP
#define FLAGS(how, v) __asm volatile("pushfl; " how " $" v ", (%%esp); popfl" ::: "memory", "cc")
#endif
#define MAXPATH 20000

/* code must be writable to set a breakpoint */
static void writable(uintptr_t a) {
  static uintptr_t pages[256];
  static unsigned n;
  a &= ~(uintptr_t)(PG - 1);
  for (unsigned i = 0; i < n; ++i)
    if (pages[i] == a)
      return;
  if (n == 256 || mprotect((void *)a, 2 * PG, PROT_READ | PROT_WRITE | PROT_EXEC)) {
    if (n == 256 || mprotect((void *)a, PG, PROT_READ | PROT_WRITE | PROT_EXEC)) {
      fprintf(stderr, "cannot set a breakpoint at %lx\n", (unsigned long)a);
      _exit(3);
    }
  }
  pages[n++] = a;
}
static void inner_run(void) {
  out r = call(inner_op, &inner_place, 1);
  inner_ran = 1;
  if (mode == ONCE)
    inner_got = r;
  else if (r.lo != inner_want.lo || r.hi != inner_want.hi)
    inner_got = r, inner_bad = 1;
}
static void on_step(int sig, siginfo_t *si, void *u) {
  (void)sig, (void)si;
  ucontext_t *uc = u;
  greg_t *g = uc->uc_mcontext.gregs;
  if (mode == ONCE) {
    if ((uintptr_t)g[REG_PC] == (uintptr_t)bp + 1 && *bp == 0xcc) { /* at the breakpoint */
      *bp = bp_byte;
      g[REG_PC] -= 1;
      if (bp_left-- == 0)
        inner_run();
      else
        g[REG_EFL] |= 0x100; /* step over it */
    } else {
      *bp = 0xcc;
      g[REG_EFL] &= ~0x100;
    }
    return;
  }
  if (!active)
    return;
  const uintptr_t pc = (uintptr_t)g[REG_PC];
  if (pc >= (uintptr_t)__start_stepper && pc < (uintptr_t)__stop_stepper)
    return;
  if (step < MAXPATH)
    path[step] = pc;
  step++;
  if (mode == EVERY)
    inner_run();
}
STEPPER static out outer(const op *o, const place *p, int m) {
  mode = m, step = 0, inner_bad = 0, inner_ran = 0, active = 1;
  if (m == ONCE)
    *bp = 0xcc;
  else
    FLAGS("orl", "0x100");
  out r = call(o, p, 0);
  if (m == ONCE)
    *bp = bp_byte;
  else
    FLAGS("andl", "~0x100");
  active = 0;
  ++executions;
  return r;
}
static void compare(const op *o, out got, out want, int is_outer, long k, const op *other) {
  if (got.lo != want.lo || got.hi != want.hi || got.h != want.h) {
    char w[80] = "before every instruction";
    if (k >= 0)
      snprintf(w, sizeof w, "before instruction %ld of the interrupted call", k);
    fail("%s, %s %s %s, gives %016" PRIx64 ":%016" PRIx64 " instead of %016" PRIx64 ":%016" PRIx64 "%s", o->name,
         is_outer ? "interrupted by a signal handler calling" : "called in a signal handler that interrupts", other->name, w, got.hi, got.lo, want.hi, want.lo,
         got.h != want.h ? " (or the message was changed)" : "");
  }
}

int main(int argc, char **argv) {
  if (argc < 4)
    return 2;
  guard_setup();
  thorough = !strcmp(argv[1], "thorough");
  const unsigned part = (unsigned)atoi(argv[2]), parts = (unsigned)atoi(argv[3]);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_step;
  sa.sa_flags = SA_SIGINFO;
  sigaction(SIGTRAP, &sa, NULL);
  struct itimerval none = {{0, 0}, {0, 0}};
  setitimer(ITIMER_PROF, &none, NULL); /* its handler would be stepped through */
  alarm(thorough ? 3000 : 600);
  arena = guarded(4096), arena2 = guarded(4096);
#ifndef T1HA2_DISABLED
  const place po = {arena + 64, &ctx_outer}, pi = {arena2 + 64, &ctx_inner};
#endif
  static const struct { size_t len; unsigned off; } sh[] = {{0, 0}, {3, 1}, {13, 4}, {29, 0}, {32, 1}, {47, 3}, {75, 8}, {160, 0}, {373, 5}};
  for (unsigned i = 0; i < NALL; ++i)
    if (cpu_can(&all[i]))
      for (unsigned k = 0; k < sizeof sh / sizeof *sh; ++k) {
        if (!thorough && (k == 1 || k == 4 || k == 6))
          continue;
        add(0, &all[i], 0, sh[k].len, sh[k].off, all[i].name);
      }
  const unsigned entries = nops;
#ifndef T1HA2_DISABLED
  add(1, NULL, 0, 0, 0, "init");
  static const struct { size_t pre, len; unsigned off; } up[] = {{0, 5, 0}, {7, 9, 1}, {7, 25, 0}, {31, 40, 3}, {0, 64, 8}, {20, 100, 1}};
  for (unsigned k = 0; k < sizeof up / sizeof *up; ++k)
    add(2, NULL, up[k].pre, up[k].len, up[k].off, "update");
  for (unsigned k = 0; k < 3; ++k) {
    static const size_t pre[] = {0, 17, 56};
    add(3, NULL, pre[k], 0, 0, "final64");
    add(4, NULL, pre[k], 0, 0, "final128");
  }
#endif
#if T1HA0_RUNTIME_SELECT && !defined(T1HA0_DISABLED)
  add(6, NULL, 0, 0, 0, "t1ha0_resolve");
#endif
  (void)entries;
  out *alone_o = calloc(nops, sizeof *alone_o), *alone_i = calloc(nops, sizeof *alone_i);
  for (unsigned i = 0; i < nops; ++i) {
    prepare(&ops[i], &po, 0);
    alone_o[i] = call(&ops[i], &po, 0);
    conclude(&ops[i], &po, &alone_o[i]);
    prepare(&ops[i], &pi, 1);
    alone_i[i] = call(&ops[i], &pi, 1);
    conclude(&ops[i], &pi, &alone_i[i]);
  }
  uint64_t pairs = 0;
  path = calloc(MAXPATH, sizeof *path);
  for (unsigned i = 0, job = 0; i < nops; ++i)
    for (unsigned j = 0; j < nops; ++j) {
      /* inner calls of one entry point differ in shape only: a short, a blockwise and a long one in quick */
      if (!thorough && ops[j].kind == 0 && ops[j].len != 13 && ops[j].len != 47 && ops[j].len != 373)
        continue;
      if (job++ % parts != part)
        continue;
      ++pairs;
      const op *o = &ops[i];
      inner_op = &ops[j], inner_place = pi, inner_want = alone_i[j];
      snprintf(cur_desc, sizeof cur_desc, "interrupted by %s", ops[j].name);
      cur_fn = o->name, cur_len = o->len;
      /* at every instruction: for inner calls that may be repeated on the same objects */
      const int again = inner_op->kind == 0 || inner_op->kind > 4;
      prepare(inner_op, &pi, 1);
      prepare(o, &po, 0);
      out r = outer(o, &po, again ? EVERY : STEP);
      const long n = step < MAXPATH ? step : MAXPATH;
      conclude(o, &po, &r);
      compare(o, r, alone_o[i], 1, -1, inner_op);
      if (inner_bad) {
        inner_got.h = inner_want.h;
        compare(inner_op, inner_got, inner_want, 0, -1, o);
      }
      points += (uint64_t)n, steps_total += (uint64_t)n;
      for (long k = 0; k < n; ++k) {
        bp = (uint8_t *)path[k], bp_left = 0;
        for (long q = 0; q < k; ++q)
          bp_left += path[q] == path[k];
        writable(path[k]);
        bp_byte = *bp;
        prepare(inner_op, &pi, 1);
        prepare(o, &po, 0);
        r = outer(o, &po, ONCE);
        if (!inner_ran) {
          ++missed;
          continue;
        }
        ++steps_total;
        out in = inner_got;
        conclude(o, &po, &r);
        compare(o, r, alone_o[i], 1, k, inner_op);
        conclude(inner_op, &pi, &in);
        compare(inner_op, in, inner_want, 0, k, o);
      }
      if ((pairs & (pairs - 1)) == 0 && pairs > 8)
        sample("%s interrupted by %s before each of its %ld instructions", o->name, inner_op->name, n);
    }
  cur_fn = NULL;
  if (missed * 20 > points) {
    printf("NOTE %" PRIu64 " of %" PRIu64 " points were not reached again\n", missed, points);
    if (missed * 2 > points)
      return 3;
  }
  stat_u("states", points);
  stat_u("transitions", steps_total);
  stat_u("traces", executions);
  printf("DONE\n");
  return nfails ? 1 : 0;
}
