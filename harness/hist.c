/* History explorer (P12), on the shared library as users get it.
 *
 *   hist <libt1ha.so> <noif 0|1> <quick|thorough>
 *
 * A state is everything the library could remember a call in: its writable
 * segments and thread-local storage, plus the contents of the buffers at the
 * (fixed) addresses that are hashed.  A transition is one API call with
 * concrete arguments.  Oracle: the result of the same call in the initial state.
 *  A  breadth-first search over library states to a fixpoint
 *  B  all triples of calls in sequence, nothing restored in between
 *  C  long repetitions; very long ones if A found no fixpoint
 *  D  the caller's machine state: rounding modes, FTZ/DAZ, x87 control word,
 *     junk in vector registers and in the dead stack; all of it preserved
 */
#define t1ha_IMPORTS
#include "common.h"
#include "t1ha.h"
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <sys/syscall.h>
#include <time.h>

static int thorough, noif;
static uint64_t states, transitions, seqs;
static void *lib;
static const char *libpath;

/*--------------------------------------------------------- library memory */
static struct { uint8_t *p; size_t n; } seg[32];
static unsigned nseg;
static size_t tls_size;
static size_t rwbytes;
static int on_phdr(struct dl_phdr_info *i, size_t sz, void *x) {
  (void)x, (void)sz;
  if (!i->dlpi_name || !strstr(i->dlpi_name, strrchr(libpath, '/') + 1))
    return 0;
  uintptr_t ro = 0, roe = 0;
  for (int k = 0; k < i->dlpi_phnum; ++k)
    if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO) {
      ro = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
      roe = (ro + i->dlpi_phdr[k].p_memsz) & ~(uintptr_t)(PG - 1);
    }
  for (int k = 0; k < i->dlpi_phnum; ++k) {
    const ElfW(Phdr) *h = &i->dlpi_phdr[k];
    if (h->p_type == PT_LOAD && (h->p_flags & PF_W)) {
      uintptr_t a = i->dlpi_addr + h->p_vaddr, e = a + h->p_memsz;
      if (a < roe && ro <= a)
        a = roe;
      if (a < e)
        seg[nseg].p = (uint8_t *)a, seg[nseg++].n = e - a, rwbytes += e - a;
    }
    if (h->p_type == PT_TLS)
      tls_size = h->p_memsz;
  }
  return 0;
}
static void *tls_now;
static int on_tls(struct dl_phdr_info *i, size_t sz, void *x) {
  (void)x, (void)sz;
  if (i->dlpi_name && strstr(i->dlpi_name, strrchr(libpath, '/') + 1))
    tls_now = i->dlpi_tls_data;
  return 0;
}
static size_t state_bytes(void) { return rwbytes + tls_size; }
static uint8_t *tls0; /* image before the block existed is unknown: first seen contents */
static void get_state(uint8_t *b) {
  for (unsigned i = 0; i < nseg; ++i)
    memcpy(b, seg[i].p, seg[i].n), b += seg[i].n;
  if (tls_size) {
    dl_iterate_phdr(on_tls, NULL);
    if (tls_now) {
      memcpy(b, tls_now, tls_size);
      return;
    }
    memset(b, 0, tls_size);
  }
}
static void set_state(const uint8_t *b) {
  for (unsigned i = 0; i < nseg; ++i)
    memcpy(seg[i].p, b, seg[i].n), b += seg[i].n;
  if (tls_size) {
    dl_iterate_phdr(on_tls, NULL);
    if (tls_now)
      memcpy(tls_now, b, tls_size);
  }
}

/*------------------------------------------------------------- operations */
typedef uint64_t (*fn3)(const void *, size_t, uint64_t);
static uint64_t (*p_atonce128)(uint64_t *, const void *, size_t, uint64_t);
static void (*p_init)(t1ha_context_t *, uint64_t, uint64_t);
static void (*p_update)(t1ha_context_t *, const void *, size_t);
static uint64_t (*p_final)(t1ha_context_t *, uint64_t *);
static fn3 *p_funcptr;
static fn3 (*p_resolve)(void);
static fn3 plain[16];
static const char *plain_name[16];
static unsigned nplain;
static int (*check_fn[16])(void);
static const char *check_name[16];
static unsigned nchecks;
enum { K_PLAIN, K_128, K_S64, K_S128, K_SPLIT, K_FUNCPTR, K_RESOLVE, K_CHECK, K_RUN, K_DANGLE };
typedef struct { uint8_t kind, which, variant, seed; uint16_t len; } op;
typedef struct { uint64_t lo, hi; } res;
static op *ops;
static unsigned nops;
static res *oracle;
static const uint64_t sd[] = {0, UINT64_C(0x0123456789ABCDEF), ~UINT64_C(0)};

static uint8_t *rw, *ro; /* two views of the same memory: the library gets the read-only one */
static size_t flip_at = (size_t)-1;
static void contents(const op *o) {
  if (flip_at != (size_t)-1)
    rw[flip_at] ^= 0x40, flip_at = (size_t)-1;
  if (!o->variant || !o->len)
    return;
  flip_at = o->variant == 1 ? 0 : o->variant == 2 ? o->len / 2 : (size_t)o->len - 1;
  flip_at += 64;
  rw[flip_at] ^= 0x40;
}
static t1ha_context_t other; /* a stream that is never finished */
static t1ha_context_t ctx; /* never cleared between uses */
static const char *op_name(const op *o) {
  static const char *n[] = {"", "t1ha2_atonce128", "stream64", "stream128", "split stream", "t1ha0_funcptr", "t1ha0_resolve", "", "stream in small pieces", "unfinished stream"};
  return o->kind == K_PLAIN ? plain_name[o->which] : o->kind == K_CHECK ? check_name[o->which] : n[o->kind];
}
static const char *op_text(const op *o) {
  static char b[4][160];
  static unsigned k;
  char *t = b[k++ & 3];
  snprintf(t, 160, "%s(len=%u, contents %u, seed %u)", op_name(o), o->len, o->variant, o->seed);
  return t;
}
static inline res perform(const op *o) {
  res r = {0, 0};
  contents(o);
  const uint8_t *p = ro + 64;
  uint64_t s = sd[o->seed];
  cur_tick = cur_tick + 1;
  switch (o->kind) {
  case K_PLAIN: r.lo = plain[o->which](p, o->len, s); break;
  case K_FUNCPTR: r.lo = (*p_funcptr)(p, o->len, s); break;
  case K_128: r.lo = p_atonce128(&r.hi, p, o->len, s); break;
  case K_S64: p_init(&ctx, s, ~s), p_update(&ctx, p, o->len), r.lo = p_final(&ctx, NULL); break;
  case K_S128: p_init(&ctx, s, s), p_update(&ctx, p, o->len), r.lo = p_final(&ctx, &r.hi); break;
  case K_SPLIT: p_init(&ctx, 5, s), p_update(&ctx, p, o->len / 3), p_update(&ctx, p + o->len / 3, o->len - o->len / 3), r.lo = p_final(&ctx, NULL); break;
  case K_RUN: {
    p_init(&ctx, s, ~s);
    for (unsigned i = 0, n; i < o->len; i += n)
      n = o->len - i < o->which ? o->len - i : o->which, p_update(&ctx, p + i, n);
    r.lo = p_final(&ctx, NULL);
  } break;
  case K_DANGLE:
    p_init(&other, s, s);
    for (unsigned i = 0; i < o->len; i += o->which)
      p_update(&other, p + i, o->which);
    break;
  case K_RESOLVE: r.lo = (uintptr_t)p_resolve(); break;
  default: r.lo = (uint64_t)(int64_t)check_fn[o->which](); break;
  }
  ++transitions;
  return r;
}
static void expect(const op *o, res r, const char *fmt, const char *a, const char *b) {
  unsigned i = (unsigned)(o - ops);
  if (r.lo != oracle[i].lo || r.hi != oracle[i].hi) {
    char h[400];
    snprintf(h, sizeof h, fmt, a, b);
    fail("%s = %016" PRIx64 ":%016" PRIx64 " %s, but %016" PRIx64 ":%016" PRIx64 " in the initial state", op_text(o), r.hi, r.lo, h, oracle[i].hi, oracle[i].lo);
  }
}
static void add(unsigned k, unsigned w, size_t len, unsigned v, unsigned s) {
  ops[nops++] = (op){(uint8_t)k, (uint8_t)w, (uint8_t)v, (uint8_t)s, (uint16_t)len};
}
static void alphabet(const size_t *ls, unsigned nl, unsigned nv, unsigned ns, int checks) {
  nops = 0;
  for (unsigned l = 0; l < nl; ++l)
    for (unsigned v = 0; v < (ls[l] ? nv : 1); ++v)
      for (unsigned s = 0; s < ns; ++s) {
        for (unsigned f = 0; f < nplain; ++f)
          add(K_PLAIN, f, ls[l], v, s);
        if (p_funcptr)
          add(K_FUNCPTR, 0, ls[l], v, s);
        if (p_atonce128)
          add(K_128, 0, ls[l], v, s);
        if (p_init) {
          add(K_S64, 0, ls[l], v, s);
          add(K_S128, 0, ls[l], v, s);
          add(K_SPLIT, 0, ls[l], v, s);
          if (checks && (l & 1) && v == 0)
            add(K_RUN, s == 0 ? 1 : s == 1 ? 7 : 5, ls[l], v, s);
        }
      }
  if (p_init) {
    add(K_DANGLE, 1, 35, 0, 0);
    if (checks)
      add(K_DANGLE, 1, 1, 0, 0), add(K_DANGLE, 1, 300, 0, 0), add(K_DANGLE, 7, 700, 0, 0), add(K_DANGLE, 33, 3300, 0, 0);
  }
  if (p_resolve)
    add(K_RESOLVE, 0, 0, 0, 0);
  for (unsigned i = 0; checks && i < nchecks; ++i)
    add(K_CHECK, i, 0, 0, 0);
}
static uint8_t *init_state;
static void make_oracle(void) {
  free(oracle);
  oracle = calloc(nops, sizeof *oracle);
  for (unsigned i = 0; i < nops; ++i) {
    set_state(init_state);
    memset(&ctx, 0, sizeof ctx);
    if (ops[i].kind == K_RUN) { /* one update with all of it is the same */
      op o = ops[i];
      o.kind = K_S64;
      oracle[i] = perform(&o);
    } else
      oracle[i] = perform(&ops[i]);
  }
  set_state(init_state);
}

/*------------------------------------------------------------------ parts */
static int closed = 1; /* the search over library states came to a fixpoint */
static void bfs(void) {
  size_t S = state_bytes(), cap = thorough ? 20000 : 3000;
  uint8_t *store = malloc((S + 1) * (cap + 1)), *now = malloc(S + 1);
  uint32_t *from = calloc(cap + 1, 4), *via = calloc(cap + 1, 4);
  fpset known = {0};
  size_t n = 0;
#define KEY(b) ({ uint64_t k_ = 7; for (size_t z_ = 0; z_ < S; ++z_) k_ = (k_ ^ (b)[z_]) * UINT64_C(0x100000001B3), k_ ^= k_ >> 29; k_; })
  memcpy(store, init_state, S);
  fp_add(&known, KEY(init_state));
  n = 1;
  for (size_t i = 0; i < n; ++i) {
    ++states;
    for (unsigned k = 0; k < nops; ++k) {
      set_state(store + S * i);
      res r = perform(&ops[k]);
      char b[200] = "";
      if (i)
        snprintf(b, sizeof b, "%s", op_text(&ops[via[i]]));
      expect(&ops[k], r, "in a library state last changed by %s%s", i ? b : "nothing", "");
      get_state(now);
      if (fp_add(&known, KEY(now))) {
        if (n < cap) {
          memcpy(store + S * n, now, S);
          from[n] = (uint32_t)i, via[n] = k;
          ++n;
        } else
          closed = 0;
      }
    }
    /* a state that is a counter never closes: stop after a bounded number of expansions */
    if (n >= cap && i > cap / 8) {
      closed = 0;
      break;
    }
  }
  stat_u("library_states", n);
  set_state(init_state);
  free(store), free(now), free(from), free(via), free(known.v);
}
static void triples(void) {
  set_state(init_state);
  for (unsigned i = 0; i < nops; ++i)
    for (unsigned j = 0; j < nops; ++j) {
      for (unsigned k = 0; k < nops; ++k) {
        /* the walk ... i j k i j k+1 ... contains every triple */
        expect(&ops[i], perform(&ops[i]), "after many calls, the last ones %s%s", "in a walk over all triples", "");
        res rj = perform(&ops[j]);
        if (rj.lo != oracle[j].lo || rj.hi != oracle[j].hi)
          expect(&ops[j], rj, "after %s, %s", op_text(&ops[i]), "...");
        res rk = perform(&ops[k]);
        if (rk.lo != oracle[k].lo || rk.hi != oracle[k].hi)
          expect(&ops[k], rk, "after %s, then %s", op_text(&ops[i]), op_text(&ops[j]));
        ++seqs;
      }
    }
}
static void repetitions(void) {
  set_state(init_state);
  for (unsigned i = 0; i < nops; ++i) {
    uint64_t N = ops[i].kind == K_CHECK ? 300 : ops[i].len > 400 ? 20000 : thorough ? 100000000 : 1500000;
    for (uint64_t n = 0; n < N; ++n) {
      res r = perform(&ops[i]);
      if (r.lo != oracle[i].lo || r.hi != oracle[i].hi) {
        char c[40];
        snprintf(c, sizeof c, "%" PRIu64, n + 1);
        expect(&ops[i], r, "at repetition %s%s", c, "");
        break;
      }
    }
    ++seqs;
  }
}

/* When the library counts something its states never close.  Repeat every kind of
 * call that changes the state, to 2^25 and then, as time allows, beyond 2^32 times. */
static void long_repetitions(void) {
  uint8_t *now = malloc(state_bytes() + 1);
  uint64_t done = 0, t0 = (uint64_t)time(NULL);
  for (int round = 0; round < 2; ++round)
    for (unsigned i = 0; i < nops; ++i) {
      uint64_t N = round ? (UINT64_C(1) << 32) + 70000 : (UINT64_C(1) << 25) + 70000, n;
      if (ops[i].kind == K_CHECK || ops[i].kind == K_RUN || ops[i].len > 8 || ops[i].seed)
        continue;
      set_state(init_state);
      perform(&ops[i]);
      get_state(now);
      if (!memcmp(now, init_state, state_bytes()))
        continue;
      for (n = 1; n < N; ++n) {
        res r = perform(&ops[i]);
        if (r.lo != oracle[i].lo || r.hi != oracle[i].hi) {
          char c[40];
          snprintf(c, sizeof c, "%" PRIu64, n + 1);
          expect(&ops[i], r, "at repetition %s%s", c, "");
          free(now);
          return;
        }
        if (!(n & 0xfffff) && (uint64_t)time(NULL) - t0 > (round ? 240 : 120))
          break;
      }
      done = n > done ? n : done;
    }
  stat_u("longest_repetition", done);
  set_state(init_state);
  free(now);
}

/* D */
static __attribute__((noinline)) void stack_junk(int c) {
  volatile uint8_t b[6000];
  for (unsigned i = 0; i < sizeof b; ++i)
    b[i] = (uint8_t)c;
  __asm__ __volatile__("" ::"r"(b) : "memory");
}
static uint8_t junk[64] __attribute__((aligned(64)));
static inline __attribute__((always_inline)) void reg_junk(int avx) {
#ifdef __x86_64__
  if (avx)
    __asm__ __volatile__(".irp n,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15\n\tvmovups %0, %%ymm\\n\n\t.endr" ::"m"(*(uint8_t(*)[32])junk)
                         : "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
  else
    __asm__ __volatile__(".irp n,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15\n\tmovups %0, %%xmm\\n\n\t.endr" ::"m"(*(uint8_t(*)[16])junk)
                         : "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15");
#else
  if (avx)
    __asm__ __volatile__(".irp n,0,1,2,3,4,5,6,7\n\tvmovups %0, %%ymm\\n\n\t.endr" ::"m"(*(uint8_t(*)[32])junk));
  else
    __asm__ __volatile__(".irp n,0,1,2,3,4,5,6,7\n\tmovups %0, %%xmm\\n\n\t.endr" ::"m"(*(uint8_t(*)[16])junk));
#endif
}
typedef struct { uint32_t cw, sw, tag, rest[4]; } fenv87;
static void machine(void) {
  static const uint32_t mx[] = {0x1f80, 0x1f80 | 0x2000, 0x1f80 | 0x4000, 0x1f80 | 0x6000, 0x1f80 | 0x8040, 0x9fc0, 0x1fbf};
  static const uint16_t cw[] = {0x37f, 0x27f, 0x07f, 0xf7f};
  int avx = __builtin_cpu_supports("avx");
  for (unsigned i = 0; i < nops; ++i)
    for (unsigned m = 0; m < sizeof mx / sizeof *mx; ++m)
      for (unsigned x = 0; x < 4; ++x)
        for (unsigned j = 0; j < 3; ++j) {
          uint32_t csr = mx[m], csr2;
          uint16_t w = cw[x], w2;
          fenv87 e;
          uintptr_t flags;
          memset(junk, j == 0 ? 0 : j == 1 ? 0xff : 0x5b, sizeof junk);
          stack_junk(j == 0 ? 0 : j == 1 ? 0xff : 0x5b);
          errno = 4242;
          __asm__ __volatile__("ldmxcsr %0\n\tfldcw %1" ::"m"(csr), "m"(w));
          if (j < 2)
            reg_junk(avx);
          res r = perform(&ops[i]);
          __asm__ __volatile__("pushf\n\tpop %0" : "=r"(flags));
          __asm__ __volatile__("stmxcsr %0\n\tfnstcw %1" : "=m"(csr2), "=m"(w2));
          __asm__ __volatile__("fnstenv %0" : "=m"(e));
          static const uint32_t csr0 = 0x1f80;
          __asm__ __volatile__("cld\n\tfninit\n\tldmxcsr %0" ::"m"(csr0));
          expect(&ops[i], r, "under an unusual but legal machine state%s%s", "", "");
          if (csr2 != csr)
            fail("%s changed MXCSR from 0x%x to 0x%x", op_text(&ops[i]), csr, csr2);
          if (w2 != w)
            fail("%s changed the x87 control word from 0x%x to 0x%x", op_text(&ops[i]), w, w2);
          if ((e.tag & 0xffff) != 0xffff)
            fail("%s left the x87/MMX register file in use (tag word 0x%x)", op_text(&ops[i]), e.tag & 0xffff);
          if (flags >> 10 & 1)
            fail("%s left the direction flag set", op_text(&ops[i]));
          if (errno != 4242)
            fail("%s changed errno to %d", op_text(&ops[i]), errno);
          ++states;
        }
}

int main(int argc, char **argv) {
  if (argc < 4)
    return 2;
  guard_setup();
  libpath = argv[1], noif = atoi(argv[2]), thorough = !strcmp(argv[3], "thorough");
  lib = dlopen(libpath, RTLD_NOW | RTLD_LOCAL);
  if (!lib) {
    printf("ERROR %s\n", dlerror());
    return 2;
  }
  int fd = (int)syscall(SYS_memfd_create, "t", 0);
  if (fd < 0 || ftruncate(fd, 1 << 17))
    return 2;
  rw = mmap(NULL, 1 << 17, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  ro = mmap(NULL, 1 << 17, PROT_READ, MAP_SHARED, fd, 0);
  uint64_t s = 3;
  for (unsigned i = 0; i < 1 << 17; ++i)
    rw[i] = (uint8_t)splitmix(&s);
  dl_iterate_phdr(on_phdr, NULL);
  static const char *const names[] = {"t1ha2_atonce", "t1ha1_le", "t1ha1_be", "t1ha0_32le", "t1ha0_32be", "t1ha0", "t1ha0_ia32aes_noavx", "t1ha0_ia32aes_avx", "t1ha0_ia32aes_avx2"};
  for (unsigned i = 0; i < sizeof names / sizeof *names; ++i) {
    if (i == 5 && noif)
      continue;
    if ((i >= 6 && !__builtin_cpu_supports("aes")) || (i == 7 && !__builtin_cpu_supports("avx")) || (i == 8 && !__builtin_cpu_supports("avx2")))
      continue;
    fn3 f = (fn3)dlsym(lib, names[i]);
    if (f)
      plain[nplain] = f, plain_name[nplain++] = names[i];
    else if (i < 5)
      printf("NOTE %s is not exported\n", names[i]);
  }
  p_atonce128 = (void *)dlsym(lib, "t1ha2_atonce128");
  p_init = (void *)dlsym(lib, "t1ha2_init"), p_update = (void *)dlsym(lib, "t1ha2_update"), p_final = (void *)dlsym(lib, "t1ha2_final");
  p_resolve = (void *)dlsym(lib, "t1ha0_resolve");
  p_funcptr = noif ? dlsym(lib, "t1ha0_funcptr") : NULL;
  static const char *const checks[] = {"t1ha_selfcheck__t1ha2_atonce", "t1ha_selfcheck__t1ha2_atonce128", "t1ha_selfcheck__t1ha2_stream", "t1ha_selfcheck__t1ha2",
                                       "t1ha_selfcheck__t1ha1_le", "t1ha_selfcheck__t1ha1_be", "t1ha_selfcheck__t1ha1", "t1ha_selfcheck__t1ha0_32le",
                                       "t1ha_selfcheck__t1ha0_32be", "t1ha_selfcheck__t1ha0_ia32aes_noavx", "t1ha_selfcheck__t1ha0", "t1ha_selfcheck__all_enabled"};
  for (unsigned i = 0; i < sizeof checks / sizeof *checks; ++i)
    if ((check_fn[nchecks] = (void *)dlsym(lib, checks[i])))
      check_name[nchecks++] = checks[i];
  init_state = malloc(state_bytes() + 1);
  get_state(init_state);
  cur_fn = "library call";

  static const size_t la[] = {0, 1, 3, 7, 8, 13, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 256, 300, 1000, 4096, 20000};
  ops = calloc(20000, sizeof *ops);
  snprintf(cur_desc, sizeof cur_desc, "state search");
  alphabet(la, sizeof la / sizeof *la, 4, 3, 1);
  make_oracle();
  bfs();
  static const size_t lr[] = {5, 33, 40, 300};
  snprintf(cur_desc, sizeof cur_desc, "repetitions");
  alphabet(lr, thorough ? 4 : 3, 1, 1, 1);
  make_oracle();
  repetitions();
  if (!closed && !nfails)
    long_repetitions();
  static const size_t lb[] = {5, 77}, lc[] = {0, 8, 17, 33, 64, 129, 1000};
  snprintf(cur_desc, sizeof cur_desc, "all triples");
  alphabet(lb, 2, 3, 2, 0);
  if (thorough)
    alphabet(lc, 7, 4, 2, 0);
  make_oracle();
  triples();
  snprintf(cur_desc, sizeof cur_desc, "machine state");
  static const size_t lm[] = {0, 1, 7, 13, 31, 33, 64, 100, 129, 300, 4096};
  alphabet(lm, sizeof lm / sizeof *lm, 1, 2, 1);
  make_oracle();
  machine();
  cur_fn = NULL;
  sample("library memory under watch: %zu bytes, %zu of TLS", rwbytes, tls_size);
  sample("%u operations in the last alphabet, e.g. %s", nops, op_text(&ops[nops / 2]));
  stat_u("states", states);
  stat_u("transitions", transitions);
  stat_u("traces", seqs);
  printf("DONE\n");
  return nfails ? 1 : 0;
}
