/* A model machine answering the CPU queries of a library whose cpuid and xgetbv
 * instructions were replaced by undefined ones of equal length. */
#pragma once
#include "common.h"
#include <ucontext.h>

typedef struct { uint32_t a, b, c, d; } regs4;
typedef struct {
  uint32_t max_leaf;
  regs4 l1, l7;    /* leaf 1; leaf 7 subleaf 0 */
  uint64_t xcr0;
  int junk;        /* what undefined leaves and other subleaves hold: 0 zeros, 1 ones, 2 the highest leaf's data, 3 pseudo-random */
} machine_t;
static machine_t M;
#define M_AES(m) ((m)->l1.c >> 25 & 1)
#define M_OSXSAVE(m) ((m)->l1.c >> 27 & 1)
#define M_AVX(m) ((m)->l1.c >> 28 & 1)
#define M_AVX2(m) ((m)->l7.b >> 5 & 1)

/* places of the replaced instructions (offsets in the library) */
static struct { char kind; uintptr_t off; } patched[256];
static unsigned npatched;
static uint64_t nqueries;
static const char *illegal; /* an unsupported query was made */

static regs4 junk_regs(int j, uint32_t leaf, uint32_t sub) {
  regs4 r = {0, 0, 0, 0};
  uint64_t s = leaf * 977u + sub;
  if (j == 1)
    memset(&r, 0xff, sizeof r);
  else if (j == 3) {
    uint64_t x = splitmix(&s), y = splitmix(&s);
    r.a = (uint32_t)x, r.b = (uint32_t)(x >> 32), r.c = (uint32_t)y, r.d = (uint32_t)(y >> 32);
  }
  return r;
}
static regs4 do_cpuid(uint32_t leaf, uint32_t sub) {
  regs4 r;
  ++nqueries;
  if (leaf == 0) {
    r.a = M.max_leaf, r.b = 0x756e6547, r.d = 0x49656e69, r.c = 0x6c65746e;
    return r;
  }
  if (leaf >= 0x80000000u) {
    r = junk_regs(M.junk == 2 ? 0 : M.junk, leaf, sub);
    if (leaf == 0x80000000u)
      r.a = M.junk == 1 ? 0x80000008u : 0;
    return r;
  }
  if (leaf > M.max_leaf) {
    if (M.junk != 2)
      return junk_regs(M.junk, leaf, sub);
    if (M.max_leaf == 0) /* Intel: data of the highest basic leaf */
      return do_cpuid(0, 0);
    return do_cpuid(M.max_leaf, sub);
  }
  if (leaf == 1)
    return M.l1;
  if (leaf == 7 && sub == 0)
    return M.l7;
  return junk_regs(M.junk == 2 ? 3 : M.junk, leaf, sub);
}

#ifdef __x86_64__
#define R(n) (uc->uc_mcontext.gregs[REG_R##n])
#define REG_PC REG_RIP
#else
#define R(n) (uc->uc_mcontext.gregs[REG_E##n])
#define REG_PC REG_EIP
#endif
static void ill_handler(int sig, siginfo_t *si, void *ctx) {
  ucontext_t *uc = ctx;
  uintptr_t pc = (uintptr_t)uc->uc_mcontext.gregs[REG_PC];
  const uint8_t *b = (const uint8_t *)pc;
  char kind = b[0] == 0x0f && b[1] == 0x0b ? 'c' : b[0] == 0xf0 && b[1] == 0x90 ? 'x' : 0;
  unsigned i;
  for (i = 0; i < npatched; ++i)
    if (patched[i].kind == kind && ((patched[i].off ^ pc) & 0xfff) == 0)
      break;
  if (!kind || i == npatched)
    crash_handler(sig, si, ctx);
  if (kind == 'c') {
    regs4 r = do_cpuid((uint32_t)R(AX), (uint32_t)R(CX));
    R(AX) = r.a, R(BX) = r.b, R(CX) = r.c, R(DX) = r.d;
    uc->uc_mcontext.gregs[REG_PC] = (greg_t)(pc + 2);
  } else {
    ++nqueries;
    if (!M_OSXSAVE(&M) || M.max_leaf < 1)
      illegal = "xgetbv on a machine without OSXSAVE (undefined instruction there)";
    if ((uint32_t)R(CX) != 0)
      illegal = "xgetbv of a register other than XCR0";
    R(AX) = (uint32_t)M.xcr0;
    R(DX) = (uint32_t)(M.xcr0 >> 32);
    uc->uc_mcontext.gregs[REG_PC] = (greg_t)(pc + 3);
  }
}

/* symbols of the library */
static struct { char name[64]; uintptr_t off; } syms[4096];
static unsigned nsyms;
static void read_table(const char *file) {
  FILE *f = fopen(file, "r");
  char k[8], name[256];
  unsigned long off;
  if (!f)
    exit(2);
  while (fscanf(f, "%7s %lx %255s", k, &off, name) == 3)
    if (*k == 'f') {
      if (nsyms < 4096) {
        snprintf(syms[nsyms].name, 64, "%.63s", name);
        syms[nsyms++].off = off;
      }
    } else if (npatched < 256)
      patched[npatched].kind = *k, patched[npatched++].off = off;
  fclose(f);
}
static uintptr_t sym(const char *n) {
  for (unsigned i = 0; i < nsyms; ++i)
    if (!strcmp(syms[i].name, n))
      return syms[i].off;
  return 0;
}
static const char *sym_at(uintptr_t off) {
  for (unsigned i = 0; i < nsyms; ++i)
    if (syms[i].off == off)
      return syms[i].name;
  return "?";
}
static void cpuenv_setup(void) {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = ill_handler;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  sigaction(SIGILL, &sa, NULL);
}
/* the most capable variant this machine can run: 0 portable, 1 noavx, 2 avx, 3 avx2 */
static int best_variant(const machine_t *m) {
  int aes = m->max_leaf >= 1 && M_AES(m);
  int avx = m->max_leaf >= 1 && M_AVX(m) && M_OSXSAVE(m) && (m->xcr0 & 6) == 6;
  int avx2 = avx && m->max_leaf >= 7 && M_AVX2(m);
  return !aes ? 0 : avx2 ? 3 : avx ? 2 : 1;
}
static const char *machine_text(const machine_t *m) {
  static char b[300];
  snprintf(b, sizeof b, "max leaf 0x%x, AES=%u OSXSAVE=%u AVX=%u AVX2=%u XCR0=0x%" PRIx64 " (leaf 1 %08x %08x %08x %08x, leaf 7 %08x %08x %08x %08x, undefined leaves: kind %d)",
           m->max_leaf, M_AES(m), M_OSXSAVE(m), M_AVX(m), M_AVX2(m), m->xcr0, m->l1.a, m->l1.b, m->l1.c, m->l1.d, m->l7.a, m->l7.b, m->l7.c, m->l7.d, m->junk);
  return b;
}
