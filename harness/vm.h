/* The simulated machine under the code that checks/ir2c.py generates: explicit memory, the target's byte order
 * (VM_BIG) and pointer width (VM_PBITS); every access is judged. */
#pragma once
#include <stdint.h>
#include <string.h>
typedef uint8_t u8;
typedef uint16_t u16;
typedef uint32_t u32;
typedef uint64_t u64;
typedef unsigned __int128 u128;
typedef __int128 s128;

#define VM_USER (16u << 12)           /* messages */
#define VM_GAP (1u << 12)             /* nothing */
#define VM_REST (1u << 18)            /* contexts, results, globals, stack */
#define VM_TOTAL (VM_USER + VM_GAP + VM_REST)
static u8 vm_mem[VM_TOTAL];
#if VM_PBITS == 32
static const u64 vm_base = 0x80000000u - 8 * 4096u; /* messages around the sign change of addresses */
#define PM(a) ((u64)(a) & 0xffffffffu)
#elif VM_PBITS == 64
static const u64 vm_base = 0x7ffe00000000ull - 8 * 4096u; /* low halves of the addresses wrap in the middle */
#define PM(a) ((u64)(a))
#else
#error pointer width
#endif
static u64 vm_gp, vm_sp, vm_accesses;
static int vm_page_rule = 1, vm_exact, vm_align_rule;
static u64 vm_mlo, vm_mhi; /* the message, offsets in the user area */
static u8 vm_touched[VM_USER];

__attribute__((noinline)) static void vm_fail(const char *fmt, ...);

static inline u8 *vm_at(u64 a, unsigned n, u64 align, int wr) {
  u64 o = a - vm_base;
  ++vm_accesses;
  if (__builtin_expect(o >= VM_TOTAL || o + n > VM_TOTAL, 0))
    vm_fail("%s of %u bytes at 0x%llx: no memory there", wr ? "write" : "read", n, (unsigned long long)a);
  if (vm_align_rule && __builtin_expect((a & (align - 1)) != 0, 0))
    vm_fail("%s of %u bytes at 0x%llx: the machine is told that the address is a multiple of %u", wr ? "write" : "read", n, (unsigned long long)a, (unsigned)align);
  if (o < VM_USER + VM_GAP) {
    if (wr || o + n > VM_USER)
      vm_fail("%s of %u bytes %lld from the start of the message", wr ? "write" : "read", n, (long long)(o - vm_mlo));
    if (vm_exact && (o < vm_mlo || o + n > vm_mhi))
      vm_fail("read of %u bytes at message byte %lld (length %lld)", n, (long long)(o - vm_mlo), (long long)(vm_mhi - vm_mlo));
    if (vm_page_rule && (vm_mlo == vm_mhi || o >> 12 < vm_mlo >> 12 || (o + n - 1) >> 12 > (vm_mhi - 1) >> 12))
      vm_fail("read of %u bytes at message byte %lld (length %lld) touches a page that holds none of it", n, (long long)(o - vm_mlo), (long long)(vm_mhi - vm_mlo));
    for (unsigned i = 0; i < n; ++i)
      vm_touched[o + i] = 1;
  }
  return vm_mem + o;
}
#define VM_ACC(B, T, SW)                                                                                              \
  static inline T vm_ld##B(u64 a, unsigned align) {                                                                   \
    T v;                                                                                                              \
    memcpy(&v, vm_at(a, sizeof v, align, 0), sizeof v);                                                               \
    return VM_BIG ? SW(v) : v;                                                                                        \
  }                                                                                                                   \
  static inline void vm_st##B(u64 a, unsigned align, T v) {                                                           \
    v = VM_BIG ? SW(v) : v;                                                                                           \
    memcpy(vm_at(a, sizeof v, align, 1), &v, sizeof v);                                                               \
  }                                                                                                                   \
  static inline void vm_poke##B(u64 a, T v) {                                                                         \
    v = VM_BIG ? SW(v) : v;                                                                                           \
    memcpy(vm_mem + (a - vm_base), &v, sizeof v);                                                                     \
  }
static inline u128 vm_sw128(u128 v) { return (u128)__builtin_bswap64((u64)v) << 64 | __builtin_bswap64((u64)(v >> 64)); }
VM_ACC(8, u8, )
VM_ACC(16, u16, __builtin_bswap16)
VM_ACC(32, u32, __builtin_bswap32)
VM_ACC(64, u64, __builtin_bswap64)
VM_ACC(128, u128, vm_sw128)
static void vm_poke(u64 a, const u8 *p, u64 n) { memcpy(vm_mem + (a - vm_base), p, n); }
static u64 vm_peek64(u64 a) {
  u64 v;
  memcpy(&v, vm_mem + (a - vm_base), 8);
  return VM_BIG ? __builtin_bswap64(v) : v;
}

static u64 vm_galloc(u64 n, u64 align) {
  u64 r = (vm_gp + align - 1) / align * align;
  vm_gp = r + n;
  if (vm_gp - vm_base > VM_USER + VM_GAP + VM_REST / 2)
    vm_fail("globals do not fit");
  return r;
}
static u64 vm_alloca(u64 n, u64 align) {
  vm_sp = (vm_sp - n) & ~(align - 1);
  if (vm_sp - vm_base < VM_USER + VM_GAP + VM_REST / 2)
    vm_fail("stack overflow");
  memset(vm_mem + (vm_sp - vm_base), 0xA7, n); /* uninitialised */
  return vm_sp;
}
static u64 vm_memcpy(u64 d, u64 s, u64 n, int move) {
  u8 tmp[4096];
  if (n > sizeof tmp)
    vm_fail("memcpy of 0x%llx bytes", (unsigned long long)n);
  if (!move && n && d != s && d - s + n - 1 < 2 * n - 1)
    vm_fail("memcpy between overlapping areas");
  for (u64 i = 0; i < n; ++i)
    tmp[i] = *vm_at(s + i, 1, 1, 0);
  for (u64 i = 0; i < n; ++i)
    *vm_at(d + i, 1, 1, 1) = tmp[i];
  return d;
}
static u64 vm_memset(u64 d, u64 c, u64 n) {
  if (n > 4096)
    vm_fail("memset of 0x%llx bytes", (unsigned long long)n);
  for (u64 i = 0; i < n; ++i)
    *vm_at(d + i, 1, 1, 1) = (u8)c;
  return d;
}
static int vm_memcmp(u64 a, u64 b, u64 n) {
  for (u64 i = 0; i < n; ++i) {
    int x = *vm_at(a + i, 1, 1, 0), y = *vm_at(b + i, 1, 1, 0);
    if (x != y)
      return x - y;
  }
  return 0;
}

#define SX64(v, n) ((int64_t)((u64)(v) << (64 - (n))) >> (64 - (n)))
#define SX128(v, n) ((s128)((u128)(v) << (128 - (n))) >> (128 - (n)))
/* an oversized shift gives poison, a value nobody may depend on */
#define SH(s, n) ((u64)(s) & ((n) > 64 ? 127 : (n) > 32 ? 63 : (n) > 16 ? 31 : (n) > 8 ? 15 : 7))
#define NZ64(v) ((v) ? (u64)(v) : (vm_fail("division by zero"), 1))
#define NZ128(v) ((v) ? (u128)(v) : (vm_fail("division by zero"), 1))
#define NZS(v) ((v) ? (v) : (vm_fail("division by zero"), 1))
static inline u64 vm_bswap(u64 v, int w) { return __builtin_bswap64(v) >> (64 - w); }
static inline u64 vm_fshl(u64 a, u64 b, u64 s, int w) {
  s %= (unsigned)w;
  return s ? a << s | b >> (w - s) : a;
}
static inline u64 vm_fshr(u64 a, u64 b, u64 s, int w) {
  s %= (unsigned)w;
  return s ? a << (w - s) | b >> s : b;
}
static inline u64 vm_ctpop(u64 v, int w) { (void)w; return (u64)__builtin_popcountll(v); }
static inline u64 vm_ctlz(u64 v, int w) { return v ? (u64)__builtin_clzll(v) - (u64)(64 - w) : (u64)w; }
static inline u64 vm_cttz(u64 v, int w) { return v ? (u64)__builtin_ctzll(v) : (u64)w; }
static inline u64 vm_bitreverse(u64 v, int w) {
  u64 r = 0;
  for (int i = 0; i < w; ++i)
    r |= (v >> i & 1) << (w - 1 - i);
  return r;
}
static void vm_init_globals(void);
static void vm_boot(void) {
  vm_gp = vm_base + VM_USER + VM_GAP + VM_REST / 8;
  vm_sp = vm_base + VM_TOTAL - 64;
  vm_init_globals();
}
/* the harness's own objects */
#define VM_CTX(i) (vm_base + VM_USER + VM_GAP + 256 + (u64)(i) * 512)
