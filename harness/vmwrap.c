/* Compiled for the foreign target together with the library: what a user's translation unit sees. */
#include "t1ha.h"
uint32_t w_ctx_size(void) { return (uint32_t)sizeof(t1ha_context_t); }
uint32_t w_ctx_align(void) { return (uint32_t)_Alignof(t1ha_context_t); }
uint32_t w_u64_align(void) { return (uint32_t)_Alignof(uint64_t); }
uint32_t w_big(void) { return __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__; }
uint32_t w_long_bits(void) { return 8 * (uint32_t)(sizeof(long) > sizeof(void *) ? sizeof(long) : sizeof(void *)); }
#ifndef T1HA0_DISABLED
uint64_t w_t1ha0(const void *d, size_t n, uint64_t s) { return t1ha0(d, n, s); }
#if T1HA0_RUNTIME_SELECT
uint64_t w_t1ha0_resolved(const void *d, size_t n, uint64_t s) { return t1ha0_resolve()(d, n, s); }
#endif
#endif
