/* Reference model of the published t1ha hash functions.
 *
 * Written byte by byte from the algorithm description, without using any
 * source of the library under check.  It defines what a result has to be; it
 * is validated against the golden vectors in golden.h (frozen copies of the
 * values published with t1ha 2.1) by ref_validate().
 *
 * It is deliberately boring: a message is an array of bytes, words are
 * assembled from bytes, and there is no code path that depends on alignment,
 * bitness, byte order or build options. */
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

typedef struct { uint64_t lo, hi; } ref128; /* hi is only set by 128-bit results */

uint64_t ref_t1ha2_atonce(const void *data, uint64_t len, uint64_t seed);
ref128 ref_t1ha2_atonce128(const void *data, uint64_t len, uint64_t seed);
/* the whole streamed message at once */
uint64_t ref_t1ha2_stream(const void *data, uint64_t len, uint64_t sx, uint64_t sy);
ref128 ref_t1ha2_stream128(const void *data, uint64_t len, uint64_t sx, uint64_t sy);
uint64_t ref_t1ha1_le(const void *data, uint64_t len, uint64_t seed);
uint64_t ref_t1ha1_be(const void *data, uint64_t len, uint64_t seed);
uint64_t ref_t1ha0_32le(const void *data, uint64_t len, uint64_t seed);
uint64_t ref_t1ha0_32be(const void *data, uint64_t len, uint64_t seed);
uint64_t ref_aes_a(const void *data, uint64_t len, uint64_t seed);
uint64_t ref_aes_b(const void *data, uint64_t len, uint64_t seed);

/* Incremental stream model, for messages too long to keep. */
typedef struct {
  uint64_t a, b, c, d, total;
  unsigned n;
  uint8_t buf[32];
} ref_stream;
void ref_stream_init(ref_stream *s, uint64_t sx, uint64_t sy);
void ref_stream_feed(ref_stream *s, const void *data, uint64_t len);
uint64_t ref_stream_final64(const ref_stream *s);
ref128 ref_stream_final128(const ref_stream *s);

/* Accumulators that the word being mixed in is added to before it is multiplied,
 * in the order of mixing, recorded by every call above.  Explorers use them to
 * steer multiplier operands onto arithmetic edges. */
extern uint64_t ref_rec[64];
extern unsigned ref_rec_n;

/* Number of golden vectors that did not match (0 = model validated). */
unsigned ref_validate(unsigned *checked);

#ifdef __cplusplus
}
#endif
