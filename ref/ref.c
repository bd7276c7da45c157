#include "ref.h"
#include "golden.h"
#include <string.h>

#define P0 UINT64_C(0xEC99BF0D8372CAAB)
#define P1 UINT64_C(0x82434FE90EDCEF39)
#define P2 UINT64_C(0xD4F06DB99D67BE4B)
#define P3 UINT64_C(0xBD9CACC22C6E9571)
#define P4 UINT64_C(0x9C06FAF4D023E3AB)
#define P5 UINT64_C(0xC060724A8424F345)
#define P6 UINT64_C(0xCB5AF53AE3AAAC31)

static const uint64_t tail_prime[5] = {0, P1, P2, P3, P4};

static uint64_t ror(uint64_t v, unsigned s) { return v >> s | v << (64 - s); }
static uint32_t ror32(uint32_t v, unsigned s) { return v >> s | v << (32 - s); }

/* 64x64 -> 128, schoolbook on 32-bit halves */
static ref128 mul(uint64_t x, uint64_t y) {
  ref128 r;
#ifdef __SIZEOF_INT128__
  unsigned __int128 z = (unsigned __int128)x * y;
  r.lo = (uint64_t)z;
  r.hi = (uint64_t)(z >> 64);
#else
  uint64_t x0 = x & 0xffffffffu, x1 = x >> 32;
  uint64_t y0 = y & 0xffffffffu, y1 = y >> 32;
  uint64_t a = x0 * y0, b = x0 * y1, c = x1 * y0, d = x1 * y1;
  uint64_t mid = (a >> 32) + (b & 0xffffffffu) + (c & 0xffffffffu);
  r.lo = (a & 0xffffffffu) | mid << 32;
  r.hi = d + (b >> 32) + (c >> 32) + (mid >> 32);
#endif
  return r;
}
static uint64_t mux(uint64_t x, uint64_t y) {
  ref128 r = mul(x, y);
  return r.lo ^ r.hi;
}
uint64_t ref_rec[64];
unsigned ref_rec_n;
static void mix(uint64_t *x, uint64_t *y, uint64_t w, uint64_t p) {
  ref_rec[ref_rec_n++ & 63] = *y;
  ref128 r = mul(*y + w, p);
  *x ^= r.lo;
  *y += r.hi;
}
static uint64_t fin64(uint64_t a, uint64_t b) {
  uint64_t x = (a + ror(b, 41)) * P0;
  uint64_t y = (ror(a, 23) + b) * P6;
  return mux(x ^ y, P5);
}
static ref128 fin128(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
  ref128 r;
  mix(&a, &b, ror(c, 41) ^ d, P0);
  mix(&b, &c, ror(d, 23) ^ a, P6);
  mix(&c, &d, ror(a, 19) ^ b, P5);
  mix(&d, &a, ror(b, 31) ^ c, P4);
  r.hi = c + d;
  r.lo = a ^ b;
  return r;
}

/* n bytes at p, as a number */
static uint64_t le(const uint8_t *p, unsigned n) {
  uint64_t r = 0;
  while (n--)
    r = r << 8 | p[n];
  return r;
}
static uint64_t be(const uint8_t *p, unsigned n) {
  uint64_t r = 0;
  for (unsigned i = 0; i < n; ++i)
    r = r << 8 | p[i];
  return r;
}
static uint64_t le64(const uint8_t *p) {
#if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
  uint64_t r;
  memcpy(&r, p, 8);
  return r;
#else
  return le(p, 8);
#endif
}
static uint64_t be64(const uint8_t *p) {
#if __BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__
  uint64_t r;
  memcpy(&r, p, 8);
  return __builtin_bswap64(r);
#else
  return be(p, 8);
#endif
}

/* k-th of the tail words: all are 8 bytes but the last one */
static unsigned tail_words(unsigned n) { return (n + 7) / 8; }
static uint64_t tail_le(const uint8_t *p, unsigned n, unsigned k) {
  return le(p + 8 * k, n - 8 * k < 8 ? n - 8 * k : 8);
}
static uint64_t tail_be(const uint8_t *p, unsigned n, unsigned k) {
  return be(p + 8 * k, n - 8 * k < 8 ? n - 8 * k : 8);
}

/*------------------------------------------------------------------ t1ha2 */
static void t2_block(uint64_t s[4], const uint8_t *p) {
  uint64_t w0 = le64(p), w1 = le64(p + 8), w2 = le64(p + 16), w3 = le64(p + 24);
  uint64_t d02 = w0 + ror(w2 + s[3], 56);
  uint64_t c13 = w1 + ror(w3 + s[2], 19);
  s[3] ^= s[1] + ror(w1, 38);
  s[2] ^= s[0] + ror(w0, 57);
  s[1] ^= P6 * (c13 + w2);
  s[0] ^= P5 * (d02 + w3);
}
static void t2_cd(uint64_t s[4], uint64_t x, uint64_t y) {
  s[2] = ror(y, 23) + ~x;
  s[3] = ~y + ror(x, 19);
}
static void t2_squash(uint64_t s[4]) {
  s[0] ^= P6 * (s[2] + ror(s[3], 23));
  s[1] ^= P5 * (ror(s[2], 19) + s[3]);
}
static uint64_t t2_tail64(uint64_t s[4], const uint8_t *p, unsigned n) {
  uint64_t a = s[0], b = s[1];
  unsigned words = tail_words(n);
  for (unsigned k = 0; k < words; ++k) {
    uint64_t w = tail_le(p, n, k);
    unsigned i = words - k; /* prime index; a,b alternate with it */
    if (i & 1)
      mix(&b, &a, w, tail_prime[i]);
    else
      mix(&a, &b, w, tail_prime[i]);
  }
  return fin64(a, b);
}
static ref128 t2_tail128(uint64_t s[4], const uint8_t *p, unsigned n) {
  uint64_t a = s[0], b = s[1], c = s[2], d = s[3];
  unsigned words = tail_words(n);
  for (unsigned k = 0; k < words; ++k) {
    uint64_t w = tail_le(p, n, k);
    switch (words - k) {
    case 4: mix(&a, &d, w, P4); break;
    case 3: mix(&b, &a, w, P3); break;
    case 2: mix(&c, &b, w, P2); break;
    case 1: mix(&d, &c, w, P1); break;
    }
  }
  return fin128(a, b, c, d);
}
uint64_t ref_t1ha2_atonce(const void *data, uint64_t len, uint64_t seed) {
  const uint8_t *p = data;
  uint64_t s[4] = {seed, len, 0, 0};
  if (len > 32) {
    t2_cd(s, seed, len);
    uint64_t n = len / 32;
    for (uint64_t i = 0; i < n; ++i, p += 32)
      t2_block(s, p);
    t2_squash(s);
    len %= 32;
  }
  return t2_tail64(s, p, (unsigned)len);
}
ref128 ref_t1ha2_atonce128(const void *data, uint64_t len, uint64_t seed) {
  const uint8_t *p = data;
  uint64_t s[4] = {seed, len, 0, 0};
  t2_cd(s, seed, len);
  if (len > 32) {
    uint64_t n = len / 32;
    for (uint64_t i = 0; i < n; ++i, p += 32)
      t2_block(s, p);
    len %= 32;
  }
  return t2_tail128(s, p, (unsigned)len);
}

void ref_stream_init(ref_stream *s, uint64_t sx, uint64_t sy) {
  uint64_t v[4] = {sx, sy, 0, 0};
  memset(s, 0, sizeof(*s));
  t2_cd(v, sx, sy);
  s->a = v[0], s->b = v[1], s->c = v[2], s->d = v[3];
}
static void stream_blocks(ref_stream *s, const uint8_t *p, uint64_t n) {
  uint64_t v[4] = {s->a, s->b, s->c, s->d};
  for (; n; --n, p += 32)
    t2_block(v, p);
  s->a = v[0], s->b = v[1], s->c = v[2], s->d = v[3];
}
void ref_stream_feed(ref_stream *s, const void *data, uint64_t len) {
  const uint8_t *p = data;
  s->total += len;
  while (len && s->n) {
    s->buf[s->n++] = *p++;
    --len;
    if (s->n == 32) {
      stream_blocks(s, s->buf, 1);
      s->n = 0;
    }
  }
  stream_blocks(s, p, len / 32);
  p += len / 32 * 32;
  len %= 32;
  while (len--)
    s->buf[s->n++] = *p++;
}
static ref_stream stream_close(const ref_stream *in) {
  ref_stream s = *in;
  uint8_t bits[8];
  uint64_t v = (in->total << 3) ^ UINT64_C(1) << 63;
  for (int i = 0; i < 8; ++i)
    bits[i] = (uint8_t)(v >> 8 * i);
  ref_stream_feed(&s, bits, 8);
  return s;
}
uint64_t ref_stream_final64(const ref_stream *in) {
  ref_stream s = stream_close(in);
  uint64_t v[4] = {s.a, s.b, s.c, s.d};
  t2_squash(v);
  return t2_tail64(v, s.buf, s.n);
}
ref128 ref_stream_final128(const ref_stream *in) {
  ref_stream s = stream_close(in);
  uint64_t v[4] = {s.a, s.b, s.c, s.d};
  return t2_tail128(v, s.buf, s.n);
}
uint64_t ref_t1ha2_stream(const void *data, uint64_t len, uint64_t sx, uint64_t sy) {
  ref_stream s;
  ref_stream_init(&s, sx, sy);
  ref_stream_feed(&s, data, len);
  return ref_stream_final64(&s);
}
ref128 ref_t1ha2_stream128(const void *data, uint64_t len, uint64_t sx, uint64_t sy) {
  ref_stream s;
  ref_stream_init(&s, sx, sy);
  ref_stream_feed(&s, data, len);
  return ref_stream_final128(&s);
}

/*------------------------------------------------------------------ t1ha1 */
static uint64_t t1(const uint8_t *p, uint64_t len, uint64_t seed, int big) {
  uint64_t a = seed, b = len;
  if (len > 32) {
    uint64_t c = ror(len, 17) + seed, d = len ^ ror(seed, 17);
    uint64_t n = len / 32;
    for (; n; --n, p += 32) {
      uint64_t w[4];
      for (int i = 0; i < 4; ++i)
        w[i] = big ? be64(p + 8 * i) : le64(p + 8 * i);
      uint64_t d02 = w[0] ^ ror(w[2] + d, 17);
      uint64_t c13 = w[1] ^ ror(w[3] + c, 17);
      d -= b ^ ror(w[1], 31);
      c += a ^ ror(w[0], 41);
      b ^= P0 * (c13 + w[2]);
      a ^= P1 * (d02 + w[3]);
    }
    a ^= P6 * (ror(c, 17) + d);
    b ^= P5 * (c + ror(d, 17));
    len %= 32;
  }
  unsigned words = tail_words((unsigned)len);
  for (unsigned k = 0; k < words; ++k) {
    uint64_t w = big ? tail_be(p, (unsigned)len, k) : tail_le(p, (unsigned)len, k);
    unsigned i = words - k;
    if (i & 1)
      a += mux(w, tail_prime[i]);
    else
      b += mux(w, tail_prime[i]);
  }
  uint64_t m = (a ^ b) * P0;
  return mux(ror(a + b, 17), P4) + (m ^ ror(m, 41));
}
uint64_t ref_t1ha1_le(const void *d, uint64_t n, uint64_t s) { return t1(d, n, s, 0); }
uint64_t ref_t1ha1_be(const void *d, uint64_t n, uint64_t s) { return t1(d, n, s, 1); }

/*--------------------------------------------------------------- t1ha0_32 */
#define Q0 UINT32_C(0x92D78269)
#define Q1 UINT32_C(0xCA9B4735)
#define Q2 UINT32_C(0xA4ABA1C3)
#define Q3 UINT32_C(0xF6499843)
#define Q4 UINT32_C(0x86F0FD61)
#define Q5 UINT32_C(0xCA2DA6FB)
#define Q6 UINT32_C(0xC4BB3575)
static void mix32(uint32_t *x, uint32_t *y, uint32_t w, uint32_t q) {
  ref_rec[ref_rec_n++ & 63] = *y;
  uint64_t l = (uint64_t)(uint32_t)(*y + w) * q;
  *x ^= (uint32_t)l;
  *y += (uint32_t)(l >> 32);
}
static uint64_t t0(const uint8_t *p, uint64_t len, uint64_t seed, int big) {
  static const uint32_t q[5] = {0, Q1, Q2, Q3, Q4};
  uint32_t a = ror32((uint32_t)len, 17) + (uint32_t)seed;
  uint32_t b = (uint32_t)len ^ (uint32_t)(seed >> 32);
  if (len > 16) {
    uint32_t c = ~a, d = ror32(b, 5);
    uint64_t n = len / 16;
    for (; n; --n, p += 16) {
      uint32_t w[4];
      for (int i = 0; i < 4; ++i)
        w[i] = (uint32_t)(big ? be(p + 4 * i, 4) : le(p + 4 * i, 4));
      uint32_t d13 = w[1] + ror32(w[3] + d, 17);
      uint32_t c02 = w[0] ^ ror32(w[2] + c, 11);
      d ^= ror32(a + w[0], 3);
      c ^= ror32(b + w[1], 7);
      b = Q1 * (c02 + w[3]);
      a = Q0 * (d13 ^ w[2]);
    }
    c += a;
    d += b;
    a ^= Q6 * (ror32(c, 16) + d);
    b ^= Q5 * (c + ror32(d, 16));
    len %= 16;
  }
  unsigned words = (unsigned)(len + 3) / 4;
  for (unsigned k = 0; k < words; ++k) {
    unsigned m = (unsigned)len - 4 * k < 4 ? (unsigned)len - 4 * k : 4;
    uint32_t w = (uint32_t)(big ? be(p + 4 * k, m) : le(p + 4 * k, m));
    unsigned i = words - k;
    if (i & 1)
      mix32(&b, &a, w, q[i]);
    else
      mix32(&a, &b, w, q[i]);
  }
  uint64_t l = (uint64_t)(b ^ ror32(a, 13)) | (uint64_t)a << 32;
  l *= P0;
  l ^= l >> 41;
  l *= P4;
  l ^= l >> 47;
  l *= P6;
  return l;
}
uint64_t ref_t1ha0_32le(const void *d, uint64_t n, uint64_t s) { return t0(d, n, s, 0); }
uint64_t ref_t1ha0_32be(const void *d, uint64_t n, uint64_t s) { return t0(d, n, s, 1); }

/*------------------------------------------------------- t1ha0, AES family
 * AES rounds in software, from the FIPS-197 definition. */
static uint8_t sbox[256], inv_sbox[256];
static uint32_t te[4][256], td[4][256];
static volatile int aes_ready;

static uint8_t xt(uint8_t v) { return (uint8_t)(v << 1 ^ (v >> 7) * 0x1b); }
static uint8_t gmul(uint8_t a, uint8_t b) {
  uint8_t r = 0;
  for (; b; b >>= 1, a = xt(a))
    if (b & 1)
      r ^= a;
  return r;
}
static void aes_setup(void) {
  for (int i = 0; i < 256; ++i) {
    uint8_t inv = 0;
    for (int j = 1; i && j < 256; ++j)
      if (gmul((uint8_t)i, (uint8_t)j) == 1)
        inv = (uint8_t)j;
    uint8_t s = 0x63;
    for (int k = 0; k < 5; ++k)
      s ^= (uint8_t)(inv << k | inv >> (8 - k));
    sbox[i] = s;
    inv_sbox[s] = (uint8_t)i;
  }
  for (int i = 0; i < 256; ++i) {
    uint8_t s = sbox[i], v = inv_sbox[i];
    /* column contributed by a byte standing in row r */
    uint8_t e[4] = {gmul(s, 2), s, s, gmul(s, 3)};
    uint8_t d[4] = {gmul(v, 14), gmul(v, 9), gmul(v, 13), gmul(v, 11)};
    for (int r = 0; r < 4; ++r) {
      uint32_t we = 0, wd = 0;
      for (int k = 0; k < 4; ++k) {
        we |= (uint32_t)e[(k - r) & 3] << 8 * k;
        wd |= (uint32_t)d[(k - r) & 3] << 8 * k;
      }
      te[r][i] = we;
      td[r][i] = wd;
    }
  }
  aes_ready = 1;
}

typedef struct { uint64_t l, h; } v128;
static uint32_t col(v128 x, int c) {
  uint64_t q = c < 2 ? x.l : x.h;
  return (uint32_t)(q >> 32 * (c & 1));
}
static v128 cols(const uint32_t c[4]) {
  v128 r = {c[0] | (uint64_t)c[1] << 32, c[2] | (uint64_t)c[3] << 32};
  return r;
}
static v128 vxor(v128 a, v128 b) { v128 r = {a.l ^ b.l, a.h ^ b.h}; return r; }
static v128 vadd(v128 a, v128 b) { v128 r = {a.l + b.l, a.h + b.h}; return r; }
static v128 vsub(v128 a, v128 b) { v128 r = {a.l - b.l, a.h - b.h}; return r; }
static v128 vset(uint64_t h, uint64_t l) { v128 r = {l, h}; return r; }
static v128 vload(const uint8_t *p) { v128 r = {le64(p), le64(p + 8)}; return r; }
#ifdef REF_AESNI /* only the round primitive, for explorers that need gigabytes; validated like the rest */
#include <wmmintrin.h>
static v128 enc(v128 x, v128 k) {
  __m128i r = _mm_aesenc_si128(_mm_set_epi64x((long long)x.h, (long long)x.l), _mm_set_epi64x((long long)k.h, (long long)k.l));
  memcpy(&x, &r, 16);
  return x;
}
static v128 dec(v128 x, v128 k) {
  __m128i r = _mm_aesdec_si128(_mm_set_epi64x((long long)x.h, (long long)x.l), _mm_set_epi64x((long long)k.h, (long long)k.l));
  memcpy(&x, &r, 16);
  return x;
}
#else
static v128 enc(v128 x, v128 k) {
  uint32_t o[4];
  for (int c = 0; c < 4; ++c) {
    o[c] = 0;
    for (int r = 0; r < 4; ++r)
      o[c] ^= te[r][(uint8_t)(col(x, (c + r) & 3) >> 8 * r)];
  }
  return vxor(cols(o), k);
}
static v128 dec(v128 x, v128 k) {
  uint32_t o[4];
  for (int c = 0; c < 4; ++c) {
    o[c] = 0;
    for (int r = 0; r < 4; ++r)
      o[c] ^= td[r][(uint8_t)(col(x, (c - r) & 3) >> 8 * r)];
  }
  return vxor(cols(o), k);
}
#endif
static uint64_t aes_finish(uint64_t a, uint64_t b, const uint8_t *p, unsigned len) {
  unsigned words = tail_words(len);
  for (unsigned k = 0; k < words; ++k) {
    uint64_t w = tail_le(p, len, k);
    unsigned i = words - k;
    if (i & 1)
      mix(&b, &a, w, tail_prime[i]);
    else
      mix(&a, &b, w, tail_prime[i]);
  }
  return fin64(a, b);
}
static void aes_pair(v128 *x, v128 *y, const uint8_t *p) {
  v128 v0y = vadd(*y, vload(p)), v1x = vsub(*x, vload(p + 16));
  *x = dec(*x, v0y);
  *y = dec(*y, v1x);
}
uint64_t ref_aes_a(const void *data, uint64_t len, uint64_t seed) {
  const uint8_t *p = data;
  uint64_t a = seed, b = len;
  if (!aes_ready)
    aes_setup();
  if (len > 32) {
    v128 x = vset(a, b), y = enc(x, vset(P5, P6));
    for (uint64_t n = len / 128; n; --n, p += 128) {
      v128 v[8];
      for (int i = 0; i < 8; ++i)
        v[i] = vload(p + 16 * i);
      v128 v0y = enc(v[0], y);
      v128 v2x6 = enc(v[2], vxor(x, v[6]));
      v128 v4567 = vxor(enc(v[4], v[5]), vadd(v[6], v[7]));
      v128 v0y71 = dec(vsub(v[7], v0y), v[1]);
      v128 v2x63 = enc(v2x6, v[3]);
      x = enc(v4567, vadd(x, y));
      y = enc(v2x63, vxor(v0y71, v[5]));
    }
    if (len & 64) {
      aes_pair(&x, &y, p);
      aes_pair(&x, &y, p + 32);
      p += 64;
    }
    if (len & 32) {
      aes_pair(&x, &y, p);
      p += 32;
    }
    if (len & 16) {
      y = vadd(x, y);
      x = dec(x, vload(p));
      p += 16;
    }
    x = vadd(dec(x, enc(y, x)), y);
    a = x.l;
    b = x.h;
    len &= 15;
  }
  return aes_finish(a, b, p, (unsigned)len);
}
uint64_t ref_aes_b(const void *data, uint64_t len, uint64_t seed) {
  const uint8_t *p = data;
  uint64_t a = seed, b = len;
  if (!aes_ready)
    aes_setup();
  if (len > 32) {
    v128 x = vset(a, b), y = enc(x, vset(P0, P1));
    uint64_t n = len / 16;
    if (n & 1) {
      x = vadd(x, vload(p));
      y = enc(x, y);
      p += 16;
      --n;
    }
    if (n >= 8) {
      v128 salt = y;
      do {
        v128 t = enc(vload(p), salt);
        for (int i = 1; i < 8; ++i)
          t = dec(t, vload(p + 16 * i));
        p += 128;
        n -= 8;
        salt = vadd(salt, vset(P5, P6));
        t = enc(x, t);
        x = vadd(y, x);
        y = t;
      } while (n >= 8);
    }
    for (; n; n -= 2, p += 32)
      aes_pair(&x, &y, p);
    x = vadd(dec(x, enc(y, x)), y);
    a = x.l;
    b = x.h;
    len &= 15;
  }
  return aes_finish(a, b, p, (unsigned)len);
}

/*------------------------------------------------------------- validation */
static const uint8_t pattern[64] = {
    0,    1,    2,    3,    4,    5,    6,    7,    0xFF, 0x7F, 0x3F,
    0x1F, 0xF,  8,    16,   32,   64,   0x80, 0xFE, 0xFC, 0xF8, 0xF0,
    0xE0, 0xC0, 0xFD, 0xFB, 0xF7, 0xEF, 0xDF, 0xBF, 0x55, 0xAA, 11,
    17,   19,   23,   29,   37,   42,   43,   'a',  'b',  'c',  'd',
    'e',  'f',  'g',  'h',  'i',  'j',  'k',  'l',  'm',  'n',  'o',
    'p',  'q',  'r',  's',  't',  'u',  'v',  'w',  'x'};

typedef uint64_t (*ref_fn)(const void *, uint64_t, uint64_t);
static uint64_t w_128(const void *d, uint64_t n, uint64_t s) { return ref_t1ha2_atonce128(d, n, s).lo; }
static uint64_t w_st(const void *d, uint64_t n, uint64_t s) { return ref_t1ha2_stream(d, n, s, s); }
static uint64_t w_st128(const void *d, uint64_t n, uint64_t s) { return ref_t1ha2_stream128(d, n, s, s).lo; }

static unsigned validate(ref_fn f, const uint64_t *g, unsigned *checked) {
  unsigned bad = 0;
  uint64_t seed = 1;
  uint8_t lng[512];
  bad += f(pattern, 0, 0) != *g++;
  bad += f(pattern, 0, ~UINT64_C(0)) != *g++;
  bad += f(pattern, 64, 0) != *g++;
  for (int i = 1; i < 64; ++i, seed <<= 1)
    bad += f(pattern, i, seed) != *g++;
  seed = ~UINT64_C(0);
  for (int i = 1; i <= 7; ++i)
    bad += f(pattern + i, 64 - i, seed <<= 1) != *g++;
  for (int i = 0; i < 512; ++i)
    lng[i] = (uint8_t)i;
  for (int i = 0; i <= 7; ++i)
    bad += f(lng + i, 128 + i * 17, seed) != *g++;
  *checked += 81;
  return bad;
}
unsigned ref_validate(unsigned *checked) {
  unsigned bad = 0;
  *checked = 0;
  if (!aes_ready)
    aes_setup();
  bad += validate(ref_t1ha2_atonce, golden_2atonce, checked);
  bad += validate(w_128, golden_2atonce128, checked);
  bad += validate(w_st, golden_2stream, checked);
  bad += validate(w_st128, golden_2stream128, checked);
  bad += validate(ref_t1ha1_le, golden_64le, checked);
  bad += validate(ref_t1ha1_be, golden_64be, checked);
  bad += validate(ref_t1ha0_32le, golden_32le, checked);
  bad += validate(ref_t1ha0_32be, golden_32be, checked);
  bad += validate(ref_aes_a, golden_ia32aes_a, checked);
  bad += validate(ref_aes_b, golden_ia32aes_b, checked);
  return bad;
}
