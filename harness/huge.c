/* P18: messages around and beyond 2^31 and 2^32 bytes, at once and streamed.
 * One physical megabyte is mapped again and again over the whole range; pages at both ends and around the
 * interesting borders are private, so that a skipped, repeated or misplaced piece shows. */
#include "entries.h"

static uint8_t *base;
static uint64_t span;
static uint64_t calls, bytes, distinct;
static fpset seen;

static void setup(uint64_t need, uint64_t seed) {
  const size_t piece = 1 << 20;
  int fd = memfd_create("huge", 0);
  if (fd < 0 || ftruncate(fd, piece)) {
    perror("memfd");
    exit(2);
  }
  span = (need + piece - 1) / piece * piece;
  base = mmap(NULL, span + 2 * piece, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (base == MAP_FAILED && sizeof(size_t) == 4 && need > UINT64_C(0x88000000)) {
    printf("NOTE no room for %llu bytes of address space\n", (unsigned long long)need);
    setup(UINT64_C(0x88000000), seed);
    return;
  }
  if (base == MAP_FAILED) {
    printf("NOTE no room for %llu bytes of address space\nDONE\n", (unsigned long long)need);
    exit(0);
  }
  base = (uint8_t *)(((uintptr_t)base + piece - 1) & ~(uintptr_t)(piece - 1));
  for (uint64_t o = 0; o < span; o += piece)
    if (mmap(base + o, piece, PROT_READ | (o ? 0 : PROT_WRITE), (o ? MAP_SHARED : MAP_SHARED) | MAP_FIXED | MAP_POPULATE, fd, 0) == MAP_FAILED) {
      perror("mmap piece");
      exit(2);
    }
  uint64_t s = seed;
  for (size_t i = 0; i < piece; i += 8) {
    uint64_t v = splitmix(&s);
    memcpy(base + i, &v, 8);
  }
  close(fd);
}
/* makes the page at offset o differ from the repeated pattern */
static void own(uint64_t o, uint64_t seed) {
  o &= ~(uint64_t)4095;
  if (o >= span)
    return;
  if (mmap(base + o, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0) == MAP_FAILED) {
    perror("mmap page");
    exit(2);
  }
  uint64_t s = seed ^ o;
  for (int i = 0; i < 4096; i += 8) {
    uint64_t v = splitmix(&s);
    memcpy(base + o + i, &v, 8);
  }
}
static void judge(const char *what, uint64_t len, unsigned off, uint64_t s1, uint64_t s2, res r, res x, int wide) {
  ++calls;
  distinct += (unsigned)fp_add(&seen, fp_mix(r.lo, len));
  if (r.lo != x.lo || (wide && r.hi != x.hi))
    fail("%s len=%llu (0x%llx) offset=%u seeds=0x%" PRIx64 ",0x%" PRIx64 " gives %016" PRIx64 ":%016" PRIx64 " instead of %016" PRIx64 ":%016" PRIx64,
         what, (unsigned long long)len, (unsigned long long)len, off, s1, s2, r.hi, r.lo, x.hi, x.lo);
}

int main(int argc, char **argv) {
  /* huge <name prefix> <seed> <len>... ; or huge stream <seed> <total> <chunk>...; or huge split|selfsplit <seed> <len>... */
  if (argc < 4)
    return 2;
  guard_setup();
  struct itimerval tv = {{60, 0}, {60, 0}}; /* long calls are normal here */
  setitimer(ITIMER_PROF, &tv, NULL);
  unsigned checked;
  if (ref_validate(&checked))
    return printf("reference model is broken\n"), 2;
  uint64_t seed = strtoull(argv[2], NULL, 0), max = 0, s1 = UINT64_C(0x0123456789ABCDEF) * seed, s2 = ~s1;
#ifndef T1HA2_DISABLED
  if (!strcmp(argv[1], "stream")) {
    /* totals around a border, reached in chunks of the given size, then single bytes; 64- and 128-bit finals at each step */
    uint64_t border = strtoull(argv[3], NULL, 0), chunk = strtoull(argv[4], NULL, 0);
    setup(chunk + 4096, seed * 31 + 5);
    own(0, seed + 1), own(chunk, seed + 2);
    t1ha_context_t c, k;
    ref_stream m;
    cur_fn = "stream", cur_seed = s1, cur_seed2 = s2;
    t1ha2_init(&c, s1, s2);
    ref_stream_init(&m, s1, s2);
    uint64_t total = 0;
    unsigned n = 0;
    const uint64_t stop = border - 40;
    while (total < stop) {
      uint64_t l = stop - total < chunk ? stop - total : chunk - (n % 3); /* not always whole blocks */
      ++cur_tick, cur_len = l;
      t1ha2_update(&c, base + n % 5, l);
      ref_stream_feed(&m, base + n % 5, l);
      total += l, bytes += l, ++n;
    }
    for (unsigned i = 0; i < 90; ++i) {
      uint64_t x = 0;
      ++cur_tick;
      k = c;
      res r = {t1ha2_final(&k, NULL), 0}, e = {ref_stream_final64(&m), 0};
      judge("stream64", total, n, s1, s2, r, e, 0);
      k = c;
      r.lo = t1ha2_final(&k, &x), r.hi = x;
      ref128 w = ref_stream_final128(&m);
      e.lo = w.lo, e.hi = w.hi;
      judge("stream128", total, n, s1, s2, r, e, 1);
      t1ha2_update(&c, base + 7 * i, 1);
      ref_stream_feed(&m, base + 7 * i, 1);
      ++total;
    }
    sample("stream totals %llu..%llu in chunks of %llu", (unsigned long long)stop, (unsigned long long)total, (unsigned long long)chunk);
  } else if (!strcmp(argv[1], "split") || !strcmp(argv[1], "selfsplit")) {
    /* a partial block, then one huge update, then a few bytes; selfsplit: compared with a single update */
    const int self = argv[1][0] == 's' && argv[1][1] == 'e';
    for (int i = 3; i < argc; ++i) {
      uint64_t l = strtoull(argv[i], NULL, 0);
      max = l > max ? l : max;
    }
    setup(max + 8192, seed * 13 + 7);
    own(0, seed);
    for (int b = 20; b < 40; ++b)
      if ((UINT64_C(1) << b) < span)
        own((UINT64_C(1) << b) - 1, seed), own(UINT64_C(1) << b, seed);
    for (int i = 3; i < argc; ++i) {
      const unsigned head = (unsigned)(i % 3 == 0 ? 3 : i % 3 == 1 ? 31 : 16), tail = i % 2 ? 0 : 9;
      uint64_t l = strtoull(argv[i], NULL, 0), x = 0;
      own(l - 1, seed), own(l + 40, seed);
      if (l + 64 > span)
        continue;
      t1ha_context_t c;
      cur_fn = "split stream", cur_len = l, cur_seed = s1, cur_seed2 = s2, cur_ptr = (uintptr_t)base + head;
      ++cur_tick, bytes += l;
      t1ha2_init(&c, s1, s2);
      t1ha2_update(&c, base, head);
      t1ha2_update(&c, base + head, (size_t)l);
      t1ha2_update(&c, base + head + l, tail);
      res r = {t1ha2_final(&c, &x), 0}, e;
      r.hi = x;
      ++cur_tick;
      if (self) {
        t1ha2_init(&c, s1, s2);
        t1ha2_update(&c, base, (size_t)(head + l + tail));
        e.lo = t1ha2_final(&c, &x), e.hi = x;
      } else {
        ref128 w = ref_t1ha2_stream128(base, head + l + tail, s1, s2);
        e.lo = w.lo, e.hi = w.hi;
      }
      judge("stream split after the first bytes", l, head, s1, s2, r, e, 1);
      sample("stream %u + %llu + %u", head, (unsigned long long)l, tail);
    }
  } else
#endif
  {
    for (int i = 3; i < argc; ++i) {
      uint64_t l = strtoull(argv[i], NULL, 0);
      max = l > max ? l : max;
    }
    setup(max + 8192, seed * 77 + 1);
    own(0, seed);
    for (int b = 20; b < 40; ++b)
      if ((UINT64_C(1) << b) < span)
        own((UINT64_C(1) << b) - 1, seed), own(UINT64_C(1) << b, seed);
    for (int i = 3; i < argc; ++i)
      own(strtoull(argv[i], NULL, 0) - 1, seed), own(strtoull(argv[i], NULL, 0) + 7, seed);
    unsigned ran = 0;
    for (unsigned e = 0; e < NALL; ++e) {
      if (strcmp(all[e].name, argv[1]))
        continue;
      ++ran;
      if (!cpu_can(&all[e]))
        break;
      for (int i = 3; i < argc; ++i) {
        uint64_t l = strtoull(argv[i], NULL, 0);
        if (l + 16 > span)
          continue;
        bytes += l;
        unsigned off = (unsigned)(l % 7) & (i % 2 ? 7 : 0);
        cur_fn = all[e].name, cur_len = l, cur_seed = s1, cur_seed2 = s2, cur_ptr = (uintptr_t)base + off;
        ++cur_tick;
        res r = all[e].impl(base + off, (size_t)l, s1, s2);
        ++cur_tick;
        res x = all[e].ref(base + off, l, s1, s2);
        judge(all[e].name, l, off, s1, s2, r, x, all[e].wide);
        if (i == 3)
          sample("%s len=%llu -> %016" PRIx64, all[e].name, (unsigned long long)l, r.lo);
      }
    }
    if (!ran)
      printf("NOTE %s is not in this build\n", argv[1]);
  }
  stat_u("states", distinct);
  stat_u("transitions", calls);
  stat_u("traces", calls);
  stat_u("megabytes", bytes >> 20);
  printf("DONE\n");
  return nfails != 0;
}
