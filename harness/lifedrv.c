/* life explorer (P20): lifedrv <mask of possible moments> <patterns> <part> <parts> <largest set> program [plug-in]
 * Runs the program once per set of moments at which t1ha0() is called. */
#include "common.h"
#include "../ref/ref.h"
#define LIFE_NAMES_ONLY
#include <sys/wait.h>
static const char *const names[] = { "preinit_array", "constructor of a library", "constructor(101)", "constructor", "thread started by a constructor", "main",
  "thread", "forked child", "constructor of a dlopen'ed library", "destructor of a dlopen'ed library", "atexit handler", "destructor",
  "destructor(101)", "destructor of a library" };
int main(int argc, char **argv) {
  unsigned long can = strtoul(argv[1], NULL, 10), pats = strtoul(argv[2], NULL, 10);
  unsigned long part = strtoul(argv[3], NULL, 10), parts = strtoul(argv[4], NULL, 10);
  int lim = atoi(argv[5]);
  uint64_t states = 0, transitions = 0, k = 0;
  setvbuf(stdout, NULL, _IOFBF, 1 << 16);
  for (unsigned long mask = 1; mask < 1ul << 14; ++mask) {
    if (mask & ~can)
      continue;
    if (__builtin_popcountl(mask) > lim && __builtin_popcountl(mask) < __builtin_popcountl(can) - 1)
      continue; /* few moments, or nearly all */
    for (unsigned long p = 0; p < pats; ++p) {
      if (k++ % parts != part)
        continue;
      unsigned long pat = pats == 3 ? p : __builtin_popcountl(mask) % 3;
      int fd[2];
      char env[64], out[4096];
      if (pipe(fd))
        return 2;
      snprintf(env, sizeof env, "LIFE=%lu,%lu", mask, pat);
      fflush(stdout);
      pid_t c = vfork();
      if (!c) {
        char *e[] = {env, NULL};
        dup2(fd[1], 1);
        close(fd[0]), close(fd[1]);
        alarm(60);
        execve(argv[6], argv + 6, e);
        _exit(127);
      }
      close(fd[1]);
      size_t n = 0;
      ssize_t r;
      while (n < sizeof out - 1 && (r = read(fd[0], out + n, sizeof out - 1 - n)) > 0)
        n += (size_t)r;
      out[n] = 0;
      close(fd[0]);
      int st = 0;
      waitpid(c, &st, 0);
      unsigned long began = 0, ended = 0;
      char *bad = strstr(out, "FAIL");
      for (char *q = out; *q; ++q)
        if (*q == 'B')
          began |= 1ul << atoi(q + 1);
        else if (*q == 'E' )
          ended |= 1ul << atoi(q + 1);
        else if (*q == 'F')
          break;
      ++states;
      transitions += (unsigned)__builtin_popcountl(mask) * 8;
      if (bad || st || ended != mask) {
        char when[300] = "";
        for (int i = 0; i < 14; ++i)
          if (mask >> i & 1 && strlen(when) < 240)
            snprintf(when + strlen(when), sizeof when - strlen(when), "%s%s", *when ? ", " : "", names[i]);
        char last[100] = "";
        for (int i = 0; i < 14; ++i)
          if ((began & ~ended) >> i & 1)
            snprintf(last, sizeof last, "; stopped in: %s", names[i]);
        if (bad)
          bad[strcspn(bad, "\n")] = 0;
        fail("t1ha0() called in {%s} (%s): %s, exit status 0x%x%s", when, env, bad ? bad + 5 : "the process did not get through all calls", st, last);
      }
    }
  }
  stat_u("states", states);
  stat_u("transitions", transitions);
  stat_u("traces", states);
  printf("SAMPLE last set of moments 0x%lx of 0x%lx\nDONE\n", can, can);
  return 0;
}
