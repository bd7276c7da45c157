/* The program (LIFE_PROGRAM), its library (LIFE_LIB) or its plug-in (LIFE_PLUGIN). */
#include "life.h"
#if defined(LIFE_PROGRAM)
#include <dlfcn.h>
#include <pthread.h>
#include <sys/wait.h>
static void *thread(void *a) { return life_moment((int)(intptr_t)a), NULL; }
static void run_thread(int m) {
  pthread_t t;
  if (pthread_create(&t, NULL, thread, (void *)(intptr_t)m))
    _exit(3);
  pthread_join(t, NULL);
}
static void pre(int argc, char **argv, char **envp) {
  for (; *envp; ++envp)
    if (!strncmp(*envp, "LIFE=", 5))
      life_env = *envp;
  life_moment(M_PREINIT);
}
__attribute__((section(".preinit_array"), used)) static void (*const pre_p)(int, char **, char **) = pre;
__attribute__((constructor(101))) static void c101(void) { life_moment(M_CTOR101); }
__attribute__((constructor)) static void c(void) {
  life_moment(M_CTOR);
  run_thread(M_CTOR_THREAD);
}
__attribute__((destructor(101))) static void d101(void) { life_moment(M_DTOR101); }
__attribute__((destructor)) static void d(void) { life_moment(M_DTOR); }
static void ae(void) { life_moment(M_ATEXIT); }
int main(int argc, char **argv) {
  atexit(ae);
  life_moment(M_MAIN);
  run_thread(M_THREAD);
  pid_t p = fork();
  if (!p) {
    life_moment(M_FORK);
    _exit(0);
  }
  int st;
  if (waitpid(p, &st, 0) != p || st) {
    life_say("FAIL in the forked child, status %d\n", st, 0, 0, 0);
    _exit(1);
  }
  if (argc > 1)
    for (int i = 0; i < 2; ++i) { /* loaded, unloaded, and again */
      void *h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
      if (!h) {
        life_say("FAIL plug-in not loadable\n", 0, 0, 0, 0);
        _exit(1);
      }
      dlclose(h);
    }
  return 0;
}
#elif defined(LIFE_LIB)
__attribute__((constructor)) static void c(void) { life_moment(M_LIB_CTOR); }
__attribute__((destructor)) static void d(void) { life_moment(M_LIB_DTOR); }
__attribute__((visibility("default"))) int life_lib;
#else
__attribute__((constructor)) static void c(void) { life_moment(M_PLUGIN_CTOR); }
__attribute__((destructor)) static void d(void) { life_moment(M_PLUGIN_DTOR); }
#endif
