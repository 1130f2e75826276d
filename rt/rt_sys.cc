// System-call models; weak, so that a harness can substitute a nondeterministic one.
#include "vp_i.h"
#include <cstddef>
#define W __attribute__((weak))
extern "C" {
W int vp_access(const char *, int) asm("access"); W int vp_access(const char *, int) { return 0; }
W int vp_mkdir(const char *, unsigned) asm("mkdir"); W int vp_mkdir(const char *, unsigned) { return 0; }
W int vp_close(int) asm("close"); W int vp_close(int) { return 0; }
W int vp_shutdown(int, int) asm("shutdown"); W int vp_shutdown(int, int) { return 0; }
W void *vp_signal(int, void *) asm("signal"); W void *vp_signal(int, void *) { return nullptr; }
W int vp_setrlimit(int, void *) asm("setrlimit"); W int vp_setrlimit(int, void *) { return 0; }
W int vp_getrlimit(int, void *) asm("getrlimit"); W int vp_getrlimit(int, void *p) { ((unsigned long *)p)[0] = ((unsigned long *)p)[1] = 1024; return 0; }
}
