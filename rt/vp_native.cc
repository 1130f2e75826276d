// Native counterpart of the harness interface: replays one counterexample of the symbolic engine
// against the code compiled by the ordinary compiler.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <malloc.h>
#include <atomic>
#include <new>
static std::vector<std::pair<std::string, std::vector<unsigned char>>> ins; static size_t pos;
static std::map<std::string, long long> params;
static std::atomic<long> live{0}; static long long vclock = 1000000000000ll; static bool fakeclock;
[[noreturn]] static void bad(const char *m) { fprintf(stderr, "VP-REPRODUCED %s\n", m); fflush(stderr); _exit(101); }
extern "C" {
void vp_symbolic(void *p, size_t n, const char *name) {
  if (!n) return;
  if (pos < ins.size()) {
    auto &i = ins[pos]; std::string want(name); for (auto &c : want) if (c == ' ') c = '_';   // as the counterexample is written
    if (i.first != want || i.second.size() != n) { fprintf(stderr, "VP-DIVERGED input %zu: have %s/%zu want %s/%zu\n", pos, i.first.c_str(), i.second.size(), name, n); _exit(103); }
    if (n) memcpy(p, i.second.data(), n); pos++;
  } else memset(p, 0, n);   // past the end of the counterexample: any value does
}
void vp_assume(bool c) { if (!c) { fprintf(stderr, "VP-ASSUME-FALSE\n"); _exit(102); } }
void vp_check(bool c, const char *m) { if (!c) bad(m); }
void vp_fail(const char *m) { bad(m); }
void vp_reach(const char *) {}
uint64_t vp_concretize(uint64_t v) { return v; }
int64_t vp_param(const char *n, int64_t d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
int vp_engine() { return 0; }
int64_t vp_live_allocs() { return live; }
void vp_print(const char *m, uint64_t v) { fprintf(stderr, "%s %llu\n", m, (unsigned long long)v); }
void vp_prune() { fprintf(stderr, "VP-PRUNED\n"); _exit(102); }
uint64_t vp_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
bool vp_valid(const void *, size_t) { return true; }
bool vp_is_symbolic(uint64_t) { return false; }
void vp_clock_set(int64_t ns) { vclock = ns; fakeclock = true; }
int64_t vp_clock_now() { return vclock; }
void vp_threads_off(int) {}
}
void *operator new(size_t n) { if (n > ((size_t)1 << 28)) throw std::bad_alloc(); void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live++; return p; }
void *operator new[](size_t n) { return operator new(n); }
void operator delete(void *p) noexcept { if (p) live--; free(p); }
void operator delete[](void *p) noexcept { if (p) live--; free(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete[](p); }
extern "C" void VP_ENTRY();
int main(int argc, char **argv) {
  std::ifstream f(argv[1]); std::string line;
  while (std::getline(f, line)) {
    std::istringstream s(line); std::string k, name, hex; s >> k;
    if (k == "P") { long long v; s >> name >> v; params[name] = v; }
    else if (k == "I") { s >> name >> hex; std::vector<unsigned char> b; if (hex != "-") for (size_t i = 0; i + 1 < hex.size(); i += 2) b.push_back((unsigned char)strtol(hex.substr(i, 2).c_str(), nullptr, 16)); ins.push_back({name, b}); }
  }
  pos = 0;
  VP_ENTRY();
  fprintf(stderr, "VP-PASSED\n"); fflush(stderr);
  _exit(0);
}
#include <time.h>
#include <sys/syscall.h>
extern "C" int clock_gettime(clockid_t c, struct timespec *t) noexcept {
  if (!fakeclock) return (int)syscall(SYS_clock_gettime, c, t);
  t->tv_sec = vclock / 1000000000; t->tv_nsec = vclock % 1000000000; return 0;
}
