// Process ids, signals and the output of commands. process.cc and utility.cc of sys are compiled here against files, processes and commands in memory.
#include "vp.h"
#include "allstd.h"
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <string>
#include <sys/resource.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include "plain/basic/utility.h"
#include "plain/basic/io.h"
#include "plain/sys/assert.h"
namespace {
struct File { std::string name, data; bool there = false, open = false, denied = false, full = false; size_t pos = 0; int lines = 0; }; File mf[2]; std::string cmd, output; bool no_shell, ended_cmd; std::vector<std::string> cmds;
struct Signal { int pid, sig; }; std::vector<Signal> sent; int target; int dies_after = -1; bool foreign; int me = 4242;
FILE *m_fopen(const char *n, const char *m) { for (auto &f : mf) if (f.name == n) { bool w = *m == 'w' || *m == 'a'; if (f.denied || (!w && !f.there)) { errno = ENOENT; return nullptr; } vp_check(!f.open, "a file is open once"); f.open = true; f.there = true; f.pos = 0; if (*m == 'w') f.data.clear(); return (FILE *)&f; } errno = ENOENT; return nullptr; }
int m_fclose(FILE *p) { auto f = (File *)p; vp_check(p && f->open, "a file is closed once"); f->open = false; return f->full ? -1 : 0; }
int m_fflush(FILE *p) { auto f = (File *)p; return f && f->full ? -1 : 0; }
int m_fprintf(FILE *p, const char *fmt, ...) { auto f = (File *)p; char b[64]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a); if (!f->full) f->data.append(b, n); return n; }
int m_fscanf(FILE *p, const char *fmt, int *out) { auto f = (File *)p; vp_check(!strcmp(fmt, "%d"), "a number is read"); auto &d = f->data; while (f->pos < d.size() && (d[f->pos] == ' ' || d[f->pos] == '\n')) f->pos++; if (f->pos >= d.size()) return EOF; size_t i = f->pos; bool neg = false; if (d[i] == '-' || d[i] == '+') { neg = d[i] == '-'; i++; } int64_t v = 0; size_t b = i; while (i < d.size() && d[i] >= '0' && d[i] <= '9') v = v * 10 + (d[i++] - '0'); if (i == b) return 0; f->pos = i; *out = (int)(neg ? -v : v); return 1; }
char *m_fgets(char *b, int n, FILE *p) { auto f = (File *)p; int k = 0; while (k + 1 < n && f->pos < f->data.size()) { char c = f->data[f->pos++]; b[k++] = c; if (c == '\n') break; } if (!k) return nullptr; b[k] = 0; return b; }
FILE *m_popen(const char *c, const char *m) { if (no_shell) return nullptr; cmds.push_back(c); auto &f = mf[1]; vp_check(!f.open && *m == 'r', "one command at a time"); f.open = true; f.pos = 0; f.data = output; return (FILE *)&f; } int m_pclose(FILE *p) { return m_fclose(p); }
// target ends after dies_after signals or looks
int m_kill(int pid, int sig) { sent.push_back({pid, sig}); if (pid != target) { errno = ESRCH; return -1; } if (dies_after == 0) { errno = ESRCH; return -1; } if (dies_after > 0) dies_after--; return 0; }
int m_getpid() { return me; }
int m_gethostname(char *b, size_t n) { if (foreign) return -1; strncpy(b, "the-host-name", n); return 0; }
int rl = -1; int m_setrlimit(int what, const struct rlimit *r) { vp_check(what == RLIMIT_CORE && r->rlim_cur == RLIM_INFINITY && r->rlim_max == RLIM_INFINITY, "core files are not limited"); rl = vp_bool("rl"); return rl ? 0 : -1; }
void m_exit(int) { vp_check(false, "no exit"); } int m_fork() { vp_check(false, "no fork"); return -1; }
}
#define fopen m_fopen
#define fclose m_fclose
#define fflush m_fflush
#define fprintf m_fprintf
#define fscanf m_fscanf
#define fgets m_fgets
#define popen m_popen
#define pclose m_pclose
#define kill m_kill
#define getpid m_getpid
#define gethostname m_gethostname
#define setrlimit m_setrlimit
#define fork m_fork
#define exit m_exit
#define process process_m
#define exec m_exec
#define set_core_rlimit m_set_core_rlimit
#define hostname m_hostname
#include "plain/sys/process.h"
#include "plain/sys/utility.h"
#include "../src/sys/utility.cc"
#include "../src/sys/process.cc"
#undef exit
namespace ps = plain::process_m;
// the process id written is the one read, a file without a usable id names no process
VP_HARNESS(pid_round) {
  mf[0].name = "x.pid"; int w = (int)vp_pick("state", 0, 3); mf[0].denied = w == 1; mf[0].full = w == 2; if (w == 3) { mf[0].there = true; mf[0].data = "123456789"; } static const int high[] = {4194304, 32768, 99999, 1000000, 2147483647}; { int k = (int)vp_pick("size", 0, 5); me = k == 5 ? (int)vp_range("pid", 1, 9999) : high[k]; }
  bool r = ps::writeid("x.pid"); vp_check(r == (w == 0 || w == 3), "a failed write is reported"); vp_check(!mf[0].open, "the file is closed"); if (r) vp_check(ps::getid("x.pid") == me && !mf[0].open, "the id is read back"); vp_check(ps::getid() == me, "its own id"); vp_check(ps::getid("none.pid") == ID_INVALID, "no file, no process"); vp_reach("end");
}
VP_HARNESS(pid_any) {
  mf[0].name = "x.pid"; mf[0].there = true; int n = (int)vp_pick("len", 0, (uint64_t)vp_param("bytes", 4)); mf[0].data.resize(n); vp_symbolic(mf[0].data.data(), n, "file"); size_t i = 0; auto &d = mf[0].data; while (i < d.size() && (d[i] == ' ' || d[i] == '\n')) i++; bool neg = false; if (i < d.size() && (d[i] == '-' || d[i] == '+')) neg = d[i++] == '-'; int v = 0; bool any = false; while (i < d.size() && d[i] >= '0' && d[i] <= '9') { v = v * 10 + d[i++] - '0'; any = true; } int want = any && !neg && v > 0 ? v : ID_INVALID;
  vp_check(ps::getid("x.pid") == want && !mf[0].open, "the number of the file is its process, anything else is none"); target = 7; dies_after = 0; if (want == ID_INVALID) { vp_check(!ps::waitexit("x.pid") && sent.empty(), "and nothing is signalled"); vp_reach("none"); } else vp_reach("some");
}
// exactly the process named is asked to end, and waited for
VP_HARNESS(pid_wait) {
  mf[0].name = "x.pid"; int w = (int)vp_pick("what", 0, 3); if (w == 1) { vp_check(!ps::waitexit(vp_bool("null") ? nullptr : ""), "no file"); vp_check(sent.empty(), "no signal"); } else if (w == 2) { vp_check(!ps::waitexit("none.pid") && sent.empty(), "no file, no signal"); }
  else { int pid = w == 3 ? 1 : 815; mf[0].there = true; mf[0].data = w == 3 ? "1\n" : "815"; target = pid; int die = dies_after = (int)vp_pick("dies", 0, 5); auto t0 = vp_clock_now(); vp_check(ps::waitexit("x.pid"), "waited for"); vp_check(dies_after == 0, "until it is gone"); for (auto &s : sent) vp_check(s.pid == pid && (s.sig == 10 || s.sig == 0), "only the process of the file is signalled"); vp_check(sent[0].sig == 10, "it is asked to end"); vp_check((int64_t)(vp_clock_now() - t0) <= (int64_t)(die + 3) * 1000000000ll, "without waiting longer"); }
  vp_check(!mf[0].open, "the file is closed"); vp_reach("end");
}
// a command runs as given, the first line of its output is the result
VP_HARNESS(exec_any) {
  static const int len[] = {0, 1, 5, 1022, 1023, 1024, 3000}; int n = len[vp_pick("cmd", 0, 6)]; std::string c(n, 'c'); int ol = (int)vp_pick("out", 0, 4); output.resize(ol); vp_symbolic(output.data(), ol, "output"); for (char x : output) vp_assume(x != 0); no_shell = vp_bool("noshell");
  int size = (int)vp_pick("size", 1, 6); char *b = new char[size]; memset(b, 0, size); int r = plain::m_exec(c.c_str(), b, size); vp_check((r == 0) == !no_shell, "it runs or not"); if (!no_shell) { vp_check(cmds.size() == 1 && cmds[0] == c, "exactly the command given"); size_t e = output.find('\n'); std::string line = output.substr(0, e == output.npos ? output.size() : e + 1); if ((int)line.size() > size - 1) line.resize(size - 1); vp_check(line == b, "the first line, as far as it fits"); } else vp_check(cmds.empty() && !*b, "nothing"); vp_check(!mf[1].open, "the command is finished"); delete[] b; vp_reach("end");
}
VP_HARNESS(proc_info) {
  int n = (int)vp_pick("digits", 1, 6); uint64_t v = 0; output.clear(); for (int i = 0; i < n; i++) { char c = (char)('0' + vp_pick("d", 0, i ? 9 : 9)); if (i > 1 && i < n - 1) { vp_assume(c == '5'); } output += c; v = v * 10 + (c - '0'); } output += "\n"; int id = (int)vp_pick("id", 1, 3) * 111; char num[24]; snprintf(num, sizeof num, "$2 == %d)", id);
  vp_check(ps::get_physicalmemory_usage(id) == v * 1024 && ps::get_virtualmemory_usage(id) == v * 1024, "kilobytes become bytes"); vp_check(cmds.size() == 2 && cmds[0] != cmds[1], "different columns"); for (auto &c : cmds) vp_check(c.find(num) != c.npos, "of that process"); plain::process_m::info_t in; ps::getinfo(id, in); vp_check(in.id == id && in.VSZ == v * 1024 && in.RSS == v * 1024 && in.cpu_percent == (float)v, "all in one"); no_shell = true; vp_check(ps::get_cpu_usage(id) == -1.0f && ps::get_physicalmemory_usage(id) == 0, "unknown without a shell"); vp_reach("end");
}
VP_HARNESS(host_name) { foreign = vp_bool("fails"); vp_check(plain::m_hostname() == (foreign ? "unknownhost" : "the-host-name") && ps::m_hostname() == plain::m_hostname(), "the name of the host"); bool r = plain::m_set_core_rlimit(); vp_check(r == (rl == 1), "the limit is set or not"); vp_reach("end"); }
