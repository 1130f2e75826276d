// Directories and file descriptors: which system calls are made for which names. api.cc is compiled here against a descriptor table in memory.
#include "vp.h"
#include "allstd.h"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <set>
#include <string>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include "plain/basic/utility.h"
#include "plain/file/config.h"
#include <mutex>
namespace {
std::mutex fsm;
// ---- a tree of directories
std::vector<std::string> dirs; std::vector<unsigned> modes; std::vector<std::string> denied; int made; bool someone; std::string someones;
std::string plainname(const char *p) { std::string r; for (; *p; p++) if (!(*p == '/' && !r.empty() && r.back() == '/')) r += *p; if (r.size() > 1 && r.back() == '/') r.pop_back(); return r; }
bool there(const std::string &p) { if (p == "/" || p == ".") return true; for (auto &d : dirs) if (d == p) return true; return false; }
std::string parent(const std::string &p) { auto k = p.rfind('/'); return k == p.npos ? "." : k == 0 ? "/" : p.substr(0, k); }
}
extern "C" {
int m_access(const char *p, int) asm("access"); int m_access(const char *p, int) { std::unique_lock<std::mutex> lk(fsm); if (there(plainname(p))) return 0; errno = ENOENT; return -1; }
int m_mkdir(const char *p, unsigned mode) asm("mkdir"); int m_mkdir(const char *p, unsigned mode) {
  std::unique_lock<std::mutex> lk(fsm);
  auto n = plainname(p); if (someone && n == someones && !there(n)) dirs.push_back(n), modes.push_back(0); if (there(n)) { errno = EEXIST; return -1; } if (n.empty() || !there(parent(n))) { errno = ENOENT; return -1; } for (auto &d : denied) if (d == n) { errno = EACCES; return -1; }
  dirs.push_back(n); modes.push_back(mode); made++; return 0; }
}
// ---- a descriptor table
namespace {
struct Open { bool open = false, file = false; std::string data; uint64_t pos = 0; int flags = 0; }; Open od[6]; int calls; std::string opened_name; int opened_flags, opened_mode; int fail_with; std::set<std::string> emptied; bool cannot;
bool bad(int f) { calls++; if (f < 0 || f >= 6 || !od[f].open) { errno = EBADF; return true; } if (fail_with) { errno = fail_with; return true; } return false; }
int m_newfd() { for (int i = 0; i < 6; i++) if (!od[i].open) { od[i] = Open(); od[i].open = true; return i; } errno = EMFILE; return -1; }
int m_open(const char *n, int flags, int mode = -1) { calls++; if (fail_with) { errno = fail_with; return -1; } opened_name = n; opened_flags = flags; opened_mode = mode; int f = m_newfd(); if (f >= 0) od[f].flags = flags; return f; }
ssize_t m_read(int f, void *p, size_t n) { if (bad(f)) return -1; auto &o = od[f]; size_t k = o.pos > o.data.size() ? 0 : o.data.size() - o.pos; if (k > n) k = n; memcpy(p, o.data.data() + o.pos, k); o.pos += k; return k; }
ssize_t m_write(int f, const void *p, size_t n) { if (bad(f)) return -1; auto &o = od[f]; if (n > 1 && vp_bool("partial")) n = 1; if (o.data.size() < o.pos + n) o.data.resize(o.pos + n); memcpy(o.data.data() + o.pos, p, n); o.pos += n; return n; }
int m_close(int f) { if (bad(f)) return -1; od[f].open = false; return 0; }
off_t m_lseek(int f, off_t at, int wh) { if (bad(f)) return -1; auto &o = od[f]; off_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off_t)o.pos : wh == SEEK_END ? (off_t)o.data.size() : -1; if (b < 0 || b + at < 0) { errno = EINVAL; return -1; } o.pos = b + at; return o.pos; }
int m_dup(int f) { if (bad(f)) return -1; int g = m_newfd(); if (g >= 0) { od[g].data = od[f].data; od[g].flags = od[f].flags; } return g; }
int m_fcntl(int f, int cmd, int arg = 0) { if (bad(f)) return -1; if (cmd == F_GETFL) return od[f].flags; if (cmd == F_SETFL) { od[f].flags = arg; return 0; } if (cmd == F_DUPFD) return m_dup(f); errno = EINVAL; return -1; }
int m_ioctl(int f, unsigned long r, void *p) { if (bad(f)) return -1; if (r == FIONREAD) { *(int *)p = (int)(od[f].data.size() - od[f].pos); return 0; } if (r == FIONBIO) { od[f].flags = *(int *)p ? od[f].flags | O_NONBLOCK : od[f].flags & ~O_NONBLOCK; return 0; } errno = ENOTTY; return -1; }
int m_truncate(const char *n, off_t) { if (cannot) return -1; emptied.insert(n); return 0; }
FILE *m_fopen(const char *n, const char *mode) { if (cannot) return nullptr; vp_check(std::string(mode).find('w') == 0, "the file is emptied"); emptied.insert(n); od[5].open = true; return (FILE *)&od[5]; } int m_fclose(FILE *f) { vp_check((Open *)f == &od[5] && od[5].open, "a file is closed once"); od[5].open = false; return 0; }
}
#define open m_open
#define read m_read
#define write m_write
#define close m_close
#define lseek m_lseek
#define dup m_dup
#define fcntl m_fcntl
#define ioctl m_ioctl
#define truncate m_truncate
#define fopen m_fopen
#define fclose m_fclose
#define openmode m_openmode
#define fcntlarg m_fcntlarg
#define get_nonblocking m_get_nonblocking
#define set_nonblocking m_set_nonblocking
#define available m_available
#define tell m_tell
#include "plain/file/api.h"
#include "../src/file/api.cc"
#undef open
#undef read
#undef write
#undef close
#undef fcntl
#undef ioctl
namespace pl = plain;
// every directory of the name is made, in its place, usable, and nothing else is
VP_HARNESS(dir_make) {
  int n = (int)vp_pick("len", 1, (uint64_t)vp_param("len", 5)); std::string p(n, 'x'); static const char al[] = {'/', 'a', 'b'}; for (auto &c : p) c = al[vp_pick("c", 0, 2)];
  static const char *pre[] = {"a", "/a", "a/b", "/b"}; int have = (int)vp_pick("have", 0, 4); if (have) { std::string h = pre[have - 1]; if (!there(parent(h))) dirs.push_back(parent(h)); dirs.push_back(h); } auto before = dirs.size(); modes.assign(before, 0);
  std::vector<std::string> want; { std::string cur; bool abs = p[0] == '/'; size_t i = 0; while (i < p.size()) { while (i < p.size() && p[i] == '/') i++; if (i >= p.size()) break; size_t b = i; while (i < p.size() && p[i] != '/') i++; cur += (cur.empty() ? (abs ? "/" : "") : "/") + p.substr(b, i - b); want.push_back(cur); } }
  int no = (int)vp_pick("denied", 0, want.size()); bool denyhit = false; if (no) { denied.push_back(want[no - 1]); denyhit = !there(want[no - 1]); } int so = (int)vp_pick("someone", 0, want.size()); if (so) { someone = true; someones = want[so - 1]; if (so == no) denyhit = false; }
  bool chmode = vp_bool("mode"); errno = 0; bool r = chmode ? pl::makedir(p.c_str(), 0700) : pl::makedir(p.c_str()); vp_check(r == !denyhit, "it succeeds exactly when the directory is there");
  if (r) { for (auto &w : want) vp_check(there(w), "every directory of the name is there"); } else { int k = 0; for (auto &w : want) { if (++k >= no) vp_check(!there(w), "nothing is made below a directory that cannot be made"); } }
  for (size_t i = before; i < dirs.size(); i++) { bool mine = false; for (auto &w : want) mine |= w == dirs[i]; vp_check(mine, "and nothing else"); if (modes[i]) vp_check(modes[i] == (chmode ? 0700u : 0755u), "with the permissions asked for"); }
  if (r) { int m = made; vp_check(pl::makedir(p.c_str()) && made == m, "making it again changes nothing"); vp_reach("made"); } else vp_reach("denied");
}
VP_HARNESS(dir_long) {
  static const int len[] = {0, 1, 254, 4000, 4093, 4094, 4095, 4096, 4097, 5000, 9000}; int n = len[vp_pick("len", 0, 10)]; bool slash = vp_bool("slash"); std::string p(n, 'd'); if (slash && n) p[n - 1] = '/'; auto *h = new char[n + 1]; memcpy(h, p.c_str(), n + 1);
  auto before = dirs.size(); bool r = pl::makedir(h); if (n < 4000 && n > 0) vp_check(r, "made"); if (r && n) vp_check(there(plainname(p.c_str())), "under its whole name"); else vp_check(dirs.size() == before, "or not at all"); delete[] h; vp_reach(r ? "made" : "refused");
}
VP_HARNESS(dir_threads) {
  int before = made; bool ra = false, rb; std::thread t([&] { ra = pl::makedir("q"); }); rb = pl::makedir("q"); t.join(); vp_check(ra && rb && there("q") && made == before + 1, "both find the directory"); vp_reach("end");
}
// the part of a path before its last separator
VP_HARNESS(dir_name) {
  int n = (int)vp_pick("len", 0, 5); std::string p(n, 'x'); static const char al[] = {'/', '\\', 'c'}; for (auto &c : p) c = al[vp_pick("c", 0, 2)]; std::string u = p; for (auto &c : u) if (c == '\\') c = '/'; auto k = u.rfind('/'); auto *b = new char[n + 1]; pl::dirname(p.c_str(), b); vp_check(std::string(b) == (k == u.npos ? std::string() : u.substr(0, k)), "the directory of the path"); delete[] b; vp_reach("end");
}
// descriptors: each call reaches the descriptor it is given and says what happened
VP_HARNESS(fd_io) {
  int f = pl::m_open("name", O_RDWR | O_APPEND); vp_check(f == 0 && opened_name == "name" && opened_flags == (O_RDWR | O_APPEND), "opened as asked"); int g = pl::m_openmode("other", O_CREAT, 0640); vp_check(g == 1 && opened_name == "other" && opened_flags == O_CREAT && opened_mode == 0640, "with its mode");
  uint8_t b[4]; vp_symbolic(b, 4, "data"); int n = (int)vp_pick("n", 0, 4), total = 0; int32_t w = (int32_t)pl::m_write(f, b, n); vp_check(w >= 0 && w <= n && od[f].data.size() == (size_t)w && !memcmp(od[f].data.data(), b, w), "what is written is counted"); total = w;
  vp_check(pl::m_tell(f) == total, "the position is behind it"); int64_t at = vp_pick("at", 0, 4); int wh = (int)vp_pick("whence", 0, 2); int64_t to = (wh == 0 ? 0 : total) + at; vp_check(pl::m_lseek(f, (uint64_t)at, wh) == to && pl::m_tell(f) == to, "moved"); if (wh != 0) { int64_t back = pl::m_lseek(f, (uint64_t)-(int64_t)total, SEEK_CUR); vp_check(back == to - total, "moved back"); to = back; }
  vp_check(pl::m_available(f) == (uint32_t)(total - to) || to > total, "what can be read"); uint8_t o[5] = {}; int m = (int)vp_pick("m", 0, 4); int32_t r = (int32_t)pl::m_read(f, o, m); int left = to > total ? 0 : total - (int)to; vp_check(r == (m < left ? m : left) && !memcmp(o, b + to, r), "it is read"); for (int i = r; i < 5; i++) vp_check(o[i] == 0, "and nothing more is touched"); vp_check(pl::m_tell(f) == to + r, "the position follows"); vp_check(od[g].data.empty() && od[g].pos == 0, "the other file is as it was");
  int d = pl::m_dup(f); vp_check(d == 2 && od[d].open, "duplicated"); pl::m_close(f); vp_check(!od[f].open && od[g].open && od[d].open, "closed"); pl::m_close(g); vp_reach("end");
}
VP_HARNESS(fd_block) {
  int f = pl::m_open("a", O_RDWR), g = pl::m_open("b", O_RDWR | O_NONBLOCK); od[f].flags |= O_APPEND; bool st = false;
  for (int i = 0; i < 3; i++) { int op = (int)vp_pick("op", 0, 3); if (op == 0) { vp_check(pl::m_set_nonblocking(f, true), "set"); st = true; } else if (op == 1) { vp_check(pl::m_set_nonblocking(f, false), "cleared"); st = false; } else if (op == 2) { vp_check(pl::m_get_nonblocking(f) == st, "its state is known"); } else vp_check(pl::m_fcntl(f, F_GETFL) == (O_RDWR | O_APPEND | (st ? O_NONBLOCK : 0)), "other flags are kept"); vp_check(pl::m_get_nonblocking(g), "the other one is as it was"); }
  int on = 1; vp_check(pl::m_ioctl(f, FIONBIO, &on) == 0 && pl::m_get_nonblocking(f), "by ioctl too"); vp_check(pl::m_fcntlarg(f, F_SETFL, O_RDWR) == 0 && !pl::m_get_nonblocking(f), "and by fcntl"); vp_reach("end");
}
// errors come back as errors
VP_HARNESS(fd_fail) {
  int f = pl::m_open("a", O_RDWR); static const int es[] = {EINTR, EIO, EBADF, ENOSPC, EAGAIN}; int e = (int)vp_pick("e", 0, 5), op = (int)vp_pick("op", 0, 9), x = f; if (e == 5) x = vp_bool("neg") ? -1 : 3; else fail_with = es[e]; char b[4] = "abc"; int arg = 0; calls = 0; errno = 0; bool r;
  switch (op) { case 0: r = e < 5 ? pl::m_open("z", 0) < 0 : true; break; case 1: r = (int32_t)pl::m_read(x, b, 3) < 0; vp_check(!strcmp(b, "abc"), "nothing is read"); break; case 2: r = (int32_t)pl::m_write(x, b, 3) < 0; break; case 3: r = pl::m_fcntl(x, F_GETFL) < 0; break; case 4: r = pl::m_fcntlarg(x, F_SETFL, 1) < 0; break; case 5: r = !pl::m_set_nonblocking(x, true); break; case 6: r = pl::m_ioctl(x, FIONREAD, &arg) < 0; break; case 7: r = pl::m_dup(x) < 0; break; case 8: r = pl::m_lseek(x, 1, SEEK_SET) < 0; break; default: r = pl::m_tell(x) < 0; }
  vp_check(r, "a failed call is reported"); if (op > 0) vp_check(calls >= 1 && errno == (e < 5 ? es[e] : EBADF), "with its reason"); vp_check(od[f].flags == O_RDWR && od[f].pos == 0 && od[f].data.empty(), "and changes nothing"); if (op == 0) { fail_with = 0; cannot = vp_bool("cannot"); vp_check(pl::m_truncate("t") == !cannot && emptied.size() == (cannot ? 0u : 1u) && emptied.count("t") == (cannot ? 0u : 1u) && !od[5].open, "a file is emptied"); } vp_reach("end");
}
// text and wide text
