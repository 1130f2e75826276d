// The asynchronous logger and its files. async_logger.cc and file/utility.cc are compiled here with 64 byte buffers and an in-memory file model.
#include "vp.h"
#include "allstd.h"
#include <atomic>
#include <cassert>
#include <chrono>
#include <cstring>
#include <filesystem>
#include <latch>
#include <memory>
#include <mutex>
#include <string>
#include <string_view>
#include <thread>
#include <unistd.h>
#include "plain/basic/constants.h"
#include "plain/basic/logger.h"
#include "plain/basic/ring.h"
#include "plain/basic/time.h"
#include "plain/basic/utility.h"
#include "plain/sys/process.h"
#include "plain/sys/thread.h"
namespace plain::detail::consts { constexpr int32_t kSmallModel{64}; }
struct MFile { std::string name, data; size_t flushed = 0; bool open = false, buffered = false; int err = 0; };
static std::mutex fm; static MFile mf[40]; static int nf; static int wmode, wcount;
static FILE *m_fopen(const char *n, const char *m) { std::unique_lock<std::mutex> k(fm); vp_check(nf < 40 && m[0] == 'a', "log files are appended to"); mf[nf].name = n; mf[nf].open = true; return (FILE *)&mf[nf++]; }
static int m_fclose(FILE *f) { std::unique_lock<std::mutex> k(fm); MFile *m = (MFile *)f; vp_check(m->open, "a file is closed once"); m->flushed = m->data.size(); m->open = false; return 0; }
static size_t m_fwrite(const void *b, size_t s, size_t n, FILE *f) { std::unique_lock<std::mutex> k(fm); MFile *m = (MFile *)f; vp_check(m->open && s == 1, "only open files are written"); wcount++; vp_check(wmode != 2 || wcount < 200, "a failing disk is not written to forever"); size_t w = n; if (wmode == 1 && n > 3) w = 3; if (wmode == 2 && wcount >= 2) { m->err = 5; w = n > 1 ? 1 : 0; } m->data.append((const char *)b, w); return w; }
static int m_fflush(FILE *f) { std::unique_lock<std::mutex> k(fm); MFile *m = (MFile *)f; vp_check(m->open, "only open files are flushed"); m->flushed = m->data.size(); return 0; }
static int m_ferror(FILE *f) { return ((MFile *)f)->err; }
static void m_setbuffer(FILE *f, char *, size_t) { ((MFile *)f)->buffered = true; }
namespace std { using ::m_fopen; using ::m_fclose; using ::m_fwrite; using ::m_fflush; using ::m_ferror; }
namespace std::m_fs { inline bool exists(const std::string &) { return true; } inline bool create_directory(const std::string &) { return true; } }
#define AsyncLogger AsyncLoggerModel
#define FileAppend FileAppendModel
#define File FileModel
#define get_filename get_filename_model
#define kLargeBufferSize kSmallModel
#define fopen m_fopen
#define fclose m_fclose
#define fwrite_unlocked m_fwrite
#define fwrite m_fwrite
#define fflush m_fflush
#define ferror m_ferror
#define setbuffer m_setbuffer
#define filesystem m_fs
#include "../src/basic/async_logger.cc"
#include "../src/file/utility.cc"
#undef filesystem
extern "C" int gethostname(char *b, size_t n) noexcept { strcpy(b, "host"); return 0; }
namespace {
const size_t kSizes[] = {1, 20, 63, 64, 65, 150};
std::string msg(char who, int i, size_t n) { std::string s(n, who); s[0] = (char)((who == 'a' ? '0' : '5') + i % 40); return s; }
std::string all() { std::string r; for (int i = 0; i < nf; i++) { vp_check(mf[i].flushed == mf[i].data.size(), "everything written is flushed"); r += mf[i].data; } return r; }
void setup() { GLOBALS["log.directory"] = std::string("log"); vp_clock_set(1700000000ll * 1000000000ll); }
}
// whatever was appended before stop or destruction is written, once, unchanged and in order
VP_HARNESS(al_stop) {
  setup(); std::string want; int n = (int)vp_param("n", 2), how = (int)vp_pick("how", 0, 3);
  { AsyncLoggerModel l(std::string_view("logs", 3), 1 << 20); if (how != 3) l.start(); for (int i = 0; i < n; i++) { auto m = msg('a', i, kSizes[vp_pick("size", 0, 5)]); want += m; l.append(m); } if (how == 3) l.start(); if (how == 1) l.stop(); if (how == 2) { l.stop(); l.stop(); } }
  vp_check(all() == want, "every message is written once, in order"); for (int i = 0; i < nf; i++) vp_check(!mf[i].open && mf[i].name.rfind("log/log.", 0) == 0, "the file has the name and is closed"); vp_reach("end");
}
// several threads append
VP_HARNESS(al_threads) {
  setup(); std::string w[2], got; size_t sz[2][2]; for (int t = 0; t < 2; t++) for (int i = 0; i < 2; i++) { sz[t][i] = i == 0 && t == 0 ? kSizes[vp_pick("size", 0, 5)] : i ? 40 : 30; }
  { AsyncLoggerModel l("log", 1 << 20); l.start(); std::thread o([&] { for (int i = 0; i < 2; i++) l.append(msg('b', i, sz[1][i])); }); for (int i = 0; i < 2; i++) l.append(msg('a', i, sz[0][i])); o.join(); l.stop(); }
  got = all(); size_t pos = 0; int next[2] = {0, 0}; while (pos < got.size()) { bool ok = false; for (int t = 0; t < 2 && !ok; t++) if (next[t] < 2) { auto m = msg(t ? 'b' : 'a', next[t], sz[t][next[t]]); if (got.compare(pos, m.size(), m) == 0) { pos += m.size(); next[t]++; ok = true; } } vp_check(ok, "messages are whole and in the order of their thread"); }
  vp_check(next[0] == 2 && next[1] == 2, "every message is written"); vp_reach("end");
}
// without stopping, a message is written and flushed within the flush interval
VP_HARNESS(al_interval) {
  setup(); int sec = (int)vp_pick("interval", 1, 3); AsyncLoggerModel l("log", 1 << 20, sec); l.start(); auto a = msg('a', 0, kSizes[vp_pick("size", 0, 5)]), b = msg('a', 1, kSizes[vp_pick("size2", 0, 5)]); l.append(a); std::this_thread::sleep_for(std::chrono::milliseconds(sec * 1000 + 10)); std::unique_lock<std::mutex> k(fm); vp_check(nf == 1 && mf[0].data == a && mf[0].flushed == a.size(), "written in time"); k.unlock();
  l.append(b); std::this_thread::sleep_for(std::chrono::milliseconds(sec * 1000 + 10)); k.lock(); vp_check(nf == 1 && mf[0].data == a + b && mf[0].flushed == a.size() + b.size(), "written in time"); k.unlock(); l.stop(); vp_check(all() == a + b, "nothing twice"); vp_reach("end");
}
// too many messages at once: what is dropped is reported
VP_HARNESS(al_drop) {
  setup(); int n = (int)vp_pick("n", 24, 28); std::string want; { AsyncLoggerModel l("log", 1 << 20); for (int i = 0; i < n; i++) { auto m = msg('a', i, 64); want += m; l.append(m); } l.start(); std::this_thread::sleep_for(std::chrono::seconds(4)); l.append("last"); l.stop(); }
  auto got = all(); bool dropped = got.find("Dropped log messages") != std::string::npos; vp_check(dropped == (n + 1 > 25), "dropping is reported, and happens only beyond 25 buffers"); if (!dropped) vp_check(got == want + "last", "all"); else { size_t e = got.find('\n'); vp_check(e != std::string::npos && got.size() >= e + 5 + 64 && got.substr(got.size() - 4) == "last", "the messages after it are kept"); auto kept = got.substr(e + 1, got.size() - 4 - e - 1); vp_check(want.compare(0, kept.size(), kept) == 0, "the oldest messages are kept"); vp_reach("dropped"); } vp_reach("end");
}
// log files roll by size and by day, every message is in exactly one of them, and partial writes are completed
VP_HARNESS(al_roll) {
  setup(); size_t roll = 100; int every = (int)vp_pick("every", 1, 3), n = (int)vp_param("n", 4); wmode = (int)vp_pick("partial", 0, 1); std::string want; int64_t t = 1700000000; int64_t start = t, lastroll = t, lastflush = t; int files = 1, count = 0; size_t written = 0;
  { FileModel f("log", roll, vp_pick("safe", 0, 1), 3, (uint32_t)every); static const int64_t steps[] = {0, 1, 2, 4, 86400};
    for (int i = 0; i < n; i++) {
      t += steps[vp_pick("step", 0, 4)]; vp_clock_set(t * 1000000000ll); static const size_t lens[] = {60, 61, 70}; auto m = msg('a', i, i == 1 ? lens[vp_pick("length", 0, 2)] : i & 1 ? 70 : 40); f.append(m); want += m; written += m.size(); vp_check(mf[files - 1].data.size() == written, "a message is written to the newest file");
      bool rolled = false, flush = false; if (written > roll) rolled = true; else if (++count >= every) { count = 0; if (t / 86400 != lastroll / 86400) rolled = true; else if (t - lastflush > 3) flush = true; }
      if (rolled && t > lastroll) { files++; written = 0; lastroll = lastflush = t; } if (flush) lastflush = t; vp_check(nf == files, "rolled by size or day"); if (flush) vp_check(mf[files - 1].flushed == written, "flushed after the interval");
    }
    f.flush(); }
  vp_check(all() == want, "every message once, in order"); for (int i = 0; i < nf; i++) vp_check(!mf[i].open, "closed"); (void)start; vp_reach("end");
}
// a failing disk does not hang the logger
VP_HARNESS(al_fail) {
  setup(); wmode = 2; { AsyncLoggerModel l("log", 1 << 20); l.start(); for (int i = 0; i < 3; i++) l.append(msg('a', i, kSizes[vp_pick("size", 0, 5)])); l.stop(); } vp_check(nf == 1 && !mf[0].open, "closed"); vp_reach("end");
}
// a thread appends while the logger is stopped
VP_HARNESS(al_late) {
  setup(); size_t n = kSizes[vp_pick("size", 0, 5)]; auto a = msg('a', 0, 30), b = msg('b', 0, n), c = msg('b', 1, 40); std::string got;
  { AsyncLoggerModel l("log", 1 << 20); l.start(); l.append(a); std::thread o([&] { l.append(b); l.append(c); }); l.stop(); got = all(); o.join(); }
  vp_check(got == a || got == a + b || got == a + b + c, "what was appended before is written, what comes later is written or not, but whole"); vp_reach("end");
}
