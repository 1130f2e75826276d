// Log lines: what the front end hands to its output function. Run with the real logger.
#include "vp.h"
#include <string>
#include <thread>
#include <mutex>
#include "plain/basic/global.h"
#include "plain/basic/logger.h"
#include "plain/basic/error.h"
using namespace plain;
namespace {
std::mutex om; std::string lines[8]; int nl;
void out(const std::string_view &s) { std::unique_lock<std::mutex> k(om); vp_check(nl < 8, "not more lines than messages"); lines[nl++] = std::string(s); }
void setup(bool print) { GLOBALS["log.print"] = print; Logger::set_output(out); vp_clock_set(1700000000ll * 1000000000ll + 7000000); }
}
// a message of any length and content becomes one line with time, level, text and location, also when it is printed
VP_HARNESS(log_line) {
  setup(vp_pick("print", 0, 1)); static const size_t lens[] = {0, 1, 5, 3900, 4050, 4096, 5000}; size_t n = lens[vp_pick("len", 0, 6)]; std::string t(n, 'x'); for (size_t i = 0; i < n && i < 2 && n <= 5; i++) { t[i] = (char)vp_u8("c"); vp_assume(t[i] != '\n' && t[i] != 0); } int lv = (int)vp_pick("level", 0, 2);
  if (lv == 0) { LOG_INFO << t; } else if (lv == 1) { LOG_WARN << t; } else { LOG_ERROR << t.c_str(); }
  vp_check(nl == 1, "one line for one message"); auto &l = lines[0]; vp_check(l.size() <= 4096 && l.back() == '\n' && l.find('\n', l.size() - 40) == l.size() - 1, "it is a line"); vp_check(l.rfind("2023-11-14T22:13:20.", 0) == 0, "time");
  static const char *names[] = {"INFO  ", "WARN  ", "ERROR "}; size_t p = l.find(names[lv]); vp_check(p != std::string::npos && p < 64, "level"); size_t q = l.find(' ', p + 6); (void)q;
  if (n <= 3900) { vp_check(n == 0 || l.compare(l.find("() ", p) + 3, n, t) == 0, "text"); vp_check(l.find("logline.cc:", l.find("() ", p) + 3 + n) != std::string::npos, "location"); } else vp_reach("truncated"); vp_reach("end");
}
// values of every type
VP_HARNESS(log_values) {
  setup(false); int64_t v = 0; std::string want; int t = (int)vp_pick("type", 0, 9); static const int64_t vals[] = {0, 1, -1, 127, -32768, 65535, 2147483647, INT64_MIN, INT64_MAX}; v = vals[vp_pick("v", 0, 8)];
  { Logger l(LogLevel::Warn); l << "|"; switch (t) { case 0: l << (int16_t)v; want = std::to_string((int16_t)v); break; case 1: l << (uint16_t)v; want = std::to_string((uint16_t)v); break; case 2: l << (int32_t)v; want = std::to_string((int32_t)v); break; case 3: l << (uint32_t)v; want = std::to_string((uint32_t)v); break; case 4: l << v; want = std::to_string(v); break; case 5: l << (uint64_t)v; want = std::to_string((uint64_t)v); break; case 6: l << (v > 0); want = v > 0 ? "1" : "0"; break; case 7: l << 'q'; want = "q"; break; case 8: l << (const char *)nullptr; want = "(null)"; break; case 9: { l << (const void *)v; char b[20]; int k = 20; uint64_t u = (uint64_t)v; do { b[--k] = "0123456789ABCDEF"[u & 15]; u >>= 4; } while (u); want = "0x" + std::string(b + k, 20 - k); break; } } l << "|"; }
  vp_check(nl == 1 && lines[0].find("|" + want + "|") != std::string::npos, "the value is in the line"); vp_reach("end");
}
// addresses, and texts with any bytes
VP_HARNESS(log_more) {
  setup(false); std::string want; int how = (int)vp_pick("how", 0, 2); static const uintptr_t ps[] = {0, 1, 0x10, 0x1ff, 0xdeadbeef, 0xf123456789abcde0, ~0ull}; uintptr_t p = ps[vp_pick("p", 0, 6)]; std::string t(4, 'x'); for (auto &c : t) { c = (char)vp_u8("c"); vp_assume(c != '\n' && c != '|'); }
  { Logger l(LogLevel::Warn); l << "|"; if (how == 0) { l << (const void *)p; want = "0x"; bool on = false; for (int i = 60; i >= 0; i -= 4) { int d = (int)(p >> i & 15); if (d || on || !i) { on = true; want += "0123456789abcdef"[d]; } } } else if (how == 1) { l << t; want = t; } else { l << t[0] << t[1]; want = t.substr(0, 2); } l << "|"; }
  auto &l = lines[0]; vp_check(nl == 1, "one line"); size_t a = l.find('|'); vp_check(a != std::string::npos && l.size() > a + want.size() + 2 && l[a + 1 + want.size()] == '|', "the value has its length"); if (a != std::string::npos) for (size_t i = 0; i < want.size(); i++) { char c = l[a + 1 + i]; if (how == 0 && c >= 'A' && c <= 'F') c = (char)(c + 32); vp_check(c == want[i], "the value is in the line"); } vp_reach("end");
}
// threads log at the same time: every message is one whole line
VP_HARNESS(log_threads) {
  setup(vp_pick("print", 0, 1)); std::thread o([] { for (int i = 0; i < 2; i++) LOG_ERROR << "from b " << i; }); for (int i = 0; i < 2; i++) LOG_WARN << "from a " << i; o.join(); vp_check(nl == 4, "every message once"); int a = 0, b = 0;
  for (int i = 0; i < 4; i++) { if (lines[i].find("from a " + std::to_string(a)) != std::string::npos && a < 2) a++; else { vp_check(lines[i].find("from b " + std::to_string(b)) != std::string::npos, "whole, in order"); b++; } vp_check(lines[i].back() == '\n', "line"); } vp_check(a == 2 && b == 2, "all"); vp_reach("end");
}
