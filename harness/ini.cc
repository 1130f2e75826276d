// Configuration files: what a parsed ini file answers. ini.cc is compiled here against files in memory.
#include "vp.h"
#include "allstd.h"
#include <cstring>
#include <fstream>
#include <map>
#include <string>
#include <unordered_map>
#include "plain/basic/type/variable.h"
#include "plain/basic/utility.h"
#include "plain/file/config.h"
#include "plain/sys/assert.h"
namespace { struct MFile { std::string name, data; bool there = false; }; MFile mf[3]; int opened; }
namespace std {
class m_ifstream {      // the part of ifstream that reads lines
  const ::MFile *f_ = nullptr; size_t p_ = 0; bool eof_ = false, fail_ = false;
 public:
  m_ifstream() = default; explicit m_ifstream(const char *n, ios_base::openmode m = ios_base::in) { open(n, m); } ~m_ifstream() { if (f_) close(); }
  void open(const char *n, ios_base::openmode = ios_base::in) { if (f_) { fail_ = true; return; } for (auto &m : ::mf) if (m.there && m.name == n) { f_ = &m; p_ = 0; opened++; eof_ = fail_ = false; return; } fail_ = true; }
  void open(const string &n, ios_base::openmode m = ios_base::in) { open(n.c_str(), m); }
  bool is_open() const { return f_; } void close() { if (!f_) { fail_ = true; return; } f_ = nullptr; opened--; } void clear() { eof_ = fail_ = false; }
  explicit operator bool() const { return !fail_; } bool operator!() const { return fail_; } bool good() const { return !fail_ && !eof_; } bool eof() const { return eof_; } bool fail() const { return fail_; }
  m_ifstream &getline(char *b, long n) {
    long k = 0; if (!good() || !f_) { fail_ = true; if (n > 0) *b = 0; return *this; } bool any = false;
    for (;;) { if (p_ >= f_->data.size()) { eof_ = true; if (!any) fail_ = true; break; } if (f_->data[p_] == '\n') { p_++; any = true; break; } if (k + 1 >= n) { fail_ = true; break; } b[k++] = f_->data[p_++]; any = true; }
    b[k] = 0; return *this; }
  bool line(string &s) { s.clear(); if (!good() || !f_) { fail_ = true; return false; } bool any = false; for (;;) { if (p_ >= f_->data.size()) { eof_ = true; if (!any) fail_ = true; break; } char c = f_->data[p_++]; any = true; if (c == '\n') break; s += c; } return !fail_; }
};
inline m_ifstream &getline(m_ifstream &f, string &s) { f.line(s); return f; }
}
#define Ini IniModel
#define ifstream m_ifstream
#include "plain/file/ini.h"
#include "../src/file/ini.cc"
#undef ifstream
namespace {
using data_t = std::map<std::string, std::map<std::string, std::string>>;
void put(int i, const std::string &name, const std::string &d) { mf[i].name = name; mf[i].data = d; mf[i].there = true; }
// what the content says: comments and trailing blanks do not count, the first value of a key does, a section can be continued
data_t parse(const std::string &t) {
  data_t r; std::map<std::string, std::string> *cur = nullptr; size_t p = 0;
  while (p < t.size()) {
    size_t e = t.find('\n', p); std::string l = t.substr(p, e == std::string::npos ? e : e - p); p = e == std::string::npos ? t.size() : e + 1;
    if (!l.empty() && l.back() == '\r') l.pop_back(); if (size_t c = l.find(';'); c != std::string::npos) l.resize(c); while (l.size() > 1 && (l.back() == ' ' || l.back() == '\t')) l.pop_back();
    if (!l.empty() && l[0] == '[') if (size_t c = l.find(']'); c != std::string::npos) { cur = &r[l.substr(1, c - 1)]; continue; }
    if (size_t q = l.find('='); q != std::string::npos && cur) cur->insert({l.substr(0, q), l.substr(q + 1)});
  }
  return r; }
void same(plain::IniModel &ini, const data_t &want) {
  size_t n = 0; auto *d = ini.getdata(); vp_check(d->size() == want.size(), "exactly the sections of the file");
  for (auto &[s, m] : want) { auto it = d->find(s); vp_check(it != d->end() && it->second && it->second->size() == m.size(), "exactly the keys of the section");
    for (auto &[k, v] : m) { char b[8]; bool ok = ini.getstring_ifexist(s.c_str(), k.c_str(), b, sizeof b); vp_check(ok && v.substr(0, 7) == b, "the value of the key"); auto kt = it->second->find(k); vp_check(kt != it->second->end(), "the key"); const char *w = ini.getstring(kt->second); vp_check(w && v == w, "the value by position"); n++; } }
}
}
// any content of a file
VP_HARNESS(ini_any) {
  { static const char abc[] = "[]=; \na\r"; int n = (int)vp_pick("length", 0, vp_param("bytes", 5)); std::string t; for (int i = 0; i < n; i++) t += abc[vp_pick("c", 0, 7)]; put(0, "f", t); plain::IniModel ini("f"); same(ini, parse(t)); } vp_check(!opened, "the file is closed"); vp_reach("end");
}
// files of any sequence of lines
VP_HARNESS(ini_lines) {
  static const char *ls[] = {"[a]", "[b]", "a=1", "a=2 ; x", "bb=\tz ", "", "; c", "[a", "=", "a==[b]", "  ", "b=1\r", "[]\t", "b=2 \t"}; int64_t base = vp_live_allocs(); vp_assume(base >= 0);
  { std::string t; int n = (int)vp_param("lines", 3); for (int i = 0; i < n; i++) { t += ls[vp_pick("line", 0, 13)]; if (i + 1 < n || vp_pick("ended", 0, 1)) t += '\n'; } put(0, "f", t); plain::IniModel ini; vp_check(ini.open("f"), "opened"); auto d = parse(t); same(ini, d); char b[4]; vp_check(!ini.getstring_ifexist("none", "a", b, 4) && !ini.getstring_ifexist("a", "none", b, 4), "what is not there is not found"); vp_reach("end"); }
}
// values in every form
VP_HARNESS(ini_values) {
  static const char *vals[] = {"0", "7", "-12", "2147483647", "-2147483648", "1.5", "-0.25", "text", "", " 3"}; static const int ints[] = {0, 7, -12, 2147483647, INT32_MIN, 1, 0, 0, 0, 3}; static const float fl[] = {0, 7, -12, 2147483648.0f, -2147483648.0f, 1.5f, -0.25f, 0, 0, 3}; int i = (int)vp_pick("value", 0, 9); std::string v = vals[i];
  put(0, "f", "[s]\nk=" + v + "\n[t]\nk=5\n"); plain::IniModel ini("f"); int32_t d = vp_i32("default"), r = d; float f = 0;
  vp_check(ini.getint32("s", "k", d) == ints[i] && ini.getint32_ifexist("s", "k", r) && r == ints[i] && ini.get<int32_t>("s", "k", d) == ints[i], "as a number"); vp_check(ini.getfloat("s", "k", 9) == fl[i] && ini.getfloat_ifexist("s", "k", f) && f == fl[i] && ini.get<float>("s", "k", 9) == fl[i], "as a decimal");
  vp_check(ini.get<std::string>("s", "k", "none") == v, "as text"); std::string_view both("sk"); vp_check(ini.get<std::string>(both.substr(0, 1), both.substr(1), "none") == v, "names need no terminator"); plain::variable_t var; ini.get("s", "k", var); vp_check(var.get<std::string>() == v, "as a variable");
  static const char *sec[] = {"s", "t", "x", ""}, *key[] = {"k", "x", "", "kk"}; int a = (int)vp_pick("section", 0, 3), b = (int)vp_pick("key", 0, 3); bool there = a < 2 && b == 0; r = d; f = 3;
  vp_check(ini.getint32_ifexist(sec[a], key[b], r) == there && ini.getfloat_ifexist(sec[a], key[b], f) == there, "found exactly when it is there"); if (!there) { vp_check(r == d && f == 3, "unchanged"); vp_check(ini.getint32(sec[a], key[b], d) == d && ini.get<int32_t>(sec[a], key[b], d) == d && ini.getfloat(sec[a], key[b], 2.5f) == 2.5f && ini.get<std::string>(sec[a], key[b], "none") == "none", "the default"); }
  char buf[16]; memset(buf, '#', sizeof buf); int n = (int)vp_pick("size", 1, 12); bool g = ini.getstring(sec[a], key[b], buf, n, "default text"); std::string w = there ? (a ? "5" : v) : "default text"; vp_check(g == there && w.substr(0, n - 1) == buf, "as much as fits"); for (int k = n; k < 16; k++) vp_check(buf[k] == '#', "nothing after it");
  vp_check(!ini.getstring(-1) && !ini.getstring(1 << 20), "no value at other positions"); vp_reach("end");
}
// many and long values
VP_HARNESS(ini_large) {
  static const size_t len[] = {0, 100, 509, 510, 511, 1022, 1023, 1024, 5000}; std::string t = "[s]\n", w[3]; for (int i = 0; i < 3; i++) { w[i] = std::string(len[vp_pick("length", 0, 8)], (char)('a' + i)); t += "k" + std::to_string(i) + "=" + w[i] + "\n"; } t += "last=1\n"; put(0, "f", t);
  { plain::IniModel ini("f"); for (int i = 0; i < 3; i++) vp_check(ini.get<std::string>("s", "k" + std::to_string(i), "none") == w[i], "the whole value"); vp_check(ini.getint32("s", "last") == 1, "the lines after it"); std::string no(2000, 'q'); vp_check(ini.getint32(no.c_str(), no.c_str(), 4) == 4, "a long name"); } vp_reach("end");
}
// one object, several files
VP_HARNESS(ini_reopen) {
  auto run = [](int n) { plain::IniModel ini; const char *names[] = {"f", "g", "none"}; int cur = -1; for (int i = 0; i < n; i++) { int op = (int)vp_pick("op", 0, 3); if (op == 3) { ini.close(); cur = -1; } else { vp_check(ini.open(names[op]) == (op < 2), "opens what is there"); cur = op < 2 ? op : -1; } vp_check(ini.getint32("s", "k", 9) == (cur == 0 ? 1 : cur == 1 ? 2 : 9) && ini.getint32("t", "k", 9) == (cur == 1 ? 3 : 9) && ini.getdata()->size() == (size_t)(cur + 1), "the values of the open file"); if (op == 3) vp_check(!opened, "the file is closed"); } };
  put(0, "f", "[s]\nk=1"); put(1, "g", "[s]\nk=2\n[t]\nk=3\n"); { plain::IniModel w; w.open("f"); } int64_t base = vp_live_allocs(); run((int)vp_param("ops", 3)); vp_check(vp_live_allocs() == base && !opened, "nothing leaked"); vp_reach("end");
}
