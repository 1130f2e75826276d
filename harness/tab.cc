// Tables: text and binary files, queries. tab.cc is compiled here against files in memory.
#include "vp.h"
#include "allstd.h"
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include "plain/basic/utility.h"
#include "plain/file/config.h"
#include "plain/sys/assert.h"
struct MFile { std::string name, data; size_t pos = 0; bool there = false, open = false, write = false; };
static MFile mf[4];
static FILE *m_fopen(const char *n, const char *m) { bool w = m[0] == 'w'; for (auto &f : mf) if (f.there && f.name == n) { vp_check(!f.open, "a file is opened once"); f.open = true; f.pos = 0; f.write = w; if (w) f.data.clear(); return (FILE *)&f; } if (!w) return nullptr; for (auto &f : mf) if (!f.there) { f.there = f.open = f.write = true; f.name = n; f.pos = 0; return (FILE *)&f; } return nullptr; }
static int m_fclose(FILE *f) { MFile *m = (MFile *)f; vp_check(m->open, "a file is closed once"); m->open = false; return 0; }
static int m_fseek(FILE *f, long o, int w) { MFile *m = (MFile *)f; m->pos = (w == SEEK_END ? m->data.size() : w == SEEK_CUR ? m->pos : 0) + o; return 0; }
static long m_ftell(FILE *f) { return (long)((MFile *)f)->pos; }
static void m_rewind(FILE *f) { ((MFile *)f)->pos = 0; }
static size_t m_fread(void *b, size_t s, size_t n, FILE *f) { MFile *m = (MFile *)f; vp_check(m->open && !m->write, "open for reading"); size_t k = s * n, left = m->pos < m->data.size() ? m->data.size() - m->pos : 0; if (k > left) k = left; if (k) memcpy(b, m->data.data() + m->pos, k); m->pos += k; return s ? k / s : 0; }
static size_t m_fwrite(const void *b, size_t s, size_t n, FILE *f) { MFile *m = (MFile *)f; vp_check(m->open && m->write, "open for writing"); if (s * n) m->data.append((const char *)b, s * n); return n; }
static int m_fputs(const char *s, FILE *f) { m_fwrite(s, 1, strlen(s), f); return 0; }
static int m_fputc(int c, FILE *f) { char b = (char)c; m_fwrite(&b, 1, 1, f); return c; }
// numbers that are not known (only in messages) are not formatted
template <class... A> static int m_snprintf(char *b, size_t n, const char *f, A... a) { auto u = [](auto x) { if constexpr (std::is_integral_v<decltype(x)>) return vp_is_symbolic(x) != 0; else return false; }; if ((u(a) || ...)) { if (n) *b = 0; return 0; } return snprintf(b, n, f, a...); }
namespace std { using ::m_snprintf; using ::m_fopen; using ::m_fclose; using ::m_fseek; using ::m_ftell; using ::m_rewind; using ::m_fread; using ::m_fwrite; using ::m_fputs; using ::m_fputc; }
#define Tab TabModel
#define snprintf m_snprintf
#define fopen m_fopen
#define fclose m_fclose
#define fseek m_fseek
#define ftell m_ftell
#define rewind m_rewind
#define fread m_fread
#define fwrite m_fwrite
#define fputs m_fputs
#define fputc m_fputc
#include "plain/file/tab.h"
#include "../src/file/tab.cc"
namespace {
using T = plain::TabModel; using std::string;
struct Cell { int i = 0; float f = 0; string s; };
struct Want { bool ok = false; std::vector<int> type; std::vector<string> names; std::vector<std::vector<Cell>> rows; };
std::vector<string> cut(const string &s, bool all) { std::vector<string> r; if (s.empty()) return r; size_t p = 0; for (;;) { size_t e = s.find('\t', p); string x = s.substr(p, e == string::npos ? e : e - p); if (all || !x.empty()) r.push_back(x); if (e == string::npos) return r; p = e + 1; } }
int num(const string &s) { long long v = 0; size_t i = 0; bool n = false; while (i < s.size() && s[i] == ' ') i++; if (i < s.size() && s[i] == '-') n = true, i++; for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; i++) v = v * 10 + s[i] - '0'; return (int)(n ? -v : v); }
// what a text says: types, names, records; comments and records without first value do not count
Want parse(string t) {
  Want w; std::vector<string> ls; if (size_t z = t.find('\0'); z != string::npos) t.resize(z); size_t p = 0; while (p < t.size()) { size_t e = t.find_first_of("\r\n", p); ls.push_back(t.substr(p, e == string::npos ? e : e - p)); p = e == string::npos ? t.size() : t.find_first_not_of("\r\n", e); }
  if (ls.size() < 2) return w; for (auto &x : cut(ls[0], false)) { if (x == "INT") w.type.push_back(0); else if (x == "FLOAT") w.type.push_back(1); else if (x == "STRING") w.type.push_back(2); else return w; } if (w.type.empty()) return w; w.ok = true; w.names = cut(ls[1], false);
  for (size_t i = 2; i < ls.size(); i++) { if (ls[i].empty() || ls[i][0] == '#') continue; auto c = cut(ls[i], true); c.resize(w.type.size()); if (c[0].empty()) continue; std::vector<Cell> row; for (size_t k = 0; k < c.size(); k++) { Cell x; if (w.type[k] == 0) x.i = num(c[k]); else if (w.type[k] == 1) x.f = (float)num(c[k]); else x.s = c[k]; row.push_back(x); } w.rows.push_back(row); }
  return w; }
void cells(const T &t, const Want &w) { for (size_t r = 0; r < w.rows.size(); r++) for (size_t k = 0; k < w.type.size(); k++) { auto *d = t.search_position((int)r, (int)k); vp_check(d, "the field is there"); auto &x = w.rows[r][k]; vp_check(w.type[k] == 0 ? d->int_value == x.i : w.type[k] == 1 ? d->float_value == x.f : x.s == d->string_value, "the value of the field"); } }
void same(T &t, const Want &w, bool names = true) {
  vp_check(t.get_field_number() == (int)w.type.size() && t.get_record_number() == (int)w.rows.size(), "exactly the fields and records"); for (size_t k = 0; k < w.type.size(); k++) vp_check(t.get_fieldtype((int)k) == w.type[k], "the type"); cells(t, w);
  if (names) for (size_t k = 0; k < w.names.size(); k++) { vp_check(w.names[k] == t.get_fieldname((int)k), "the name"); size_t first = 0; while (w.names[first] != w.names[k]) first++; vp_check(t.get_fieldindex(w.names[k].c_str()) == (int)first, "the field with the name"); }
  if (w.type[0] == 0) for (size_t r = 0; r < w.rows.size(); r++) { size_t first = 0; while (w.rows[first][0].i != w.rows[r][0].i) first++; vp_check(t.search_index_equal(w.rows[r][0].i) == t.search_position((int)first, 0), "the record with the number"); } }
const char *kHead[] = {"INT\n", "STRING\n", "INT\tSTRING\n", "STRING\tINT\r\n", "INT\tFLOAT\tSTRING\n"}; const int kFields[] = {1, 1, 2, 2, 3};
}
// any records
VP_HARNESS(tab_text_any) {
  int h = (int)vp_pick("types", 0, 4); static const char abc[] = "\t\n1a#2"; string t = kHead[h]; t += "x\ty\tz\n"; int n = (int)vp_pick("length", 0, vp_param("bytes", 4)); for (int i = 0; i < n; i++) { int c = (int)vp_pick("c", 0, 6); t += c == 6 ? '\0' : abc[c]; }
  int64_t base = vp_live_allocs(); { auto m = std::make_unique<char[]>(t.size()); memcpy(m.get(), t.data(), t.size()); T tab(7); bool ok = tab.open_from_memory(m.get(), m.get() + t.size(), "mem"); auto w = parse(t); vp_check(ok == w.ok && ok && tab.get_id() == 7, "opened"); same(tab, w); } vp_check(vp_live_allocs() == base, "nothing leaked"); vp_reach("end");
}
// any beginning
VP_HARNESS(tab_text_head) {
  static const char *a[] = {"", "INT", "BAD", "INT\tFLOAT", "INT\tint", "\t\t", "\tSTRING\t", "\xcc"}, *b[] = {"", "a", "a\tb", "a\tb\tc", "\t"}, *c[] = {"", "1\t2", "#1", "\t2"}; string t = a[vp_pick("types", 0, 7)]; for (int i = (int)vp_pick("lines", 0, 2), k = 1; i; i--, k++) { t += '\n'; t += k == 1 ? b[vp_pick("names", 0, 4)] : c[vp_pick("values", 0, 3)]; }
  auto m = std::make_unique<char[]>(t.size()); memcpy(m.get(), t.data(), t.size()); T tab(1); bool ok = tab.open_from_memory(m.get(), m.get() + t.size()); auto w = parse(t); vp_check(ok == w.ok, "opened exactly when types and names are there"); if (ok) same(tab, w); else vp_check(tab.get_record_number() == 0 && !tab.search_position(0, 0), "empty"); vp_reach(ok ? "opened" : "refused");
}
// all queries, for all positions and values
VP_HARNESS(tab_query) {
  string t = "INT\tSTRING\tINT\n"; t += vp_pick("names", 0, 1) ? "id\tname\tn\n" : "id\n"; int rows = (int)vp_pick("rows", 0, 3); for (int r = 0; r < rows; r++) { t += (char)('1' + vp_pick("id", 0, 1)); t += '\t'; t += (char)('a' + vp_pick("s", 0, 1)); t += "\t"; t += (char)('5' + r); t += '\n'; }
  T tab(1); vp_check(tab.open_from_memory(t.data(), t.data() + t.size(), "m"), "opened"); auto w = parse(t); same(tab, w); int how = (int)vp_pick("query", 0, 4); const T::field_data *none = nullptr;
  if (how == 0) { int l = vp_i32("line"), c = vp_i32("column"); bool in = l >= 0 && l < rows && c >= 0 && c < 3; auto *d = tab.search_position(l, c); vp_check(in == (d != nullptr), "found exactly when it is there"); if (in) vp_check(d == tab.search_position(0, 0) + l * 3 + c, "the field"); }
  if (how == 1) { int k = vp_i32("index"); auto *n = tab.get_fieldname(k); vp_check((n != nullptr) == (k >= 0 && k < (int)w.names.size()), "named exactly when it is there"); uint8_t ty = tab.get_fieldtype(k); vp_check(k >= 0 && k < 3 ? ty == (k == 1 ? 2 : 0) : ty > 2, "type"); vp_check(tab.get_fieldindex("none") == -1 && !tab.get_fielddata(0, "none"), "an unknown name"); }
  if (how == 2) { int c = vp_i32("column"), v = (int)vp_pick("v", 0, 9); T::field_data x(v); char s[2] = {(char)('a' + v % 4), 0}; if (c == 1) x = T::field_data((const char *)s); auto *d = tab.search_first_column_equal(c, x); int at = -1; if (c >= 0 && c < 3) for (int r = 0; r < rows && at < 0; r++) if (c == 1 ? w.rows[r][1].s == s : w.rows[r][c].i == v) at = r; vp_check(d == (at < 0 ? none : tab.search_position(at, 0)), "the first record with the value"); }
  if (how == 3) { int c = vp_i32("column"); tab.create_index(c, "m"); int col = c == 1 || c == 2 ? c : 0, v = (int)vp_pick("v", 0, 9); auto *d = tab.search_index_equal(v); int at = -1; if (col != 1) for (int r = 0; r < rows && at < 0; r++) if (w.rows[r][col].i == v) at = r; vp_check(d == (at < 0 ? none : tab.search_position(at, 0)), "the first record with the number"); }
  if (how == 4) { int l = (int)vp_pick("line", -1, 3), k = (int)vp_pick("name", 0, 2); static const char *nm[] = {"id", "name", "n"}; bool in = l >= 0 && l < rows && k < (int)w.names.size(); auto *d = tab.get_fielddata(l, nm[k]); vp_check(d == (in ? tab.search_position(l, k) : none), "by name"); }
  vp_reach("end");
}
// an index is made of numbers only
VP_HARNESS(tab_index) {
  static const char *num0[] = {"0", "1", "3"}; string t = "INT\tFLOAT\tINT\n" "a\tb\tc\n"; int n = (int)vp_pick("rows", 0, 2); int ids[2][2]; for (int r = 0; r < n; r++) { ids[r][0] = (int)vp_pick("id", 0, 2); ids[r][1] = (int)vp_pick("n", 0, 2); t += string(num0[ids[r][0]]) + "\t0\t" + num0[ids[r][1]] + "\n"; }
  T tab(1); vp_check(tab.open_from_memory(t.data(), t.data() + t.size(), "m"), "opened"); int c = (int)vp_pick("column", 0, 2); tab.create_index(c, "m"); const T::field_data *none = nullptr; static const int val[] = {0, 1, 3};
  for (int v = 0; v < 4; v++) { int at = -1; if (c != 1) for (int r = 0; r < n && at < 0; r++) if (val[ids[r][c ? 1 : 0]] == v) at = r; vp_check(tab.search_index_equal(v) == (at < 0 ? none : tab.search_position(at, 0)), "the first record with the number, none if the column has no numbers"); } vp_reach("end");
}
// saved as text or binary and opened again
VP_HARNESS(tab_round) {
  static const char *st[] = {"a", "%s%n", "", "a b", "x#", "100%"}, *in[] = {"0", "-5", "2147483647", "-2147483648"}, *fl[] = {"0", "1.5", "-0.125", "1000000"}; static const float fv[] = {0, 1.5f, -0.125f, 1000000}; int order = (int)vp_pick("order", 0, 1), rows = (int)vp_pick("rows", 0, vp_param("rows", 2)); Want w; w.ok = true;
  w.type = order ? std::vector<int>{0, 2, 1} : std::vector<int>{2, 1, 0}; string t = order ? "INT\tSTRING\tFLOAT\n" : "STRING\tFLOAT\tINT\n"; string longname(vp_pick("long", 0, 1) ? 100 : 1, 'n'); w.names = {"%d%s", longname, "c"}; t += w.names[0] + "\t" + w.names[1] + "\t" + w.names[2] + "\n";
  for (int r = 0; r < rows; r++) { int s = (int)vp_pick("s", 0, 5), i = (int)vp_pick("i", 0, 3), f = (int)vp_pick("f", 0, 3); vp_assume(order || st[s][0]); Cell a, b, c; a.s = st[s]; b.f = fv[f]; c.i = num(in[i]); if (order) { t += string(in[i]) + "\t" + st[s] + "\t" + fl[f] + "\n"; w.rows.push_back({c, a, b}); } else { t += string(st[s]) + "\t" + fl[f] + "\t" + in[i] + "\n"; w.rows.push_back({a, b, c}); } }
  mf[0].name = "in"; mf[0].data = t; mf[0].there = true; { T tab(3); vp_check(!tab.open_from_txt("none"), "a missing file"); vp_check(tab.open_from_txt("in"), "opened"); same(tab, w); bool bin = vp_pick("binary", 0, 1); if (vp_pick("twice", 0, 1)) { vp_check(tab.open_from_txt("in"), "opened again"); same(tab, w); }
    if (bin) vp_check(tab.save_tobinary("out"), "saved"); else vp_check(tab.save_totext("out"), "saved"); same(tab, w); T two(4); vp_check(two.open_from_txt("out"), "opened again"); same(two, w, !bin);
    if (bin) { vp_check(two.save_tobinary("out2") && mf[1].data == mf[2].data, "saved as it was read"); } } for (auto &f : mf) vp_check(!f.open, "every file is closed"); vp_reach("end");
}
// any binary content
VP_HARNESS(tab_binary_any) {
  static const int sizes[] = {0, 15, 16, 20, 21, 28, 29, 37, 45}; int how = (int)vp_pick("how", 0, 1), k = (int)vp_pick("size", 0, how ? 8 : vp_param("sizes", 2)), n = how ? sizes[k] : sizes[(k * 4 + 3) % 9]; auto m = std::make_unique<char[]>(n + 1); if (how == 0) { if (n) vp_symbolic(m.get(), n < 16 ? n : 16, "m"); if (n >= 16) { static const int v[] = {-1, 0, 1, 2, 3, 0x20000000, 0x40000000, INT32_MAX, INT32_MIN}; int w = (int)vp_pick("which", 1, 2), x = v[vp_pick("number", 0, 8)]; memcpy(m.get() + 4 * w, &x, 4); } for (int i = 16; i < n; i++) m[i] = (char)(i == 16 ? vp_pick("type", 0, 3) : 0); } else { if (n > 16) vp_symbolic(m.get() + 16, n - 16, "m"); static const int v[] = {-1, 0, 1, 2, 3, 5}; for (int k = 1; k < 4 && n >= 16; k++) { int x = v[vp_pick("head", 0, 5)]; memcpy(m.get() + 4 * k, &x, 4); } } if (n >= 4) { uint32_t id = FILE_DATABASE_INDENTIFY; memcpy(m.get(), &id, 4); } T tab(1); bool ok = tab.open_from_memory(m.get(), m.get() + n);
  if (!ok) { vp_check(tab.get_record_number() == 0 && tab.get_field_number() == 0 && !tab.search_position(0, 0), "refused, and empty"); return; }
  int h[4]; memcpy(h, m.get(), 16); vp_check(tab.get_field_number() == h[1] && tab.get_record_number() == h[2] && h[1] > 0 && h[2] >= 0 && h[3] > 0, "the numbers of the file"); for (int k = 0; k < h[1]; k++) { vp_check(tab.get_fieldtype(k) <= 2, "known types"); for (int r = 0; r < h[2]; r++) { auto *d = tab.search_position(r, k); vp_check(d, "every field is there"); if (tab.get_fieldtype(k) == 2) { size_t l = strlen(d->string_value); vp_check(l < (size_t)h[3], "strings end inside of the table"); vp_reach("string"); } else { int v; memcpy(&v, m.get() + 16 + 4 * h[1] + 8 * (r * h[1] + k), 4); vp_check(d->int_value == v, "the value of the field"); } } } vp_reach("opened");
}
// lines of any length in any buffer
VP_HARNESS(tab_line) {
  int n = (int)vp_pick("length", 0, 5), size = (int)vp_pick("size", 1, 7); auto m = std::make_unique<char[]>(n + 1); string t; for (int i = 0; i < n; i++) { static const char abc[] = "ab\n\r"; int c = (int)vp_pick("c", 0, 4); t += m[i] = c == 4 ? 0 : abc[c]; } auto b = std::make_unique<char[]>(size); const char *p = m.get(), *e = m.get() + n; string all; int steps = 0;
  while ((p = T::get_line_from_memory(b.get(), size, p, e)) != nullptr) { vp_check(p <= e && ++steps <= n + 1, "it goes forward"); size_t l = strlen(b.get()); vp_check(l < (size_t)size, "in the buffer"); all += b.get(); if (size == 1) return; } string w; for (char c : t) { if (!c) break; if (c != '\n' && c != '\r') w += c; } vp_check(all == w, "all characters of all lines"); vp_reach("end");
}
// more records than 16 bits count
VP_HARNESS(tab_many) {
  string t = "STRING\nx\n"; for (int i = 0; i < 65537; i++) t += "a\n"; T tab(1); vp_check(tab.open_from_memory(t.data(), t.data() + t.size()), "opened"); vp_check(tab.get_record_number() == 65537 && !strcmp(tab.search_position(65536, 0)->string_value, "a"), "the last record"); vp_reach("end");
}
