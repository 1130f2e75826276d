#include <atomic>
#include <thread>
#include "vp.h"
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include "plain/basic/endian.h"
#include "plain/basic/stringstream.h"
#include "plain/basic/type/variable.h"
using std::string; using plain::variable_t;
namespace {
template <class T> void be_bytes(T v, const unsigned char *b) { for (size_t i = 0; i < sizeof(T); ++i) vp_check(b[i] == (unsigned char)((std::make_unsigned_t<T>)v >> 8 * (sizeof(T) - 1 - i)), "big endian on the wire"); }
template <class T> void endian_one(T v) {
  T h = plain::hton(v); unsigned char b[sizeof(T)]; memcpy(b, &h, sizeof h); be_bytes(v, b); vp_check(plain::ntoh(h) == v && plain::hton(plain::ntoh(v)) == v, "restored");
  unsigned char d[sizeof(T)]; plain::hton(v, &d[0]); be_bytes(v, d); vp_check(plain::ntoh<T>(&d[0]) == v && plain::hton<T>(&d[0]) == v, "restored from memory"); vp_check(plain::byteswap(plain::byteswap(v)) == v, "swapped twice");
}
template <class F, class U> void endian_fp() { U u; vp_symbolic(&u, sizeof u, "v"); F f; memcpy(&f, &u, sizeof f); F h = plain::hton(f); unsigned char b[sizeof(F)]; memcpy(b, &h, sizeof h); be_bytes(u, b); F r = plain::ntoh(h); U x; memcpy(&x, &r, sizeof x); vp_check(x == u, "restored"); }
}
VP_HARNESS(endian_all) {
  switch (vp_pick("type", 0, 9)) {
    case 0: endian_one(vp_u8("v")); break; case 1: endian_one(vp_i8("v")); break; case 2: endian_one(vp_u16("v")); break; case 3: endian_one(vp_i16("v")); break; case 4: endian_one(vp_u32("v")); break;
    case 5: endian_one(vp_i32("v")); break; case 6: endian_one(vp_u64("v")); break; case 7: endian_one(vp_i64("v")); break; case 8: endian_fp<float, uint32_t>(); break; default: endian_fp<double, uint64_t>();
  }
  vp_reach("end");
}
// values of any type written to a string stream of any size: the ones that fit are returned, in order
namespace {
struct Val { int t; uint64_t v; string s; };
size_t width(const Val &x) { static const int w[10] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8}; return x.t < 10 ? w[x.t] : 4 + x.s.size(); }
template <class T> void put(plain::stringstream &s, uint64_t v) { T t; memcpy(&t, &v, sizeof t); s << t; }
template <class T> uint64_t take(plain::stringstream &s, uint64_t dflt) { T t; memcpy(&t, &dflt, sizeof t); s >> t; uint64_t r = 0; memcpy(&r, &t, sizeof t); return r; }
void write(plain::stringstream &s, const Val &x) {
  switch (x.t) { case 0: put<int8_t>(s, x.v); break; case 1: put<uint8_t>(s, x.v); break; case 2: put<int16_t>(s, x.v); break; case 3: put<uint16_t>(s, x.v); break; case 4: put<int32_t>(s, x.v); break; case 5: put<uint32_t>(s, x.v); break;
    case 6: put<int64_t>(s, x.v); break; case 7: put<uint64_t>(s, x.v); break; case 8: put<float>(s, x.v); break; case 9: put<double>(s, x.v); break; case 10: s << x.s; break; default: s << x.s.c_str(); }
}
uint64_t readv(plain::stringstream &s, int t, uint64_t d) {
  switch (t) { case 0: return take<int8_t>(s, d); case 1: return take<uint8_t>(s, d); case 2: return take<int16_t>(s, d); case 3: return take<uint16_t>(s, d); case 4: return take<int32_t>(s, d); case 5: return take<uint32_t>(s, d);
    case 6: return take<int64_t>(s, d); case 7: return take<uint64_t>(s, d); case 8: return take<float>(s, d); default: return take<double>(s, d); }
}
uint64_t cut(uint64_t v, size_t n) { return n >= 8 ? v : v & ((1ull << 8 * n) - 1); }
}
VP_HARNESS(ss_round) {
  int n = (int)vp_param("n", 2); size_t size = (size_t)vp_pick("size", 1, 20); char *buf = new char[size]; memset(buf, 0x5a, size); size_t pos = 0; std::vector<Val> in; std::vector<bool> stored;
  { plain::stringstream w(buf, size);
    for (int i = 0; i < n; ++i) {
      Val x{(int)vp_pick("type", 0, 11), 0, {}}; if (x.t < 10) x.v = vp_u64("v"); else { int len = (int)vp_pick("len", 0, 3); for (int k = 0; k < len; ++k) { char c = (char)vp_u8("c"); if (x.t == 11) vp_assume(c != 0); x.s += c; } }
      bool fits = width(x) <= size - pos; write(w, x); if (fits) pos += width(x); vp_check(w.get_position() == pos, "written whole or not at all"); vp_check(w.full() == (pos == size), "full"); in.push_back(x); stored.push_back(fits);
    }
    for (size_t k = pos; k < size; ++k) vp_check(buf[k] == 0x5a, "nothing is written after the end"); }
  plain::stringstream r(buf, size); size_t at = 0;
  for (int i = 0; i < n; ++i) if (stored[i]) {
    at += width(in[i]);
    if (in[i].t < 10) vp_check(readv(r, in[i].t, 0xdeadbeefcafef00dull) == cut(in[i].v, width(in[i])), "value restored"); else { string s = "old"; r >> s; vp_check(s == in[i].s, "text restored"); }
    vp_check(r.get_position() == at, "position"); vp_reach("restored");
  }
  delete[] buf; vp_reach("end");
}
// any bytes: reads stay inside of the buffer, and what is not there changes nothing
VP_HARNESS(ss_any) {
  size_t size = (size_t)vp_pick("size", 1, 9); char *buf = new char[size]; for (size_t i = 0; i < size; ++i) buf[i] = (char)vp_u8("b"); plain::stringstream r(buf, size); size_t at = 0;
  for (int i = 0; i < (int)vp_param("n", 2); ++i) {
    int t = (int)vp_pick("type", 0, 11);
    if (t < 10) { Val x{t, 0, {}}; size_t w = width(x); uint64_t d = 0x1122334455667788ull, got = readv(r, t, d), want = 0; if (w <= size - at) { for (size_t k = 0; k < w; ++k) want = want << 8 | (unsigned char)buf[at + k]; at += w; } else want = cut(d, w); vp_check(got == want, "the bytes, or unchanged"); }
    else if (t == 10) { string s = "old"; r >> s; if (size - at >= 4) { int32_t len = 0; for (int k = 0; k < 4; ++k) len = len << 8 | (unsigned char)buf[at + k]; at += 4; if (len > 0 && (size_t)len <= size - at) { vp_check(s == string(buf + at, vp_concretize(len)), "text"); at += vp_concretize(len); vp_reach("text"); } else vp_check(s.empty(), "no text"); } else vp_check(s.empty(), "no text"); }
    else { size_t p = (size_t)vp_pick("to", 0, size - 1); r.set_position(p); at = p; }
    vp_check(r.get_position() == at, "position"); vp_check(r.full() == (at == size), "full");
  }
  char raw[12]; memset(raw, 3, 12); size_t k = (size_t)vp_u64("raw"); bool ok = k <= size - at; if (ok) k = vp_concretize(k); else vp_assume(k > size - at); vp_check(r.read(raw, k) == ok, "raw read"); if (ok) { vp_check(memcmp(raw, buf + at, k) == 0, "raw bytes"); vp_reach("raw"); } else vp_check(raw[0] == 3, "nothing is read");
  r.clear(); vp_check(r.get_position() == 0, "cleared"); for (size_t i = 0; i < size; ++i) vp_check(buf[i] == 0, "cleared"); delete[] buf; vp_reach("end");
}
// long texts
VP_HARNESS(ss_long) {
  static const size_t lens[] = {255, 256, 32767, 32768, 65535, 65536, 70000}; size_t n = lens[vp_pick("len", 0, 6)]; std::vector<char> buf(70100); char c = (char)vp_u8("c"); string t(n, 'x'); t[0] = c; t[n - 1] = c; plain::stringstream w(buf.data(), n + 4 + vp_pick("spare", 0, 1) * 4); w << t; vp_check(w.get_position() == n + 4, "written"); w << (int32_t)7;
  plain::stringstream r(buf.data(), buf.size()); string u; r >> u; vp_check(u == t && r.get_position() == n + 4, "text restored"); vp_reach("end");
}
// variables
namespace {
template <class T, class X> bool wrong(const X &v) { try { (void)v.template get<T>(); return false; } catch (const std::bad_variant_access &) { return true; } }
template <class T> void holds(T x) {
  const variable_t v{x}; vp_check(v.get<T>() == x && v._get<T>() == x, "value"); variable_t c{v}, a, m; a = v; vp_check(a == v && !(a != v) && c == v, "copy"); vp_check(c.get<T>() == x && a.get<T>() == x, "copy"); m = std::move(a); vp_check(m.get<T>() == x, "moved"); variable_t m2{std::move(c)}; vp_check(m2.get<T>() == x && (T)m2 == x, "moved");
  vp_check(v.to_int64() == (int64_t)x, "as a number"); vp_check(v.to_double() == (double)x, "as a decimal number");
  int others = wrong<bool>(v) + wrong<int8_t>(v) + wrong<uint8_t>(v) + wrong<int16_t>(v) + wrong<uint16_t>(v) + wrong<int32_t>(v) + wrong<uint32_t>(v) + wrong<int64_t>(v) + wrong<uint64_t>(v) + wrong<float>(v) + wrong<double>(v) + wrong<string>(v); vp_check(others == 11 && !wrong<T>(v), "another type is refused");
}
enum class E8 : uint8_t { a = 200 }; enum E32 { e = -5 };
}
VP_HARNESS(var_value) {
  switch (vp_pick("type", 0, 11)) {
    case 0: holds<bool>(vp_bool("v")); break; case 1: holds(vp_i8("v")); break; case 2: holds(vp_u8("v")); break; case 3: holds(vp_i16("v")); break; case 4: holds(vp_u16("v")); break; case 5: holds(vp_i32("v")); break; case 6: holds(vp_u32("v")); break; case 7: holds(vp_i64("v")); break; case 8: holds(vp_u64("v")); break;
    case 9: { static const double d[6] = {0.5, -1.75, 1e10, 0.0, -3, 4503599627370496.0}; double x = d[vp_pick("d", 0, 5)]; holds(x); holds((float)x); break; }
    case 10: { string s; int n = (int)vp_pick("n", 0, 4); for (int i = 0; i < n; ++i) s += (char)vp_u8("c"); variable_t v{s}, w; w = v; vp_check(v.get<string>() == s && w.get<string>() == s && w == v, "text"); vp_check(v.c_str() == string(s.c_str()), "text"); variable_t k{s.c_str()}; vp_check(k.get<string>() == s.c_str(), "text"); vp_check(wrong<int32_t>(v) && wrong<double>(v), "another type is refused"); variable_t num{std::to_string((int)vp_pick("num", 0, 200) - 100)}; vp_check(num.to_int64() == atoi(num.c_str()), "number in text"); break; }
    default: { variable_t a{E8::a}, b{e}; vp_check(a.get<uint8_t>() == 200, "enumeration"); vp_check(b.to_int64() == -5, "enumeration"); variable_t n; vp_check(!n.get<bool>(), "default"); }
  }
  vp_reach("end");
}
// text as numbers
VP_HARNESS(var_text) {
  static const char abc[] = "01789-+ z."; int n = (int)vp_pick("length", 0, vp_param("bytes", 3)); string s; for (int i = 0; i < n; i++) s += abc[vp_pick("c", 0, 9)];
  size_t p = 0; while (p < s.size() && s[p] == ' ') p++; bool neg = false; if (p < s.size() && (s[p] == '-' || s[p] == '+')) neg = s[p++] == '-'; int64_t v = 0; while (p < s.size() && s[p] >= '0' && s[p] <= '9') v = v * 10 + (s[p++] - '0'); double d = (double)v, u = 1; if (p < s.size() && s[p] == '.') for (p++; p < s.size() && s[p] >= '0' && s[p] <= '9'; p++) { u *= 10; d += (s[p] - '0') / u; } if (neg) { v = -v; d = -d; }
  variable_t t{s}; vp_check(t.to_int64() == v, "the decimal number of the text"); double g = t.to_double() - d; vp_check(g < 1e-9 && g > -1e-9, "the decimal fraction of the text"); vp_check(t.get<string>() == s, "the text stays");
  int op = (int)vp_pick("op", 0, 3); int64_t want = v; if (op == 0) { ++t; want++; } else if (op == 1) { t--; want--; } else if (op == 2) { variable_t one{1}; one += t; double h = one.get<double>() - (d + 1); vp_check(h < 1e-9 && h > -1e-9, "sum with a text"); } else { t -= 1; double h = t.get<double>() - (d - 1); vp_check(h < 1e-9 && h > -1e-9, "difference of a text"); }
  if (op < 2) vp_check(t.get<int64_t>() == want, "counted from the number of the text"); vp_reach("end");
}
// a variable used by several threads
VP_HARNESS(var_threads) {
  int what = (int)vp_pick("what", 0, 6); variable_t v{string("0")}, o{string("5")}; std::atomic<int> sum{0};
  if (what < 2) v = variable_t{(int64_t)0}; 
  auto work = [&](int t) { switch (what) {
    case 0: v++; v--; ++v; break;
    case 1: v += 1; v += (t + 1); v -= 1; break;
    case 2: v = o; { variable_t c{v}; vp_check(c.get<string>() == "5" || c.get<string>() == "x", "a value that was assigned"); } if (t) v = variable_t{string("x")}; break;
    case 3: if (t) { o = variable_t{string("7")}; } else { int64_t n = o.to_int64(); vp_check(n == 5 || n == 7, "a value that was assigned"); double d = o.to_double(); vp_check(d == 7 || (d == 5 && n == 5), "a value that was assigned"); } break;
    case 4: if (t) o = v; else v = o; break;
    case 5: if (t) { o = variable_t{string("7")}; } else { bool a = o == v, b = o != v; vp_check(!a && b, "compared"); vp_check(v < o && o > v, "compared"); } break;
    default: if (t) v += o; else o += v; } };
  { std::thread t([&] { work(1); }); work(0); t.join(); }
  switch (what) { case 0: vp_check(v.get<int64_t>() == 2, "nothing is lost"); break; case 1: vp_check(v.get<double>() == 3, "nothing is lost"); break; case 2: vp_check(v.get<string>() == "5" || v.get<string>() == "x", "one of the values"); break; case 4: vp_check(v.get<string>() == o.get<string>() || (v.get<string>() == "5" && o.get<string>() == "0"), "one of the values"); break; case 6: vp_check((v.to_double() == 5 && o.to_double() == 10) || (v.to_double() == 5 && o.to_double() == 5) || (v.to_double() == 10 && o.to_double() == 5), "one order or the other"); break; }
  vp_reach("end");
}
VP_HARNESS(var_math) {
  int op = (int)vp_pick("op", 0, 7); int32_t x = op < 4 ? vp_i8("x") : vp_i32("x"), y = op < 4 ? vp_concretize((uint64_t)(vp_pick("y", 0, 4) * 61) - 100) : vp_i32("y"); int form = (int)vp_pick("form", 0, 1); variable_t v{x}, w{y}; double a = x, b = y;
  switch (op) {
    case 0: if (form) v += w; else v += y; vp_check(v.get<double>() == a + b, "sum"); break; case 1: if (form) v -= w; else v -= y; vp_check(v.get<double>() == a - b, "difference"); break;
    case 2: if (form) v *= w; else v *= y; vp_check(v.get<double>() == (double)(x * y), "product"); break;
    case 3: { static const double q[5] = {4, -0.5, 8, 0.25, 1}; double k = q[vp_pick("k", 0, 4)]; variable_t z{k}; if (form) v /= z; else v /= k; vp_check(v.get<double>() * k == a, "quotient"); break; }
    case 4: if (form) ++v; else v++; vp_check(v.get<int64_t>() == (int64_t)x + 1, "incremented"); break; case 5: if (form) --v; else v--; vp_check(v.get<int64_t>() == (int64_t)x - 1, "decremented"); break;
    case 6: { vp_assume(x > -100 && x < 100); variable_t f{0.5}; if (form) v += f; else v += 0.5; vp_check(v.get<double>() == a + 0.5, "fraction kept"); variable_t g{2}; g -= f; vp_check(g.get<double>() == 1.5, "fraction kept"); g *= f; vp_check(g.get<double>() == 0.75, "fraction kept"); g /= f; vp_check(g.get<double>() == 1.5, "fraction kept"); break; }
    default: { variable_t u{y}; vp_check((v == u) == (x == y) && (v != u) == (x != y) && (v < u) == (x < y) && (v > u) == (x > y) && (v <= u) == (x <= y) && (v >= u) == (x >= y), "order"); variable_t s{"b"}, t{form ? "a" : "c"}; vp_check((s < t) == !form && (s > t) == (bool)form && s != t, "order of text"); }
  }
  if (op < 4) vp_check(w.get<int32_t>() == y, "the second stays"); vp_reach("end");
}
