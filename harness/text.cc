#include "vp.h"
#include <cstring>
#include <string>
#include <vector>
#include "plain/basic/base64.h"
#include "plain/basic/md5.h"
#include "plain/basic/utility.h"
using std::string;
namespace {
string sym(const char *n, int max) { int len = (int)vp_pick("length", 0, max); string s; for (int i = 0; i < len; ++i) s += (char)vp_u8(n); return s; }
// text over a small alphabet, so that every relation between the characters is covered
string text(const char *n, int max, const char *abc) { int k = (int)strlen(abc), len = (int)vp_pick("length", 0, max); string s; for (int i = 0; i < len; ++i) s += abc[vp_pick(n, 0, k - 1)]; return s; }
const char kB64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
}
// base64
VP_HARNESS(b64_round) {
  string in = sym("in", (int)vp_param("bytes", 7)); string out = plain::base64_encode(in);
  vp_check(out.size() == (in.size() + 2) / 3 * 4, "encoded length");
  for (size_t i = 0; i < out.size(); ++i) {      // every digit, from the bits of the input
    size_t bit = i / 4 * 24 + i % 4 * 6; unsigned d = 0; bool pad = bit >= in.size() * 8;
    for (int b = 0; b < 6; ++b) { size_t k = bit + b; unsigned v = k / 8 < in.size() ? ((unsigned char)in[k / 8] >> (7 - k % 8)) & 1 : 0; d = d << 1 | v; }
    unsigned want = vp_ite(d < 26, 'A' + d, vp_ite(d < 52, 'a' + d - 26, vp_ite(d < 62, '0' + d - 52, vp_ite(d == 62, '+', '/'))));
    vp_check((unsigned char)out[i] == (pad ? '=' : want), "digit");
  }
  vp_check(plain::base64_decode(out) == in, "decoding restores the input");
  vp_reach("end");
}
VP_HARNESS(b64_any) {       // any text: decodes up to the first character that is no digit, without touching other memory
  int n = (int)vp_pick("n", 0, (int)vp_param("bytes", 8)); string in; for (int i = 0; i < n; ++i) in += (char)vp_u8("in");
  string out = plain::base64_decode(in); int digits = 0; unsigned v[8] = {};
  while (digits < n) { unsigned char c = in[digits]; unsigned x = vp_ite((c >= 'A') & (c <= 'Z'), c - 'A', vp_ite((c >= 'a') & (c <= 'z'), c - 'a' + 26, vp_ite((c >= '0') & (c <= '9'), c - '0' + 52, vp_ite(c == '+', 62, vp_ite(c == '/', 63, 99))))); if (x == 99) break; v[digits++] = x; }
  int full = digits / 4 * 3, rest = digits % 4; vp_check((int)out.size() == full + (rest ? rest - 1 : 0), "decoded length");
  for (size_t i = 0; i < out.size(); ++i) { unsigned x = 0; for (int b = 0; b < 8; ++b) { size_t k = i * 8 + b; x = x << 1 | (v[k / 6] >> (5 - k % 6) & 1); } vp_check((unsigned char)out[i] == x, "decoded byte"); }
  vp_reach("end");
}
// binary data as hexadecimal text
VP_HARNESS(hex_round) {
  int n = (int)vp_pick("n", 1, 3); char in[3], out[8], back[4] = {9, 9, 9, 9}; for (int i = 0; i < n; ++i) in[i] = (char)vp_u8("in"); memset(out, 7, sizeof out);
  vp_check(plain::binary_tostring(in, n, out), "converted");
  for (int i = 0; i < 2 * n; ++i) { unsigned d = i % 2 ? in[i / 2] & 15 : (unsigned char)in[i / 2] >> 4; vp_check(out[i] == (char)vp_ite(d < 10, '0' + d, 'A' + d - 10), "digit"); }
  vp_check(out[2 * n] == 7, "nothing else is written");
  uint32_t limit = (uint32_t)vp_pick("limit", 0, 4), got = 77; vp_check(plain::string_tobinary(out, 2 * n, back, limit, got), "converted");
  vp_check(got == (limit < (uint32_t)n ? limit : n), "as much as there is and fits"); for (uint32_t i = 0; i < 4; ++i) vp_check(back[i] == (i < got ? in[i] : 9), "restored"); vp_reach("end");
}
// quoting
VP_HARNESS(quote_round) {
  string in = text("in", (int)vp_param("chars", 4), "\\'\"a"), q = plain::addslashes(in);
  size_t i = 0; for (char c : in) { if (c != 'a') vp_check(i < q.size() && q[i++] == '\\', "quoted"); vp_check(i < q.size() && q[i++] == c, "kept"); } vp_check(i == q.size(), "nothing else");
  vp_check(plain::stripslashes(q) == in, "restored"); vp_reach("end");
}
VP_HARNESS(escape_any) {
  int n = (int)vp_pick("n", 0, 3), room = (int)vp_pick("room", 0, 6); char in[3], out[8]; memset(out, 1, sizeof out); for (int i = 0; i < n; ++i) in[i] = (char)vp_u8("in");
  plain::getescape(in, n, out, room); int k = 0, i = 0;
  for (; i < n; ++i) { const char *from = "\0\n\r\x1a\"'\\", *to = "0nrZ\"'\\"; int e = -1; for (int j = 0; j < 7; ++j) if (in[i] == from[j]) e = j; if (k + (e >= 0 ? 2 : 1) > room) break; if (e >= 0) { vp_check(out[k] == '\\' && out[k + 1] == to[e], "escaped"); k += 2; } else vp_check(out[k++] == in[i], "kept"); }
  for (; k < 8; ++k) vp_check(out[k] == 1, "nothing else is written"); vp_reach("end");
}
// passwords
VP_HARNESS(password_round) {
  static const int lens[6] = {0, 1, 15, 16, 20, 21}; int n = lens[vp_pick("n", 0, 5)]; string in; for (int i = 0; i < n; ++i) in += (char)(0x20 + (i * 29 + 5) % 95);
  if (n) in[n > 1 ? (size_t)vp_pick("where", 0, 1) * 7 % n : 0] = (char)(n > 1 ? vp_pick("in", 1, 255) : vp_u8("in")); bool printable = true; for (char c : in) if (!(c >= 0x20 && c <= 0x7e)) printable = false;
  string out, back; bool ok = plain::encrypt(in, out);
  if (n > 20 && in.find('\0') == string::npos) vp_check(!ok, "too long"); else if (!printable && in.find('\0') == string::npos) vp_check(!ok, "not a password");
  if (printable && n <= 15) vp_check(ok, "encrypted");
  if (ok) { vp_check(out.size() == 32, "size"); vp_check(plain::decrypt(out, back), "decrypted"); vp_check(back == string(in.c_str()), "restored"); vp_reach("ok"); } else vp_reach("refused");
}
VP_HARNESS(password_any) {   // any text: refused, or decrypted to at most 20 characters
  string in(32, 'a'); in[13] = (char)vp_u8("first"); char c = (char)vp_u8("c"); for (int i = 0; i < 32; ++i) if (i != 13) in[i] = c; if (vp_pick("short", 0, 1)) in.resize(31);
  string out = "x"; bool ok = plain::decrypt(in, out); if (ok) { vp_check(out.size() <= 20, "size"); vp_reach("ok"); } else vp_reach("refused");
}
VP_HARNESS(hide_round) {     // a number hidden in a text
  static const int32_t nums[7] = {0, 7, -12, 99999, INT32_MAX, INT32_MIN, 1000000000}; int32_t k = nums[vp_pick("number", 0, 6)], got = 1; string in; int n = (int)vp_pick("n", 0, 4); for (int i = 0; i < n; ++i) in += (char)vp_u8("in");
  vp_clock_set((int64_t)vp_pick("now", 0, 3) * 1000000000 * 977 + 5000000000); string out, back; vp_check(plain::encrypt(in, k, out), "encrypted"); vp_check(plain::decrypt(out, got, back), "decrypted"); vp_check(got == k, "the number"); vp_check(back == in, "the text"); vp_reach("end");
}
VP_HARNESS(hide_any) {
  string in; int n = (int)vp_pick("n", 0, 6); for (int i = 0; i < n; ++i) in += i < 4 ? (char)vp_concretize(vp_ite(true, 'a' + vp_pick("in", 0, 3), 0)) : (char)vp_u8("tail"); string out; int32_t k; if (plain::decrypt(in, k, out)) vp_reach("ok"); else vp_reach("refused");
}
// message digest
namespace {
unsigned rol(unsigned x, int n) { return x << n | x >> (32 - n); }
string ref_md5(string m) {
  static const unsigned char sh[16] = {7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21};
  static const unsigned K[64] = {0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
  uint64_t bits = m.size() * 8; m += (char)0x80; while (m.size() % 64 != 56) m += '\0'; for (int i = 0; i < 8; ++i) m += (char)(bits >> 8 * i);
  unsigned h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  for (size_t o = 0; o < m.size(); o += 64) {
    unsigned w[16]; for (int i = 0; i < 16; ++i) w[i] = (unsigned char)m[o + 4 * i] | (unsigned char)m[o + 4 * i + 1] << 8 | (unsigned char)m[o + 4 * i + 2] << 16 | (unsigned)(unsigned char)m[o + 4 * i + 3] << 24;
    unsigned a = h[0], b = h[1], c = h[2], d = h[3];
    for (int i = 0; i < 64; ++i) { unsigned f, g; if (i < 16) { f = (b & c) | (~b & d); g = i; } else if (i < 32) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; } else if (i < 48) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = 7 * i % 16; }
      f = f + a + K[i] + w[g]; a = d; d = c; c = b; b += rol(f, sh[i / 16 * 4 + i % 4]); }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
  }
  string out; for (int i = 0; i < 16; ++i) { unsigned v = h[i / 4] >> 8 * (i % 4) & 255; out += "0123456789abcdef"[v >> 4]; out += "0123456789abcdef"[v & 15]; } return out;
}
}
VP_HARNESS(md5_lengths) {       // every length up to the bound, fed in two pieces cut anywhere
  int n = (int)vp_pick("n", 0, (int)vp_param("max", 130)); string m; for (int i = 0; i < n; ++i) m += (char)(i * 37 + n * 11 + 200); string want = ref_md5(m);
  vp_check(plain::md5(m) == want, "digest"); static const int cuts[6] = {0, 1, 55, 63, 64, 65}; int c = cuts[vp_pick("cut", 0, 5)], d = (int)vp_pick("second", 0, 1) * 64; if (c > n) c = n; if (c + d > n) d = n - c;
  plain::MD5 h; vp_check(h.hexdigest().empty(), "no digest before the end"); h.update(m.data(), c); h.update(m.data() + c, d); h.update(m.data() + c + d, n - c - d); h.finalize(); vp_check(h.hexdigest() == want && h.md5() == want, "digest of pieces"); h.finalize(); vp_check(h.hexdigest() == want, "finishing twice");
  vp_reach("end");
}
// helpers
VP_HARNESS(str_trim) {
  bool dflt = vp_pick("default", 0, 1); string in = dflt ? sym("in", (int)vp_param("chars", 4)) : text("in", 5, "xy.z"); std::string_view mask = dflt ? std::string_view(" \t\n\r\0\x0B", 6) : std::string_view("xy"); int what = (int)vp_pick("what", 0, 2); string s = in;
  string &r = what == 0 ? (dflt ? plain::ltrim(s) : plain::ltrim(s, mask)) : what == 1 ? (dflt ? plain::rtrim(s) : plain::rtrim(s, mask)) : (dflt ? plain::trim(s) : plain::trim(s, mask));
  size_t a = 0, b = in.size(); auto inm = [&](char c) { for (char m : mask) if (c == m) return true; return false; };
  if (what != 1) while (a < b && inm(in[a])) ++a; if (what != 0) while (b > a && inm(in[b - 1])) --b;
  vp_check(&r == &s && s == in.substr(a, b - a), "trimmed"); vp_reach("end");
}
VP_HARNESS(str_replace_any) {
  string in = text("in", (int)vp_param("chars", 4), "abc"), a = text("search", 2, "ab"), b = text("replace", 2, "ax"); int count = (int)vp_pick("count", 0, 3) - 1;
  string want; size_t i = 0; int k = 0; while (i < in.size()) { if (!a.empty() && in.compare(i, a.size(), a) == 0 && (count == -1 || k < count)) { want += b; i += a.size(); ++k; } else want += in[i++]; }
  vp_check(plain::str_replace(a, b, in, count) == want, "replaced"); vp_reach("end");
}
VP_HARNESS(str_helpers) {
  int what = (int)vp_pick("what", 0, 5);
  if (what == 0) { string in = text("in", 4, "abc"); vp_check(plain::str_replaces({"a", "bx"}, "x", in) == plain::str_replace("bx", "x", plain::str_replace("a", "x", in)), "all are replaced"); vp_check(plain::contains(in, {"", "ab", "cc"}) == (in.find("ab") != string::npos || in.find("cc") != string::npos), "contains"); vp_check(!plain::contains(in, {}), "contains"); }
  else if (what == 1) { string in; for (int i = 0; i < 3; ++i) in += (char)vp_u8("in"); string lo = plain::tolower(in), up = plain::toupper(in); for (int i = 0; i < 3; ++i) { char c = in[i]; vp_check(lo[i] == (c >= 'A' && c <= 'Z' ? c + 32 : c) && up[i] == (c >= 'a' && c <= 'z' ? c - 32 : c), "case"); } }
  else if (what == 2) { uint64_t v = vp_u64("v"); vp_check(plain::touint64(plain::get_highsection(v), plain::get_lowsection(v)) == v, "sections"); vp_check(plain::get_highsection(v) == v >> 32, "high"); }
  else if (what == 3) { char buf[8]; memset(buf, 5, 8); string in = text("in", 5, "ab"); size_t n = (size_t)vp_pick("size", 0, 7); plain::safecopy(buf, in.c_str(), n); if (n) vp_check(string(buf) == in.substr(0, n - 1), "copied"); for (size_t i = n; i < 8; ++i) vp_check(buf[i] == 5, "nothing else is written"); }
  else if (what == 4) { string in = text("in", 3, "a/"); char *buf = new char[8]; memset(buf, 5, 8); size_t n = in.size() + 1 + (size_t)vp_pick("room", 0, 2); strcpy(buf, in.c_str()); plain::complementpath(buf, n); bool add = (in.empty() || in.back() != '/') && n >= in.size() + 2; vp_check(string(buf) == (add ? in + "/" : in), "completed"); for (size_t i = n; i < 8; ++i) vp_check(buf[i] == 5, "nothing else is written"); delete[] buf; }
  else { string in = text("in", 4, "a/\\"), u = in, w = in; plain::path_tounix(u.data(), (uint16_t)u.size()); plain::path_towindows(w.data(), (uint16_t)w.size()); for (size_t i = 0; i < in.size(); ++i) vp_check(u[i] == (in[i] == '\\' ? '/' : in[i]) && w[i] == (in[i] == '/' ? '\\' : in[i]), "path"); char save[16]; plain::dirname(in.c_str(), save); size_t p = u.rfind('/'); vp_check(string(save) == (p == string::npos ? "" : u.substr(0, p)), "directory"); }
  vp_reach("end");
}
VP_HARNESS(str_explode) {
  bool one = vp_pick("one", 0, 1), skip = vp_pick("skip", 0, 1); string in = text("in", (int)vp_param("chars", 5), "a,;"); const char *key = one ? (vp_pick("key", 0, 1) ? ",;" : ",") : (vp_pick("key", 0, 1) ? ",;" : vp_pick("empty", 0, 1) ? "" : ","); size_t kl = one ? 1 : strlen(key);
  std::vector<string> want, got{"old"}; if (!in.empty()) { string cur; size_t i = 0; while (i < in.size()) { bool hit = one ? strchr(key, in[i]) != nullptr : kl && in.compare(i, kl, key) == 0; if (hit) { if (!skip || !cur.empty()) want.push_back(cur); cur.clear(); i += kl; } else cur += in[i++]; } if (!skip || !cur.empty()) want.push_back(cur); }
  int n = plain::explode(in.c_str(), got, key, one, skip); vp_check(n == (int)want.size() && got == want, "split"); vp_reach("end");
}
VP_HARNESS(str_numbers) {
  int what = (int)vp_pick("what", 0, 2);
  if (what == 0) { int64_t v = vp_i64("v"); vp_assume(v > -1000 && v < 1000); vp_check(plain::toint64(std::to_string(v).c_str()) == v, "number"); }
  else if (what == 1) { static const uint64_t big[5] = {UINT64_MAX, 1ull << 63, (1ull << 63) - 1, 0, 1234567890123456789ull}; uint64_t v = big[vp_pick("v", 0, 4)]; vp_check(plain::touint64(std::to_string(v).c_str()) == v, "number"); if (v < 1ull << 63) vp_check(plain::toint64(std::to_string(v).c_str()) == (int64_t)v && plain::toint64(("-" + std::to_string(v)).c_str()) == -(int64_t)v, "number"); }
  else { string in; int n = (int)vp_pick("n", 1, 4); for (int i = 0; i < n; ++i) in += (char)vp_u8("in"); bool bad = false; for (char c : in) { if (!c) break; if (c == '\'' || c == '"' || c == '(' || c == ')' || c == '=') bad = true; } vp_check(plain::checkstr(in.data(), n) == !bad, "checked"); vp_check(!plain::checkstr(in.data(), 0), "empty"); }
  vp_reach("end");
}
// plain text of any length becomes wide text and is restored from it
VP_HARNESS(wide_round) {
  static const int len[] = {0, 1, 3, 510, 511, 512, 513, 2046, 2047, 2048, 2100}; int n = len[vp_pick("n", 0, 10)]; std::string s(n, 'm'); if (n) { s[0] = (char)vp_u8("first"); s[n - 1] = (char)vp_u8("last"); vp_assume(s[0] > 0 && s[n - 1] > 0); }
  char *h = new char[n + 1]; memcpy(h, s.data(), n); h[n] = vp_bool("terminated") ? 0 : 'z'; auto w = plain::str2wstr(std::string_view(h, n)); vp_check(w.size() == (size_t)n, "every character becomes one"); if (n) vp_check(w[0] == (wchar_t)s[0] && w[n / 2] == (wchar_t)s[n / 2] && w[n - 1] == (wchar_t)s[n - 1], "the same one"); vp_check(plain::wstr2str(w) == s, "and the text comes back"); delete[] h; vp_reach("end");
}
