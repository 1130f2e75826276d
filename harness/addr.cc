// P23: addresses.
#include "vp.h"
#include "plain/net/address.h"
#include "plain/net/detail/socket.h"
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/un.h>
#include <cstring>
#include <memory>
#include <string>
#include <stdexcept>
using plain::net::Address;
using plain::bytes_t;
namespace {
inline unsigned pick(const char *n, uint64_t k) { return (unsigned)vp_pick(n, 0, k - 1); }
// The text lies in memory of exactly its size: what follows is not part of it.
struct Exact { std::unique_ptr<char[]> p; size_t n; explicit Exact(const std::string &s) : p(new char[s.size() + !s.size()]), n(s.size()) { for (size_t i = 0; i < n; i++) p[i] = s[i]; } std::string_view v() const { return {p.get(), n}; } };
std::string dec(unsigned v) { char b[8]; int i = 8; do { b[--i] = (char)('0' + v % 10); v /= 10; } while (v); return std::string(b + i, 8 - i); }
struct Parsed { bool ok{}, threw_other{}; bytes_t raw; int family{}; unsigned port{}; std::string host, text; };
Parsed parse(const std::string &s, bool listen) {
  Parsed r; Exact e(s);
  try { Address a(e.v(), listen); r.ok = true; r.raw = a.data(); r.family = a.family(); r.port = a.port(); r.host = a.host(); r.text = a.text(); vp_check(a.size() == r.raw.size(), "size() is the size of the data"); vp_check(static_cast<bool>(a), "an address is not empty"); }
  catch (const std::invalid_argument &) { }
  catch (...) { r.threw_other = true; }
  vp_check(!r.threw_other, "a text that is no address is refused as an invalid argument");
  return r;
}
bool digits(const std::string &s) { for (char c : s) if (c < '0' || c > '9') return false; return true; }
// What the text means, from its definition: [v6][:port], v4[:port], v6.
struct Want { bool ok{}; bool v6{}; unsigned char ip[16]{}; unsigned port{}; };
Want meaning(const std::string &s, bool listen) {
  Want w; std::string host = s, port; bool has_port = false; int colons = 0; for (char c : s) colons += c == ':';
  if (!s.empty() && s[0] == '[') { w.v6 = true; size_t e = s.find(']'); if (e == std::string::npos) return w; host = s.substr(1, e - 1); if (e + 1 < s.size()) { if (s[e + 1] != ':') return w; has_port = true; port = s.substr(e + 2); } }
  else if (colons > 1) w.v6 = true;
  else if (colons == 1) { size_t e = s.find(':'); has_port = true; host = s.substr(0, e); port = s.substr(e + 1); }
  if (has_port) { if (!digits(port) || port.size() > 9) return w; for (char c : port) w.port = w.port * 10 + (unsigned)(c - '0'); if (w.port > 65535) return w; }
  if (!w.v6) {
    in_addr_t a; if (host.empty() || host == "0.0.0.0" || host == "127.0.0.1") a = listen ? htonl(INADDR_ANY) : htonl(0x7f000001u); else { a = inet_addr(host.c_str()); if (a == INADDR_NONE) return w; }
    memcpy(w.ip, &a, 4);
  } else {
    if (host.empty() || host == "::" || host == "::1" || host == "0:0:0:0:0:0:0:0") { if (!listen) w.ip[15] = 1; }
    else if (inet_pton(AF_INET6, host.c_str(), w.ip) != 1) return w;
  }
  w.ok = true; return w;
}
void same(const Parsed &p, const Want &w) {
  if (!w.v6) {
    vp_check(p.family == AF_INET && p.raw.size() == sizeof(sockaddr_in), "the family is that of the text");
    sockaddr_in a; memcpy(&a, p.raw.data(), sizeof a);
    vp_check(!memcmp(&a.sin_addr, w.ip, 4), "the host is that of the text");
    vp_check(ntohs(a.sin_port) == w.port && p.port == w.port, "the port is that of the text");
    for (unsigned char z : a.sin_zero) vp_check(z == 0, "nothing else is in the address");
  } else {
    vp_check(p.family == AF_INET6 && p.raw.size() == sizeof(sockaddr_in6), "the family is that of the text");
    sockaddr_in6 a; memcpy(&a, p.raw.data(), sizeof a);
    vp_check(!memcmp(&a.sin6_addr, w.ip, 16), "the host is that of the text");
    vp_check(ntohs(a.sin6_port) == w.port && p.port == w.port, "the port is that of the text");
    vp_check(a.sin6_flowinfo == 0 && a.sin6_scope_id == 0, "nothing else is in the address");
  }
}
void again(const Parsed &p, const Want &w) { // the text of an address is that address
  static const unsigned char any[16] = {};
  bool wild = w.v6 ? !memcmp(w.ip, any, 16) : !memcmp(w.ip, any, 4);
  Parsed q = parse(p.text, wild);
  vp_check(q.ok, "the text of an address is an address"); vp_check(q.raw == p.raw, "the text of an address is that address");
  vp_check(q.text == p.text, "the text of an address is always the same");
}
}
// Every port, in every way it can be written.
extern "C" void vp_h_addr_port() {
  int form = (int)pick("form", 4); static const char *pre[] = {"10.1.2.3:", ":", "[2001:db8::7]:", "[::]:"};
  int n = (int)pick("digits", (uint32_t)vp_param("digits", 6)); bool listen = pick("listen", 2) == 0; std::string d;
  for (int i = 0; i < n; i++) { unsigned c = vp_u8("digit"); vp_assume(c < 10); d += (char)('0' + c); }
  unsigned v = 0; for (char c : d) v = v * 10 + (unsigned)(c - '0');
  Parsed p = parse(pre[form] + d, listen);
  if (p.ok) { vp_reach("accepted"); vp_check(v <= 65535, "a port that is too large is refused"); vp_check(p.port == v, "the port is that of the text"); uint16_t net; memcpy(&net, p.raw.data() + 2, 2); vp_check(ntohs(net) == v, "the port is stored in network byte order"); }
  else { vp_reach("refused"); vp_check(v > 65535, "a valid port is accepted"); }
}
// A port with one character that may be anything.
extern "C" void vp_h_addr_port_any() {
  int form = (int)pick("form", 2); std::string d = "807"; unsigned c = vp_u8("char"), at = pick("at", 4); vp_assume(c != 0 && c != ':' && c != ']');
  d.insert(at, 1, (char)c); Parsed p = parse((form ? "[2001:db8::7]:" : "10.1.2.3:") + d, false);
  if (p.ok) { vp_reach("accepted"); vp_check(c >= '0' && c <= '9', "a port that is no number is refused"); } else { vp_reach("refused"); vp_check(c < '0' || c > '9', "a valid port is accepted"); }
}
// Every value of every part of an IPv4 address, and back to text.
extern "C" void vp_h_addr_v4() {
  unsigned at = pick("part", 4), v = (unsigned)vp_pick("value", 1, 256); bool listen = pick("listen", 2) == 0; unsigned o[4] = {10, 0, 255, 7}; o[at] = v;
  std::string s; for (int i = 0; i < 4; i++) { if (i) s += '.'; s += dec(o[i]); }
  bool two = pick("ctor", 2) == 1; unsigned port = vp_range("port", 0, 65535);
  if (two) {
    Exact e(s); try { Address a(e.v(), (uint16_t)port, listen); vp_check(v <= 255, "a part that is too large is refused"); sockaddr_in b; memcpy(&b, a.data().data(), sizeof b); uint32_t h = o[0] << 24 | o[1] << 16 | o[2] << 8 | o[3]; vp_check(ntohl(b.sin_addr.s_addr) == h, "the host is that of the text"); vp_check(a.port() == port && ntohs(b.sin_port) == port, "the port is the one given"); vp_check(a.host() == s, "the host reads as given"); vp_reach("two"); }
    catch (const std::invalid_argument &) { vp_check(v > 255, "a valid host is accepted"); vp_reach("refused"); }
    return;
  }
  Parsed p = parse(s + ":4711", listen); vp_check(p.ok == (v <= 255), "exactly the valid hosts are accepted"); if (!p.ok) { vp_reach("refused"); return; }
  Want w; w.ok = true; for (int i = 0; i < 4; i++) w.ip[i] = (unsigned char)o[i]; w.port = 4711; same(p, w); vp_check(p.host == s, "the host reads as given"); vp_check(p.text == s + ":4711", "the text is host and port"); again(p, w); vp_reach("end");
}
// IPv6 addresses of any eight words out of a set, written in full, and back to text.
extern "C" void vp_h_addr_v6() {
  static const unsigned words[] = {0, 1, 0xffff, 0x0a0b}; unsigned nw = (unsigned)vp_param("words", 2); unsigned w8[8]; std::string s; static const char *hx = "0123456789abcdef";
  for (int i = 0; i < 8; i++) { w8[i] = words[pick("word", nw)]; if (i) s += ':'; for (int k = 12; k >= 0; k -= 4) s += hx[w8[i] >> k & 15]; }
  static const unsigned ports[] = {0, 1, 80, 65535}; unsigned port = ports[pick("port", 4)]; bool listen = false;
  Parsed p = parse("[" + s + "]:" + dec(port), listen); vp_check(p.ok, "a valid host is accepted"); Want w; w.ok = w.v6 = true; w.port = port; for (int i = 0; i < 8; i++) { w.ip[2 * i] = (unsigned char)(w8[i] >> 8); w.ip[2 * i + 1] = (unsigned char)w8[i]; }
  same(p, w);
  bool zero = true; for (unsigned x : w8) zero = zero && !x; if (!zero) { bool one = w8[7] == 1; for (int i = 0; i < 7; i++) one = one && !w8[i]; (void)one; again(p, w); vp_reach("again"); }
  vp_reach("end");
}
// Known texts and what they mean.
extern "C" void vp_h_addr_texts() {
  static const char *t[] = {"", ":80", "127.0.0.1", "127.0.0.1:80", "0.0.0.0:80", "192.168.1.20", "192.168.1.20:", "255.255.255.254:1", "::", "::1", "[::]:80", "[::1]:80", "[::1]", "[::]", "[]:80", "[]", "fe80::1", "[fe80::1]:65535", "2001:db8:1:2:3:4:5:6", "[0:0:0:0:0:0:0:0]:80", "::ffff:1.2.3.4", "[::ffff:1.2.3.4]:80", "[2409:8c20:1833:2000::afd:b739]:80",
    "x", "x:", "x:x", "[xx.xx.xx]:", "[::1", "::1]", "::1]:80", "[::1]80", "[::1]:x", "[::1]:80:90", "[::1]:65536", "1.2.3.4:65536", "1.2.3.4:80:90", "1.2.3.4:-1", "1.2.3.4:+1", "1.2.3.4: 1", "1.2.3.4:1 ", "[1.2.3.4]:80", "1.2.3.256", "12345::", "1:2:3:4:5:6:7:8:9", "[fe80::1", "[[::1]]:80", "1.2.3.4:99999999999999999999", "1.2.3.4:4294967376", "[::1]:80]:90", "[:::]:80", "localhost:80"};
  constexpr unsigned n = sizeof t / sizeof *t; std::string s = t[pick("text", n)]; bool listen = pick("listen", 2) == 0;
  Parsed p = parse(s, listen); Want w = meaning(s, listen); vp_check(p.ok == w.ok, "exactly the valid texts are accepted");
  if (p.ok) { same(p, w); if (listen || w.v6 || w.ip[0]) again(p, w); vp_reach("accepted"); } else vp_reach("refused");
}
// Any short text.
extern "C" void vp_h_addr_any() {
  static const char al[] = "1:.[]fx 6"; unsigned na = (unsigned)vp_param("alphabet", 8); unsigned n = pick("length", (uint32_t)vp_param("chars", 4) + 1); std::string s; for (unsigned i = 0; i < n; i++) s += al[pick("char", na)];
  static const char *pre[] = {"", "::1", "[::1", "1.1.1.1"}; s = pre[pick("prefix", 4)] + s; bool listen = pick("listen", 2) == 0;
  Parsed p = parse(s, listen); Want w = meaning(s, listen); vp_check(p.ok == w.ok, "exactly the valid texts are accepted");
  if (p.ok) { same(p, w); vp_reach("accepted"); } else vp_reach("refused");
}
// Socket addresses from the system, of any family and size.
extern "C" void vp_h_addr_raw() {
  unsigned n = pick("size", 132); bytes_t b; b.resize(n); for (unsigned i = 0; i < n && i < 32; i++) b[i] = (std::byte)vp_u8("byte"); for (unsigned i = 32; i < n; i++) b[i] = (std::byte)('a' + i % 20);
  uint16_t fam = 0; if (n >= 2) memcpy(&fam, b.data(), 2);
  bool un = fam == AF_UNIX, in = fam == AF_INET, in6 = fam == AF_INET6, none = fam == AF_UNSPEC;
  bool want = n >= 2 && ((none && n == sizeof(sockaddr_storage)) || (un && n >= offsetof(sockaddr_un, sun_path) && n <= sizeof(sockaddr_un)) || (in && n == sizeof(sockaddr_in)) || (in6 && n == sizeof(sockaddr_in6)));
  int how = (int)pick("how", 3); Address a; bool ok = true; Address before(":9", false);
  try { if (how == 0) a = Address(b); else if (how == 1) { bytes_t c = b; a = Address(std::move(c)); } else { a = before; a = b; } } catch (const std::invalid_argument &) { ok = false; }
  vp_check(ok == want, "exactly the sizes a family can have are accepted");
  vp_check(plain::net::is_valid_addr(b) == want, "the check says the same");
  if (!ok) { vp_reach("refused"); if (how == 2) vp_check(a.data() == before.data(), "a refused assignment changes nothing"); return; }
  vp_check(a.data() == b && a.size() == n, "the address is the one given"); vp_check(a.family() == fam, "the family is the one given");
  if (in || in6) { uint16_t p; memcpy(&p, b.data() + 2, 2); vp_check(a.port() == ntohs(p), "the port is the one given"); vp_reach("inet"); } else vp_check(a.port() == 0, "no port");
  if (un) { std::string h = a.host(); vp_check(h.size() <= 108, "the path ends with the address"); vp_reach("unix"); }
}
