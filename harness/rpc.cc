// RPC value encoding and dispatch.
#include "vp.h"
#include <string>
#include <array>
#include <bit>
#include <cmath>
#include "plain/net/rpc/packer.h"
#include "plain/net/rpc/unpacker.h"
#include "plain/net/rpc/utility.h"
#include "plain/net/rpc/dispatcher.h"
#include "plain/net/packet/basic.h"
using namespace plain; using namespace plain::net;
using rpc::Packer; using rpc::Unpacker;
static Unpacker rd(const Packer &p) { return Unpacker(p.vector().data(), p.vector().size()); }
// value v, then a sentinel, read into a variable that already holds something
template <class T> static void one(const char *nm) {
  T v, out; vp_symbolic(&v, sizeof v, "v"); vp_symbolic(&out, sizeof out, "old"); uint16_t s = vp_u16("s"), so = 0;
  Packer p; p.process(v, s); auto u = rd(p); u.process(out, so);
  vp_check(out == v, nm); vp_check(so == s, "the next value starts where this one ended"); vp_check(!u.error_.valid(), "no error on a complete message");
  uint8_t z = 0; u.process(z); vp_check(u.error_ == ErrorCode::OutOfRange, "nothing is left over");
  auto w = rd(p); vp_check(w.as<T>() == v, "value read by type");
  vp_reach(nm);
}
VP_HARNESS(rpc_ints) {
  switch (vp_pick("t", 0, 7)) {
    case 0: one<int8_t>("int8"); break; case 1: one<int16_t>("int16"); break; case 2: one<int32_t>("int32"); break; case 3: one<int64_t>("int64"); break;
    case 4: one<uint8_t>("uint8"); break; case 5: one<uint16_t>("uint16"); break; case 6: one<uint32_t>("uint32"); break; default: one<uint64_t>("uint64"); }
  vp_reach("end");
}
template <class T> static bool feq(T a, T b) { return a == b || (a != a && b != b); }
VP_HARNESS(rpc_float) {
  float v, o = 7; vp_symbolic(&v, 4, "v"); Packer p; p.process(v); auto u = rd(p); u.process(o); vp_check(feq(v, o), "float"); vp_check(!u.error_.valid(), "no error"); vp_reach("end");
}
VP_HARNESS(rpc_double) {
  double v, o = 7; vp_symbolic(&v, 8, "v"); Packer p; p.process(v); auto u = rd(p); u.process(o); vp_check(feq(v, o), "double"); vp_check(!u.error_.valid(), "no error"); vp_reach("end");
}
struct Inner { std::string s; int32_t n{0}; template <class P> void pack(P &p) { p(s, n); } bool operator==(const Inner &) const = default; };
struct Outer { uint16_t a{0}; Inner i; std::vector<uint32_t> v; template <class P> void pack(P &p) { p(a, i, v); } };
static std::string symStr(const char *n, size_t len) { std::string s(len, 'x'); uint8_t b[4]; vp_symbolic(b, 4, n); for (size_t i = 0; i < len && i < 2; i++) s[i] = (char)b[i]; if (len > 2) s[len - 1] = (char)b[2]; return s; }
static const uint16_t kSizes[] = {0, 1, 2, 3, 15, 16, 31, 32, 33, 254, 255, 256, 257};
template <class C> static void cont(const C &c, const char *nm) { C o; Packer p; uint8_t s = vp_u8("s"), so = 0; p.process(c, s); auto u = rd(p); u.process(o, so); vp_check(o == c, nm); vp_check(so == s && !u.error_.valid(), "message fully and exactly consumed"); vp_reach(nm); }
VP_HARNESS(rpc_containers) {
  size_t n = kSizes[vp_pick("n", 0, (uint64_t)vp_param("sizes", 12))];
  switch (vp_pick("t", 0, 8)) {
    case 0: cont(symStr("c", n), "string"); break;
    case 1: { std::vector<uint8_t> v(n, 5); if (n) v[n - 1] = vp_u8("c"); cont(v, "bytes"); break; }
    case 2: { std::vector<uint32_t> v(n, 9); if (n) v[0] = vp_u32("c"); if (n > 1) v[n - 1] = vp_u32("c"); cont(v, "vector"); break; }
    case 3: { std::list<std::string> l; size_t m = n % 18; for (size_t i = 0; i < m; i++) l.push_back(i == 0 ? symStr("c", 2) : "ab"); cont(l, "list"); break; }
    case 4: { std::array<int32_t, 3> a{}; for (auto &x : a) x = vp_i32("c"); cont(a, "array"); break; }
    case 5: { std::map<uint16_t, std::string> m; for (size_t i = 0; i < n; i++) m[(uint16_t)(i * 3)] = "v"; if (n) m[0] = symStr("c", 2); cont(m, "map"); break; }
    case 6: { std::tuple<uint8_t, int64_t, std::string, bool> t{vp_u8("c"), vp_i64("c"), symStr("c", n), vp_concretize(vp_bool("c"))}; cont(t, "tuple"); break; }
    case 7: { std::vector<int16_t> v(n % 40, (int16_t)-3); if (!v.empty()) v[0] = vp_i16("c"); cont(v, "int vector"); break; }
    default: { std::unordered_map<uint8_t, uint32_t> m; for (size_t i = 0; i < n % 20; i++) m[(uint8_t)(i * 3)] = (uint32_t)i; cont(m, "hash map"); break; } }
  vp_reach("end");
}
// sizes at the boundaries of the wide length fields
VP_HARNESS(rpc_large) {
  static const uint32_t big[] = {32767, 32768, 65534, 65535, 65536, 65537, 70001}; int t = (int)vp_pick("t", 0, 3); uint32_t n = t < 2 ? big[vp_pick("n", 0, 6)] : t == 2 ? big[vp_pick("n", 2, 4)] : vp_param("maps", 0) ? big[vp_pick("n", 2, 4)] : 65536;
  switch (t) {
    case 0: cont(symStr("c", n), "string"); break;
    case 1: { std::vector<uint8_t> v(n, 5); v[0] = vp_u8("c"); v[n - 1] = vp_u8("c"); cont(v, "bytes"); break; }
    case 2: { std::vector<uint16_t> v(n, 9); v[0] = vp_u16("c"); v[n - 1] = vp_u16("c"); cont(v, "vector"); break; }
    default: { std::unordered_map<uint32_t, bool> m; m.reserve(n); for (uint32_t i = 0; i < n; i++) m.emplace(i * 3, false); m[0] = vp_concretize(vp_bool("c")); cont(m, "map"); } }
  vp_reach("end");
}
VP_HARNESS(rpc_objects) {
  Outer o; o.a = vp_u16("a"); o.i.s = symStr("s", vp_pick("l", 0, 3)); o.i.n = vp_i32("n"); o.v.resize(vp_pick("k", 0, 2)); for (auto &x : o.v) x = vp_u32("e");
  std::chrono::steady_clock::time_point tp{std::chrono::nanoseconds(vp_i64("tp"))}, tq;
  Packer p; p.process(o, tp, nullptr, true, false, o.i); auto u = rd(p); Outer q; std::nullptr_t np; bool t = false, f = true; Inner in; u.process(q, tq, np, t, f, in);
  vp_check(q.a == o.a && q.i == o.i && q.v == o.v, "nested object"); vp_check(tq == tp, "time point"); vp_check(t && !f, "booleans"); vp_check(in == o.i, "object after others"); vp_check(!u.error_.valid(), "no error");
  Error e; auto data = rpc::pack(o); auto q2 = rpc::unpack<Outer>(data, e); vp_check(q2.a == o.a && q2.i == o.i && q2.v == o.v && !e.valid(), "object helper functions"); vp_reach("end");
}
// an incomplete message is always reported
template <class T> static void trunc1(const T &v, const char *nm) {
  Packer p; p.process(v); size_t n = p.vector().size(), cut = vp_range("cut", 0, 300); vp_assume(cut < n); cut = vp_concretize(cut);
  std::vector<uint8_t> half(p.vector().begin(), p.vector().begin() + cut); Unpacker u(half.data(), half.size()); T o{}; u.process(o); vp_check(u.error_ == ErrorCode::OutOfRange, nm); vp_reach(nm);
}
VP_HARNESS(rpc_cut) {
  switch (vp_pick("t", 0, 9)) {
    case 0: trunc1<uint64_t>(vp_u64("v"), "cut uint64 is an error"); break; case 1: trunc1<int32_t>(vp_i32("v"), "cut int32 is an error"); break; case 2: trunc1<int64_t>(vp_i64("v"), "cut int64 is an error"); break; case 3: trunc1<uint16_t>(vp_u16("v"), "cut uint16 is an error"); break;
    case 4: trunc1<double>(1.5, "cut double is an error"); break; case 5: trunc1<std::string>(symStr("c", kSizes[vp_pick("n", 0, 11)]), "cut string is an error"); break;
    case 6: trunc1(std::vector<uint32_t>(vp_pick("n", 0, 17), vp_u32("v")), "cut vector is an error"); break; case 7: trunc1(std::map<uint8_t, std::string>{{vp_u8("v"), "q"}, {7, "r"}}, "cut map is an error"); break;
    case 8: { Outer o{vp_u16("v"), {"z", 3}, {1}}; Packer p; p.process(o); size_t n = p.vector().size(), cut = vp_range("cut", 0, 300); vp_assume(cut < n); cut = vp_concretize(cut); std::vector<uint8_t> half(p.vector().begin(), p.vector().begin() + cut); Unpacker u(half.data(), half.size()); Outer q; u.process(q); vp_check(u.error_.valid(), "cut object is an error"); break; }
    default: trunc1(std::vector<uint8_t>(vp_pick("n", 0, 4), vp_u8("v")), "cut bytes is an error"); }
  vp_reach("end");
}
// an object nested in a message reports exactly the errors its own contents report
VP_HARNESS(rpc_nested) {
  size_t n = vp_pick("n", 0, 4); std::vector<uint8_t> body(n); vp_symbolic(body.data(), n, "b");
  Unpacker d(body.data(), n); std::string s; int32_t k = 0; d.process(s, k);
  Packer p; p.process(body); auto u = rd(p); Inner i; u.process(i);
  vp_check(u.error_.valid() == d.error_.valid(), "an error inside a nested object is reported by the message");
  if (!d.error_.valid()) { vp_check(i.s == s && i.n == k, "nested contents"); vp_reach("good"); } else vp_reach("bad");
  vp_reach("end");
}
// arbitrary bytes, any requested type: no crash, no runaway allocation, errors are sticky
VP_HARNESS(rpc_hostile) {
  size_t n = vp_pick("n", 0, (uint64_t)vp_param("bytes", 7)); std::vector<uint8_t> b(n); vp_symbolic(b.data(), n, "b"); Unpacker u(b.data(), n);
  for (int k = 0; k < 2; k++) {
    bool bad = u.error_.valid();
    switch (vp_pick("t", 0, (uint64_t)vp_param("types", 13))) {
      case 0: { int8_t v; u.process(v); break; } case 1: { int32_t v; u.process(v); break; } case 2: { int64_t v; u.process(v); break; } case 3: { uint16_t v; u.process(v); break; } case 4: { uint64_t v; u.process(v); break; }
      case 5: { double v; u.process(v); break; } case 6: { bool v; u.process(v); break; }
      case 7: { std::string v; u.process(v); vp_check(v.size() <= n, "string no longer than the message"); break; }
      case 8: { std::vector<uint8_t> v; u.process(v); vp_check(v.size() <= n, "bytes no longer than the message"); break; }
      case 9: { std::vector<uint8_t> q; std::list<uint16_t> v; u.process(v); vp_check(v.size() <= n + 1, "list no longer than the message"); break; }
      case 10: { std::array<uint16_t, 2> v{}; u.process(v); break; }
      case 11: { std::map<uint8_t, uint8_t> v; u.process(v); vp_check(v.size() <= n + 1, "map no longer than the message"); break; }
      case 12: { std::tuple<uint8_t, std::string> v; u.process(v); break; }
      default: { Inner v; u.process(v); break; } }
    if (bad) vp_check(u.error_.valid(), "an error is not forgotten");
  }
  vp_reach("end");
}
// ---- dispatch
VP_HARNESS(rpc_dispatch) {
  rpc::Dispatcher d; int calls[4] = {0, 0, 0, 0}; uint32_t ga = 0; std::string gs; int64_t gb = 0;
  d.bind("add", [&](uint32_t a, int64_t b) { calls[0]++; ga = a; gb = b; return (int64_t)a + b; });
  d.bind("say", [&](std::string s) { calls[1]++; gs = s; });
  d.bind("ping", [&]() { calls[2]++; });
  d.bind("get", [&]() { calls[3]++; return (uint32_t)77; });
  bool dup = false; try { d.bind("get", [&]() { return 1; }); } catch (const std::logic_error &) { dup = true; } vp_check(dup, "a name is bound once");
  bool unb = vp_concretize(vp_bool("unbind")); if (unb) d.unbind("ping");
  auto pk = std::make_shared<packet::Basic>(); pk->set_writeable(true); uint32_t a = vp_u32("a"); int64_t b = vp_i64("b"); std::string st = symStr("s", vp_pick("l", 0, 3)); Packer args;
  int w = (int)vp_pick("which", 0, 5); const char *nm[] = {"add", "say", "ping", "get", "nope", ""};
  *pk << std::string_view(nm[w]); if (w == 0) args.process(std::make_tuple(a, b)); if (w == 1) args.process(std::make_tuple(st)); if (!args.vector().empty()) *pk << args.vector();
  pk->set_writeable(false); pk->set_readable(true);
  auto r = d.dispatch(pk); auto *e = get_error(r); int total = calls[0] + calls[1] + calls[2] + calls[3];
  if (w == 5) { vp_check(e && *e == ErrorCode::NetPacketInvalid && total == 0, "a call without a name is invalid"); vp_reach("noname"); }
  else if (w == 4 || (w == 2 && unb)) { vp_check(e && *e == ErrorCode::NetRpcFunctionNotFound && total == 0, "an unbound name is reported and runs nothing"); vp_reach("unbound"); }
  else {
    vp_check(!e && total == 1 && calls[w] == 1, "exactly the named function runs, once"); auto res = std::get<std::shared_ptr<Packer>>(r);
    if (w == 0) { vp_check(ga == a && gb == b, "the arguments arrive unchanged"); int64_t o = 0; vp_check(!!res, "a result exists"); auto u = rd(*res); u.process(o); vp_check(o == (int64_t)a + b && !u.error_.valid(), "the result is the function's result"); }
    if (w == 1) vp_check(gs == st, "the string argument arrives unchanged");
    if (w == 3) { auto u = rd(*res); vp_check(u.as<uint32_t>() == 77, "the result is the function's result"); }
    vp_reach("called");
  }
  vp_reach("end");
}
// a server with a single function, or none, answers to no other name
VP_HARNESS(rpc_dispatch_one) {
  rpc::Dispatcher d; int calls = 0; int n = (int)vp_pick("bound", 0, 2); auto bind = [&] { d.bind("f", [&](uint16_t) { calls++; return 1; }); }; if (n) bind(); if (n == 2) { d.unbind("f"); if (vp_pick("again", 0, 1)) { bind(); n = 1; } }
  std::string name = symStr("name", vp_pick("l", 0, 2)); auto pk = std::make_shared<packet::Basic>(); pk->set_writeable(true); Packer args; args.process(std::make_tuple((uint16_t)vp_u16("a"))); *pk << std::string_view(name); *pk << args.vector(); pk->set_writeable(false); pk->set_readable(true);
  auto r = d.dispatch(pk); auto *e = get_error(r); bool is = name == "f" && n == 1; vp_check(calls == (is ? 1 : 0) && (e != nullptr) == !is, "only the bound name is called"); vp_check(d.names().size() == (n == 1 ? 1u : 0u), "names"); vp_reach(is ? "called" : "refused"); vp_reach("end");
}
// arbitrary request bytes
VP_HARNESS(rpc_dispatch_hostile) {
  rpc::Dispatcher d; int calls = 0; d.bind("f", [&](uint16_t, std::string s) { calls++; return s.size(); }); d.bind("g", [&](std::vector<uint32_t> v) { calls++; });
  auto pk = std::make_shared<packet::Basic>(); pk->set_writeable(true); uint8_t b[16]; vp_symbolic(b, 16, "b"); size_t n = vp_pick("n", 0, (uint64_t)vp_param("bytes", 9)); pk->write((const std::byte *)b, n); pk->set_writeable(false); pk->set_readable(true);
  auto r = d.dispatch(pk); auto *e = get_error(r); bool named = n >= 5 && b[0] == 0 && b[1] == 0 && b[2] == 0 && b[3] == 1 && (b[4] == 'f' || b[4] == 'g');
  vp_check(calls == (named ? 1 : 0) && (e != nullptr) == !named, "only a bound name is called"); vp_reach(named ? "called" : "refused"); vp_reach("end");
}
