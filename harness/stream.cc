// Byte stream and ring buffer: FIFO integrity.
#include "vp.h"
#include <thread>
#include <string>
#include "plain/net/stream/basic.h"
#include "plain/basic/ring.h"
using namespace plain;

template <typename R, bool GROWS, size_t CAP> static void ring_model(int k, size_t maxn) {
  R r; static uint8_t m[256]; size_t b = 0, e = 0;
  for (int i = 0; i < k; i++) {
    uint8_t op = (uint8_t)vp_pick("op", 0, 7);
    size_t have = e - b;
    if (op == 0) {
      uint8_t v = vp_u8("v"); bool ok = r.insert(v);
      vp_check(ok == (GROWS || have < CAP), "insert succeeds exactly when there is room"); if (ok) m[e++] = v;
    } else if (op == 1) {
      uint8_t v = 0; bool ok = r.remove(v); vp_check(ok == (have != 0), "remove succeeds exactly when non-empty");
      if (ok) { vp_check(v == m[b], "removed element is the oldest"); b++; }
    } else if (op == 2 || op == 3) {
      uint8_t d[8]; size_t n = vp_pick("n", 0, maxn); vp_symbolic(d, 8, "d");
      size_t g = r.write(d, n, op == 3);
      size_t room = CAP - have; size_t want = GROWS ? n : (n <= room ? n : (op == 3 ? 0 : room));
      vp_check(g == want, "write accepts what fits (nothing, if it must be whole)");
      for (size_t j = 0; j < g; j++) m[e++] = d[j];
    } else if (op == 4 || op == 5) {
      uint8_t d[8]; memset(d, 0xEE, sizeof d); size_t n = vp_pick("n", 0, maxn);
      size_t g = r.read(d, n, op == 5); size_t want = n < have ? n : have;
      vp_check(g == want, "read returns min(requested, stored)");
      for (size_t j = 0; j < want; j++) vp_check(d[j] == m[b + j], "read yields the oldest bytes in order");
      for (size_t j = want; j < 8; j++) vp_check(d[j] == 0xEE, "read touches nothing beyond what it returns");
      if (op == 4) b += want;
    } else if (op == 6) {
      size_t n = vp_pick("n", 0, maxn); size_t g = r.remove(n); size_t want = n < have ? n : have;
      vp_check(g == want, "drop returns min(requested, stored)"); b += want;
    } else {
      size_t x = vp_pick("x", 0, maxn); uint8_t *p = r.at(x);
      vp_check((p != nullptr) == (x < have), "at() is null exactly beyond the stored range");
      if (p && x < have) { vp_check(*p == m[b + x], "at() is the x-th stored element"); vp_check(r[x] == m[b + x], "operator[] is the x-th stored element"); }
      uint8_t *q = r.peek(1); vp_check((q != nullptr) == (have >= 1), "peek"); if (q && have) vp_check(*q == m[b], "peek is the oldest element");
    }
    vp_check(r.read_avail() == e - b, "stored count");
    vp_check(r.empty() == (e == b), "empty()");
    vp_check(r.write_avail() == r.size() - (e - b), "free count");
    vp_check(r.full() == (r.size() == e - b), "full()");
    if (!GROWS) vp_check(r.size() == CAP, "capacity is fixed");
  }
  uint8_t out[64]; size_t g = r.read(out, 64); vp_check(g == e - b, "drain count");
  for (size_t j = 0; j < g && j < e - b; j++) vp_check(out[j] == m[b + j], "drained bytes in order");
  vp_check(r.empty(), "empty after draining");
  r.clear(); vp_check(r.empty() && r.read_avail() == 0, "empty after clear");
  vp_reach("end");
}
VP_HARNESS(ring_fixed) { ring_model<FixedRing<uint8_t, 4>, false, 4>((int)vp_param("ops", 4), 5); }
VP_HARNESS(ring_dynamic) { ring_model<DynamicRing<uint8_t, 2>, true, 2>((int)vp_param("ops", 4), 5); }
VP_HARNESS(ring_dynamic4) { ring_model<DynamicRing<uint8_t, 4>, true, 4>((int)vp_param("ops", 4), 6); }

// any (head, tail) phase of the ring, then growth of any factor
VP_HARNESS(ring_phase) {
  DynamicRing<uint8_t, 4> r; uint8_t m[64]; size_t b = 0, e = 0; size_t maxk = (size_t)vp_param("phase", 9);
  size_t pre = vp_pick("phase", 0, maxk);
  for (size_t i = 0; i < pre; i++) { uint8_t v = vp_u8("p"); r.insert(v); uint8_t w = 0; r.remove(w); vp_check(v == w, "one in, one out"); }
  size_t n1 = vp_pick("fill", 0, 4); uint8_t d[40]; vp_symbolic(d, 40, "d");
  vp_check(r.write(d, n1) == n1, "fill"); for (size_t i = 0; i < n1; i++) m[e++] = d[i];
  size_t n2 = vp_pick("drop", 0, n1 ? n1 - 1 : 0); vp_check(r.remove(n2) == n2, "drop"); b += n2;
  size_t n3 = vp_pick("grow", 0, 29); vp_check(r.write(d + 4, n3, true) == n3, "grow"); for (size_t i = 0; i < n3; i++) m[e++] = d[4 + i];
  vp_check(r.read_avail() == e - b, "count after growth");
  uint8_t o[64]; vp_check(r.read(o, 64) == e - b, "drain"); for (size_t i = 0; i < e - b; i++) vp_check(o[i] == m[b + i], "content survives growth");
  vp_reach("end");
}

// one write or insertion history of any size, from every phase: growth by large factors
VP_HARNESS(ring_big) {
  static const size_t kN[] = {15, 16, 17, 31, 33, 63, 64, 65, 127, 129, 255, 257, 1000, 4097};
  net::stream::Basic s{nullptr}; DynamicRing<uint8_t, 2> r; bool st = vp_pick("stream", 0, 1);
  size_t pre = vp_pick("pre", 0, 2), skip = vp_pick("skip", 0, 3), n = kN[vp_pick("n", 0, 13)], two = vp_pick("two", 0, 1); static uint8_t src[5000], out[10100]; uint8_t x = vp_u8("x"), y = vp_u8("y");
  if (st) n *= 2; if (n > 4900) n = 4900; for (size_t i = 0; i < 5000; i++) src[i] = (uint8_t)(i * 7 + (i >> 8)); src[0] = x; src[n - 1] = y; src[n / 2] = (uint8_t)(x ^ y);
  if (st) { pre *= 60; skip *= 41; if (skip) { vp_check(s.write(std::string_view((char *)src, skip)) == skip, "prefix"); vp_check(s.remove(skip) == skip, "drop"); } }
  else for (size_t i = 0; i < skip; i++) { r.insert(src[i]); uint8_t v; vp_check(r.remove(v) && v == src[i], "one in, one out"); }
  auto put = [&](size_t k) { if (st) vp_check(s.write(const_byte_span_t((std::byte *)src, k)) == k, "a growing stream accepts any amount"); else vp_check(r.write(src, k, (n & 1) != 0) == k, "a growing ring accepts any amount"); };
  put(pre); put(n); if (two) put(n / 3); size_t tot = pre + n + (two ? n / 3 : 0); size_t have = st ? s.size() : r.read_avail(); vp_check(have == tot, "stored count");
  size_t g = st ? s.read((std::byte *)out, sizeof out) : r.read(out, sizeof out); vp_check(g == tot, "drain count");
  vp_check(!memcmp(out, src, pre) && !memcmp(out + pre, src, n) && (!two || !memcmp(out + pre + n, src, n / 3)), "content survives growth of any factor");
  vp_check(st ? s.empty() : r.empty(), "nothing left"); vp_reach("end");
}
static const size_t kSz[] = {1, 64, 100, 129, 128, 0, 5, 127, 200, 300, 520};
VP_HARNESS(stream_ops) {
  net::stream::Basic s{nullptr}; static uint8_t m[4096]; static uint8_t src[600], dst[600]; size_t b = 0, e = 0;
  int k = (int)vp_param("ops", 3); size_t ns = (size_t)vp_param("sizes", 11);
  for (int i = 0; i < k; i++) {
    uint8_t op = (uint8_t)vp_pick("op", 0, 3); size_t n = kSz[vp_pick("n", 0, ns - 1)]; size_t have = e - b, want = n < have ? n : have;
    if (op == 0) {
      vp_symbolic(src, n, "src"); size_t g = 0; uint8_t how = (uint8_t)(i % 3);
      if (how == 0) g = s.write(std::string_view((char *)src, n)); else if (how == 1) g = s.write(bytes_t((std::byte *)src, n)); else g = s.write(const_byte_span_t((std::byte *)src, n));
      vp_check(g == n, "write stores all bytes"); memcpy(m + e, src, n); e += n;
    } else if (op == 1) {
      uint8_t how = (uint8_t)(i % 3); size_t g;
      if (how == 0) g = s.read((std::byte *)dst, n); else if (how == 1) { std::string o(n, 'z'); g = s.read(o); memcpy(dst, o.data(), n); } else { bytes_t o(n, std::byte{1}); g = s.read(o); memcpy(dst, o.data(), n); }
      vp_check(g == want, "read count"); vp_check(memcmp(dst, m + b, want) == 0, "read data in order"); b += want;
    } else if (op == 2) { vp_check(s.peek((std::byte *)dst, n) == want, "peek count"); vp_check(memcmp(dst, m + b, want) == 0, "peek data"); }
    else { vp_check(s.remove(n) == want, "remove count"); b += want; }
    vp_check(s.size() == e - b, "size"); vp_check(s.empty() == (e == b), "empty");
  }
  static uint8_t out[4096]; vp_check(s.read((std::byte *)out, 4096) == e - b, "drain count"); vp_check(memcmp(out, m + b, e - b) == 0, "drained data in order");
  uint8_t z = 1; s.write(const_byte_span_t((std::byte *)&z, 1)); s.clear(); vp_check(s.empty() && s.size() == 0, "clear");
  vp_reach("end");
}
// typed operators: network order, any prefix already in the stream
template <typename T> static void typed(net::stream::Basic &s, const char *n) {
  T v; vp_symbolic(&v, sizeof v, n); s << v; uint8_t raw[sizeof(T)]; size_t avail = s.size();
  vp_check(avail == sizeof(T), "typed write size");
  vp_check(s.peek((std::byte *)raw, sizeof raw) == sizeof raw, "peek typed");
  uint8_t be[sizeof(T)]; memcpy(be, &v, sizeof v); for (size_t i = 0; i < sizeof(T); i++) vp_check(raw[i] == be[sizeof(T) - 1 - i], "typed value is stored most significant byte first");
  T w{}; s >> w; vp_check(memcmp(&v, &w, sizeof v) == 0, "typed value round trip"); vp_check(s.empty(), "typed read consumes it");
}
VP_HARNESS(stream_typed) {
  net::stream::Basic s{nullptr}; size_t pre = vp_pick("pre", 0, 1) * 125; std::string junk(pre, 'j'); s.write(junk); vp_check(s.remove(pre) == pre, "drop prefix");
  typed<uint8_t>(s, "u8"); typed<int16_t>(s, "i16"); typed<uint32_t>(s, "u32"); typed<int64_t>(s, "i64"); typed<uint64_t>(s, "u64"); typed<float>(s, "f"); typed<double>(s, "d");
  std::string_view sv("abc"); s << sv; std::string o(3, 0); s >> o; vp_check(o == "abc", "string operator");
  bytes_t bb(2, std::byte{7}); s << bb; bytes_t c(2, std::byte{0}); s >> c; vp_check(c == bb, "bytes operator");
  vp_reach("end");
}
// one producer thread, one consumer thread, single-element operations on a fixed ring
VP_HARNESS(ring_spsc) {
  FixedRing<uint32_t, 2> r; uint32_t v[3]; vp_symbolic(v, sizeof v, "v"); int n = (int)vp_param("n", 3);
  std::thread t([&] { for (int i = 0; i < n;) { if (r.insert(v[i])) i++; else std::this_thread::yield(); } });
  for (int i = 0; i < n;) { uint32_t x = 0; if (r.remove(x)) { vp_check(x == v[i], "consumer sees the producer's elements in order"); i++; } else std::this_thread::yield(); }
  t.join(); vp_check(r.empty(), "nothing left"); vp_reach("end");
}
