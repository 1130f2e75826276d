// Packet framing.
#include "vp.h"
#include <string>
#include "plain/net/stream/basic.h"
#include "plain/net/stream/codec.h"
#include "plain/net/packet/basic.h"
using namespace plain; using namespace plain::net;
using PP = std::shared_ptr<packet::Basic>;
static bool isPkt(error_or_t<PP> &r) { return std::holds_alternative<PP>(r); }
static bool hasErr(error_or_t<PP> &r, ErrorCode c) { auto *e = std::get_if<Error>(&r); return e && *e == c; }

static PP mk(uint16_t id, const uint8_t *d, size_t n) { auto p = std::make_shared<packet::Basic>(); p->set_id(id); p->set_writeable(true); p->write((const std::byte *)d, n); return p; }
// two packets, arbitrary ids and bodies, arbitrary split of the byte sequence into two arrivals
VP_HARNESS(codec_roundtrip) {
  stream::Basic s{nullptr}; packet::limit_t lim; size_t maxb = (size_t)vp_param("body", 3);
  size_t phase = vp_pick("phase", 0, 1) * 120; { std::string j(phase, 'j'); s.write(j); s.remove(phase ? phase - 1 : 0); }   // buffer position
  uint8_t d1[16], d2[16]; size_t n1 = vp_pick("n1", 0, maxb), n2 = vp_pick("n2", 0, maxb); vp_symbolic(d1, 16, "d1"); vp_symbolic(d2, 16, "d2");
  uint16_t i1 = vp_u16("id1"), i2 = vp_u16("id2"); vp_assume(i1 != 0 && i2 != 0);
  bytes_t w = stream::encode(mk(i1, d1, n1)); w += stream::encode(mk(i2, d2, n2));
  size_t h1 = w.size() - n2 - (w.size() - n1 - n2) / 2 - n1; size_t total = w.size(); size_t first = h1 + n1;
  size_t cut = vp_pick("cut", 0, total);
  if (phase) s.remove(1);
  vp_check(s.size() == 0, "empty start");
  s.write(bytes_t(w.data(), cut));
  int got = 0;
  for (int round = 0; round < 2; round++) {
    for (;;) {
      size_t before = s.size(); auto r = stream::decode(&s, lim);
      if (!isPkt(r)) { vp_check(hasErr(r, ErrorCode::NetPacketCantFill) || hasErr(r, ErrorCode::NetPacketNeedRecv), "an incomplete packet asks for more data"); vp_check(s.size() == before, "an incomplete packet consumes nothing"); break; }
      auto p = std::get<PP>(r); uint16_t id = got ? i2 : i1; size_t n = got ? n2 : n1; uint8_t *d = got ? d2 : d1;
      vp_check(got < 2, "no packet appears from nowhere"); vp_check(p->id() == id, "packet id preserved"); vp_check(p->data().size() == n, "body length preserved");
      vp_check(memcmp(p->data().data(), d, n) == 0, "body preserved");
      vp_check(p->is_call_request() == (id == packet::kRpcRequestId) && p->is_call_response() == (id == packet::kRpcResponseId) && p->is_call_notify() == (id == packet::kRpcNotifyId), "packet kind follows the id");
      uint8_t o[16]; vp_check(p->read((std::byte *)o, n) == n && memcmp(o, d, n) == 0, "decoded packet is readable"); vp_check(p->write((const std::byte *)o, 1) == 0, "decoded packet is read only");
      got++;
    }
    if (round == 0) { vp_check(got == (cut >= first ? (cut >= total ? 2 : 1) : 0), "every complete packet is delivered as soon as its last byte arrives"); s.write(bytes_t(w.data() + cut, total - cut)); }
  }
  vp_check(got == 2 && s.size() == 0, "both packets delivered, nothing left"); vp_reach("end");
}
// long bodies: every width of the length field, arriving in two parts
VP_HARNESS(codec_large) {
  static const uint32_t big[] = {127, 128, 255, 256, 257, 32768, 65535, 65536, 65537, 70003}; uint32_t n = big[vp_pick("n", 0, 9)]; stream::Basic s{nullptr}; packet::limit_t lim; lim.max_length = n;
  std::vector<uint8_t> d(n, 'q'); d[0] = vp_u8("d"); d[n / 2] = vp_u8("d"); d[n - 1] = vp_u8("d"); uint16_t id = vp_u16("id"); vp_assume(id != 0); bytes_t w = stream::encode(mk(id, d.data(), n)), w2 = stream::encode(mk(7, d.data(), 1));
  size_t cut = vp_pick("cut", 0, 3); size_t at = cut == 0 ? 3 : cut == 1 ? w.size() - n : cut == 2 ? w.size() - 1 : w.size(); s.write(bytes_t(w.data(), at)); if (at < w.size()) { auto r = stream::decode(&s, lim); vp_check(!isPkt(r) && !hasErr(r, ErrorCode::NetPacketInvalid), "an incomplete packet asks for more data"); vp_check(s.size() == at, "and consumes nothing"); s.write(bytes_t(w.data() + at, w.size() - at)); }
  s.write(w2); auto r = stream::decode(&s, lim); vp_check(isPkt(r), "a packet of the maximum length is delivered"); auto p = std::get<PP>(r); vp_check(p->id() == id && p->data().size() == n && memcmp(p->data().data(), d.data(), n) == 0, "unchanged");
  auto q = stream::decode(&s, lim); vp_check(isPkt(q) && std::get<PP>(q)->id() == 7 && s.size() == 0, "the next one follows");
  lim.max_length = n - 1; s.write(w); auto z = stream::decode(&s, lim); vp_check(hasErr(z, ErrorCode::NetPacketInvalid), "a packet beyond the maximum length is rejected"); vp_reach("end");
}
// arbitrary bytes from the network, arbitrary limits
VP_HARNESS(codec_arbitrary) {
  stream::Basic s{nullptr}; packet::limit_t lim; lim.max_id = vp_u32("max_id"); lim.max_length = vp_u32("max_length"); size_t n = vp_pick("n", 0, (uint64_t)vp_param("bytes", 10)); vp_assume(lim.max_length <= 400);
  uint8_t b[24]; vp_symbolic(b, 24, "b"); s.write(std::string_view((char *)b, n));
  auto r = stream::decode(&s, lim); uint32_t id = (uint32_t)b[0] << 8 | b[1], len = (uint32_t)b[2] << 24 | (uint32_t)b[3] << 16 | (uint32_t)b[4] << 8 | b[5];
  if (isPkt(r)) {
    auto p = std::get<PP>(r); vp_check(n >= 6, "packet only from a whole header"); vp_check(p->id() == id && id != 0 && id <= lim.max_id, "accepted id is within the limit"); vp_check(p->data().size() == len && len <= lim.max_length, "accepted length is within the limit");
    vp_check(s.size() == n - 6 - len, "exactly one packet consumed"); vp_check(memcmp(p->data().data(), b + 6, p->data().size()) == 0, "body is the bytes after the header"); vp_reach("accepted");
  } else {
    vp_check(s.size() == n, "rejected or incomplete input is not consumed");
    if (n < 6) vp_check(hasErr(r, ErrorCode::NetPacketCantFill), "short header asks for more");
    else if (id == 0 || id > lim.max_id || len > lim.max_length) { vp_check(hasErr(r, ErrorCode::NetPacketInvalid), "id or length beyond the limit is rejected"); vp_reach("rejected"); }
    else { vp_check(len + 6 > n && hasErr(r, ErrorCode::NetPacketNeedRecv), "short body asks for more"); vp_reach("short"); }
  }
  auto z = stream::decode(nullptr, lim); vp_check(!isPkt(z), "null input is an error");
  vp_reach("end");
}
// line protocol: any text without newline, any split
VP_HARNESS(line_roundtrip) {
  stream::Basic s{nullptr}; packet::limit_t lim; lim.max_length = 40; size_t maxb = (size_t)vp_param("body", 3);
  uint8_t d[2][32]; size_t n[2]; int kind[2]; bytes_t w; size_t end[2];
  for (int k = 0; k < 2; k++) {
    kind[k] = k == 0 ? (int)vp_pick("kind", 0, 3) : 0; size_t base = kind[k] == 1 ? 5 : kind[k] == 2 ? 9 : 1;   // smallest real rpc payloads
    if (!kind[k]) base = 0;
    n[k] = base + vp_pick("n", 0, maxb); vp_symbolic(d[k], 32, "d");
    for (size_t i = 0; i < n[k]; i++) vp_assume(d[k][i] != '\n'); if (n[k]) vp_assume(d[k][n[k] - 1] != '\r');
    auto p = mk(1, d[k], n[k]); if (kind[k] == 1) p->set_call_request(true); if (kind[k] == 2) p->set_call_response(true); if (kind[k] == 3) p->set_call_notify(true);
    w += stream::line_encode(p); end[k] = w.size();
  }
  size_t total = w.size(), cut = vp_pick("cut", 0, total); s.write(bytes_t(w.data(), cut)); int got = 0;
  for (int round = 0; round < 2; round++) {
    for (;;) {
      size_t before = s.size(); auto r = stream::line_decode(&s, lim);
      if (!isPkt(r)) { vp_check(hasErr(r, ErrorCode::NetPacketNeedRecv), "an incomplete line asks for more data"); vp_check(s.size() == before, "an incomplete line consumes nothing"); break; }
      vp_check(got < 2, "no line appears from nowhere"); auto p = std::get<PP>(r);
      vp_check(p->is_call_request() == (kind[got] == 1) && p->is_call_response() == (kind[got] == 2) && p->is_call_notify() == (kind[got] == 3), "line kind preserved");
      vp_check(p->data().size() == n[got], "line length preserved"); vp_check(memcmp(p->data().data(), d[got], n[got]) == 0, "line content preserved"); got++;
    }
    if (round == 0) { vp_check(got == (cut >= end[0] ? (cut >= end[1] ? 2 : 1) : 0), "every complete line is delivered as soon as its newline arrives"); s.write(bytes_t(w.data() + cut, total - cut)); }
  }
  vp_check(got == 2 && s.size() == 0, "both lines delivered"); vp_reach("end");
}
VP_HARNESS(line_arbitrary) {
  stream::Basic s{nullptr}; packet::limit_t lim; lim.max_length = (uint32_t)vp_pick("max", 1, (uint64_t)vp_param("max", 6)); size_t n = vp_pick("n", 0, (uint64_t)vp_param("bytes", 8)); uint8_t b[20]; vp_symbolic(b, 20, "b"); s.write(std::string_view((char *)b, n));
  size_t nl = 0; while (nl < n && b[nl] != '\n') nl++;
  auto r = stream::line_decode(&s, lim);
  if (isPkt(r)) {
    auto p = std::get<PP>(r); vp_check(nl < n, "a line ends with a newline"); vp_check(s.size() == n - nl - 1, "exactly one line consumed"); size_t len = nl; if (len && b[len - 1] == '\r') len--;
    vp_check(nl < lim.max_length, "a line longer than the limit is not delivered");
    if (!p->is_call_request() && !p->is_call_response() && !p->is_call_notify()) vp_check(p->data().size() == len && memcmp(p->data().data(), b, len) == 0, "line content");
    vp_reach("line");
  } else {
    vp_check(s.size() == n, "nothing consumed without a line");
    if (n >= lim.max_length && nl >= lim.max_length) { vp_check(hasErr(r, ErrorCode::RunTime), "an over-long line is an error, not an endless wait"); vp_reach("toolong"); }
    else { vp_check(nl == n && hasErr(r, ErrorCode::NetPacketNeedRecv), "no newline yet: ask for more"); }
  }
  vp_reach("end");
}
// ---- packet objects
VP_HARNESS(packet_values) {
  packet::Basic p; p.set_writeable(true); p.set_readable(true); vp_check(p.id() == 0, "a new packet has no id");
  uint8_t k[4]; uint64_t v[4]; std::string st[4]; int n = (int)vp_param("n", 3); uint8_t by[4][4];
  for (int i = 0; i < n; i++) {
    k[i] = (uint8_t)vp_pick("k", 0, 6); v[i] = vp_u64("v"); size_t len = 0;
    switch (k[i]) { case 0: p << (uint8_t)v[i]; break; case 1: p << (int16_t)v[i]; break; case 2: p << (uint32_t)v[i]; break; case 3: p << (int64_t)v[i]; break;
      case 4: { double d; memcpy(&d, &v[i], 8); p << d; break; }
      case 5: len = vp_pick("len", 0, 3); vp_symbolic(by[i], 4, "s"); st[i].assign((char *)by[i], len); p << std::string_view(st[i]); break;
      default: len = vp_pick("len", 0, 3); vp_symbolic(by[i], 4, "s"); st[i].assign((char *)by[i], len); p << bytes_t((std::byte *)by[i], len); break; }
  }
  for (int i = 0; i < n; i++) switch (k[i]) {
    case 0: { uint8_t x; p >> x; vp_check(x == (uint8_t)v[i], "u8 value"); break; }
    case 1: { int16_t x; p >> x; vp_check(x == (int16_t)v[i], "i16 value"); break; }
    case 2: { uint32_t x; p >> x; vp_check(x == (uint32_t)v[i], "u32 value"); break; }
    case 3: { int64_t x; p >> x; vp_check(x == (int64_t)v[i], "i64 value"); break; }
    case 4: { double x; p >> x; vp_check(memcmp(&x, &v[i], 8) == 0, "double value"); break; }
    case 5: { std::string x; p >> x; vp_check(x == st[i], "string value"); break; }
    default: { bytes_t x; p >> x; vp_check(x.size() == st[i].size() && memcmp(x.data(), st[i].data(), x.size()) == 0, "bytes value"); } }
  vp_check(p.offset() == p.data().size(), "all consumed"); uint8_t z = 9; vp_check(p.read((std::byte *)&z, 1) == 0 && z == 9, "reading past the end yields nothing"); vp_reach("end");
}
// texts and byte strings of any width of the length field, between two other values
VP_HARNESS(packet_large) {
  static const uint32_t big[] = {15, 16, 127, 128, 255, 256, 257, 32767, 65535, 65536, 70001}; uint32_t n = big[vp_pick("n", 0, 10)]; std::string t(n, 'w'); t[0] = (char)vp_u8("c"); t[n - 1] = (char)vp_u8("c"); int k = (int)vp_pick("k", 0, 2); uint16_t a = vp_u16("a"), b = vp_u16("b"), x = 0, y = 0;
  packet::Basic p; p.set_writeable(true); p.set_readable(true); p << a; if (k == 0) p << std::string_view(t); else if (k == 1) p << bytes_t((const std::byte *)t.data(), n); else p.write((const std::byte *)t.data(), n); p << b;
  p >> x; vp_check(x == a, "value before"); if (k == 0) { std::string o; p >> o; vp_check(o == t, "text"); } else if (k == 1) { bytes_t o; p >> o; vp_check(o.size() == n && memcmp(o.data(), t.data(), n) == 0, "bytes"); } else { std::string o(n, ' '); vp_check(p.read((std::byte *)o.data(), n) == n && o == t, "raw"); }
  p >> y; vp_check(y == b && p.offset() == p.data().size(), "value after"); vp_reach("end");
}
VP_HARNESS(packet_flags) {
  packet::Basic p; bool f[5] = {false, false, false, false, false}; int n = (int)vp_param("n", 4); size_t len = 0, off = 0; uint8_t model[16];
  for (int i = 0; i < n; i++) {
    uint8_t w = (uint8_t)vp_pick("flag", 0, 4); bool on = vp_concretize(vp_bool("on")); f[w] = on;
    switch (w) { case 0: p.set_readable(on); break; case 1: p.set_writeable(on); break; case 2: p.set_call_request(on); break; case 3: p.set_call_response(on); break; default: p.set_call_notify(on); }
    uint8_t b = vp_u8("b"); size_t g = p.write((std::byte *)&b, 1); vp_check(g == (f[1] ? 1u : 0u), "write works exactly while writeable"); if (g) model[len++] = b;
    uint8_t o = 0; g = p.read((std::byte *)&o, 1); vp_check(g == (f[0] && off < len ? 1u : 0u), "read works exactly while readable"); if (g) { vp_check(o == model[off], "read order"); off++; }
    vp_check(p.is_call_request() == f[2] && p.is_call_response() == f[3] && p.is_call_notify() == f[4], "flags are independent");
  }
  vp_check(p.data().size() == len && p.offset() == off, "length and offset"); size_t k = vp_pick("drop", 0, 5); size_t left = len - off; vp_check(p.remove(k) == (k < left ? k : left), "remove count"); vp_check(p.offset() <= p.data().size(), "offset stays inside"); vp_reach("end");
}
// reads of attacker-controlled contents never leave the packet
VP_HARNESS(packet_hostile) {
  packet::Basic p; p.set_writeable(true); p.set_readable(true); uint8_t b[16]; size_t n = vp_pick("n", 0, 8); vp_symbolic(b, 16, "b"); p.write((std::byte *)b, n); size_t was = 0;
  for (int i = 0; i < 3; i++) {
    uint8_t k = (uint8_t)vp_pick("k", 0, 3); size_t left = n - p.offset(); const uint8_t *c = b + p.offset();
    if (k == 0) { std::string s; size_t g = p.read(s); uint32_t L = (uint32_t)c[0] << 24 | (uint32_t)c[1] << 16 | (uint32_t)c[2] << 8 | c[3];
      if (left >= 4 && L <= left - 4) { vp_check(g == L && s.size() == L && memcmp(s.data(), c + 4, s.size()) == 0, "string of the stated length"); } else vp_check(g == 0 && s.empty(), "a string longer than the packet reads as nothing"); }
    else if (k == 1) { bytes_t s; size_t g = p.read(s); uint32_t L = (uint32_t)c[0] << 24 | (uint32_t)c[1] << 16 | (uint32_t)c[2] << 8 | c[3];
      if (left >= 4 && L <= left - 4) vp_check(g == L && s.size() == L && memcmp(s.data(), c + 4, s.size()) == 0, "bytes of the stated length"); else vp_check(g == 0 && s.empty(), "bytes longer than the packet read as nothing"); }
    else if (k == 2) { uint64_t v; p >> v; if (left < 8) vp_check(v == 0, "a value beyond the end reads as zero"); }
    else { uint8_t o[4] = {1, 1, 1, 1}; size_t m = vp_pick("m", 0, 4); size_t g = p.read((std::byte *)o, m); vp_check(g == (m <= left ? m : 0), "raw read is all or nothing"); }
    vp_check(p.offset() >= was && p.offset() <= n, "offset stays inside the packet"); was = p.offset();
  }
  vp_reach("end");
}
