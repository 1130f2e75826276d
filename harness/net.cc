// The epoll backed server and client: framing, dispatch, replies, remote calls and connection life cycle on a simulated socket kernel.
#include "simos.h"
#include <string>
#include <memory>
#include <vector>
#include <thread>
#include <optional>
#include <atomic>
#include "plain/net/listener.h"
#include "plain/net/connector.h"
#include "plain/net/connection/basic.h"
#include "plain/net/packet/basic.h"
#include "plain/net/socket/basic.h"
#include "plain/net/stream/codec.h"
#include "plain/net/stream/basic.h"
#include "plain/net/rpc/dispatcher.h"
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/concurrency/executor/thread_pool.h"
using namespace plain; using namespace plain::net;
static setting_t conf(uint32_t max) { setting_t s; s.mode = vp_param("select", 0) ? Mode::Select : Mode::Epoll; s.default_count = 0; s.max_count = max; s.name = "t"; s.address = "127.0.0.1:9"; return s; }
static std::shared_ptr<packet::Basic> pkt(uint16_t id, const void *b, size_t n) { auto p = std::make_shared<packet::Basic>(); p->set_id(id); p->set_writeable(true); p->write((const std::byte *)b, n); p->set_writeable(false); return p; }
static bytes_t frame(uint16_t id, const void *b, size_t n) { return stream::encode(pkt(id, b, n)); }
static std::shared_ptr<concurrency::executor::Inline> inl() { return std::make_shared<concurrency::executor::Inline>(); }

static std::shared_ptr<concurrency::executor::Basic> wrk() { if (vp_param("exec", 1) == 2) return std::make_shared<concurrency::executor::ThreadPool>("p", 2, std::chrono::milliseconds(1000000)); return std::make_shared<concurrency::executor::WorkerThread>(); }

// packets of one connection arrive in any segmentation; each is dispatched once, in order, and its reply is flushed through partial sends
VP_HARNESS(net_segments) {
  Listener l(conf(2), inl()); size_t maxb = (size_t)vp_param("body", 2); int np = (int)vp_param("packets", 2);
  uint8_t body[4][8]; size_t len[4]; uint16_t id[4]; bytes_t all; vp_symbolic(body, sizeof body, "body");
  for (int i = 0; i < np; i++) { len[i] = vp_pick("len", 0, maxb); id[i] = vp_u16("id"); vp_assume(id[i] >= 5 && id[i] < 1000); all += frame(id[i], body[i], len[i]); }
  int got = 0, st = 0, f = -1; size_t sent = 0; uint64_t segs = 0, full = vp_pick("full", 0, 1);
  l.set_dispatcher([&](connection::Basic *c, std::shared_ptr<packet::Basic> p) {
    vp_check(got < np && p->id() == id[got] && p->data().size() == len[got] && !memcmp(p->data().data(), body[got], len[got]), "packets are dispatched once each, unchanged and in order"); got++; vp_check(c->send(p), "reply accepted"); return true; });
  if (!full) { send_policy = [&](int, size_t n) -> ssize_t { return n > 3 ? 3 : (ssize_t)n; }; recv_policy = [&](int, size_t n) -> ssize_t { return n > 4 ? 4 : (ssize_t)n; }; }
  script = [&](epoll_event *e) -> int {
    if (st++ == 0) { f = incoming(); return ev_listen(e); }
    if (sent == all.size()) return 0;
    size_t left = all.size() - sent, n = segs++ < (uint64_t)vp_param("cuts", 1) ? vp_pick("seg", 1, left) : left; feed(f, all.data() + sent, n); sent += n; return ev_read(e, f); };
  vp_check(l.start(), "start"); wait_finished();
  vp_check(got == np, "every packet is dispatched"); vp_check(fd[f].txlen == all.size() && !memcmp(fd[f].tx, all.data(), all.size()), "every reply is sent, complete and in order");
  vp_check(fd[f].open && l.get_conn(1) && l.get_conn(1)->valid(), "the connection stays open"); vp_check(l.recv_size() == all.size() && l.send_size() == all.size(), "traffic counters");
  l.stop(); vp_reach("end");
}
// many small packets in one segment, and one packet in many small segments
VP_HARNESS(net_burst) {
  Listener l(conf(1), inl()); int mode = (int)vp_pick("mode", 0, 2); int np = mode == 0 ? 27 : mode == 1 ? 1 : 65; uint8_t b = vp_u8("b"); bytes_t all; for (int i = 0; i < np; i++) { uint8_t x[2] = {(uint8_t)i, b}; all += frame(9, x, mode == 1 ? 2 : 1 + (i & 1)); }
  int got = 0, st = 0, f = -1; size_t sent = 0;
  l.set_dispatcher([&](connection::Basic *c, std::shared_ptr<packet::Basic> p) { vp_check((uint8_t)p->data()[0] == (uint8_t)got, "in order"); got++; return true; });
  script = [&](epoll_event *e) -> int {
    if (st++ == 0) { f = incoming(); return ev_listen(e); }
    if (sent == all.size()) return 0;
    size_t left = all.size() - sent, n = mode == 0 ? left : mode == 1 ? 1 : (left < 8 ? left : sent == 0 ? 3 : 7 + (st & 1)); if (n > left) n = left; feed(f, all.data() + sent, n); sent += n; return ev_read(e, f); };
  vp_check(l.start(), "start"); wait_finished(); vp_check(got == np, "every packet of a burst is dispatched"); vp_check(fd[f].open, "the connection stays open");
  l.stop(); vp_reach("end");
}
// invalid input ends that connection, with one notification, and no other
VP_HARNESS(net_bad) {
  Listener l(conf(2), inl()); int got[2] = {0, 0}, disc = 0, conns = 0, st = 0, f[2]; connection::id_t dead = 0; uint8_t how = (uint8_t)vp_pick("how", 0, 4); uint16_t badid = vp_u16("badid"); uint32_t badlen = vp_u32("badlen");
  uint8_t head[6] = {(uint8_t)(badid >> 8), (uint8_t)badid, (uint8_t)(badlen >> 24), (uint8_t)(badlen >> 16), (uint8_t)(badlen >> 8), (uint8_t)badlen};
  packet::limit_t lim; vp_assume(badid == 0 || badid > lim.max_id || badlen > lim.max_length); auto ok = frame(9, "x", 1);
  l.set_connect_callback([&](connection::Basic *) { conns++; }); l.set_disconnect_callback([&](connection::Basic *c) { disc++; dead = c->id(); });
  l.set_dispatcher([&](connection::Basic *c, std::shared_ptr<packet::Basic> p) { vp_check(c->id() == 1 || c->id() == 2, "id"); got[c->id() - 1]++; if (how == 4 && c->id() == 1) fd[f[0]].sockerr = 104; return !((how == 2 || how == 4) && c->id() == 1); });
  script = [&](epoll_event *e) -> int {
    switch (st++) {
      case 0: case 1: f[st - 1] = incoming(); return ev_listen(e);
      case 2: if (how == 0) feed(f[0], head, 6); else if (how == 1) fd[f[0]].eof = true; else if (how == 2 || how == 4) feed(f[0], ok.data(), ok.size()); else { fd[f[0]].sockerr = 104; fd[f[0]].reset = true; } return ev_read(e, f[0]);
      case 3: feed(f[1], ok.data(), ok.size()); return ev_read(e, f[1]);
      case 4: return ev_read(e, f[0]) ? 1 : ev_read(e, f[1]);   // a stale notification for the closed one
    } return 0; };
  vp_check(l.start(), "start"); wait_finished();
  vp_check(conns == 2, "two connections announced"); vp_check(disc == 1 && dead == 1, "exactly one disconnect, for the offending connection"); vp_check(!fd[f[0]].open && fd[f[0]].closes == 1, "its socket is closed once"); vp_check(got[0] == (how == 2 || how == 4 ? 1 : 0), "nothing invalid is dispatched");
  vp_check(fd[f[1]].open && got[1] == 1, "the other connection works on"); vp_check(!l.get_conn(1) || !l.get_conn(1)->valid(), "the id no longer names an open connection");
  l.stop(); vp_reach("end");
}
// any history of arrivals, departures and data, beyond the connection limit
VP_HARNESS(net_table) {
  uint32_t maxc = (uint32_t)vp_param("max", 2); int k = (int)vp_param("ops", 4); auto cf = conf(maxc); cf.default_count = (uint32_t)vp_pick("pre", 0, 1); Listener l(cf, inl());
  int conns = 0, disc = 0, i = 0; int owner[8]; memset(owner, 0, sizeof owner); int live = 0; int pend = -1; int newest = 0; int got = 0; connection::id_t from = 0; uint8_t tag = 0;
  int fds[16], nf = 0; int idof[16]; memset(idof, 0, sizeof idof); bool partial[16] = {};
  l.set_connect_callback([&](connection::Basic *c) { conns++; newest = (int)c->id(); });
  l.set_disconnect_callback([&](connection::Basic *c) { disc++; vp_check(c->id() == from, "the disconnect names the connection that ended"); });
  l.set_dispatcher([&](connection::Basic *c, std::shared_ptr<packet::Basic> p) { got++; vp_check(c->id() == from && p->data().size() == 1 && (uint8_t)p->data()[0] == tag, "data is dispatched on the connection it arrived on"); return true; });
  int what = -1, wf = 0; int c0 = 0, d0 = 0, g0 = 0; auto settle = [&] {
    if (what == 0) {
      int f = fds[nf - 1];
      if (live < (int)maxc) { vp_check(conns == c0 + 1 && fd[f].open, "a connection within the limit is accepted and announced once"); vp_check(newest >= 1 && newest <= (int)maxc && owner[newest] == 0, "its id is in range and not in use"); owner[newest] = f; idof[nf - 1] = newest; live++; auto c = l.get_conn((connection::id_t)newest); vp_check(c && c->valid() && c->id() == newest && c->socket()->id() == f, "the id leads to it"); vp_check(c->name() == "t." + std::to_string(newest), "it has the default name"); vp_reach("accepted"); }
      else { vp_check(conns == c0 && !fd[f].open, "a connection beyond the limit is closed and not announced"); vp_reach("refused"); }
    } else if (what == 1) { vp_check(disc == d0 + 1 && !fd[fds[wf]].open && fd[fds[wf]].closes == 1, "a departed peer is announced once and its socket closed once"); owner[idof[wf]] = 0; idof[wf] = 0; live--; vp_reach("left"); }
    else if (what == 2) vp_check(got == g0 + 1, "a packet is dispatched once");
    else if (what == 3) vp_check(got == g0, "half a packet is not dispatched");
    vp_check(l.is_full() == (live == (int)maxc), "full exactly at the limit"); what = -1; };
  script = [&](epoll_event *e) -> int {
    settle(); if (i++ >= k) return 0;
    c0 = conns; d0 = disc; g0 = got; int op = (int)vp_pick("op", 0, 4);
    if (op == 0) { what = 0; fds[nf++] = incoming(); return ev_listen(e); }
    if (!live) vp_prune();
    int sel = (int)vp_pick("which", 0, (uint64_t)live - 1); for (wf = 0; wf < nf; wf++) if (idof[wf] && sel-- == 0) break; int f = fds[wf]; from = (connection::id_t)idof[wf];
    auto fr = frame(9, &tag, 1);
    if (op == 1) { what = 1; fd[f].eof = true; }
    else if (op == 2) { what = 2; tag = vp_u8("tag"); fr = frame(9, &tag, 1); size_t skip = partial[wf] ? 5 : 0; feed(f, fr.data() + skip, fr.size() - skip); partial[wf] = false; }
    else if (op == 3) { if (partial[wf]) vp_prune(); what = 3; feed(f, fr.data(), 5); partial[wf] = true; }
    else { what = 4; l.get_conn(from)->set_name("n"); vp_check(l.get_conn(from)->name() == "n", "a name can be given"); }
    return ev_read(e, f); };
  vp_check(l.start(), "start"); wait_finished(); l.stop(); vp_reach("end");
}
// a connector's worker serves the first connection and stops, whatever the timing
VP_HARNESS(net_startstop) {
  Connector c(conf(1), inl()); script = [&](epoll_event *e) -> int { return 0; };
  vp_check(c.start(), "start"); if (vp_bool("conn")) { auto k = c.connect("127.0.0.1:9", {}, std::chrono::milliseconds(0)); vp_check(k != nullptr && k->valid(), "connected"); wait_finished(); vp_reach("served"); }
  c.stop(); vp_check(!c.running(), "stopped"); vp_reach("end");
}
// a reset becomes visible at any moment while data of the connection is being handled
VP_HARNESS(net_reset) {
  Listener l(conf(2), inl()); int disc = 0, conns = 0, st = 0, f[2] = {-1, -1}; connection::id_t dead = 0; auto ok = frame(9, "x", 1); int when = (int)vp_pick("when", 1, 16); bool bad = vp_bool("bad");
  l.set_connect_callback([&](connection::Basic *) { conns++; }); l.set_disconnect_callback([&](connection::Basic *c) { disc++; dead = c->id(); });
  l.set_dispatcher([&](connection::Basic *c, std::shared_ptr<packet::Basic> p) { if (c->id() == 1) c->send(p); return !bad; });
  script = [&](epoll_event *e) -> int {
    switch (st++) {
      case 0: case 1: f[st - 1] = incoming(); return ev_listen(e);
      case 2: fd[f[0]].errin = when; feed(f[0], ok.data(), ok.size()); return ev_read(e, f[0]) ? 1 : ev_read(e, f[1]);
      case 3: case 4: if (st == 5 && !vp_param("select", 0)) return 0;   // only select is level triggered
        if (!fd[f[0]].reset) { fd[f[0]].errin = 0; fd[f[0]].sockerr = 104; fd[f[0]].reset = fd[f[0]].eof = true; } if (ev_read(e, f[0])) { e->events = EPOLLIN | EPOLLERR | EPOLLHUP; return 1; } return ev_read(e, f[1]);
    } return 0; };
  vp_check(l.start(), "start"); wait_finished();
  vp_check(conns == 2 && disc == 1 && dead == 1, "a reset connection is announced once as gone"); vp_check(!fd[f[0]].open && fd[f[0]].closes == 1, "its socket is closed once"); vp_check(fd[f[1]].open && l.get_conn(2)->valid(), "the other one stays"); vp_check(!l.is_full(), "its place is free again");
  l.stop(); vp_reach("end");
}
// stopping while a connection arrives
VP_HARNESS(net_stop_race) {
  auto cf = conf(2); int st = 0; { Listener l(cf, inl()); script = [&](epoll_event *e) -> int { if (st++ < (int)vp_param("arrivals", 1)) { incoming(); return ev_listen(e); } return 0; };
  vp_check(l.start(), "start"); l.stop(); vp_check(!l.running(), "stopped"); } vp_reach("end");
}
// ---------------------------------------------------------------- remote calls over a connection
static bytes_t rframe(uint16_t id, std::function<void(packet::Basic &)> fill, int kind) { auto p = std::make_shared<packet::Basic>(); p->set_id(id); p->set_writeable(true); if (kind == 0) p->set_call_request(true); else if (kind == 1) p->set_call_notify(true); else p->set_call_response(true); fill(*p); p->set_writeable(false); return stream::encode(p); }
static std::shared_ptr<packet::Basic> parse(const uint8_t *b, size_t n, size_t &used) { stream::Basic s(std::make_shared<socket::Basic>()); s.write(std::string_view((const char *)b, n)); packet::limit_t lim; auto r = stream::decode(&s, lim); used = n - s.size(); auto p = std::get_if<std::shared_ptr<packet::Basic>>(&r); return p ? *p : nullptr; }
// the server runs the named function once per request and answers each request once, with the request's index
VP_HARNESS(net_rpc_server) {
  Listener l(conf(1), inl()); int nreq = (int)vp_param("requests", 2); int32_t a[4], b[4]; int kind[4]; uint32_t idx[4]; bytes_t all; int calls[3] = {0, 0, 0}, want[3] = {0, 0, 0}; int32_t seen = 0;
  l.bind("add", [&](int32_t x, int32_t y) { calls[0]++; return (int32_t)((uint32_t)x + (uint32_t)y); }); l.bind("put", [&](int32_t x) { calls[1]++; seen = x; }); l.bind("one", [&] { calls[2]++; return std::string("1"); });
  for (int i = 0; i < nreq; i++) {
    kind[i] = (int)vp_pick("kind", 0, 5); a[i] = vp_i32("a"); b[i] = vp_i32("b"); idx[i] = vp_u32("idx"); vp_assume(idx[i] != 0);
    const char *nm = kind[i] == 0 ? "add" : kind[i] == 1 || kind[i] == 4 ? "put" : kind[i] == 2 ? "one" : "none"; rpc::Packer pk; auto t2 = std::make_tuple(a[i], b[i]); auto t1 = std::make_tuple(a[i]); auto t0 = std::make_tuple(); if (kind[i] == 0) pk.process(t2); else if (kind[i] == 1 || kind[i] == 4) pk.process(t1); else pk.process(t0);
    bool note = kind[i] >= 4; all += rframe(note ? packet::kRpcNotifyId : packet::kRpcRequestId, [&](packet::Basic &p) { if (!note) p << idx[i]; p << std::string_view(nm); p << pk.vector(); }, note ? 1 : 0);
    if (kind[i] == 0) want[0]++; else if (kind[i] == 1 || kind[i] == 4) want[1]++; else if (kind[i] == 2) want[2]++;
  }
  int st = 0, f = -1; size_t cut = vp_bool("cut") ? all.size() - 3 : all.size();
  script = [&](epoll_event *e) -> int { if (st == 0) { st++; f = incoming(); return ev_listen(e); } if (st == 1) { st++; feed(f, all.data(), cut); return ev_read(e, f); } if (st == 2 && cut < all.size()) { st++; feed(f, all.data() + cut, all.size() - cut); return ev_read(e, f); } return 0; };
  vp_check(l.start(), "start"); wait_finished(); vp_check(fd[f].open, "the connection stays open");
  vp_check(calls[0] == want[0] && calls[1] == want[1] && calls[2] == want[2], "each request runs its function exactly once"); size_t pos = 0;
  for (int i = 0; i < nreq; i++) { if (kind[i] >= 4) continue;
    size_t used = 0; auto p = parse(fd[f].tx + pos, fd[f].txlen - pos, used); vp_check(p != nullptr, "every request is answered"); pos += used; vp_check(p->is_call_response(), "with a response"); uint32_t ix = 0; int32_t er = 0; *p >> ix; *p >> er; vp_check(ix == idx[i], "that carries the index of its request");
    vp_check((er == 0) == (kind[i] != 3), "an unknown function is an error, a known one is not"); rpc::Unpacker u((const uint8_t *)p->data().data() + p->offset(), p->data().size() - p->offset());
    if (kind[i] == 0) { int32_t r = 0; u.process(r); vp_check(r == (int32_t)((uint32_t)a[i] + (uint32_t)b[i]), "the result of its own arguments"); vp_reach("add"); } else if (kind[i] == 2) { std::string r; u.process(r); vp_check(r == "1", "the string result"); } else { vp_check(p->data().size() == p->offset(), "no result"); vp_reach("noresult"); } }
  vp_check(pos == fd[f].txlen, "nothing else is sent"); l.stop(); vp_reach("end");
}
// concurrent outstanding calls of a client get their own answers, whatever the order, duplication or loss of the connection
static std::mutex gmu; static std::condition_variable gcv; static int gate;
static void open_gate(int v) { std::unique_lock<std::mutex> l(gmu); if (v > gate) gate = v; gcv.notify_all(); }
static void pass_gate(int v) { std::unique_lock<std::mutex> l(gmu); gcv.wait(l, [&] { return gate >= v; }); }
VP_HARNESS(net_rpc_client) {
  Connector c(conf(1), inl()); int st = 0, f = -1; int mode = (int)vp_pick("mode", 0, 5); int32_t v[2] = {vp_i32("v0"), vp_i32("v1")}; uint32_t ix[2] = {0, 0};
  auto resp = [&](uint32_t index, int32_t err, int32_t val) { rpc::Packer pk; if (!err) pk.process(val); auto fr = rframe(packet::kRpcResponseId, [&](packet::Basic &p) { p << index; p << err; if (!err) p << pk.vector(); }, 2); feed(f, fr.data(), fr.size()); };
  script = [&](epoll_event *e) -> int { if (st++ == 0) { pass_gate(1); size_t pos = 0, used; for (int i = 0; i < 2; i++) { auto p = parse(fd[f].tx + pos, fd[f].txlen - pos, used); vp_check(p && p->is_call_request(), "each call sends one request"); *p >> ix[i]; std::string nm; *p >> nm; vp_check(nm == (i ? "g" : "f"), "naming its function"); pos += used; } vp_check(pos == fd[f].txlen && ix[0] != ix[1] && ix[0] && ix[1], "requests have distinct indexes");
      if (mode == 0) { resp(ix[0], 0, v[0]); resp(ix[1], 0, v[1]); } else if (mode == 1) { resp(ix[1], 0, v[1]); resp(ix[0], 0, v[0]); } else if (mode == 2) { resp(ix[1], 7, 0); resp(ix[0], 0, v[0]); } else if (mode == 3) { resp(ix[0], 0, v[0]); fd[f].eof = true; } else if (mode == 4) { resp(ix[0], 0, v[0]); resp(ix[0], 0, v[1]); } else { resp(0, 0, v[0]); resp(ix[0], 0, v[0]); resp(ix[1], 0, v[1]); }
      return ev_read(e, f); }
    if (st == 2 && fd[f].open && (mode == 3)) return ev_read(e, f); return 0; };
  vp_check(c.start(), "start"); auto k = c.connect("127.0.0.1:9", {}, std::chrono::milliseconds(0)); vp_check(k && k->valid(), "connected"); f = k->socket()->id();
  auto f0 = k->async_call("f", (int32_t)1); auto f1 = k->async_call("g", (int32_t)2); open_gate(1);
  int got = -1; int32_t r0 = 0, r1 = 0; bool e0 = false, e1 = false;
  try { auto u = f0.get(); u.process(r0); } catch (const std::exception &) { e0 = true; } try { auto u = f1.get(); u.process(r1); } catch (const std::exception &) { e1 = true; }
  bool bad1 = mode == 2 || mode == 3 || mode == 4; vp_check(!e0 && r0 == v[0], "the first call gets its own answer"); vp_check(e1 == bad1 && (bad1 || r1 == v[1]), "the second call gets its own answer or an error"); vp_reach(bad1 ? "failed" : "answered");
  c.stop(); vp_reach("end");
}
// two threads send on one connection while its worker flushes: every packet arrives whole, once, in each sender's order
VP_HARNESS(net_send_race) {
  Listener l(conf(1), vp_param("exec", 0) ? wrk() : std::static_pointer_cast<concurrency::executor::Basic>(inl())); int st = 0, f = -1; int pol = (int)vp_pick("policy", 0, 3), calls = 0; auto A = frame(9, "aa", 2), B = frame(10, "b", 1), in = frame(11, "", 0); int reps = (int)vp_param("sends", 1);
  send_policy = [&](int, size_t n) -> ssize_t { calls++; if (pol == 0) return (ssize_t)n; if (pol == 1) return n > 3 ? 3 : (ssize_t)n; if (pol == 2 ? calls == 1 : calls > 1 && calls < 5) { errno = EAGAIN; return -1; } return (ssize_t)n; };
  after_send = [&] { if (fd[f].txlen >= A.size() * (size_t)reps + B.size()) open_gate(2); };
  l.set_dispatcher([&](connection::Basic *c, std::shared_ptr<packet::Basic> p) { vp_check(c->send(pkt(10, "b", 1)), "reply accepted"); return true; });
  script = [&](epoll_event *e) -> int { if (st++ == 0) { f = incoming(); return ev_listen(e); } if (st == 2) { open_gate(1); feed(f, in.data(), in.size()); return ev_read(e, f); } return 0; };
  vp_check(l.start(), "start"); pass_gate(1); auto c = l.get_conn(1); vp_check(c != nullptr, "connected"); for (int i = 0; i < reps; i++) vp_check(c->send(pkt(9, "aa", 2)), "send accepted"); pass_gate(2); wait_finished();
  size_t pos = 0, used; int na = 0, nb = 0; while (pos < fd[f].txlen) { auto p = parse(fd[f].tx + pos, fd[f].txlen - pos, used); vp_check(p != nullptr, "the peer receives whole packets"); if (p->id() == 9) na++; else { vp_check(p->id() == 10, "unknown packet"); nb++; } pos += used; }
  vp_check(na == reps && nb == 1, "every packet sent arrives exactly once"); vp_check(fd[f].open, "open"); l.stop(); vp_reach("end");
}
// a broadcast reaches every open connection once
VP_HARNESS(net_broadcast) {
  Listener l(conf(3), inl()); int st = 0, f[3]; int gone = (int)vp_pick("gone", 0, 3); uint8_t b = vp_u8("b"); auto A = frame(9, &b, 1); int np = 0;
  l.set_dispatcher([&](connection::Basic *c, std::shared_ptr<packet::Basic> p) { np++; l.broadcast(pkt(9, &b, 1)); return true; });
  script = [&](epoll_event *e) -> int { switch (st++) { case 0: case 1: case 2: f[st - 1] = incoming(); return ev_listen(e); case 3: if (gone < 3) { fd[f[gone]].eof = true; return ev_read(e, f[gone]); } st++; case 4: { int k = gone == 1 ? 2 : 1; feed(f[k], A.data(), A.size()); return ev_read(e, f[k]); } } return 0; };
  vp_check(l.start(), "start"); wait_finished(); vp_check(np == 1, "trigger");
  for (int i = 0; i < 3; i++) if (i != gone) vp_check(fd[f[i]].open && fd[f[i]].txlen == A.size() && !memcmp(fd[f[i]].tx, A.data(), A.size()), "every open connection receives the broadcast once"); else vp_check(fd[f[i]].txlen == 0 && !fd[f[i]].open, "a closed one receives nothing");
  l.stop(); vp_reach("end");
}
VP_HARNESS(net_rpc_one) {
  Connector c(conf(1), inl()); int st = 0, f = -1; int how = (int)vp_pick("how", 0, 3); bool lost = how == 1 || how == 3; int32_t v = vp_i32("v"); uint32_t ix = 0; static const int32_t codes[] = {1, 2, -1, 255, INT32_MIN}; int32_t code = how == 3 ? codes[vp_pick("code", 0, 4)] : 0;
  script = [&](epoll_event *e) -> int { if (st++ == 0) { pass_gate(1); size_t used; auto p = parse(fd[f].tx, fd[f].txlen, used); vp_check(p && p->is_call_request(), "the call sends one request"); *p >> ix;
      if (how == 1) fd[f].eof = true; else { rpc::Packer pk; pk.process(v); auto fr = rframe(packet::kRpcResponseId, [&](packet::Basic &q) { q << ix; q << code; if (!code) q << pk.vector(); }, 2); feed(f, fr.data(), fr.size()); if (how == 2) feed(f, fr.data(), fr.size()); } return ev_read(e, f); } return 0; };
  after_send = [&] { open_gate(1); };
  vp_check(c.start(), "start"); auto k = c.connect("127.0.0.1:9", {}, std::chrono::milliseconds(0)); vp_check(k && k->valid(), "connected"); f = k->socket()->id();
  auto fu = k->async_call("f", (int32_t)1); int32_t r = 0; bool er = false; try { auto u = fu.get(); u.process(r); } catch (const std::exception &) { er = true; }
  vp_check(er == lost && (lost || r == v), "the call gets its answer, or an error when it failed or the connection is lost"); vp_reach(lost ? "failed" : "answered"); c.stop(); vp_reach("end");
}
// the peer resets the connection while another thread sends on it
VP_HARNESS(net_send_reset) {
  Listener l(conf(2), inl()); int st = 0, f = -1, disc = 0, conns = 0; bool dead = false;
  l.set_connect_callback([&](connection::Basic *) { conns++; }); l.set_disconnect_callback([&](connection::Basic *c) { disc++; vp_check(c->id() == 1, "the one that was reset"); });
  send_policy = [&](int, size_t n) -> ssize_t { if (fd[f].reset) { errno = ECONNRESET; return -1; } return (ssize_t)n; };
  l.set_dispatcher([&](connection::Basic *c, std::shared_ptr<packet::Basic> p) { return true; });
  script = [&](epoll_event *e) -> int { if (st++ == 0) { f = incoming(); return ev_listen(e); } if (st == 2) { open_gate(1); fd[f].sockerr = 104; fd[f].reset = fd[f].eof = true; if (ev_read(e, f)) { e->events = EPOLLIN | EPOLLERR | EPOLLHUP; return 1; } } return 0; };
  vp_check(l.start(), "start"); pass_gate(1); auto c = l.get_conn(1); vp_check(c != nullptr, "connected"); c->send(pkt(9, "aa", 2)); wait_finished();
  vp_check(conns == 1 && disc == 1, "announced once as gone"); vp_check(!fd[f].open && fd[f].closes == 1, "its socket is closed once"); l.stop(); vp_reach("end");
}
// ---------------------------------------------------------------- packet work on another thread than the network thread
// the peer resets while its packet is handled on the worker thread, and another peer takes its place
VP_HARNESS(net_worker_reset) {
  int reuse = (int)vp_param("reuse", 1); Listener l(conf(1), wrk()); int st = 0, f[2] = {-1, -1}; std::atomic<int> disc{0}, conns{0}, bad{0}; auto ok = frame(9, "x", 1), ok2 = frame(10, "yz", 2);
  l.set_connect_callback([&](connection::Basic *) { conns++; }); l.set_disconnect_callback([&](connection::Basic *c) { disc++; });
  after_close = [&](int k) { if (k == f[0]) open_gate(1); };
  l.set_dispatcher([&](connection::Basic *c, std::shared_ptr<packet::Basic> p) { if (p->id() == 9) { if (p->data().size() != 1) bad++; c->send(p); } else { if (p->id() != 10 || p->data().size() != 2) bad++; c->send(p); open_gate(2); } return true; });
  script = [&](epoll_event *e) -> int {
    switch (st++) {
      case 0: f[0] = incoming(); return ev_listen(e);
      case 1: feed(f[0], ok.data(), ok.size()); return ev_read(e, f[0]);
      case 2: fd[f[0]].sockerr = 104; fd[f[0]].reset = fd[f[0]].eof = true; if (ev_read(e, f[0])) { e->events = EPOLLIN | EPOLLERR | EPOLLHUP; return 1; } st++;
      case 3: if (!reuse) return 0; pass_gate(1); f[1] = incoming(); return ev_listen(e);
      case 4: if (l.is_full() && !fd[f[1]].open) return 0; feed(f[1], ok2.data(), ok2.size()); return ev_read(e, f[1]);
    } return 0; };
  vp_check(l.start(), "start"); pass_gate(1); wait_finished(); if (reuse && conns == 2) pass_gate(2);
  vp_check(bad == 0, "packets arrive unchanged"); vp_check(conns >= 1, "every peer is announced"); vp_check(disc == 1, "a reset connection is announced once as gone"); vp_check(!fd[f[0]].open && fd[f[0]].closes == 1, "its socket is closed once"); l.stop();
  if (reuse) { size_t pos = 0, used; while (pos < fd[f[1]].txlen) { auto p = parse(fd[f[1]].tx + pos, fd[f[1]].txlen - pos, used); vp_check(p && p->id() == 10, "a reply goes to the peer it answers"); pos += used; } vp_reach("reused"); }
  vp_reach("end");
}
// an id that became free is used again without anything its former owner was given
VP_HARNESS(net_inherit) {
  Listener l(conf(1), inl()); int st = 0, f[2] = {-1, -1}, own = 0, gen = 0, enc = 0, cb = 0, conns = 0; auto ok = frame(9, "x", 1); std::optional<int64_t> to;
  l.set_connect_callback([&](connection::Basic *c) { if (conns++ == 0) { int w = (int)vp_pick("what", 0, 4); if (w == 0) c->set_dispatcher([&](connection::Basic *, std::shared_ptr<packet::Basic>) { own++; return true; });
      else if (w == 1) { stream::codec_t k; k.encode = [&](const std::shared_ptr<packet::Basic> &) { enc++; return bytes_t(1, std::byte{1}); }; c->set_codec(k); } else if (w == 2) { stream::codec_t k; k.decode = [&](stream::Basic *s, const packet::limit_t &) -> typename stream::decode_func::result_type { enc++; s->clear(); return std::make_shared<packet::Basic>(); }; c->set_codec(k); }
      else if (w == 3) c->set_disconnect_callback([&](connection::Basic *) { cb++; }); else c->set_name("n"); } });
  l.set_dispatcher([&](connection::Basic *c, std::shared_ptr<packet::Basic> p) { gen++; vp_check(p->id() == 9 && p->data().size() == 1, "unchanged"); vp_check(c->name() == "t.1", "the default name"); vp_check(c->send(p), "reply"); return true; });
  script = [&](epoll_event *e) -> int { switch (st++) { case 0: f[0] = incoming(); return ev_listen(e); case 1: fd[f[0]].eof = true; return ev_read(e, f[0]); case 2: f[1] = incoming(); return ev_listen(e); case 3: feed(f[1], ok.data(), ok.size()); return ev_read(e, f[1]); case 4: cb = 0; fd[f[1]].eof = true; return ev_read(e, f[1]); } return 0; };
  vp_check(l.start(), "start"); wait_finished(); vp_check(conns == 2, "both announced"); vp_check(own == 0 && enc == 0 && cb == 0 && gen == 1, "handlers given to a connection end with it"); vp_check(fd[f[1]].txlen == ok.size(), "the server's own coding is used"); l.stop(); vp_reach("end");
}
// a call on a connection that has ended, or ends at that moment, fails
VP_HARNESS(net_call_late) {
  Connector c(conf(1), inl()); int st = 0, f = -1; bool late = vp_pick("late", 0, 1); int disc = 0; c.set_disconnect_callback([&](connection::Basic *) { disc++; }); after_close = [&](int x) { if (x == f) open_gate(2); };
  script = [&](epoll_event *e) -> int { if (st++ == 0) { pass_gate(1); fd[f].eof = true; return ev_read(e, f); } return 0; };
  vp_check(c.start(), "start"); auto k = c.connect("127.0.0.1:9", {}, std::chrono::milliseconds(0)); vp_check(k && k->valid(), "connected"); f = k->socket()->id(); open_gate(1); if (late) pass_gate(2);
  bool er = false; try { auto fu = k->async_call("f", (int32_t)1); auto u = fu.get(); } catch (const std::exception &) { er = true; } vp_check(er, "the call fails"); if (late) vp_check(!k->send(pkt(9, "x", 1)), "nothing can be sent on it");
  pass_gate(2); vp_check(disc == 1, "announced once"); c.stop(); vp_reach("end");
}
// a kept connection can be connected again and works as before
VP_HARNESS(net_reconnect) {
  Connector c(conf(1), inl()); int st = 0, f = -1, disc = 0, conns = 0, got = 0; int how = (int)vp_pick("how", 0, 3); bool pending = vp_pick("pending", 0, 1); auto in = frame(11, "abc", 3), out = frame(9, "aa", 2); bool blocked = false;
  c.set_connect_callback([&](connection::Basic *) { conns++; }); c.set_disconnect_callback([&](connection::Basic *) { disc++; }); c.set_dispatcher([&](connection::Basic *k, std::shared_ptr<packet::Basic> p) { vp_check(p->id() == 11 && p->data().size() == 3, "unchanged"); got++; return true; });
  send_policy = [&](int x, size_t n) -> ssize_t { if (blocked && x == f) { errno = ECONNRESET; return -1; } return (ssize_t)n; };
  script = [&](epoll_event *e) -> int { switch (st++) { case 0: pass_gate(1); if (how == 1) feed(f, in.data(), 4); else if (how == 2) feed(f, "\0\0\0\0\0\0", 6); else if (how == 3) { fd[f].sockerr = 104; fd[f].reset = true; } fd[f].eof = true; { if (ev_read(e, f)) return 1; } st++; 
      case 1: open_gate(2); pass_gate(3); feed(f, in.data(), in.size()); return ev_read(e, f); } return 0; };
  vp_check(c.start(), "start"); auto k = c.connect("127.0.0.1:9", {}, std::chrono::milliseconds(0)); vp_check(k && k->valid(), "connected"); c.set_keep_alive(k, true); f = k->socket()->id(); int f0 = f;
  if (pending) { blocked = true; k->send(pkt(9, "zz", 2)); } open_gate(1); pass_gate(2); vp_check(disc == 1 && !fd[f0].open, "the loss is announced once"); vp_check(!k->valid(), "not usable meanwhile"); blocked = false;
  vp_check(c.connect(k, std::chrono::milliseconds(0), "127.0.0.1:9"), "connects again"); vp_check(k->valid() && conns == 2, "announced again"); f = k->socket()->id(); vp_check(f != f0, "a new socket"); vp_check(k->send(pkt(9, "aa", 2)), "sends again"); open_gate(3); wait_finished();
  vp_check(got == 1, "receives again"); vp_check(fd[f].txlen == out.size() && !memcmp(fd[f].tx, out.data(), out.size()), "what is sent after connecting again arrives"); vp_check(c.get_conn(k->id()) == k, "still in the table"); c.stop(); vp_reach("end");
}
// callbacks of different connections are set by different threads
VP_HARNESS(net_callbacks) {
  connection::Basic a, b; int n = 0; std::thread t([&] { a.set_connect_callback([&](connection::Basic *) { n++; }); }); b.set_disconnect_callback([](connection::Basic *) {}); t.join(); vp_check(n == 0, "not called"); vp_reach("end");
}
// sending while the owner stops
VP_HARNESS(net_stop_send) {
  int st = 0, f = -1; { Listener l(conf(1), vp_pick("worker", 0, 1) ? wrk() : std::static_pointer_cast<concurrency::executor::Basic>(inl())); script = [&](epoll_event *e) -> int { if (st++ == 0) { f = incoming(); return ev_listen(e); } open_gate(1); return 0; };
    vp_check(l.start(), "start"); pass_gate(1); auto c = l.get_conn(1); vp_check(c != nullptr, "connected"); std::thread t([&] { c->send(pkt(9, "aa", 2)); }); l.stop(); vp_check(!l.running(), "stopped"); t.join(); } vp_reach("end");
}
// a signal interrupts the wait of the network thread
VP_HARNESS(net_signal) {
  Listener l(conf(1), inl()); int st = 0, f = -1, got = 0; auto ok = frame(9, "x", 1); int when = (int)vp_pick("when", 0, 2), sig = 0;
  l.set_dispatcher([&](connection::Basic *, std::shared_ptr<packet::Basic>) { got++; return true; });
  script = [&](epoll_event *e) -> int { if (st == when && !sig) { sig = 1; errno = EINTR; return -1; } switch (st++) { case 0: f = incoming(); return ev_listen(e); case 1: feed(f, ok.data(), ok.size()); return ev_read(e, f); } return 0; };
  vp_check(l.start(), "start"); wait_finished(); vp_check(got == 1, "an interrupted wait does not end the service"); l.stop(); vp_reach("end");
}
// a handler is still busy with a packet when its peer is gone and another one arrives
VP_HARNESS(net_handler_long) {
  Listener l(conf(2), wrk()); int st = 0, f[2] = {-1, -1}; std::atomic<int> disc{0}, conns{0}, bad{0}; auto ok = frame(9, "x", 1), ok2 = frame(10, "yz", 2); bool refuse = vp_pick("refuse", 0, 1), reset = vp_pick("reset", 0, 1); std::atomic<int> ev{0}; auto done = [&] { if (++ev == 2) open_gate(4); };
  l.set_connect_callback([&](connection::Basic *) { conns++; }); l.set_disconnect_callback([&](connection::Basic *c) { disc++; });
  after_close = [&](int k) { if (k == f[0]) done(); };
  l.set_dispatcher([&](connection::Basic *c, std::shared_ptr<packet::Basic> p) { if (p->id() == 9) { open_gate(1); pass_gate(2); c->send(p); return !refuse; } if (p->id() != 10 || p->data().size() != 2) bad++; done(); return true; });
  script = [&](epoll_event *e) -> int {
    switch (st++) {
      case 0: f[0] = incoming(); return ev_listen(e);
      case 1: feed(f[0], ok.data(), ok.size()); return ev_read(e, f[0]);
      case 2: pass_gate(1); if (reset) { fd[f[0]].sockerr = 104; fd[f[0]].reset = true; } fd[f[0]].eof = true; if (ev_read(e, f[0])) { e->events = EPOLLIN | EPOLLERR | EPOLLHUP; return 1; } st++;
      case 3: f[1] = incoming(); return ev_listen(e);
      case 4: open_gate(2); feed(f[1], ok2.data(), ok2.size()); return ev_read(e, f[1]);
    } return 0; };
  vp_check(l.start(), "start"); wait_finished(); pass_gate(4); vp_check(disc == 1, "a connection that ended is announced once as gone"); vp_check(!fd[f[0]].open && fd[f[0]].closes == 1, "its socket is closed once"); vp_check(conns == 2, "the next peer is announced"); vp_check(fd[f[1]].closes == 0 && fd[f[1]].open, "the other peer is not affected");
  l.stop(); vp_check(fd[f[1]].txlen == 0, "a reply never goes to another peer"); vp_check(bad == 0, "packets are unchanged"); vp_reach("end");
}
// a send fails on the worker thread while the network thread notices the reset
VP_HARNESS(net_worker_push) {
  Listener l(conf(1), wrk()); int st = 0, f = -1; std::atomic<int> disc{0}; std::atomic<bool> dead{false}; l.set_disconnect_callback([&](connection::Basic *) { disc++; }); after_close = [&](int k) { if (k == f) open_gate(2); };
  send_policy = [&](int, size_t n) -> ssize_t { errno = ECONNRESET; return -1; };
  script = [&](epoll_event *e) -> int { if (st++ == 0) { f = incoming(); return ev_listen(e); } if (st == 2) { open_gate(1); fd[f].sockerr = 104; fd[f].reset = fd[f].eof = true; if (ev_read(e, f)) { e->events = EPOLLIN | EPOLLERR | EPOLLHUP; return 1; } } return 0; };
  vp_check(l.start(), "start"); pass_gate(1); auto c = l.get_conn(1); vp_check(c != nullptr, "connected"); c->send(pkt(9, "aa", 2)); pass_gate(2); wait_finished();
  vp_check(disc == 1 && fd[f].closes == 1, "announced and closed once"); l.stop(); vp_reach("end");
}
// a peer that sends and closes at once, announced by a single notification
VP_HARNESS(net_send_close) {
  Listener l(conf(2), vp_param("exec", 0) ? wrk() : std::static_pointer_cast<concurrency::executor::Basic>(inl())); int st = 0, f = -1; std::atomic<int> got{0}, disc{0}, when{-1}; uint8_t b = vp_u8("b"); static const int kN[] = {0, 1, 2, 12, 13, 27}; int np = kN[vp_pick("packets", 0, 5)]; size_t tail = vp_pick("tail", 0, 1) * vp_pick("cut", 1, 6); bool small = vp_pick("small", 0, 1); bytes_t all; std::atomic<bool> ok{true};
  for (int i = 0; i < np; i++) { uint8_t x[2] = {(uint8_t)i, b}; all += frame(9, x, 2); } if (tail) { auto t = frame(9, "q", 1); all += t.substr(0, tail); }
  l.set_dispatcher([&](connection::Basic *c, std::shared_ptr<packet::Basic> p) { if (disc || p->data().size() != 2 || (uint8_t)p->data()[0] != (uint8_t)got || (uint8_t)p->data()[1] != b) ok = false; got++; return true; }); l.set_disconnect_callback([&](connection::Basic *) { disc++; });
  after_close = [&](int k) { if (k == f) open_gate(1); }; if (small) recv_policy = [&](int, size_t n) -> ssize_t { return n > 7 ? 7 : (ssize_t)n; };
  script = [&](epoll_event *e) -> int { switch (st++) { case 0: f = incoming(); return ev_listen(e); case 1: feed(f, all.data(), all.size()); fd[f].eof = true; return ev_read(e, f); default: if (vp_param("select", 0) && st < 40 && ev_read(e, f)) return 1; } return 0; };
  vp_check(l.start(), "start"); wait_finished(); pass_gate(1); vp_check(ok && got == np, "what arrived before the close is dispatched, in order"); vp_check(disc == 1 && fd[f].closes == 1, "the close is noticed without further notification"); vp_check(!l.is_full(), "its place is free"); l.stop(); vp_reach("end");
}
// any thread asks for the state while connections come, talk and go
VP_HARNESS(net_queries) {
  Listener l(conf(1), wrk()); int st = 0, f = -1; auto ok = frame(9, "x", 1); std::atomic<int> g{0}; l.set_dispatcher([&](connection::Basic *c, std::shared_ptr<packet::Basic> p) { c->send(p); g++; return true; }); after_close = [&](int k) { if (k == f) open_gate(1); };
  script = [&](epoll_event *e) -> int { switch (st++) { case 0: f = incoming(); return ev_listen(e); case 1: feed(f, ok.data(), ok.size()); fd[f].eof = true; return ev_read(e, f); } return 0; };
  vp_check(l.start(), "start"); int what = (int)vp_pick("what", 0, 5); if (what == 0) l.is_full(); else if (what == 1) vp_check(l.recv_size() <= ok.size(), "received"); else if (what == 2) vp_check(l.send_size() <= ok.size(), "sent"); else if (what == 3) { auto c = l.get_conn(1); if (c) { c->valid(); c->id(); c->idle(); } } else if (what == 4) { auto c = l.get_conn(1); if (c) vp_check(c->name() == "t.1" || c->name().empty(), "name"); } else l.broadcast(pkt(9, "zz", 2));
  pass_gate(1); wait_finished(); vp_check(g == 1, "dispatched"); l.stop(); vp_reach("end");
}
// more calls than any small counter can tell apart
VP_HARNESS(net_rpc_many) {
  Connector c(conf(1), inl()); int st = 0, f = -1; int n = (int)vp_param("calls", 260); int32_t v = vp_i32("v"); int pick[3] = {0, n / 2, n - 1};
  send_policy = [&](int, size_t k) -> ssize_t { return (ssize_t)k; }; std::vector<uint32_t> ix; after_send = [&] { size_t used; auto p = parse(fd[f].tx, fd[f].txlen, used); vp_check(p && used == fd[f].txlen, "a whole request"); uint32_t i = 0; *p >> i; ix.push_back(i); fd[f].txlen = 0; };
  script = [&](epoll_event *e) -> int { if (st++ == 0) { pass_gate(1); for (int k : pick) { rpc::Packer pk; pk.process((int32_t)(v ^ k)); auto fr = rframe(packet::kRpcResponseId, [&](packet::Basic &q) { q << ix[k]; q << (int32_t)0; q << pk.vector(); }, 2); feed(f, fr.data(), fr.size()); } return ev_read(e, f); } return 0; };
  vp_check(c.start(), "start"); auto k = c.connect("127.0.0.1:9", {}, std::chrono::milliseconds(0)); vp_check(k && k->valid(), "connected"); f = k->socket()->id(); using F = decltype(k->async_call("f", (int32_t)1)); std::vector<F> fs; for (int i = 0; i < n; i++) fs.push_back(k->async_call("f", (int32_t)1)); vp_check((int)ix.size() == n, "every call is sent"); open_gate(1);
  for (int i : pick) { int32_t r = 0; auto u = fs[i].get(); u.process(r); vp_check(r == (v ^ i), "each call gets its own answer"); } wait_finished(); vp_check(fd[f].open, "open"); c.stop(); vp_reach("end");
}
// an id is used again and nothing of its former owner is left
VP_HARNESS(net_reuse) {
  Listener l(conf(1), inl()); int what = (int)vp_pick("what", 0, 1), st = 0, f = -1, n = what == 1 ? 14 : 1, life = 0, in = 0, got = 0, phase = 0; auto ok = frame(9, "x", 1);
  l.set_dispatcher([&](connection::Basic *c, std::shared_ptr<packet::Basic> p) { got++; vp_check(c->send(p), "reply"); return true; });
  if (what == 1) after_close = [&](int k) { if (k == f && phase == 0) memset(&fd[k], 0, sizeof fd[k]); };
  script = [&](epoll_event *e) -> int {
    if (phase == 0) { if (st++ == 0) { if (what == 1 && f >= 0) nfd = f; f = incoming(); in = 0; return ev_listen(e); } if (in < 5) { feed(f, (const char *)ok.data() + in++, 1); return ev_read(e, f); } fd[f].eof = true; st = 0; if (++life == n) phase = 1; return ev_read(e, f); }
    if (phase == 1) { phase = 2; if (what == 1) { memset(&fd[f], 0, sizeof fd[f]); nfd = f; } f = incoming(); return ev_listen(e); } if (phase == 2) { phase = 3; feed(f, ok.data(), 3); return ev_read(e, f); } if (phase == 3) { phase = 4; feed(f, ok.data() + 3, ok.size() - 3); return ev_read(e, f); } return 0; };
  vp_check(l.start(), "start"); wait_finished(); vp_check(got == 1, "the packet of the new owner is dispatched once"); vp_check(fd[f].open && fd[f].txlen == ok.size() && !memcmp(fd[f].tx, ok.data(), ok.size()), "it receives exactly its reply"); l.stop(); vp_reach("end");
}
// unsent data of a departed peer is not sent to the next owner of its id
VP_HARNESS(net_reuse_unsent) {
  Listener l(conf(1), wrk()); std::atomic<int> phase{0}, f{-1}, got{0}; std::atomic<bool> block{false}; auto ok = frame(9, "x", 1);
  l.set_connect_callback([&](connection::Basic *c) { if (phase == 1) { block = true; vp_check(c->send(pkt(9, "zz", 2)), "accepted"); } }); l.set_dispatcher([&](connection::Basic *c, std::shared_ptr<packet::Basic> p) { vp_check(c->send(p), "reply"); got++; return true; });
  send_policy = [&](int, size_t k) -> ssize_t { if (block) { std::this_thread::yield(); errno = EAGAIN; return -1; } return (ssize_t)k; }; after_close = [&](int k) { if (k == f && phase < 5) { block = false; open_gate(3); } }; after_send = [&] { if (phase >= 5) open_gate(4); };
  script = [&](epoll_event *e) -> int { switch (phase++) { case 0: f = incoming(); return ev_listen(e); case 1: fd[f].eof = true; phase = 3; return ev_read(e, f); case 3: pass_gate(3); while (l.is_full()) std::this_thread::yield(); f = incoming(); return ev_listen(e); case 4: feed(f, ok.data(), ok.size()); return ev_read(e, f); } return 0; };
  vp_check(l.start(), "start"); pass_gate(4); wait_finished(); l.stop(); vp_check(got == 1, "the packet of the new owner is dispatched once"); vp_check(fd[f].txlen == ok.size() && !memcmp(fd[f].tx, ok.data(), ok.size()), "it receives exactly its reply"); vp_reach("end");
}
// a peer that does not read, with the executor that runs at once
VP_HARNESS(net_blocked_inline) {
  Listener l(conf(1), inl()); int st = 0, f = -1; auto ok = frame(9, "x", 1); bool block = true; l.set_dispatcher([&](connection::Basic *c, std::shared_ptr<packet::Basic> p) { return c->send(p); });
  send_policy = [&](int, size_t k) -> ssize_t { if (block) { errno = EAGAIN; return -1; } return (ssize_t)k; };
  script = [&](epoll_event *e) -> int { switch (st++) { case 0: f = incoming(); return ev_listen(e); case 1: feed(f, ok.data(), ok.size()); return ev_read(e, f); case 2: block = false; feed(f, ok.data(), ok.size()); return ev_read(e, f); } return 0; };
  vp_check(l.start(), "start"); wait_finished(); l.stop(); vp_check(fd[f].txlen == 2 * ok.size(), "both replies arrive"); vp_reach("end");
}
// a refusing handler ends its connection while the peer leaves and the next one takes its place
VP_HARNESS(net_refuse_race) {
  Listener l(conf(1), wrk()); int st = 0, f[2] = {-1, -1}; std::atomic<int> disc{0}, conns{0}, got{0}; auto ok = frame(9, "x", 1), ok2 = frame(10, "yz", 2);
  l.set_connect_callback([&](connection::Basic *) { conns++; }); l.set_disconnect_callback([&](connection::Basic *) { disc++; }); after_close = [&](int k) { if (k == f[0]) open_gate(2); else open_gate(3); };
  l.set_dispatcher([&](connection::Basic *c, std::shared_ptr<packet::Basic> p) { if (p->id() == 9) { open_gate(1); return false; } got++; open_gate(3); return true; });
  script = [&](epoll_event *e) -> int {
    switch (st++) {
      case 0: f[0] = incoming(); return ev_listen(e);
      case 1: feed(f[0], ok.data(), ok.size()); return ev_read(e, f[0]);
      case 2: pass_gate(1); fd[f[0]].eof = true; if (ev_read(e, f[0])) return 1; st++;
      case 3: pass_gate(2); f[1] = incoming(); return ev_listen(e);
      case 4: if (!fd[f[1]].open) { open_gate(3); return 0; } feed(f[1], ok2.data(), ok2.size()); return ev_read(e, f[1]);
    } return 0; };
  vp_check(l.start(), "start"); pass_gate(3); wait_finished(); if (conns == 2) { vp_check(disc == 1 && fd[f[1]].open && got == 1, "only the refused connection ends"); vp_reach("next"); } vp_check(fd[f[0]].closes == 1, "closed once"); l.stop(); vp_reach("end");
}
// data arrives in two events while the first is handled on the worker thread
VP_HARNESS(net_two_events) {
  Listener l(conf(1), wrk()); int st = 0, f = -1; std::atomic<int> got{0}; auto ok = frame(9, "x", 1); bool split = vp_pick("split", 0, 1); size_t a = split ? 4 : ok.size();
  l.set_dispatcher([&](connection::Basic *c, std::shared_ptr<packet::Basic> p) { vp_check(p->id() == 9 && p->data().size() == 1, "unchanged"); if (++got == 2) open_gate(1); return true; }); bytes_t all = ok + ok;
  script = [&](epoll_event *e) -> int { switch (st++) { case 0: f = incoming(); return ev_listen(e); case 1: feed(f, all.data(), a); return ev_read(e, f); case 2: feed(f, all.data() + a, all.size() - a); return ev_read(e, f); } return 0; };
  vp_check(l.start(), "start"); pass_gate(1); wait_finished(); l.stop(); vp_check(got == 2, "each packet is dispatched once"); vp_reach("end");
}
// more busy connections than are worked on at a time
VP_HARNESS(net_many) {
  int n = (int)vp_param("conns", 5); Listener l(conf((uint32_t)n), wrk()); int st = 0, f[8]; std::atomic<int> got{0}; int seen[8] = {0}; int gone = (int)vp_pick("gone", 0, 2) + 1; if (gone == 3) gone = (int)vp_pick("other", 2, 3); else if (gone == 2) gone = 1; else gone = 0; int want = n - (gone ? 1 : 0); auto ok = frame(9, "x", 1);
  l.set_dispatcher([&](connection::Basic *c, std::shared_ptr<packet::Basic> p) { int i = (int)c->id() - 1; if (i == 0) { open_gate(1); pass_gate(2); } seen[i]++; if (++got == want) open_gate(3); return true; });
  script = [&](epoll_event *e) -> int {
    if (st < n) { f[st] = incoming(); st++; return ev_listen(e); }
    if (st < 2 * n) { int i = st++ - n; if (i == 1) pass_gate(1); feed(f[i], ok.data(), ok.size()); return ev_read(e, f[i]); }
    if (st++ == 2 * n && gone) { fd[f[gone]].sockerr = 104; fd[f[gone]].reset = fd[f[gone]].eof = true; if (ev_read(e, f[gone])) { e->events = EPOLLIN | EPOLLERR | EPOLLHUP; return 1; } }
    open_gate(2); return 0; };
  vp_check(l.start(), "start"); pass_gate(3); wait_finished(); l.stop(); for (int i = 0; i < n; i++) vp_check(seen[i] == (gone && i == gone ? 0 : 1), "every connection's packet is handled once"); vp_reach("end");
}
