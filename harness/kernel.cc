// The kernel: executors it hands out, the registry of networks and the console.
#include "simos.h"
#include <string>
#include <memory>
#include <vector>
#include <thread>
#include <atomic>
#include "plain/engine/kernel.h"
#include "plain/engine/timer_queue.h"
#include "plain/net/listener.h"
#include "plain/net/utility.h"
#include "plain/net/connection/basic.h"
#include "plain/net/connection/manager.h"
#include "plain/net/packet/basic.h"
#include "plain/net/stream/codec.h"
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/executor/thread.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
using namespace plain; using namespace plain::net; using namespace std::chrono_literals;
namespace ex = plain::concurrency::executor;
template <auto P> struct Open { friend setting_t &setting(connection::Manager &m) { return m.*P; } }; setting_t &setting(connection::Manager &); template struct Open<&connection::Manager::setting_>;
static const std::string &name(const std::shared_ptr<connection::Manager> &m) { return setting(*m).name; }
static engine_option opt(size_t cpu, size_t bg) { engine_option o; o.max_cpu_threads = cpu; o.max_background_threads = bg; o.max_thread_pool_executor_waiting_time = 5s; o.max_background_executor_waiting_time = 7s; o.max_timer_queue_waiting_time = 9s; return o; }
template <class E> static bool refuses(E &e) { try { e.post([] {}); } catch (const std::runtime_error &) { return true; } return false; }
// options are honoured, a submitted task runs at most once, and everything ends with the kernel
VP_HARNESS(kernel_exec) {
  size_t cpu = vp_pick("cpu", 1, 2), bg = vp_pick("bg", 1, 3); std::atomic<int> started{0}, ended{0}, ran{0}; auto o = opt(cpu, bg); o.thread_started_callback = [&](std::string_view) { started++; }; o.thread_terminated_callback = [&](std::string_view) { ended++; };
  std::shared_ptr<TimerQueue> tq; std::shared_ptr<ex::Inline> in; std::shared_ptr<ex::ThreadPool> tp, bp; std::shared_ptr<ex::Thread> th; std::shared_ptr<ex::WorkerThread> wt; std::shared_ptr<ex::Manual> mn; int what = (int)vp_pick("what", 0, 5); bool done = false; plain::concurrency::Result<int> r;
  { Kernel k(o); tq = k.timer_queue(); in = k.inline_executor(); tp = k.thread_pool_executor(); bp = k.background_executor(); th = k.thread_executor(); wt = k.make_worker_thread_executor(); mn = k.make_manual_executor();
    vp_check(tq && in && tp && bp && th && wt && mn && tp != bp, "every executor is there"); vp_check(k.timer_queue() == tq && k.inline_executor() == in && k.thread_pool_executor() == tp && k.background_executor() == bp && k.thread_executor() == th, "and stays the same");
    vp_check(k.make_manual_executor() != mn, "made executors are new");
    vp_check(tp->max_concurrency_level() == (int)cpu && bp->max_concurrency_level() == (int)bg, "the pools have the sizes asked for"); vp_check(tp->max_worker_idle_time() == 5s && bp->max_worker_idle_time() == 7s, "and the waiting times"); vp_check(tq->max_worker_idle_time() == 9s, "so has the timer queue");
    vp_check(!tq->shutdown_requested() && !in->shutdown_requested() && !tp->shutdown_requested() && !bp->shutdown_requested() && !th->shutdown_requested() && !wt->shutdown_requested() && !mn->shutdown_requested(), "nothing is shut down while the kernel lives");
    auto f = [&] { ran++; return 7; };
    switch (what) { case 0: r = in->submit(f); break; case 1: r = tp->submit(f); break; case 2: r = bp->submit(f); break; case 3: r = th->submit(f); break; case 4: r = wt->submit(f); break; default: r = mn->submit(f); }
    if (what < 5 && vp_bool("wait")) { vp_check(r.get() == 7 && ran == 1, "a submitted task runs"); done = true; vp_reach("ran"); } }
  if (!done) { try { vp_check(r.get() == 7 && ran == 1, "value"); vp_reach("finished"); } catch (const std::runtime_error &) { vp_check(ran == 0, "a cancelled task has not run"); vp_reach("cancelled"); } }
  vp_check(tq->shutdown_requested() && in->shutdown_requested() && tp->shutdown_requested() && bp->shutdown_requested() && th->shutdown_requested() && wt->shutdown_requested() && mn->shutdown_requested(), "all are shut down with the kernel");
  vp_check(refuses(*in) && refuses(*tp) && refuses(*bp) && refuses(*th) && refuses(*wt) && refuses(*mn), "and refuse work"); vp_check(started == ended, "every thread of it has ended"); vp_reach("end");
}
// executors are made from several threads
VP_HARNESS(kernel_made) {
  std::shared_ptr<ex::WorkerThread> a; std::shared_ptr<ex::Manual> b; { Kernel k(opt(1, 1)); std::thread t([&] { a = k.make_worker_thread_executor(); }); b = k.make_manual_executor(); t.join(); vp_check(!a->shutdown_requested() && !b->shutdown_requested(), "usable"); }
  vp_check(a->shutdown_requested() && b->shutdown_requested(), "shut down with the kernel"); vp_reach("end");
}
static setting_t conf(const char *name) { setting_t s; s.mode = Mode::Epoll; s.default_count = 0; s.max_count = 1; s.name = name; s.address = "127.0.0.1:9"; return s; }
static std::shared_ptr<ex::Inline> inl() { return std::make_shared<ex::Inline>(); }
static bool adds(Kernel &k, std::shared_ptr<connection::Manager> m) { try { k.add(m); return true; } catch (const std::runtime_error &) { return false; } }
// registry against a model
VP_HARNESS(kernel_nets) {
  Kernel k(opt(1, 1)); static const char *nm[] = {"a", "ab", "b"}; std::shared_ptr<connection::Manager> m[4]; int in[3] = {-1, -1, -1}; for (int i = 0; i < 4; i++) m[i] = make_manager(conf(nm[i % 3]), inl());
  for (int s = 0; s < (int)vp_param("ops", 4); s++) {
    int op = (int)vp_pick("op", 0, 2), i = (int)vp_pick("net", 0, op == 2 ? 2 : 3), n = i % 3;
    if (op == 0) { bool ok = adds(k, m[i]); vp_check(ok == (in[n] < 0), "a name is taken by one network at a time"); if (ok) in[n] = i; vp_check(name(m[i]) == nm[n], "it keeps its name"); }
    else if (op == 1) { k.remove(m[i]); if (in[n] == i) in[n] = -1; }
    else { std::string t = std::string(nm[n]) + "bc"; k.remove_net(std::string_view(t.data(), strlen(nm[n]))); in[n] = -1; } }
  for (int n = 0; n < 3; n++) { auto p = make_manager(conf(nm[n]), inl()); vp_check(adds(k, p) == (in[n] < 0), "the registry holds exactly the networks added and not removed"); }
  vp_reach("end");
}
// networks without a name get one of their own
VP_HARNESS(kernel_unnamed) {
  Kernel k(opt(1, 1)); std::shared_ptr<connection::Manager> m[4]; for (auto &x : m) x = make_manager(conf(""), inl()); auto named = make_manager(conf(vp_bool("one") ? "unknown1" : "unknown2"), inl()); int at = (int)vp_pick("at", 0, 2);
  for (int i = 0; i < 2; i++) { if (at == i) vp_check(adds(k, named) == (i == 0 || name(m[0]) != name(named)), "a free name can be taken, and only a free one"); vp_check(adds(k, m[i]), "a network without a name can always be added"); }
  std::thread t([&] { vp_check(adds(k, m[2]), "added"); }); vp_check(adds(k, m[3]), "added"); t.join();
  for (int i = 0; i < 4; i++) { vp_check(!name(m[i]).empty(), "it has a name"); for (int j = 0; j < i; j++) vp_check(name(m[i]) != name(m[j]), "names differ"); if (at == 0) vp_check(name(m[i]) != name(named), "names differ"); auto d = make_manager(conf(name(m[i]).c_str()), inl()); vp_check(!adds(k, d), "the name is registered"); }
  vp_reach("end");
}
VP_HARNESS(kernel_nets_threads) {
  Kernel k(opt(1, 1)); auto a = make_manager(conf("a"), inl()), b = make_manager(conf("a"), inl()), c = make_manager(conf("c"), inl()); int what = (int)vp_pick("what", 0, 1); bool ra = false, rb = false;
  vp_check(adds(k, c), "added"); std::thread t([&] { ra = adds(k, a); }); if (what) k.remove(c); else k.remove_net("c"); rb = adds(k, b); t.join(); vp_check(ra != rb, "exactly one of two networks of a name is added"); vp_check(adds(k, c), "the removed name is free"); vp_reach("end");
}
// a second network of a running network's name cannot start and does no harm
VP_HARNESS(kernel_same_name) {
  int st = 0, f = -1, got = 0; auto s = conf("t"); Listener l(s, inl()); l.set_dispatcher([&](connection::Basic *, std::shared_ptr<packet::Basic>) { got++; return true; }); auto p = std::make_shared<packet::Basic>(); p->set_id(9); p->set_writeable(true); p->write((const std::byte *)"x", 1); auto ok = stream::encode(p);
  script = [&](epoll_event *e) -> int { switch (st++) { case 0: f = incoming(); return ev_listen(e); case 1: feed(f, ok.data(), ok.size()); return ev_read(e, f); } return 0; };
  vp_check(l.start(), "start"); { Listener m(s, inl()); bool r = false; try { r = m.start(); } catch (const std::runtime_error &) {} vp_check(!r, "the name is taken"); }
  wait_finished(); vp_check(got == 1, "the first works on"); l.stop(); auto n = make_manager(s, inl()); vp_check(adds(*ENGINE, n), "a stopped network frees its name"); vp_reach("end");
}
// ---- console ----
static bytes_t txt(const std::string &s) { return bytes_t((const std::byte *)s.data(), s.size()); }
static std::string sent(int f) { return std::string((const char *)fd[f].tx, fd[f].txlen); }
static std::mutex gm; static std::condition_variable gc; static int gate;
static void open_gate(int g) { std::unique_lock<std::mutex> l(gm); gate |= g; gc.notify_all(); }
static void pass_gate(int g) { std::unique_lock<std::mutex> l(gm); gc.wait(l, [&] { return gate & g; }); }
// the words of a line reach the handler of its first word; the reply goes back as one line
static void reg(Kernel &k, std::string_view c, console_func f, std::string_view d = {}) { ENGINE->register_console_handler(c, f, d); k.register_console_handler(c, f, d); }
static std::vector<std::string> words(const std::string &t) { std::vector<std::string> w; std::string cur; for (char c : t) if (c == ' ') { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += c; if (!cur.empty()) w.push_back(cur); return w; }
// sends the lines and then one that tells when they have been handled; calls between are left to the handlers
struct Session {
  std::string all; int f = -1, st = 0; size_t at = 0, cut; bool ended = false; Kernel k{opt(1, 1)};
  explicit Session(std::string lines, size_t c = 0) : all(std::move(lines) + "end\n"), cut(c ? c : all.size()) {
    after_send = [this] { Sock &k = fd[f]; if (k.txlen >= 5 && !memcmp(k.tx + k.txlen - 5, "bye\r\n", 5)) open_gate(2); }; after_close = [this](int x) { if (x == f) open_gate(1); }; reg(k, "end", [this](const std::vector<std::string> &) { ended = true; open_gate(1); return std::string("bye"); });
    script = [this](epoll_event *e) -> int { if (st++ == 0) { f = incoming(); return ev_listen(e); } if (at < all.size() && fd[f].open) { size_t n = at + cut > all.size() ? all.size() - at : cut; feed(f, all.data() + at, n); at += n; if (ev_read(e, f)) return 1; } return 0; }; }
  bool start() { return k.enable_console("127.0.0.1:9"); }
  std::string out() { pass_gate(1); if (ended) pass_gate(2); wait_finished(); return std::string((const char *)fd[f].tx, fd[f].txlen); }
};
// the words of a line reach the handler of its first word; the reply goes back as one line
VP_HARNESS(console_words) {
  size_t n = vp_pick("n", 0, (uint64_t)vp_param("bytes", 4)); static const char alpha[] = {' ', 'x', 'y', '\r'}; std::string line(n, ' '); for (auto &c : line) c = alpha[vp_pick("c", 0, 3)];
  std::string text = line; if (!text.empty() && text.back() == '\r') text.pop_back(); auto w = words(text); bool mine = !w.empty() && w[0] == "x", yx = !w.empty() && w[0] == "yx"; bool reply = vp_pick("reply", 0, mine ? 1 : 0);
  int calls = 0, other = 0; std::vector<std::string> args; 
  { Session s(line + "\n", vp_pick("cut", 0, 1)); reg(s.k, "x", [&](const std::vector<std::string> &) { vp_check(false, "a replaced handler does not run"); return std::string(); });
    reg(s.k, "x", [&](const std::vector<std::string> &a) { calls++; args = a; return reply ? std::string("done") : std::string(); }); reg(s.k, std::string_view("yx!", 2), [&](const std::vector<std::string> &a) { other++; args = a; return std::string("other"); });
    vp_check(s.start(), "the console starts"); vp_check(!s.k.enable_console("127.0.0.1:9"), "once"); auto out = s.out(); bool lives = mine || yx || w.empty();
    vp_check(calls == (mine ? 1 : 0) && other == (yx ? 1 : 0), "exactly the named handler runs, once"); if (mine || yx) { w.erase(w.begin()); vp_check(args == w, "with the words of the line"); }
    vp_check(s.ended == lives && fd[s.f].open == lives, "an unknown command ends the session and nothing else does"); if (lives) vp_check(out == std::string(mine && reply ? "done\r\n" : yx ? "other\r\n" : "") + "bye\r\n", "its answer is sent as one line"); }
  vp_reach(mine ? "mine" : yx ? "yx" : "none");
}
// the listing shows the networks that are there
VP_HARNESS(console_list) {
  { int n = (int)vp_pick("nets", 0, 2); auto c = make_manager(conf("gone"), inl()); ENGINE->add(c); c.reset(); std::vector<std::shared_ptr<connection::Manager>> m; for (int i = 0; i < n; i++) { m.push_back(make_manager(conf(i ? "n2" : "n1"), inl())); ENGINE->add(m.back()); } auto r = make_manager(conf("rem"), inl()); ENGINE->add(r); ENGINE->remove(r);
    Session s("list\n"); vp_check(s.start(), "start"); auto o = s.out(); vp_check(o.find("Total: ") == 0, "the total comes first"); vp_check((o.find("\tn1 ") != o.npos) == (n > 0) && (o.find("\tn2 ") != o.npos) == (n > 1), "every network is listed"); vp_check(o.find("\tconsole count: 1 maxcount:") != o.npos, "so is the console, with its connections"); vp_check(o.find("gone") == o.npos && o.find("rem") == o.npos, "what ended or was removed is not"); }
  vp_reach("end");
}
VP_HARNESS(console_help) {
  { int w = (int)vp_pick("what", 0, 3); Session s(w == 0 ? "help\n" : w == 1 ? "help zz list nope\n" : w == 2 ? "help nope\n" : "help zz zz\n"); reg(s.k, "zz", [](const std::vector<std::string> &) { return std::string(); }, "old"); reg(s.k, "zz", [](const std::vector<std::string> &) { return std::string(); }, std::string_view("what zz doesXX", 12)); vp_check(s.start(), "start"); auto o = s.out();
    auto has = [&](const char *t) { return o.find(t) != o.npos; }; const char *zz = "zz\twhat zz does\r\n";
    if (w == 0) vp_check(has(zz) && has("list\t") && has("kill\t") && has("killall\t") && has("help\t") && !has("old"), "all commands are described"); else if (w == 1) vp_check(o.find("zz\twhat zz does\r\nlist\tShow net list\r\n") == 0, "the named ones are described, in order"); else if (w == 2) vp_check(o == "bye\r\n", "nothing to describe"); else vp_check(o.find("zz\twhat zz does\r\nzz\twhat zz does\r\n") == 0, "each"); }
  vp_reach("end");
}
// kill stops exactly the networks named
VP_HARNESS(console_kill) {
  { int w = (int)vp_pick("what", 0, 4); static const char *cmd[] = {"kill n1\n", "kill n1 n2\n", "kill nope n2\n", "kill console\n", "kill console n1\n"}; main_ep = -1; Listener a(conf("n1"), inl()), b(conf("n2"), inl()); vp_check(a.start() && b.start(), "start");
    Session s(cmd[w]); vp_check(s.start(), "start"); set_main(last_ep); auto o = s.out();
    bool k1 = w == 0 || w == 1 || w == 4, k2 = w == 1 || w == 2; vp_check(a.running() == !k1 && b.running() == !k2, "exactly the networks named are stopped"); vp_check(fd[s.f].open, "the console goes on"); static const char *ans[] = {"ok\r\n", "ok\r\n", "nope fails\r\n", "console fails\r\n", "console fails\r\n"}; vp_check(o.find(ans[w]) == 0, "the answer names what could not be stopped"); }
  vp_reach("end");
}
// ending every network leaves the console
VP_HARNESS(console_killall) {
  { bool bare = vp_pick("bare", 0, 1); main_ep = -1; Listener a(conf("n1"), inl()), b(conf("a1"), inl()); vp_check(a.start() && b.start(), "start"); Session s(bare ? "kill\n" : "killall\n"); vp_check(s.start(), "start"); set_main(last_ep); s.out(); vp_check(!a.running() && !b.running(), "every network is stopped"); vp_check(s.ended && fd[s.f].open, "the console goes on"); }
  vp_reach("end");
}
// a failed start can be repeated
VP_HARNESS(console_fail) {
  { Session s(""); bind_fails = true; vp_check(!s.start(), "no console without an address"); bind_fails = false; vp_check(s.start(), "it can be enabled later"); vp_check(s.out() == "bye\r\n", "and works"); } vp_reach("end");
}
// handlers are registered while commands arrive
VP_HARNESS(console_race) {
  { int old = 0, neu = 0; Session s(vp_pick("help", 0, 1) ? "help\n" : "x\n"); reg(s.k, "x", [&](const std::vector<std::string> &) { old++; return std::string("o"); }, "first"); vp_check(s.start(), "start"); s.k.register_console_handler("w", [](const std::vector<std::string> &) { return std::string(); }); ENGINE->register_console_handler("x", [&](const std::vector<std::string> &) { neu++; return std::string("n"); }, "second"); s.out(); vp_check(s.ended && old + neu <= 1, "one of them runs"); vp_reach("end"); }
}
// work for a kernel that does not run is refused, never silently dropped
VP_HARNESS(kernel_idle) {
  auto o = opt(1, 1); alignas(Kernel) static unsigned char raw[sizeof(Kernel)]; vp_symbolic(raw, sizeof raw, "memory"); auto *k = new (raw) Kernel(o); int ran = 0; bool refused = false;
  try { auto f = k->enqueue([&] { ran++; }); (void)f; } catch (const std::runtime_error &) { refused = true; } vp_check(refused && ran == 0, "work is refused");
  refused = false; try { k->newthread("t", [&] { ran++; }); } catch (const std::runtime_error &) { refused = true; } vp_check(refused && ran == 0, "so is a thread"); k->~Kernel(); vp_reach("end");
}
