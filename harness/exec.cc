#include "vp.h"
#include "plain/basic/task_queue.h"
#include "plain/sys/thread.h"
#include <atomic>
#include <chrono>
#include <memory>
#include <thread>
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/executor/thread.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/concurrency/result/resume_on.h"
#include "plain/concurrency/task.h"
using namespace plain; using namespace plain::concurrency; using namespace plain::concurrency::executor;
using namespace std::chrono_literals;
namespace {
struct Boom { int v; };
// a callable that owns something: runs at most once, is destroyed exactly once
struct Track { std::atomic<int> ran{0}, live{0}; };
template <size_t Pad, bool NoexceptMove> struct Fn {
  Track *t; int boom; std::unique_ptr<int> own; unsigned char pad[Pad];
  Fn(Track *t, int boom) : t(t), boom(boom), own(new int(7)) { t->live.fetch_add(1); }
  Fn(Fn &&r) noexcept(NoexceptMove) : t(r.t), boom(r.boom), own(std::move(r.own)) { t->live.fetch_add(1); }
  ~Fn() { t->live.fetch_sub(1); }
  void operator()() { vp_check(own && *own == 7, "callable intact when it runs"); t->ran.fetch_add(1); if (boom) throw Boom{boom}; }
};
struct Triv { Track *t; void operator()() { t->ran.fetch_add(1); } };
struct alignas(32) Big { Track *t; std::unique_ptr<int> own; Big(Track *t) : t(t), own(new int(1)) {} void operator()() { vp_check((vp_concretize((uint64_t)(void *)this) & 31) == 0, "callable is suitably aligned"); t->ran.fetch_add(1); } };
Task mk(int kind, Track *t) {
  switch (kind) {
    case 0: return Task(Fn<1, true>(t, 0));      // stored inline
    case 1: return Task(Fn<80, true>(t, 0));     // allocated
    case 2: return Task(Fn<1, false>(t, 0));     // allocated: move may throw
    case 3: return Task(Triv{t});                // trivially copyable
    case 4: return Task(Fn<1, true>(t, 5));      // throws
    case 5: return Task(Fn<80, true>(t, 5));     // allocated and throws
    default: return Task(Big(t));                // over-aligned
  }
}
}  // namespace
VP_HARNESS(task_own) {
  int64_t base = vp_live_allocs();
  {
    int n = (int)vp_param("ops", 4); Track tr[2]; int ran[2] = {}; struct Hold { alignas(16) char shift[16]; Task slot[3]; }; auto hold = std::make_unique<Hold>(); auto &slot = hold->slot; int at[3] = {-1, -1, -1};
    int k0 = (int)vp_pick("kind0", 0, 6), k1 = (int)vp_pick("kind1", 0, 6); int kind[2] = {k0, k1};
    slot[0] = mk(k0, &tr[0]); at[0] = 0; slot[1] = mk(k1, &tr[1]); at[1] = 1;
    for (int i = 0; i < n; ++i) {
      int op = (int)vp_pick("op", 0, 2), x = (int)vp_pick("x", 0, 2);
      if (op == 0) {
        bool threw = false;
        try { slot[x](); } catch (Boom &b) { threw = true; vp_check(b.v == 5, "exception passes through"); }
        if (at[x] >= 0) { ++ran[at[x]]; vp_check(threw == (kind[at[x]] == 4 || kind[at[x]] == 5), "throws when the callable does"); } else vp_check(!threw, "empty task does nothing");
        at[x] = -1;
      } else if (op == 1) { int y = (x + 1 + (int)vp_pick("d", 0, 1)) % 3; slot[x] = std::move(slot[y]); at[x] = at[y]; at[y] = -1; }
      else { slot[x].clear(); at[x] = -1; }
      for (int j = 0; j < 3; ++j) vp_check(bool(slot[j]) == (at[j] >= 0), "task is empty exactly when nothing is stored");
      for (int j = 0; j < 2; ++j) {
        bool stored = at[0] == j || at[1] == j || at[2] == j;
        vp_check(tr[j].ran == ran[j], "runs when called, once");
        if (kind[j] != 3 && kind[j] != 6) vp_check(tr[j].live == (stored ? 1 : 0), "destroyed exactly when it leaves");
      }
    }
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}

// one callable of every storage class: sizes around the inline buffer, trivial or not, self-referential, a coroutine
namespace {
template <size_t N> struct Sized { Track *t; unsigned char fill[N - 8]; void operator()() { bool ok = true; for (unsigned char c : fill) ok = ok && c == 0x5a; vp_check(ok, "callable intact when it runs"); t->ran.fetch_add(1); } };
struct SelfRef { Track *t; SelfRef *me; SelfRef(Track *t) : t(t), me(this) {} SelfRef(const SelfRef &r) noexcept : t(r.t), me(this) {} void operator()() { vp_check(me == this, "callable intact when it runs"); t->ran.fetch_add(1); } };
template <size_t N> Task sized(Track *t) { Sized<N> f; f.t = t; for (auto &c : f.fill) c = 0x5a; return Task(f); }
Task kinds(int k, Track *t) {
  switch (k) { case 0: return sized<16>(t); case 1: return sized<48>(t); case 2: return sized<56>(t); case 3: return sized<64>(t); case 4: return sized<72>(t); case 5: return sized<128>(t); case 6: return Task(SelfRef(t)); case 7: return Task(Fn<24, true>(t, 0)); case 8: return Task(Fn<32, true>(t, 0)); case 9: return Task(Fn<40, true>(t, 0)); default: return Task(Fn<40, false>(t, 5)); }
}
}  // namespace
VP_HARNESS(task_kinds) {
  int64_t base = vp_live_allocs();
  {
    int n = (int)vp_param("ops", 4), k = (int)vp_pick("kind", 0, 10); Track tr; struct Hold { char c[8]; Task slot[2]; }; auto h = std::make_unique<Hold>(); auto &slot = h->slot; int at = 0, ran = 0;
    slot[0] = kinds(k, &tr);
    for (int i = 0; i < n; ++i) {
      int op = (int)vp_pick("op", 0, 4);
      if (op == 0) { int x = (int)vp_pick("x", 0, 1); try { slot[x](); } catch (Boom &) {} if (at == x) { ++ran; at = -1; } }
      else if (op == 1) { if (at >= 0) { slot[1 - at] = std::move(slot[at]); at = 1 - at; } }
      else if (op == 2) { Task &s = slot[at < 0 ? 0 : at]; Task *q = &s; s = std::move(*q); }      // onto itself
      else if (op == 3) { if (at >= 0) { Task t2(std::move(slot[at])); vp_check(!slot[at] && bool(t2), "moved along"); slot[1 - at] = std::move(t2); at = 1 - at; } }
      else { if (at >= 0) slot[at].clear(); at = -1; }
      vp_check(bool(slot[0]) == (at == 0) && bool(slot[1]) == (at == 1), "task is empty exactly when nothing is stored"); vp_check(tr.ran == ran, "runs when called, once");
      if (k >= 7) vp_check(tr.live == (at >= 0), "destroyed exactly when it leaves");
    }
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// ---- all executors: what is accepted runs exactly once, results and exceptions arrive, what is dropped fails
namespace {
thread_local int tl_where = 0;   // which executor this thread belongs to
int outcome(Result<int> &r) {    // value, or -1000 - boom, or -1 for an interrupted task
  try { return r.get(); } catch (Boom &b) { return -1000 - b.v; } catch (std::runtime_error &) { return -1; }
}
struct Arg { int v; Arg(int v) : v(v) {} Arg(Arg &&) = default; Arg(const Arg &) = default; };
template <typename E> void misc(E &ex, int v, bool boom) {
  int seen = 0; std::atomic<int> runs{0};
  (void)seen;
  auto r = ex.submit([&](int a, Arg b) { runs++; if (boom) throw Boom{3}; return a + b.v; }, v, Arg(1));
  if constexpr (std::is_same_v<E, Manual>) { vp_check(runs == 0, "runs only when driven"); vp_check(ex.loop(10) == 1, "one task executed"); }
  vp_check(outcome(r) == (boom ? -1003 : (int)((unsigned)v + 1u)), "submitted call's outcome"); vp_check(runs == 1, "ran once");
}
}  // namespace
VP_HARNESS(ex_inline) {
  int64_t base = vp_live_allocs();
  {
    Inline ex; int v = vp_i32("v"); vp_assume(v < 0x7fffff00 && v > -0x7fffff00); bool boom = vp_pick("boom", 0, 1); int ran = 0;
    misc(ex, v, boom);
    ex.post([&](int a) { ++ran; vp_check(a == v, "argument"); if (boom) throw Boom{1}; }, v); vp_check(ran == 1, "runs at once");
    std::function<int()> fs[2] = {[&] { ++ran; return v; }, [&]() -> int { ++ran; throw Boom{4}; }};
    auto rs = ex.bulk_submit(std::span<std::function<int()>>(fs)); vp_check(ran == 3 && rs.size() == 2, "bulk runs all");
    vp_check(outcome(rs[0]) == v && outcome(rs[1]) == -1004, "bulk outcomes");
    auto co = [&]() -> Result<int> { co_await result::resume_on(ex); ++ran; co_return v; };
    auto r = co(); vp_check(ran == 4 && outcome(r) == v, "coroutine continues on the executor");
    ex.shutdown(); vp_check(ex.shutdown_requested(), "shut down");
    int refused = 0; try { ex.post([&] { ++ran; }); } catch (std::runtime_error &) { ++refused; }
    auto r2 = ex.submit([&] { ++ran; return 1; }); vp_check(outcome(r2) == -1, "submit after shutdown fails");
    auto r3 = co(); vp_check(outcome(r3) == -1, "resume after shutdown fails");
    vp_check(refused == 1 && ran == 4, "nothing runs after shutdown");
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
VP_HARNESS(man_ops) {
  int64_t base = vp_live_allocs();
  {
    Manual ex; int n = (int)vp_param("ops", 4); int posted = 0, next = 0, end = 0; bool down = false; int order = 0;
    Result<int> res[8]; int state[8] = {};   // 0 queued 1 ran 2 dropped
    for (int i = 0; i < n; ++i) {
      int op = (int)vp_pick("op", 0, 7); bool threw = false; size_t k = 0;
      auto qn = (size_t)(end - next);
      try {
        if (op == 0) { int id = posted; auto r = ex.submit([&, id] { vp_check(id == order, "first in, first out"); ++order; state[id] = 1; if (id & 1) throw Boom{id}; return id; }); res[posted++] = std::move(r); if (!down) ++end; else state[id] = 2, next = end = posted, order = posted; }
        else if (op == 1) k = ex.loop_once();
        else if (op == 2) k = ex.loop((size_t)vp_pick("max", 0, 2));
        else if (op == 3) k = ex.loop_for(2, 1ms);
        else if (op == 4) { k = ex.clear(); vp_check(k == qn, "clear reports what it dropped"); for (; next < end; ++next) state[next] = 2; order = next; }
        else if (op == 5) { ex.shutdown(); down = true; for (; next < end; ++next) state[next] = 2; order = next; }
        else if (op == 6) { bool b = ex.wait_for_task_for(1ms); vp_check(b == (qn > 0), "wait_for_task_for tells whether a task is there"); }
        else { size_t c = ex.wait_for_tasks_for(2, 1ms); vp_check(c == qn, "wait_for_tasks_for reports the queue"); }
      } catch (std::runtime_error &) { threw = true; }
      if (op >= 1 && op != 5) {
        bool zero = op == 2 && !threw && down;  // loop(0) never throws
        vp_check(threw == (down && !zero), "using it after shutdown is refused");
      }
      if (op >= 1 && op <= 3 && !threw) {
        size_t ranNow = (size_t)(order - next); vp_check(k == ranNow, "loop reports what it ran"); vp_check(ranNow <= qn, "no more than queued");
        if (op == 1) vp_check(ranNow == (qn ? 1 : 0), "loop_once runs one"); if (op == 3) vp_check(ranNow == (qn < 2 ? qn : 2), "loop_for runs what is there");
        next = order;
      }
      vp_check(ex.size() == (down ? 0u : (size_t)(end - next)) && ex.empty() == (ex.size() == 0), "size");
    }
    ex.shutdown(); for (; next < end; ++next) state[next] = 2;
    for (int i = 0; i < posted; ++i) { int o = outcome(res[i]); vp_check(o == (state[i] == 2 ? -1 : i & 1 ? -1000 - i : i), "each result tells what happened to its task"); }
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
VP_HARNESS(man_threads) {
  int64_t base = vp_live_allocs();
  {
    Manual ex; int how = (int)vp_pick("how", 0, 5); int ran = 0;
    std::thread t([&] { ex.post([&] { vp_check(ran == 0, "first"); ++ran; }); if (how == 5) ex.shutdown(); else ex.post([&] { vp_check(ran == 1, "second"); ++ran; }); });
    size_t got = 0;
    if (how == 0) { ex.wait_for_tasks(2); vp_check(ex.size() == 2, "two are there"); got = ex.loop(5); vp_check(got == 2, "both"); }
    else if (how == 1) { ex.wait_for_task(); vp_check(!ex.empty(), "one is there"); while (ran < 2) { ex.wait_for_task(); ex.loop_once(); } }
    else if (how == 2) { while (ran < 2) { bool b = ex.wait_for_task_for(1ms); if (!b) vp_reach("timed_out"); else vp_check(!ex.empty(), "true means a task is there"); ex.loop_once(); } }
    else if (how == 3) { got = ex.loop_for(2, 5ms); if (got < 2) vp_reach("timed_out"); vp_check(got == (size_t)ran, "count of executed"); while (ran < 2) ex.wait_for_task(), ex.loop(1); }
    else if (how == 4) { auto t0 = vp_clock_now(); size_t c = ex.wait_for_tasks_for(2, 1ms); vp_check(c <= 2, "queue length"); vp_check(c == 2 || vp_clock_now() - t0 >= 1000000, "fewer than asked for only when the time is up"); while (ran < 2) ex.wait_for_task(), ex.loop(2); }
    else { bool thrown = false; try { ex.wait_for_tasks(2); } catch (std::runtime_error &) { thrown = true; } vp_check(thrown, "a blocked waiter learns of the shutdown"); vp_reach("down"); }
    t.join(); vp_check(how == 5 ? ran == 0 : ran == 2, "each task exactly once");
    ex.shutdown(); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// waiters that want different numbers of tasks, and clear() against everything else
VP_HARNESS(man_waiters) {
  int64_t base = vp_live_allocs();
  {
    Manual ex; int ran = 0; size_t want = (size_t)vp_pick("want", 1, 2); bool bulk = vp_pick("bulk", 0, 1);
    std::thread w([&] { ex.wait_for_tasks(want); }), p([&] {
      if (bulk) { std::function<void()> fs[2] = {[&] { ++ran; }, [&] { ++ran; }}; ex.bulk_post(std::span<std::function<void()>>(fs)); }
      else { ex.post([&] { ++ran; }); ex.post([&] { ++ran; }); } });
    ex.wait_for_tasks(3 - want); w.join(); p.join();
    vp_check(ex.loop(9) == 2 && ran == 2, "each task exactly once"); ex.shutdown(); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
VP_HARNESS(man_clear) {
  int64_t base = vp_live_allocs();
  {
    Manual ex; int how = (int)vp_pick("how", 0, 2); std::atomic<int> ran{0}; size_t looped = 0, cleared = 0; bool down = false;
    Result<int> r[3]; r[0] = ex.submit([&] { ran++; return 1; }); r[1] = ex.submit([&] { ran++; return 1; }); int n = 2;
    std::thread t([&] { if (how == 0) { r[2] = ex.submit([&] { ran++; return 1; }); } else if (how == 1) looped = ex.loop(2); else ex.shutdown(); });
    try { cleared = ex.clear(); } catch (std::runtime_error &) { down = true; }
    t.join(); if (how == 0) n = 3; vp_check(!down || how == 2, "refused only after shutdown");
    if (how < 2) { vp_check(ex.size() + cleared + looped == (size_t)n, "every task is run, dropped or waiting"); ex.loop(9); } vp_check((int)looped <= ran, "count of executed");
    ex.shutdown(); int ok = 0; for (int i = 0; i < n; ++i) { int o = outcome(r[i]); vp_check(o == 1 || o == -1, "a value or an interruption"); ok += o == 1; }
    vp_check(ok == ran && (how == 2 ? ok == 0 : (size_t)ok + cleared == (size_t)n), "a dropped task is interrupted, the others ran"); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// ---- worker thread
// what a task gives to its own worker runs in the order given, after it
VP_HARNESS(wt_nested) {
  int64_t base = vp_live_allocs();
  {
    WorkerThread ex; int order[9], k = 0; int n = (int)vp_pick("ops", 1, 3), kind[3]; for (int i = 0; i < n; ++i) kind[i] = (int)vp_pick("kind", 1, 3);
    auto r = ex.submit([&] {
      int id = 0;
      for (int i = 0; i < n; ++i) {
        if (kind[i] == 1) { ex.post([&, id] { order[k++] = id; }); id++; }
        else { std::function<void()> fs[3]; for (int j = 0; j < kind[i]; ++j, ++id) fs[j] = [&, id] { order[k++] = id; }; ex.bulk_post(std::span<std::function<void()>>(fs, (size_t)kind[i])); }
      }
      vp_check(k == 0, "after the running task");
      return ex.submit([&, id] { vp_check(k == id, "all ran"); for (int i = 0; i < k; ++i) vp_check(order[i] == i, "in the order given"); return 1; }); });
    Result<int> in = r.get(); vp_check(outcome(in) == 1, "outcome"); ex.shutdown(); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
VP_HARNESS(wt_order) {
  int64_t base = vp_live_allocs();
  {
    std::atomic<int> started{0}, ended{0}, inner{0}; int seq = 0, a = -1, b = -1;
    WorkerThread ex([&](std::string_view) { tl_where = 1; started++; }, [&](std::string_view) { ended++; });
    bool bulk = vp_pick("bulk", 0, 1), two = vp_pick("two", 0, 1); Result<int> in; int other = -1;
    auto first = [&]() -> int { vp_check(tl_where == 1, "runs on the worker"); a = seq++; ex.post([&] { vp_check(tl_where == 1, "runs on the worker"); inner++; }); return 1; };
    auto second = [&]() -> int { vp_check(tl_where == 1, "runs on the worker"); b = seq++; return 2; };
    std::thread t; Result<int> rt;
    if (two) t = std::thread([&] { rt = ex.submit([&] { other = seq++; return 3; }); });
    Result<int> r1, r2;
    if (bulk) { std::function<int()> fs[2] = {first, second}; auto rs = ex.bulk_submit(std::span<std::function<int()>>(fs)); r1 = std::move(rs[0]); r2 = std::move(rs[1]); }
    else { r1 = ex.submit(first); r2 = ex.submit(second); }
    vp_check(outcome(r1) == 1 && outcome(r2) == 2, "outcomes");
    if (two) { t.join(); vp_check(outcome(rt) == 3, "outcome of the other producer"); }
    auto last = ex.submit([&] { return (int)inner; }); 
    // the inner task was posted while its parent ran, so one more round trip passes it
    int i1 = outcome(last); if (!i1) { auto again = ex.submit([&] { return (int)inner; }); i1 = outcome(again); }
    vp_check(i1 == 1, "a task posted by a task runs exactly once");
    vp_check(a < b, "one producer's tasks run in order"); if (two) vp_check(other >= 0, "ran");
    ex.shutdown(); vp_check(started == 1 && ended == 1, "one thread, started and ended once");
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
namespace {
// producers race with shutdown: whatever was accepted either ran once or is reported as interrupted
template <typename E> void shut(E &ex, bool bulk) {
  std::atomic<int> ran{0}; int ok = 0, broken = 0;
  {
    std::thread t([&] { ex.shutdown(); });
    Result<int> r1, r2; bool threw = false;
    if (bulk) {
      std::function<int()> fs[2] = {[&] { ran++; return 1; }, [&] { ran++; return 1; }};
      try { auto rs = ex.bulk_submit(std::span<std::function<int()>>(fs)); r1 = std::move(rs[0]); r2 = std::move(rs[1]); } catch (std::runtime_error &) { threw = true; }
    } else { r1 = ex.submit([&] { ran++; return 1; }); r2 = ex.submit([&] { ran++; return 1; }); }
    for (Result<int> *r : {&r1, &r2}) { if (threw) { ++broken; continue; } int o = outcome(*r); if (o == 1) ++ok; else { vp_check(o == -1, "interrupted"); ++broken; } }
    t.join();
  }
  vp_check(ex.shutdown_requested(), "shut down"); if (!bulk) vp_check(ran == ok, "a reported value means the task ran, an interruption that it did not");
  int refused = 0; try { ex.post([&] { ran = 100; }); } catch (std::runtime_error &) { ++refused; }
  vp_check(refused == 1 && ran <= 2, "refused after shutdown");
  ex.shutdown();
  if (ok) vp_reach("ran"); if (broken) vp_reach("interrupted");
  vp_reach("end");
}
}  // namespace
VP_HARNESS(wt_shutdown) { int64_t base = vp_live_allocs(); { WorkerThread ex; shut(ex, vp_pick("bulk", 0, 1)); } vp_check(vp_live_allocs() == base, "nothing leaked"); }
VP_HARNESS(wt_self) {   // a task posts to its own executor while it is being shut down
  int64_t base = vp_live_allocs();
  {
    WorkerThread ex; std::atomic<int> outer{0}, in{0}, refused{0};
    ex.post([&] { outer++; bool ok = true; try { ex.post([&] { in++; }); } catch (std::runtime_error &) { ok = false; refused++; } (void)ok; });
    ex.shutdown();
    vp_check(outer <= 1 && in + refused <= outer, "accepted or refused, never both"); if (in) vp_reach("inner"); if (refused) vp_reach("refused");
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// ---- one thread per task
VP_HARNESS(th_run) {
  int64_t base = vp_live_allocs();
  {
    std::atomic<int> started{0}, ended{0}, ran{0}; bool wait = vp_pick("wait", 0, 1), inner = vp_pick("inner", 0, 1);
    {
      executor::Thread ex([&](std::string_view) { started++; }, [&](std::string_view) { ended++; });
      auto r1 = ex.submit([&] { ran++; return 1; });
      std::function<void()> f = [&] { if (inner) try { ex.post([&] { ran++; }); } catch (std::runtime_error &) { ran++; } ran++; };
      ex.post(f);
      if (wait) vp_check(outcome(r1) == 1, "outcome");
      ex.shutdown();
      if (!wait) vp_check(outcome(r1) == 1, "outcome"); 
      vp_check(ran == (inner ? 3 : 2), "every task ran before shutdown returned"); vp_check(started == ended && started >= 2, "threads ended");
      bool refused = false; try { ex.post([&] { ran++; }); } catch (std::runtime_error &) { refused = true; } vp_check(refused, "refused after shutdown");
    }
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
VP_HARNESS(th_shutdown) { int64_t base = vp_live_allocs(); { executor::Thread ex; shut(ex, vp_pick("bulk", 0, 1)); } vp_check(vp_live_allocs() == base, "nothing leaked"); }
// ---- thread pool
VP_HARNESS(tp_run) {
  int64_t base = vp_live_allocs();
  {
    int n = (int)vp_param("workers", 2); std::atomic<int> inner{0}, started{0}, ended{0};
    executor::ThreadPool ex("tp", (size_t)n, 1000ms, [&](std::string_view) { tl_where = 2; started++; }, [&](std::string_view) { ended++; });
    vp_check(ex.max_concurrency_level() == n && ex.max_worker_idle_time() == 1000ms, "configuration is reported");
    int boom = (int)vp_pick("boom", 0, 1);
    auto r1 = ex.submit([&] { vp_check(tl_where == 2, "runs on a worker"); auto in = ex.submit([&] { vp_check(tl_where == 2, "runs on a worker"); inner++; return 5; }); return in; });
    auto r2 = ex.submit([&]() -> int { vp_check(tl_where == 2, "runs on a worker"); if (boom) throw Boom{2}; return 2; });
    vp_check(outcome(r2) == (boom ? -1002 : 2), "outcome");
    Result<int> in = r1.get(); vp_check(outcome(in) == 5 && inner == 1, "a task submitted by a task runs once");
    ex.shutdown(); vp_check(started == ended && started >= 1, "workers ended"); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
VP_HARNESS(tp_bulk) {
  int64_t base = vp_live_allocs();
  {
    int n = (int)vp_param("workers", 2), k = (int)vp_param("tasks", 0); if (!k) k = (int)vp_pick("tasks", 1, 4); bool self = vp_pick("from_worker", 0, 1); std::atomic<int> ran[4]{};
    executor::ThreadPool ex("tp", (size_t)n, 1000ms);
    auto go = [&] {
      std::vector<std::function<int()>> fs; for (int i = 0; i < k; ++i) fs.push_back([&, i] { ran[i]++; return 10 + i; });
      return ex.bulk_submit(std::span<std::function<int()>>(fs.data(), fs.size()));
    };
    std::vector<Result<int>> rs;
    if (self) { auto r = ex.submit(go); rs = r.get(); } else rs = go();
    vp_check((int)rs.size() == k, "one result each");
    for (int i = 0; i < k; ++i) vp_check(outcome(rs[(size_t)i]) == 10 + i && ran[i] == 1, "each task ran exactly once and reports its own value");
    ex.shutdown(); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
VP_HARNESS(tp_idle) {   // workers end when idle and come back when needed
  int64_t base = vp_live_allocs();
  {
    int n = (int)vp_param("workers", 1), ran = 0; std::atomic<int> started{0};
    executor::ThreadPool ex("tp", (size_t)n, 10ms, [&](std::string_view) { started++; });
    for (int i = 0; i < (int)vp_param("tasks", 2); ++i) { auto r = ex.submit([&] { return ++ran; }); vp_check(outcome(r) == i + 1, "runs even if the worker was about to end"); }
    ex.shutdown(); if (started > n) vp_reach("restarted"); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
VP_HARNESS(tp_two) {    // two producers
  int64_t base = vp_live_allocs();
  {
    executor::ThreadPool ex("tp", (size_t)vp_param("workers", 1), 1000ms); int o = 0; std::atomic<int> ran{0};
    std::thread t([&] { auto r = ex.submit([&] { ran++; return 3; }); o = outcome(r); });
    auto r = ex.submit([&] { ran++; return 4; }); vp_check(outcome(r) == 4, "outcome"); t.join(); vp_check(o == 3 && ran == 2, "outcome of the other producer");
    ex.shutdown(); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
VP_HARNESS(tp_cross) {  // a worker of one pool uses another pool
  int64_t base = vp_live_allocs();
  {
    bool bulk = vp_pick("bulk", 0, 1); std::atomic<int> ran{0};
    executor::ThreadPool a("a", 1, 1000ms, [&](std::string_view) { tl_where = 3; }), b("b", 1, 1000ms, [&](std::string_view) { tl_where = 4; });
    auto r = a.submit([&] {
      vp_check(tl_where == 3, "runs on a");
      std::function<int()> fs[1] = {[&] { ran++; return tl_where; }};
      if (bulk) { auto v = b.bulk_submit(std::span<std::function<int()>>(fs)); return v[0].get(); }
      return b.submit(fs[0]).get();
    });
    vp_check(outcome(r) == 4 && ran == 1, "a task runs on the executor it was submitted to");
    a.shutdown(); b.shutdown(); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
VP_HARNESS(tp_shutdown) { int64_t base = vp_live_allocs(); { executor::ThreadPool ex("tp", (size_t)vp_param("workers", 1), 1000ms); shut(ex, vp_pick("bulk", 0, 1)); } vp_check(vp_live_allocs() == base, "nothing leaked"); }
VP_HARNESS(tp_self) {   // a task uses its own pool while it is being shut down
  int64_t base = vp_live_allocs();
  {
    executor::ThreadPool ex("tp", (size_t)vp_param("workers", 2), 1000ms); std::atomic<int> outer{0}, in{0}, refused{0};
    ex.post([&] { outer++; for (int i = 0; i < 2; ++i) try { ex.post([&] { in++; }); } catch (std::runtime_error &) { refused++; } });
    ex.shutdown();
    vp_check(outer <= 1 && in + refused <= 2 * outer, "accepted or refused, never both"); if (in) vp_reach("inner"); if (refused) vp_reach("refused");
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// ---- the plain pool and thread loop of sys/thread.h
VP_HARNESS(sp_run) {
  int64_t base = vp_live_allocs();
  {
    std::atomic<int> ran{0}; int v = vp_i32("v"), boom = (int)vp_pick("boom", 0, 1); bool early = vp_pick("early", 0, 1); std::future<int> f1, f2;
    {
      plain::ThreadPool p((size_t)vp_param("workers", 2));
      f1 = p.enqueue([&](int a) { ran++; return a; }, v); f2 = p.enqueue([&]() -> int { ran++; if (boom) throw Boom{6}; return 8; });
      if (early) vp_check(f1.get() == v, "value");
    }
    vp_check(ran == 2, "every accepted task ran before the pool was gone"); if (!early) vp_check(f1.get() == v, "value");
    int o = 0; try { o = f2.get(); } catch (Boom &b) { o = -b.v; } vp_check(o == (boom ? -6 : 8), "value or exception");
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// the pool is given tasks by its own tasks
VP_HARNESS(sp_nested) {
  int64_t base = vp_live_allocs();
  {
    std::atomic<int> ran{0}, seq{0}; int at[3] = {}; size_t workers = (size_t)vp_param("workers", 1); std::future<int> inner;
    {
      plain::ThreadPool p(workers); std::atomic<bool> given{false};
      auto f = p.enqueue([&] { inner = p.enqueue([&] { at[2] = ++seq; ran++; return 5; }); ran++; given = true; given.notify_all(); });
      auto g = p.enqueue([&] { at[0] = ++seq; ran++; }), h = p.enqueue([&] { at[1] = ++seq; ran++; });
      given.wait(false);
    }
    vp_check(ran == 4, "every accepted task ran before the pool was gone"); if (workers == 1) vp_check(at[0] < at[1], "first in, first out"); vp_check(inner.get() == 5, "value"); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// the task queue: one thread works, another one adds
VP_HARNESS(tkq_ops) {
  int64_t base = vp_live_allocs();
  {
    int n = 0, done = 0, order[8], k = 0; int ops = (int)vp_param("ops", 4); std::future<int> f[8]; int32_t v[8]; bool boom[8];
    {
      plain::TaskQueue q;
      for (int i = 0; i < ops; ++i) {
        int op = (int)vp_pick("op", 0, 2);
        if (op == 0) { v[n] = vp_i32("v"); boom[n] = vp_pick("boom", 0, 1); int id = n; f[n] = q.enqueue([&, id](int a) -> int { order[k++] = id; if (boom[id]) throw Boom{a}; return a; }, v[n]); ++n; }
        else if (op == 1) { q.work_one(); if (done < n) ++done; vp_check(k == done, "one task"); }
        else { q.work_all(); done = n; vp_check(k == done, "all tasks"); }
        for (int j = 0; j < n; ++j) vp_check((f[j].wait_for(std::chrono::seconds(0)) == std::future_status::ready) == (j < done), "a result is there exactly when its task has run");
      }
    }
    vp_check(k == n, "the rest runs at the end"); for (int j = 0; j < n; ++j) { vp_check(order[j] == j, "first in, first out"); int o = 0, ex = 0; try { o = f[j].get(); } catch (Boom &b) { o = b.v; ex = 1; } vp_check(o == v[j] && ex == boom[j], "value or exception"); }
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
VP_HARNESS(tkq_threads) {
  int64_t base = vp_live_allocs();
  {
    int ran = 0; std::atomic<int> given{0}; bool two = vp_pick("two", 0, 1);
    {
      plain::TaskQueue q; std::thread a([&] { q.enqueue([&] { ++ran; }); given++; }), b([&] { if (two) { q.enqueue([&] { ++ran; q.enqueue([&] { ++ran; }); }); given += 2; } });
      q.work_one(); q.work_all(); a.join(); b.join(); q.work_all();
    }
    vp_check(ran == given, "every task ran once"); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
