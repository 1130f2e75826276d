#include "vp.h"
#include <chrono>
#include <memory>
#include <thread>
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/result/basic.h"
#include "plain/concurrency/result/generator.h"
#include "plain/concurrency/result/lazy.h"
#include "plain/concurrency/result/make.h"
#include "plain/concurrency/result/promise.h"
#include "plain/concurrency/result/shared.h"
#include "plain/concurrency/result/when.h"
using namespace plain; using namespace plain::concurrency;
using namespace std::chrono_literals;
namespace {
using Box = std::unique_ptr<int>;  // a leak, double delivery or double destruction shows up on the heap
struct Boom { int v; };
struct Out { int kind = 0; int v = 0; };  // 1 value, 2 exception of ours, 3 broken promise, 4 nothing
Out caught(std::exception_ptr e) {
  try { std::rethrow_exception(e); }
  catch (Boom &b) { return {2, b.v}; }
  catch (std::exception &) { return {3, 0}; }
  catch (...) { return {9, 0}; }
}
void produce(ResultPromise<Box> &p, int how, int v) {
  if (how == 0) p.set_result(std::make_unique<int>(v));
  else if (how == 1) p.set_exception(std::make_exception_ptr(Boom{v}));
  else if (how == 2) { ResultPromise<Box> gone(std::move(p)); }
  else if (how == 3) p.set_from_function([v]() -> Box { return std::make_unique<int>(v); });
  else if (how == 4) p.set_from_function([v]() -> Box { throw Boom{v}; });
}
Out want(int how, int v) { return how == 0 || how == 3 ? Out{1, v} : how == 1 || how == 4 ? Out{2, v} : Out{3, 0}; }
void same(Out a, Out b) { vp_check(a.kind == b.kind, "kind of outcome"); vp_check(a.v == b.v, "delivered value"); }
Out take(Result<Box> &r) { try { Box b = r.get(); vp_check(bool(b), "value object"); return {1, *b}; } catch (...) { return caught(std::current_exception()); } }
Result<int> aw(Result<Box> r, Out &o, int &resumed) {
  try { Box b = co_await r; ++resumed; vp_check(bool(b), "value object"); o = {1, *b}; }
  catch (...) { ++resumed; o = caught(std::current_exception()); }
  vp_check(!r, "awaited result is empty");
  co_return 1;
}
Result<int> rs(Result<Box> r, Out &o, int &resumed) {
  Result<Box> q = co_await r.resolve(); ++resumed;
  vp_check(bool(q), "resolved result is not empty"); vp_check(q.status() != ResultStatus::Idle, "resolved result is ready");
  o = take(q); co_return 1;
}
}  // namespace

VP_HARNESS(res_get) {
  ResultPromise<int> p; auto r = p.get_result(); int v = vp_i32("v");
  std::thread t([&, p = std::move(p)]() mutable { p.set_result(v); });
  int g = r.get(); vp_check(g == v, "value"); vp_check(!r, "empty after get");
  t.join(); vp_reach("end");
}
static Result<int> co(Result<int> r) { int x = co_await r; co_return x + 1; }
VP_HARNESS(res_await) {
  ResultPromise<int> p; int v = vp_i32("v"); auto c = co(p.get_result());
  std::thread t([&, p = std::move(p)]() mutable { p.set_result(v); });
  int g = c.get(); vp_check(g == (int)((unsigned)v + 1), "value");
  t.join(); vp_reach("end");
}
VP_HARNESS(res_await2) {
  ResultPromise<int> p; int v = vp_i32("v"); auto r = p.get_result();
  std::thread t([&, p = std::move(p)]() mutable { p.set_result(v); });
  auto c = co(std::move(r));
  int g = c.get(); vp_check(g == (int)((unsigned)v + 1), "value");
  t.join(); vp_reach("end");
}
// every way to produce against every way to consume, concurrently
VP_HARNESS(res_any) {
  int64_t base = vp_live_allocs();
  {
    int v = vp_i32("v"); int how = (int)vp_pick("how", 0, 4), use = (int)vp_pick("use", 0, 6);
    ResultPromise<Box> p; auto r = p.get_result();
    std::thread t([&] { produce(p, how, v); });
    Out o; int resumed = 0;
    if (use == 0) o = take(r);
    else if (use == 1) { r.wait(); vp_check(r.status() != ResultStatus::Idle, "ready after wait"); o = take(r); }
    else if (use == 2) {
      auto s = r.wait_for(1ms);
      if (s == ResultStatus::Idle) { vp_reach("timed_out"); s = r.wait_for(1ms); }
      if (s != ResultStatus::Idle) vp_check((s == ResultStatus::Value) == (how == 0 || how == 3), "reported status");
      o = take(r);
    } else if (use == 3) { auto c = aw(std::move(r), o, resumed); c.get(); vp_check(resumed == 1, "resumed once"); }
    else if (use == 4) { auto c = rs(std::move(r), o, resumed); c.get(); vp_check(resumed == 1, "resumed once"); }
    else if (use == 5) { Result<Box> gone(std::move(r)); o = want(how, v); vp_reach("dropped"); }
    else { if (r.status() != ResultStatus::Idle) vp_reach("polled"); Result<Box> m; m = std::move(r); vp_check(!r && m, "moved"); o = take(m); }
    if (use != 5) { same(o, want(how, v)); vp_check(!r, "consumed result is empty"); }
    t.join();
    vp_check(!p, "used promise is empty");
    vp_reach(how == 2 ? "broken" : "end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// await first, then drop the awaiting side's result, production decides when it resumes
VP_HARNESS(res_chain) {
  int64_t base = vp_live_allocs();
  {
    int v = vp_i32("v"); int how = (int)vp_pick("how", 0, 4); bool keep = vp_pick("keep", 0, 1);
    ResultPromise<Box> p; Out o; int resumed = 0;
    {
      auto c = aw(p.get_result(), o, resumed);
      vp_check(resumed == 0, "suspended until produced");
      if (keep) {
        std::thread t([&] { produce(p, how, v); });
        vp_check(c.get() == 1, "outer value"); same(o, want(how, v)); t.join();
      }
    }
    if (!keep) { produce(p, how, v); same(o, want(how, v)); }
    vp_check(resumed == 1, "resumed exactly once");
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
VP_HARNESS(res_types) {
  int64_t base = vp_live_allocs();
  {
    int v = vp_i32("v"); bool ex = vp_pick("ex", 0, 1); int k = (int)vp_pick("type", 0, 4);
    auto out = [&](auto f) { try { f(); return 1; } catch (Boom &b) { vp_check(b.v == v, "exception value"); return 2; } };
    int got = 0;
    if (k == 0) { ResultPromise<void> p; auto r = p.get_result(); std::thread t([&] { if (ex) p.set_exception(std::make_exception_ptr(Boom{v})); else p.set_result(); }); got = out([&] { r.get(); }); t.join(); }
    else if (k == 1) { int x = v; ResultPromise<int &> p; auto r = p.get_result(); std::thread t([&] { if (ex) p.set_exception(std::make_exception_ptr(Boom{v})); else p.set_result(x); });
      got = out([&] { int &y = r.get(); vp_check(&y == &x, "the same object"); }); t.join(); }
    else if (k == 2) { auto r = ex ? result::make_exceptional<int>(Boom{v}) : result::make_ready<int>(v); vp_check(r.status() == (ex ? ResultStatus::Exception : ResultStatus::Value), "ready at once"); got = out([&] { vp_check(r.get() == v, "value"); }); }
    else if (k == 3) { auto r = ex ? result::make_exceptional<void>(std::make_exception_ptr(Boom{v})) : result::make_ready<void>(); got = out([&] { r.get(); }); }
    else {
      auto f = [&]() -> Result<int> { if (ex) throw Boom{v}; co_return v; };
      auto r = f(); got = out([&] { vp_check(r.get() == v, "value"); });
    }
    vp_check(got == (ex ? 2 : 1), "kind of outcome");
    // misuse is reported, not executed
    Result<int> e; int refused = 0;
    try { e.get(); } catch (std::runtime_error &) { ++refused; }
    try { (void)e.status(); } catch (std::runtime_error &) { ++refused; }
    ResultPromise<int> q; auto r1 = q.get_result();
    try { auto r2 = q.get_result(); } catch (std::runtime_error &) { ++refused; }
    q.set_result(1);
    try { q.set_result(2); } catch (std::runtime_error &) { ++refused; }
    vp_check(refused == 4, "misuse throws"); vp_check(r1.get() == 1, "first value kept");
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// a promise replaced by assignment breaks its old task
VP_HARNESS(res_promise_assign) {
  int64_t base = vp_live_allocs();
  {
    int v = vp_i32("v"); bool taken = vp_pick("taken", 0, 1);
    ResultPromise<Box> a, b; Result<Box> ra; if (taken) ra = a.get_result();
    auto rb = b.get_result();
    a = std::move(b); vp_check(bool(a) && !b, "moved");
    if (taken) same(take(ra), Out{3, 0});
    a.set_result(std::make_unique<int>(v)); same(take(rb), Out{1, v});
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}

// ---- shared results
namespace {
Out peek(result::Shared<Box> &s) { try { Box &b = s.get(); vp_check(bool(b), "value object"); return {1, *b}; } catch (...) { return caught(std::current_exception()); } }
Result<void> saw(result::Shared<Box> s, Out &o, int &n) {
  try { Box &b = co_await s; ++n; o = {1, *b}; } catch (...) { ++n; o = caught(std::current_exception()); }
}
Result<void> srs(result::Shared<Box> s, Out &o, int &n) {
  auto q = co_await s.resolve(); ++n; vp_check(q.status() != ResultStatus::Idle, "resolved is ready"); o = peek(q);
}
void consume_shared(result::Shared<Box> s, int use, int how, int v) {
  Out o; int n = 0;
  if (use == 0) o = peek(s);
  else if (use == 1) { auto c = saw(s, o, n); c.get(); vp_check(n == 1, "resumed once"); }
  else if (use == 2) { auto c = srs(std::move(s), o, n); c.get(); vp_check(n == 1, "resumed once"); }
  else if (use == 3) { auto st = s.wait_for(1ms); if (st == ResultStatus::Idle) vp_reach("timed_out"); o = peek(s); }
  else { s.wait(); o = peek(s); same(o, want(how, v)); o = peek(s); }
  same(o, want(how, v));
}
}  // namespace
VP_HARNESS(shared_two) {
  int64_t base = vp_live_allocs();
  {
    int v = vp_i32("v"); int how = (int)vp_pick("how", 0, 2), u1 = (int)vp_pick("use1", 0, 4), u2 = (int)vp_pick("use2", 0, 4);
    ResultPromise<Box> p; result::Shared<Box> s(p.get_result());
    std::thread c2([s, how, u2, v]() mutable { consume_shared(std::move(s), u2, how, v); });
    std::thread t([&] { produce(p, how, v); });
    consume_shared(std::move(s), u1, how, v);
    c2.join(); t.join();
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
VP_HARNESS(shared_one) {
  int64_t base = vp_live_allocs();
  {
    int v = vp_i32("v"); int how = (int)vp_pick("how", 0, 2), u1 = (int)vp_pick("use1", 0, 5);
    ResultPromise<Box> p; auto r = p.get_result();
    std::thread t([&] { produce(p, how, v); });
    result::Shared<Box> s(std::move(r)); vp_check(!r && s, "moved in");
    if (u1 < 5) consume_shared(std::move(s), u1, how, v);
    else { s = result::Shared<Box>(); vp_reach("dropped"); }
    t.join();
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// several awaiters on one thread are resumed in the order they came, each once
VP_HARNESS(shared_order) {
  int64_t base = vp_live_allocs();
  {
    int v = vp_i32("v"); int n = (int)vp_pick("n", 0, 3); bool drop = vp_pick("drop", 0, 1);
    ResultPromise<Box> p; result::Shared<Box> s(p.get_result());
    Out o[3]; int cnt[3] = {}, order[4], k = 0;
    auto f = [&](result::Shared<Box> q, int i) -> Result<void> { Box &b = co_await q; o[i] = {1, *b}; ++cnt[i]; order[k++] = i; };
    for (int i = 0; i < n; ++i) f(s, i);
    if (drop) s = result::Shared<Box>();
    p.set_result(std::make_unique<int>(v));
    vp_check(k == n, "every awaiter resumed");
    for (int i = 0; i < n; ++i) { same(o[i], Out{1, v}); vp_check(cnt[i] == 1 && order[i] == i, "in order, once"); }
    if (!drop) { auto q = s; same(peek(s), Out{1, v}); vp_check(&q.get() == &s.get(), "one object"); f(s, 0); vp_check(cnt[0] == (n ? 2 : 1), "late awaiter runs at once"); }
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}

// ---- when_all / when_any
VP_HARNESS(when_all_two) {
  int64_t base = vp_live_allocs();
  {
    auto ex = std::make_shared<executor::Inline>();
    int v = vp_i32("v"); int h1 = (int)vp_pick("h1", 0, 2), h2 = (int)vp_pick("h2", 0, 2); bool vec = vp_pick("vec", 0, 1);
    ResultPromise<Box> p1, p2; auto r1 = p1.get_result(), r2 = p2.get_result();
    std::thread t1([&] { produce(p1, h1, v); }), t2([&] { produce(p2, h2, ~v); });
    if (vec) {
      std::vector<Result<Box>> l; l.push_back(std::move(r1)); l.push_back(std::move(r2));
      auto all = result::when_all(ex, l.begin(), l.end()).run().get();
      vp_check(all.size() == 2, "size");
      for (auto &r : all) vp_check(r.status() != ResultStatus::Idle, "all are ready");
      same(take(all[0]), want(h1, v)); same(take(all[1]), want(h2, ~v));
    } else {
      auto all = result::when_all(ex, std::move(r1), std::move(r2)).run().get();
      vp_check(std::get<0>(all).status() != ResultStatus::Idle && std::get<1>(all).status() != ResultStatus::Idle, "all are ready");
      same(take(std::get<0>(all)), want(h1, v)); same(take(std::get<1>(all)), want(h2, ~v));
    }
    t1.join(); t2.join(); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
VP_HARNESS(when_any_two) {
  int64_t base = vp_live_allocs();
  {
    auto ex = std::make_shared<executor::Inline>();
    int v = vp_i32("v"); int h1 = (int)vp_pick("h1", 0, 2), h2 = (int)vp_pick("h2", 0, 3); bool vec = vp_pick("vec", 0, 1), drop = vp_pick("drop", 0, 1);
    ResultPromise<Box> p1, p2; auto r1 = p1.get_result(), r2 = p2.get_result();
    std::thread t1([&] { produce(p1, h1, v); });
    std::thread t2; if (h2 < 3) t2 = std::thread([&] { produce(p2, h2, ~v); });
    size_t idx; Result<Box> a, b;
    if (vec) {
      std::vector<Result<Box>> l; l.push_back(std::move(r1)); l.push_back(std::move(r2));
      auto any = result::when_any(ex, l.begin(), l.end()).run().get();
      idx = any.index; vp_check(any.results.size() == 2, "size"); vp_check(idx < 2, "index in range");
      a = std::move(any.results[0]); b = std::move(any.results[1]);
    } else {
      auto any = result::when_any(ex, std::move(r1), std::move(r2)).run().get();
      idx = any.index; vp_check(idx < 2, "index in range");
      a = std::move(std::get<0>(any.results)); b = std::move(std::get<1>(any.results));
    }
    vp_check((idx ? b : a).status() != ResultStatus::Idle, "the reported result is ready");
    if (h2 == 3) { vp_check(idx == 0, "only the first can be ready"); vp_check(b.status() == ResultStatus::Idle, "the other is pending"); vp_reach("pending"); }
    if (!drop) {
      same(take(a), want(h1, v));
      if (h2 == 3) produce(p2, 0, ~v);
      same(take(b), want(h2 == 3 ? 0 : h2, ~v));
    } else { a = Result<Box>(); b = Result<Box>(); }
    t1.join(); if (h2 < 3) t2.join();
    vp_reach(idx ? "second" : "first"); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// whoever waits continues on the given executor, and nothing is lost if that executor is shut down; bad arguments are refused and leave the results alone
namespace { template <typename L> Result<void> await_on(L lz, bool &on, bool &done, bool &stopped) {
  try { auto x = co_await lz; (void)x; vp_check(on, "continues on the given executor"); done = true; } catch (std::runtime_error &) { stopped = true; } } }
VP_HARNESS(when_resume) {
  int64_t base = vp_live_allocs();
  {
    auto ex = std::make_shared<executor::Manual>(); int v = vp_i32("v"); int form = (int)vp_pick("form", 0, 3), early = (int)vp_pick("early", 0, 2), bad = (int)vp_pick("bad", 0, 3);
    ResultPromise<Box> p1, p2; Result<Box> r1 = p1.get_result(), r2 = p2.get_result(); bool on = false, done = false, stopped = false;
    auto go = [&](auto lz) { return await_on(std::move(lz), on, done, stopped); };
    if (bad == 1 || bad == 2) {
      int threw = 0; Result<Box> none; std::shared_ptr<executor::Manual> noex;
      try {
        if (form == 0) { if (bad == 1) (void)result::when_all(ex, std::move(r1), std::move(none)); else (void)result::when_all(noex, std::move(r1), std::move(r2)); }
        else if (form == 1) { if (bad == 1) (void)result::when_any(ex, std::move(r1), std::move(none)); else (void)result::when_any(noex, std::move(r1), std::move(r2)); }
        else { std::vector<Result<Box>> l; if (bad == 1) l.push_back(std::move(none)); if (form == 2) (void)result::when_all(bad == 1 ? ex : noex, l.begin(), l.end()); else (void)result::when_any(bad == 1 ? ex : noex, l.begin(), l.end()); }
      } catch (std::exception &) { threw = 1; }
      vp_check(threw == 1, "refused"); vp_check(bool(r1), "left alone"); produce(p1, 0, v); same(take(r1), Out{1, v}); vp_reach("refused");
    } else {
      if (early) produce(p1, 0, v); if (early == 2) produce(p2, 0, ~v);
      std::vector<Result<Box>> l; Result<void> w;
      if (form == 0) w = go(result::when_all(ex, std::move(r1), std::move(r2)));
      else if (form == 1) w = go(result::when_any(ex, std::move(r1), std::move(r2)));
      else { l.push_back(std::move(r1)); l.push_back(std::move(r2)); if (form == 2) w = go(result::when_all(ex, l.begin(), l.end())); else w = go(result::when_any(ex, l.begin(), l.end())); }
      vp_check(!done && !stopped, "not yet");
      if (early < 1) produce(p1, 0, v); if (early < 2) { if (form == 0 || form == 2) vp_check(ex->empty(), "not all are ready"); produce(p2, 0, ~v); }
      vp_check(!done && ex->size() == 1, "waits for the executor");
      if (bad == 0) { on = true; vp_check(ex->loop(5) == 1 && done, "continues once"); on = false; } else { ex->shutdown(); vp_check(stopped && !done, "the waiting side learns of the shutdown"); vp_reach("down"); }
      vp_check(w.status() == ResultStatus::Value, "ended");
    }
    ex->shutdown(); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// any set of three results, some ready beforehand, one produced later, remaining ones waited for again
VP_HARNESS(when_any_three) {
  int64_t base = vp_live_allocs();
  {
    auto ex = std::make_shared<executor::Inline>();
    int v = vp_i32("v"); unsigned ready = (unsigned)vp_pick("ready", 0, 7); int first = (int)vp_pick("first", 0, 2);
    ResultPromise<Box> p[3]; std::vector<Result<Box>> l;
    for (auto &q : p) l.push_back(q.get_result());
    for (int i = 0; i < 3; ++i) if (ready >> i & 1) produce(p[i], 0, v + i);
    auto run = result::when_any(ex, l.begin(), l.end()).run();
    if (!ready) { vp_check(run.status() == ResultStatus::Idle, "waits for the first"); produce(p[first], 0, v + first); ready = 1u << first; }
    vp_check(run.status() == ResultStatus::Value, "completes with the first");
    auto any = run.get();
    vp_check(any.index < 3 && (ready >> any.index & 1), "index of a ready result");
    size_t a = any.index; auto rest = std::move(any.results); same(take(rest[a]), Out{1, (int)(v + a)});
    rest.erase(rest.begin() + (long)a);
    auto all = result::when_all(ex, rest.begin(), rest.end()).run();
    for (int i = 0; i < 3; ++i) if (!(ready >> i & 1)) { vp_check(all.status() == ResultStatus::Idle, "all waits for all"); produce(p[i], 0, v + i); }
    auto res = all.get(); vp_check(res.size() == 2, "size");
    for (int i = 0, j = 0; i < 3; ++i) if ((size_t)i != a) same(take(res[j++]), Out{1, v + i});
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}

// ---- lazy results and generators
namespace {
LazyResult<Box> lz(int &started, int v, bool ex) { ++started; if (ex) throw Boom{v}; co_return std::make_unique<int>(v); }
LazyResult<Box> lz2(int &started, int v, bool ex, Result<int> dep) { ++started; int d = co_await dep; if (ex) throw Boom{v}; co_return std::make_unique<int>((int)((unsigned)v + (unsigned)d)); }
Result<int> law(LazyResult<Box> l, Out &o) { try { Box b = co_await l; o = {1, *b}; } catch (...) { o = caught(std::current_exception()); } vp_check(!l, "awaited lazy is empty"); co_return 0; }
Result<int> lrs(LazyResult<Box> l, Out &o, int &started) {
  LazyResult<Box> q = co_await l.resolve(); vp_check(q && q.status() != ResultStatus::Idle, "resolved lazy is ready"); vp_check(started == 1, "ran once");
  try { Box b = co_await q; o = {1, *b}; } catch (...) { o = caught(std::current_exception()); } co_return 0;
}
result::Generator<int> gen(int n, int v, bool ex, int &alive) {
  struct G { int &a; G(int &x) : a(x) { ++a; } ~G() { --a; } } g(alive);
  auto owned = std::make_unique<int>(v);
  for (int i = 0; i < n; ++i) { int x = (int)((unsigned)*owned + (unsigned)i); co_yield x; vp_check(x == (int)((unsigned)v + (unsigned)i) , "value object kept while suspended"); }
  if (ex) throw Boom{v};
}
}  // namespace
VP_HARNESS(lazy_all) {
  int64_t base = vp_live_allocs();
  {
    int v = vp_i32("v"); bool ex = vp_pick("ex", 0, 1); int use = (int)vp_pick("use", 0, 4); bool dep = vp_pick("dep", 0, 1);
    int started = 0, d = vp_i32("d"); Out o; ResultPromise<int> p;
    LazyResult<Box> l = dep ? lz2(started, v, ex, p.get_result()) : lz(started, v, ex);
    vp_check(started == 0, "not started before it is awaited"); vp_check(l.status() == ResultStatus::Idle, "idle");
    int val = dep ? (int)((unsigned)v + (unsigned)d) : v;
    Out w = ex ? Out{2, v} : Out{1, val};
    if (use == 4) { LazyResult<Box> gone(std::move(l)); vp_check(!l && gone, "moved"); }
    else {
      std::thread t; if (dep) t = std::thread([&] { p.set_result(d); });
      if (use == 0) law(std::move(l), o).get();
      else if (use == 1) lrs(std::move(l), o, started).get();
      else if (use == 2) { auto r = l.run(); vp_check(!l, "run empties"); o = take(r); }
      else { LazyResult<Box> m; m = std::move(l); vp_check(!l && m, "moved"); law(std::move(m), o).get(); }
      same(o, w); vp_check(started == 1, "ran exactly once");
      if (dep) t.join();
    }
    if (use == 4) vp_check(started == 0, "a dropped lazy never runs");
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
VP_HARNESS(gen_all) {
  int64_t base = vp_live_allocs();
  {
    int v = vp_i32("v"); int n = (int)vp_pick("n", 0, 3), stop = (int)vp_pick("stop", 0, 4); bool ex = vp_pick("ex", 0, 1);
    int alive = 0, got = 0; bool threw = false;
    {
      auto g0 = gen(n, v, ex, alive); vp_check(alive == 0, "not started"); auto g = std::move(g0); vp_check(!g0 && g, "moved");
      if (stop) try {
        for (int x : g) { vp_check(alive == 1, "running"); vp_check(x == (int)((unsigned)v + (unsigned)got), "values in order"); if (++got == stop) break; }
      } catch (Boom &b) { threw = true; vp_check(b.v == v, "exception value"); }
      vp_check(got == (n < stop ? n : stop), "every value exactly once");
      vp_check(threw == (ex && n < stop), "an exception surfaces where it happened");
    }
    vp_check(alive == 0, "locals destroyed"); vp_reach(threw ? "threw" : "end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
