#include "vp.h"
#include <atomic>
#include <chrono>
#include <memory>
#include <thread>
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/concurrency/result/lazy.h"
#include "plain/engine/timer.h"
#include "plain/engine/timer_queue.h"
using namespace plain; using namespace plain::concurrency; using namespace plain::concurrency::executor;
using namespace std::chrono_literals;
namespace {
int64_t ms(int64_t n) { return n * 1000000; }
void nap(int64_t n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
int due_of(const char *n) { static const int d[4] = {0, 3, 5, 9}; return d[vp_pick(n, 0, 3)]; }
}  // namespace
// any pair of timers, one-shot or periodic: never early, in time, in order, as often as they should
VP_HARNESS(tq_two) {
  int64_t base = vp_live_allocs();
  {
    auto ex = std::make_shared<Inline>(); std::atomic<int> started{0}, ended{0};
    auto q = std::make_shared<TimerQueue>(50ms, [&](std::string_view) { started++; }, [&](std::string_view) { ended++; });
    vp_check(q->max_worker_idle_time() == 50ms, "configuration is reported");
    int d[2] = {due_of("due0"), due_of("due1")}, f[2] = {(int)vp_pick("freq0", 0, 1) * 4, (int)vp_pick("freq1", 0, 1) * 7}; int n[2] = {}; int64_t last = 0, t0 = vp_clock_now();
    Timer t[2];
    for (int i = 0; i < 2; ++i) {
      auto fn = [&, i](int arg) {
        int64_t now = vp_clock_now(), want = t0 + ms(d[i]) + n[i] * ms(f[i]);
        vp_check(arg == i + 40, "argument"); vp_check(now >= want, "never early"); vp_check(now < want + ms(1), "in time"); vp_check(now >= last, "in order of their deadlines"); last = now; ++n[i];
      };
      t[i] = f[i] ? q->make_timer(std::chrono::milliseconds(d[i]), std::chrono::milliseconds(f[i]), ex, fn, i + 40) : q->make_one_shot_timer(std::chrono::milliseconds(d[i]), ex, fn, i + 40);
      vp_check(t[i].get_due_time() == std::chrono::milliseconds(d[i]) && t[i].get_frequency() == std::chrono::milliseconds(f[i]) && t[i].get_executor() == ex && t[i].get_timer_queue().lock() == q, "configuration is reported");
    }
    nap(15); q->shutdown();
    for (int i = 0; i < 2; ++i) vp_check(n[i] == (f[i] ? (14 - d[i]) / f[i] + 1 : 1), "as often as it should");
    vp_check(started == ended && started >= 1, "thread ended"); vp_check(q->shutdown_requested(), "shut down");
    bool refused = false; try { t[0] = q->make_one_shot_timer(1ms, ex, [] {}); } catch (std::runtime_error &) { refused = true; } vp_check(refused, "refused after shutdown");
    int bad = 0; try { (void)q->make_timer(1ms, 1ms, std::shared_ptr<Inline>{}, [] {}); } catch (std::invalid_argument &) { ++bad; } try { (void)q->make_one_shot_timer(1ms, std::shared_ptr<Inline>{}, [] {}); } catch (std::invalid_argument &) { ++bad; } vp_check(bad == 2, "an executor is required");
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// cancelling, by call, destruction or assignment, before or after the due time, and changing the frequency
VP_HARNESS(tq_cancel) {
  int64_t base = vp_live_allocs();
  {
    auto ex = std::make_shared<Manual>(); auto q = std::make_shared<TimerQueue>(50ms); int n = 0, m = 0; int how = (int)vp_pick("how", 0, 4), before = (int)vp_pick("before", 0, 1); bool oneshot = vp_pick("oneshot", 0, 1);
    {
      Timer other = q->make_one_shot_timer(20ms, ex, [&] { ++m; });
      Timer t = oneshot ? q->make_one_shot_timer(4ms, ex, [&] { ++n; }) : q->make_timer(4ms, 4ms, ex, [&] { ++n; });
      vp_check(bool(t), "active");
      nap(before ? 2 : 6);                     // in the second case it has been queued for execution
      if (how == 0) { t.cancel(); vp_check(!t, "empty after cancel"); t.cancel(); int thrown = 0; try { t.get_due_time(); } catch (std::runtime_error &) { ++thrown; } vp_check(thrown == 1, "empty timer is reported"); }
      else if (how == 1) { Timer gone(std::move(t)); vp_check(!t && gone, "moved"); }
      else if (how == 2) { t = Timer(); }
      else if (how == 3) { if (!oneshot) t.set_frequency(9ms); }
      else { t = std::move(t); Timer u; u = std::move(t); t = std::move(u); }
      nap(before ? 13 : 9);                    // until 15
      size_t k = ex->loop(100);
      int queued = how < 3 ? (before ? 0 : 1) : oneshot ? 1 : how == 3 ? 2 : 3;   // 4 13 with the new frequency, 4 8 12 otherwise
      vp_check((int)k == queued, "queued as often as it should"); vp_check(n == (how < 3 ? 0 : queued), "a cancelled timer does not run any more");
      nap(10); ex->loop(100); vp_check(m == 1, "other timers are not affected");
      if (how < 3) vp_check(n == 0, "a cancelled timer does not run any more");
    }
    q->shutdown(); ex->shutdown(); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// a timer is added, fires and is cancelled while its worker may be ending for lack of timers
VP_HARNESS(tq_idle) {
  int64_t base = vp_live_allocs();
  {
    auto ex = std::make_shared<Inline>(); std::atomic<int> n{0}, started{0}; auto q = std::make_shared<TimerQueue>(5ms, [&](std::string_view) { started++; });
    bool cancel = vp_pick("cancel", 0, 1);
    { Timer t = q->make_one_shot_timer(1ms, ex, [&] { n++; n.notify_all(); }); if (!cancel) n.wait(0); }
    Timer u = q->make_one_shot_timer(1ms, ex, [&] { n += 2; n.notify_all(); });
    for (int v = n; v < 2; v = n) n.wait(v);
    vp_check(cancel ? n == 2 || n == 3 : n == 3, "each fired once"); if (started > 1) vp_reach("restarted");
    q->shutdown(); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// shutting down the queue or the executor while timers fire or are made
VP_HARNESS(tq_down) {
  int64_t base = vp_live_allocs();
  {
    int what = (int)vp_pick("what", 0, 2); std::atomic<int> n{0}; bool accepted = true;
    auto ex = std::make_shared<Manual>(); auto q = std::make_shared<TimerQueue>(50ms);
    if (what == 0) {        // the executor goes away
      Timer t = q->make_timer(1ms, 2ms, ex, [&] { n++; }); nap(1); ex->shutdown(); nap(4); q->shutdown(); vp_check(n == 0, "nothing ran");
    } else if (what == 1) { // the queue goes away while another thread makes a timer
      Timer t; std::thread th([&] { try { t = q->make_one_shot_timer(0ms, ex, [&] { n++; }); } catch (std::runtime_error &) { accepted = false; vp_reach("refused"); } });
      q->shutdown(); th.join(); t.cancel(); vp_check(ex->loop(9) <= 1 && n == 0, "cancelled timer does not run"); if (accepted) vp_reach("accepted");
    } else {                // the last reference to the queue goes away while a timer exists
      Timer t = q->make_timer(1ms, 2ms, ex, [&] { n++; }); q.reset(); vp_check(t.get_timer_queue().expired(), "queue gone"); t.cancel(); ex->loop(9); vp_check(n == 0, "cancelled timer does not run");
    }
    ex->shutdown(); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// delay objects
VP_HARNESS(tq_delay) {
  int64_t base = vp_live_allocs();
  {
    int what = (int)vp_pick("what", 0, 4); auto ex = std::make_shared<Inline>(); auto man = std::make_shared<Manual>(); auto q = std::make_shared<TimerQueue>(50ms); int resumed = 0, failed = 0; int64_t at = -1; int d = due_of("due");
    auto co = [&](std::shared_ptr<executor::Basic> e) -> Result<int> {
      try { co_await q->make_delay_object(std::chrono::milliseconds(d), e); ++resumed; at = vp_clock_now(); } catch (std::runtime_error &) { ++failed; } co_return 7; };
    int64_t t0 = vp_clock_now();
    if (what == 0) { auto r = co(ex); vp_check(r.get() == 7, "continues"); vp_check(resumed == 1 && !failed && at >= t0 + ms(d), "after the delay, once"); }
    else if (what == 1) { auto r = co(man); man->wait_for_task(); vp_check(resumed == 0, "continues on the executor"); vp_check(man->loop(9) == 1 && resumed == 1 && r.get() == 7, "once"); vp_check(at >= t0 + ms(d), "not early"); }
    else if (what == 2) { q->shutdown(); auto r = co(ex); vp_check(r.get() == 7 && failed == 1 && !resumed, "a queue that is shut down fails the delay"); }
    else if (what == 3) { auto r = co(ex); q->shutdown(); vp_check(r.get() == 7 && failed + resumed == 1, "a queue that is shut down ends the delay"); }
    else { man->shutdown(); auto r = co(man); vp_check(r.get() == 7 && failed == 1 && !resumed, "an executor that is shut down fails the delay"); }
    vp_check(resumed + failed == 1, "continues exactly once"); q->shutdown(); man->shutdown(); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// timers made, changed and cancelled by timer callbacks
VP_HARNESS(tq_nested) {
  int64_t base = vp_live_allocs();
  {
    auto ex = std::make_shared<Inline>(); auto q = std::make_shared<TimerQueue>(50ms); int n = 0, in = 0; Timer t, u; int what = (int)vp_pick("what", 0, 2);
    std::mutex m;
    { std::unique_lock l(m); t = q->make_timer(2ms, 3ms, ex, [&] { std::unique_lock l(m); ++n; if (n == 1) { if (what == 0) t.cancel(); else if (what == 1) u = q->make_one_shot_timer(1ms, ex, [&] { ++in; }); else t.set_frequency(4ms); } }); }
    nap(10); q->shutdown();
    vp_check(what == 0 ? n == 1 : what == 1 ? n == 3 : n == 2 || n == 3, "runs as often as it should"); vp_check(in == (what == 1), "nested timer"); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// any set of timers, equal deadlines included, any of them cancelled: the others are not affected
VP_HARNESS(tq_set) {
  int64_t base = vp_live_allocs();
  {
    auto ex = std::make_shared<Inline>(); auto q = std::make_shared<TimerQueue>(50ms); int n[3] = {}, d[3]; bool per[3]; int64_t t0 = vp_clock_now(); Timer t[3]; unsigned gone = (unsigned)vp_pick("gone", 0, 7); bool late = vp_pick("late", 0, 1);
    for (int i = 0; i < 3; ++i) {
      d[i] = vp_pick("same", 0, 1) ? 6 : 9; per[i] = vp_pick("periodic", 0, 1);
      auto fn = [&, i] { int64_t now = vp_clock_now(), want = t0 + ms(d[i]) + n[i] * ms(6); vp_check(now >= want && now < want + ms(1), "when due"); ++n[i]; };
      t[i] = per[i] ? q->make_timer(std::chrono::milliseconds(d[i]), 6ms, ex, fn) : q->make_one_shot_timer(std::chrono::milliseconds(d[i]), ex, fn);
    }
    nap(late ? 10 : 2);
    for (int i = 0; i < 3; ++i) if (gone >> i & 1) { if (i == 1) t[i] = Timer(); else t[i].cancel(); }
    nap(late ? 9 : 17); q->shutdown();         // 19: due at 6, 12, 18 or 9, 15
    for (int i = 0; i < 3; ++i) vp_check(n[i] == (gone >> i & 1 ? (late ? 1 : 0) : !per[i] ? 1 : d[i] == 6 ? 3 : 2), "as often as it should");
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
