// Created threads, their status, the thread counter and the plain thread pool.
#include "vp.h"
#include <atomic>
#include <memory>
#include <string>
#include <thread>
#include "plain/sys/thread.h"
using namespace plain;
namespace {
std::atomic<int> names{0}; std::string lastname;
}
extern "C" int vp_i_setname(pthread_t, const char *n) noexcept asm("pthread_setname_np");
extern "C" int vp_i_setname(pthread_t, const char *n) noexcept { lastname = n; names++; return 0; }
// a thread runs its function, with its arguments, until it returns false; one without a result runs once
VP_HARNESS(thr_create) {
  int n = (int)vp_pick("rounds", 0, 3), kind = (int)vp_pick("kind", 0, 2); std::atomic<int> calls{0}, sum{0}; int arg = vp_i32("arg"), got = 0; int before = ThreadCollect::count();
  {
    thread_t t; { std::string nm = "worker-" + std::to_string(n); std::string_view v{nm}; if (vp_pick("part", 0, 1)) v.remove_suffix(2);
      if (kind == 0) t = thread::create(v, [&](int a) { got = a; return calls++ < n; }, arg);
      else if (kind == 1) t = thread::create(v, [&](int a, const std::string &p) { vp_check(p == "text", "the text arrives"); got = a; calls++; }, arg, std::string("text"));
      else t = thread::create(v, [&]() { got = arg; calls++; return 7; });
      nm.assign(nm.size(), '#'); vp_check(names == 1 && lastname == std::string(v.size() == 8 ? "worker-" + std::to_string(n) : "worker"), "the thread has its name"); }
    auto id = t.get_id(); vp_check(id != std::thread::id{}, "a thread is there"); t.join();
    vp_check(calls == (kind == 0 ? n + 1 : 1), "the function runs until it is done"); vp_check(got == arg, "the argument arrives");
    vp_check(ThreadStatus::Stopped == thread::get_status(id), "the thread is stopped");
  }
  vp_check(ThreadCollect::count() == before, "the thread is not counted any more"); vp_reach("end");
}
// a running thread can be stopped at any moment, and by itself
VP_HARNESS(thr_stop) {
  std::atomic<int> calls{0}; int how = (int)vp_pick("how", 0, 2); std::atomic<bool> stopped{false};
  auto t = thread::create("t", [&]() { calls++; if (how == 1) thread::stop(); std::this_thread::yield(); return true; });
  if (how == 0) { vp_check(thread::is_running(t) && !thread::is_stopping(t), "running"); thread::stop(t); vp_check(thread::is_stopping(t) && !thread::is_running(t), "stopped"); }
  if (how == 2) { while (!calls) std::this_thread::yield(); thread::stop(t); }
  t.join(); if (how == 1) vp_check(calls == 1, "stopped by itself"); if (how == 2) { vp_check(calls >= 1, "ran"); }
  int n = calls; std::this_thread::yield(); vp_check(n == calls, "nothing runs afterwards"); vp_reach("end");
}
// statuses of several threads do not affect each other
VP_HARNESS(thr_status) {
  int before = ThreadCollect::count();
  std::atomic<bool> go{false}; bool a = vp_pick("a", 0, 1), b = vp_pick("b", 0, 1); std::atomic<int> ca{0}, cb{0};
  vp_check(!thread::is_running() && !thread::is_stopping(), "not known yet"); thread::start(); vp_check(thread::is_running(), "running");
  auto x = thread::create("x", [&]() { ca++; vp_check(thread::is_running() || thread::is_stopping(), "known"); return false; });
  thread_t y; thread::start(y, [&]() { cb++; while (!go) std::this_thread::yield(); vp_check(thread::is_running() != b, "its own status"); });
  vp_check(thread::is_running(y), "running"); if (b) thread::stop(y); vp_check(thread::is_running(), "not affected"); if (a) thread::stop(); vp_check(thread::is_stopping() == a, "own status"); go = true; auto idy = y.get_id();
  x.join(); y.join(); vp_check(ca == 1 && cb == 1, "each runs once"); vp_check((ThreadStatus::Stopped == thread::get_status(idy)) == b, "its own status"); vp_check(ThreadCollect::count() == before, "no thread is counted any more"); vp_reach("end");
}
// every task given to the pool runs exactly once, also when it is destroyed at once, and its result or exception reaches its future
VP_HARNESS(thr_pool) {
  int64_t base = vp_live_allocs();
  {
    int n = (int)vp_pick("threads", 1, 2), tasks = (int)vp_param("tasks", 2), first = (int)vp_pick("wait", 0, 1), mode = (int)vp_pick("mode", 0, 2); int v = vp_i32("v"); std::atomic<int> runs[4]{}; std::vector<std::future<int>> f; auto me = std::this_thread::get_id();
    {
      ::plain::ThreadPool pool((size_t)n); std::thread other; std::future<void> fo;
      if (mode == 1) other = std::thread([&] { fo = pool.enqueue([&] { runs[3]++; }); });
      for (int i = 0; i < tasks; i++) f.push_back(pool.enqueue([&, i](int a) { vp_check(std::this_thread::get_id() != me, "on a thread of the pool"); runs[i]++; if (mode == 2 && i == 0) throw v; return a + i; }, v & 0xffff));
      if (first) { try { int r = f[0].get(); vp_check(mode != 2 && r == (v & 0xffff), "its result"); } catch (int e) { vp_check(mode == 2 && e == v, "its exception"); } vp_check(runs[0] == 1, "run"); }
      if (mode == 1) other.join();
    }
    for (int i = 0; i < tasks; i++) vp_check(runs[i] == 1, "every task runs once"); if (mode == 1) vp_check(runs[3] == 1, "every task runs once");
    for (int i = first; i < tasks; i++) { try { int r = f[i].get(); vp_check(r == (v & 0xffff) + i && !(mode == 2 && i == 0), "its result"); } catch (int e) { vp_check(mode == 2 && i == 0 && e == v, "its exception"); } }
  }
  vp_check(vp_live_allocs() == base, "nothing leaked"); vp_reach("end");
}
// one thread runs the tasks in the order they were given
VP_HARNESS(thr_pool_order) {
  std::vector<int> got; { ::plain::ThreadPool pool(1); for (int i = 0; i < 3; i++) pool.enqueue([&, i] { got.push_back(i); }); } vp_check(got == std::vector<int>({0, 1, 2}), "in order"); vp_reach("end");
}
