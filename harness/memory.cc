#include "vp.h"
#include <algorithm>
#include <atomic>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
#include "plain/sys/memory/pool.h"
#include "plain/sys/memory/stack_allocator.h"
using namespace plain::memory;
namespace {
struct Block { unsigned char *p; size_t n; unsigned char tag; };
void fill(Block &b) { for (size_t i = 0; i < b.n; ++i) b.p[i] = (unsigned char)(b.tag + i); }
void intact(const Block &b) { for (size_t i = 0; i < b.n; ++i) vp_check(b.p[i] == (unsigned char)(b.tag + i), "contents are kept while allocated"); }
}
// any history of allocations and releases in a tiny pool
template <class P, bool kOS> static void history() {
  int64_t base = vp_live_allocs();
  {
    P pool; Block live[6]; int n = 0; unsigned char tag = 1; int ops = (int)vp_param("ops", 4);
    static const size_t sizes[6] = {0, 1, 16, 33, 47, 200};
    for (int i = 0; i < ops; ++i) {
      if (vp_pick("alloc", 0, 1)) {
        if (n == 6) return;
        size_t want = sizes[vp_pick("size", 0, 5)]; Block b{nullptr, want, tag}; tag += 50; bool thrown = false;
        try { b.p = (unsigned char *)pool.malloc(want); } catch (std::range_error &) { thrown = true; }
        if (kOS) vp_check(b.p, "allocated"); else if (want == 200) vp_check(!b.p, "more than a leaf holds is refused");
        if (!b.p) { vp_reach("refused"); vp_check(thrown && n > 0 || want == 200, "an empty pool has room"); continue; }
        vp_check((uintptr_t)b.p % alignof(std::max_align_t) == 0, "aligned");
        for (int k = 0; k < n; ++k) vp_check(b.p >= live[k].p + live[k].n + (live[k].n == 0) || b.p + b.n + (b.n == 0) <= live[k].p, "allocations do not overlap");
        fill(b); live[n++] = b;
      } else if (n) {
        int k = (int)vp_pick("which", 0, n - 1); intact(live[k]); pool.free(live[k].p); live[k] = live[--n];
      }
      for (int k = 0; k < n; ++k) intact(live[k]);
    }
    while (n) { --n; intact(live[n]); pool.free(live[n].p); }
    // everything was returned: the whole pool is available again
    if (!kOS) { void *a = pool.malloc(60), *b = pool.malloc(60); vp_check(a && b && a != b, "released memory is used again"); pool.free(a); pool.free(b); }
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
VP_HARNESS(mem_history) { history<Pool<96, 2, 16, false>, false>(); }
VP_HARNESS(mem_history_os) { history<Pool<100, 2, 16>, true>(); }
// every requested size
VP_HARNESS(mem_size) {
  Pool<96, 2, 16, false> pool; Pool<96, 2, 16, false, false> quiet; uint64_t want = vp_u64("size");
  void *p = nullptr, *q = nullptr; bool thrown = false;
  try { p = pool.malloc(want); } catch (std::range_error &) { thrown = true; }
  q = quiet.malloc(want);
  vp_check((p != nullptr) == (want <= 80), "served exactly if a leaf can hold it"); vp_check(!(p && thrown), "either served or refused"); vp_check((q != nullptr) == (want <= 80), "served exactly if a leaf can hold it");
  if (p) { vp_reach("served"); if (want) { ((char *)p)[0] = 1; ((char *)p)[want - 1] = 2; } pool.free(p); quiet.free(q); } else vp_reach("refused");
}
// access checks for every offset and length
template <class P> static void access_all(size_t n, bool big) {
  P pool; auto *p = (unsigned char *)pool.malloc(n); auto *o = (unsigned char *)pool.malloc(8); vp_check(p && o, "allocated");
  uint64_t off = vp_u64("offset"), len = vp_u64("length"); vp_assume(off + 4096 < 8192);   // around the allocation
  bool in = (int64_t)off >= 0 && off <= n && len <= n - off, ok = false, thrown = false;
  try { ok = pool.check_access(p, (void *)((uintptr_t)p + off), len); } catch (std::range_error &) { thrown = true; }
  vp_check(ok == in && thrown == !in, "granted exactly inside of the allocation"); if (in) vp_reach("inside"); else vp_reach("outside");
  pool.free(p); pool.free(o); (void)big;
}
VP_HARNESS(mem_access) { if (vp_pick("os", 0, 1)) access_all<Pool<96, 2, 16>>(200, true); else access_all<Pool<96, 2, 16>>(20, false); }
// allocations of others, and allocations released twice, are refused and change nothing
VP_HARNESS(mem_foreign) {
  int64_t base = vp_live_allocs();
  {
    Pool<96, 2, 16> a, b; size_t n = vp_pick("os", 0, 1) ? 200 : 20; Block x{(unsigned char *)a.malloc(n), n, 3}; fill(x); int what = (int)vp_pick("what", 0, 3), thrown = 0;
    if (what == 0 && n == 20) { try { b.free(x.p); } catch (std::range_error &) { ++thrown; } vp_check(thrown == 1, "another pool's allocation is refused"); try { b.check_access(x.p, x.p, 1); } catch (std::range_error &) { ++thrown; } vp_check(thrown == 2, "another pool's allocation is refused"); }
    else if (what == 1) { alignas(16) unsigned char mine[64]; for (int i = 0; i < 64; ++i) mine[i] = i < 16 ? vp_u8("byte") : (unsigned char)i; uint64_t tag; memcpy(&tag, mine, 8); vp_assume(tag != (uint64_t)&a && tag != (uint64_t)&a + 1 && tag != 1020071708); try { a.free(mine + 16); } catch (std::range_error &) { ++thrown; } vp_check(thrown == 1, "other memory is refused"); for (int i = 16; i < 64; ++i) vp_check(mine[i] == i, "other memory is unchanged"); }
    else if (what == 2 && n == 20) { void *y = a.malloc(8); a.free(y); try { a.free(y); } catch (std::range_error &) { ++thrown; } vp_check(thrown == 1, "a second release is refused"); }
    intact(x); a.free(x.p); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// threads allocate, use and release
VP_HARNESS(mem_threads) {
  int64_t base = vp_live_allocs();
  {
    Pool<96, 2, 16, false> pool; int what = (int)vp_pick("what", 0, 3); std::atomic<int> served{0}; Block keep{(unsigned char *)pool.malloc(16), 16, 90}; fill(keep);
    auto use = [&](size_t n, int rounds, unsigned char tag) { for (int r = 0; r < rounds; ++r) { Block b{nullptr, n, tag}; try { b.p = (unsigned char *)pool.malloc(n); } catch (std::range_error &) { continue; } served++; fill(b); intact(b); pool.free(b.p); } };
    std::thread t([&] { if (what == 0) use(16, 2, 1); else if (what == 1) use(60, 2, 1); else if (what == 2) { intact(keep); pool.free(keep.p); use(16, 1, 1); } else use(80, 1, 1); });
    if (what == 0) use(16, 2, 50); else if (what == 1) use(60, 1, 50); else if (what == 2) use(32, 2, 50); else { use(30, 1, 50); use(16, 1, 50); }
    t.join(); if (what != 2) { intact(keep); pool.free(keep.p); }
    if (what == 0) vp_check(served == 4, "there is room for all");
    Block a{(unsigned char *)pool.malloc(80), 80, 1}, b{(unsigned char *)pool.malloc(80), 80, 100}; fill(a); fill(b); intact(a); vp_check(a.p && b.p, "released memory is used again"); pool.free(a.p); pool.free(b.p); vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// as the allocator of containers
VP_HARNESS(mem_allocator) {
  int64_t base = vp_live_allocs();
  {
    using P = Pool<192, 2, 16>; P pool; int n = (int)vp_pick("n", 0, 9); int32_t v[9];
    { std::vector<int32_t, PoolAllocator<int32_t, P>> a{PoolAllocator<int32_t, P>(&pool)}; for (int i = 0; i < n; ++i) { v[i] = vp_i32("v"); a.push_back(v[i]); }
      auto b = a; b.push_back(1); auto c = std::move(b); vp_check((int)a.size() == n && (int)c.size() == n + 1, "sizes"); for (int i = 0; i < n; ++i) vp_check(a[i] == v[i] && c[i] == v[i], "elements"); a.clear(); a.shrink_to_fit(); }
    PoolAllocator<int64_t, P> al(&pool); bool thrown = false; try { (void)al.allocate((uint64_t)vp_pick("huge", 0, 1) ? SIZE_MAX / 4 : SIZE_MAX / 8 - 3); } catch (std::bad_alloc &) { thrown = true; } vp_check(thrown, "an impossible size is refused");
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
// the stack
VP_HARNESS(mem_stack) {
  int64_t base = vp_live_allocs();
  {
    StackAllocator<int32_t> s; StackAllocator<std::string> str; int32_t m[8]; int n = 0, ops = (int)vp_param("ops", 6);
    for (int i = 0; i < ops; ++i) {
      int op = (int)vp_pick("op", 0, 3); vp_check(s.empty() == (n == 0) && str.empty() == (n == 0), "empty");
      if (op == 0 && n < 8) { m[n] = vp_i32("v"); s.push(m[n]); str.push(std::string(20, (char)('a' + n))); ++n; }
      else if (op == 1 && n) { --n; vp_check(s.pop() == m[n], "last in, first out"); vp_check(str.pop() == std::string(20, (char)('a' + n)), "last in, first out"); }
      else if (op == 2 && n) { vp_check(s.top() == m[n - 1] && str.top()[0] == 'a' + n - 1, "top"); }
      else if (op == 3) { s.clear(); str.clear(); n = 0; }
    }
    vp_reach("end");
  }
  vp_check(vp_live_allocs() == base, "nothing leaked");
}
