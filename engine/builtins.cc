#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/Demangle/Demangle.h>
using namespace llvm;
enum BI { B_symbolic, B_assume, B_check, B_reach, B_concretize, B_engine, B_fail, B_live, B_param, B_malloc, B_free, B_memcmp, B_throw, B_abort,
  B_tcreate, B_tjoin, B_tself, B_tdetach, B_mlock, B_mtrylock, B_munlock, B_cwait, B_cnotify, B_fwait, B_fwake, B_yield, B_sleep, B_clocknow, B_clockset, B_usable, B_ite, B_print,
  B_tfinished, B_prune, B_blocksize, B_is_sym, B_valid, B_threadsoff, B_mheld, B_memcpy, B_memset, B_nlive };
static const std::unordered_map<std::string, int> names = {
  {"vp_symbolic", B_symbolic}, {"vp_assume", B_assume}, {"vp_check", B_check}, {"vp_reach", B_reach}, {"vp_concretize", B_concretize},
  {"vp_engine", B_engine}, {"vp_fail", B_fail}, {"vp_live_allocs", B_live}, {"vp_param", B_param}, {"vp_i_malloc", B_malloc}, {"vp_i_free", B_free},
  {"memcmp", B_memcmp}, {"bcmp", B_memcmp}, {"vp_i_throw", B_throw}, {"vp_i_abort", B_abort},
  {"vp_i_thread_create", B_tcreate}, {"vp_i_thread_join", B_tjoin}, {"vp_i_thread_self", B_tself}, {"vp_i_thread_detach", B_tdetach},
  {"vp_i_mutex_lock", B_mlock}, {"vp_i_mutex_trylock", B_mtrylock}, {"vp_i_mutex_unlock", B_munlock}, {"vp_i_cond_wait", B_cwait}, {"vp_i_cond_notify", B_cnotify},
  {"vp_i_futex_wait", B_fwait}, {"vp_i_futex_wake", B_fwake}, {"vp_i_yield", B_yield}, {"vp_i_sleep", B_sleep}, {"vp_i_clock_now", B_clocknow}, {"vp_i_clock_set", B_clockset},
  {"vp_i_usable_size", B_usable}, {"vp_ite", B_ite}, {"vp_print", B_print}, {"vp_i_thread_finished", B_tfinished}, {"vp_prune", B_prune}, {"vp_block_size", B_blocksize},
  {"vp_is_symbolic", B_is_sym}, {"vp_valid", B_valid}, {"vp_threads_off", B_threadsoff}, {"vp_i_mutex_held", B_mheld}, {"memcpy", B_memcpy}, {"memmove", B_memcpy}, {"memset", B_memset}, {"vp_live_threads", B_nlive}};
int Exec::builtinId(const std::string &n) { auto it = names.find(n); return it == names.end() ? -1 : it->second; }

void Exec::builtin(State &s, const Inst &in, int id, std::vector<Slot> &a) {
  auto retc = [&](u64 v) { finishCallRet(s, in, {nullptr, v}, 64); };
  switch (id) {
    case B_symbolic: {
      u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64); std::string nm = cstr(s, concretize(s, a[2], 64));
      if (!n) { finishCall(s, in); return; }
      u32 oid; Slot off; resolve(s, {nullptr, p}, n, true, oid, off);
      Obj *o = s.mem.getW(oid); SymIn si; si.name = nm;
      if (n == 1 || n == 2 || n == 4 || n == 8) {
        Ex v = mkVar(s.nvars++, n * 8);
        for (u64 i = 0; i < n; i++) si.bytes.push_back(mkExtract(v, i * 8, 8));
      } else for (u64 i = 0; i < n; i++) si.bytes.push_back(mkVar(s.nvars++, 8));
      for (u64 i = 0; i < n; i++) wrx(o, off.c + i, fromEx(si.bytes[i]), 8);
      s.model.resize(s.nvars, 0);
      s.inputs.push_back(si);
      finishCall(s, in); return;
    }
    case B_assume: {
      Ex c = toEx(a[0], in.ow[0]); c = c->width == 1 ? c : mkNot(mkBin(OEq, c, mkConst(0, c->width)));
      if (c->isConst()) { if (!c->val) throw PathEnd{3, "assume"}; }
      else { std::vector<u64> m; if (!may(s, c, m)) throw PathEnd{3, "assume"}; addCons(s, c, m); }
      finishCall(s, in); return;
    }
    case B_check: {
      Ex c = toEx(a[0], in.ow[0]); c = c->width == 1 ? c : mkNot(mkBin(OEq, c, mkConst(0, c->width)));
      nChecks++;
      std::string msg = cstr(s, concretize(s, a[1], 64));
      checkMsgs[msg]++;
      if (c->isConst()) { if (!c->val) violate(s, "check", msg); }
      else {
        nChecksSolver++;
        if (!decide(s, c)) violate(s, "check", msg);   // decided by the solver for every value on this path
      }
      finishCall(s, in); return;
    }
    case B_reach: s.reached.insert(cstr(s, concretize(s, a[0], 64))); finishCall(s, in); return;
    case B_concretize: retc(concretize(s, a[0], 64)); return;
    case B_engine: retc(1); return;
    case B_fail: violate(s, "check", cstr(s, concretize(s, a[0], 64))); return;
    case B_abort: violate(s, "abort", cstr(s, concretize(s, a[0], 64))); return;
    case B_live: retc((u64)s.liveHeap); return;
    case B_prune: throw PathEnd{3, "pruned by harness"};
    case B_param: { std::string n = cstr(s, concretize(s, a[0], 64)); auto it = opt.params.find(n); if (it == opt.params.end()) finishCallRet(s, in, a[1], 64); else retc((u64)it->second); return; }
    case B_malloc: {   // (size, kind) -> pointer or null when above the allocation limit
      Slot z = a[0];
      bool big = z.e ? decide(s, mkBin(OUlt, mkConst(opt.allocLimit, 64), z.e)) : z.c > opt.allocLimit;
      if (big) { retc(0); return; }
      u64 n = concretize(s, z, 64); u64 p = alloc(s, n, OK_Heap, (u8)a[1].c);
      retc(p); return;
    }
    case B_free: {     // (ptr, kind)
      u64 p = concretize(s, a[0], 64);
      if (!p) { finishCall(s, in); return; }
      Obj *o = s.mem.get(p >> 32);
      if (o && o->kind == OK_Freed) violate(s, "memory", "double free");
      if (!o || o->kind != OK_Heap || p != addrOf(p >> 32)) violate(s, "memory", "free of a pointer that was not allocated");
      if (o->alloc != (u8)a[1].c) violate(s, "memory", "mismatched allocation and release functions");
      if (s.mt && opt.races && o->size) raceCheck(s, p >> 32, 0, o->size, true, false);
      freeObj(s, p >> 32);
      finishCall(s, in); return;
    }
    case B_blocksize: { u64 p = concretize(s, a[0], 64); Obj *o = s.mem.get(p >> 32); retc(o ? o->size : 0); return; }
    case B_valid: { u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], 64); Obj *o = s.mem.get(p >> 32); u64 off = (p & 0xffffffffu) - OBJ_OFF; retc(o && o->kind != OK_Freed && o->kind != OK_Func && off + n <= o->size); return; }
    case B_usable: { u64 p = concretize(s, a[0], 64); Obj *o = s.mem.get(p >> 32); retc(o ? o->size : 0); return; }
    case B_memcpy: { u64 n = concretize(s, a[2], 64); if (n) { u64 d = concretize(s, a[0], 64), c = concretize(s, a[1], 64); memcopy(s, d, c, n); } finishCallRet(s, in, a[0], 64); return; }
    case B_memset: {
      u64 n = concretize(s, a[2], 64);
      if (n) {
        u64 d = concretize(s, a[0], 64); u32 oid; Slot off; resolve(s, {nullptr, d}, n, true, oid, off);
        if (s.mt && opt.races) raceCheck(s, oid, off.c, n, true, false);
        Obj *o = s.mem.getW(oid); Slot v = fromEx(mkExtract(toEx(a[1], 32), 0, 8));
        for (u64 i = 0; i < n; i++) wrx(o, off.c + i, v, 8);
      }
      finishCallRet(s, in, a[0], 64); return;
    }
    case B_memcmp: {
      u64 n = concretize(s, a[2], 64); if (!n) { retc(0); return; }
      u64 x = concretize(s, a[0], 64), y = concretize(s, a[1], 64);
      u32 i1, i2; Slot o1, o2;
      resolve(s, {nullptr, x}, n, false, i1, o1); resolve(s, {nullptr, y}, n, false, i2, o2);
      if (s.mt && opt.races) { raceCheck(s, i1, o1.c, n, false, false); raceCheck(s, i2, o2.c, n, false, false); }
      Obj *p = s.mem.get(i1), *q = s.mem.get(i2);
      Ex r = mkConst(0, 32);
      for (u64 i = n; i-- > 0;) {
        Ex u = toEx(rd(s, p, o1.c + i, 8), 8), v = toEx(rd(s, q, o2.c + i, 8), 8);
        Ex eq = mkBin(OEq, u, v); if (eq->isConst() && eq->val) continue;
        Ex lt = mkBin(OUlt, u, v);
        r = mkIte(eq, r, mkIte(lt, mkConst((u64)-1, 32), mkConst(1, 32)));
      }
      finishCallRet(s, in, fromEx(r), 32); return;
    }
    case B_ite: { Ex c = toEx(a[0], in.ow[0]); c = c->width == 1 ? c : mkNot(mkBin(OEq, c, mkConst(0, c->width))); finishCallRet(s, in, fromEx(mkIte(c, toEx(a[1], 64), toEx(a[2], 64))), 64); return; }
    case B_is_sym: retc(a[0].e != nullptr); return;
    case B_print: { std::string m = cstr(s, concretize(s, a[0], 64)); fprintf(stderr, "[%llu t%u] %s %s\n", (unsigned long long)s.id, s.cur, m.c_str(), a[1].e ? exprStr(a[1].e, 8).c_str() : std::to_string((i64)a[1].c).c_str()); finishCall(s, in); return; }
    case B_throw: { u64 o = concretize(s, a[0], 64), ti = concretize(s, a[1], 64); unwind(s, o, ti); return; }
    // ---- threads
    case B_threadsoff: s.threadsOff = a[0].c; finishCall(s, in); return;
    case B_tself: retc(s.cur); return;
    case B_tfinished: retc(s.th[a[0].c].finished); return;
    case B_nlive: { u64 n = 0; for (auto &t : s.th) n += !t.finished; retc(n); return; }
    case B_tcreate: {
      if (s.th.size() >= MAXT) throw PathEnd{1, "thread bound reached"};
      u64 fn = concretize(s, a[0], 64); Function *F = funcOfId[fn >> 32];
      Slot arg = a[1];
      s.mt = true; u32 t = s.th.size(), me = s.cur;
      s.th.emplace_back(); s.th[t].vc = s.th[me].vc; s.th[t].vc.c[t] = 1; s.th[me].vc.c[me]++;
      s.th[t].pk = P_Start;
      u32 save = s.cur; s.cur = t; pushFrame(s, info(F), {arg}); s.cur = save;
      finishCallRet(s, in, {nullptr, t}, 64);
      return;
    }
    case B_tjoin: {
      u64 t = concretize(s, a[0], 64);
      if (t >= s.th.size()) violate(s, "thread", "join of an invalid thread");
      if (t == s.cur) { retc(35); return; }   // EDEADLK
      if (!s.T().granted) { s.T().joinTid = t; s.T().pk = P_Join; visible(s, P_Join, 0, 0); }
      if (!s.th[t].finished) { s.T().granted = false; visible(s, P_Join, 0, 0); }
      s.T().vc.join(s.th[t].vc); granted(s);
      retc(0); return;
    }
    case B_tdetach: s.th[a[0].c].detached = true; retc(0); return;
    case B_mlock: case B_mtrylock: {   // (addr, recursive)
      u64 m = concretize(s, a[0], 64); bool rec = a[1].c;
      { u32 oid; Slot off; resolve(s, {nullptr, m}, 1, false, oid, off); }
      auto it = s.mtx.find(m); bool held = it != s.mtx.end() && it->second.owner >= 0; bool mine = held && it->second.owner == (i32)s.cur;
      if (id == B_mtrylock) {
        visible(s, P_Rmw, m, 1);
        it = s.mtx.find(m); held = it != s.mtx.end() && it->second.owner >= 0; mine = held && it->second.owner == (i32)s.cur;
        granted(s);
        if (held && !(mine && rec)) { retc(16); return; }
        mutexLock(s, m); retc(0); return;
      }
      if (mine && !rec && (!s.mt || s.threadsOff)) violate(s, "deadlock", "relock of a non-recursive mutex by its owner");
      visible(s, P_Lock, m, rec ? 1 : 2);
      granted(s);
      mutexLock(s, m); retc(0); return;
    }
    case B_mheld: { u64 m = concretize(s, a[0], 64); auto it = s.mtx.find(m); retc(it != s.mtx.end() && it->second.owner >= 0); return; }
    case B_munlock: {
      u64 m = concretize(s, a[0], 64);
      { u32 oid; Slot off; resolve(s, {nullptr, m}, 1, false, oid, off); }
      visible(s, P_Unlock, m, 1); granted(s);
      mutexUnlock(s, m); retc(0); return;
    }
    case B_cwait: {    // (cond, mutex, timed, deadline) -> 0 or 110 on timeout
      u64 c = concretize(s, a[0], 64), m = concretize(s, a[1], 64); bool timed = a[2].c;
      Thread *t = &s.T();
      if (t->phase == 0) {
        visible(s, P_CondWait, c, 1, m); granted(s);
        mutexUnlock(s, m);
        t = &s.T(); t->phase = 1; t->bk = B_Cond; t->baddr = c; t->timed = timed; t->deadline = a[3]; t->timedOut = false; t->spurious = false; t->paddr2 = m; t->pk = P_None;
        if (!s.mt && !timed) violate(s, "deadlock", "wait on a condition no other thread can signal");
        schedule(s); throw Reschedule{};
      }
      visible(s, P_Lock, m, 2); granted(s);
      mutexLock(s, m);
      t = &s.T(); t->phase = 0; bool to = t->timedOut; t->timedOut = false;
      retc(to ? 110 : 0); return;
    }
    case B_cnotify: {  // (cond, all)
      u64 c = concretize(s, a[0], 64); bool all = a[1].c;
      visible(s, P_Notify, c, 1);
      std::vector<u32> wt; for (u32 t = 0; t < s.th.size(); t++) if (!s.th[t].finished && s.th[t].bk == B_Cond && s.th[t].baddr == c) wt.push_back(t);
      auto wake = [](State &x, u32 t) { Thread &y = x.th[t]; y.bk = B_None; y.timed = false; y.pk = P_Lock; y.paddr = y.paddr2; y.paddr2 = 0; y.psize = 2; y.granted = false; };
      granted(s);
      if (all) for (u32 t : wt) wake(s, t);
      else if (!wt.empty()) {
        for (size_t i = 1; i < wt.size(); i++) { State *n = fork(s); wake(*n, wt[i]);
          n->trace = std::make_shared<Trace>(Trace{(u8)wt[i], 9, n->trace}); 
          const Inst &ni = in; finishCallRet(*n, ni, {nullptr, 0}, 64); }
        if (wt.size() > 1) s.trace = std::make_shared<Trace>(Trace{(u8)wt[0], 9, s.trace});
        wake(s, wt[0]);
      }
      retc(0); return;
    }
    case B_fwait: {    // (addr, expected, timed, deadline) -> 0, 11 (EAGAIN) or 110
      u64 p = concretize(s, a[0], 64); bool timed = a[2].c;
      Thread *t = &s.T();
      if (t->phase == 0) {
        visible(s, P_FutexWait, p, 4);
        Slot v = load(s, {nullptr, p}, 32, true);
        bool eq = decide(s, mkBin(OEq, toEx(v, 32), mkExtract(toEx(a[1], in.ow[1]), 0, 32)));
        granted(s);
        if (!eq) { retc(11); return; }
        s.T().spinFree = 0;
        if (timed && !a[3].e && !s.clock.e && (i64)a[3].c < (i64)s.clock.c) { retc(110); return; }   // already past
        t = &s.T(); t->phase = 1; t->bk = B_Futex; t->baddr = p; t->timed = timed; t->deadline = a[3]; t->timedOut = false; t->pk = P_None;
        if (!s.mt && !timed) violate(s, "deadlock", "wait on a futex no other thread can wake");
        schedule(s); throw Reschedule{};
      }
      visible(s, P_Resume, 0, 0); granted(s);
      t = &s.T(); t->phase = 0; bool to = t->timedOut; t->timedOut = false;
      retc(to ? 110 : 0); return;
    }
    case B_fwake: {    // (addr, n)
      u64 p = concretize(s, a[0], 64), n = concretize(s, a[1], in.ow[1]);
      if (n > 64) n = 64;
      visible(s, P_FutexWake, p, 4); 
      std::vector<u32> wt; for (u32 t = 0; t < s.th.size(); t++) if (!s.th[t].finished && s.th[t].bk == B_Futex && s.th[t].baddr == p) wt.push_back(t);
      auto wake = [](State &x, u32 t) { Thread &y = x.th[t]; y.bk = B_None; y.timed = false; y.pk = P_Resume; y.granted = false; };
      granted(s);
      if (wt.size() <= n) { for (u32 t : wt) wake(s, t); retc(wt.size()); return; }
      if (n == 1) {
        for (size_t i = 1; i < wt.size(); i++) { State *x = fork(s); wake(*x, wt[i]); x->trace = std::make_shared<Trace>(Trace{(u8)wt[i], 9, x->trace}); finishCallRet(*x, in, {nullptr, 1}, 64); }
        s.trace = std::make_shared<Trace>(Trace{(u8)wt[0], 9, s.trace});
        wake(s, wt[0]); retc(1); return;
      }
      for (u64 i = 0; i < n; i++) wake(s, wt[i]);
      retc(n); return;
    }
    case B_yield: visible(s, P_Yield, 0, 0); granted(s); retc(0); return;
    case B_sleep: {    // (deadline)
      Thread *t = &s.T();
      if (!s.mt || s.threadsOff) { Ex d = toEx(a[0], 64), c = toEx(s.clock, 64); s.clock = fromEx(mkIte(mkBin(OSlt, c, d), d, c)); retc(0); return; }
      if (t->phase == 0) {
        t->phase = 1; t->bk = B_Sleep; t->timed = true; t->deadline = a[0]; t->timedOut = false; t->pk = P_None;
        schedule(s); throw Reschedule{};
      }
      visible(s, P_Resume, 0, 0); granted(s);
      t = &s.T(); t->phase = 0; t->timedOut = false; retc(0); return;
    }
    case B_clocknow: finishCallRet(s, in, s.clock, 64); return;
    case B_clockset: s.clock = a[0]; finishCall(s, in); return;
  }
  throw PathEnd{1, "unhandled builtin"};
}
