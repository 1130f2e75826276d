#include "exec.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/Demangle/Demangle.h>
#include <algorithm>
#include <sys/resource.h>
using namespace llvm;

static const u8 UNINIT = 0xA5;

Exec::Exec(Module &m, const Options &o) : M(m), DL(m.getDataLayout()), opt(o) {}

// ---------------------------------------------------------------- values
void Exec::set(Frame *f, i32 slot, Ex e) { if (slot >= 0) f->r[slot] = fromEx(e); }
void Exec::setc(Frame *f, i32 slot, u64 c, unsigned w) {
  if (slot < 0) return;
  if (w > 64) f->r[slot] = {mkConst(c, w), 0};
  else f->r[slot] = {nullptr, w == 64 ? c : c & ((1ull << w) - 1)};
}

// ---------------------------------------------------------------- diagnostics
std::string Exec::where(State &s) {
  auto &t = s.T(); std::string other = "?";
  for (size_t i = t.st.size(); i-- > 0;) {
    Frame *f = t.st[i];
    if (f->pc < f->fn->code.size()) {
      auto *I = f->fn->code[f->pc].I;
      if (I && I->getDebugLoc()) {
        auto *loc = I->getDebugLoc().get();
        // innermost location inside the repository if there is one in the inline chain
        for (auto *l = loc; l; l = l->getInlinedAt()) {
          std::string fn = l->getFilename().str();
          if (fn.find("/repo/") != std::string::npos || fn.find("framework/") != std::string::npos)
            return fn + ":" + std::to_string(l->getLine());
          if (other == "?" && l->getLine() && fn.find("rt_") == std::string::npos) other = fn + ":" + std::to_string(l->getLine());
        }
      }
    }
  }
  return other;
}
std::string Exec::stackStr(State &s) {
  std::string r; auto &t = s.T();
  for (size_t i = t.st.size(); i-- > 0;) {
    Frame *f = t.st[i];
    std::string ln;
    if (f->pc < f->fn->code.size()) {
      auto *I = f->fn->code[f->pc].I;
      if (I && I->getDebugLoc()) { ln = " (" + I->getDebugLoc()->getFilename().str() + ":" + std::to_string(I->getDebugLoc().getLine()) + ")"; }
    }
    r += "  #" + std::to_string(t.st.size() - 1 - i) + " " + demangle(f->fn->name) + ln + "\n";
  }
  return r;
}
void Exec::violate(State &s, const std::string &kind, const std::string &msg) {
  Violation v; v.kind = kind; v.msg = msg; v.loc = where(s); v.stack = stackStr(s); v.path = s.id;
  for (auto &in : s.inputs) {
    std::string hex; char b[4];
    for (Ex e : in.bytes) { snprintf(b, 4, "%02x", (unsigned)(u64)evalExpr(e, s.model)); hex += b; }
    v.inputs.push_back({in.name, hex});
  }
  for (auto t = s.trace; t; t = t->prev) { v.trace += (char)('0' + t->tid); v.traceKinds += (char)('a' + t->kind); }
  std::reverse(v.trace.begin(), v.trace.end()); std::reverse(v.traceKinds.begin(), v.traceKinds.end());
  std::string key = kind + "|" + msg + "|" + v.loc;
  if (violKeys.insert(key).second) viols.push_back(v);
  throw PathEnd{2, msg};
}

// ---------------------------------------------------------------- decisions
static Ex stripNot(Ex e, bool &neg) { neg = false; while (e->op == OXor && e->width == 1 && e->b->isConst() && e->b->val) { e = e->a; neg = !neg; } return e; }
bool Exec::lookup(State &s, Ex e, u128 &v) {
  if (e->isConst()) { v = e->val; return true; }
  bool neg; Ex x = stripNot(e, neg);
  auto it = s.known.find(x);
  if (it == s.known.end()) {
    if (e->width == 1 && (e->op == OUlt || e->op == OUle || e->op == OSlt || e->op == OSle)) {
      Ex n = mkNot(e); auto j = s.known.find(n);
      if (j != s.known.end()) { v = !j->second; return true; }
    }
    return false;
  }
  v = neg ? !it->second : it->second;
  return true;
}
static void sliceFor(State &s, Ex e, std::vector<Ex> &out) {
  std::vector<bool> in(s.nvars + 1, false);
  for (u32 v : exprVars(e)) in[v] = true;
  std::vector<bool> used(s.cons.size(), false);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < s.cons.size(); i++) if (!used[i]) {
      auto &vs = exprVars(s.cons[i]);
      bool hit = false; for (u32 v : vs) if (in[v]) { hit = true; break; }
      if (hit) { used[i] = true; ch = true; for (u32 v : vs) in[v] = true; }
    }
  }
  for (size_t i = 0; i < s.cons.size(); i++) if (used[i]) out.push_back(s.cons[i]);
  out.push_back(e);
}
bool Exec::may(State &s, Ex e, std::vector<u64> &mdl) {
  u128 v;
  if (lookup(s, e, v)) { if (v) mdl = s.model; return v; }
  if (evalExpr(e, s.model)) { mdl = s.model; return true; }
  std::vector<Ex> q; sliceFor(s, e, q);
  mdl = s.model; mdl.resize(s.nvars, 0);
  Res r = solverCheck(q, mdl);
  if (r == UNKNOWN) throw PathEnd{1, "solver gave no answer within its limit"};
  return r == SAT;
}
void Exec::addCons(State &s, Ex e, const std::vector<u64> &mdl) {
  if (e->isConst()) return;
  if (&mdl != &s.model) s.model = mdl;
  if (e->op == OAnd && e->width == 1) { addCons(s, e->a, s.model); addCons(s, e->b, s.model); s.known[e] = 1; return; }
  s.cons.push_back(e);
  bool neg; Ex x = stripNot(e, neg);
  s.known[x] = neg ? 0 : 1;
  if (!neg && x->op == OEq && x->b->isConst()) s.known[x->a] = x->b->val;
}
State *Exec::fork(State &s) {
  State *n = new State(s); n->id = nextStateId++; nForks++;
  work.push_back(n);
  return n;
}
bool Exec::decide(State &s, Ex c) {
  u128 v;
  if (lookup(s, c, v)) return v != 0;
  bool cur = evalExpr(c, s.model) != 0;
  Ex pos = cur ? c : mkNot(c), neg = cur ? mkNot(c) : c;
  std::vector<u64> m2;
  if (may(s, neg, m2)) {
    State *n = fork(s);
    addCons(*n, neg, m2);
    bool ng; Ex x = stripNot(c, ng); n->known[x] = (!cur) ^ ng; n->known[c] = !cur;
    addCons(s, pos, s.model);
  }
  bool ng; Ex x = stripNot(c, ng); s.known[x] = cur ^ ng; s.known[c] = cur;
  return cur;
}
u64 Exec::concretize(State &s, const Slot &v, unsigned w) {
  if (!v.e) return v.c;
  u128 k;
  if (lookup(s, v.e, k)) return (u64)k;
  u64 x = (u64)evalExpr(v.e, s.model);
  Ex eq = mkBin(OEq, v.e, mkConst(x, w));
  if (eq->isConst()) return x;
  if (!decide(s, eq)) throw PathEnd{1, "internal: concretize"};
  s.known[v.e] = x;
  return x;
}

// ---------------------------------------------------------------- memory
u64 Exec::alloc(State &s, u64 size, ObjKind k, u8 al) {
  u32 id = s.mem.next++;
  Obj *o = new Obj; o->kind = k; o->size = size; o->alloc = al; o->b.assign(size, UNINIT);
  s.mem.set(id, o);
  if (k == OK_Heap) s.liveHeap++;
  return addrOf(id);
}
static Obj *freedObj(ObjKind was) {
  static Obj *h = nullptr, *st = nullptr;
  Obj *&p = was == OK_Stack ? st : h;
  if (!p) { p = new Obj; p->kind = OK_Freed; p->alloc = was == OK_Stack ? 1 : 0; p->refs = 1000000; }
  p->refs++;
  return p;
}
void Exec::freeObj(State &s, u32 id) {
  Obj *o = s.mem.get(id);
  if (o->kind == OK_Heap) s.liveHeap--;
  s.mem.set(id, freedObj(o->kind));
}
Slot Exec::rd(State &s, Obj *o, u64 off, unsigned w) {
  unsigned n = (w + 7) / 8;
  bool sym = false;
  if (!o->s.empty()) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym) {
    if (w <= 64) {
      u64 v = 0; memcpy(&v, &o->b[off], n);
      if (w < 64) v &= (1ull << w) - 1;
      return {nullptr, v};
    }
    u128 v = 0; memcpy(&v, &o->b[off], std::min(n, 16u));
    return {mkConst(v, w), 0};
  }
  auto byte = [&](unsigned i) { return o->s[off + i] ? o->s[off + i] : mkConst(o->b[off + i], 8); };
  Ex r = byte(n - 1);
  for (int i = (int)n - 2; i >= 0; i--) r = mkConcat(r, byte(i));
  if (r->width != w) r = mkExtract(r, 0, w);
  return fromEx(r);
}
void Exec::wrx(Obj *o, u64 off, const Slot &v, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (!v.e) {
    memcpy(&o->b[off], &v.c, std::min(n, 8u));
    if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i] = nullptr;
    return;
  }
  Ex e = v.e;
  if (e->width != n * 8) e = e->width < n * 8 ? mkZExt(e, n * 8) : mkExtract(e, 0, n * 8);
  for (unsigned i = 0; i < n; i++) {
    Ex x = mkExtract(e, i * 8, 8);
    if (x->isConst()) { o->b[off + i] = (u8)x->val; if (!o->s.empty()) o->s[off + i] = nullptr; }
    else { if (o->s.empty()) o->s.assign(o->size, nullptr); o->s[off + i] = x; }
  }
}
static std::string objDesc(u32 id, Obj *o) {
  if (!o) return "no object";
  const char *k = o->kind == OK_Global ? "global" : o->kind == OK_Stack ? "stack object" : o->kind == OK_Heap ? "heap block" : o->kind == OK_Func ? "function" : "freed memory";
  return std::string(k) + (o->name ? std::string(" ") + o->name : "") + " of size " + std::to_string(o->size);
}
Obj *Exec::resolve(State &s, const Slot &addr, u64 n, bool wr, u32 &id, Slot &off) {
  Slot a = addr; u128 kv;
  if (a.e && lookup(s, a.e, kv)) a = {nullptr, (u64)kv};
  u64 v = a.e ? (u64)evalExpr(a.e, s.model) : a.c;
  id = v >> 32;
  u64 o = (v & 0xffffffffu) - OBJ_OFF;
  Obj *ob = s.mem.get(id);
  if (!ob || ob->kind == OK_Func || ob->kind == OK_Freed || (v & 0xffffffffu) < OBJ_OFF || o + n > ob->size) {
    if (n == 0 && ob && ob->kind != OK_Func && ob->kind != OK_Freed) { off = {nullptr, 0}; return ob; }
    if (ob && ob->kind == OK_Freed) violate(s, "memory", std::string(wr ? "write to" : "read from") + (ob->alloc ? " a stack object after its function returned" : " freed heap memory"));
    if (v < 0x100000000ull) violate(s, "memory", std::string("null or wild pointer ") + (wr ? "write" : "read"));
    violate(s, "memory", std::string("out-of-bounds ") + (wr ? "write" : "read") + " of " + std::to_string(n) + " byte(s) at offset " + std::to_string((i64)o) + " of " + objDesc(id, ob));
  }
  if (wr && ob->ro) violate(s, "memory", "write to constant data");
  if (!a.e) { off = {nullptr, o}; return ob; }
  Ex offE = mkBin(OSub, a.e, mkConst(addrOf(id), 64));
  Ex inb = mkBin(OUle, offE, mkConst(ob->size - n, 64));
  if (!decide(s, inb)) throw PathEnd{1, "internal: resolve"};
  off = fromEx(offE);
  return ob;
}
static unsigned tz(Ex e) {
  switch (e->op) {
    case OConst: { if (!e->val) return 16; unsigned i = 0; while (!((e->val >> i) & 1)) i++; return i; }
    case OConcat: return e->b->isConst() && e->b->val == 0 ? e->b->width + tz(e->a) : tz(e->b);
    case OAdd: case OSub: case OIte: { if (e->op == OIte) return std::min(tz(e->b), tz(e->c)); return std::min(tz(e->a), tz(e->b)); }
    case OMul: return tz(e->a) + tz(e->b);
    case OZExt: case OSExt: return tz(e->a);
    default: return 0;
  }
}
static void offRange(Exec &x, State &s, Ex off, u64 maxOff, u64 &lo, u64 &hi, u64 &step) {
  u128 l, h; uRange(off, l, h);
  lo = (u64)l; hi = h > maxOff ? maxOff : (u64)h;
  step = 1ull << std::min(tz(off), 6u);
  lo = (lo + step - 1) / step * step;
  if ((hi - lo) / step > 48) {  // tighten with the solver
    std::vector<u64> m;
    u64 a = (u64)evalExpr(off, s.model), b = hi;  // largest feasible in [a,b]
    while (a < b) { u64 mid = a + (b - a + 1) / 2; if (x.may(s, mkBin(OUle, mkConst(mid, 64), off), m)) a = mid; else b = mid - 1; }
    hi = a;
    u64 c = lo, d = (u64)evalExpr(off, s.model);
    while (c < d) { u64 mid = c + (d - c) / 2; if (x.may(s, mkBin(OUle, off, mkConst(mid, 64)), m)) d = mid; else c = mid + 1; }
    lo = c / step * step;
  }
  if ((hi - lo) / step > 5000) throw PathEnd{1, "symbolic index range too wide"};
}
static void evPos(u64, u64) {}
Slot Exec::load(State &s, const Slot &addr, unsigned w, bool atomic) {
  unsigned n = (w + 7) / 8; u32 id; Slot off;
  Obj *o = resolve(s, addr, n, false, id, off);
  if (!off.e) {
    if (s.mt && opt.races) raceCheck(s, id, off.c, n, false, atomic), o = s.mem.get(id);
    return rd(s, o, off.c, w);
  }
  u64 lo, hi, st; offRange(*this, s, off.e, o->size - n, lo, hi, st);
  Ex r = nullptr;
  for (u64 i = lo; i <= hi; i += st) {
    Ex v = toEx(rd(s, o, i, w), w);
    r = r ? mkIte(mkBin(OEq, off.e, mkConst(i, 64)), v, r) : v;
  }
  (void)evPos;
  return fromEx(r);
}
void Exec::store(State &s, const Slot &addr, const Slot &v, unsigned w, bool atomic) {
  unsigned n = (w + 7) / 8; u32 id; Slot off;
  Obj *o = resolve(s, addr, n, true, id, off);
  if (!off.e) {
    if (s.mt && opt.races) raceCheck(s, id, off.c, n, true, atomic);
    o = s.mem.getW(id);
    wrx(o, off.c, v, w);
    return;
  }
  u64 lo, hi, st; offRange(*this, s, off.e, o->size - n, lo, hi, st);
  o = s.mem.getW(id);
  Ex ve = toEx(v, w);
  for (u64 i = lo; i <= hi; i += st) {
    Ex old = toEx(rd(s, o, i, w), w);
    wrx(o, i, fromEx(mkIte(mkBin(OEq, off.e, mkConst(i, 64)), ve, old)), w);
  }
}
u64 Exec::rd64(State &s, u64 a) { Slot v = load(s, {nullptr, a}, 64); return concretize(s, v, 64); }
u32 Exec::rd32(State &s, u64 a) { Slot v = load(s, {nullptr, a}, 32); return (u32)concretize(s, v, 32); }
std::string Exec::cstr(State &s, u64 a) {
  std::string r;
  for (unsigned i = 0; i < 4096; i++) { u64 c = concretize(s, load(s, {nullptr, a + i}, 8), 8); if (!c) break; r += (char)c; }
  return r;
}
void Exec::memcopy(State &s, u64 d, u64 src, u64 n) {
  if (!n) return;
  u32 di, si; Slot dof, sof;
  resolve(s, {nullptr, d}, n, true, di, dof);
  resolve(s, {nullptr, src}, n, false, si, sof);
  if (s.mt && opt.races) { raceCheck(s, si, sof.c, n, false, false); raceCheck(s, di, dof.c, n, true, false); }
  Obj *so = s.mem.get(si); so->refs++;          // keep source alive over COW
  Obj *D = s.mem.getW(di);
  if (D == so) { so->refs--; memmove(&D->b[dof.c], &D->b[sof.c], n); if (!D->s.empty()) memmove(&D->s[dof.c], &D->s[sof.c], n * sizeof(Ex)); return; }
  memcpy(&D->b[dof.c], &so->b[sof.c], n);
  bool anyS = false; if (!so->s.empty()) for (u64 i = 0; i < n && !anyS; i++) anyS = so->s[sof.c + i];
  if (anyS) { if (D->s.empty()) D->s.assign(D->size, nullptr); memcpy(&D->s[dof.c], &so->s[sof.c], n * sizeof(Ex)); }
  else if (!D->s.empty()) memset(&D->s[dof.c], 0, n * sizeof(Ex));
  Mem::dropObj(so);
}

// ---------------------------------------------------------------- data races (happens-before, C++ orderings)
void Exec::raceCheck(State &s, u32 id, u64 off, u64 n, bool wr, bool atomic) {
  Obj *o0 = s.mem.get(id);
  if (o0->kind == OK_Global && (o0->ro || (o0->name && !strncmp(o0->name, "_ZN3sim", 7)))) return;   // sim: the simulated kernel
  Obj *o = s.mem.getW(id);
  if (o->sh.empty()) { ShadowByte z; memset(&z, 0, sizeof z); o->sh.assign(o->size, z); }
  u32 me = s.cur; VC &vc = s.T().vc; u32 now = vc.c[me];
  for (u64 i = off; i < off + n; i++) {
    ShadowByte &b = o->sh[i];
    const char *bad = nullptr;
    if (b.w && b.wt != me && vc.c[b.wt] < b.w) bad = "a plain write";
    for (u32 t = 0; t < s.th.size() && !bad; t++) if (t != me) {
      if (wr && b.r[t] && vc.c[t] < b.r[t]) bad = "a plain read";
      if (!atomic && b.aw[t] && vc.c[t] < b.aw[t]) bad = "an atomic write";
      if (!atomic && wr && b.ar[t] && vc.c[t] < b.ar[t]) bad = "an atomic read";
    }
    if (bad) violate(s, "race", std::string("data race: ") + (atomic ? "atomic " : "plain ") + (wr ? "write" : "read") + " of " + objDesc(id, o) + " offset " + std::to_string(i) + " unordered with " + bad + " by another thread");
    if (atomic) { if (wr) b.aw[me] = now; else b.ar[me] = now; }
    else if (wr) { b.w = now; b.wt = me; }
    else b.r[me] = now;
  }
}
static bool isAcq(unsigned o) { auto a = (AtomicOrdering)o; return a == AtomicOrdering::Acquire || a == AtomicOrdering::AcquireRelease || a == AtomicOrdering::SequentiallyConsistent; }
static bool isRel(unsigned o) { auto a = (AtomicOrdering)o; return a == AtomicOrdering::Release || a == AtomicOrdering::AcquireRelease || a == AtomicOrdering::SequentiallyConsistent; }
void Exec::atomicAcquire(State &s, u64 a, unsigned ord) {
  if (!s.mt) return;
  auto it = s.sync.find(a); if (it == s.sync.end()) return;
  if (isAcq(ord)) s.T().vc.join(it->second); else s.T().acqPending.join(it->second);
}
void Exec::atomicRelease(State &s, u64 a, unsigned ord, bool rmw) {
  if (!s.mt) return;
  VC &l = s.sync[a];
  if (!rmw) l = VC();
  if (isRel(ord)) { l.join(s.T().vc); s.T().vc.c[s.cur]++; }
  else l.join(s.T().relFence);
}

// ---------------------------------------------------------------- threads
bool Exec::enabled(State &s, u32 t) {
  Thread &x = s.th[t];
  if (x.finished || x.bk != B_None) return false;
  switch (x.pk) {
    case P_Lock: { auto it = s.mtx.find(x.paddr); if (it == s.mtx.end() || it->second.owner < 0) return true;
      if ((u32)it->second.owner == t) { Obj *o = s.mem.get(x.paddr >> 32); (void)o; return x.psize == 1; } return false; }
    case P_Join: return s.th[x.joinTid].finished;
    case P_Yield: return s.steps > x.yieldStamp;
    default: return true;
  }
}
static bool wr(PendKind k) { return k != P_Load && k != P_None && k != P_Start && k != P_Resume && k != P_Yield && k != P_Fence && k != P_Sleep && k != P_Create && k != P_Exit && k != P_Join; }
bool Exec::dependent(const Thread &a, const Thread &b) {
  auto local = [](PendKind k) { return k == P_None || k == P_Start || k == P_Resume || k == P_Yield || k == P_Fence || k == P_Sleep || k == P_Create || k == P_Exit || k == P_Join; };
  if (local(a.pk) || local(b.pk)) return false;
  if (!wr(a.pk) && !wr(b.pk)) return false;
  auto ov = [](u64 x, u32 n, u64 y, u32 m) { return x && y && x < y + m && y < x + n; };
  return ov(a.paddr, a.psize ? a.psize : 1, b.paddr, b.psize ? b.psize : 1) || ov(a.paddr2, 1, b.paddr, b.psize ? b.psize : 1) || ov(a.paddr, a.psize ? a.psize : 1, b.paddr2, 1) || ov(a.paddr2, 1, b.paddr2, 1);
}
bool Exec::visible(State &s, PendKind k, u64 a, u32 size, u64 a2) {
  if (!s.mt || s.threadsOff) { s.T().pk = k; s.T().paddr = a; s.T().psize = size; s.T().paddr2 = a2; return true; }
  Thread &t = s.T();
  if (t.granted) return true;
  if (k == P_Yield && t.spinFree) { t.spinFree--; t.granted = true; return true; }
  t.pk = k; t.paddr = a; t.psize = size; t.paddr2 = a2;
  if (k == P_Yield) t.yieldStamp = s.steps;
  schedule(s);
  throw Reschedule{};
}
void Exec::granted(State &s) { s.T().granted = false; }
void Exec::schedule(State &s) {
  nSchedPoints++;
  if (s.steps > opt.maxSteps) throw PathEnd{1, "schedule step bound reached"};
  // run freshly created threads up to their first visible operation first (invisible moves)
  for (u32 t = 0; t < s.th.size(); t++) if (!s.th[t].finished && s.th[t].bk == B_None && (s.th[t].pk == P_Start)) {
    if (s.schedFrom < 0) s.schedFrom = (i32)s.cur;
    s.cur = t; s.th[t].pk = P_None; return;
  }
  if (s.schedFrom >= 0) { s.cur = (u32)s.schedFrom; s.schedFrom = -1; }   // starting a thread is not a preemption
  std::vector<u32> en;
  for (u32 t = 0; t < s.th.size(); t++) if (enabled(s, t)) en.push_back(t);
  // eager timeouts / spurious wakeups as extra choices
  struct Choice { u32 t; int kind; };  // 0 run, 1 timeout, 2 spurious wake
  std::vector<Choice> ch;
  if (en.empty()) {
    // only yielding threads left? let them run
    for (u32 t = 0; t < s.th.size(); t++) if (!s.th[t].finished && s.th[t].bk == B_None && s.th[t].pk == P_Yield) en.push_back(t);
    if (!en.empty()) {
      bool other = false; for (u32 t = 0; t < s.th.size(); t++) if (!s.th[t].finished && s.th[t].bk != B_None && s.th[t].timed) other = true;
      if (other) en.clear();
      else { for (u32 t : en) s.th[t].yieldStamp = 0; if (++s.spins > 2000) throw PathEnd{1, "threads only spin"}; }
    }
  }
  if (en.empty()) {
    std::vector<u32> tm;
    for (u32 t = 0; t < s.th.size(); t++) if (!s.th[t].finished && s.th[t].bk != B_None && s.th[t].timed) tm.push_back(t);
    if (tm.empty()) {
      std::string d; bool any = false;
      for (u32 t = 0; t < s.th.size(); t++) if (!s.th[t].finished) { any = true; d += " t" + std::to_string(t) + (s.th[t].bk == B_Cond ? ":condition" : s.th[t].bk == B_Futex ? ":futex" : s.th[t].pk == P_Lock ? ":mutex" : s.th[t].pk == P_Join ? ":join" : ":?"); }
      if (!any) throw PathEnd{0, ""};
      s.cur = 0; if (s.th[0].finished) throw PathEnd{0, ""};
      violate(s, "deadlock", "every thread is blocked:" + d);
    }
    // time passes: earliest deadline fires (symbolic comparison)
    u32 best = tm[0];
    for (size_t i = 1; i < tm.size(); i++) {
      Ex lt = mkBin(OSlt, toEx(s.th[tm[i]].deadline, 64), toEx(s.th[best].deadline, 64));
      if (decide(s, lt)) best = tm[i];
    }
    ch.push_back({best, 1});
  } else {
    bool curEn = std::find(en.begin(), en.end(), s.cur) != en.end();
    if (opt.pb >= 0) {
      if (curEn && s.preempts >= opt.pb) { ch.push_back({s.cur, 0}); }
      else { if (curEn) ch.push_back({s.cur, 0}); for (u32 t : en) if (t != s.cur) ch.push_back({t, 0}); }
    } else {
      for (u32 t : en) if (!opt.por || !((s.sleep >> t) & 1)) ch.push_back({t, 0});
      if (ch.empty() && s.timeouts >= opt.maxTimeouts) throw PathEnd{4, "sleep-set pruned"};
    }
    if (s.timeouts < opt.maxTimeouts) for (u32 t = 0; t < s.th.size(); t++) if (!s.th[t].finished && s.th[t].bk != B_None && s.th[t].timed) ch.push_back({t, 1});
    if (s.timeouts < opt.maxTimeouts) for (u32 t = 0; t < s.th.size(); t++) if (!s.th[t].finished && s.th[t].bk == B_None && s.th[t].pk == P_Yield && !s.th[t].spinFree) ch.push_back({t, 3});   // time passes while it spins
    if (s.spuriousCount < opt.maxSpurious) for (u32 t = 0; t < s.th.size(); t++) if (!s.th[t].finished && s.th[t].bk == B_Cond) ch.push_back({t, 2});
    if (ch.empty()) throw PathEnd{4, "sleep-set pruned"};
  }
  if (s.traceLen < opt.follow.size()) {   // replay of a recorded schedule
    u32 want = (u32)(opt.follow[s.traceLen] - '0'); std::vector<Choice> k;
    for (auto &c : ch) if (c.t == want && (c.kind == 0) == (s.traceLen >= opt.followKinds.size() || opt.followKinds[s.traceLen] == 'a')) k.push_back(c);
    if (k.empty()) throw PathEnd{1, "recorded schedule does not apply"};
    ch.assign(1, k[0]);
  }
  if (opt.verbose) for (auto &c : ch) fprintf(stderr, "  [%u] choice t%u kind %d op %d addr %lx %lx | %s\n", s.traceLen, c.t, c.kind, (int)s.th[c.t].pk, (unsigned long)s.th[c.t].paddr, (unsigned long)s.th[c.t].paddr2, s.th[c.t].st.empty() ? "" : s.th[c.t].st.back()->fn->name.c_str());
  u32 from = s.cur; bool fromEn = enabled(s, from);
  u32 doneMask = 0;
  std::vector<State *> made;
  for (size_t i = 0; i < ch.size(); i++) {
    State *n = i + 1 == ch.size() ? &s : fork(s);
    Choice c = ch[i];
    if (c.kind == 0) {
      if (opt.pb < 0 && opt.por) {
        u32 z = n->sleep | doneMask, z2 = 0;
        if (i + 1 == ch.size()) z = s.sleep | doneMask;
        for (u32 u = 0; u < n->th.size(); u++) if (((z >> u) & 1) && u != c.t && !dependent(n->th[u], n->th[c.t])) z2 |= 1u << u;
        n->sleep = z2;
        doneMask |= 1u << c.t;
      }
      if (c.t != from && fromEn) n->preempts++;
      n->cur = c.t; n->th[c.t].granted = true;
      if (n->th[c.t].pk == P_Yield) n->th[c.t].yieldStamp = 0;
    } else {
      Thread &x = n->th[c.t];
      n->cur = c.t; n->sleep = 0;
      if (c.kind == 1) {
        n->timeouts++;
        x.timedOut = true;
        Ex dl = toEx(x.deadline, 64), ck = toEx(n->clock, 64);
        dl = mkIte(mkBin(OSlt, dl, mkConst((u64)1 << 62, 64)), mkBin(OAdd, dl, mkConst(1000, 64)), dl);   // a timeout is noticed a little late
        n->clock = fromEx(mkIte(mkBin(OSlt, ck, dl), dl, ck));
      } else { n->spuriousCount++; x.spurious = true; }
      if (c.kind == 3) {
        n->timeouts++; n->spuriousCount -= 1; x.spurious = false; x.spinFree = 64; x.granted = true;
        n->clock = fromEx(mkBin(OAdd, toEx(n->clock, 64), mkConst(200000000, 64)));
        n->steps++; n->trace = std::make_shared<Trace>(Trace{(u8)c.t, (u8)c.kind, s.trace}); n->traceLen++; n->lastTid = c.t; continue;
      }
      bool cond = x.bk == B_Cond;
      x.bk = B_None; x.timed = false;
      if (cond) { x.pk = P_Lock; x.paddr = x.paddr2; x.paddr2 = 0; x.granted = false; }
      else { x.pk = P_Resume; x.granted = true; }
    }
    n->steps++;
    n->trace = std::make_shared<Trace>(Trace{(u8)c.t, (u8)c.kind, s.trace}); n->traceLen++;
    n->lastTid = c.t;
    if (c.kind != 0 && !n->th[c.t].granted) {
      // timed-out waiter must still re-acquire its mutex: it re-executes and asks for scheduling again
    }
  }
}
void Exec::mutexLock(State &s, u64 a) {
  MutexS &m = s.mtx[a];
  if (m.owner == (i32)s.cur) { m.count++; return; }
  m.owner = s.cur; m.count = 1;
  if (s.mt) s.T().vc.join(m.vc);
}
void Exec::mutexUnlock(State &s, u64 a) {
  MutexS &m = s.mtx[a];
  if (m.owner != (i32)s.cur) violate(s, "mutex", "unlock of a mutex the thread does not hold");
  if (--m.count) return;
  m.owner = -1;
  if (s.mt) { m.vc.join(s.T().vc); s.T().vc.c[s.cur]++; }
}

// ---------------------------------------------------------------- frames
void Exec::takeEdge(State &s, Frame *f, const Edge &e) {
  if (e.moves.size() == 1) f->r[e.moves[0].first] = val(f, e.moves[0].second);
  else if (!e.moves.empty()) {
    Slot tmp[64]; std::vector<Slot> big; Slot *t = tmp;
    if (e.moves.size() > 64) { big.resize(e.moves.size()); t = big.data(); }
    for (size_t i = 0; i < e.moves.size(); i++) t[i] = val(f, e.moves[i].second);
    for (size_t i = 0; i < e.moves.size(); i++) f->r[e.moves[i].first] = t[i];
  }
  f->pc = e.target;
}
void Exec::pushFrame(State &s, FnInfo *fn, const std::vector<Slot> &args) {
  decode(fn); fn->hits++;
  Thread &t = s.T();
  if (t.st.size() > 400) violate(s, "stack", "unbounded recursion (call depth over 400)");
  Frame *f = new Frame; f->fn = fn; f->r.assign(fn->nslots, Slot{nullptr, 0});
  for (size_t i = 0; i < fn->argSlots.size() && i < args.size(); i++) f->r[fn->argSlots[i].first] = args[i];
  t.st.push_back(f);
}
void Exec::popFrame(State &s, Thread &t) {
  Frame *f = t.st.back(); t.st.pop_back();
  for (u32 id : f->allocas) { Obj *o = s.mem.get(id); if (o && o->kind == OK_Stack) freeObj(s, id); }
  State::dropFrame(f);
}
void Exec::finishCall(State &s, const Inst &in) {
  Frame *f = s.F();
  if (in.kind == KInvoke) takeEdge(s, f, in.ed[0]); else f->pc++;
}
void Exec::finishCallRet(State &s, const Inst &in, Slot r, unsigned w) {
  Frame *f = s.F();
  if (in.dst >= 0) { if (r.e) f->r[in.dst] = fromEx(r.e->width == in.w ? r.e : r.e->width > in.w ? mkExtract(r.e, 0, in.w) : mkZExt(r.e, in.w)); else setc(f, in.dst, r.c, in.w); }
  finishCall(s, in);
}

bool Exec::typeMatches(State &s, u64 thrown, u64 want) {
  if (!want || thrown == want) return true;
  u64 vt = rd64(s, thrown);
  if (vt == tiSi) return typeMatches(s, rd64(s, thrown + 16), want);
  if (vt == tiVmi) { u32 n = rd32(s, thrown + 20); for (u32 i = 0; i < n; i++) if (typeMatches(s, rd64(s, thrown + 24 + 16 * i), want)) return true; }
  return false;
}
void Exec::unwind(State &s, u64 obj, u64 ti) {
  Thread &t = s.T();
  while (!t.st.empty()) {
    popFrame(s, t);
    if (t.st.empty()) break;
    Frame *f = s.F();
    const Inst &in = f->fn->code[f->pc];
    if (in.kind != KInvoke) continue;
    const Edge &e = in.ed[1];
    const Inst &lp = f->fn->code[e.target];
    if (lp.kind != KLandingPad) throw PathEnd{1, "unwind target without landingpad"};
    auto *L = cast<LandingPadInst>(lp.I);
    u32 sel = 0; bool enter = L->isCleanup();
    for (unsigned i = 0; i < L->getNumClauses(); i++) {
      if (L->isCatch(i)) {
        std::vector<Slot> c; constSlots(L->getClause(i), c);
        if (typeMatches(s, ti, c[0].c)) { enter = true; sel = c[0].c ? (u32)(c[0].c >> 32) : 1; break; }
      } else {
        auto *fl = L->getClause(i);
        std::vector<Slot> c; constSlots(fl, c);
        bool ok = false; for (auto &x : c) if (typeMatches(s, ti, x.c)) ok = true;
        if (!ok) { enter = true; sel = (u32)-1; break; }
      }
    }
    if (!enter) continue;
    takeEdge(s, f, e);
    if (lp.dst >= 0) { f->r[lp.dst] = {nullptr, obj}; f->r[lp.dst + 1] = {nullptr, sel}; }
    f->pc = e.target + 1;
    return;
  }
  // rebuild a minimal frame so diagnostics work
  std::string nm = "?"; Obj *o = s.mem.get(ti >> 32); if (o && o->name) nm = demangle(o->name);
  FnInfo *fi = info(M.getFunction(opt.entry));
  pushFrame(s, fi, {});
  violate(s, "terminate", "exception escaped every handler (std::terminate): " + nm);
}

// ---------------------------------------------------------------- single step
static Ex icmpE(unsigned p, Ex a, Ex b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return mkBin(OEq, a, b); case CmpInst::ICMP_NE: return mkNot(mkBin(OEq, a, b));
    case CmpInst::ICMP_ULT: return mkBin(OUlt, a, b); case CmpInst::ICMP_ULE: return mkBin(OUle, a, b);
    case CmpInst::ICMP_UGT: return mkBin(OUlt, b, a); case CmpInst::ICMP_UGE: return mkBin(OUle, b, a);
    case CmpInst::ICMP_SLT: return mkBin(OSlt, a, b); case CmpInst::ICMP_SLE: return mkBin(OSle, a, b);
    case CmpInst::ICMP_SGT: return mkBin(OSlt, b, a); case CmpInst::ICMP_SGE: return mkBin(OSle, b, a);
  }
  abort();
}
static bool icmpC(unsigned p, u64 a, u64 b, unsigned w) {
  i64 x = w == 64 ? (i64)a : (i64)sextv(a, w), y = w == 64 ? (i64)b : (i64)sextv(b, w);
  switch (p) {
    case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_SLT: return x < y; case CmpInst::ICMP_SLE: return x <= y;
    case CmpInst::ICMP_SGT: return x > y; case CmpInst::ICMP_SGE: return x >= y;
  }
  abort();
}
static Ex fcmpE(unsigned p, Ex a, Ex b) {
  Ex un = mkBin(OOr, mkF(OFIsNan, a, nullptr, 1), mkF(OFIsNan, b, nullptr, 1));
  Ex eq = mkF(OFEq, a, b, 1), lt = mkF(OFLt, a, b, 1), le = mkF(OFLe, a, b, 1), gt = mkF(OFLt, b, a, 1), ge = mkF(OFLe, b, a, 1);
  switch (p) {
    case CmpInst::FCMP_FALSE: return mkConst(0, 1); case CmpInst::FCMP_TRUE: return mkConst(1, 1);
    case CmpInst::FCMP_OEQ: return eq; case CmpInst::FCMP_OGT: return gt; case CmpInst::FCMP_OGE: return ge;
    case CmpInst::FCMP_OLT: return lt; case CmpInst::FCMP_OLE: return le; case CmpInst::FCMP_ONE: return mkBin(OOr, lt, gt);
    case CmpInst::FCMP_ORD: return mkNot(un); case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_UEQ: return mkBin(OOr, un, eq); case CmpInst::FCMP_UGT: return mkNot(le); case CmpInst::FCMP_UGE: return mkNot(lt);
    case CmpInst::FCMP_ULT: return mkNot(ge); case CmpInst::FCMP_ULE: return mkNot(gt); case CmpInst::FCMP_UNE: return mkNot(eq);
  }
  abort();
}

void Exec::step(State &s) {
  Frame *f = s.F();
  const Inst &in = f->fn->code[f->pc];
  switch (in.kind) {
    case KBin: {
      for (u32 i = 0; i < in.nl; i++) {
        Slot a = val(f, in.o[i]), b = val(f, in.o[in.nl + i]);
        unsigned w = in.w;
        if (in.op >= OUDiv && in.op <= OSRem) {
          if (!b.e) { if (b.c == 0) violate(s, "arith", "division by zero"); }
          else if (decide(s, mkBin(OEq, b.e, mkConst(0, w)))) violate(s, "arith", "division by zero");
          f = s.F();
        }
        if (!a.e && !b.e && w <= 64) {
          u64 x = a.c, y = b.c, r;
          switch (in.op) {
            case OAdd: r = x + y; break; case OSub: r = x - y; break; case OMul: r = x * y; break;
            case OAnd: r = x & y; break; case OOr: r = x | y; break; case OXor: r = x ^ y; break;
            case OShl: r = y >= w ? 0 : x << y; break; case OLShr: r = y >= w ? 0 : x >> y; break;
            case OUDiv: r = x / y; break; case OURem: r = x % y; break;
            default: { Ex e = mkBin((Op)in.op, mkConst(x, w), mkConst(y, w)); r = (u64)e->val; }
          }
          setc(f, in.dst + i, r, w);
        } else set(f, in.dst + i, mkBin((Op)in.op, toEx(a, w), toEx(b, w)));
      }
      f->pc++; return;
    }
    case KICmp: {
      u32 n = in.o.size() / 2;
      for (u32 i = 0; i < n; i++) {
        Slot a = val(f, in.o[i]), b = val(f, in.o[n + i]); unsigned w = in.ow[i];
        if (!a.e && !b.e) f->r[in.dst + i] = {nullptr, (u64)icmpC(in.aux, a.c, b.c, w)};
        else set(f, in.dst + i, icmpE(in.aux, toEx(a, w), toEx(b, w)));
      }
      f->pc++; return;
    }
    case KFCmp: { Slot a = val(f, in.o[0]), b = val(f, in.o[1]); unsigned w = in.ow[0]; set(f, in.dst, fcmpE(in.aux, toEx(a, w), toEx(b, w))); f->pc++; return; }
    case KFBin: { Slot a = val(f, in.o[0]), b = val(f, in.o[1]); set(f, in.dst, mkF((Op)in.op, toEx(a, in.w), toEx(b, in.w), in.w)); f->pc++; return; }
    case KFNeg: { Slot a = val(f, in.o[0]); set(f, in.dst, mkBin(OXor, toEx(a, in.w), mkConst((u128)1 << (in.w - 1), in.w))); f->pc++; return; }
    case KZExt: case KSExt: case KTrunc:
      for (u32 i = 0; i < in.nl; i++) {
        Slot a = val(f, in.o[i]); unsigned w = in.ow[i];
        if (!a.e && in.w <= 64) { u64 v = a.c; if (in.kind == KSExt) v = (u64)(i64)sextv(v, w); setc(f, in.dst + i, v, in.w); }
        else { Ex e = toEx(a, w); set(f, in.dst + i, in.kind == KZExt ? mkZExt(e, in.w) : in.kind == KSExt ? mkSExt(e, in.w) : mkExtract(e, 0, in.w)); }
      }
      f->pc++; return;
    case KBitcast: {   // scalar <-> vector through little-endian bits
      Ex all = nullptr;
      for (size_t i = in.o.size(); i-- > 0;) { Ex e = toEx(val(f, in.o[i]), in.ow[i]); all = all ? mkConcat(all, e) : e; }
      for (u32 i = 0; i < in.nl; i++) set(f, in.dst + i, mkExtract(all, i * in.w, in.w));
      f->pc++; return;
    }
    case KMove: for (u32 i = 0; i < in.nl; i++) { Slot v = val(f, in.o[i]); f->r[in.dst + i] = v; } f->pc++; return;
    case KFPToSI: case KFPToUI: { Slot a = val(f, in.o[0]); set(f, in.dst, mkF(in.kind == KFPToSI ? OFToSI : OFToUI, toEx(a, in.ow[0]), nullptr, in.w)); f->pc++; return; }
    case KSIToFP: case KUIToFP: { Slot a = val(f, in.o[0]); set(f, in.dst, mkF(in.kind == KSIToFP ? OSIToF : OUIToF, toEx(a, in.ow[0]), nullptr, in.w)); f->pc++; return; }
    case KFPCast: { Slot a = val(f, in.o[0]); set(f, in.dst, mkF(OFCast, toEx(a, in.ow[0]), nullptr, in.w)); f->pc++; return; }
    case KSelect: {
      std::vector<Slot> r(in.nl);
      for (u32 i = 0; i < in.nl; i++) {
        Slot c = val(f, in.o[in.aux == 1 ? 0 : i]);
        Slot a = val(f, in.o[in.aux + i]), b = val(f, in.o[in.aux + in.nl + i]);
        unsigned w = in.ow[in.aux + i];
        if (c.e) { u128 k; if (lookup(s, c.e, k)) c = {nullptr, (u64)k}; }
        r[i] = !c.e ? (c.c ? a : b) : fromEx(mkIte(c.e, toEx(a, w), toEx(b, w)));
      }
      for (u32 i = 0; i < in.nl; i++) f->r[in.dst + i] = r[i];
      f->pc++; return;
    }
    case KLoad: {
      Slot p = val(f, in.o[0]);
      if (in.atomic) {
        u64 a = concretize(s, p, 64); p = {nullptr, a};
        if (s.mt) visible(s, P_Load, a, (in.w + 7) / 8);
        Slot v = load(s, p, in.w, true);
        atomicAcquire(s, a, in.ord); granted(s);
        f = s.F(); f->r[in.dst] = v; f->pc++; return;
      }
      if (in.nl == 1) { Slot v = load(s, p, in.lv[0].w); f = s.F(); f->r[in.dst] = v; f->pc++; return; }
      if (p.e) p = {nullptr, concretize(s, p, 64)};
      std::vector<Slot> r; for (auto &l : in.lv) r.push_back(load(s, {nullptr, p.c + l.off}, l.w));
      f = s.F();
      for (size_t i = 0; i < r.size(); i++) f->r[in.dst + i] = r[i];
      f->pc++; return;
    }
    case KStore: {
      Slot p = val(f, in.o[0]);
      if (in.atomic) {
        u64 a = concretize(s, p, 64); p = {nullptr, a};
        if (s.mt) visible(s, P_Store, a, (in.lv[0].w + 7) / 8);
        store(s, p, val(s.F(), in.o[1]), in.lv[0].w, true);
        atomicRelease(s, a, in.ord, false); granted(s);
        s.F()->pc++; return;
      }
      if (in.lv.size() == 1) { store(s, p, val(f, in.o[1]), in.lv[0].w); s.F()->pc++; return; }
      if (p.e) p = {nullptr, concretize(s, p, 64)};
      for (size_t i = 0; i < in.lv.size(); i++) store(s, {nullptr, p.c + in.lv[i].off}, val(f, in.o[1 + i]), in.lv[i].w);
      s.F()->pc++; return;
    }
    case KRmw: {
      u64 a = concretize(s, val(f, in.o[0]), 64); unsigned w = in.w;
      visible(s, P_Rmw, a, (w + 7) / 8);
      f = s.F();
      Slot old = load(s, {nullptr, a}, w, true), v = val(f, in.o[1]);
      Ex o = toEx(old, w), x = toEx(v, w), n = nullptr;
      switch (in.aux) {
        case AtomicRMWInst::Xchg: n = x; break; case AtomicRMWInst::Add: n = mkBin(OAdd, o, x); break;
        case AtomicRMWInst::Sub: n = mkBin(OSub, o, x); break; case AtomicRMWInst::And: n = mkBin(OAnd, o, x); break;
        case AtomicRMWInst::Or: n = mkBin(OOr, o, x); break; case AtomicRMWInst::Xor: n = mkBin(OXor, o, x); break;
        case AtomicRMWInst::Nand: n = mkBin(OXor, mkBin(OAnd, o, x), mkConst(~(u128)0, w)); break;
        case AtomicRMWInst::Max: n = mkIte(mkBin(OSlt, o, x), x, o); break; case AtomicRMWInst::Min: n = mkIte(mkBin(OSlt, o, x), o, x); break;
        case AtomicRMWInst::UMax: n = mkIte(mkBin(OUlt, o, x), x, o); break; case AtomicRMWInst::UMin: n = mkIte(mkBin(OUlt, o, x), o, x); break;
        default: throw PathEnd{1, "unsupported atomicrmw"};
      }
      store(s, {nullptr, a}, fromEx(n), w, true);
      atomicAcquire(s, a, in.ord); atomicRelease(s, a, in.ord, true); granted(s);
      f = s.F(); f->r[in.dst] = old; f->pc++; return;
    }
    case KCmpXchg: {
      u64 a = concretize(s, val(f, in.o[0]), 64); unsigned w = in.ow[1];
      visible(s, P_Rmw, a, (w + 7) / 8);
      f = s.F();
      Slot old = load(s, {nullptr, a}, w, true);
      Slot ex = val(f, in.o[1]), nv = val(f, in.o[2]);
      bool ok = (!old.e && !ex.e) ? old.c == ex.c : decide(s, mkBin(OEq, toEx(old, w), toEx(ex, w)));
      if (ok) { store(s, {nullptr, a}, nv, w, true); atomicAcquire(s, a, in.ord); atomicRelease(s, a, in.ord, true); }
      else atomicAcquire(s, a, in.ord2);
      granted(s);
      f = s.F(); f->r[in.dst] = old; f->r[in.dst + 1] = {nullptr, ok}; f->pc++; return;
    }
    case KFence: {
      if (s.mt && in.aux != SyncScope::SingleThread) {
        Thread &t = s.T();
        if (isAcq(in.ord)) t.vc.join(t.acqPending);
        if (isRel(in.ord)) { t.relFence = t.vc; t.vc.c[s.cur]++; }
      }
      f->pc++; return;
    }
    case KGep: {
      Slot p = val(f, in.o[0]);
      u64 c = in.off; Ex e = p.e; if (!e) c += p.c;
      for (auto &g : in.gi) {
        Slot i = val(f, in.o[g.o]); unsigned w = in.ow[g.o];
        if (!i.e) c += (u64)((w == 64 ? (i64)i.c : (i64)sextv(i.c, w)) * g.scale);
        else {
          Ex x = mkBin(OMul, w < 64 ? mkSExt(i.e, 64) : i.e, mkConst((u64)g.scale, 64));
          e = e ? mkBin(OAdd, e, x) : x;
        }
      }
      if (!e) f->r[in.dst] = {nullptr, c}; else set(f, in.dst, mkBin(OAdd, e, mkConst(c, 64)));
      f->pc++; return;
    }
    case KAlloca: {
      u64 n = concretize(s, val(f, in.o[0]), in.ow[0]);
      f = s.F();
      u64 a = alloc(s, n * (u64)in.off, OK_Stack);
      f->allocas.push_back(a >> 32); f->r[in.dst] = {nullptr, a}; f->pc++; return;
    }
    case KBr: takeEdge(s, f, in.ed[0]); return;
    case KCondBr: {
      Slot c = val(f, in.o[0]);
      bool b = c.e ? decide(s, c.e) : c.c;
      takeEdge(s, s.F(), in.ed[b ? 0 : 1]); return;
    }
    case KSwitch: {
      Slot c = val(f, in.o[0]);
      if (!c.e) {
        for (size_t i = 0; i < in.cases.size(); i++) if ((u64)in.cases[i] == c.c) { takeEdge(s, f, in.ed[i + 1]); return; }
        takeEdge(s, f, in.ed[0]); return;
      }
      unsigned w = in.ow[0];
      for (size_t i = 0; i < in.cases.size(); i++) if (decide(s, mkBin(OEq, c.e, mkConst(in.cases[i], w)))) { takeEdge(s, s.F(), in.ed[i + 1]); return; }
      takeEdge(s, s.F(), in.ed[0]); return;
    }
    case KRet: {
      std::vector<Slot> r; for (auto &o : in.o) r.push_back(val(f, o));
      Thread &t = s.T();
      popFrame(s, t);
      if (t.st.empty()) return;   // handled by runState
      Frame *c = s.F(); const Inst &ci = c->fn->code[c->pc];
      if (ci.dst >= 0) for (size_t i = 0; i < r.size() && i < ci.nl; i++) c->r[ci.dst + i] = r[i];
      finishCall(s, ci);
      return;
    }
    case KCall: case KInvoke: doCall(s, in); return;
    case KResume: { u64 obj = concretize(s, val(f, in.o[0]), 64); u64 ti = rd64(s, obj - 96); unwind(s, obj, ti); return; }
    case KUnreachable: violate(s, "unreachable", "execution reached code the compiler considers unreachable"); return;
    case KExtractV: for (u32 i = 0; i < in.nl; i++) { Slot v = val(f, in.o[in.aux + i]); f->r[in.dst + i] = v; } f->pc++; return;
    case KInsertV: {
      std::vector<Slot> r(in.nl); u32 m = in.o.size() - in.nl;
      for (u32 i = 0; i < in.nl; i++) r[i] = val(f, in.o[i]);
      for (u32 i = 0; i < m; i++) r[in.aux + i] = val(f, in.o[in.nl + i]);
      for (u32 i = 0; i < in.nl; i++) f->r[in.dst + i] = r[i];
      f->pc++; return;
    }
    case KVecShuffle: {
      std::vector<Slot> r(in.nl);
      for (u32 i = 0; i < in.nl; i++) { i64 m = (i64)in.cases[i]; r[i] = m < 0 ? Slot{nullptr, 0} : val(f, in.o[m]); }
      for (u32 i = 0; i < in.nl; i++) f->r[in.dst + i] = r[i];
      f->pc++; return;
    }
    default: {
      std::string n = in.I ? in.I->getOpcodeName() : "?";
      throw PathEnd{1, "unsupported instruction " + n + " in " + demangle(f->fn->name)};
    }
  }
}

// plain::Logger members: 1 constructor, 2 constructor from bool (fatal), 3 destructor, 4 append
static int logKind(const std::string &n, Function *F) {
  if (n.compare(0, 16, "_ZN5plain6Logger") != 0) return 0;
  std::string r = n.substr(16);
  if (r.size() > 2 && r[0] == 'C' && isdigit((unsigned char)r[1]) && r[2] == 'E') return r[3] == 'b' ? 2 : 1;
  if (r.size() > 2 && r[0] == 'D' && isdigit((unsigned char)r[1]) && r[2] == 'E') return 3;
  if (r.compare(0, 3, "lsE") == 0 || r.compare(0, 7, "6appendE") == 0) return 4;
  return 0;
}
void Exec::doCall(State &s, const Inst &in) {
  Frame *f = s.F();
  if (in.builtin == -3) { if (in.dst >= 0) for (u32 i = 0; i < in.nl; i++) f->r[in.dst + i] = {nullptr, 0}; finishCall(s, in); return; }
  if (in.builtin == -4) { intrinsic(s, in); return; }
  Function *F = in.callee;
  if (!F) {
    u64 a = concretize(s, val(f, in.o[in.aux]), 64);
    auto it = funcOfId.find(a >> 32);
    if (it == funcOfId.end() || a != addrOf(a >> 32)) violate(s, "memory", "call through an invalid function pointer");
    F = it->second; f = s.F();
  }
  if (F->isIntrinsic()) throw PathEnd{1, "indirect intrinsic"};
  std::vector<Slot> args; for (u32 i = 0; i < in.aux; i++) args.push_back(val(f, in.o[i]));
  FnInfo *fi = info(F);
  if (fi->bid == -9) { fi->bid = builtinId(fi->name); fi->logk = opt.realLog ? 0 : logKind(fi->name, F); }
  int b = fi->bid;
  if (fi->logk) {   // log output is discarded; a fatal log record ends the program
    fi->hits++; bool flag = fi->logk == 2 && args.size() > 1 && decide(s, mkNot(mkBin(OEq, mkZExt(toEx(args[1], in.ow[1]), 64), mkConst(0, 64))));
    if (fi->logk == 1 || fi->logk == 2) { u64 p = concretize(s, args[0], 64); store(s, {nullptr, p}, {nullptr, flag ? 1ull : 0ull}, 64); }
    else if (fi->logk == 3) { u64 p = concretize(s, args[0], 64); if (rd64(s, p) == 1) violate(s, "abort", "fatal log record"); }
    if (F->getReturnType()->isVoidTy()) finishCall(s, in); else finishCallRet(s, in, args[0], 64);
    return;
  }
  if (b >= 0) { fi->hits++; builtin(s, in, b, args); return; }
  if (F->isDeclaration()) throw PathEnd{1, "call to unmodelled external function " + demangle(fi->name)};
  for (size_t i = 0; i + 1 < in.byval.size(); i += 2) {
    u64 src = concretize(s, args[in.byval[i]], 64);
    u64 d = alloc(s, in.byval[i + 1], OK_Stack); memcopy(s, d, src, in.byval[i + 1]); args[in.byval[i]] = {nullptr, d};
    s.F()->allocas.push_back(d >> 32);
  }
  pushFrame(s, fi, args);
  if (fi->isVarArg) {
    Frame *nf = s.F(); u32 fixed = fi->argSlots.size();
    for (size_t i = fixed; i < args.size(); i++) { nf->va.push_back(args[i]); nf->vaw.push_back(in.ow[i]); }
  }
}

void Exec::intrinsic(State &s, const Inst &in) {
  Frame *f = s.F();
  auto A = [&](unsigned i) { return val(f, in.o[in.argBeg[i]]); };
  auto W = [&](unsigned i) { return in.ow[in.argBeg[i]]; };
  auto X = [&](unsigned i) { return toEx(A(i), W(i)); };
  auto ret = [&](Ex e) { set(s.F(), in.dst, e); finishCall(s, in); };
  unsigned w = in.w;
  switch (in.callee->getIntrinsicID()) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::stackrestore: case Intrinsic::vaend:
      finishCall(s, in); return;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: ret(mkConst(0, 64)); return;
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::arithmetic_fence: case Intrinsic::ptrmask:
      if (in.callee->getIntrinsicID() == Intrinsic::ptrmask) { ret(mkBin(OAnd, X(0), X(1))); return; }
      ret(X(0)); return;
    case Intrinsic::is_constant: ret(mkConst(0, 1)); return;
    case Intrinsic::objectsize: ret(mkConst(~(u128)0, w)); return;
    case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: violate(s, "abort", "trap instruction"); return;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
      u64 n = concretize(s, A(2), W(2)); if (!n) { finishCall(s, in); return; }
      u64 d = concretize(s, A(0), 64), c = concretize(s, A(1), 64);
      memcopy(s, d, c, n); finishCall(s, in); return;
    }
    case Intrinsic::memset: case Intrinsic::memset_inline: {
      u64 n = concretize(s, A(2), W(2)); if (!n) { finishCall(s, in); return; }
      u64 d = concretize(s, A(0), 64); Slot v = A(1);
      u32 id; Slot off; resolve(s, {nullptr, d}, n, true, id, off);
      if (s.mt && opt.races) raceCheck(s, id, off.c, n, true, false);
      Obj *o = s.mem.getW(id);
      for (u64 i = 0; i < n; i++) wrx(o, off.c + i, v, 8);
      finishCall(s, in); return;
    }
    case Intrinsic::umin: ret(mkIte(mkBin(OUlt, X(0), X(1)), X(0), X(1))); return;
    case Intrinsic::umax: ret(mkIte(mkBin(OUlt, X(0), X(1)), X(1), X(0))); return;
    case Intrinsic::smin: ret(mkIte(mkBin(OSlt, X(0), X(1)), X(0), X(1))); return;
    case Intrinsic::smax: ret(mkIte(mkBin(OSlt, X(0), X(1)), X(1), X(0))); return;
    case Intrinsic::abs: { Ex a = X(0); ret(mkIte(mkBin(OSlt, a, mkConst(0, w)), mkBin(OSub, mkConst(0, w), a), a)); return; }
    case Intrinsic::bswap: { Ex a = X(0); Ex r = mkExtract(a, 0, 8); for (unsigned i = 1; i < w / 8; i++) r = mkConcat(r, mkExtract(a, i * 8, 8)); ret(r); return; }
    case Intrinsic::bitreverse: { Ex a = X(0); Ex r = mkExtract(a, 0, 1); for (unsigned i = 1; i < w; i++) r = mkConcat(r, mkExtract(a, i, 1)); ret(r); return; }
    case Intrinsic::ctpop: { Ex a = X(0); Ex r = mkConst(0, w); for (unsigned i = 0; i < w; i++) r = mkBin(OAdd, r, w == 1 ? a : mkZExt(mkExtract(a, i, 1), w)); ret(r); return; }
    case Intrinsic::ctlz: { Ex a = X(0); Ex r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(a, i, 1), mkConst(w - 1 - i, w), r); ret(r); return; }
    case Intrinsic::cttz: { Ex a = X(0); Ex r = mkConst(w, w); for (int i = (int)w - 1; i >= 0; i--) r = mkIte(mkExtract(a, i, 1), mkConst(i, w), r); ret(r); return; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      bool left = in.callee->getIntrinsicID() == Intrinsic::fshl;
      Ex sh = mkBin(OURem, X(2), mkConst(w, w));
      Ex a = X(0), b = X(1), inv = mkBin(OSub, mkConst(w, w), sh), z = mkBin(OEq, sh, mkConst(0, w));
      Ex r = left ? mkBin(OOr, mkBin(OShl, a, sh), mkBin(OLShr, b, inv)) : mkBin(OOr, mkBin(OShl, a, inv), mkBin(OLShr, b, sh));
      ret(mkIte(z, left ? a : b, r)); return;
    }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow:
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      auto id = in.callee->getIntrinsicID(); Ex a = X(0), b = X(1); unsigned aw = W(0);
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      Op op = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? OAdd : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? OSub : OMul;
      unsigned ew = op == OMul ? std::min(2 * aw, 128u) : aw + 1;
      Ex ea = sg ? mkSExt(a, ew) : mkZExt(a, ew), eb = sg ? mkSExt(b, ew) : mkZExt(b, ew);
      Ex r = mkBin(op, a, b), er = mkBin(op, ea, eb);
      Ex ov = mkNot(mkBin(OEq, er, sg ? mkSExt(r, ew) : mkZExt(r, ew)));
      f = s.F(); set(f, in.dst, r); set(f, in.dst + 1, ov); finishCall(s, in); return;
    }
    case Intrinsic::usub_sat: ret(mkIte(mkBin(OUlt, X(0), X(1)), mkConst(0, w), mkBin(OSub, X(0), X(1)))); return;
    case Intrinsic::uadd_sat: { Ex r = mkBin(OAdd, X(0), X(1)); ret(mkIte(mkBin(OUlt, r, X(0)), mkConst(~(u128)0, w), r)); return; }
    case Intrinsic::fabs: ret(mkBin(OAnd, X(0), mkConst(maskw(w - 1), w))); return;
    case Intrinsic::floor: ret(mkF(OFRound, X(0), nullptr, w, 0)); return;
    case Intrinsic::ceil: ret(mkF(OFRound, X(0), nullptr, w, 1)); return;
    case Intrinsic::trunc: ret(mkF(OFRound, X(0), nullptr, w, 2)); return;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: ret(mkF(OFRound, X(0), nullptr, w, 3)); return;
    case Intrinsic::round: ret(mkF(OFRound, X(0), nullptr, w, 4)); return;
    case Intrinsic::sqrt: ret(mkF(OFSqrt, X(0), nullptr, w)); return;
    case Intrinsic::copysign: { Ex m = mkConst((u128)1 << (w - 1), w); ret(mkBin(OOr, mkBin(OAnd, X(0), mkConst(maskw(w - 1), w)), mkBin(OAnd, X(1), m))); return; }
    case Intrinsic::fmuladd: ret(mkF(OFAdd, mkF(OFMul, X(0), X(1), w), X(2), w)); return;
    case Intrinsic::maxnum: case Intrinsic::minnum: {
      bool mx = in.callee->getIntrinsicID() == Intrinsic::maxnum; Ex a = X(0), b = X(1);
      Ex c = mx ? mkF(OFLt, a, b, 1) : mkF(OFLt, b, a, 1);
      ret(mkIte(mkF(OFIsNan, a, nullptr, 1), b, mkIte(mkF(OFIsNan, b, nullptr, 1), a, mkIte(c, b, a)))); return;
    }
    case Intrinsic::is_fpclass: {
      Ex a = X(0); unsigned aw = W(0); u64 mask = A(1).c; unsigned mb = aw == 32 ? 23 : 52, eb = aw - 1 - mb;
      Ex man = mkExtract(a, 0, mb), exp = mkExtract(a, mb, eb), sg = mkExtract(a, aw - 1, 1);
      Ex m0 = mkBin(OEq, man, mkConst(0, mb)), e0 = mkBin(OEq, exp, mkConst(0, eb)), e1 = mkBin(OEq, exp, mkConst(~(u128)0, eb));
      Ex nan = mkBin(OAnd, e1, mkNot(m0)), inf = mkBin(OAnd, e1, m0), zero = mkBin(OAnd, e0, m0), sub = mkBin(OAnd, e0, mkNot(m0)), nor = mkBin(OAnd, mkNot(e0), mkNot(e1));
      Ex q = mkExtract(man, mb - 1, 1); Ex r = mkConst(0, 1); auto add = [&](unsigned bit, Ex e) { if (mask & bit) r = mkBin(OOr, r, e); };
      add(1, mkBin(OAnd, nan, mkNot(q))); add(2, mkBin(OAnd, nan, q)); add(4, mkBin(OAnd, inf, sg)); add(8, mkBin(OAnd, nor, sg)); add(16, mkBin(OAnd, sub, sg)); add(32, mkBin(OAnd, zero, sg));
      add(64, mkBin(OAnd, zero, mkNot(sg))); add(128, mkBin(OAnd, sub, mkNot(sg))); add(256, mkBin(OAnd, nor, mkNot(sg))); add(512, mkBin(OAnd, inf, mkNot(sg)));
      ret(r); return;
    }
    case Intrinsic::eh_typeid_for: { u64 a = concretize(s, A(0), 64); ret(mkConst(a ? a >> 32 : 1, 32)); return; }
    case Intrinsic::threadlocal_address: {
      auto *gv = cast<GlobalVariable>(cast<CallBase>(in.I)->getArgOperand(0)->stripPointerCasts());
      Thread &t = s.T(); auto it = t.tls.find(gv);
      u64 a;
      if (it != t.tls.end()) a = it->second;
      else {
        u64 sz = DL.getTypeAllocSize(gv->getValueType()); a = alloc(s, sz, OK_Global);
        Obj *o = s.mem.getW(a >> 32); std::fill(o->b.begin(), o->b.end(), 0);
        if (gv->hasInitializer()) writeInit(s, o, 0, gv->getInitializer());
        t.tls[gv] = a;
      }
      ret(mkConst(a, 64)); return;
    }
    case Intrinsic::vastart: {
      u64 ap = concretize(s, A(0), 64);
      u64 a = alloc(s, f->va.size() * 8 + 8, OK_Stack); s.F()->allocas.push_back(a >> 32);
      for (size_t i = 0; i < f->va.size(); i++) store(s, {nullptr, a + 8 * i}, fromEx(mkZExt(toEx(f->va[i], f->vaw[i]), 64)), 64);
      store(s, {nullptr, ap}, {nullptr, 48}, 32); store(s, {nullptr, ap + 4}, {nullptr, 176}, 32); store(s, {nullptr, ap + 8}, {nullptr, a}, 64); store(s, {nullptr, ap + 16}, {nullptr, 0}, 64);
      finishCall(s, in); return;
    }
    case Intrinsic::vacopy: { memcopy(s, concretize(s, A(0), 64), concretize(s, A(1), 64), 24); finishCall(s, in); return; }
    default:
      if (in.callee->getName() == "llvm.x86.sse2.pause") { visible(s, P_Yield, 0, 0); granted(s); finishCall(s, in); return; }
      throw PathEnd{1, "unsupported intrinsic " + in.callee->getName().str()};
  }
}

// ---------------------------------------------------------------- main loop
static size_t rssMb() {
  FILE *fp = fopen("/proc/self/statm", "r"); if (!fp) return 0; long a, b; if (fscanf(fp, "%ld %ld", &a, &b) != 2) b = 0; fclose(fp); return (size_t)b * 4096 / (1 << 20);
}
void Exec::runState(State *s) {
  try {
    for (;;) {
      if ((nInsts & 0xfff) == 0) {
        double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (dt > opt.timeLimit) { timedOut = true; throw PathEnd{1, "time limit"}; }
        if ((nInsts & 0xfffff) == 0 && rssMb() > opt.memLimitMb) { timedOut = true; throw PathEnd{1, "memory limit"}; }
      }
      Thread &t = s->T();
      if (t.st.empty()) {
        if (s->inCtors) {
          if (s->ctorIdx < ctors.size()) { pushFrame(*s, info(ctors[s->ctorIdx++]), {}); continue; }
          s->inCtors = false;
          Function *F = M.getFunction(opt.entry);
          pushFrame(*s, info(F), {}); continue;
        }
        if (s->cur == 0) throw PathEnd{0, ""};
        // thread finished
        t.finished = true; t.pk = P_None;
        try { schedule(*s); } catch (Reschedule &) {}
        continue;
      }
      s->insts++; nInsts++;
      if (s->insts > opt.maxInsts) throw PathEnd{1, "instruction bound reached on a path"};
      try { step(*s); } catch (Reschedule &) {}
    }
  } catch (PathEnd &e) {
    switch (e.kind) {
      case 0: nComplete++; for (auto &r : s->reached) reached.insert(r);
        if (samples.size() < 8) samples.push_back({"", s->model});
        break;
      case 1: nIncomplete++; incomplete[e.msg + (e.msg == "time limit" ? "" : " @ " + where(*s))]++; if (opt.verbose) fprintf(stderr, "incomplete: %s\n%s", e.msg.c_str(), stackStr(*s).c_str()); break;
      case 2: nViol++; break;
      case 3: nAssume++; break;
      case 4: nPruned++; break;
    }
  }
}
void Exec::run() {
  t0 = std::chrono::steady_clock::now();
  State *s = new State; s->id = nextStateId++;
  initMem(*s);
  s->th.resize(1); s->th[0].vc.c[0] = 1; s->th[0].pk = P_None;
  if (auto *gc = M.getGlobalVariable("llvm.global_ctors")) {
    std::vector<std::pair<u32, Function *>> v;
    if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer()))
      for (auto &op : ca->operands()) {
        auto *cs = cast<ConstantStruct>(op); auto *fn = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts());
        if (fn) v.push_back({(u32)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), fn});
      }
    std::stable_sort(v.begin(), v.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (auto &p : v) ctors.push_back(p.second);
  }
  work.push_back(s);
  while (!work.empty()) {
    State *x = work.back(); work.pop_back();
    cur = x;
    runState(x);
    delete x;
    if (timedOut || viols.size() >= opt.maxViol || nComplete + nIncomplete + nAssume + nPruned >= opt.maxPaths) break;
  }
  if (!work.empty() && viols.size() < opt.maxViol) { incomplete["unexplored states left (limit)"] += work.size(); nIncomplete += work.size(); }
}
