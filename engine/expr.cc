#include "expr.h"
#include <cstring>
#include <cmath>
#include <cstdlib>
#include <cstdio>
#include <algorithm>
#include <unordered_set>
#include <deque>

namespace {
struct Arena {
  char *p = nullptr, *e = nullptr; u64 n = 0;
  Expr *get() {
    if (p == e) { size_t sz = sizeof(Expr) * 4096; p = (char *)malloc(sz); e = p + sz; }
    Expr *r = (Expr *)p; p += sizeof(Expr); n++; return r;
  }
} arena;
struct H {
  size_t operator()(Ex e) const {
    u64 h = e->op * 0x9E3779B97F4A7C15ull ^ e->width * 0xC2B2AE3D27D4EB4Full ^ e->aux * 0x165667B19E3779F9ull;
    h ^= (u64)e->val * 0xff51afd7ed558ccdull ^ (u64)(e->val >> 64);
    h = (h ^ (h >> 29)) * 0xbf58476d1ce4e5b9ull;
    h ^= (e->a ? e->a->id * 0x9E3779B1ull : 7) ; h = (h ^ (h >> 31)) * 0x94d049bb133111ebull;
    h ^= (e->b ? e->b->id * 0x85EBCA77ull : 5); h = (h ^ (h >> 30)) * 0xbf58476d1ce4e5b9ull;
    h ^= (e->c ? e->c->id * 0xC2B2AE3Dull : 3); h ^= h >> 27;
    return h;
  }
};
struct Q {
  bool operator()(Ex x, Ex y) const {
    return x->op == y->op && x->width == y->width && x->aux == y->aux && x->a == y->a &&
           x->b == y->b && x->c == y->c && x->val == y->val;
  }
};
std::unordered_set<Ex, H, Q> table;
u32 nextId = 1;

Ex raw(Op op, unsigned w, unsigned aux, Ex a, Ex b, Ex c, u128 v) {
  Expr t; memset(&t, 0, sizeof t);
  t.op = op; t.width = w; t.aux = aux; t.a = a; t.b = b; t.c = c; t.val = v;
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  Expr *n = arena.get(); *n = t; n->id = nextId++;
  u32 d = 0; for (Ex k : {a, b, c}) if (k && k->depth > d) d = k->depth;
  n->depth = d + 1;
  n->constTree = op == OConst ? 1 : 0;
  if (op == OIte && b->constTree && c->constTree && b->constTree + c->constTree <= 40)
    n->constTree = b->constTree + c->constTree;
  table.insert(n);
  return n;
}
float asf(u128 v) { u32 x = (u32)v; float f; memcpy(&f, &x, 4); return f; }
double asd(u128 v) { u64 x = (u64)v; double f; memcpy(&f, &x, 8); return f; }
u128 fromf(float f) { if (f != f) return 0x7fc00000u; u32 x; memcpy(&x, &f, 4); return x; }
u128 fromd(double f) { if (f != f) return 0x7ff8000000000000ull; u64 x; memcpy(&x, &f, 8); return x; }

u128 fold(Op op, unsigned w, unsigned aux, unsigned wa, u128 a, unsigned wb, u128 b, u128 c) {
  u128 m = maskw(w);
  switch (op) {
    case OAdd: return (a + b) & m;
    case OSub: return (a - b) & m;
    case OMul: return (a * b) & m;
    case OUDiv: return b ? a / b : m;
    case OURem: return b ? a % b : a;
    case OSDiv: {
      i128 x = sextv(a, w), y = sextv(b, w);
      if (!y) return x < 0 ? 1 : m;
      if (y == -1) return (u128)(-(u128)x) & m;
      return (u128)(x / y) & m;
    }
    case OSRem: {
      i128 x = sextv(a, w), y = sextv(b, w);
      if (!y) return a; if (y == -1) return 0;
      return (u128)(x % y) & m;
    }
    case OAnd: return a & b; case OOr: return a | b; case OXor: return a ^ b;
    case OShl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case OLShr: return b >= w ? 0 : (a >> (unsigned)b);
    case OAShr: { i128 x = sextv(a, w); return (u128)(x >> (unsigned)(b >= w ? w - 1 : b)) & m; }
    case OEq: return a == b; case OUlt: return a < b; case OUle: return a <= b;
    case OSlt: return sextv(a, wa) < sextv(b, wb); case OSle: return sextv(a, wa) <= sextv(b, wb);
    case OConcat: return ((a << wb) | b) & m;
    case OExtract: return (a >> aux) & m;
    case OZExt: return a;
    case OSExt: return (u128)sextv(a, wa) & m;
    case OIte: return a ? b : c;
    case OFAdd: return w == 32 ? fromf(asf(a) + asf(b)) : fromd(asd(a) + asd(b));
    case OFSub: return w == 32 ? fromf(asf(a) - asf(b)) : fromd(asd(a) - asd(b));
    case OFMul: return w == 32 ? fromf(asf(a) * asf(b)) : fromd(asd(a) * asd(b));
    case OFDiv: return w == 32 ? fromf(asf(a) / asf(b)) : fromd(asd(a) / asd(b));
    case OFEq: return wa == 32 ? asf(a) == asf(b) : asd(a) == asd(b);
    case OFLt: return wa == 32 ? asf(a) < asf(b) : asd(a) < asd(b);
    case OFLe: return wa == 32 ? asf(a) <= asf(b) : asd(a) <= asd(b);
    case OFIsNan: return wa == 32 ? asf(a) != asf(a) : asd(a) != asd(a);
    case OFToSI: {  // x86 semantics: out of range -> min value ("indefinite")
      double d = wa == 32 ? asf(a) : asd(a);
      unsigned cw = w <= 32 ? 32 : 64;      // cvttsd2si 32/64 then truncate
      i64 r;
      if (cw == 32) r = (d > -2147483649.0 && d < 2147483648.0) ? (i64)(i32)d : (i64)INT32_MIN;
      else r = (d >= -9223372036854775808.0 && d < 9223372036854775808.0) ? (i64)d : INT64_MIN;
      return (u128)r & m;
    }
    case OFToUI: {
      double d = wa == 32 ? asf(a) : asd(a);
      u64 r;
      if (w <= 32) r = (d > -9223372036854775808.0 && d < 9223372036854775808.0) ? (u64)(i64)d : (u64)INT64_MIN;
      else if (d != d) r = (u64)INT64_MIN;
      else if (d < 9223372036854775808.0) r = d >= -9223372036854775808.0 ? (u64)(i64)d : (u64)INT64_MIN;
      else r = d < 18446744073709551616.0 ? (u64)d : (u64)0;
      return (u128)r & m;
    }
    case OSIToF: { i128 x = sextv(a, wa); return w == 32 ? fromf((float)(i64)x) : fromd((double)(i64)x); }
    case OUIToF: return w == 32 ? fromf((float)(u64)a) : fromd((double)(u64)a);
    case OFCast: return w == 32 ? (wa == 32 ? a : fromf((float)asd(a))) : (wa == 64 ? a : fromd((double)asf(a)));
    case OFRound: {
      double d = w == 32 ? asf(a) : asd(a);
      d = aux == 0 ? floor(d) : aux == 1 ? ceil(d) : aux == 2 ? trunc(d) : aux == 4 ? round(d) : nearbyint(d);
      return w == 32 ? fromf((float)d) : fromd(d);
    }
    case OFSqrt: return w == 32 ? fromf(sqrtf(asf(a))) : fromd(sqrt(asd(a)));
    default: fprintf(stderr, "fold: bad op %d\n", op); abort();
  }
}
}  // namespace

u64 exprCount() { return arena.n; }
Ex mkConst(u128 v, unsigned w) {
  static Ex small[65][64];
  v &= maskw(w);
  if (w <= 64 && v < 64) {
    Ex &s = small[w][(unsigned)v];
    if (!s) s = raw(OConst, w, 0, 0, 0, 0, v);
    return s;
  }
  return raw(OConst, w, 0, 0, 0, 0, v);
}
Ex mkVar(u32 idx, unsigned w) { return raw(OVar, w, idx, 0, 0, 0, 0); }

Ex mkNot(Ex a) {
  if (a->isConst()) return mkConst(!a->val, 1);
  if (a->op == OXor && a->b->isConst()) return a->a;   // xor x,1
  if (a->op == OUlt) return mkBin(OUle, a->b, a->a);
  if (a->op == OUle) return mkBin(OUlt, a->b, a->a);
  if (a->op == OSlt) return mkBin(OSle, a->b, a->a);
  if (a->op == OSle) return mkBin(OSlt, a->b, a->a);
  return raw(OXor, 1, 0, a, mkConst(1, 1), 0, 0);
}

void uRange(Ex e, u128 &lo, u128 &hi, int d) {
  lo = 0; hi = maskw(e->width);
  if (e->isConst()) { lo = hi = e->val; return; }
  if (d <= 0) return;
  u128 al, ah, bl, bh;
  switch (e->op) {
    case OZExt: uRange(e->a, lo, hi, d - 1); break;
    case OIte:
      uRange(e->b, al, ah, d - 1); uRange(e->c, bl, bh, d - 1);
      lo = al < bl ? al : bl; hi = ah > bh ? ah : bh; break;
    case OAnd: uRange(e->a, al, ah, d - 1); uRange(e->b, bl, bh, d - 1); hi = ah < bh ? ah : bh; break;
    case OURem: uRange(e->b, bl, bh, d - 1); uRange(e->a, al, ah, d - 1);
      if (bl > 0) { hi = bh - 1; if (ah < hi) hi = ah; } else hi = ah; break;
    case OUDiv: uRange(e->b, bl, bh, d - 1); uRange(e->a, al, ah, d - 1);
      if (bl > 0) { hi = ah / bl; lo = al / bh; } break;
    case OAdd: uRange(e->a, al, ah, d - 1); uRange(e->b, bl, bh, d - 1);
      if (ah <= maskw(e->width) - bh) { lo = al + bl; hi = ah + bh; } break;
    case OMul: uRange(e->a, al, ah, d - 1); uRange(e->b, bl, bh, d - 1);
      if (e->width <= 64 && (ah == 0 || bh <= maskw(e->width) / ah)) { lo = al * bl; hi = ah * bh; } break;
    case OSub: uRange(e->a, al, ah, d - 1); uRange(e->b, bl, bh, d - 1);
      if (al >= bh) { lo = al - bh; hi = ah - bl; } break;
    case OConcat: uRange(e->a, al, ah, d - 1); uRange(e->b, bl, bh, d - 1);
      lo = (al << e->b->width) | bl; hi = (ah << e->b->width) | bh; break;
    case OExtract: if (e->aux == 0) { uRange(e->a, al, ah, d - 1); if (ah <= hi) { lo = al; hi = ah; } } break;
    case OLShr: if (e->b->isConst() && e->b->val < e->width) { uRange(e->a, al, ah, d - 1); lo = al >> (unsigned)e->b->val; hi = ah >> (unsigned)e->b->val; } break;
    default: break;
  }
}

static bool commutes(Op op) { return op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor || op == OEq; }
static bool isCmp(Op op) { return op >= OEq && op <= OSle; }
static Ex mapTree(Ex t, Op op, Ex k, bool treeLeft) {
  if (t->isConst()) return treeLeft ? mkBin(op, t, k) : mkBin(op, k, t);
  return mkIte(t->a, mapTree(t->b, op, k, treeLeft), mapTree(t->c, op, k, treeLeft));
}

Ex mkBin(Op op, Ex a, Ex b) {
  unsigned w = isCmp(op) ? 1 : a->width;
  if (a->width != b->width) { fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->width, b->width); abort(); }
  if (a->isConst() && b->isConst()) return mkConst(fold(op, w, 0, a->width, a->val, b->width, b->val, 0), w);
  if (commutes(op) && a->isConst()) std::swap(a, b);
  if (commutes(op) && !b->isConst() && a->id > b->id) std::swap(a, b);
  if (op != OSDiv && op != OSRem && op != OUDiv && op != OURem) {
    if (b->isConst() && a->constTree > 1) return mapTree(a, op, b, true);
    if (a->isConst() && b->constTree > 1) return mapTree(b, op, a, false);
  } else if (b->isConst() && b->val != 0 && a->constTree > 1) return mapTree(a, op, b, true);
  u128 m = maskw(a->width);
  bool bc = b->isConst(); u128 bv = b->val;
  switch (op) {
    case OAdd:
      if (bc && bv == 0) return a;
      if (bc && a->op == OAdd && a->b->isConst()) return mkBin(OAdd, a->a, mkConst(a->b->val + bv, w));
      if (!bc && a->op == OAdd && a->b->isConst()) return mkBin(OAdd, mkBin(OAdd, a->a, b), a->b);
      if (!bc && b->op == OAdd && b->b->isConst()) return mkBin(OAdd, mkBin(OAdd, a, b->a), b->b);
      if (a->op == OSub && a->b == b) return a->a;
      if (b->op == OSub && b->b == a) return b->a;
      if (w == 1) return mkBin(OXor, a, b);
      break;
    case OSub:
      if (a == b) return mkConst(0, w);
      if (bc) return mkBin(OAdd, a, mkConst(-bv, w));
      if (a->op == OAdd && a->b->isConst() && b->op == OAdd && b->b->isConst())
        return mkBin(OAdd, mkBin(OSub, a->a, b->a), mkConst(a->b->val - b->b->val, w));
      if (a->op == OAdd) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
      if (a->op == OAdd && a->b->isConst()) return mkBin(OAdd, mkBin(OSub, a->a, b), a->b);
      if (b->op == OAdd && b->b->isConst()) return mkBin(OAdd, mkBin(OSub, a, b->a), mkConst(-b->b->val, w));
      if (w == 1) return mkBin(OXor, a, b);
      break;
    case OMul:
      if (bc && bv == 0) return b;
      if (bc && bv == 1) return a;
      if (bc && bv && (bv & (bv - 1)) == 0) { unsigned s = 0; while (!((bv >> s) & 1)) s++; return mkBin(OShl, a, mkConst(s, w)); }
      if (bc && a->op == OMul && a->b->isConst()) return mkBin(OMul, a->a, mkConst(a->b->val * bv, w));
      break;
    case OUDiv:
      if (bc && bv == 1) return a;
      if (bc && bv && (bv & (bv - 1)) == 0) { unsigned s = 0; while (!((bv >> s) & 1)) s++; return mkBin(OLShr, a, mkConst(s, w)); }
      { u128 al, ah, bl, bh; uRange(a, al, ah); uRange(b, bl, bh); if (ah < bl) return mkConst(0, w); }
      break;
    case OURem:
      if (bc && bv && (bv & (bv - 1)) == 0) return mkBin(OAnd, a, mkConst(bv - 1, w));
      { u128 al, ah, bl, bh; uRange(a, al, ah); uRange(b, bl, bh); if (ah < bl) return a; }
      break;
    case OSDiv: if (bc && bv == 1) return a; break;
    case OSRem: break;
    case OAnd:
      if (bc && bv == 0) return b;
      if (bc && bv == m) return a;
      if (a == b) return a;
      if (w == 1 && !bc) { if (mkNot(a) == b) return mkConst(0, 1); break; }
      if (bc && a->op == OAnd && a->b->isConst()) return mkBin(OAnd, a->a, mkConst(a->b->val & bv, w));
      if (bc) {
        // contiguous mask -> extract
        unsigned lo = 0; while (!((bv >> lo) & 1)) lo++;
        unsigned n = 0; while (lo + n < w && ((bv >> (lo + n)) & 1)) n++;
        if ((bv >> lo) == maskw(n)) {
          Ex x = mkExtract(a, lo, n);
          if (lo) x = mkConcat(x, mkConst(0, lo));
          return mkZExt(x, w);
        }
        if (a->op == OZExt && a->a->width < w)
          return mkZExt(mkBin(OAnd, a->a, mkConst(bv, a->a->width)), w);
      }
      break;
    case OOr:
      if (bc && bv == 0) return a;
      if (bc && bv == m) return b;
      if (a == b) return a;
      if (w == 1) { if (!bc && mkNot(a) == b) return mkConst(1, 1); break; }
      {
        // disjoint or -> concat:  (zext x) | (y ++ 0_k) with x.width <= k
        for (int t = 0; t < 2; t++) {
          Ex x = t ? b : a, y = t ? a : b;
          if (x->op != OZExt) continue;
          unsigned k = 0; Ex hi = nullptr; unsigned zx = 0;
          Ex yy = y; unsigned pad = 0;
          if (yy->op == OZExt) { pad = w - yy->a->width; yy = yy->a; }
          if (yy->op == OConcat && yy->b->isConst() && yy->b->val == 0) { k = yy->b->width; hi = yy->a; }
          if (hi && x->a->width <= k) {
            zx = k - x->a->width;
            Ex lo = zx ? mkZExt(x->a, k) : x->a;
            Ex r = mkConcat(hi, lo);
            return pad ? mkZExt(r, w) : r;
          }
        }
        // (hi ++ lo0) | (hi0 ++ lo) with same split and zero parts
        if (a->op == OConcat && b->op == OConcat && a->b->width == b->b->width)
          return mkConcat(mkBin(OOr, a->a, b->a), mkBin(OOr, a->b, b->b));
        if (a->op == OConcat && bc)
          return mkConcat(mkBin(OOr, a->a, mkExtract(b, a->b->width, a->a->width)), mkBin(OOr, a->b, mkExtract(b, 0, a->b->width)));
      }
      break;
    case OXor:
      if (bc && bv == 0) return a;
      if (a == b) return mkConst(0, w);
      if (bc && w == 1) return mkNot(a);
      if (bc && a->op == OXor && a->b->isConst()) return mkBin(OXor, a->a, mkConst(a->b->val ^ bv, w));
      break;
    case OShl:
      if (bc) {
        if (bv >= w) return mkConst(0, w);
        if (bv == 0) return a;
        unsigned s = (unsigned)bv;
        return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
      }
      if (a->isConst() && a->val == 0) return a;
      break;
    case OLShr:
      if (bc) {
        if (bv >= w) return mkConst(0, w);
        if (bv == 0) return a;
        unsigned s = (unsigned)bv;
        return mkZExt(mkExtract(a, s, w - s), w);
      }
      if (a->isConst() && a->val == 0) return a;
      break;
    case OAShr:
      if (bc) {
        unsigned s = (unsigned)(bv >= w ? w - 1 : bv);
        if (s == 0) return a;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      break;
    case OEq: {
      if (a == b) return mkConst(1, 1);
      if (a->width == 1) { if (bc) return bv ? a : mkNot(a); return mkNot(mkBin(OXor, a, b)); }
      if (bc) {
        u128 lo, hi; uRange(a, lo, hi);
        if (bv < lo || bv > hi) return mkConst(0, 1);
        if (a->op == OZExt) return mkBin(OEq, a->a, mkConst(bv, a->a->width));
        if (a->op == OSExt) {
          if ((u128)(sextv(bv, a->a->width)) % 1 == 0 && ((u128)sextv(bv & maskw(a->a->width), a->a->width) & m) == bv)
            return mkBin(OEq, a->a, mkConst(bv, a->a->width));
          return mkConst(0, 1);
        }
        if (a->op == OAdd && a->b->isConst()) return mkBin(OEq, a->a, mkConst(bv - a->b->val, a->width));
        if (a->op == OXor && a->b->isConst()) return mkBin(OEq, a->a, mkConst(bv ^ a->b->val, a->width));
        if (a->op == OSub && a->a->isConst()) return mkBin(OEq, a->b, mkConst(a->a->val - bv, a->width));
        if (a->op == OConcat && (a->a->isConst() || a->b->isConst() || a->b->width % 8 == 0))
          return mkBin(OAnd, mkBin(OEq, a->a, mkConst(bv >> a->b->width, a->a->width)),
                       mkBin(OEq, a->b, mkConst(bv, a->b->width)));
        if (a->op == OSub && bv == 0) return mkBin(OEq, a->a, a->b);
        if (a->op == OIte) {
          if (a->b->isConst() && a->b->val != bv) return mkBin(OAnd, mkNot(a->a), mkBin(OEq, a->c, b));
          if (a->c->isConst() && a->c->val != bv) return mkBin(OAnd, a->a, mkBin(OEq, a->b, b));
        }
      } else {
        if (a->op == OZExt && b->op == OZExt && a->a->width == b->a->width) return mkBin(OEq, a->a, b->a);
        if (a->op == OAdd && b->op == OAdd && a->b == b->b) return mkBin(OEq, a->a, b->a);
        if (a->op == OAdd && a->a == b) return mkBin(OEq, a->b, mkConst(0, a->width));
        if (b->op == OAdd && b->a == a) return mkBin(OEq, b->b, mkConst(0, a->width));
        if (a->op == OConcat && b->op == OConcat && a->b->width == b->b->width)
          return mkBin(OAnd, mkBin(OEq, a->a, b->a), mkBin(OEq, a->b, b->b));
      }
      break;
    }
    case OUlt: case OUle: {
      if (a == b) return mkConst(op == OUle, 1);
      u128 al, ah, bl, bh; uRange(a, al, ah); uRange(b, bl, bh);
      if (op == OUlt) { if (ah < bl) return mkConst(1, 1); if (al >= bh) return mkConst(0, 1); }
      else { if (ah <= bl) return mkConst(1, 1); if (al > bh) return mkConst(0, 1); }
      if (a->op == OZExt && b->op == OZExt && a->a->width == b->a->width) return mkBin(op, a->a, b->a);
      if (a->op == OZExt && bc && bv <= maskw(a->a->width)) return mkBin(op, a->a, mkConst(bv, a->a->width));
      if (b->op == OZExt && a->isConst() && a->val <= maskw(b->a->width)) return mkBin(op, mkConst(a->val, b->a->width), b->a);
      if (op == OUlt && bc && bv == 1) return mkBin(OEq, a, mkConst(0, a->width));
      if (op == OUle && bc && bv == 0) return mkBin(OEq, a, b);
      if (op == OUle && a->isConst() && a->val == 1) return mkNot(mkBin(OEq, b, mkConst(0, b->width)));
      if (op == OUlt && a->isConst() && a->val == 0) return mkNot(mkBin(OEq, b, a));
      if (op == OUle && bc) return mkBin(OUlt, a, mkConst(bv + 1, a->width));            // bv != max by range
      if (op == OUle && a->isConst()) return mkBin(OUlt, mkConst(a->val - 1, a->width), b);
      break;
    }
    case OSlt: case OSle: {
      if (a == b) return mkConst(op == OSle, 1);
      // if both known non-negative, use unsigned
      u128 half = (u128)1 << (a->width - 1);
      u128 al, ah, bl, bh; uRange(a, al, ah); uRange(b, bl, bh);
      if (ah < half && bh < half) return mkBin(op == OSlt ? OUlt : OUle, a, b);
      if (ah < half && bl >= half) return mkConst(0, 1);
      if (al >= half && bh < half) return mkConst(1, 1);
      if (a->op == OSExt && b->op == OSExt && a->a->width == b->a->width) return mkBin(op, a->a, b->a);
      if (a->op == OSExt && bc) {
        unsigned n = a->a->width; i128 v = sextv(bv, b->width), mn = sextv((u128)1 << (n - 1), n), mx = -(mn + 1);
        if (v >= mn && v <= mx) return mkBin(op, a->a, mkConst((u128)v, n));
        if (v > mx) return mkConst(1, 1);
        return mkConst(0, 1);
      }
      if (b->op == OSExt && a->isConst()) {
        unsigned n = b->a->width; i128 v = sextv(a->val, a->width), mn = sextv((u128)1 << (n - 1), n), mx = -(mn + 1);
        if (v >= mn && v <= mx) return mkBin(op, mkConst((u128)v, n), b->a);
        if (v > mx) return mkConst(0, 1);
        return mkConst(1, 1);
      }
      break;
    }
    default: break;
  }
  return raw(op, w, 0, a, b, 0, 0);
}

Ex mkConcat(Ex hi, Ex lo) {
  unsigned w = hi->width + lo->width;
  if (w > 128) { fprintf(stderr, "concat too wide %u\n", w); abort(); }
  if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->width) | lo->val, w);
  if (hi->isConst() && hi->val == 0) return mkZExt(lo, w);
  if (hi->op == OExtract && lo->op == OExtract && hi->a == lo->a && hi->aux == lo->aux + lo->width)
    return mkExtract(hi->a, lo->aux, w);
  // (x ++ e1) ++ e2 with e1,e2 adjacent
  if (hi->op == OConcat && lo->op == OExtract && hi->b->op == OExtract && hi->b->a == lo->a &&
      hi->b->aux == lo->aux + lo->width)
    return mkConcat(hi->a, mkExtract(lo->a, lo->aux, hi->b->width + lo->width));
  if (hi->op == OConcat && hi->b->isConst() && lo->isConst())
    return mkConcat(hi->a, mkConst((hi->b->val << lo->width) | lo->val, hi->b->width + lo->width));
  if (hi->op == OZExt) return mkZExt(mkConcat(hi->a, lo), w);
  // right-associate so adjacent pieces meet: hi ++ (l1 ++ l2)
  if (lo->op == OConcat && hi->op == OExtract && lo->a->op == OExtract && lo->a->a == hi->a && hi->aux == lo->a->aux + lo->a->width)
    return mkConcat(mkExtract(hi->a, lo->a->aux, hi->width + lo->a->width), lo->b);
  return raw(OConcat, w, 0, hi, lo, 0, 0);
}

Ex mkExtract(Ex a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->width) return a;
  if (lo + w > a->width) { fprintf(stderr, "bad extract\n"); abort(); }
  if (a->isConst()) return mkConst(a->val >> lo, w);
  switch (a->op) {
    case OExtract: return mkExtract(a->a, a->aux + lo, w);
    case OConcat: {
      unsigned lw = a->b->width;
      if (lo >= lw) return mkExtract(a->a, lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->b, lo, w);
      return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
    }
    case OZExt: {
      unsigned lw = a->a->width;
      if (lo >= lw) return mkConst(0, w);
      if (lo + w <= lw) return mkExtract(a->a, lo, w);
      return mkZExt(mkExtract(a->a, lo, lw - lo), w);
    }
    case OSExt: {
      unsigned lw = a->a->width;
      if (lo + w <= lw) return mkExtract(a->a, lo, w);
      if (lo < lw) return mkSExt(mkExtract(a->a, lo, lw - lo), w);
      return mkSExt(mkExtract(a->a, lw - 1, 1), w);
    }
    case OIte: return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
    case OAnd: case OOr: case OXor:
      return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case OAdd: case OSub: case OMul:
      if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
      break;
    default: break;
  }
  return raw(OExtract, w, lo, a, 0, 0, 0);
}
Ex mkZExt(Ex a, unsigned w) {
  if (w == a->width) return a;
  if (a->isConst()) return mkConst(a->val, w);
  if (a->op == OZExt) return mkZExt(a->a, w);
  if (a->constTree > 1) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return raw(OZExt, w, 0, a, 0, 0, 0);
}
Ex mkSExt(Ex a, unsigned w) {
  if (w == a->width) return a;
  if (a->isConst()) return mkConst((u128)sextv(a->val, a->width), w);
  if (a->op == OSExt) return mkSExt(a->a, w);
  if (a->op == OZExt) return mkZExt(a, w);
  if (a->constTree > 1) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return raw(OSExt, w, 0, a, 0, 0, 0);
}
Ex mkIte(Ex c, Ex t, Ex f) {
  if (c->isConst()) return c->val ? t : f;
  if (t == f) return t;
  if (c->op == OXor && c->b->isConst()) return mkIte(c->a, f, t);
  if (t->width == 1) {
    if (t->isConst()) return t->val ? mkBin(OOr, c, f) : mkBin(OAnd, mkNot(c), f);
    if (f->isConst()) return f->val ? mkBin(OOr, mkNot(c), t) : mkBin(OAnd, c, t);
  }
  if (t->op == OIte && t->a == c) t = t->b;
  if (f->op == OIte && f->a == c) f = f->c;
  if (t == f) return t;
  return raw(OIte, t->width, 0, c, t, f, 0);
}
Ex mkF(Op op, Ex a, Ex b, unsigned w, unsigned aux) {
  if (a->isConst() && (!b || b->isConst()))
    return mkConst(fold(op, w, aux, a->width, a->val, b ? b->width : 0, b ? b->val : 0, 0), w);
  if (op == OFCast && a->width == w) return a;
  return raw(op, w, aux, a, b, 0, 0);
}

const std::vector<u32> &exprVars(Ex e) {
  static const std::vector<u32> empty;
  static std::deque<std::vector<u32>> pool;
  if (e->vars) return *e->vars;
  if (e->op == OConst) { e->vars = &empty; return empty; }
  if (e->op == OVar) { pool.push_back({e->aux}); e->vars = &pool.back(); return pool.back(); }
  const std::vector<u32> *best = nullptr; bool same = true;
  std::vector<u32> r;
  for (Ex k : {e->a, e->b, e->c}) if (k) {
    auto &v = exprVars(k);
    if (v.empty()) continue;
    if (!best) { best = &v; r = v; continue; }
    if (&v == best) continue;
    std::vector<u32> t; std::set_union(r.begin(), r.end(), v.begin(), v.end(), std::back_inserter(t));
    if (t.size() != r.size()) same = false;
    r.swap(t);
  }
  if (!best) { e->vars = &empty; return empty; }
  if (same) { e->vars = best; return *best; }
  pool.push_back(std::move(r)); e->vars = &pool.back();
  return pool.back();
}

static u64 stamp = 1;
static u128 ev(Ex e, const std::vector<u64> &m) {
  if (e->op == OConst) return e->val;
  if (e->op == OVar) return e->aux < m.size() ? (u128)m[e->aux] & maskw(e->width) : 0;
  if (e->evalStamp == stamp) return e->evalVal;
  u128 r;
  if (e->op == OIte) r = ev(e->a, m) ? ev(e->b, m) : ev(e->c, m);
  else {
    u128 a = ev(e->a, m), b = e->b ? ev(e->b, m) : 0;
    r = fold(e->op, e->width, e->aux, e->a->width, a, e->b ? e->b->width : 0, b, 0);
  }
  e->evalStamp = stamp; e->evalVal = r;
  return r;
}
u128 evalExpr(Ex e, const std::vector<u64> &m) { stamp++; return ev(e, m); }

std::string exprStr(Ex e, int d) {
  static const char *nm[] = {"c","v","+","-","*","/u","/s","%u","%s","&","|","^","<<",">>",">>s","==","<u","<=u","<s","<=s","++","ext","zx","sx","ite","f+","f-","f*","f/","f==","f<","f<=","nan","f2s","f2u","s2f","u2f","fcast","fround","fsqrt"};
  if (e->op == OConst) { char b[64]; snprintf(b, 64, "%llu:%u", (unsigned long long)(u64)e->val, e->width); return b; }
  if (e->op == OVar) return "v" + std::to_string(e->aux) + ":" + std::to_string(e->width);
  if (d == 0) return "...";
  std::string r = std::string("(") + nm[e->op];
  if (e->op == OExtract) r += "[" + std::to_string(e->aux) + "," + std::to_string(e->width) + "]";
  for (Ex k : {e->a, e->b, e->c}) if (k) r += " " + exprStr(k, d - 1);
  return r + ")";
}
