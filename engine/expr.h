// Hash-consed bit-vector expression DAG with on-construction simplification.
// Widths 1..128. Floating point values are carried as their IEEE bit patterns.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
typedef int64_t i64; typedef int32_t i32;

enum Op : u8 {
  OConst, OVar,
  OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor, OShl, OLShr, OAShr,
  OEq, OUlt, OUle, OSlt, OSle,
  OConcat, OExtract, OZExt, OSExt, OIte,
  OFAdd, OFSub, OFMul, OFDiv, OFEq, OFLt, OFLe, OFIsNan,
  OFToSI, OFToUI, OSIToF, OUIToF, OFCast,
  OFRound /*aux: 0 floor 1 ceil 2 trunc 3 rne 4 rna*/, OFSqrt
};
struct Expr {
  Op op; u8 constTree; u16 width; u32 aux; u32 id; u32 depth;
  const Expr *a, *b, *c;
  u128 val;
  mutable void *z3b, *z3v;              // cached z3 asts (bool / bit-vector)
  mutable const std::vector<u32> *vars; // sorted variable ids, lazily computed
  mutable u64 evalStamp; mutable u128 evalVal;
  bool isConst() const { return op == OConst; }
};
typedef const Expr *Ex;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextv(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ s) - s);
}

Ex mkConst(u128 v, unsigned w);
Ex mkVar(u32 idx, unsigned w);
Ex mkBin(Op op, Ex a, Ex b);    // arithmetic, bitwise, shifts, comparisons
Ex mkConcat(Ex hi, Ex lo);
Ex mkExtract(Ex a, unsigned lo, unsigned w);
Ex mkZExt(Ex a, unsigned w);
Ex mkSExt(Ex a, unsigned w);
Ex mkIte(Ex c, Ex t, Ex f);
Ex mkNot(Ex a);                 // width-1 negation
Ex mkF(Op op, Ex a, Ex b, unsigned w, unsigned aux = 0);

const std::vector<u32> &exprVars(Ex e);
void uRange(Ex e, u128 &lo, u128 &hi, int depth = 6);
u128 evalExpr(Ex e, const std::vector<u64> &model);
u64 exprCount();
std::string exprStr(Ex e, int depth = 5);
