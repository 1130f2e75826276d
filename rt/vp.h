// Harness interface. The same harness source is executed symbolically by vpsym and, for replay,
// compiled natively with g++ against vp_native.cc.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
void vp_symbolic(void *p, size_t n, const char *name);  // arbitrary bytes
void vp_assume(bool c);
void vp_check(bool c, const char *msg);                 // property assertion
void vp_fail(const char *msg) ;
void vp_reach(const char *label);                       // vacuity witness
uint64_t vp_concretize(uint64_t v);                     // split on every feasible value
int64_t vp_param(const char *name, int64_t dflt);       // bound, set by the tier
int vp_engine();                                        // 1 under the symbolic engine
int64_t vp_live_allocs();                               // live heap blocks
void vp_print(const char *m, uint64_t v);
void vp_prune();
uint64_t vp_ite(bool c, uint64_t a, uint64_t b);        // non-forking choice
bool vp_valid(const void *p, size_t n);
bool vp_is_symbolic(uint64_t v);                        // false in replay
void vp_clock_set(int64_t ns);                          // virtual monotonic clock
int64_t vp_clock_now();
}
static inline uint8_t vp_u8(const char *n) { uint8_t v; vp_symbolic(&v, 1, n); return v; }
static inline uint16_t vp_u16(const char *n) { uint16_t v; vp_symbolic(&v, 2, n); return v; }
static inline uint32_t vp_u32(const char *n) { uint32_t v; vp_symbolic(&v, 4, n); return v; }
static inline uint64_t vp_u64(const char *n) { uint64_t v; vp_symbolic(&v, 8, n); return v; }
static inline int8_t vp_i8(const char *n) { return (int8_t)vp_u8(n); }
static inline int16_t vp_i16(const char *n) { return (int16_t)vp_u16(n); }
static inline int32_t vp_i32(const char *n) { return (int32_t)vp_u32(n); }
static inline int64_t vp_i64(const char *n) { return (int64_t)vp_u64(n); }
static inline bool vp_bool(const char *n) { uint8_t v; vp_symbolic(&v, 1, n); vp_assume(v < 2); return v; }
// value in [lo,hi], left symbolic
static inline uint64_t vp_range(const char *n, uint64_t lo, uint64_t hi) {
  uint64_t v; vp_symbolic(&v, 8, n); vp_assume(v >= lo && v <= hi); return v;
}
// value in [lo,hi], one path per value
static inline uint64_t vp_pick(const char *n, uint64_t lo, uint64_t hi) {
  uint8_t b; vp_symbolic(&b, 1, n); vp_assume((uint64_t)b + lo <= hi); return vp_concretize((uint64_t)b + lo);
}
#define VP_HARNESS(name) extern "C" void vp_h_##name()
