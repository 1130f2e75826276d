// inet_* address text conversions (same results as glibc for the inputs the harnesses use).
#include "vp_i.h"
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cerrno>
#define W __attribute__((weak))
extern "C" {
W int inet_aton(const char *s, void *out) {
  uint32_t part[4]; int n = 0;
  for (;;) {
    if (n == 4) return 0;
    uint64_t v = 0; int base = 10, digits = 0; const char *p = s;
    if (*p == '0') { if (p[1] == 'x' || p[1] == 'X') { base = 16; p += 2; } else { base = 8; } }
    for (;; p++) { int c = (unsigned char)*p, d; if (c >= '0' && c <= '9') d = c - '0'; else if (base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10; else break; if (d >= base) return 0; v = v * base + d; if (v > 0xffffffffu) return 0; digits++; }
    if (!digits) return 0;
    part[n++] = (uint32_t)v; s = p; if (*s != '.') break; s++;
  }
  if (*s && *s != ' ' && *s != '\t' && *s != '\n') return 0;
  uint32_t r = part[n - 1]; static const uint32_t lim[] = {0xffffffffu, 0xffffffu, 0xffffu, 0xffu}; if (r > lim[n - 1]) return 0;
  for (int i = 0; i < n - 1; i++) { if (part[i] > 255) return 0; r |= part[i] << (24 - 8 * i); }
  r = __builtin_bswap32(r); memcpy(out, &r, 4); return 1;
}
W uint32_t inet_addr(const char *s) { uint32_t r; return inet_aton(s, &r) ? r : 0xffffffffu; }
static int p4(const char *s, uint8_t *o) {
  for (int i = 0; i < 4; i++) { int v = 0, n = 0; while (*s >= '0' && *s <= '9') { if (n && v == 0) return 0; v = v * 10 + (*s++ - '0'); if (v > 255) return 0; n++; } if (!n) return 0; o[i] = (uint8_t)v; if (i < 3) { if (*s++ != '.') return 0; } }
  return *s == 0;
}
W int inet_pton(int af, const char *s, void *out) {
  if (af == 2) { uint8_t o[4]; if (!p4(s, o)) return 0; memcpy(out, o, 4); return 1; }
  if (af != 10) { errno = EAFNOSUPPORT; return -1; }
  uint8_t t[16]; memset(t, 0, 16); int n = 0, gap = -1; if (*s == ':') { if (*++s != ':') return 0; }
  const char *tok = s; unsigned v = 0; int dg = 0;
  for (int c; (c = (unsigned char)*s++) != 0;) {
    int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
    if (d >= 0) { if (dg == 4) return 0; v = v << 4 | (unsigned)d; if (v > 0xffff) return 0; dg++; continue; }
    if (c == ':') { tok = s; if (!dg) { if (gap >= 0) return 0; gap = n; continue; } if (*s == 0) return 0; if (n + 2 > 16) return 0; t[n++] = (uint8_t)(v >> 8); t[n++] = (uint8_t)v; dg = 0; v = 0; continue; }
    if (c == '.' && n + 4 <= 16 && p4(tok, t + n)) { n += 4; dg = 0; break; }
    return 0;
  }
  if (dg) { if (n + 2 > 16) return 0; t[n++] = (uint8_t)(v >> 8); t[n++] = (uint8_t)v; }
  if (gap >= 0) { if (n == 16) return 0; int m = n - gap; for (int i = 1; i <= m; i++) { t[16 - i] = t[gap + m - i]; t[gap + m - i] = 0; } n = 16; }
  if (n != 16) return 0; memcpy(out, t, 16); return 1;
}
static char *d10(char *p, unsigned v) { if (v >= 100) *p++ = (char)('0' + v / 100); if (v >= 10) *p++ = (char)('0' + v / 10 % 10); *p++ = (char)('0' + v % 10); return p; }
static char *x16(char *p, unsigned v) { bool on = false; for (int i = 12; i >= 0; i -= 4) { unsigned d = v >> i & 15; if (d || on || !i) { *p++ = (char)(d < 10 ? '0' + d : 'a' + d - 10); on = true; } } return p; }
W const char *inet_ntop(int af, const void *src, char *dst, unsigned size) noexcept {
  const uint8_t *a = (const uint8_t *)src; char b[64], *p = b;
  if (af == 2) { for (int i = 0; i < 4; i++) { if (i) *p++ = '.'; p = d10(p, a[i]); } }
  else if (af == 10) {
    unsigned w[8]; for (int i = 0; i < 8; i++) w[i] = (unsigned)a[2 * i] << 8 | a[2 * i + 1];
    int bb = -1, bl = 0; for (int i = 0; i < 8;) { if (w[i]) { i++; continue; } int j = i; while (j < 8 && !w[j]) j++; if (j - i > bl && j - i >= 2) { bb = i; bl = j - i; } i = j; }
    for (int i = 0; i < 8; i++) {
      if (bb >= 0 && i >= bb && i < bb + bl) { if (i == bb) *p++ = ':'; continue; }
      if (i) *p++ = ':';
      if (i == 6 && bb == 0 && (bl == 6 || (bl == 7 && w[7] != 1) || (bl == 5 && w[5] == 0xffff))) { for (int k = 0; k < 4; k++) { if (k) *p++ = '.'; p = d10(p, a[12 + k]); } break; }
      p = x16(p, w[i]);
    }
    if (bb >= 0 && bb + bl == 8) *p++ = ':';
  } else { errno = EAFNOSUPPORT; return nullptr; }
  *p++ = 0; if ((size_t)(p - b) > size) { errno = ENOSPC; return nullptr; } memcpy(dst, b, (size_t)(p - b)); return dst;
}
__attribute__((weak)) extern const unsigned char in6addr_any[16] = {0}; 
}
