// C library models (compiled to bitcode, executed by the engine).
#include "vp_i.h"
#include "vp.h"
#include <cstdarg>
#include <cerrno>
#include <climits>
#include <pthread.h>
#include <time.h>
#include <sched.h>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#undef errno
extern "C" {
char __libc_single_threaded = 0;
void *__dso_handle = nullptr;
static thread_local int tl_errno;
int *__errno_location() noexcept { return &tl_errno; }
int64_t vp_clock_now() { return vp_i_clock_now(); }
void vp_clock_set(int64_t v) { vp_i_clock_set(v); }

void *malloc(size_t n) noexcept { return vp_i_malloc(n, 0); }
void free(void *p) noexcept { vp_i_free(p, 0); }
void *calloc(size_t a, size_t b) noexcept { void *p = vp_i_malloc(a * b, 0); if (p) __builtin_memset(p, 0, a * b); return p; }
void *realloc(void *p, size_t n) noexcept {
  if (!p) return malloc(n);
  uint64_t o = vp_i_usable_size(p); void *q = vp_i_malloc(n, 0); if (!q) return nullptr;
  __builtin_memcpy(q, p, o < n ? o : n); free(p); return q;
}
void *aligned_alloc(size_t, size_t n) noexcept { return vp_i_malloc(n, 0); }
int posix_memalign(void **r, size_t, size_t n) noexcept { *r = vp_i_malloc(n, 0); return *r ? 0 : 12; }
void abort() noexcept { vp_i_abort("abort() called"); }
void exit(int) noexcept { vp_i_abort("exit() called"); }
void _exit(int) { vp_i_abort("_exit() called"); }
void __assert_fail(const char *e, const char *, unsigned, const char *) noexcept {
  static char buf[300]; unsigned k = 0; const char *p = "assert() in the code failed: "; while (*p) buf[k++] = *p++; while (*e && k < 290) buf[k++] = *e++; buf[k] = 0;
  vp_i_abort(buf);
}
int __cxa_atexit(void (*)(void *), void *, void *) noexcept { return 0; }
int atexit(void (*)()) noexcept { return 0; }

size_t strlen(const char *s) noexcept { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) noexcept { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) noexcept { while (*a && *a == *b) a++, b++; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) noexcept { while (n && *a && *a == *b) a++, b++, n--; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
int tolower(int c) noexcept { return (int)vp_ite(c >= 'A' && c <= 'Z', (uint64_t)(c + 32), (uint64_t)c); }
int toupper(int c) noexcept { return (int)vp_ite(c >= 'a' && c <= 'z', (uint64_t)(c - 32), (uint64_t)c); }
int strcasecmp(const char *a, const char *b) noexcept { while (*a && tolower(*a) == tolower(*b)) a++, b++; return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
int strncasecmp(const char *a, const char *b, size_t n) noexcept { while (n && *a && tolower(*a) == tolower(*b)) a++, b++, n--; return n ? tolower((unsigned char)*a) - tolower((unsigned char)*b) : 0; }
char *vp_strchr(const char *s, int c) asm("strchr"); char *vp_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *vp_strrchr(const char *s, int c) asm("strrchr"); char *vp_strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
void *vp_memchr(const void *s, int c, size_t n) asm("memchr"); void *vp_memchr(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *)s;
  if (n <= 256 && vp_is_symbolic((unsigned char)c)) { size_t k = n; for (size_t i = n; i-- > 0;) k = vp_ite(p[i] == (unsigned char)c, i, k); return k == n ? nullptr : (void *)(p + k); }
  for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void *)(p + i); return nullptr; }
char *vp_strstr(const char *h, const char *n) asm("strstr"); char *vp_strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return nullptr; } }
char *strcpy(char *d, const char *s) noexcept { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) noexcept { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) noexcept { char *p = d + strlen(d); while (n-- && *s) *p++ = *s++; *p = 0; return d; }
char *strdup(const char *s) noexcept { size_t n = strlen(s) + 1; char *p = (char *)malloc(n); __builtin_memcpy(p, s, n); return p; }
char *strtok(char *, const char *) noexcept { vp_i_abort("strtok not modelled"); }
size_t wcslen(const wchar_t *s) noexcept { size_t n = 0; while (s[n]) n++; return n; }
wchar_t *wmemset(wchar_t *d, wchar_t c, size_t n) noexcept { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
int wmemcmp(const wchar_t *a, const wchar_t *b, size_t n) noexcept { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
int wcscmp(const wchar_t *a, const wchar_t *b) noexcept { while (*a && *a == *b) a++, b++; return *a == *b ? 0 : *a < *b ? -1 : 1; }
wchar_t *wcscpy(wchar_t *d, const wchar_t *s) noexcept { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
wchar_t *wmemcpy(wchar_t *d, const wchar_t *s, size_t n) noexcept { __builtin_memcpy(d, s, n * 4); return d; }
wchar_t *wmemmove(wchar_t *d, const wchar_t *s, size_t n) noexcept { __builtin_memmove(d, s, n * 4); return d; }
double pow(double b, double e) noexcept { int n = (int)e; if ((double)n != e || n < 0 || n > 400) vp_i_abort("pow: exponent not modelled"); double r = 1; while (n-- > 0) r *= b; return r; }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isalpha(int c) noexcept { return ((unsigned)c | 32) - 'a' < 26; }
int isalnum(int c) noexcept { return ((c >= '0') & (c <= '9')) | ((((unsigned)c | 32) - 'a') < 26); }
int isspace(int c) noexcept { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int isupper(int c) noexcept { return (c >= 'A') & (c <= 'Z'); }
int islower(int c) noexcept { return (c >= 'a') & (c <= 'z'); }
int isxdigit(int c) noexcept { return ((c >= '0') & (c <= '9')) | ((((unsigned)c | 32) - 'a') < 6); }
int isprint(int c) noexcept { return (c >= 32) & (c < 127); }
int ispunct(int c) noexcept { return isprint(c) && c != ' ' && !isalnum(c); }

static unsigned long long stou(const char *s, char **e, int base, bool sgn, bool &neg, bool &ovf) {
  const char *p = s; while (isspace((unsigned char)*p)) p++;
  neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
  else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; ovf = false; const char *b = p;
  for (;; p++) {
    int c = (unsigned char)*p, d;
    if (c >= '0' && c <= '9') d = c - '0'; else if ((c | 32) >= 'a' && (c | 32) <= 'z') d = (c | 32) - 'a' + 10; else break;
    if (d >= base) break;
    if (v > (ULLONG_MAX - d) / base) ovf = true; v = v * base + d;
  }
  if (e) *e = (char *)(p == b ? s : p);
  return v;
}
long long strtoll(const char *s, char **e, int b) noexcept { bool n, o; unsigned long long v = stou(s, e, b, true, n, o);
  if (n) { if (o || v > 1ull << 63) { tl_errno = ERANGE; return LLONG_MIN; } return (long long)(0 - v); }
  if (o || v > (unsigned long long)LLONG_MAX) { tl_errno = ERANGE; return LLONG_MAX; } return (long long)v; }
unsigned long long strtoull(const char *s, char **e, int b) noexcept { bool n, o; unsigned long long v = stou(s, e, b, false, n, o); if (o) { tl_errno = ERANGE; return ULLONG_MAX; } return n ? 0 - v : v; }
long strtol(const char *s, char **e, int b) noexcept { return strtoll(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) noexcept { return strtoull(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) noexcept { return strtoll(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) noexcept { return strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) noexcept { return strtoull(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) noexcept { return strtoull(s, e, b); }
int atoi(const char *s) noexcept { return (int)strtoll(s, nullptr, 10); }
long atol(const char *s) noexcept { return strtoll(s, nullptr, 10); }
long long atoll(const char *s) noexcept { return strtoll(s, nullptr, 10); }
// decimal text; correctly rounded while mantissa and power of ten are exact, otherwise not modelled
double strtod(const char *s, char **e) noexcept {
  const char *p = s; while (*p == ' ' || (*p >= 9 && *p <= 13)) p++; bool neg = *p == '-'; if (*p == '-' || *p == '+') p++;
  unsigned long long m = 0; int x = 0; bool any = false; if (*p == 'i' || *p == 'I' || *p == 'n' || *p == 'N' || (*p == '0' && (p[1] == 'x' || p[1] == 'X'))) vp_i_abort("number not modelled");
  for (; *p >= '0' && *p <= '9'; p++) { m = m * 10 + (unsigned)(*p - '0'); any = true; if (m >> 53) vp_i_abort("number not modelled"); }
  if (*p == '.') { const char *q = p + 1; for (; *q >= '0' && *q <= '9'; q++) { m = m * 10 + (unsigned)(*q - '0'); x--; any = true; if (m >> 53) vp_i_abort("number not modelled"); } if (any) p = q; }
  if (!any) { if (e) *e = (char *)s; return 0; }
  if (*p == 'e' || *p == 'E') { const char *q = p + 1; bool en = *q == '-'; if (*q == '-' || *q == '+') q++; if (*q >= '0' && *q <= '9') { int v = 0; for (; *q >= '0' && *q <= '9'; q++) if (v < 1000) v = v * 10 + *q - '0'; x += en ? -v : v; p = q; } }
  if (e) *e = (char *)p; double d = (double)m; if (m) { if (x > 22 || x < -22) vp_i_abort("number not modelled"); double t = 1; for (int i = 0; i < (x < 0 ? -x : x); i++) t *= 10; d = x < 0 ? d / t : d * t; } return neg ? -d : d;
}
float strtof(const char *s, char **e) noexcept { return (float)strtod(s, e); }
double atof(const char *s) noexcept { return strtod(s, nullptr); }

int vsnprintf(char *out, size_t n, const char *f, va_list ap) noexcept {
  size_t k = 0; auto put = [&](char c) { if (k + 1 < n) out[k] = c; k++; };
  for (; *f; f++) {
    if (*f != '%') { put(*f); continue; }
    f++; bool zero = false, left = false, alt = false; int width = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '#') alt = true; else if (*f == '+' || *f == ' ') {} else break; }
    if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    for (;; f++) { if (*f == 'l') lng++; else if (*f == 'z' || *f == 'j' || *f == 't') lng = 2; else if (*f == 'h') lng--; else break; }
    char tmp[32]; int m = 0; bool neg = false; const char *str = nullptr; int sl = 0;
    switch (*f) {
      case 'd': case 'i': { long long v = lng >= 1 ? va_arg(ap, long long) : va_arg(ap, int); if (lng == -2) v = (signed char)v; neg = v < 0; unsigned long long u = neg ? 0 - (unsigned long long)v : v; do { tmp[m++] = '0' + u % 10; u /= 10; } while (u); break; }
      case 'u': { unsigned long long u = lng >= 1 ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned); if (lng == -2) u = (unsigned char)u; do { tmp[m++] = '0' + u % 10; u /= 10; } while (u); break; }
      case 'x': case 'X': case 'p': { unsigned long long u = (lng >= 1 || *f == 'p') ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned); if (lng == -2) u = (unsigned char)u; do { unsigned d = u & 15; tmp[m++] = (char)vp_ite(d < 10, '0' + d, (*f == 'X' ? 'A' : 'a') + d - 10); u >>= 4; } while (u); break; }
      case 'c': tmp[m++] = (char)va_arg(ap, int); break;
      case 's': str = va_arg(ap, const char *); if (!str) str = "(null)"; while ((prec < 0 || sl < prec) && str[sl]) sl++; break;
      case '%': put('%'); continue;
      case 'f': { double d = va_arg(ap, double); if (prec < 0) prec = 6; unsigned long long b; memcpy(&b, &d, 8); neg = b >> 63; int x = (int)(b >> 52 & 2047); unsigned long long fr = b & ((1ull << 52) - 1); if (x) fr |= 1ull << 52; else x = 1; x -= 1075; if (x > 10 || prec > 9) vp_i_abort("snprintf number not modelled");
        unsigned __int128 v = fr; for (int i = 0; i < prec; i++) v *= 10; if (x >= 0) v <<= x; else if (x < -120) v = 0; else { unsigned __int128 r = v & (((unsigned __int128)1 << -x) - 1), h = (unsigned __int128)1 << (-x - 1); v >>= -x; if (r > h || (r == h && (v & 1))) v++; }
        for (int i = 0; i < prec || v; i++) { if (i == prec && prec) tmp[m++] = '.'; tmp[m++] = '0' + (int)(v % 10); v /= 10; } if (m <= prec + (prec > 0)) { if (m == prec && prec) tmp[m++] = '.'; tmp[m++] = '0'; } prec = -1; break; }
      default: vp_i_abort("snprintf conversion not modelled");
    }
    if (str) { for (int i = sl; !left && i < width; i++) put(' '); for (int i = 0; i < sl; i++) put(str[i]); for (int i = sl; left && i < width; i++) put(' '); continue; }
    int len = m + neg; if (prec > m) { while (m < prec) tmp[m++] = '0'; len = m + neg; }
    if (!left && !zero) for (int i = len; i < width; i++) put(' ');
    if (neg) put('-');
    if (!left && zero) for (int i = len; i < width; i++) put('0');
    while (m) put(tmp[--m]);
    if (left) for (int i = len; i < width; i++) put(' ');
  }
  if (n) out[k < n ? k : n - 1] = 0;
  return (int)k;
}
int snprintf(char *o, size_t n, const char *f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(o, n, f, ap); va_end(ap); return r; }
int sprintf(char *o, const char *f, ...) noexcept { va_list ap; va_start(ap, f); int r = vsnprintf(o, 1 << 20, f, ap); va_end(ap); return r; }
int vp_printf(const char *, ...) asm("printf"); int vp_printf(const char *, ...) { return 0; }
int vp_fprintf(void *, const char *, ...) asm("fprintf"); int vp_fprintf(void *, const char *, ...) { return 0; }
int vp_puts(const char *) asm("puts"); int vp_puts(const char *) { return 0; }
int vp_putchar(int) asm("putchar"); int vp_putchar(int) { return 0; }
int vp_fputc(int c, void *) asm("fputc"); int vp_fputc(int c, void *) { return c; }
int vp_fputs(const char *, void *) asm("fputs"); int vp_fputs(const char *, void *) { return 0; }
int vp_fflush(void *) asm("fflush"); int vp_fflush(void *) { return 0; }
size_t vp_fwrite(const void *, size_t, size_t m, void *) asm("fwrite"); size_t vp_fwrite(const void *, size_t, size_t m, void *) { return m; }
void vp_perror(const char *) asm("perror"); void vp_perror(const char *) {}
int *vp_stdout asm("stdout") = nullptr; int *vp_stderr asm("stderr") = nullptr;
// multi-byte characters of the C locale
size_t mbstowcs(wchar_t *d, const char *s, size_t n) noexcept { size_t i = 0; for (; !d || i < n; i++) { unsigned char c = s[i]; if (c >= 128) return (size_t)-1; if (d) d[i] = c; if (!c) break; } return i; }
size_t wcstombs(char *d, const wchar_t *s, size_t n) noexcept { size_t i = 0; for (; !d || i < n; i++) { wchar_t c = s[i]; if ((unsigned)c >= 128) return (size_t)-1; if (d) d[i] = (char)c; if (!c) break; } return i; }
char *strerror(int) noexcept { return (char *)"error"; }
char *vp_strerror_r(int, char *b, size_t n) asm("strerror_r"); char *vp_strerror_r(int, char *b, size_t n) { if (n) b[0] = 0; return b; }
int vp_xstrerror_r(int, char *b, size_t n) asm("__xpg_strerror_r"); int vp_xstrerror_r(int, char *b, size_t n) { if (n) b[0] = 0; return 0; }
char *getenv(const char *) noexcept { return nullptr; }
int getpid() noexcept { return 4242; }

// ---- clock
static int64_t ts2ns(const struct timespec *t) { return (int64_t)t->tv_sec * 1000000000 + t->tv_nsec; }
int clock_gettime(clockid_t, struct timespec *t) noexcept { int64_t n = vp_i_clock_now(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
time_t time(time_t *t) noexcept { time_t r = vp_i_clock_now() / 1000000000; if (t) *t = r; return r; }
int nanosleep(const struct timespec *t, struct timespec *) { vp_i_sleep(vp_i_clock_now() + ts2ns(t)); return 0; }
int clock_nanosleep(clockid_t, int fl, const struct timespec *t, struct timespec *) { vp_i_sleep((fl ? 0 : vp_i_clock_now()) + ts2ns(t)); return 0; }
int usleep(useconds_t u) { vp_i_sleep(vp_i_clock_now() + (int64_t)u * 1000); return 0; }
int sched_yield() noexcept { vp_i_yield(); return 0; }

// ---- pthreads
static uint64_t isrec(pthread_mutex_t *m) { return m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { return (int)vp_i_mutex_lock(m, isrec(m)); }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { return (int)vp_i_mutex_trylock(m, isrec(m)); }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { return (int)vp_i_mutex_unlock(m); }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) noexcept { __builtin_memset(m, 0, sizeof *m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) noexcept { return 0; }
int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) noexcept { __builtin_memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t *) noexcept { return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return (int)vp_i_cond_wait(c, m, 0, 0); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return (int)vp_i_cond_wait(c, m, 1, ts2ns(t)); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) { return (int)vp_i_cond_wait(c, m, 1, ts2ns(t)); }
int pthread_cond_signal(pthread_cond_t *c) noexcept { vp_i_cond_notify(c, 0); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) noexcept { vp_i_cond_notify(c, 1); return 0; }
pthread_t pthread_self() noexcept { return vp_i_thread_self() + 1; }
struct tm *localtime_r(const time_t *t, struct tm *r) noexcept {   // the zone is UTC
  int64_t d = *t / 86400, s = *t % 86400; if (s < 0) { s += 86400; d--; } memset(r, 0, sizeof *r); r->tm_hour = (int)(s / 3600); r->tm_min = (int)(s / 60 % 60); r->tm_sec = (int)(s % 60); r->tm_wday = (int)(((d + 4) % 7 + 7) % 7);
  int64_t z = d + 719468, era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153, y = yoe + era * 400 + (mp >= 10);
  r->tm_mday = (int)(doy - (153 * mp + 2) / 5 + 1); r->tm_mon = (int)(mp < 10 ? mp + 2 : mp - 10); r->tm_year = (int)(y - 1900); return r;
}
struct tm *localtime(const time_t *t) noexcept { static struct tm shared; return localtime_r(t, &shared); }
int pthread_setname_np(pthread_t, const char *) noexcept { return 0; }
int pthread_create(pthread_t *t, const pthread_attr_t *, void *(*f)(void *), void *a) noexcept { *t = vp_i_thread_create(f, a) + 1; return 0; }
int pthread_join(pthread_t t, void **) { return (int)vp_i_thread_join(t - 1); }
int pthread_detach(pthread_t t) noexcept { vp_i_thread_detach(t - 1); return 0; }

long syscall(long nr, ...) noexcept {
  va_list ap; va_start(ap, nr);
  if (nr == SYS_futex) {
    void *a = va_arg(ap, void *); long op = va_arg(ap, long) & 0x7f; long v = va_arg(ap, long); const struct timespec *ts = va_arg(ap, const struct timespec *);
    va_end(ap);
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) return (long)vp_i_futex_wake(a, (uint64_t)(uint32_t)v);
    int64_t dl = 0; if (ts) dl = ts2ns(ts) + (op == FUTEX_WAIT ? vp_i_clock_now() : 0);
    uint64_t r = vp_i_futex_wait(a, (uint32_t)v, ts != nullptr, dl);
    if (r) { tl_errno = (int)r; return -1; }
    return 0;
  }
  if (nr == SYS_gettid) return 4242 + (long)vp_i_thread_self();
  vp_i_abort("system call not modelled");
}

// ---- math on bit patterns
static uint64_t d2b(double d) { uint64_t b; __builtin_memcpy(&b, &d, 8); return b; }
static double b2d(uint64_t b) { double d; __builtin_memcpy(&d, &b, 8); return d; }
int ilogb(double x) noexcept {
  uint64_t b = d2b(x); int e = (int)((b >> 52) & 0x7ff); uint64_t m = b & 0xfffffffffffffull;
  if (e == 0x7ff) return m ? INT_MIN : INT_MAX;   // glibc: FP_ILOGBNAN = INT_MIN, inf = INT_MAX
  if (e == 0) { if (!m) return INT_MIN; int r = -1023; while (!(m & 0x8000000000000ull)) { m <<= 1; r--; } return r; }
  return e - 1023;
}
int ilogbf(float x) noexcept { if (x != x) return INT_MIN; return ilogb((double)x); }
double scalbn(double x, int n) noexcept {
  uint64_t b = d2b(x); int e = (int)((b >> 52) & 0x7ff); uint64_t s = b & 0x8000000000000000ull, m = b & 0xfffffffffffffull;
  if (e == 0x7ff) return x;
  if (e == 0) { if (!m) return x; e = 1; while (!(m & 0x10000000000000ull)) { m <<= 1; e--; } m &= 0xfffffffffffffull; }
  long r = (long)e + n;
  if (r >= 0x7ff) return b2d(s | 0x7ff0000000000000ull);
  if (r >= 1) return b2d(s | ((uint64_t)r << 52) | m);
  m |= 0x10000000000000ull; long sh = 1 - r; if (sh > 54) return b2d(s);
  uint64_t q = m >> sh, rem = m & ((1ull << sh) - 1), half = 1ull << (sh - 1);
  if (rem > half || (rem == half && (q & 1))) q++;
  return b2d(s | q);
}
double ldexp(double x, int n) noexcept { return scalbn(x, n); }
float ldexpf(float x, int n) noexcept { return (float)scalbn((double)x, n); }
float scalbnf(float x, int n) noexcept { return (float)scalbn((double)x, n); }
double frexp(double x, int *e) noexcept { if (x == 0 || x != x || x - x != 0) { *e = 0; return x; } int k = ilogb(x) + 1; *e = k; return scalbn(x, -k); }
float frexpf(float x, int *e) noexcept { return (float)frexp((double)x, e); }
double modf(double x, double *ip) noexcept { double t = __builtin_trunc(x); *ip = t; if (x - x != 0 && x == x) return __builtin_copysign(0.0, x); return __builtin_copysign(x - t, x); }
float modff(float x, float *ip) noexcept { float t = __builtin_truncf(x); *ip = t; if (x - x != 0 && x == x) return __builtin_copysignf(0.0f, x); return __builtin_copysignf(x - t, x); }
double floor(double x) noexcept; double trunc(double x) noexcept;
}
extern "C" void __tsan_init() {}
