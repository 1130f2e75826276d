// Stream <-> socket transfer under arbitrary partial sends/receives, would-block and errors.
#include "vp.h"
#include <string>
#include <cerrno>
#include <sys/types.h>
#include <sys/socket.h>
#include "plain/net/stream/basic.h"
#include "plain/net/socket/basic.h"
using namespace plain;
static uint8_t g_wire[1024]; static size_t g_sent; static uint8_t g_src[1024]; static size_t g_srclen, g_taken; static int g_mode; static int g_calls; static bool g_closed;
// possible outcomes of one transfer call
static ssize_t outcome(size_t len, bool snd) {
  g_calls++; if (g_calls > (int)vp_param("calls", 4)) { errno = EAGAIN; return -1; }
  uint8_t k = (uint8_t)vp_pick("io", 0, 5);
  if (k == 0) { errno = EAGAIN; return -1; }
  if (k == 1) { errno = ECONNRESET; return -1; }
  if (k == 2) return (ssize_t)len;
  if (k == 3) return len ? 1 : 0;
  if (k == 4) return (ssize_t)(len - len / 3);
  if (snd) { errno = EINTR; return -1; }
  g_closed = true; return 0;
}
extern "C" ssize_t send(int fd, const void *b, size_t n, int) {
  vp_check(fd == 7, "bytes go to the stream's own socket"); vp_check(n > 0, "no empty sends");
  ssize_t r = outcome(n, true); if (r > 0) { memcpy(g_wire + g_sent, b, (size_t)r); g_sent += (size_t)r; } return r;
}
extern "C" ssize_t recv(int fd, void *b, size_t n, int) {
  vp_check(fd == 7, "bytes come from the stream's own socket"); size_t left = g_srclen - g_taken; size_t m = n < left ? n : left;
  if (m == 0) { errno = EAGAIN; return -1; }
  ssize_t r = outcome(m, false); if (r > 0) { memcpy(b, g_src + g_taken, (size_t)r); g_taken += (size_t)r; } return r;
}
extern "C" int ioctl(int, unsigned long, ...) noexcept;
extern "C" int vp_ioctl(int, unsigned long, void *p) asm("ioctl");
static uint32_t g_avail;
extern "C" int vp_ioctl(int, unsigned long, void *p) { *(uint32_t *)p = g_avail; return 0; }
extern "C" int getsockopt(int, int, int, void *v, socklen_t *) noexcept { *(int *)v = 0; return 0; }
extern "C" int vp_close(int) asm("close"); extern "C" int vp_close(int) { return 0; }

VP_HARNESS(io_push) {
  auto sock = std::make_shared<net::socket::Basic>(7); net::stream::Basic s{sock};
  static uint8_t all[1024]; size_t tot = 0; static const size_t sz[] = {1, 90, 128, 0, 150}; int rounds = (int)vp_param("rounds", 2);
  for (int i = 0; i < rounds; i++) {
    size_t n = sz[vp_pick("n", 0, (uint64_t)vp_param("sizes", 4) - 1)]; vp_symbolic(all + tot, n, "data"); s.write(std::string_view((char *)all + tot, n)); tot += n;
    size_t before = g_sent; int32_t r = s.push();
    vp_check(r >= 0 ? (size_t)r == g_sent - before : r == -2, "push reports what it sent, or an error");
    vp_check(s.size() == tot - g_sent, "unsent bytes stay queued");
  }
  static uint8_t rest[1024]; size_t g = s.peek((std::byte *)rest, sizeof rest);
  vp_check(g + g_sent == tot, "no byte is lost or duplicated"); vp_check(memcmp(g_wire, all, g_sent) == 0, "wire carries a prefix of the written bytes in order"); vp_check(memcmp(rest, all + g_sent, g) == 0, "queue holds exactly the rest");
  vp_reach("end"); if (g_sent == tot && tot > 100) vp_reach("all_sent"); if (g_sent && g_sent < tot) vp_reach("partial");
}
VP_HARNESS(io_pull) {
  auto sock = std::make_shared<net::socket::Basic>(7); net::stream::Basic s{sock};
  static const size_t sz[] = {1, 20, 130, 300}; g_srclen = sz[vp_pick("src", 0, 3)]; vp_symbolic(g_src, g_srclen, "data");
  int rounds = (int)vp_param("rounds", 2); size_t drained = 0; static uint8_t out[1024];
  for (int i = 0; i < rounds; i++) {
    static const uint32_t av[] = {0, 1, 16, 140, 400}; g_avail = av[vp_pick("avail", 0, 4)];
    size_t before = g_taken; g_closed = false; int32_t r = s.pull(); size_t got = g_taken - before;
    vp_check(got ? r == (int32_t)got : r <= 0, "pull reports how many bytes arrived");
    if (g_closed) vp_check(r < 0, "peer shutdown is reported as an error, not as progress");
    vp_check(s.size() == g_taken - drained, "received bytes are queued");
    if (i == 0) { size_t d = vp_pick("drain", 0, 1) * (s.size() / 2); vp_check(s.read((std::byte *)out, d) == d, "drain"); vp_check(memcmp(out, g_src, d) == 0, "drained in order"); drained += d; }
  }
  size_t g = s.read((std::byte *)out, sizeof out); vp_check(g == g_taken - drained, "nothing lost"); vp_check(memcmp(out, g_src + drained, g) == 0, "bytes arrive in order");
  vp_reach("end"); if (g_taken == g_srclen && g_srclen == 300) vp_reach("all_received");
}
VP_HARNESS(io_dead) {   // a stream whose socket is gone transfers nothing and keeps its data
  auto sock = std::make_shared<net::socket::Basic>(7); net::stream::Basic s{sock}; uint8_t d[3]; vp_symbolic(d, 3, "d"); s.write(std::string_view((char *)d, 3));
  if (vp_bool("how")) sock.reset(); else (void)sock->close();
  vp_check(s.push() == 0 && s.pull() == 0, "no transfer without a socket"); vp_check(g_calls == 0, "no system call without a socket"); uint8_t o[3]; vp_check(s.peek((std::byte *)o, 3) == 3 && !memcmp(o, d, 3), "data kept");
  vp_reach("end");
}
