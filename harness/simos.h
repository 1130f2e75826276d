// A small socket kernel for the network harnesses: stream sockets with bounded buffers, accept queues, an
// edge-triggered epoll whose events come from a script run by the thread that waits for them.
#pragma once
#include "vp.h"
#include <cerrno>
#include <mutex>
#include <condition_variable>
#include <functional>
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/epoll.h>
#include <sys/select.h>
namespace sim {
enum { MAXFD = 20, BUF = 700 };
struct Sock { bool open, reset, listening, eof, inep; int sockerr, errin; uint8_t rx[BUF]; size_t rxlen, rxpos; uint8_t tx[BUF]; size_t txlen; uint64_t data; int closes; int peer; int ep; bool killed; };
static Sock fd[MAXFD]; static int nfd = 3; static int backlog[8]; static size_t nback, pback;
static std::mutex mu; static std::condition_variable cv; static bool killed, finished;
static bool bind_fails; static std::function<void()> after_send; static std::function<void(int)> after_close;
static std::function<int(epoll_event *)> script;   // fills in events, 0 when there are no more
static std::function<ssize_t(int, size_t)> send_policy, recv_policy;  // how much to transfer; -1 with errno
static int main_ep, last_ep;   // when set, only the waiter on this one gets events
static int mk() { int f = nfd++; if (f >= MAXFD) vp_prune(); fd[f].open = true; return f; }
static int incoming() { int f = mk(); backlog[nback++ & 7] = f; return f; }
static int listen_fd() { for (int i = 0; i < MAXFD; i++) if (fd[i].listening && (main_ep <= 0 || fd[i].ep == main_ep)) return i; return -1; }
static int evfd = -1;
static int ev_listen(epoll_event *e) { int l = listen_fd(); evfd = l; e->events = EPOLLIN; e->data.u64 = fd[l].data; return 1; }
static int ev_read(epoll_event *e, int f) { evfd = f; e->events = EPOLLIN; e->data.u64 = fd[f].data; return fd[f].inep ? 1 : 0; }
static void feed(int f, const void *p, size_t n) { memcpy(fd[f].rx + fd[f].rxlen, p, n); fd[f].rxlen += n; }
static void set_main(int ep) { std::unique_lock<std::mutex> l(mu); main_ep = ep; cv.notify_all(); }
static void wait_finished() { std::unique_lock<std::mutex> l(mu); cv.wait(l, [] { return finished; }); }
}
using namespace sim;
extern "C" {
int socket(int, int, int) noexcept { return mk(); }
int bind(int, const struct sockaddr *, socklen_t) noexcept { if (bind_fails) { errno = EADDRINUSE; return -1; } return 0; }
int listen(int f, int) noexcept { fd[f].listening = true; return 0; }
int accept(int f, struct sockaddr *, socklen_t *) { if (pback == nback) { errno = EAGAIN; return -1; } return backlog[pback++ & 7]; }
int connect(int f, const struct sockaddr *, socklen_t) { return 0; }
ssize_t send(int f, const void *b, size_t n, int) {
  if (f == -1) { errno = EBADF; return -1; }
  vp_check(f >= 0 && f < MAXFD && fd[f].open, "data is sent only on an open descriptor");
  if (fd[f].peer > 0) { std::unique_lock<std::mutex> l(mu); if (n && *(const char *)b == 'k') { killed = true; fd[fd[fd[f].peer].ep].killed = true; cv.notify_all(); } return (ssize_t)n; }
  ssize_t r = send_policy ? send_policy(f, n) : (ssize_t)n; if (r > 0) { memcpy(fd[f].tx + fd[f].txlen, b, (size_t)r); fd[f].txlen += (size_t)r; if (after_send) after_send(); } return r;
}
ssize_t recv(int f, void *b, size_t n, int) {
  if (f == -1) { errno = EBADF; return -1; }
  vp_check(f >= 0 && f < MAXFD && fd[f].open, "data is received only from an open descriptor");
  if (fd[f].peer > 0) { *(char *)b = 'w'; return 1; }
  if (fd[f].reset) { fd[f].sockerr = 0; errno = ECONNRESET; return -1; }
  size_t left = fd[f].rxlen - fd[f].rxpos; if (left == 0) { if (fd[f].eof) return 0; errno = EAGAIN; return -1; }
  size_t m = n < left ? n : left; ssize_t r = recv_policy ? recv_policy(f, m) : (ssize_t)m; if (r > 0) { memcpy(b, fd[f].rx + fd[f].rxpos, (size_t)r); fd[f].rxpos += (size_t)r; } return r;
}
int vps_ioctl(int f, unsigned long, void *p) asm("ioctl"); int vps_ioctl(int f, unsigned long, void *p) { if (f < 0) { errno = EBADF; return -1; } *(int *)p = (int)(fd[f].rxlen - fd[f].rxpos); return 0; }
int getsockopt(int f, int, int, void *v, socklen_t *) noexcept {
  if (f < 0) { errno = EBADF; return -1; } Sock &k = fd[f]; if (k.errin > 0 && --k.errin == 0) { k.sockerr = 104; k.eof = true; k.reset = true; }
  *(int *)v = k.sockerr; k.sockerr = 0; return 0; }
int setsockopt(int, int, int, const void *, socklen_t) noexcept { return 0; }
int vps_fcntl(int, int, ...) asm("fcntl"); int vps_fcntl(int, int, ...) { return 0; }
int vps_fcntl64(int, int, ...) asm("fcntl64"); int vps_fcntl64(int, int, ...) { return 0; }
int vps_close(int f) asm("close"); int vps_close(int f) { if (f >= 3 && f < MAXFD) { vp_check(fd[f].open, "a descriptor is closed once"); fd[f].open = false; fd[f].inep = false; fd[f].closes++; if (after_close) after_close(f); } return 0; }
int shutdown(int f, int) noexcept { if (f < 0) { errno = EBADF; return -1; } fd[f].eof = true; return 0; }
int socketpair(int, int, int, int *p) noexcept { p[0] = mk(); p[1] = mk(); fd[p[0]].peer = p[1]; fd[p[1]].peer = p[0]; return 0; }
int getsockname(int, struct sockaddr *a, socklen_t *l) noexcept { memset(a, 0, 16); a->sa_family = AF_INET; *l = 16; return 0; }
int getpeername(int, struct sockaddr *a, socklen_t *l) noexcept { memset(a, 0, 16); a->sa_family = AF_INET; *l = 16; return 0; }
int epoll_create(int) noexcept { return last_ep = mk(); }
int epoll_ctl(int ep, int op, int f, struct epoll_event *e) noexcept {
  if (f < 0) { errno = EBADF; return -1; }
  if (op == EPOLL_CTL_ADD) { if (!fd[f].open || fd[f].inep) { errno = EEXIST; return -1; } fd[f].inep = true; fd[f].ep = ep; fd[f].data = e->data.u64; } else { if (!fd[f].inep) { errno = ENOENT; return -1; } fd[f].inep = false; } return 0;
}
int epoll_wait(int ep, struct epoll_event *e, int max, int) {
  if (main_ep) { std::unique_lock<std::mutex> l(mu); cv.wait(l, [ep] { return fd[ep].killed || main_ep == ep; }); if (main_ep != ep) return 0; }
  if (!finished) { int n = script(e); if (n) return n; }
  std::unique_lock<std::mutex> l(mu); finished = true; cv.notify_all(); cv.wait(l, [ep] { return fd[ep].killed; }); return 0;
}
int select(int n, fd_set *r, fd_set *, fd_set *x, struct timeval *) {
  for (int i = 0; i < n && i < MAXFD; i++) if (FD_ISSET(i, r) && !fd[i].open) { errno = EBADF; return -1; }
  epoll_event e; for (int i = 0; i < MAXFD; i++) fd[i].inep = fd[i].open && i < n && FD_ISSET(i, r);
  FD_ZERO(x);
  if (!finished) { int k = script(&e); if (k < 0) { FD_ZERO(r); return k; } if (k) { FD_ZERO(r); if (fd[evfd].inep) FD_SET(evfd, r); return 1; } }
  FD_ZERO(r); std::unique_lock<std::mutex> l(mu); finished = true; cv.notify_all(); cv.wait(l, [] { return killed; }); return 0;
}
}
