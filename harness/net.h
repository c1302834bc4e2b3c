#pragma once
// A model of the kernel's descriptors: pipes, eventfds, epoll (level triggered), TCP/UDP sockets and plain "devices" whose readiness the harness sets.
// The results of send/recv/accept/connect/epoll_ctl are choices.  The same model is linked into the symbolic and the replay build.
#include "tenv.h"
#include "errs.h"
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <stdarg.h>
#ifndef NETMAX_FDS
#define NETMAX_FDS 16
#endif
#ifndef NETMAX_EPS
#define NETMAX_EPS 2
#endif
#ifndef NET_PIPE
#define NET_PIPE 65536
#endif
enum NetKind { NK_FREE, NK_PIPE_R, NK_PIPE_W, NK_EVENTFD, NK_EPOLL, NK_DEV, NK_LISTEN, NK_TCP, NK_UDP, NK_USED };
enum { NET_MAX = NETMAX_FDS, NET_CAP = NET_PIPE };
struct NetFd {
  int kind, mate, nonblock, serial; uint64_t cnt; // eventfd value or bytes in a pipe
  uint32_t ready;                                 // NK_DEV: readiness set by the harness
  uint32_t reg[NETMAX_EPS]; uint64_t regdata[NETMAX_EPS];           // registration in each epoll instance (index), 0 none; armed flag in bit 31
  // sockets
  size_t sent; int state;                                      // 0 new, 1 connecting, 2 connected, 3 refused
  int peer_eof, rxerr, txerr, blocked;            // blocked: not writable until the next idle turn
  std::string rx, tx; std::vector<std::string> dgrams; std::vector<struct sockaddr_in> from, to; std::vector<int> backlog; struct sockaddr_in addr; int soerr;
};
static NetFd nfd[NET_MAX]; static int net_eps = 0, net_ep[NETMAX_EPS], net_serial = 0, net_open = 0, net_sigpipe = 0;
static int net_ctl_fail = 0, net_maxfd = NET_MAX;          // epoll_ctl may fail that many times; descriptors run out at net_maxfd
static int net_send_faults = 0, net_recv_faults = 0;   // how many sends / receives may give something other than complete success
static size_t net_send_max = (size_t)-1;               // a socket takes at most that many bytes before it is not writable until the next idle turn
static int net_send_kinds = 5, net_keep = 0, net_last_timeout = 0, net_waits = 0;
static void net_turn();                                // the loop starts to wait
static bool net_idle(int ep, int timeout);             // nothing is ready: let the outside world act; false = time-out
#ifdef NET_CLOSE_HOOK
static void net_closing(int fd);                       // a descriptor is about to be closed
#endif
#ifdef NET_THREADS
static pthread_mutex_t net_m = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t net_c = PTHREAD_COND_INITIALIZER;
#define NET_LOCK() pthread_mutex_lock(&net_m)
#define NET_UNLOCK() pthread_mutex_unlock(&net_m)
#define NET_WAKE() pthread_cond_broadcast(&net_c)
#define NET_WAIT() pthread_cond_wait(&net_c, &net_m)
struct NetGuard { NetGuard() { NET_LOCK(); } ~NetGuard() { NET_WAKE(); NET_UNLOCK(); } };
#define NET_GUARD NetGuard net_guard_
#else
#define NET_GUARD
#define NET_LOCK() ((void)0)
#define NET_UNLOCK() ((void)0)
#define NET_WAKE() ((void)0)
#define NET_WAIT() sym_fail("a blocking call waits for ever")
#endif
static const uint32_t NET_ARMED = 1u << 20;
static int net_new(int kind) {
  for (int i = 3; i < net_maxfd; i++) if (nfd[i].kind == NK_FREE) { NetFd& f = nfd[i]; f = NetFd(); f.kind = kind; f.mate = -1; f.serial = ++net_serial; net_open++; return i; }
  errno = EMFILE; return -1;
}
static bool net_ok(int fd) { return fd >= 0 && fd < NET_MAX && nfd[fd].kind != NK_FREE; }
static uint32_t net_ready(int fd) {
  NetFd& f = nfd[fd]; uint32_t r = 0;
  switch (f.kind) {
  case NK_PIPE_R: case NK_EVENTFD: if (f.cnt) r |= EPOLLIN; break;
  case NK_PIPE_W: if (nfd[f.mate].cnt < NET_CAP) r |= EPOLLOUT; break;
  case NK_DEV: r = f.ready; break;
  case NK_LISTEN: if (!f.backlog.empty()) r |= EPOLLIN; break;
  case NK_UDP: if (!f.dgrams.empty() || f.rxerr) r |= EPOLLIN; r |= EPOLLOUT; break;
  case NK_TCP:
    if (f.state == 0) return EPOLLOUT | EPOLLHUP;
    if (f.state == 1) return 0;
    if (f.state == 3) return EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP;
    if (!f.rx.empty() || f.peer_eof || f.rxerr) r |= EPOLLIN; if ((f.rxerr && f.rxerr != EAGAIN && f.rxerr != EINTR) || f.txerr) r |= EPOLLERR | EPOLLHUP | EPOLLIN; if (!f.blocked || f.txerr) r |= EPOLLOUT; break;
  }
  return r;
}
static int net_epidx(int ep) { for (int i = 0; i < net_eps; i++) if (net_ep[i] == ep) return i; return -1; }
static uint32_t net_armed(int ep, int fd) { uint32_t r = nfd[fd].reg[net_epidx(ep)]; return r & NET_ARMED ? r & ~NET_ARMED : 0xffffffffu; } // 0xffffffff: not registered
static void net_peer_connect(int lfd, uint16_t port) { NetFd& l = nfd[lfd]; l.backlog.push_back(port); }
// throw() as in glibc's headers
typedef void (*net_sigh)(int); static net_sigh net_sig[70];
static int net_setup_faults = 0;                        // bind, listen: how many may fail
static int net_accept_faults = 0;                       // accept: how many may be interrupted or find the connection gone already
extern "C" {
int epoll_create(int) throw() { int fd = net_new(NK_EPOLL); if (fd < 0) return -1; for (int i = 0; i < net_eps; i++) if (net_ep[i] == -1) { net_ep[i] = fd; for (int k = 0; k < NET_MAX; k++) nfd[k].reg[i] = 0; return fd; } if (net_eps < NETMAX_EPS) net_ep[net_eps++] = fd; return fd; }
int epoll_create1(int) throw() { return epoll_create(1); }
int pipe(int p[2]) throw() { int a = net_new(NK_PIPE_R), b = a < 0 ? -1 : net_new(NK_PIPE_W); if (b < 0) { if (a >= 0) { nfd[a].kind = NK_FREE; net_open--; } errno = EMFILE; return -1; } p[0] = a; p[1] = b; nfd[p[0]].mate = p[1]; nfd[p[1]].mate = p[0]; return 0; }
int pipe2(int p[2], int fl) throw() { if (pipe(p) != 0) return -1; if (fl & O_NONBLOCK) nfd[p[0]].nonblock = nfd[p[1]].nonblock = 1; return 0; }
int eventfd(unsigned v, int fl) throw() { int fd = net_new(NK_EVENTFD); if (fd < 0) return -1; nfd[fd].cnt = v; nfd[fd].nonblock = fl & EFD_NONBLOCK ? 1 : 0; return fd; }
int epoll_ctl(int ep, int op, int fd, struct epoll_event* e) throw() {
  NET_LOCK(); int r = -1, x = net_epidx(ep);
  if (x < 0 || !net_ok(fd)) errno = EBADF;
  else if (net_ctl_fail > 0 && op == EPOLL_CTL_ADD && sym_bool("ctl")) { net_ctl_fail--; errno = ENOSPC; }
  else { uint32_t& g = nfd[fd].reg[x]; bool in = g & NET_ARMED;
    if (op == EPOLL_CTL_ADD ? in : !in) errno = in ? EEXIST : ENOENT;
    else { r = 0; if (op == EPOLL_CTL_DEL) g = 0; else { g = e->events | NET_ARMED; nfd[fd].regdata[x] = e->data.u64; } } }
  NET_WAKE(); NET_UNLOCK(); return r;
}
int epoll_wait(int ep, struct epoll_event* ev, int max, int timeout) {
  NET_LOCK(); int x = net_epidx(ep); net_last_timeout = timeout; net_waits++; net_turn();
  while (true) {
    int c[NET_MAX], n = 0; for (int i = 3; i < NET_MAX; i++) if (nfd[i].kind && (nfd[i].reg[x] & NET_ARMED)) { uint32_t m = net_ready(i) & ((nfd[i].reg[x] & ~NET_ARMED) | EPOLLERR | EPOLLHUP); if (m) c[n++] = i; }
    if (n) {
      
#ifdef NET_FIRST
      int first = 0;
#else
      int first = n > 1 ? sym_choice(n, "first") : 0;
#endif
      if (n > max) n = max;
      for (int k = 0; k < n; k++) { int i = c[(first + k) % n]; ev[k].events = net_ready(i) & ((nfd[i].reg[x] & ~NET_ARMED) | EPOLLERR | EPOLLHUP); ev[k].data.u64 = nfd[i].regdata[x]; if (nfd[i].reg[x] & EPOLLONESHOT) nfd[i].reg[x] = NET_ARMED; }
      NET_UNLOCK(); return n;
    }
    if (!net_idle(ep, timeout)) { NET_UNLOCK(); return 0; }
    if (!net_keep) for (int i = 3; i < NET_MAX; i++) nfd[i].blocked = 0, nfd[i].sent = 0; net_keep = 0;
  }
}
ssize_t read(int fd, void* b, size_t n) {
  if (fd < 3) return syscall(SYS_read, fd, b, n);
  NET_LOCK(); ssize_t r = -1; if (!net_ok(fd)) errno = EBADF;
  else { NetFd& f = nfd[fd];
    while (!f.cnt && !f.nonblock) NET_WAIT();
    if (!f.cnt) errno = EAGAIN;
    else if (f.kind == NK_EVENTFD) { if (n < 8) errno = EINVAL; else { memcpy(b, &f.cnt, 8); f.cnt = 0; r = 8; } }
    else { r = n < f.cnt ? n : f.cnt; memset(b, '1', r); f.cnt -= r; }
  }
  NET_WAKE(); NET_UNLOCK(); return r;
}
ssize_t write(int fd, const void* b, size_t n) {
  if (fd < 3) return syscall(SYS_write, fd, b, n);
  NET_LOCK(); ssize_t r = -1; if (!net_ok(fd)) errno = EBADF;
  else if (nfd[fd].kind == NK_EVENTFD) { uint64_t v; memcpy(&v, b, 8); nfd[fd].cnt += v; r = 8; }
  else { NetFd& f = nfd[nfd[fd].mate]; while (f.cnt >= NET_CAP && !nfd[fd].nonblock) NET_WAIT(); if (f.cnt >= NET_CAP) errno = EAGAIN; else { f.cnt += n; r = n; } }
  NET_WAKE(); NET_UNLOCK(); return r;
}
int close(int fd) {
  if (fd >= 0 && fd < 3) return 0;
  NET_LOCK(); int r = -1; CHECK(fd >= 0 && fd < NET_MAX && nfd[fd].kind != NK_FREE, "only open descriptors are closed, each once");
#ifdef NET_CLOSE_HOOK
  net_closing(fd);
#endif
  nfd[fd].kind = NK_FREE; for (int i = 0; i < NETMAX_EPS; i++) nfd[fd].reg[i] = 0; net_open--; r = 0; for (int i = 0; i < net_eps; i++) if (net_ep[i] == fd) net_ep[i] = -1;
  NET_WAKE(); NET_UNLOCK(); return r;
}
int fcntl(int fd, int cmd, ...) { NET_GUARD; va_list ap; va_start(ap, cmd); int a = va_arg(ap, int); va_end(ap); if (!net_ok(fd)) { errno = EBADF; return -1; } if (cmd == F_GETFL) return (nfd[fd].nonblock ? O_NONBLOCK : 0) | O_RDWR; if (cmd == F_SETFL) nfd[fd].nonblock = (a & O_NONBLOCK) ? 1 : 0; return 0; }
int ioctl(int fd, unsigned long req, ...) throw() { NET_GUARD; va_list ap; va_start(ap, req); int* p = va_arg(ap, int*); va_end(ap); if (!net_ok(fd)) { errno = EBADF; return -1; } if (req == FIONBIO) nfd[fd].nonblock = *p ? 1 : 0; return 0; }
net_sigh signal(int s, net_sigh h) throw() { if (s == SIGPIPE && h == SIG_IGN) net_sigpipe = 1; if (s >= 0 && s < 70) net_sig[s] = h; return SIG_DFL; }
in_addr_t inet_addr(const char* s) throw() { uint32_t v[4]; for (int i = 0; i < 4; i++) { if (*s < '0' || *s > '9') return INADDR_NONE; v[i] = 0; while (*s >= '0' && *s <= '9') v[i] = v[i] * 10 + (*s++ - '0'); if (v[i] > 255 || *s != (i < 3 ? '.' : 0)) return INADDR_NONE; s++; } return htonl(v[0] << 24 | v[1] << 16 | v[2] << 8 | v[3]); }
int socket(int, int type, int) throw() { NET_GUARD; int fd = net_new((type & 15) == SOCK_DGRAM ? NK_UDP : NK_TCP); if (fd >= 0 && (type & SOCK_NONBLOCK)) nfd[fd].nonblock = 1; return fd; }
int setsockopt(int fd, int, int, const void*, socklen_t) throw() { NET_GUARD; return net_ok(fd) ? 0 : -1; }
int getsockopt(int fd, int, int opt, void* v, socklen_t*) throw() { NET_GUARD; if (!net_ok(fd)) { errno = EBADF; return -1; } if (opt == SO_ERROR) { *(int*)v = nfd[fd].soerr; nfd[fd].soerr = 0; } return 0; }
int bind(int fd, const struct sockaddr* a, socklen_t) throw() { NET_GUARD; if (!net_ok(fd)) { errno = EBADF; return -1; } if (net_setup_faults > 0 && sym_bool("bind")) { net_setup_faults--; errno = EADDRINUSE; return -1; } nfd[fd].addr = *(const struct sockaddr_in*)a; return 0; }
int listen(int fd, int) throw() { NET_GUARD; if (!net_ok(fd)) { errno = EBADF; return -1; } if (net_setup_faults > 0 && sym_bool("listen")) { net_setup_faults--; errno = EADDRINUSE; return -1; } nfd[fd].kind = NK_LISTEN; return 0; }
int accept(int fd, struct sockaddr* a, socklen_t*) {
  NET_GUARD;
  if (!net_ok(fd) || nfd[fd].kind != NK_LISTEN) { errno = EBADF; return -1; } if (nfd[fd].backlog.empty()) { if (!nfd[fd].nonblock) NET_WAIT(); errno = EAGAIN; return -1; }
  if (net_accept_faults > 0) switch (sym_choice(3, "accept")) { case 1: net_accept_faults--; errno = EINTR; return -1; case 2: net_accept_faults--; errno = ECONNABORTED; return -1; }
  int c = net_new(NK_TCP); if (c < 0) return -1; NetFd& f = nfd[c]; f.state = 2; memset(&f.addr, 0, sizeof f.addr); f.addr.sin_family = AF_INET; f.addr.sin_addr.s_addr = htonl(0x0a000001); f.addr.sin_port = htons((uint16_t)nfd[fd].backlog.front()); nfd[fd].backlog.erase(nfd[fd].backlog.begin()); if (a) memcpy(a, &f.addr, sizeof f.addr); return c;
}
int net_connect_result(int fd); // 0 established at once, 1 in progress, 2 refused at once
int connect(int fd, const struct sockaddr* a, socklen_t) {
  NET_GUARD; if (!net_ok(fd)) { errno = EBADF; return -1; } NetFd& f = nfd[fd]; f.addr = *(const struct sockaddr_in*)a; int r = net_connect_result(fd);
  if (r == 0) { f.state = 2; return 0; } if (r == 1) { f.state = 1; errno = EINPROGRESS; return -1; } f.state = 3; errno = hard_errno("cerr"); return -1;
}
static ssize_t net_send_(int fd, const void* b, size_t n, int fl) {
  if (!net_ok(fd)) { errno = EBADF; return -1; } NetFd& f = nfd[fd];
  if (f.kind == NK_TCP && (f.txerr || f.state == 3)) { CHECK((fl & MSG_NOSIGNAL) || net_sigpipe, "writing to a connection the peer has ended does not kill the process (SIGPIPE)"); errno = EPIPE; return -1; }
  if ((f.kind == NK_TCP && f.state == 0) || f.kind == NK_LISTEN) { CHECK((fl & MSG_NOSIGNAL) || net_sigpipe, "writing to an unconnected socket does not kill the process (SIGPIPE)"); errno = EPIPE; return -1; }
  if (f.state == 1 || f.blocked) { if (!f.nonblock) NET_WAIT(); errno = EAGAIN; return -1; }
  if (n && net_send_faults > 0) switch (sym_choice(net_send_kinds, "send")) {
    case 1: net_send_faults--; if (n > 1) { n = 1 + sym_choice(n - 1, "sent"); f.blocked = 1; } break;
    case 2: net_send_faults--; f.blocked = 1; errno = EAGAIN; return -1;
    case 3: net_send_faults--; errno = EINTR; return -1;
    case 4: net_send_faults--; f.txerr = f.peer_eof = 1; f.rx.clear(); f.soerr = 0; CHECK((fl & MSG_NOSIGNAL) || net_sigpipe, "writing to a connection the peer has ended does not kill the process (SIGPIPE)"); errno = send_errno("serr"); return -1;
  }
  if (f.kind == NK_TCP && n > net_send_max - f.sent) { n = net_send_max - f.sent; f.blocked = 1; if (!n) { errno = EAGAIN; return -1; } } if (f.kind == NK_TCP) f.sent += n;
  f.tx.append((const char*)b, n); return n;
}
ssize_t send(int fd, const void* b, size_t n, int fl) { NET_GUARD; return net_send_(fd, b, n, fl); }
static ssize_t net_recv_(int fd, void* b, size_t n, int fl) {
  if (!net_ok(fd)) { errno = EBADF; return -1; } NetFd& f = nfd[fd]; CHECK(n > 0, "a receive has room"); 
  if (f.kind == NK_UDP) { if (f.dgrams.empty()) { errno = EAGAIN; return -1; } std::string& d = f.dgrams.front(); size_t k = d.size() < n ? d.size() : n; memcpy(b, d.data(), k); if (fl & MSG_TRUNC) k = d.size(); f.dgrams.erase(f.dgrams.begin()); f.from.erase(f.from.begin()); return k; }
  if (f.state != 2) { errno = ENOTCONN; return -1; }
  if (f.rxerr) { errno = f.rxerr; if (f.rxerr == EINTR || f.rxerr == EAGAIN) f.rxerr = 0; else { f.rxerr = 0; f.txerr = f.peer_eof = 1; } return -1; }
  if (f.rx.empty()) { if (f.peer_eof) return 0; if (!f.nonblock) NET_WAIT(); errno = EAGAIN; return -1; }
  size_t k = f.rx.size() < n ? f.rx.size() : n; memcpy(b, f.rx.data(), k); if (!(fl & MSG_PEEK)) f.rx.erase(0, k); return k;
}
ssize_t recv(int fd, void* b, size_t n, int fl) { NET_GUARD; return net_recv_(fd, b, n, fl); }
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* al) {
  NET_GUARD;
  if (net_ok(fd) && nfd[fd].kind == NK_UDP) { NetFd& f = nfd[fd]; if (f.rxerr) { errno = f.rxerr; f.rxerr = 0; return -1; } if (f.dgrams.empty()) { errno = EAGAIN; return -1; } if (a) memcpy(a, &f.from.front(), sizeof(struct sockaddr_in)); if (al) *al = sizeof(struct sockaddr_in); }
  return net_recv_(fd, b, n, fl);
}
ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t) {
  NET_GUARD; if (!net_ok(fd)) { errno = EBADF; return -1; } NetFd& f = nfd[fd]; if (f.kind != NK_UDP) return net_send_(fd, b, n, fl);
  if (net_send_faults > 0 && sym_bool("sendto")) { net_send_faults--; errno = hard_errno("serr"); return -1; }
  f.to.push_back(*(const struct sockaddr_in*)a); f.tx.append((const char*)b, n); return n;
}
}
