// C33 TCP connector, C34 UDP connector.  A model of blocking sockets with time-outs, select and poll; what each call gives is a choice.
#include "tenv.h"
#include "errs.h"
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/ioctl.h>
#include <poll.h>
#include <net/if.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <stdarg.h>
#if HT < 10
#include "CTcpConnector.h"
#else
#include "CUdpConnector.h"
#endif
using namespace lce;
enum { FREE, TCP, UDP };
enum { FRESH, CONNECTING, UP, REFUSED, BROKEN };
struct Sk { int kind, state, nonblock, soerr, bound, peer_eof; int64_t sndto, rcvto; struct sockaddr_in addr, local; };
static const int B0 = 5, NS = 3; static int fdbase = B0; static Sk sk[NS]; static int opened = 0, live = 0, sigign = 0;
static int sock_faults = 0, conn_kinds = 3, sel_faults = 0, send_faults = 0, recv_faults = 0; // how many calls may fail
static size_t io_max = 0;          // one call transfers at most that many bytes (0: no such limit)
static int faulted = 0;            // a fault was injected (or a time-out happened) during the present operation
static int64_t limit_ms = 0;       // the time-out the caller of the present operation gave
static std::string sent;           // what the kernel accepted, on whatever connection
static int sent_fd_serial = -1, serial_of[NS];
static std::string stream; static size_t rdpos = 0; static int end_kind = 0; // what the peer of the present connection sends; 0: nothing more comes (time-out), 1 end of stream, 2 reset
static std::vector<std::string> dg, dg_sent; static std::vector<struct sockaddr_in> dg_to;
static Sk* S(int fd) { int i = fd - fdbase; return i >= 0 && i < NS && sk[i].kind ? &sk[i] : 0; }
static uint32_t expect_ip; static uint16_t expect_port;
static std::string fresh_stream();
static void waits(int64_t ms) { CHECK(ms > 0 && ms <= limit_ms, "a wait ends at the caller's time-out"); }
static int64_t tvms(const struct timeval* t) { CHECK(t->tv_usec >= 0 && t->tv_usec < 1000000 && t->tv_sec >= 0, "a valid time-out"); return (int64_t)t->tv_sec * 1000 + t->tv_usec / 1000; }
static void settle(Sk* s) { // a pending connection attempt ends
  if (sym_bool("refused")) { s->state = REFUSED; s->soerr = hard_errno("soerr"); faulted++; } else { s->state = UP; stream = fresh_stream(); rdpos = 0; } }
static int wait_ready(int fd, bool rd, bool wr, int64_t ms, bool& r, bool& w) { // -1 error, 0 time-out, else the number of ready directions
  Sk* s = S(fd); CHECK(s, "waiting for an open socket"); r = w = false; if (ms >= 0) waits(ms);
  if (sel_faults > 0 && sym_bool("sel")) { sel_faults--; faulted++; if (sym_bool("eintr")) { errno = EINTR; return -1; } return 0; }
  if (s->kind == UDP) { r = rd && !dg.empty(); w = wr; if (!r && !w) faulted++; return r + w; }
  if (s->state == CONNECTING) settle(s);
  if (s->state == REFUSED || s->state == FRESH) { r = rd; w = wr; } else { w = wr; r = rd && (rdpos < stream.size() || end_kind); }
  if (!r && !w) { faulted++; CHECK(ms >= 0, "a wait ends at the caller's time-out"); } return r + w;
}
extern "C" {
int socket(int, int type, int) throw() {
  if (sock_faults > 0 && sym_bool("socket")) { sock_faults--; faulted++; errno = EMFILE; return -1; }
  for (int i = 0; i < NS; i++) if (!sk[i].kind) { sk[i] = Sk(); sk[i].kind = (type & 15) == SOCK_DGRAM ? UDP : TCP; sk[i].nonblock = (type & SOCK_NONBLOCK) != 0; serial_of[i] = ++opened; live++; return fdbase + i; }
  CHECK(false, "sockets are closed when they are no longer used"); return -1;
}
int close(int fd) { CHECK(S(fd), "only open sockets are closed, each once"); S(fd)->kind = FREE; live--; return 0; }
int setsockopt(int fd, int lev, int opt, const void* v, socklen_t) throw() {
  Sk* s = S(fd); if (!s) { errno = EBADF; return -1; }
  if (lev == SOL_SOCKET && opt == SO_SNDTIMEO) s->sndto = tvms((const struct timeval*)v); if (lev == SOL_SOCKET && opt == SO_RCVTIMEO) s->rcvto = tvms((const struct timeval*)v); return 0;
}
int getsockopt(int fd, int lev, int opt, void* v, socklen_t*) throw() { Sk* s = S(fd); if (!s) { errno = EBADF; return -1; } if (lev == SOL_SOCKET && opt == SO_ERROR) { *(int*)v = s->soerr; s->soerr = 0; } return 0; }
int getpeername(int fd, struct sockaddr* a, socklen_t* l) throw() { Sk* s = S(fd); if (!s) { errno = EBADF; return -1; } if (s->state != UP) { errno = ENOTCONN; return -1; } memcpy(a, &s->addr, *l < sizeof s->addr ? *l : sizeof s->addr); return 0; }
int fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); int a = va_arg(ap, int); va_end(ap); Sk* s = S(fd); if (!s) { errno = EBADF; return -1; } if (cmd == F_GETFL) return (s->nonblock ? O_NONBLOCK : 0) | O_RDWR; if (cmd == F_SETFL) s->nonblock = (a & O_NONBLOCK) != 0; return 0; }
typedef void (*sigh)(int);
sigh signal(int s, sigh h) throw() { if (s == SIGPIPE && h == SIG_IGN) sigign = 1; return SIG_DFL; }
in_addr_t inet_addr(const char* s) throw() { uint32_t v[4]; for (int i = 0; i < 4; i++) { if (*s < '0' || *s > '9') return INADDR_NONE; v[i] = 0; while (*s >= '0' && *s <= '9') v[i] = v[i] * 10 + (*s++ - '0'); if (v[i] > 255 || *s != (i < 3 ? '.' : 0)) return INADDR_NONE; s++; } return htonl(v[0] << 24 | v[1] << 16 | v[2] << 8 | v[3]); }
int connect(int fd, const struct sockaddr* a, socklen_t) {
  Sk* s = S(fd); if (!s) { errno = EBADF; return -1; } s->addr = *(const struct sockaddr_in*)a; CHECK(s->addr.sin_family == AF_INET, "an internet address");
  if (s->kind == UDP) { s->state = UP; return 0; }
  if (s->addr.sin_addr.s_addr == INADDR_NONE) { faulted++; errno = ENETUNREACH; return -1; }
  CHECK(s->addr.sin_addr.s_addr == expect_ip && s->addr.sin_port == htons(expect_port), "the connection goes to the given address");
  int c = sym_choice(conn_kinds, "connect");
  if (c == 1) { s->state = UP; stream = fresh_stream(); rdpos = 0; return 0; }
  if (c == 2) { faulted++; s->state = REFUSED; errno = hard_errno("cerr"); return -1; }
  if (s->nonblock) { s->state = CONNECTING; errno = EINPROGRESS; return -1; }
  settle(s); if (s->state == UP) return 0; s->soerr = 0; errno = ECONNREFUSED; return -1;
}
int select(int n, fd_set* r, fd_set* w, fd_set* e, struct timeval* t) {
  int fd = -1, cnt = 0; for (int i = 0; i < NS; i++) { int f = fdbase + i; if (sk[i].kind && f < n) { CHECK(f < FD_SETSIZE, "the descriptor fits into an fd_set"); if ((r && FD_ISSET(f, r)) || (w && FD_ISSET(f, w))) fd = f; } }
  CHECK(fd >= 0, "waiting for something that can happen"); bool rd = r && FD_ISSET(fd, r), wr = w && FD_ISSET(fd, w), a, b;
  int k = wait_ready(fd, rd, wr, t ? tvms(t) : -1, a, b); if (k >= 0) { if (r) { FD_ZERO(r); if (a) FD_SET(fd, r); } if (w) { FD_ZERO(w); if (b) FD_SET(fd, w); } if (e) FD_ZERO(e); } return k;
}
int poll(struct pollfd* p, nfds_t n, int ms) {
  CHECK(n == 1, "the model supports one descriptor"); bool a, b; int k = wait_ready(p->fd, p->events & POLLIN, p->events & POLLOUT, ms, a, b); if (k < 0) return -1; p->revents = (a ? POLLIN : 0) | (b ? POLLOUT : 0);
  if (k && S(p->fd)->state == REFUSED) p->revents |= POLLERR | POLLHUP; return p->revents ? 1 : 0;
}
static ssize_t xsend(int fd, const void* b, size_t n, int fl) {
  if (fd < 0) { errno = EBADF; return -1; } Sk* s = S(fd); CHECK(s, "sending on an open socket"); bool quiet = (fl & MSG_NOSIGNAL) || sigign;
  if (s->state != UP) { CHECK(quiet, "writing to a connection the peer has ended does not kill the process (SIGPIPE)"); faulted++; errno = EPIPE; return -1; }
  bool nb = s->nonblock || (fl & MSG_DONTWAIT);
  if (n && send_faults > 0) switch (sym_choice(5, "send")) {
    case 1: send_faults--; if (!nb) waits(s->sndto); if (n > 1) { n = 1 + sym_choice(n - 1, "sent"); break; } break;  // part of it (a signal or the time-out ended the call)
    case 2: send_faults--; faulted++; if (!nb) waits(s->sndto); errno = EAGAIN; return -1;
    case 3: send_faults--; faulted++; errno = EINTR; return -1;
    case 4: send_faults--; faulted++; s->state = BROKEN; CHECK(quiet, "writing to a connection the peer has ended does not kill the process (SIGPIPE)"); errno = send_errno("serr"); return -1;
  }
  if (io_max && n > io_max) { n = io_max; if (!nb) waits(s->sndto); }
  sent.append((const char*)b, n); sent_fd_serial = serial_of[fd - fdbase]; return n;
}
static ssize_t xrecv(int fd, void* b, size_t n, int fl) {
  if (fd < 0) { errno = EBADF; return -1; } Sk* s = S(fd); CHECK(s, "receiving on an open socket"); bool nb = s->nonblock || (fl & MSG_DONTWAIT);
  if (recv_faults > 0 && sym_bool("rfault")) { recv_faults--; faulted++; switch (sym_choice(3, "rkind")) { case 0: errno = EINTR; return -1; case 1: if (!nb) waits(s->rcvto); errno = EAGAIN; return -1; default: if (s->kind == TCP) s->state = BROKEN; errno = hard_errno("rerr"); return -1; } }
  if (s->kind == UDP) { if (dg.empty()) { if (!nb) waits(s->rcvto); faulted++; errno = EAGAIN; return -1; } std::string& d = dg.front(); size_t k = d.size() < n ? d.size() : n; size_t full = d.size(); memcpy(b, d.data(), k); dg.erase(dg.begin()); return fl & MSG_TRUNC ? full : k; }
  if (s->state != UP) { faulted++; errno = ENOTCONN; return -1; }
  size_t av = stream.size() - rdpos; if (!av) { if (end_kind == 1) { s->peer_eof = 1; return 0; } faulted++; if (end_kind == 2) { s->state = BROKEN; errno = hard_errno("rerr"); return -1; } if (!nb) waits(s->rcvto); errno = EAGAIN; return -1; }
  size_t k = av < n ? av : n; if (io_max) { if (k > io_max) k = io_max; } else if (!(fl & MSG_WAITALL) && k > 1) k = 1 + sym_choice(k, "chunk"); if (k > av || k > n) k = av < n ? av : n; memcpy(b, stream.data() + rdpos, k); if (!(fl & MSG_PEEK)) rdpos += k; return k;
}
ssize_t send(int fd, const void* b, size_t n, int fl) { return xsend(fd, b, n, fl); }
ssize_t write(int fd, const void* b, size_t n) { if (fd < 3) return n; return xsend(fd, b, n, 0); }
ssize_t recv(int fd, void* b, size_t n, int fl) { return xrecv(fd, b, n, fl); }
ssize_t read(int fd, void* b, size_t n) { return xrecv(fd, b, n, 0); }
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) { if (a) memset(a, 0, sizeof(struct sockaddr_in)); if (l) *l = sizeof(struct sockaddr_in); return xrecv(fd, b, n, fl); }
ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t) {
  if (fd < 0) { errno = EBADF; return -1; } Sk* s = S(fd); CHECK(s, "sending on an open socket"); if (s->kind == TCP) return xsend(fd, b, n, fl);
  if (send_faults > 0 && sym_bool("sendto")) { send_faults--; faulted++; errno = (int)sym_range(1, 132, "serr"); return -1; }
  dg_sent.push_back(std::string((const char*)b, n)); dg_to.push_back(*(const struct sockaddr_in*)a); return n;
}
}
static std::string ip_text(uint32_t& ip) { // a.b.c.d with one symbolic digit each
  std::string r; ip = 0; for (int i = 0; i < 4; i++) { int d = (int)sym_range(0, 9, "ip"); if (i) r += '.'; r += (char)('0' + d); ip = ip << 8 | d; } ip = htonl(ip); return r; }
static int some_timeout() { static const int Q[] = {0, 1, 3600}; int q = Q[sym_choice(3, "tsec")]; return q * 1000 + (int)sym_range(q ? 0 : 1, 999, "tms"); }
#if HT < 10
static std::string* next_stream;
static std::string fresh_stream() { end_kind = sym_choice(3, "end"); return *next_stream; }
static int up_fd() { int f = -1; for (int i = 0; i < NS; i++) if (sk[i].kind && sk[i].state == UP) f = fdbase + i; return f; }
static std::string prefix(const std::string& s, size_t n) { return std::string(s.data(), n); }
static std::string some(size_t n, int salt) { std::string d(n, 'x'); if (n) { sym_pattern(&d[0], n, salt, 0); d[0] = (char)sym_u8("b0"); d[n - 1] = (char)sym_u8("b1"); d[n / 2] = (char)sym_u8("b2"); } return d; }
#if HT == 8 // larger transfers in pieces of one size
void harness() {
  static const size_t IO[] = {700, 1460, 1u << 20}; static const int SZ[] = {1, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 10240, 65535, 65536, 100000}; fdbase = sym_bool("many") ? FD_SETSIZE + 3 : B0; io_max = IO[sym_choice(3, "io")]; std::string strm = some(200000, 5); next_stream = &strm; expect_ip = htonl(0x0a000001); expect_port = 80;
  { CTcpConnector c; limit_ms = 2500; CHECK(c.connect("10.0.0.1", 80, 2500) || faulted, "connect"); if (faulted) sym_end(); std::string all; size_t at = 0;
    for (size_t i = 0; i < sizeof SZ / sizeof *SZ; i++) {
      std::string d = some(SZ[i], i); Exact e(SZ[i]); memcpy(e.p, d.data(), SZ[i]); int r = c.write(e.p, SZ[i], 2500); CHECK(r == SZ[i], "a write sends everything"); all += d; CHECK(str_eq(sent, all), "in order, each byte once");
      if (i % 2) { Exact g(SZ[i]); memset(g.p, 'u', SZ[i]); size_t left_ = strm.size() - at, want = left_ < (size_t)SZ[i] ? left_ : SZ[i]; r = c.readn(g.p, SZ[i], 2500); if (r < 0) { CHECK(end_kind != 1 && want < (size_t)SZ[i], "a read fails only when something failed"); break; } CHECK((size_t)r == want && rdpos == at + r && bytes_eq(g.p, strm.data() + at, r), "everything asked for, in order and unchanged"); at += r; if (want < (size_t)SZ[i]) break; }
      else if (at < strm.size()) { std::string b = "old"; r = i % 4 ? c.read(b, 2500) : -1; if (i % 4 == 0) { Exact g(SZ[i]); r = c.read(g.p, SZ[i], 2500); CHECK(r <= SZ[i], "no more than asked for"); if (r > 0) b.assign(g.p, r); } CHECK(r > 0 && b.size() == (size_t)r && rdpos == at + r && bytes_eq(b.data(), strm.data() + at, r), "exactly the bytes received, in order"); at += r; }
    }
    if (at == strm.size()) sym_reach("all"); c.close(); CHECK(live == 0, "closed"); }
  sym_reach("done");
}
#else
void harness() {
  fdbase = sym_bool("many") ? FD_SETSIZE + 3 : B0; std::string strm = sym_string(SN, "stream"); next_stream = &strm;
  std::string ip = ip_text(expect_ip); expect_port = sym_u16("port"); sock_faults = SOCKF; sel_faults = SELF; send_faults = SENDF; recv_faults = RECVF;
  { CTcpConnector c; bool up = false, known = false; int conn_serial = -1;   // up: the connector is entitled to use its connection
    CHECK(memchr(c.getErrMsg(), 0, 1024), "an error text is a terminated string");
    for (int step = 0; step < STEPS; step++) {
      faulted = 0; std::string old_sent = sent; size_t pos = rdpos; int op = step == 0 && FIRST ? 0 : sym_choice(6, "op");
      if (op == 0) { limit_ms = some_timeout(); bool ok = c.connect(ip, expect_port, limit_ms); known = true;
        if (ok) { int f = up_fd(); CHECK(f >= 0 && live == 1, "connect succeeds only with an established connection"); CHECK(S(f)->addr.sin_addr.s_addr == expect_ip && S(f)->addr.sin_port == htons(expect_port), "to the given address"); up = true; conn_serial = serial_of[f - fdbase]; sym_reach("connected"); }
        else { CHECK(faulted, "connect fails only when something failed"); CHECK(live == 0, "a failed attempt leaves no socket open"); up = false; sym_reach("refused"); } }
      else if (op == 1) { int n = 1 + sym_choice(WN, "n"); std::string d = sym_string(n, "data"); Exact e(n); memcpy(e.p, d.data(), n); bool was = up; limit_ms = 1 + sym_choice(2, "wms") * 1500; int64_t save = limit_ms; 
        int r = (was || !known) ? c.write(e.p, n, limit_ms) : (limit_ms = 3601 * 1000, c.write(e.p, n, (int)save));
        CHECK(r == n || r < 0, "a write sends everything or reports failure"); std::string gone = sent.substr(old_sent.size());
        if (r == n) { CHECK(str_eq(gone, d), "a successful write has sent exactly its bytes, in order"); int f = up_fd(); CHECK(f >= 0 && serial_of[f - fdbase] == sent_fd_serial, "on the established connection"); if (was) CHECK(sent_fd_serial == conn_serial, "on the established connection"); up = true; conn_serial = sent_fd_serial; sym_reach("wrote"); }
        else { CHECK(faulted || !known, "a write fails only when something failed"); CHECK(gone.size() <= d.size() && bytes_eq(gone.data(), d.data(), gone.size()), "nothing but the given bytes is sent"); up = live > 0 && up_fd() >= 0; sym_reach("wfail"); } }
      else if (op == 2 || op == 3) { int n = 1 + sym_choice(RN, "n"); Exact e(n); memset(e.p, 'u', n); limit_ms = some_timeout(); int r; if (op == 2) r = c.read(e.p, n, limit_ms); else r = c.readn(e.p, n, limit_ms);
        CHECK(r <= n, "a read gives no more than it was asked for"); if (!up) CHECK(r < 0, "reading without a connection is a failure");
        if (r < 0) { CHECK(!up || faulted, "a read fails only when something failed"); sym_reach("rfail"); }
        else { CHECK(r <= (int)(strm.size() - pos) && rdpos == pos + r, "exactly the bytes received are reported"); CHECK(bytes_eq(e.p, strm.data() + pos, r), "in order and unchanged"); if (op == 2 ? r == 0 : r < n) { CHECK(end_kind == 1 && rdpos == strm.size() && !faulted, "fewer bytes only at the end of the stream"); sym_reach("end"); } else sym_reach("read"); }
        up = live > 0 && up_fd() >= 0; }
      else if (op == 4) { std::string b = "old"; limit_ms = some_timeout(); int r = c.read(b, limit_ms); if (!up) CHECK(r < 0, "reading without a connection is a failure");
        if (r < 0) { CHECK(!up || faulted, "a read fails only when something failed"); }
        else { CHECK(b.size() == (size_t)r && r <= (int)(strm.size() - pos) && rdpos == pos + r, "exactly the bytes received are reported"); CHECK(bytes_eq(b.data(), strm.data() + pos, r), "in order and unchanged"); if (!r) CHECK(end_kind == 1 && rdpos == strm.size(), "nothing only at the end of the stream"); sym_reach("string"); }
        up = live > 0 && up_fd() >= 0; }
      else { c.close(); CHECK(live == 0, "closed"); up = false; sym_reach("closed"); }
      CHECK(live <= 1, "no socket is left behind"); CHECK(memchr(c.getErrMsg(), 0, 1024), "an error text is a terminated string");
    }
  }
  CHECK(live == 0, "the connector closes its socket"); sym_reach("done");
}
#endif
#else
static std::string fresh_stream() { return ""; }
static int nif; struct If { int has_addr; uint32_t ip; }; static If ifs[3]; static char ntoa_buf[20]; static int if_choice[3];
static const uint32_t IFIP[] = {0x7f000001, 0x0a010203, 0xc0a80005, 0xac100a14, 0x08080808};
extern "C" {
char* inet_ntoa(struct in_addr a) throw() { uint32_t v = ntohl(a.s_addr); snprintf(ntoa_buf, sizeof ntoa_buf, "%u.%u.%u.%u", v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255); return ntoa_buf; }
int ioctl(int fd, unsigned long req, ...) throw() {
  va_list ap; va_start(ap, req); struct ifreq* r = va_arg(ap, struct ifreq*); va_end(ap); if (!S(fd)) { errno = EBADF; return -1; }
  if (req == SIOCGIFNAME) { int i = r->ifr_ifindex; if (i < 1 || i > nif) { errno = ENODEV; return -1; } strcpy(r->ifr_name, "eth0"); r->ifr_name[3] = '0' + i; return 0; }
  if (req == SIOCGIFADDR) { int i = r->ifr_name[3] - '0'; if (i < 1 || i > nif || !ifs[i - 1].has_addr) { errno = EADDRNOTAVAIL; return -1; } struct sockaddr_in* s = (struct sockaddr_in*)&r->ifr_addr; memset(s, 0, sizeof *s); s->sin_family = AF_INET; s->sin_addr.s_addr = htonl(ifs[i - 1].ip); return 0; }
  return 0;
}
static int bind_faults = 0;
int bind(int fd, const struct sockaddr* a, socklen_t) throw() { Sk* s = S(fd); if (!s) { errno = EBADF; return -1; } if (bind_faults > 0 && sym_bool("bind")) { bind_faults--; faulted++; errno = EADDRINUSE; return -1; } s->local = *(const struct sockaddr_in*)a; s->bound = 1; return 0; }
}
static int open_fd() { int f = -1; for (int i = 0; i < NS; i++) if (sk[i].kind) f = fdbase + i; return f; }
#if HT == 18 // long datagrams
void harness() {
  static const int SZ[] = {1, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 65000, 65507}; fdbase = B0;
  CUdpConnector c; expect_ip = htonl(0x0a000001); expect_port = 53; CHECK(c.connect("10.0.0.1", 53, "10.0.0.2", 54), "connect"); limit_ms = 2500; int m = sym_choice(2, "m");
  for (size_t i = 0; i < sizeof SZ / sizeof *SZ; i++) {
    int n = SZ[i]; std::string d(n, 'x'); sym_pattern(&d[0], n, i, 0); d[n - 1] = (char)sym_u8("b"); Exact e(n); memcpy(e.p, d.data(), n); CHECK(c.write(e.p, n) == n && dg_sent.size() == i + 1 && str_eq(dg_sent.back(), d), "one datagram with exactly the given bytes");
    dg.push_back(d); if ((i + m) % 2) { std::string b = "old"; CHECK(c.read(b, 2500) == n && str_eq(b, d), "exactly the bytes that arrived"); } else { Exact g(n); memset(g.p, 'u', n); CHECK(c.read(g.p, n, 2500) == n && bytes_eq(g.p, d.data(), n), "exactly the bytes that arrived"); }
    CHECK(dg.empty(), "a read takes one datagram");
  }
  c.close(); CHECK(live == 0, "closed"); sym_reach("done");
}
#else
void harness() {
  fdbase = B0; sock_faults = SOCKF; bind_faults = SOCKF; send_faults = SENDF; recv_faults = RECVF; nif = sym_choice(NIF + 1, "ifs"); for (int i = 0; i < nif; i++) { ifs[i].has_addr = sym_bool("ifaddr"); ifs[i].ip = IFIP[sym_choice(5, "ifip")]; }
  { CUdpConnector c; bool up = false; CHECK(memchr(c.getErrMsg(), 0, 1024), "an error text is a terminated string");
    for (int step = 0; step < STEPS; step++) {
      faulted = 0; size_t old = dg_sent.size(); int op = step == 0 && FIRST ? 0 : sym_choice(6, "op");
      if (op == 0) { std::string ip = ip_text(expect_ip); expect_port = sym_u16("port"); uint32_t lip = 0; std::string l; bool given = sym_bool("local"); if (given) l = ip_text(lip); uint16_t lp = sym_u16("lport");
        bool ok = c.connect(ip, expect_port, l, lp); if (ok) { CHECK(live == 1 && S(open_fd())->bound, "connect succeeds only with a bound socket"); CHECK(S(open_fd())->local.sin_port == htons(lp), "bound to the given port"); if (given) CHECK(S(open_fd())->local.sin_addr.s_addr == lip, "bound to the given address"); sym_reach(given ? "local" : "any"); }
        else { CHECK(faulted, "connect fails only when something failed"); CHECK(live == 0, "a failed attempt leaves no socket open"); sym_reach("refused"); } up = ok; }
      else if (op <= 2) { int n = sym_choice(DN + 1, "n"); std::string d = sym_string(n, "data"); Exact e(n); memcpy(e.p, d.data(), n); int r = c.write(e.p, n);
        CHECK(r == n || r < 0, "a datagram is sent whole or the call reports failure"); if (r < 0) { CHECK(!up || faulted, "a write fails only when something failed"); CHECK(dg_sent.size() == old, "nothing was sent"); sym_reach("wfail"); }
        else { CHECK(up, "writing without a socket is a failure"); CHECK(dg_sent.size() == old + 1 && str_eq(dg_sent.back(), d), "one datagram with exactly the given bytes"); CHECK(dg_to.back().sin_addr.s_addr == expect_ip && dg_to.back().sin_port == htons(expect_port) && dg_to.back().sin_family == AF_INET, "to the configured peer"); sym_reach("sent"); } }
      else if (op <= 4) { limit_ms = some_timeout(); if (sym_bool("arrives")) dg.push_back(sym_string(sym_choice(DN + 1, "dlen"), "dgram")); std::vector<std::string> q = dg; std::string got; int r, n = 65536;
        if (op == 3) { n = 1 + sym_choice(DN + 1, "room"); Exact e(n); memset(e.p, 'u', n); r = c.read(e.p, n, limit_ms); CHECK(r <= n, "no more than the buffer holds"); if (r > 0) got.assign(e.p, r); } else { std::string b = "old"; r = c.read(b, limit_ms); if (r >= 0) { CHECK(b.size() == (size_t)r, "the string holds what arrived"); got = b; } }
        if (!up) CHECK(r < 0, "reading without a socket is a failure");
        if (r < 0) { CHECK(!up || faulted || (q.size() && q[0].empty()) || (q.size() && (int)q[0].size() > n), "a read fails only when nothing came or something failed"); sym_reach("rfail"); }
        else { CHECK(q.size() && dg.size() == q.size() - 1, "a read takes one datagram"); size_t k = (int)q[0].size() < n ? q[0].size() : n; CHECK((size_t)r == k && bytes_eq(got.data(), q[0].data(), k), "exactly the bytes that arrived"); sym_reach("read"); } }
      else { c.close(); CHECK(live == 0, "closed"); up = false; sym_reach("closed"); }
      CHECK(live <= 1, "no socket is left behind"); CHECK(memchr(c.getErrMsg(), 0, 1024), "an error text is a terminated string");
    }
  }
  CHECK(live == 0, "the connector closes its socket"); sym_reach("done");
}
#endif
#endif
