// C28..C30 CCommMgr (BACK 0), C31/C32 CNetWorker (BACK 1): one event loop, driven to the end from net_idle.
#if HT == 7
#define NET_THREADS
#define NETMAX_EPS 4
#else
#define NET_CLOSE_HOOK
#endif
#include "net.h"
#if BACK == 0
#include "CCommMgr.h"
#else
#include "CNetWorkerMgr.h"
#endif
using namespace lce;
#ifndef RBI
#define RBI 4
#endif
#ifndef RBM
#define RBM 8
#endif
#ifndef SBI
#define SBI 2
#define SBM 6
#endif
enum { PORT0 = 1001, OUTPORT = 2001 };
#ifndef LMAX
#define LMAX 5
#endif
#if HT != 7
#ifndef CTLFAIL
#define CTLFAIL 0
#endif
struct Done {};
struct Conn {
  int port = 0, fd = -1, out = 0; bool known = false, up = false, app_closed = false, want_close = false, any_close = false, trying_close = false, pending = false, dead = false; // dead: the application gave the connection up after a failed write
  int closes = 0, errors = 0, connects = 0, fails = 0; size_t pos = 0, seen = 0; std::string in, acc, trying; void* data = 0;
};
static Conn cn[8]; static int ncn = 0, step = 0, extra = 0, conn_events = 0, in_handler = 0, lfd = -1, srv = -1, refused_max = 0;
static Conn* by_fd(int fd) { for (int i = 0; i < ncn; i++) if (cn[i].up && cn[i].fd == fd) return &cn[i]; return 0; }
static Conn* by_port(int port) { for (int i = 0; i < ncn; i++) if (cn[i].port == port) return &cn[i]; return 0; }
static Conn& sess(StSession& s, const char* what) {
  Conn* k = by_fd(s.iFd); CHECK(k, "a callback's session is that of an open connection"); CHECK(ntohs(s.stClientAddr.sin_port) == k->port, "a callback's session carries its own peer address"); return *k;
}
static bool prefix(const std::string& a, const std::string& b) { return a.size() <= b.size() && bytes_eq(a.data(), b.data(), a.size()); }
static void tx_ok(Conn& k) {
  if (!k.up) return; const std::string& t = nfd[k.fd].tx; size_t a = k.acc.size(), m = t.size() < a ? t.size() : a; // k.seen: so much is compared already
  CHECK(t.size() <= a + k.trying.size() && (m <= k.seen || bytes_eq(t.data() + k.seen, k.acc.data() + k.seen, m - k.seen)) && bytes_eq(t.data() + m, k.trying.data(), t.size() - m), "bytes sent are those written, in order, each once"); if (m > k.seen) k.seen = m;
}
static void ap_read(StSession& s, const char* p, int n); static void ap_connected(Conn& k, StSession& s);
static void ap_connect(StSession& s, bool ok, void* d) {
  Conn* k = by_port(ntohs(s.stClientAddr.sin_port)); CHECK(k, "the connection reported is one that exists"); CHECK(k->connects++ == 0, "a connection is reported once");
  CHECK(net_ok(s.iFd) && nfd[s.iFd].kind == NK_TCP && ntohs(nfd[s.iFd].addr.sin_port) == k->port, "the session of a new connection is its own descriptor");
  if (k->out) { CHECK(d == k->data, "the connect call's data"); CHECK(ok == (nfd[s.iFd].state == 2), "a connection attempt's result is reported truthfully"); } else CHECK(ok, "an accepted connection is reported as connected");
  k->fd = s.iFd; k->pending = false; if (ok) { k->up = true; conn_events++; ap_connected(*k, s); } else k->fails++;
}
// closes and errors come with the session of a connection that is, or was a moment ago, open
static Conn* ended(StSession& s) { Conn* k = by_port(ntohs(s.stClientAddr.sin_port)); CHECK(k && k->connects && k->fd == s.iFd, "an end report carries its connection's session"); CHECK(!k->app_closed, "a connection the application closed gets no more reports"); return k; }
static void ap_ended(Conn& k, StSession& s);
static void ap_close(StSession& s) { Conn* k = ended(s); CHECK(k->closes++ + k->errors == 0, "a connection's end is reported once"); CHECK(nfd[k->fd].peer_eof || nfd[k->fd].txerr, "a close is reported only when the peer closed"); sym_reach("onclose"); ap_ended(*k, s); }
static void ap_error(StSession& s, int e) {
  if (e == ERR_NOT_READY) return; if (e == ERR_MAX_CLIENT) { refused_max++; return; }
  if (!ntohs(s.stClientAddr.sin_port)) return;
  Conn* k = ended(s); CHECK(k->closes + k->errors++ == 0, "a connection's end is reported once"); sym_reach("onerror"); ap_ended(*k, s);
}
#if BACK == 0
struct Proc : CProcessor {
  void onRead(StSession& s, const char* p, const int n) { CHECK(s.iSvrId == srv || by_fd(s.iFd)->out, "the service's own identifier"); ap_read(s, p, n); } void onClose(StSession& s) { ap_close(s); } void onConnect(StSession& s, bool ok, void* d) { ap_connect(s, ok, d); } void onError(StSession& s, const char*, int e) { ap_error(s, e); }
}; static Proc proc; static CCommMgr* mg; static int cli = -1;
static int do_write(StSession& s, const char* p, int n, bool cl) { return mg->write(s, p, n, cl); }
static int do_close(StSession& s) { return mg->close(s); }
static int do_connect(int port, void* d) { return mg->connect(cli, "127.0.0.1", port, d); }
static void peer_arrives(int port) { net_peer_connect(lfd, port); }
static void setup(CPackageFilter* f, int maxc) {
  mg = &CCommMgr::getInstance(); CHECK(mg->init(maxc) == 0, "init"); srv = mg->createSrv(SRV_TCP, "127.0.0.1", 80, RBI, RBM, SBI, SBM); CHECK(srv >= 0, "service created"); CHECK(mg->setProcessor(srv, &proc, f ? PKG_EXT : PKG_RAW) == 0, "processor"); if (f) CHECK(mg->setPkgFilter(srv, f) == 0, "filter");
  for (int i = 3; i < NET_MAX; i++) if (nfd[i].kind == NK_LISTEN) lfd = i; cli = mg->createClient(RBI, RBM, SBI, SBM); CHECK(cli >= 0 && mg->setProcessor(cli, &proc, f ? PKG_EXT : PKG_RAW) == 0, "client"); if (f) CHECK(mg->setPkgFilter(cli, f) == 0, "filter");
}
static void serve() { try { mg->start(); } catch (Done&) {} }
static void teardown() {}
#else
struct W : CNetWorker {
  void onRead(StSession& s, const char* p, const int n) { ap_read(s, p, n); } void onClose(StSession& s) { ap_close(s); } void onConnect(StSession& s, bool ok, void* d) { Conn* k = by_port(ntohs(s.stClientAddr.sin_port)); ap_connect(s, ok, k && !k->out ? 0 : d); } void onError(StSession& s, const char*, int e) { ap_error(s, e); }
}; static W* w; static StServerInfo* si; static int cli;
static int do_write(StSession& s, const char* p, int n, bool cl) { return w->write(s, p, n, cl); }
static int do_close(StSession& s) { return w->close(s); }
static int do_connect(int port, void* d) { return w->connect(cli, "127.0.0.1", port, d); }
static void peer_arrives(int port) {
  int fd = net_new(NK_TCP); if (fd < 0) return; NetFd& f = nfd[fd]; f.state = 2; f.nonblock = 1; f.addr.sin_family = AF_INET; f.addr.sin_port = htons(port); f.addr.sin_addr.s_addr = htonl(0x0a000001);
  StClientInfo* c = new StClientInfo; c->iFd = fd; c->stClientAddr = f.addr; c->pstServerInfo = si; c->ddwBeginTime = 5; CHECK(w->watch(fd, c) == 0, "the connection is handed over");
}
static void setup(CPackageFilter* f, int maxc) {
  w = new W; CHECK(w->init(maxc) == 0, "init"); si = new StServerInfo; si->iSrvId = srv = 0; si->iType = SRV_TCP; si->iPkgType = f ? PKG_EXT : PKG_RAW; si->pPackageFilter = f ? f : new CRawPackageFilter; si->dwInitRecvBufLen = RBI; si->dwMaxRecvBufLen = RBM; si->dwInitSendBufLen = SBI; si->dwMaxSendBufLen = SBM;
  cli = w->createClient(f ? PKG_EXT : PKG_RAW, RBI, RBM, SBI, SBM); CHECK(cli >= 0, "client"); if (f) CHECK(w->setPkgFilter(cli, f) == 0, "filter");
}
static void serve() { try { ((CThread*)w)->run(); } catch (Done&) {} }
static void teardown() { delete w; delete si; }
#endif
static Conn& new_conn() { Conn& k = cn[ncn]; k.port = PORT0 + ncn; ncn++; k.pending = true; peer_arrives(k.port); return k; }
static void close_checked(Conn& k, StSession& s) { bool was = k.up; k.app_closed = true; int r = do_close(s); if (was) { CHECK(r == 0 && !k.up, "closing a connection closes it"); } }
static void op_write(Conn& k, StSession& s, int maxn) {
  int n = 1 + sym_choice(maxn, "n"); std::string d = sym_string(n, "d"); bool cl = sym_bool("cl"), was = k.up; size_t pend = was ? k.acc.size() - nfd[k.fd].tx.size() : 0;
  if (was) { k.trying = d; k.trying_close = cl; }
  int fd = k.fd, r = do_write(s, d.data(), n, cl);
  if (!was) { CHECK(r < 0, "writing to a connection that has ended is refused"); sym_reach("ended"); return; }
  tx_ok(k); bool txe = k.up && nfd[fd].txerr;
  if (r >= 0) { CHECK(!txe, "a failed write is reported to the caller"); k.acc += d; k.want_close = cl; k.any_close |= cl; if (k.up && k.acc.size() > nfd[fd].tx.size()) sym_reach("buffered"); }
  else { CHECK(txe || pend + n > SBM || net_ctl_fail < CTLFAIL, "a write is refused only if the connection failed or its buffer is full"); sym_reach(txe ? "failed" : "full"); k.dead = true; if (!txe || sym_bool("giveup")) close_checked(k, s); }
  k.trying = ""; k.trying_close = false;
}
static bool close_allowed(Conn& k);
static void net_closing(int fd) {
  Conn* k = by_fd(fd); if (!k) { for (int i = 0; i < ncn; i++) if (cn[i].pending && cn[i].fd == fd) cn[i].pending = false; return; }
  tx_ok(*k); NetFd& f = nfd[fd]; std::string all = k->acc + k->trying;
  CHECK(k->app_closed || f.txerr || f.peer_eof || (((k->any_close || k->trying_close) && f.tx.size() == all.size())) || close_allowed(*k), "a connection is closed only for a reason, and after its data was sent");
  if ((k->any_close || k->trying_close) && !k->app_closed && !f.txerr && !f.peer_eof) sym_reach("closed_after");
  k->up = false;
}
static bool net_turns_ok() { for (int i = 0; i < ncn; i++) if (cn[i].up) tx_ok(cn[i]); return true; }
static void net_turn() { CHECK(!in_handler, "handlers do not nest"); net_turns_ok(); }

#if HT == 1 // ---- writes
int net_connect_result(int) { return 1; }
static void ap_connected(Conn& k, StSession& s) { if (ONCONN) op_write(k, s, MAXN); }
static void ap_ended(Conn&, StSession&) {}
static void ap_read(StSession& s, const char* p, int n) { Conn& k = sess(s, "read"); if (k.dead) return; for (int i = 0; i < WR; i++) if (!k.dead) op_write(k, s, MAXN); }
static bool close_allowed(Conn&) { return false; }
static bool net_idle(int, int) {
  Conn& k = cn[0];
  if (step == 0) { step++; new_conn(); return true; }
  if (k.up && step <= TRIG) { step++; nfd[k.fd].rx += 'x'; if (sym_bool("keep")) net_keep = 1; return true; }
  if (k.up && nfd[k.fd].blocked) return true; // the socket becomes writable
  CHECK(k.connects == 1, "the connection was announced");
  bool txe = nfd[k.fd].txerr;
  if (k.up) { CHECK(!txe, "a connection whose write failed is ended"); CHECK(nfd[k.fd].tx.size() == k.acc.size(), "everything written is sent"); CHECK(!k.want_close, "a connection to be closed after writing is closed once everything was sent"); sym_reach("sent"); }
  if (k.dead) CHECK(k.closes + k.errors <= 1, "a failure is reported once"); else CHECK(k.closes + k.errors == (txe ? 1 : 0), "a failure is reported once, and only a failure");
  throw Done();
}
void harness() { setup(0, 12); net_send_faults = FAULTS; serve(); teardown(); sym_reach("done"); }
#elif HT == 2 // ---- reads: a service with its own message format: one length byte (at most LMAX), then that many bytes
struct Filter : CPackageFilter {
  int isWholePkg(const char* p, const int n, int& real, int& len) { if (n <= 0) return -1; int l = (unsigned char)p[0]; if (l > LMAX) return -2; if (n < 1 + l) return -1; real = l; len = 1 + l; return 0; }
  const char* getRealPkgData(const char* p, const int) { return p + 1; }
}; static Filter filter;
int net_connect_result(int) { return 1; }
static int why[2]; // why: 1 end of stream, 2 reset, 3 error
static void ap_connected(Conn&, StSession&) {}
static void ap_ended(Conn& k, StSession& s) { sym_reach(k.closes ? "eof" : "err"); if (extra > 0 && sym_bool("cle")) { extra--; bool was = k.up; if (was) { k.app_closed = true; do_close(s); } } }
static int bad(Conn& k) { if (k.pos >= k.in.size()) return 0; int l = (unsigned char)k.in[k.pos]; if (l > LMAX) return 2; if (1 + l > RBM) return k.in.size() - k.pos > RBM ? 3 : k.in.size() - k.pos == RBM ? 4 : 0; return 0; } // 4: the buffer is full, noticed at the next event
static bool whole(Conn& k) { return k.pos < k.in.size() && (unsigned char)k.in[k.pos] <= LMAX && k.in.size() - k.pos >= 1 + (size_t)(unsigned char)k.in[k.pos]; }
static void ap_read(StSession& s, const char* p, int n) {
  Conn& k = sess(s, "read"); CHECK(!k.closes && !k.errors, "nothing is delivered after the end of a connection"); CHECK(whole(k), "only complete, well formed messages are delivered");
  CHECK(n == 1 + (unsigned char)k.in[k.pos], "a message is delivered with its exact length"); CHECK(bytes_eq(p, &k.in[k.pos], n), "a message is delivered with its exact bytes"); k.pos += n; sym_reach("msg");
  if (extra > 0) switch (sym_choice(3, "act")) {
    case 1: extra--; close_checked(k, s); sym_reach("close_in"); break;
    case 2: { extra--; std::string d(p, n); k.trying = d; k.trying_close = true; CHECK(do_write(s, p, n, true) == 0, "reply accepted"); k.acc += d; k.any_close = true; k.trying = ""; sym_reach("reply_in"); break; }
  }
}
static bool close_allowed(Conn& k) { return bad(k) != 0; }
#ifndef CUTS
#define CUTS 0
#endif
static int rest_[2], cuts = 0;
static bool net_idle(int, int) {
  if (step == 0) { step++; for (int i = 0; i < CONNS; i++) { new_conn(); rest_[i] = i ? N2 : N; } return true; }
  for (int i = 0; i < CONNS; i++) { Conn& k = cn[i]; // everything received so far was processed
    if (k.up) { CHECK(!whole(k), "every complete message is delivered"); CHECK(!bad(k) || bad(k) == 4, "a malformed stream ends its connection"); CHECK(!why[i], "an ended connection is closed"); }
    else if (!k.app_closed && !k.any_close) { if (why[i] && !bad(k)) CHECK(why[i] == 3 ? k.errors == 1 && k.closes == 0 : k.closes == 1 && k.errors == 0, "the end of a connection is reported once"); else CHECK(bad(k) && k.errors == 1, "a malformed stream is reported once"); if (bad(k)) sym_reach("malformed"); }
  }
  bool any = false;
  for (int i = 0; i < CONNS; i++) { Conn& k = cn[i]; if (!k.up) continue;
    if (rest_[i]) { int c = ++cuts == CUTS ? rest_[i] : 1 + sym_choice(rest_[i], "cut"); std::string d = sym_string(c, i ? "s2" : "s1");
#ifdef MINL
      if (k.in.empty()) sym_assume((unsigned char)d[0] >= MINL);
#endif
      rest_[i] -= c; k.in += d; nfd[k.fd].rx += d; any = true; if (net_recv_faults > 0 && sym_bool("nr")) { net_recv_faults--; nfd[k.fd].rxerr = sym_bool("intr") ? EINTR : EAGAIN; } if (!rest_[i] && ENDS && sym_bool("with")) { why[i] = 1; nfd[k.fd].peer_eof = 1; } }
    else if (ENDS && !why[i]) { why[i] = 1 + sym_choice(3, "end"); if (why[i] == 1) nfd[k.fd].peer_eof = 1; else nfd[k.fd].rxerr = why[i] == 2 ? ECONNRESET : hard_not_reset("rerr"); if (why[i] == 2) nfd[k.fd].txerr = 0; any = true; } }
  if (any) return true; throw Done();
}
void harness() { setup(&filter, 12); extra = EXTRA; net_recv_faults = RFAULTS; serve(); teardown(); sym_reach("done"); }
#elif HT == 3 // ---- histories of connections whose descriptor numbers are used again
static int net_kind[NET_MAX];
int net_connect_result(int fd) { static int fixed = -1; return net_kind[fd] = sym_choice(3, "conres"); }
static void op_connect() {
  if (ncn >= 7) return; Conn& o = cn[ncn]; o.port = OUTPORT + ncn; o.out = 1; o.data = &o; o.pending = true; ncn++; int r = do_connect(o.port, o.data);
  if (r >= 0) { CHECK(net_ok(r) && nfd[r].kind == NK_TCP && ntohs(nfd[r].addr.sin_port) == o.port, "connect returns the new connection's descriptor"); o.fd = r; sym_reach("connecting"); } else { CHECK(!o.up || o.app_closed, "a failed connect leaves nothing open"); CHECK(o.connects == 0 || o.app_closed || o.any_close || net_ctl_fail < CTLFAIL, "a connect that fails at once is not announced"); o.pending = false; }
}
static void act(Conn& k, StSession& s, const char* nm) {
  if (extra <= 0) return;
  switch (sym_choice(4, nm)) {
    case 1: extra--; if (k.up) { close_checked(k, s); sym_reach("close_in"); } break;
    case 2: extra--; if (k.up) { close_checked(k, s); op_connect(); sym_reach("reuse_in"); } break;
    case 3: extra--; if (k.up && !nfd[k.fd].peer_eof) { op_write(k, s, 2); sym_reach("write_in"); } break;
  }
}
static void ap_connected(Conn& k, StSession& s) { act(k, s, "a1"); }
static void ap_ended(Conn& k, StSession& s) { if (extra > 0 && k.up && sym_bool("a2")) { extra--; close_checked(k, s); op_connect(); sym_reach("reuse_end"); } }
static void ap_read(StSession& s, const char* p, int n) {
  Conn& k = sess(s, "read"); CHECK(!k.closes && !k.errors, "nothing is delivered after the end of a connection"); CHECK(n > 0 && k.pos + n <= k.in.size(), "only received bytes are delivered"); CHECK(bytes_eq(p, &k.in[k.pos], n), "a connection's own bytes are delivered to it"); k.pos += n; if (!k.dead) act(k, s, "a3");
}
static bool close_allowed(Conn&) { return net_ctl_fail < CTLFAIL; }
static int base_open = 0;
static bool net_idle(int, int) {
  if (!base_open) base_open = net_open;
  int pend = 0, up = 0; for (int i = 0; i < ncn; i++) { Conn& k = cn[i];
    if (k.up) { up++; CHECK(k.connects == 1, "an open connection was announced"); CHECK(k.pos == k.in.size(), "everything received is delivered"); CHECK(!nfd[k.fd].peer_eof && !nfd[k.fd].txerr, "an ended connection is closed"); }
    else if (k.pending && k.out && k.fd >= 0 && nfd[k.fd].state == 1) pend++;
    else if (k.out) CHECK(k.connects == 1 || !k.pending, "a connection attempt's result is reported"); else CHECK(k.connects == 1, "an arriving connection is announced"); }
  CHECK(net_open == base_open + up + pend, "every descriptor of a connection that ended is closed, and no other");
  if (step >= STEPS) { for (int i = 0; i < ncn; i++) if (cn[i].up) { Conn& k = cn[i]; if (nfd[k.fd].blocked) return true; if (!k.dead) { CHECK(nfd[k.fd].tx.size() == k.acc.size(), "everything written is sent"); CHECK(!k.want_close, "closed after writing"); } } throw Done(); }
  step++;
  for (int i = 0; i < ncn; i++) { Conn& k = cn[i]; if (k.pending && k.out && k.fd >= 0 && nfd[k.fd].state == 1) { nfd[k.fd].state = sym_bool("established") ? 2 : 3; if (nfd[k.fd].state == 3) nfd[k.fd].soerr = hard_errno("soerr"); sym_reach("result"); return true; } }
  Conn* u[8]; int n = 0; for (int i = 0; i < ncn; i++) if (cn[i].up) u[n++] = &cn[i];
  int o = sym_choice(1 + 2 * n, "event");
  if (!o) { new_conn(); if (TWIN && sym_bool("twin")) new_conn(); return true; }
  Conn& k = *u[(o - 1) / 2]; if ((o - 1) % 2) { nfd[k.fd].peer_eof = 1; if (sym_bool("last")) { char c = (char)sym_u8("b"); k.in += c; nfd[k.fd].rx += c; } } else { std::string d = sym_string(2, "b"); k.in += d; nfd[k.fd].rx += d; }
  if (sym_bool("keep")) net_keep = 1; return true;
}
void harness() { setup(0, MAXC); extra = EXTRA; net_send_faults = FAULTS; net_send_kinds = 3; net_ctl_fail = CTLFAIL; serve(); teardown(); sym_reach("done"); }
#elif HT == 4 // ---- the connection limit and the client table's size
int net_connect_result(int) { return 1; }
static int live = 0; static StSession last[64]; static int ncap = 0;
static void ap_connected(Conn& k, StSession& s) { live++; } static void ap_ended(Conn&, StSession&) {} static void ap_read(StSession&, const char*, int) {} static bool close_allowed(Conn&) { return false; }
static struct LimProc : CProcessor {
  void onConnect(StSession& s, bool ok, void*) { CHECK(ok && s.iFd > 0 && nfd[s.iFd].kind == NK_TCP, "an accepted connection"); last[ncap++ % 64] = s; live++; } void onError(StSession& s, const char*, int e) { if (e == ERR_MAX_CLIENT) refused_max++; } void onClose(StSession& s) { live--; } void onRead(StSession&, const char*, const int) {}
} lim;
static int base_open = 0, arrived = 0, closed_ = 0; static int cap_() { int t = (int)(MAXC * 1.2f) - 7; return MAXC < t ? MAXC : t; }
static bool net_idle(int, int) {
  if (!base_open) { base_open = net_open; for (int i = 0; i < ARRIVE; i++) { net_peer_connect(lfd, 3000 + arrived++); } return true; }
  CHECK(live <= MAXC, "no more connections than configured"); CHECK(net_open == base_open + live, "refused connections are closed, accepted ones are open"); 
  if (step == 0) CHECK(live == (ARRIVE < cap_() ? ARRIVE : cap_()), "as many connections as configured are accepted");
  else if (step == 1) CHECK(live == cap_() - 1, "a connection ended"); else CHECK(live == cap_(), "a place given back is used again");
  CHECK(refused_max == arrived - live - closed_, "a refused connection is reported");
  if (step == 0) { step++; int which = sym_choice(3, "which"), at = which == 0 ? 0 : which == 1 ? live / 2 : live - 1; if (sym_bool("peer")) nfd[last[at].iFd].peer_eof = 1; else { live--; CHECK(mg->close(last[at]) == 0, "close"); CHECK(mg->close(last[at]) == 0 || true, ""); CHECK(mg->write(last[at], "x", 1, false) < 0, "writing to an ended session is refused while its descriptor is free"); } closed_++; return true; }
  if (step == 1) { step++; net_peer_connect(lfd, 3000 + arrived++); net_peer_connect(lfd, 3000 + arrived++); sym_reach("again"); return true; }
  throw Done();
}
void harness() {
  mg = &CCommMgr::getInstance(); CHECK(mg->init(MAXC) == 0, "init"); srv = mg->createSrv(SRV_TCP, "127.0.0.1", 80); CHECK(srv >= 0 && mg->setProcessor(srv, &lim) == 0, "service"); for (int i = 3; i < NET_MAX; i++) if (nfd[i].kind == NK_LISTEN) lfd = i; serve(); CHECK(refused_max > 0, ""); sym_reach("done");
}
#elif HT == 5 // ---- a service is removed while it has connections
int net_connect_result(int) { return 1; }
static int removed = 0;
static void ap_connected(Conn& k, StSession& s) { if (!k.out && ONC) op_write(k, s, 2); }
static void ap_ended(Conn&, StSession&) {}
static void ap_read(StSession& s, const char* p, int n) { Conn& k = sess(s, "read"); CHECK(!removed || k.out, "nothing is delivered for a removed service"); CHECK(k.pos + n <= k.in.size() && bytes_eq(p, &k.in[k.pos], n), "own bytes"); k.pos += n; }
static bool close_allowed(Conn& k) { return removed && !k.out; }
static int base_open = 0; static Conn* oc;
static bool net_idle(int, int) {
  switch (step++) {
    case 0: { base_open = net_open; oc = &cn[ncn]; oc->port = OUTPORT; oc->out = 1; oc->data = &step; ncn++; oc->fd = do_connect(OUTPORT, &step); CHECK(oc->fd >= 0, "connecting"); nfd[oc->fd].state = 2; return true; }
    case 1: for (int i = 0; i < 2; i++) new_conn(); return true;
    case 2: { for (int i = 0; i < ncn; i++) if (cn[i].up && sym_bool("rx")) { nfd[cn[i].fd].rx += 'q'; cn[i].in += 'q'; if (sym_bool("eof")) nfd[cn[i].fd].peer_eof = 1; }
      removed = 1; CHECK(mg->rmSrv(srv) == 0, "removed"); lfd = -1; for (int i = 0; i < ncn; i++) if (!cn[i].out) CHECK(!cn[i].up, "the connections of a removed service are closed"); CHECK(net_open == base_open - 1 + (oc->up ? 1 : 0), "its descriptors are released"); CHECK(mg->rmSrv(srv) < 0 && mg->setProcessor(srv, &proc) < 0, "a removed service is gone"); sym_reach("removed"); return true; }
    case 3: if (!oc->up) break; CHECK(oc->pos == oc->in.size(), "other connections go on"); sym_reach("others"); nfd[oc->fd].rx += 'z'; oc->in += 'z'; srv = mg->createSrv(SRV_TCP, "127.0.0.1", 81, RBI, RBM, SBI, SBM); CHECK(srv >= 0 && mg->setProcessor(srv, &proc) == 0, "a new service"); for (int i = 3; i < NET_MAX; i++) if (nfd[i].kind == NK_LISTEN) lfd = i; removed = 0; new_conn(); return true;
    case 4: CHECK(oc->pos == oc->in.size() && oc->up && cn[ncn - 1].connects == 1 && (cn[ncn - 1].up || cn[ncn - 1].any_close || cn[ncn - 1].dead), "new connections are served"); break;
  }
  throw Done();
}
void harness() { setup(0, 12); net_send_faults = 2; net_send_kinds = 3; serve(); sym_reach("done"); }
#elif HT == 8 // ---- larger sizes: long streams of messages of many sizes, answered on a slow connection; floods; messages too long
struct Filter : CPackageFilter {
  int isWholePkg(const char* p, const int n, int& real, int& len) { if (n < 2) return -1; int l = (unsigned char)p[0] << 8 | (unsigned char)p[1]; real = l; len = 2 + l; return n < len ? -1 : 0; }
  const char* getRealPkgData(const char* p, const int) { return p + 2; }
}; static Filter filter;
int net_connect_result(int) { return 1; }
static size_t chunk; static std::string st[5]; static std::vector<size_t> end_[5]; static size_t msgs[5], fed[5]; static bool refused[5];
static bool put(Conn& k, StSession& s, const std::string& d, bool cl) {
  CHECK(k.up, "open"); size_t pend = k.acc.size() - nfd[k.fd].tx.size(); k.trying = d; k.trying_close = cl; int r = do_write(s, d.data(), (int)d.size(), cl);
  if (r >= 0) { k.acc += d; k.any_close |= cl; } else CHECK(pend + d.size() > SBM, "a write is refused only if the connection failed or its buffer is full");
  k.trying = ""; k.trying_close = false; tx_ok(k); return r >= 0;
}
static std::string some(size_t n, int salt) { std::string d(n, 'x'); if (n) { sym_pattern(&d[0], n, salt, 0); d[0] = (char)sym_u8("b0"); d[n - 1] = (char)sym_u8("b1"); d[n / 2] = (char)sym_u8("b2"); } return d; }
static void ap_connected(Conn& k, StSession& s) {
  int i = &k - cn; if (i != 2 && i != 3) return;
  for (int n = 0; n < 60 && k.up; n++) { if (!put(k, s, some(n % 7 ? 997 : 1 + n, n), i == 3 && n == 29)) { CHECK(i == 2, "a buffer with room takes a write"); refused[i] = true; sym_reach("full"); k.dead = true; close_checked(k, s); } if (i == 3 && n == 29) break; }
}
static void ap_ended(Conn&, StSession&) {}
static void ap_read(StSession& s, const char* p, int n) {
  Conn& k = sess(s, "read"); int i = &k - cn; size_t m = msgs[i]; CHECK(m < end_[i].size() && end_[i][m] <= fed[i], "only complete messages are delivered"); size_t b = m ? end_[i][m - 1] : 0;
  CHECK((size_t)n == end_[i][m] - b && bytes_eq(p, &st[i][b], n), "a message is delivered with its exact bytes"); msgs[i]++; std::string d(p, n); CHECK(put(k, s, d, false), "an answer is accepted"); sym_reach("msg");
}
static bool close_allowed(Conn& k) { int i = &k - cn; return i == 4 && fed[4] >= RBM; }
static bool net_idle(int, int) {
  if (step++ == 0) { for (int i = 0; i < 5; i++) new_conn(); return true; }
  bool any = false;
  for (int i = 0; i < 5; i++) { Conn& k = cn[i]; if (!k.up) continue; if (nfd[k.fd].blocked || k.acc.size() > nfd[k.fd].tx.size()) { CHECK(nfd[k.fd].blocked, "what can be sent is sent"); any = true; continue; }
    if (i == 2 || i == 3) { CHECK(i == 2 && !refused[2], "a connection is closed after its data was sent, or after the application closed it"); continue; }
    if (fed[i] < st[i].size()) { size_t c = st[i].size() - fed[i]; if (c > chunk) c = chunk; nfd[k.fd].rx.append(st[i], fed[i], c); fed[i] += c; any = true; } }
  if (any) return true;
  for (int i = 0; i < 2; i++) { Conn& k = cn[i]; CHECK(k.up && msgs[i] == end_[i].size() && str_eq(nfd[k.fd].tx, st[i]), "every message is delivered and answered in full"); }
  CHECK(!cn[4].up && cn[4].errors == 1 && !cn[4].closes && !msgs[4], "a message longer than the receive buffer can become ends its connection"); CHECK(!cn[2].errors && !cn[2].closes && refused[2] == (net_send_max < 40000), "a full buffer refuses"); CHECK(!cn[3].errors && !cn[3].closes && !cn[3].up, "closed after writing");
  throw Done();
}
static void msg(int i, size_t n, int salt) { std::string d = some(n, salt); st[i] += (char)(n >> 8); st[i] += (char)n; st[i] += d; end_[i].push_back(st[i].size()); }
void harness() {
  static const size_t CH[] = {100, 1460, 8192}, SM[] = {333, 4096, 1u << 30}; static const int SZ[] = {0, 1, 253, 254, 255, 256, 509, 510, 511, 512, 513, 1000, 1022, 1023, 4094, 4096, 8190, 16384, 29997, 29998, 3};
  int c = sym_choice(3, "chunk"); chunk = CH[c]; net_send_max = SM[sym_choice(3, "slow")];
  if (net_send_max > 4096) sym_reach("fast");
  for (int i = 0; i < 60; i++) msg(0, i * 7 % 41, i); for (size_t i = 0; i < sizeof SZ / sizeof *SZ; i++) if (c || SZ[i] < 2000) msg(1, SZ[i], i); msg(4, 29999, 1); setup(&filter, 12); serve(); teardown(); sym_reach("done");
}
#elif HT == 6 // ---- datagram services
int net_connect_result(int) { return 1; }
static void ap_connected(Conn&, StSession&) {} static void ap_ended(Conn&, StSession&) {} static void ap_read(StSession&, const char*, int) {} static bool close_allowed(Conn&) { return false; }
struct Filter : CPackageFilter {
  int isWholePkg(const char* p, const int n, int& real, int& len) { if (n <= 0) return -1; int l = (unsigned char)p[0]; if (l > LMAX) return -2; if (n < 1 + l) return -1; real = l; len = 1 + l; return 0; }
  const char* getRealPkgData(const char* p, const int) { return p + 1; }
}; static Filter filter;
static int ufd = -1, cur = 0, ndg = 0, reads = 0, errs = 0; static std::string dg[4]; static bool rerr = false; static std::string echo;
static int verdict(const std::string& d) { if (d.empty() || d.size() > DGMAX) return 0; int l = (unsigned char)d[0]; return l <= LMAX && d.size() >= 1 + (size_t)l; }
static struct UProc : CProcessor {
  void onRead(StSession& s, const char* p, const int n) {
    CHECK(s.iFd == ufd && s.iSvrId == srv, "the service's session"); while (cur < ndg && !verdict(dg[cur])) cur++; CHECK(cur < ndg, "only complete datagrams are delivered, each once"); CHECK(ntohs(s.stClientAddr.sin_port) == 4000 + cur, "with their sender's address"); std::string& d = dg[cur++];
    CHECK(n == 1 + (unsigned char)d[0] && bytes_eq(p, d.data(), n), "a datagram's exact bytes"); reads++; sym_reach("dgram");
    if (mg->writeTo(srv, "10.0.0.1", ntohs(s.stClientAddr.sin_port), p, n) == 0) { echo += std::string(p, n); CHECK(ntohs(nfd[ufd].to.back().sin_port) == ntohs(s.stClientAddr.sin_port) && nfd[ufd].to.back().sin_addr.s_addr == htonl(0x0a000001), "an answer goes to its addressee"); sym_reach("answered"); } else { CHECK(net_send_faults == 0, "sending succeeds unless the socket fails"); sym_reach("sendfail"); }
  }
  void onError(StSession& s, const char*, int e) { errs++; sym_reach("dgerr"); } void onClose(StSession&) { sym_fail("a datagram service has no connections"); }
} up_;
static bool net_idle(int, int) {
  if (step == 0) { step++; for (int i = 0; i < DG; i++) { dg[i] = sym_string(sym_choice(DGN + 1, "dgn"), "dg"); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(4000 + i); a.sin_addr.s_addr = htonl(0x0a000001); nfd[ufd].dgrams.push_back(dg[i]); nfd[ufd].from.push_back(a); ndg++; } if (sym_bool("rerr")) { nfd[ufd].rxerr = ECONNREFUSED; rerr = true; } return true; }
  int ok = 0, bad = 0, empty = 0; for (int i = 0; i < ndg; i++) if (verdict(dg[i])) ok++; else if (dg[i].empty()) empty++; else bad++;
  CHECK(reads == ok, "every complete datagram is delivered"); CHECK(errs >= bad && errs <= bad + empty + rerr, "every other one is reported"); for (int i = 0; i < ndg; i++) if (dg[i].size() > DGMAX) sym_reach("toolong"); CHECK(str_eq(nfd[ufd].tx, echo), "answers are sent once, whole"); throw Done();
}
void harness() {
  mg = &CCommMgr::getInstance(); CHECK(mg->init(12) == 0, "init"); srv = mg->createSrv(SRV_UDP, "127.0.0.1", 53, 2, DGMAX); CHECK(srv >= 0 && mg->setProcessor(srv, &up_, PKG_EXT) == 0 && mg->setPkgFilter(srv, &filter) == 0, "service"); for (int i = 3; i < NET_MAX; i++) if (nfd[i].kind == NK_UDP) ufd = i; net_send_faults = 1; serve(); sym_reach("done");
}
#endif
#else // ---- HT 7: CNetWorkerMgr: a listening thread hands connections over to worker threads
#ifdef FAULT
extern "C" { extern int lce_thread_fault; int lce_thread_fault; }
#endif
int net_connect_result(int) { return 1; } static void net_turn() {}
struct Hand { int connects, reads, closes; pthread_t who; std::string in, out; int fd; }; static Hand hd[4]; static int handled = 0, arrived = 0, errors = 0; static pthread_t mainthread;
struct Done {};
static struct Filter : CPackageFilter { // whole message: two bytes
  int isWholePkg(const char* p, const int n, int& real, int& len) { if (n < 2) return -1; real = len = 2; return 0; } const char* getRealPkgData(const char* p, const int) { return p; }
} filter;
struct MW : CNetWorker {
  Hand& hand(StSession& s) { int i = ntohs(s.stClientAddr.sin_port) - 1001; CHECK(i >= 0 && i < ARRIVE, "a connection that arrived"); CHECK(!pthread_equal(pthread_self(), mainthread), "connections are served by worker threads"); return hd[i]; }
  void onConnect(StSession& s, bool ok, void*) { Hand& h = hand(s); NET_GUARD; CHECK(ok && h.connects++ == 0, "a connection is handed over once"); h.who = pthread_self(); h.fd = s.iFd; CHECK(nfd[s.iFd].kind == NK_TCP && nfd[s.iFd].addr.sin_port == s.stClientAddr.sin_port, "with its own descriptor"); }
  void onRead(StSession& s, const char* p, const int n) { Hand& h = hand(s); { NET_GUARD; CHECK(h.connects == 1 && pthread_equal(h.who, pthread_self()), "one worker serves a connection"); CHECK(n == 2 && bytes_eq(p, h.in.data(), 2) && h.reads++ == 0, "its own message, once"); CHECK(s.iFd == h.fd, "in its own session"); } CHECK(write(s, p, n, true) == 0, "answered"); NET_GUARD; handled++; sym_reach("served"); }
  void onClose(StSession& s) { Hand& h = hand(s); NET_GUARD; h.closes++; } void onError(StSession&, const char*, int) { NET_GUARD; errors++; }
};
static void on_err(const char*) { NET_GUARD; errors++; }
static bool net_idle(int ep, int) {
  if (!pthread_equal(pthread_self(), mainthread)) { NET_WAIT(); return true; }
  if (!arrived) { int lfd = -1; for (int i = 3; i < NET_MAX; i++) if (nfd[i].kind == NK_LISTEN) lfd = i; for (; arrived < ARRIVE; arrived++) net_peer_connect(lfd, 1001 + arrived); return true; }
  if (handled == ARRIVE) throw Done();
  for (int i = 3; i < NET_MAX; i++) if (nfd[i].kind == NK_TCP) { int p = ntohs(nfd[i].addr.sin_port) - 1001; if (hd[p].in.empty()) { hd[p].in = sym_string(2, "msg"); nfd[i].rx = hd[p].in; NET_WAKE(); } }
  NET_WAIT(); return true;
}
static CNetWorkerMgr<MW>* mgr;
void harness() {
  mainthread = pthread_self(); mgr = new CNetWorkerMgr<MW>; CHECK(mgr->init(THREADS, 20) == 0, "init"); int sv = mgr->createSrv("127.0.0.1", 80, PKG_RAW, 4, 8, 4, 8); CHECK(sv == 0 && mgr->setPkgFilter(sv, &filter) == 0 && mgr->setErrHandler(on_err) == 0, "service"); CHECK(mgr->setPkgFilter(1, &filter) < 0 && mgr->setPkgFilter(0, NULL) < 0, "refused");
#ifdef FAULT
  lce_thread_fault = 1 + sym_choice(THREADS, "fault"); CHECK(mgr->start() == -1, "a manager one of whose workers cannot be started says so"); sym_reach("done"); sym_end(); return;
#endif
  try { mgr->start(); } catch (Done&) { NET_UNLOCK(); }
  { NET_GUARD; CHECK(errors == 0, "nothing fails"); for (int i = 0; i < ARRIVE; i++) CHECK(hd[i].connects == 1 && hd[i].reads == 1, "every connection is served"); }
  sym_reach("done"); sym_end();
}
#endif
