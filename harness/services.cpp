// C48 the framing a service was set up with cuts its bytes (HT 1: CCommMgr BACK 0, CNetWorker BACK 1; HT 2: CNetWorkerMgr)   C49 (HT 3) CNetWorkerMgr: set-up and arrivals
#if HT >= 2
#define NET_THREADS
#define NETMAX_EPS 4
#endif
#include "net.h"
#if HT == 1 && BACK == 0
#include "CCommMgr.h"
#else
#include "CNetWorkerMgr.h"
#endif
using namespace lce;
struct Done {};
#if HT <= 2 // ---- what the messages of each framing are, independently of the code
static const int TY[] = {PKG_RAW, PKG_HTTP, PKG_H2ST3, PKG_H2LT3, PKG_EXT, 77}; enum { OWN = 100 };
static struct Own : CPackageFilter { int isWholePkg(const char*, const int n, int& real, int& len) { if (n < 3) return -1; real = len = 3; return 0; } const char* getRealPkgData(const char* p, const int) { return p; } } own; // three bytes each
static int cut_framed(const std::string& b, size_t pos, int lb) { // 0 incomplete, -1 invalid, else the length
  size_t n = b.size() - pos; if (!n) return 0; if (b[pos] != 2) return -1; if (n < 2 + (size_t)lb) return 0; uint64_t len = 0; for (int i = 0; i < lb; i++) len = len << 8 | (uint8_t)b[pos + 1 + i]; if (lb == 4 && len >> 31) return -1; if (len < 2 + (uint64_t)lb) return -1; if (n < len) return 0; return b[pos + len - 1] == 3 ? (int)len : -1;
}
static int cut_http(const std::string& b, size_t pos) { // the streams below have no or one Content-Length of one digit
  size_t h = b.find("\r\n\r\n", pos); if (h == std::string::npos) return 0; h += 4; size_t c = b.find("Content-Length: ", pos), v = 0; if (c != std::string::npos && c < h) v = b[c + 16] - '0'; return h + v - pos <= b.size() - pos ? (int)(h + v - pos) : 0;
}
static int cut(int ty, const std::string& b, size_t pos) {
  switch (ty) { case PKG_HTTP: return cut_http(b, pos); case PKG_H2ST3: return cut_framed(b, pos, 2); case PKG_H2LT3: return cut_framed(b, pos, 4); case OWN: return b.size() - pos >= 3 ? 3 : 0; case PKG_EXT: return b.size() > pos ? -1 : 0; default: return (int)(b.size() - pos); }
}
static std::string stream() {
  std::string p = sym_string(sym_choice(3, "plen"), "pay"), s; int second = sym_choice(3, "second");
  switch (sym_choice(3, "wire")) {
    case 0: s = std::string("\x02\x00", 2) + (char)(4 + p.size()) + p + (char)sym_u8("tail"); if (second) s += std::string("\x02\x00\x05\x07\x03", second == 1 ? 5 : 4); break;
    case 1: s = std::string("\x02\x00\x00\x00", 4) + (char)(6 + p.size()) + p + (char)sym_u8("tail"); if (second) s += std::string("\x02\x00\x00\x00\x07\x09\x03", second == 1 ? 7 : 4); break;
    case 2: s = "P\r\nContent-Length: "; s += (char)('0' + p.size()); s += "\r\n\r\n" + p; if (second) s += second == 1 ? "G\r\n\r\n" : "G\r\n\r"; break;
  }
  return s;
}
static std::string sent; static size_t rpos = 0; static int ty = -1, errs = 0, closes = 0, conns = 0, myfd = -1; static bool bad = false; static int lasterr = 0, mysrv = -1;
static void got(StSession& s, const char* p, int n) {
  CHECK(s.iFd == myfd && s.iSvrId == mysrv, "in the session of its connection"); CHECK(!bad && n > 0 && rpos + n <= sent.size() && bytes_eq(p, sent.data() + rpos, n), "what is delivered are the next bytes received");
  if (ty != PKG_RAW && ty != 77) CHECK(n == cut(ty, sent, rpos), "as one whole message of the service's framing"); rpos += n; sym_reach(ty == OWN ? "own" : ty == PKG_HTTP ? "http" : ty == PKG_H2ST3 ? "short" : ty == PKG_H2LT3 ? "long" : "raw");
}
static void failed(StSession& s, int e) { CHECK(s.iFd == myfd && s.iSvrId == mysrv, "in the session of its connection"); if (e == ERR_NOT_READY) return; errs++; lasterr = e; }
static void settled(bool open) { // everything sent has been looked at
  int c; bool inv = false; size_t q = rpos; c = cut(ty, sent, q); inv = c < 0; CHECK(c <= 0, "every whole message has been delivered");
  if (inv) { CHECK(errs == 1 && lasterr == (ty == PKG_EXT ? ERR_PKG_FILTER : ERR_INVALID_PACKAGE) && !open, "bytes that are no message end the connection, with one report"); bad = true; sym_reach(ty == PKG_EXT ? "nofilter" : "invalid"); } else CHECK(errs == 0 && open, "nothing else is refused");
}
#endif
#if HT == 1
static void net_turn() {} static int step = 0, lfd = -1; static std::string all; static size_t chunk1 = 0;
int net_connect_result(int) { return 1; }
#if BACK == 0
static struct Pr : CProcessor { void onConnect(StSession& s, bool ok, void*) { CHECK(ok, "connected"); conns++; myfd = s.iFd; } void onRead(StSession& s, const char* p, const int n) { got(s, p, n); } void onClose(StSession&) { closes++; } void onError(StSession& s, const char* m, int e) { CHECK(memchr(m, 0, 1024), "a finished text"); failed(s, e); } } pr; static CCommMgr* mg;
static void config(int id) { // a history of set-up calls; the last ones count
  CHECK(mg->setProcessor(id, &pr, ty = TY[sym_choice(6, "ty")]) == 0, "processor");
  for (int i = 0; i < CONFS; i++) switch (sym_choice(3, "conf")) { case 0: i = CONFS; break; case 1: CHECK(mg->setPkgFilter(id, &own) == 0, "filter"); ty = OWN; break; case 2: CHECK(mg->setProcessor(id, &pr, ty = TY[sym_choice(6, "ty2")]) == 0, "processor again"); break; }
}
static void setup() {
  mg = &CCommMgr::getInstance(); CHECK(mg->init(12) == 0, "init");
#if KIND == 0
  int id = mg->createSrv(SRV_TCP, "127.0.0.1", 80, 8, 96); int other = mg->createSrv(SRV_TCP, "127.0.0.1", 81); CHECK(other >= 0 && mg->setProcessor(other, &pr, PKG_H2LT3) == 0, "another service does not matter");
#elif KIND == 1
  int id = mg->createClient(8, 96);
#else
  int id = mg->createSrv(SRV_UDP, "127.0.0.1", 80, 96, 96);
#endif
  CHECK(id >= 0, "service"); mysrv = id; config(id); for (int i = 3; i < NET_MAX; i++) if ((nfd[i].kind == NK_LISTEN || nfd[i].kind == NK_UDP) && ntohs(nfd[i].addr.sin_port) == 80) lfd = i;
#if KIND == 2
  myfd = lfd;
#endif
}
static void begin() {
#if KIND == 0
  net_peer_connect(lfd, 1001);
#else
  int fd = mg->connect(mysrv, "127.0.0.1", 90, 0); CHECK(fd >= 0, "connecting"); nfd[fd].state = 2;
#endif
}
static void loop() { try { mg->start(); } catch (Done&) {} }
#else
struct W : CNetWorker { void onConnect(StSession& s, bool ok, void*) { CHECK(ok, "connected"); conns++; myfd = s.iFd; } void onRead(StSession& s, const char* p, const int n) { got(s, p, n); } void onClose(StSession&) { closes++; } void onError(StSession& s, const char* m, int e) { CHECK(memchr(m, 0, 1024), "a finished text"); failed(s, e); } }; static W* w;
static void setup() {
  w = new W; CHECK(w->init(12) == 0, "init"); int o1 = w->createClient(PKG_H2ST3); mysrv = w->createClient(ty = TY[sym_choice(6, "ty")], 8, 96); int o2 = w->createClient(PKG_HTTP); CHECK(mysrv >= 0 && o1 >= 0 && o2 >= 0 && o1 != mysrv && o2 != mysrv && o1 != o2, "clients with numbers of their own");
  if (sym_bool("own")) { CHECK(w->setPkgFilter(mysrv, &own) == 0, "filter"); ty = OWN; if (sym_bool("again")) CHECK(w->setPkgFilter(mysrv, &own) == 0, "filter"); } CHECK(w->setPkgFilter(mysrv, 0) < 0 && w->setPkgFilter(-1, &own) < 0, "refused");
}
static void begin() { int fd = w->connect(mysrv, "127.0.0.1", 90, 0); CHECK(fd >= 0, "connecting"); nfd[fd].state = 2; }
static void loop() { try { ((CThread*)w)->run(); } catch (Done&) {} delete w; }
#endif
#if KIND == 2
static bool net_idle(int, int) { // each datagram stands alone
  if (step) { int c = sent.empty() ? 0 : cut(ty, sent, 0); if (c > 0) CHECK(rpos == (size_t)c && errs == 0, "the message of a datagram is delivered"); else CHECK(rpos == 0 && errs == 1 && lasterr == (ty == PKG_EXT ? ERR_PKG_FILTER : ERR_INVALID_PACKAGE), "a datagram that holds none is reported"); if (c <= 0) sym_reach("refused"); rpos = 0; errs = 0; bad = false; }
  if (step++ >= DGS) throw Done(); sent = stream(); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(4000); a.sin_addr.s_addr = htonl(0x0a000001); nfd[myfd].dgrams.push_back(sent); nfd[myfd].from.push_back(a); return true;
}
#else
static bool net_idle(int, int) {
  bool open = myfd >= 0 && net_ok(myfd) && nfd[myfd].kind == NK_TCP;
  switch (step++) {
    case 0: begin(); return true;
    case 1: CHECK(conns == 1 && open, "connected"); all = stream(); chunk1 = sym_choice(all.size() + 1, "cut"); sent = all.substr(0, chunk1); nfd[myfd].rx = sent; if (chunk1) return true; // fall through: nothing sent yet
    case 2: settled(open); if (!open) throw Done(); step = 3; nfd[myfd].rx = all.substr(chunk1); sent = all; if (chunk1 < all.size()) return true;
    default: settled(open); throw Done();
  }
}
#endif
void harness() { now_s = 5000; setup(); loop(); sym_reach("done"); }
#else
// ---- CNetWorkerMgr: the main thread accepts, worker threads serve.  The main thread's idle turn acts when every worker waits and has nothing to do.
static pthread_t mainthread; static int waiting = 0; static pthread_cond_t main_c = PTHREAD_COND_INITIALIZER; static void net_turn() {}
int net_connect_result(int) { return 1; }
static bool is_main() { return pthread_equal(pthread_self(), mainthread); }
static bool quiet() { if (waiting < THREADS) return false; for (int i = 3; i < NET_MAX; i++) if (nfd[i].kind) for (int x = 0; x < net_eps; x++) if ((nfd[i].reg[x] & NET_ARMED) && (net_ready(i) & ((nfd[i].reg[x] & ~NET_ARMED) | EPOLLERR | EPOLLHUP))) return false; return true; }
static bool act(); // under the lock; false: nothing happens (any more)
static bool net_idle(int, int) {
  if (!is_main()) { waiting++; pthread_cond_signal(&main_c); NET_WAIT(); waiting--; return true; }
  while (!quiet()) { for (int i = 3; i < NET_MAX; i++) if (nfd[i].kind == NK_LISTEN && net_ready(i)) return true; pthread_cond_wait(&main_c, &net_m); }
  if (!act()) throw Done(); NET_WAKE(); return true;
}
static int find_listen(int port) { for (int i = 3; i < NET_MAX; i++) if (nfd[i].kind == NK_LISTEN && ntohs(nfd[i].addr.sin_port) == port) return i; return -1; }
static int next_fd() { for (int i = 3; i < net_maxfd; i++) if (nfd[i].kind == NK_FREE) return i; return net_maxfd; }
#if HT == 2
struct W : CNetWorker { void onConnect(StSession& s, bool ok, void*) { NET_GUARD; CHECK(ok && !is_main(), "connected, in a worker"); conns++; myfd = s.iFd; } void onRead(StSession& s, const char* p, const int n) { NET_GUARD; got(s, p, n); } void onClose(StSession&) { closes++; } void onError(StSession& s, const char* m, int e) { NET_GUARD; CHECK(memchr(m, 0, 1024), "a finished text"); failed(s, e); } };
static CNetWorkerMgr<W>* mgr; static int step = 0; static std::string all; static size_t chunk1 = 0;
static bool act() {
  bool open = myfd >= 0 && net_ok(myfd) && nfd[myfd].kind == NK_TCP;
  switch (step++) {
    case 0: net_peer_connect(find_listen(80), 1001); return true;
    case 1: CHECK(conns == 1 && open && nfd[myfd].nonblock, "connected"); all = stream(); chunk1 = sym_choice(all.size() + 1, "cut"); sent = all.substr(0, chunk1); nfd[myfd].rx = sent; if (chunk1) return true;
    case 2: settled(open); if (!open) return false; step = 3; nfd[myfd].rx = all.substr(chunk1); sent = all; if (chunk1 < all.size()) return true;
    default: settled(open); return false;
  }
}
void harness() {
  now_s = 5000; mainthread = pthread_self(); mgr = new CNetWorkerMgr<W>; CHECK(mgr->init(THREADS, 20) == 0, "init"); int o1 = mgr->createSrv("127.0.0.1", 81, PKG_H2LT3); mysrv = mgr->createSrv("127.0.0.1", 80, ty = TY[sym_choice(6, "ty")], 8, 96); int o2 = mgr->createSrv("127.0.0.1", 82, PKG_HTTP); CHECK(mysrv >= 0 && o1 >= 0 && o2 >= 0 && o1 != mysrv && o2 != mysrv && o1 != o2, "services with numbers of their own");
  if (sym_bool("own")) { CHECK(mgr->setPkgFilter(mysrv, &own) == 0, "filter"); ty = OWN; } CHECK(mgr->setPkgFilter(mysrv, 0) < 0 && mgr->setPkgFilter(-1, &own) < 0, "refused");
  try { mgr->start(); } catch (Done&) { NET_UNLOCK(); } sym_reach("done"); sym_end();
}
#else
static int nserved[8], narr = 0, waited = 0, told = 0, asrv[8], afd[8], told_at = 0; static bool mgr_err = false, refused_[8]; static pthread_t by[8]; static int nsrv = 0, sport[4], step = 0;
struct W : CNetWorker {
  void onConnect(StSession& s, bool ok, void*) { NET_GUARD; int i = ntohs(s.stClientAddr.sin_port) - 1001; CHECK(ok && i >= 0 && i < narr && !refused_[i] && nserved[i]++ == 0, "an arrival is handed over once"); CHECK(!is_main(), "to a worker's own thread"); CHECK(s.iSvrId == asrv[i], "under its service's number"); CHECK(net_ok(s.iFd) && nfd[s.iFd].kind == NK_TCP && nfd[s.iFd].addr.sin_port == s.stClientAddr.sin_port && nfd[s.iFd].nonblock, "on its own non-blocking descriptor"); afd[i] = s.iFd; by[i] = pthread_self(); }
  void onRead(StSession& s, const char*, const int) {} void onClose(StSession& s) {} void onError(StSession&, const char*, int) { sym_fail("nothing fails in a worker"); }
};
static CNetWorkerMgr<W>* mgr;
static void on_err(const char* m) { NET_GUARD; CHECK(is_main() && memchr(m, 0, 1024) && strlen(m) > 0, "a finished text"); told++; if (net_maxfd < NET_MAX && next_fd() == net_maxfd) { net_maxfd++; sym_reach("nofd"); } } // descriptors become free again after a while
static bool act() {
  for (int i = 0; i < narr; i++) { if (!nserved[i] && !refused_[i]) { bool open = false; for (int f = 3; f < NET_MAX; f++) if (nfd[f].kind == NK_TCP && ntohs(nfd[f].addr.sin_port) == 1001 + i) open = true; CHECK(!open && (!mgr_err || told > told_at), "an arrival that is not handed over is closed and reported"); refused_[i] = true; sym_reach("refused"); CHECK(next_fd() > MAXC, "and is refused only at the limit"); } }
  told_at = told; int open = 0, all = 0; for (int i = 0; i < narr; i++) if (nserved[i] && afd[i] >= 0) open++; for (int f = 3; f < NET_MAX; f++) if (nfd[f].kind == NK_TCP) all++; CHECK(open == all, "no other connections are open");
  if (nsrv == 0 || step++ >= STEPS) return false;
  int n = 1 + sym_choice(2, "n"); if (sym_bool("afault")) net_accept_faults = 1; if (!mgr_err) { CHECK(told == 0, "the handler belongs to the caller"); }
  for (int k = 0; k < n && narr < 8; k++) { int v = sym_choice(nsrv, "to"); asrv[narr] = v; afd[narr] = -1; net_peer_connect(find_listen(sport[v]), 1001 + narr++); } return true;
}
void harness() {
  now_s = 5000; mainthread = pthread_self(); mgr = new CNetWorkerMgr<W>; int base = 3 + 3 + 4 * THREADS; bool zero = false;
  if (sym_bool("short")) { net_maxfd = 3 + sym_choice(3 + 4 * THREADS, "room"); CHECK(mgr->init(THREADS, MAXC) < 0, "a manager that cannot get what it needs says so"); net_maxfd = NET_MAX; sym_reach("failed_init"); for (int f = 3, n = 0; f < NET_MAX; f++) { if (nfd[f].kind == NK_EPOLL) n++; } }
  else if (sym_bool("none")) { CHECK(mgr->init(0, MAXC) < 0, "a manager without workers is refused"); zero = true; sym_reach("none"); }
  CHECK(mgr->init(THREADS, MAXC) == 0, "init"); CHECK(net_open == 3 + 4 * THREADS, "nothing is open that is not needed"); if (sym_bool("handler")) { CHECK(mgr->setErrHandler(on_err) == 0, "handler"); mgr_err = true; }
  net_setup_faults = 1; net_ctl_fail = 1;
  for (int k = 0; k < SRVS; k++) { int f0 = net_setup_faults + net_ctl_fail, o0 = net_open; int id = mgr->createSrv("127.0.0.1", 80 + k, PKG_RAW, 4, 8, 4, 8); bool f = net_setup_faults + net_ctl_fail < f0; CHECK((id < 0) == f, "creating a service fails exactly if a step of it failed"); if (f) { CHECK(net_open == o0, "and leaves nothing open"); sym_reach("failed"); } else { CHECK(id == nsrv && net_open == o0 + 1, "a new service has a new number"); int l = find_listen(80 + k); CHECK(l >= 0 && nfd[l].nonblock && nfd[l].addr.sin_addr.s_addr == htonl(0x7f000001), "it is bound to the given address and does not block the loop"); sport[nsrv++] = 80 + k; sym_reach("created"); } }
  net_setup_faults = net_ctl_fail = 0; if (mgr_err && sym_bool("fdlimit")) net_maxfd = next_fd();
  try { mgr->start(); } catch (Done&) { NET_UNLOCK(); }
  { NET_GUARD; if (THREADS > 1 && narr > 1 && nserved[0] && nserved[1] && !refused_[0] && !refused_[1]) sym_reach(pthread_equal(by[0], by[1]) ? "same" : "spread"); for (int i = 0; i < narr; i++) if (nserved[i]) sym_reach("served"); }
  sym_reach("done"); sym_end();
}
#endif
#endif
