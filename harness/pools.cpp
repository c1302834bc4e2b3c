// C36 worker pools (KIND 0 raw, 1 HTTP, 2 any-value) on top of CCommMgr and the thread pool.
#define NET_THREADS
#define NET_CLOSE_HOOK
#include "net.h"
#if KIND == 0
#include "CRawWorkerPool.h"
#define POOL CRawWorkerPool
#define WORKER CRawWorker
#define REQ CRawRequest
#define RESP CRawResponse
#elif KIND == 1
#include "CHttpWorkerPool.h"
#define POOL CHttpWorkerPool
#define WORKER CHttpWorker
#define REQ CHttpRequest
#define RESP CHttpResponse
#else
#include "CAnyWorkerPool.h"
#define POOL CAnyWorkerPool
#define WORKER CAnyWorker
#define REQ CAnyRequest
#define RESP CAnyResponse
#endif
using namespace lce;
int net_connect_result(int) { return 1; } static void net_turn() {}
#if KIND == 1
extern "C" struct tm* gmtime_r(const time_t* t, struct tm* o) noexcept { memset(o, 0, sizeof *o); o->tm_mday = 1 + (int)(*t % 28); o->tm_year = 70; o->tm_wday = 4; return o; }
extern "C" struct tm* gmtime(const time_t* t) noexcept { static struct tm g; return gmtime_r(t, &g); } // one object for all threads, as in libc
#endif
struct Done {};
enum { MAXR = 8, MAXC = 6 };
struct R { int conn, handled, refused, close, thrown; unsigned char v, w; std::string bytes, answer; };       // a request
struct C { int fd, arrived, up, peer_closed, closed; std::string tx, want; bool ended_by_answer; }; // a connection
static R rq[MAXR]; static C cn[MAXC]; static int nrq = 0, ncn = 0, errs = 0, taken = 0, tickets = 0, allowed = 0, delivered = 0, nclose = 0, use_hook = 0; static bool gated = false; static pthread_t mainthread;
static int loop_errs = 0; static void on_err(const char*) { NET_GUARD; errs++; if (pthread_equal(pthread_self(), mainthread)) loop_errs++; }
static int find_request(const std::string& b) { for (int i = 0; i < nrq; i++) if (b.size() == rq[i].bytes.size() && bytes_eq(b.data(), rq[i].bytes.data(), b.size())) return i; return -1; }
// what a request looks like on the wire; request i is recognisable by a fixed part and carries an arbitrary part
static std::string wire(int i, unsigned char v) {
#if KIND == 0
  return std::string(1, (char)('A' + i)) + std::string(1, (char)v);
#elif KIND == 1
  std::string s = "GET /"; s += (char)('A' + i); s += "?a="; s += (char)v; s += " HTTP/1.1\r\nHost: h\r\n\r\n"; return s;
#else
  CAnyPackage p; p.head().setCmd(i + 1); p["v"] = (int)v; p.encode(); p.setEtx(); p.head().setStx(2); p.head().setLen(p.size()); return std::string(p.data(), p.size());
#endif
}
static unsigned char some_value() {
#if KIND == 1
  return (unsigned char)sym_range('a', 'z', "value");
#else
  return sym_u8("value");
#endif
}
#if KIND == 0
static void fill(std::string& w, int i) { w.assign(1, (char)('a' + i)); w += (char)rq[i].w; w += (char)('0' + i); }
#elif KIND == 1
static void fill(CHttpWriter& w, int i) { w.begin(); std::string s(1, (char)rq[i].w); s += (char)('a' + i); w << s; w.end(); }
#else
static void fill(CAnyPackage& w, int i) { w.head().setCmd(i + 1); w["r"] = (int)rq[i].w; w["s"] = std::string(1, (char)('a' + i)); }
#endif
static std::string answer(int i) {
#if KIND == 0
  std::string s; fill(s, i); return s;
#elif KIND == 1
  CHttpWriter w; fill(w, i); return std::string(w.data(), w.size());
#else
  CAnyPackage w; fill(w, i); w.encode(); w.setEtx(); w.head().setStx(2); w.head().setLen(w.size()); return std::string(w.data(), w.size()); // a complete package
#endif
}
static int tag_of(REQ& q) {
#if KIND == 0
  return q.getReader().size() ? q.getReader()[0] - 'A' : -1;
#elif KIND == 1
  const char* u = q.getReader().getURI(); return u[0] == '/' ? u[1] - 'A' : u[0] - 'A';
#else
  return (int)q.getReader().head().getCmd() - 1;
#endif
}
struct W : WORKER {
  void onRequest(REQ& q, RESP& p) {
    CHECK(!pthread_equal(pthread_self(), mainthread), "requests are handled by worker threads"); int i = tag_of(q); CHECK(i >= 0 && i < nrq, "a request that was made");
    pthread_mutex_lock(&net_m); while (gated && !tickets) pthread_cond_wait(&net_c, &net_m); if (gated) tickets--; R& r = rq[i]; CHECK(r.handled++ == 0, "each request is handled once"); taken++;
    StSession s = q.getSession(); CHECK(ntohs(s.stClientAddr.sin_port) == 1001 + r.conn && s.iFd == cn[r.conn].fd, "with the session of the connection it came from");
    bool cl = r.close, th = r.thrown; pthread_mutex_unlock(&net_m);
#if KIND == 0
    CHECK(str_eq(q.getReader(), r.bytes), "with its own message");
#elif KIND == 1
    std::string a; q.getReader().getValue("a", a); CHECK(a.size() == 1 && a[0] == (char)r.v, "with its own message");
#else
    CHECK((int)q.getReader()["v"] == (int)r.v, "with its own message");
#endif
    if (th) { sym_reach("thrown"); throw std::runtime_error("worker"); }
    p.setCloseFlag(cl); fill(p.getWriter(), i); sym_reach("handled");
  }
};
struct Pool_ : POOL<W> {
  void onRead(StSession& s, const char* p, const int n) { int e, i; { NET_GUARD; e = loop_errs; } i = find_request(std::string(p, n)); CHECK(i >= 0, "a request that was made"); rq[i].refused = -1; POOL<W>::onRead(s, p, n); NET_GUARD; if (use_hook && loop_errs > e) { rq[i].refused = 1; sym_reach("refused"); } else rq[i].refused = 0; }
  void onConnect(StSession& s, bool ok, void* d) { int c = ntohs(s.stClientAddr.sin_port) - 1001; CHECK(c >= 0 && c < ncn && ok, "a connection that arrived"); cn[c].fd = s.iFd; cn[c].up = 1; POOL<W>::onConnect(s, ok, d); }
  void onMessage(int t, void* d) { CHECK(pthread_equal(pthread_self(), mainthread), "answers are written by the loop's thread"); delivered++; POOL<W>::onMessage(t, d); }
  void onClose(StSession& s) { nclose++; POOL<W>::onClose(s); }
};
static Pool_* pool; static CCommMgr* mg; static int srv, lfd;
static void net_closing(int fd) { for (int c = 0; c < ncn; c++) if (cn[c].up && cn[c].fd == fd) { cn[c].up = 0; cn[c].closed = 1; cn[c].tx = nfd[fd].tx; } }
static struct Raw2 : CPackageFilter { int isWholePkg(const char*, const int n, int& real, int& len) { if (n < 2) return -1; real = len = 2; return 0; } const char* getRealPkgData(const char* p, const int) { return p; } } raw2;
static int ask(int c) { int i = nrq++; R& r = rq[i]; r.conn = c; r.handled = 0; r.refused = -1; r.v = some_value(); r.w = sym_u8("answer"); r.close = CLOSES && sym_bool("close"); r.thrown = THROWS && sym_bool("throw"); r.bytes = wire(i, r.v); r.answer = answer(i); nfd[cn[c].fd].rx += r.bytes; return i; }
static void setup(int threads, int queue) {
  mainthread = pthread_self(); mg = &CCommMgr::getInstance(); CHECK(mg->init(12) == 0, "init"); srv = mg->createSrv(SRV_TCP, "127.0.0.1", 80, RBUF, 2 * RBUF, RBUF, 2 * RBUF); CHECK(srv >= 0, "service");
  pool = new Pool_; CHECK(pool->init(threads, queue) == 0, "pool"); if (use_hook) pool->setErrHandler(on_err); CHECK(pool->run() == 0, "run");
  CHECK(mg->setProcessor(srv, pool, KIND == 0 ? PKG_RAW : KIND == 1 ? PKG_HTTP : PKG_H2LT3) == 0, "processor");
#if KIND == 0
  mg->setPkgFilter(srv, &raw2);
#endif
  for (int i = 3; i < NET_MAX; i++) if (nfd[i].kind == NK_LISTEN) lfd = i;
}
static void serve() { try { mg->start(); } catch (Done&) { NET_UNLOCK(); } }
static int pending() { int n = 0; for (int i = 0; i < nrq; i++) if (rq[i].refused == 0 && !rq[i].handled) n++; return n; }
static inline bool loop_ready() { for (int i = 3; i < NET_MAX; i++) if (nfd[i].kind && (nfd[i].reg[0] & NET_ARMED) && (net_ready(i) & ((nfd[i].reg[0] & ~NET_ARMED) | EPOLLERR | EPOLLHUP))) return true; return false; }
// every connection got the answers of its own requests, in order, up to its end
static void judge(bool all) {
  for (int c = 0; c < ncn; c++) { if (!cn[c].arrived) continue; std::string want; bool ended = false; int mine = 0;
    for (int k = 0; k < nrq; k++) { R& r = rq[k]; if (r.conn != c) continue; mine++; if (r.refused == 1) CHECK(r.handled == 0, "a refused request is not handled"); if (all && r.refused == 0) CHECK(r.handled == 1, "an accepted request is handled"); if (ended || r.refused || !r.handled || r.thrown) continue; want += r.answer; if (r.close) ended = true; }
    const std::string& tx = cn[c].up ? nfd[cn[c].fd].tx : cn[c].tx;
    if (cn[c].up || (ended && !cn[c].peer_closed)) CHECK(str_eq(tx, want), "a connection gets exactly the answers to its own requests"); else CHECK(tx.size() <= want.size() && bytes_eq(tx.data(), want.data(), tx.size()), "a connection gets no answers but its own");
    if (all && ended && !cn[c].peer_closed) CHECK(!cn[c].up, "a closing answer ends the connection"); if (!ended && !cn[c].peer_closed) CHECK(cn[c].up, "only a closing answer ends the connection"); if (ended) sym_reach("closing"); (void)mine; }
}
#if HT == 1 // histories: one worker that handles a request when the harness says so
static int step = 0;
static bool net_idle(int, int) {
  int thrown = 0; for (int i = 0; i < nrq; i++) thrown += rq[i].handled && rq[i].thrown;
  if (taken < allowed || delivered + thrown < taken) { NET_WAIT(); return true; } // the worker was allowed a request: its answer comes as a message
  judge(false);
  if (step < STEPS) { step++;
    int open[MAXC], no = 0; for (int c = 0; c < ncn; c++) if (cn[c].up && !cn[c].peer_closed) open[no++] = c; int nopt = 1 + no * 2 + (pending() ? 1 : 0), k = sym_choice(nopt, "event");
    if (k == 0) { int c = ncn++; cn[c] = C(); cn[c].arrived = 1; net_peer_connect(lfd, 1001 + c); sym_reach("arrival"); return true; }
    k--; if (k < no) { if (nrq == MAXR) return true; ask(open[k]); return true; }
    k -= no; if (k < no) { cn[open[k]].peer_closed = 1; nfd[cn[open[k]].fd].peer_eof = 1; sym_reach("eof"); return true; }
    allowed++; tickets++; NET_WAKE(); NET_WAIT(); return true;
  }
  if (pending()) { allowed++; tickets++; NET_WAKE(); NET_WAIT(); return true; }
  judge(true); throw Done();
}
void harness() { use_hook = 1; gated = true; setup(1, QUEUE); serve(); judge(true); sym_reach("done"); sym_end(); }
#endif
#if HT == 2 // two workers, no gate: every interleaving
static int phase = 0;
static bool net_idle(int, int) {
  if (phase == 0) { phase = 1; for (int i = 0; i < 2; i++) { int c = ncn++; cn[c] = C(); cn[c].arrived = 1; net_peer_connect(lfd, 1001 + c); } return true; }
  if (phase == 1) { phase = 2; for (int c = 0; c < 2; c++) ask(c); return true; }
  int want = 0; for (int i = 0; i < nrq; i++) want += !rq[i].thrown; if (delivered < want || taken < nrq) { NET_WAIT(); return true; }
  judge(true); throw Done();
}
void harness() { use_hook = 1; setup(2, 4); serve(); { NET_GUARD; judge(true); } sym_reach("done"); sym_end(); }
#elif HT == 3 // memory: requests that cannot be queued or whose handling fails leave nothing behind; with and without an error hook
static bool net_idle(int, int) { throw Done(); }
struct Thrower : WORKER { void onRequest(REQ&, RESP&) { throw std::runtime_error("worker"); } };
struct TPool : POOL<Thrower> {};
void harness() {
  mainthread = pthread_self(); mg = &CCommMgr::getInstance(); CHECK(mg->init(12) == 0, "init"); use_hook = sym_bool("hook"); TPool* p = new TPool; CHECK(p->init(1, 1) == 0, "pool"); if (use_hook) p->setErrHandler(on_err);
  R r; nrq = 1; r.v = some_value(); std::string m = wire(0, r.v); StSession s; s.iFd = 9; s.stClientAddr.sin_port = htons(1001);
  p->onRead(s, m.data(), m.size()); CHECK(errs == 0, "queued");
  int64_t live = sym_heap_live(); p->onRead(s, m.data(), m.size()); CHECK(sym_heap_live() == live, "a request that cannot be queued is released"); CHECK(errs == use_hook, "and the error hook is told"); sym_reach("full");
  int64_t base = sym_heap_live(); REQ* q = new REQ; q->setSession(s);
#if KIND == 0
  q->getReader().assign(m);
#elif KIND == 1
  q->getReader().setData(m.data(), m.size());
#else
  q->getReader().decode(m.data(), m.size());
#endif
  p->onWork(0, q, 0); CHECK(sym_heap_live() == base, "a request whose handling failed is released with its response"); CHECK(errs == use_hook * 2, "and the error hook is told"); sym_reach("thrown");
#if KIND == 2
  std::string bad = m; bad[bad.size() - 3] ^= 0x55; bad.resize(bad.size() - 2); live = sym_heap_live(); int e = errs; p->onRead(s, bad.data(), bad.size()); CHECK(sym_heap_live() == live, "an undecodable request is released"); if (use_hook) CHECK(errs == e + 1, "and the error hook is told"); sym_reach("undecodable");
#endif
  sym_reach("done"); sym_end();
}
#elif HT == 4 // steady state: handling requests does not use up memory
static int64_t lives[6]; static int cyc = 0;
static bool net_idle(int, int) {
  if (cyc == 0) { cyc = 1; ncn = 1; cn[0] = C(); cn[0].arrived = 1; net_peer_connect(lfd, 1001); return true; }
  if (delivered < taken || taken < nrq) { NET_WAIT(); return true; }
  if (cyc > 1) { lives[cyc - 2] = sym_heap_live(); } if (cyc == 6) { for (int i = 2; i < 5; i++) CHECK(lives[i] <= lives[1], "handling requests does not use up memory"); judge(true); throw Done(); }
  if (cyc > 1) nfd[cn[0].fd].tx.clear(), nrq = 0, taken = delivered = 0; cyc++; ask(0); return true;
}
void harness() { use_hook = 0; rq[0].bytes.reserve(400); rq[0].answer.reserve(400); setup(1, 4); serve(); sym_reach("done"); sym_end(); }
#endif
