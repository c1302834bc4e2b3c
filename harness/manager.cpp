// C44 timers, messages and signals of CCommMgr (BACK 0) and CNetWorker (BACK 1) reach the right handler   C45 services: set-up, failure, removal
#include "net.h"
#if BACK == 0
#include "CCommMgr.h"
#else
#include "CNetWorkerMgr.h"
#endif
using namespace lce;
struct Done {};
static int step = 0, extra = 0; static void net_turn() {}
#if HT == 1 || HT == 4
#ifndef TN
#define TN 12
#endif
int net_connect_result(int) { return 1; }
struct TMR { int id; uint64_t due; int pr; uint64_t data; bool live; }; static TMR tm_[TN]; static int ntm = 0; struct MSG { int type, pr; uint64_t data; }; static MSG ms_[TN]; static int nms = 0, nextm = 0; static int sigp[70], sigs = 0; static uint64_t now_ms;
static void set_now(uint64_t t) { now_ms = t; now_s = t / 1000; now_us = t % 1000 * 1000 + 500; }
static void h_timer(int pr, int id, void* d); static void h_msg(int pr, int type, void* d); static int cur_sig, cur_got;
#if BACK == 0
struct Pr : CProcessor { int me; void onTimer(int id, void* d) { h_timer(me, id, d); } void onMessage(int t, void* d) { h_msg(me, t, d); } void onSignal(int s) { CHECK(s == cur_sig && sigp[s] == me + 1, "a signal reaches the handler registered last for it"); cur_got++; } }; static Pr pr[2]; static CCommMgr* mg;
enum { NPR = 2 };
static int a_timer(int id, uint32_t ms, int p, void* d) { return mg->addTimer(id, ms, p < 0 ? 0 : &pr[p], d); } static int a_msg(int t, int p, void* d) { return mg->sendMessage(t, p < 0 ? 0 : &pr[p], d); } static void d_timer(int id) { mg->delTimer(id); }
#else
struct W : CNetWorker { void onRead(StSession&, const char*, const int) {} void onClose(StSession&) {} void onConnect(StSession&, bool, void*) {} void onError(StSession&, const char*, int) {} void onTimer(int id, void* d) { h_timer(0, id, d); } void onMessage(int t, void* d) { h_msg(0, t, d); } }; static W* w;
enum { NPR = 1 };
static int a_timer(int id, uint32_t ms, int p, void* d) { return w->addTimer(id, ms, d); } static int a_msg(int t, int p, void* d) { return w->sendMessage(t, d); } static void d_timer(int id) { w->delTimer(id); }
#endif
static void* ptr(uint64_t v) { return (void*)(uintptr_t)v; }
static const int IDS[] = {7, 7 - 65536};
static void op_add() { int id = IDS[sym_choice(2, "id")], p = sym_choice(NPR, "proc"); uint64_t delay = sym_range(0, 10, "delay"), d = sym_u64("data"); for (int i = 0; i < ntm; i++) if (tm_[i].id == id) tm_[i].live = false; CHECK(a_timer(id, (uint32_t)delay, p, ptr(d)) == 0, "a timer is accepted"); TMR& t = tm_[ntm++]; t.id = id; t.due = now_ms + delay; t.pr = p; t.data = d; t.live = true; }
static void op_msg() { int p = sym_choice(NPR, "mproc"), type = (int)sym_u32("type"); uint64_t d = sym_u64("mdata"); MSG& m = ms_[nms++]; m.type = type; m.pr = p; m.data = d; CHECK(a_msg(type, p, ptr(d)) == 0, "a message is accepted"); }
static void nest() { if (extra <= 0) return; switch (sym_choice(3, "in")) { case 1: extra--; op_add(); sym_reach("add_in"); break; case 2: extra--; op_msg(); sym_reach("msg_in"); break; } }
static void h_timer(int p, int id, void* d) {
  int k = -1; for (int i = 0; i < ntm; i++) if (tm_[i].live && tm_[i].id == id) k = i; CHECK(k >= 0, "only armed timers fire, once"); CHECK(tm_[k].pr == p, "a timer fires in the handler it was set for"); CHECK((uint64_t)(uintptr_t)d == tm_[k].data, "with its data"); CHECK(tm_[k].due <= now_ms, "not early"); tm_[k].live = false; sym_reach("timer"); nest();
}
static void h_msg(int p, int type, void* d) { CHECK(nextm < nms, "each message once"); MSG& m = ms_[nextm++]; CHECK(m.pr == p, "a message reaches the handler it was sent to, in order"); CHECK(m.type == type && m.data == (uint64_t)(uintptr_t)d, "with its type and data"); sym_reach("message"); nest(); }
#if HT == 4
static void set_timer(int id, int p, uint64_t delay, uint64_t d) { for (int i = 0; i < ntm; i++) if (tm_[i].id == id) tm_[i].live = false; CHECK(a_timer(id, (uint32_t)delay, p, ptr(d)) == 0, "a timer is accepted"); TMR& t = tm_[ntm++]; t.id = id; t.due = now_ms + delay; t.pr = p; t.data = d; t.live = true; }
static void send_many(int n) { for (int i = 0; i < n; i++) { MSG& m = ms_[nms++]; m.pr = i % NPR; m.type = i % 5 ? (int)(i * 0x01010101u) : (int)sym_u32("mtype"); m.data = (uint64_t)i << i % 33; CHECK(a_msg(m.type, m.pr, ptr(m.data)) == 0, "a message is accepted"); } }
static bool net_idle(int, int) {
  CHECK(nextm == nms, "every message is handled before the loop waits again"); static uint64_t turn; for (int i = 0; i < ntm; i++) if (tm_[i].live) CHECK(tm_[i].due > turn, "every due timer has fired"); turn = now_ms;
  int s = step++; if (s == 0) { for (int i = 0; i < 60; i++) set_timer(i % 4 ? i * 65537 : -i, i % NPR, i * 37 % 41 * (i % 3 ? 1 : 300), i ? (uint64_t)i << i % 40 : sym_u64("tdata")); send_many(90); return true; }
  if (s == 1) { for (int i = 1; i < 60; i += 3) { int id = i % 4 ? i * 65537 : -i; d_timer(id); for (int k = 0; k < ntm; k++) if (tm_[k].id == id) tm_[k].live = false; } for (int i = 2; i < 60; i += 6) set_timer(i % 4 ? i * 65537 : -i, i % NPR, i * 3, i); send_many(20); return true; }
  if (s < 60) { set_now(now_ms + (s < 40 ? 1 + s % 3 : 1000)); if (s % 8 == 0) { send_many(3); return true; } return false; }
  for (int i = 0; i < ntm; i++) CHECK(!tm_[i].live, "every timer fires"); throw Done();
}
#else
static bool net_idle(int, int) {
  CHECK(nextm == nms, "every message is handled before the loop waits again"); static uint64_t turn; for (int i = 0; i < ntm; i++) if (tm_[i].live) CHECK(tm_[i].due > turn, "every due timer has fired");
  if (step++ >= STEPS) throw Done(); bool r = false;
  switch (sym_choice(BACK == 0 ? 6 : 4, "op")) {
    case 0: set_now(now_ms + (sym_bool("long") ? 20 : 3)); break;
    case 1: op_add(); break;
    case 2: { int id = IDS[sym_choice(2, "did")]; d_timer(id); for (int i = 0; i < ntm; i++) if (tm_[i].id == id) tm_[i].live = false; break; }
    case 3: op_msg(); r = true; break;
#if BACK == 0
    case 4: CHECK(a_timer(1, 5, -1, 0) < 0 && a_msg(1, -1, 0) < 0 && mg->addSigHandler(SIGUSR1, 0) < 0, "a missing processor is refused"); sym_reach("refused"); break;
    case 5: { int s = sym_bool("which") ? SIGUSR1 : SIGTERM; if (sigp[s] && sym_bool("raise")) { CHECK(net_sig[s], "a handler is installed"); cur_sig = s; cur_got = 0; net_sig[s](s); CHECK(cur_got == 1, "a signal is handled once"); sym_reach("signal"); } else { int p = sym_choice(2, "sproc"); CHECK(mg->addSigHandler(s, &pr[p]) == 0, "handler accepted"); sigp[s] = p + 1; } break; }
#endif
  }
  turn = now_ms; return r;
}
#endif
void harness() {
  set_now(100000);
#if HT == 1
  extra = EXTRA;
#endif
#if BACK == 0
  for (int i = 0; i < 2; i++) pr[i].me = i; mg = &CCommMgr::getInstance(); CHECK(mg->init(10) == 0, "init"); try { mg->start(); } catch (Done&) {}
#else
  w = new W; CHECK(w->init(12) == 0, "init"); try { ((CThread*)w)->run(); } catch (Done&) {} delete w;
#endif
  sym_reach("done");
}
#elif HT == 2 // ---- services: a history of set-up calls, some failing, and arrivals
static int faulted = 0; static int conres = 1;
int net_connect_result(int) { return conres; }
struct Svc { int type, proc, fd, port, conns; bool live; }; static Svc sv[6]; static int nsv = 0, base_open = 0; static CCommMgr* mg;
static int want_srv = -1, want_port = 0, got = 0; static uint64_t want_data; static std::string dgram;
struct Pr : CProcessor {
  int me;
  void onConnect(StSession& s, bool ok, void* d) { CHECK(want_srv >= 0 && s.iSvrId == want_srv && sv[want_srv].proc == me, "a new connection reaches its service's processor"); CHECK(ntohs(s.stClientAddr.sin_port) == want_port && ok, "with its address"); CHECK(net_ok(s.iFd) && nfd[s.iFd].kind == NK_TCP && nfd[s.iFd].nonblock, "on its own non-blocking descriptor"); if (sv[want_srv].type == CONN_TCP) CHECK((uint64_t)(uintptr_t)d == want_data, "with the caller's data"); got++; }
  void onRead(StSession& s, const char* p, const int n) { CHECK(want_srv >= 0 && s.iSvrId == want_srv && sv[want_srv].proc == me && sv[want_srv].type == SRV_UDP, "a datagram reaches its service's processor"); CHECK(n == (int)dgram.size() && bytes_eq(p, dgram.data(), n) && ntohs(s.stClientAddr.sin_port) == want_port, "whole, with its sender"); got++; }
  void onClose(StSession&) { sym_fail("nothing ended"); } void onError(StSession&, const char*, int) { sym_fail("nothing failed"); }
}; static Pr pr[2];
static void expect_open(const char* what) { int n = base_open; for (int i = 0; i < nsv; i++) if (sv[i].live) n += (sv[i].type == CONN_TCP ? 0 : 1) + sv[i].conns; CHECK(net_open == n, what); }
static bool good(int id) { return id >= 0 && id < nsv && sv[id].live; }
static const int TABLE = (int)(MAXC * 1.2f) < MAXFD ? (int)(MAXC * 1.2f) : MAXFD; // descriptors the manager can handle, or that there are
static int next_fd() { for (int i = 3; i < net_maxfd; i++) if (nfd[i].kind == NK_FREE) return i; return net_maxfd; }
static int some_id() { return sym_choice(nsv + 2, "id") - 1; }
static void setproc(int id) { int p = sym_choice(3, "proc") - 1; int r = mg->setProcessor(id, p < 0 ? 0 : &pr[p], PKG_RAW); CHECK((r == 0) == (good(id) && p >= 0), "a processor is accepted exactly for an existing service"); if (r == 0) sv[id].proc = p; else sym_reach("noproc"); }
static bool net_idle(int, int) {
  if (want_srv >= 0) { CHECK(got == (sv[want_srv].proc >= 0 ? 1 : 0), "an arrival is announced once"); want_srv = -1; } expect_open("exactly the live services and their connections are open");
  if (step++ >= STEPS) throw Done(); got = 0;
  switch (sym_choice(7, "op")) {
    case 0: { static const int T[] = {SRV_TCP, SRV_UDP, CONN_TCP, 0}; int t = T[sym_choice(4, "type")]; int f0 = net_setup_faults + net_ctl_fail, port = 80 + step; int nf = next_fd(); int id = mg->createSrv(t, "127.0.0.1", port); bool failed = net_setup_faults + net_ctl_fail < f0 || (t != SRV_TCP && t != SRV_UDP) || nf >= TABLE;
      CHECK((id < 0) == failed, "creating a service fails exactly if a step of it failed"); if (id >= 0) { CHECK(id == nsv, "a new service has a new number"); Svc& s = sv[nsv++]; s.type = t; s.proc = -1; s.live = true; s.conns = 0; s.port = port; s.fd = -1; for (int i = 3; i < NET_MAX; i++) if (nfd[i].kind == (t == SRV_TCP ? NK_LISTEN : NK_UDP) && ntohs(nfd[i].addr.sin_port) == port) s.fd = i; CHECK(s.fd >= 0 && nfd[s.fd].nonblock && nfd[s.fd].addr.sin_addr.s_addr == htonl(0x7f000001), "it is bound to the given address and does not block the loop"); sym_reach("created"); if (sym_bool("sp")) setproc(id); } else sym_reach("failed"); break; }
    case 1: { int id = mg->createClient(); CHECK(id == nsv, "a client service is created"); Svc& s = sv[nsv++]; s.type = CONN_TCP; s.proc = -1; s.live = true; s.conns = 0; s.fd = -1; if (sym_bool("sp")) setproc(id); break; }
    case 2: setproc(some_id()); break;
    case 3: { int id = some_id(); int r = mg->rmSrv(id); CHECK((r == 0) == good(id), "exactly existing services can be removed"); if (r == 0) { sv[id].live = false; sym_reach("removed"); } break; }
    case 4: { int id = some_id(); conres = sym_choice(3, "conres"); int f0 = net_setup_faults; want_data = sym_u64("data"); want_port = 2000 + step; if (good(id) && sv[id].type == CONN_TCP && conres == 0) want_srv = id; int c0 = net_ctl_fail, nf = next_fd(); int r = mg->connect(id, "127.0.0.1", want_port, (void*)(uintptr_t)want_data); bool failed = !good(id) || sv[id].type != CONN_TCP || conres == 2 || net_setup_faults < f0 || net_ctl_fail < c0;
      CHECK((r < 0) == (failed || nf >= TABLE), "connecting works exactly for a client service"); if (r >= 0) { sv[id].conns++; sym_reach(conres ? "connecting" : "connected"); } if (want_srv >= 0 && r >= 0) CHECK(got == (sv[id].proc >= 0 ? 1 : 0), "a connection established at once is announced"); want_srv = -1; break; }
    case 5: { int id = some_id(); dgram = sym_string(2, "dg"); int t0 = net_send_faults; int r = mg->writeTo(id, "10.0.0.1", 4000, dgram.data(), 2); bool can = good(id) && sv[id].type == SRV_UDP; CHECK((r == 0) == (can && net_send_faults == t0), "datagrams can be sent exactly through a datagram service"); if (r == 0) { NetFd& f = nfd[sv[id].fd]; CHECK(!f.to.empty() && f.to.back().sin_port == htons(4000) && f.to.back().sin_addr.s_addr == htonl(0x0a000001) && f.tx.size() >= 2 && bytes_eq(f.tx.data() + f.tx.size() - 2, dgram.data(), 2), "to the given address, whole"); sym_reach("sent"); } break; }
    case 6: { int id = some_id(); if (!good(id) || sv[id].type == CONN_TCP) break; if (sv[id].type == SRV_UDP && sv[id].proc < 0) break; want_srv = id; want_port = 3000 + step; if (sv[id].type == SRV_TCP) { if (next_fd() >= TABLE) { want_srv = -1; break; } net_ctl_fail = 0; net_peer_connect(sv[id].fd, want_port); sv[id].conns++; } else { dgram = sym_string(2, "dg"); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_port = htons(want_port); a.sin_addr.s_addr = htonl(0x0a000001); nfd[sv[id].fd].dgrams.push_back(dgram); nfd[sv[id].fd].from.push_back(a); } sym_reach(sv[id].type == SRV_UDP ? "udp" : "arrival"); return true; }
  }
  return false;
}
void harness() {
  for (int i = 0; i < 2; i++) pr[i].me = i; now_s = 5000; mg = &CCommMgr::getInstance(); CHECK(mg->init(MAXC) == 0, "init"); base_open = net_open; net_setup_faults = FAULTS; net_ctl_fail = CTLFAIL; net_send_faults = SENDF; net_maxfd = MAXFD; try { mg->start(); } catch (Done&) {} sym_reach("done");
}
#elif HT == 3 // ---- initialisation when descriptors run out
int net_connect_result(int) { return 1; } static bool net_idle(int, int) { throw Done(); }
static int seen = 0; static void on_msg(int t, void*) { CHECK(t == 7, "type"); seen++; }
void harness() {
  net_maxfd = 3 + sym_choice(4, "room"); net_ctl_fail = sym_bool("ctlf"); int c0 = net_ctl_fail, room = net_maxfd; CEvent* e = new CEvent; int r = e->init(12); bool want = room >= 6 && net_ctl_fail == c0; CHECK((r == 0) == want, "a loop is initialised only if everything it needs is there"); sym_reach(r ? "failed" : "ok");
  if (r && sym_bool("retry")) { net_maxfd = 6; net_ctl_fail = 0; r = e->init(12); CHECK(r == 0, "and can be initialised later"); sym_reach("retry"); }
  if (r == 0) { CHECK(e->addMessage(7, [](int t, void* d) { on_msg(t, d); }, 0) == 0, "message"); try { e->run(); } catch (Done&) {} CHECK(seen == 1, "an initialised loop delivers messages"); }
  delete e; CHECK(net_open == 0, "nothing stays open"); sym_reach("done");
}
#endif
