// C25 timers, C26 messages, C27 descriptor events of CEvent
#if HT == 2
#define NET_THREADS
#endif
#include "net.h"
#include "CEvent.h"
using namespace lce;
static CEvent* ev;
int net_connect_result(int) { return 1; }
#if HT == 1 // timers
struct TM { int id; uint64_t due; int seq; bool live; }; static TM tm_[16]; static int ntm = 0, turns = 0, depth = 0; static uint64_t now_ms, turn_ms, last_due; static int fired = 0, extra = 0;
static int find_live(int id) { for (int i = 0; i < ntm; i++) if (tm_[i].live && tm_[i].id == id) return i; return -1; }
static uint64_t cs, cm; static void set_now(uint64_t sec, int ms) { cs = sec; cm = ms; now_ms = sec * 1000 + ms; now_s = sec; now_us = ms * 1000 + 777; }
static void on_timer(int id, void* d);
static void op_add(int id, uint64_t delay) { int o = find_live(id); if (o >= 0) tm_[o].live = false; TM& t = tm_[ntm]; t.id = id; t.due = now_ms + delay; t.live = true; CHECK(ev->addTimer(id, (uint32_t)delay, [](int i, void* d) { on_timer(i, d); }, (void*)(intptr_t)(1000 + ntm)) == 0, "timer accepted"); ntm++; }
static void op_del(int id) { int o = find_live(id); if (o >= 0) tm_[o].live = false; ev->delTimer(id); }
static void on_timer(int id, void* d) {
  int k = (int)(intptr_t)d - 1000; CHECK(k >= 0 && k < ntm && tm_[k].id == id, "a timer's own id and data reach its handler"); CHECK(tm_[k].live, "a timer fires once per registration and never after it was cancelled or replaced");
  CHECK(tm_[k].due <= now_ms, "no timer fires early"); for (int i = 0; i < ntm; i++) if (i != k && tm_[i].live) CHECK(tm_[k].due <= tm_[i].due, "timers fire in due order");
  tm_[k].live = false; fired++; sym_reach("fired");
  if (extra > 0) switch (sym_choice(4, "in")) { case 1: extra--; op_del(1 + sym_choice(IDS, "did")); sym_reach("del_in"); break; case 2: extra--; { int i = 1 + sym_choice(IDS, "aid"); op_add(i, 1 + sym_range(0, 5, "adelay")); } sym_reach("add_in"); break; case 3: extra--; op_add(id, 1 + sym_range(0, 0xfffffffeull, "rdelay")); break; }
}
static void net_turn() {}
static bool net_idle(int, int timeout) {
  CHECK(timeout >= 0, "the wait ends");
  for (int i = 0; i < ntm; i++) if (tm_[i].live) { CHECK(tm_[i].due > turn_ms, "every due timer has fired in this turn"); CHECK((uint64_t)timeout <= tm_[i].due - turn_ms, "the wait ends when the next timer is due"); }
  if (turns >= TURNS) { ev->stop(); return false; }
  turns++;
  switch (sym_choice(3, "step")) {
    case 0: { static const uint64_t MS[] = {0, 1, 2999, 86400000, 4294967295ull}; uint64_t ms = now_ms + MS[sym_choice(5, "dt")]; set_now(ms / 1000, ms % 1000); break; } // time passes
    case 1: { int i = 1 + sym_choice(IDS, "id"); op_add(i, sym_range(0, 0xffffffffull, "delay")); break; }
    case 2: op_del(1 + sym_choice(IDS, "id2")); sym_reach("del"); break;
  }
  turn_ms = now_ms; return false;
}
void harness() {
  ev = new CEvent; CHECK(ev->init(12) == 0, "init"); set_now(100, 7); turn_ms = now_ms; extra = EXTRA;
  for (int i = 0; i < START; i++) op_add(1 + i % IDS, sym_range(0, 0xffffffffull, "delay0"));
  ev->run(); delete ev; CHECK(net_open == 0, "everything the loop opened is closed"); sym_reach("done");
}
#elif HT == 2 // messages posted from several threads and from handlers
static int NP_[3], next_[3], total, got = 0, inpost, flag_stopped = 0; static pthread_t loop_thread; static uint64_t val[3][4];
static void post(int p, int i); static void net_turn() {}
static void on_msg(int type, void* d) {
  int p = type / 10, i = type % 10; CHECK(pthread_equal(pthread_self(), loop_thread), "messages are handled in the loop's thread"); CHECK(p >= 0 && p < 3 && i == next_[p] && i < NP_[p], "each message once, in its sender's order"); next_[p]++; CHECK((uint64_t)(uintptr_t)d == val[p][i], "with its data"); got++;
  if (inpost > 0) { inpost--; int k = NP_[2]++; post(2, k); sym_reach("nested"); }
  if (got == total && !STOPPER) ev->stop();
}
static void post(int p, int i) { val[p][i] = sym_u64("v"); CHECK(ev->addMessage(p * 10 + i, [](int t, void* d) { on_msg(t, d); }, (void*)(uintptr_t)val[p][i]) == 0, "message accepted"); }
static void* poster(void* a) { int p = (int)(intptr_t)a, n = p ? N1 : N0; for (int i = 0; i < n; i++) post(p, i); return 0; }
static void* stopper(void*) { ev->stop(); pthread_mutex_lock(&net_m); flag_stopped = 1; pthread_cond_broadcast(&net_c); pthread_mutex_unlock(&net_m); return 0; }
static bool net_idle(int, int timeout) { CHECK(timeout >= 0, "the wait ends"); if (flag_stopped) { sym_reach("timeout"); return false; } NET_WAIT(); return true; }
void harness() {
  ev = new CEvent; CHECK(ev->init(12) == 0, "init"); NP_[0] = N0; NP_[1] = N1; NP_[2] = 0; inpost = NEST; total = N0 + N1 + NEST; loop_thread = pthread_self(); pthread_t t[3]; int n = 0;
  if (PRE) for (int i = 0; i < N0; i++) post(0, i); else if (N0) pthread_create(&t[n++], 0, poster, (void*)0);
  if (N1) pthread_create(&t[n++], 0, poster, (void*)1);
  if (STOPPER) pthread_create(&t[n++], 0, stopper, 0);
  ev->run(); for (int i = 0; i < n; i++) pthread_join(t[i], 0);
  if (!STOPPER) { CHECK(got == total, "every message is delivered"); CHECK(next_[0] == N0 && next_[1] == N1 && next_[2] == NEST, "each sender's"); } delete ev; CHECK(net_open == 0, "all descriptors closed"); sym_reach("done");
}
#elif HT == 3 // descriptors
struct Reg { bool on; int h; void* d; }; struct Fd { int fd, epoch; Reg r, w; }; static Fd fds[2]; static int nh = 0, turns = 0, extra = 0, handlers_run = 0; static bool stopped = false;
struct Exp { int fdix; uint32_t mask; Reg r, w; bool rdone, wdone; int epoch; }; static Exp ex[2]; static int nex = 0; static void mutate(bool in);
static void armed_ok() { for (int i = 0; i < 2; i++) { uint32_t a = net_armed(net_ep[0], fds[i].fd), want = (fds[i].r.on ? EPOLLIN : 0) | (fds[i].w.on ? EPOLLOUT : 0); if (want) CHECK(a == want, "exactly the registered events are armed"); else CHECK(a == 0xffffffffu, "nothing is armed for a descriptor without registrations"); } }
static void on_ev(int fd, void* d, int h, int wr, const char* cap) {
  int i = fd == fds[0].fd ? 0 : 1; CHECK(fd == fds[i].fd, "a watched descriptor"); Reg& r = wr ? fds[i].w : fds[i].r; CHECK(r.on, "no event without a registration"); CHECK(r.h == h && r.d == d, "the registered handler with its data");
  uint32_t rd = nfd[fd].ready; CHECK(wr ? (rd & EPOLLOUT) != 0 : (rd & (EPOLLIN | EPOLLERR | EPOLLHUP)) != 0, "only events that have happened on this descriptor are delivered");
  for (int k = 0; k < nex; k++) if (ex[k].fdix == i) { bool& dn = wr ? ex[k].wdone : ex[k].rdone; CHECK(!dn, "each event is delivered once per turn"); dn = true; }
  handlers_run++; sym_reach(wr ? "write" : "read");
  if (extra > 0 && sym_bool("in")) { extra--; mutate(true); sym_reach("mutate"); }
  CHECK(cap[0] == 'h' && cap[1] == 'A' + h % 26, "the handler's own state stays valid while it runs");
}
static HandlerEvent mk(int h, int wr) { std::string cap = "h"; cap += (char)('A' + h % 26); cap += std::string(30, '.'); return [h, wr, cap](int fd, void* d) { on_ev(fd, d, h, wr, cap.c_str()); }; }
static void do_add(int i, int what) { int h = nh++; void* d = (void*)(intptr_t)(500 + h); int r, before = net_ctl_fail;
  r = ev->addFdEvent(fds[i].fd, what, mk(h, what == CEvent::EV_WRITE), d); if (r == 0) { if (what & CEvent::EV_READ) { fds[i].r.on = true; fds[i].r.h = h; fds[i].r.d = d; } if (what & CEvent::EV_WRITE) { fds[i].w.on = true; fds[i].w.h = h; fds[i].w.d = d; } } else { CHECK(net_ctl_fail < before, "registering succeeds unless the kernel refuses"); sym_reach("refused"); } }
static void do_del(int i, int what) { bool had = (what & CEvent::EV_READ && fds[i].r.on) || (what & CEvent::EV_WRITE && fds[i].w.on); int r = ev->delFdEvent(fds[i].fd, what); if (what & CEvent::EV_READ) fds[i].r.on = false; if (what & CEvent::EV_WRITE) fds[i].w.on = false; if (had) CHECK(r == 0, "removing succeeds"); }
static void mutate(bool in) {
  int i = sym_choice(2, "fd"), op = sym_choice(in ? 6 : 5, "op");
  if (op < 2) do_add(i, op == 0 ? CEvent::EV_READ : CEvent::EV_WRITE);
  else if (op < 5) do_del(i, op == 2 ? CEvent::EV_READ : op == 3 ? CEvent::EV_WRITE : CEvent::EV_READ | CEvent::EV_WRITE);
  else { // the descriptor is closed and its number reused
    do_del(i, CEvent::EV_READ | CEvent::EV_WRITE); close(fds[i].fd); int n = net_new(NK_DEV); CHECK(n == fds[i].fd, "lowest number"); fds[i].epoch++; do_add(i, sym_bool("rw") ? CEvent::EV_READ : CEvent::EV_WRITE); sym_reach("reused");
  }
  armed_ok();
}
static void settle() { for (int k = 0; k < nex; k++) { Fd& f = fds[ex[k].fdix]; if (f.epoch != ex[k].epoch) continue; // every event of an unchanged registration was delivered
    if ((ex[k].mask & (EPOLLIN | EPOLLERR | EPOLLHUP)) && ex[k].r.on && f.r.on && f.r.h == ex[k].r.h) CHECK(ex[k].rdone, "a readable descriptor's handler runs");
    if ((ex[k].mask & EPOLLOUT) && ex[k].w.on && f.w.on && f.w.h == ex[k].w.h) CHECK(ex[k].wdone, "a writable descriptor's handler runs"); } nex = 0; for (int i = 0; i < 2; i++) nfd[fds[i].fd].ready = 0; }
static void net_turn() { settle(); armed_ok(); }
static bool net_idle(int, int) {
  if (turns >= TURNS) { ev->stop(); return false; } turns++;
  static const uint32_t M[] = {0, EPOLLIN, EPOLLOUT, EPOLLIN | EPOLLOUT, EPOLLERR, EPOLLHUP, EPOLLHUP | EPOLLERR, EPOLLIN | EPOLLHUP, EPOLLERR | EPOLLHUP | EPOLLOUT | EPOLLIN};
  for (int i = 0; i < 2; i++) { uint32_t m = M[sym_choice(9, "mask")]; nfd[fds[i].fd].ready = m; uint32_t a = net_armed(net_ep[0], fds[i].fd); if (a == 0xffffffffu) continue; m &= a | EPOLLERR | EPOLLHUP; if (!m) continue; Exp& e = ex[nex++]; e.fdix = i; e.mask = m; e.r = fds[i].r; e.w = fds[i].w; e.rdone = e.wdone = false; e.epoch = fds[i].epoch; }
  // error conditions with no matching registration would be reported for ever: the harness ends them after one turn
  bool any = nex > 0; return any;
}
void harness() {
  ev = new CEvent; CHECK(ev->init(12) == 0, "init"); for (int i = 0; i < 2; i++) { fds[i].fd = net_new(NK_DEV); fds[i].epoch = 0; } net_ctl_fail = CTLFAIL; extra = EXTRA;
  for (int i = 0; i < OPS; i++) mutate(false);
  CHECK(ev->addFdEvent(-1, CEvent::EV_READ, mk(0, 0), 0) < 0 && ev->addFdEvent(12, CEvent::EV_READ, mk(0, 0), 0) < 0 && ev->delFdEvent(-1, 1) < 0 && ev->delFdEvent(12, 1) < 0, "descriptors out of range are refused"); armed_ok();
  ev->run(); delete ev; sym_reach("done");
}
#elif HT == 4 // many timers, descriptors and messages at once
enum { ND = 60, NT = 50, NM = 80 }; static int fd_[ND], got_[ND], msgs = 0, rounds = 0, tfired = 0; static bool wr_[ND]; static uint64_t due_[NT + 3], now_ms = 100000, last = 0, mv; static int tdone[NT + 3]; static void set_now() { now_s = now_ms / 1000; now_us = now_ms % 1000 * 1000; }
static void on_fd(int fd, void* d, bool wr) { int i = (int)(intptr_t)d; CHECK(i >= 0 && i < ND && fd_[i] == fd && wr == wr_[i], "the registered handler with its data"); CHECK(nfd[fd].ready != 0, "only descriptors with an event"); nfd[fd].ready = 0; got_[i]++; }
static void on_tm(int id, void* d) { int i = id - 1000; CHECK(i >= 0 && i < NT + 3 && (int)(intptr_t)d == id, "own id and data"); CHECK(tdone[i]++ == 0 && i % 10 != 4, "a timer fires once, a cancelled one never"); CHECK(due_[i] <= now_ms, "no timer fires early"); CHECK(due_[i] >= last, "in due order"); last = due_[i]; tfired++; if (i == 5) { due_[NT + 2] = now_ms + 3; ev->addTimer(1000 + NT + 2, 3, [](int a, void* b) { on_tm(a, b); }, (void*)(intptr_t)(1000 + NT + 2)); } }
static void on_m(int t, void* d) { CHECK(t == msgs && (uint64_t)(uintptr_t)d == mv + t, "messages in order with their data"); msgs++; if (t == 10) CHECK(ev->addMessage(NM, [](int a, void* b) { on_m(a, b); }, (void*)(uintptr_t)(mv + NM)) == 0, "accepted"); }
static void net_turn() {}
static bool net_idle(int, int timeout) {
  CHECK(timeout >= 0, "the wait ends"); CHECK(msgs == NM + 1, "every message was delivered before anything else is waited for"); for (int i = 0; i < ND; i++) CHECK(got_[i] == rounds, "every ready descriptor was served once"); uint64_t next = ~0ull; for (int i = 0; i < NT + 3; i++) if (due_[i] && !tdone[i] && i % 10 != 4) { CHECK(due_[i] > now_ms, "every due timer has fired"); if (due_[i] < next) next = due_[i]; }
  if (rounds < 2) { rounds++; for (int i = 0; i < ND; i++) nfd[fd_[i]].ready = wr_[i] ? EPOLLOUT : EPOLLIN; return true; }
  if (next == ~0ull) { CHECK(tfired == NT + 3 - 5, "every timer fired"); ev->stop(); sym_reach("done"); return false; } if (timeout > 0) CHECK(now_ms + timeout <= next, "the wait ends when the next timer is due"); now_ms = next; set_now(); return false;
}
void harness() {
  ev = new CEvent; CHECK(ev->init(ND + 20) == 0, "init"); set_now(); mv = sym_u64("v"); for (int i = 0; i < ND; i++) { fd_[i] = net_new(NK_DEV); wr_[i] = i % 3 == 1; if (wr_[i]) CHECK(ev->addFdEvent(fd_[i], CEvent::EV_WRITE, [](int f, void* d) { on_fd(f, d, true); }, (void*)(intptr_t)i) == 0, "registered"); else CHECK(ev->addFdEvent(fd_[i], CEvent::EV_READ, [](int f, void* d) { on_fd(f, d, false); }, (void*)(intptr_t)i) == 0, "registered"); }
  static const uint32_t SD[] = {0, 26, 2000000, 0xffffffffu}; uint32_t sd = SD[sym_choice(4, "delay")]; for (int i = 0; i < NT + 2; i++) { uint32_t dl = i == NT ? sd : i == NT + 1 ? 2000000 : (uint32_t)(i * 7919 % 53 * (i % 5 ? 1 : 100000)); due_[i] = now_ms + dl; CHECK(ev->addTimer(1000 + i, dl, [](int a, void* b) { on_tm(a, b); }, (void*)(intptr_t)(1000 + i)) == 0, "timer accepted"); }
  for (int i = 4; i < NT; i += 10) ev->delTimer(1000 + i); due_[7] = now_ms + 500000; ev->addTimer(1007, 500000, [](int a, void* b) { on_tm(a, b); }, (void*)(intptr_t)1007);
  for (int i = 0; i < NM; i++) CHECK(ev->addMessage(i, [](int a, void* b) { on_m(a, b); }, (void*)(uintptr_t)(mv + i)) == 0, "message accepted"); ev->run(); delete ev; sym_reach("end");
}
#endif
