// Threads: scheduling is an explicit symbolic choice at every synchronisation / volatile / atomic operation.
static bool gInCtor = false;
static int aliveThreads(State& s) { int n = 0; for (auto& t : s.th) if (t.stat != TDone) n++; return n; }
static bool canRun(State& s, int t) {
  Thread& th = s.th[t];
  switch (th.stat) {
    case TRun: return true;
    case TDone: return false;
    case TMutex: { auto& m = s.mx[th.wait]; return m.owner < 0 && m.readers == 0; }
    case TRw: { auto& m = s.mx[th.wait]; return th.phase == 1 ? m.owner < 0 : (m.owner < 0 && m.readers == 0); }
    case TCond: return th.timed || th.cancelReq;
    case TSleep: return (int)th.sleeps < O.maxSleeps || th.cancelReq;
    case TJoin: return s.th[th.wait].stat == TDone;
    case TAll: return aliveThreads(s) == 1;
    default: return false;
  }
}
static void pick(State& s, int t) {
  s.cur = t; Thread& th = s.th[t]; th.grantAt = th.icount;
  if (th.stat == TCond) { if (!th.cancelReq && !th.timed) s.spurious++; th.phase = th.cancelReq ? 4 : th.timed ? 3 : 2; th.stat = TRun; }  // cancelled / timed out / spurious wake-up
  else if (th.stat == TSleep) { th.sleeps++; th.stat = TRun; }
  else if (th.stat != TRun) th.stat = TRun;                        // re-executes the blocking operation
  s.inputs.push_back({mkC(t, 8), "sched"});
  if (O.trace) s.trace.push_back("-> thread " + std::to_string(t) + " " + (th.st.empty() ? "" : th.st.back()->f->dname));
}
static void chooseAmong(State& s, const std::vector<int>& opts, int cur) { // fork over options; current state takes opts[0]
  for (size_t i = 1; i < opts.size(); i++) { State* sib = cloneS(s); if (cur >= 0 && opts[i] != cur) sib->preempt++; pick(*sib, opts[i]); sib->depth++; pending.push_back(sib); }
  if (cur >= 0 && opts[0] != cur) s.preempt++;
  pick(s, opts[0]); ST.schedPts++;
}
// returns true when the current thread may perform its operation now
static bool schedPoint(State& s) {
  if (gInCtor || s.th.size() == 1) return true;
  Thread& th = s.th[s.cur]; if (th.grantAt == th.icount) return true;
  if (aliveThreads(s) == 1) return true;
  std::vector<int> opts; opts.push_back(s.cur);
  if (s.preempt < O.maxPreempt) for (int t = 0; t < (int)s.th.size(); t++) if (t != s.cur && canRun(s, t)) opts.push_back(t);
  chooseAmong(s, opts, s.cur); return s.cur == (int)(&th - &s.th[0]);
}
static bool memSched(State& s, E addr) {
  if (s.th.size() == 1 || (!O.schedVol && !O.schedMem)) return true;
  if (isC(addr)) { Obj* o = objOf(s, idOf((uint64_t)addr->val)); if (o && o->kind == OStack && !o->acc) { // private stack of the current thread?
      bool shared = false; uint32_t id = idOf((uint64_t)addr->val); bool mine = false; for (auto& f : s.th[s.cur].st) for (uint32_t a : f->allocas) if (a == id) mine = true; (void)shared; if (mine) return true; } }
  return schedPoint(s);
}
static bool leakCheckEnd(State& s);
static bool schedule(State& s) {
  Thread& th = s.th[s.cur];
  if (th.stat == TRun) return true;
  if (s.th[0].stat == TDone) { pathDone(s); return false; }
  std::vector<int> opts; for (int t = 0; t < (int)s.th.size(); t++) if (canRun(s, t)) opts.push_back(t);
  if (opts.empty()) {
    for (auto& t : s.th) if (t.stat == TSleep) { ST.notes["a path ends when only threads out of wake-ups from sleeping remain"]++; pathDone(s); return false; }
    std::string d; for (int t = 0; t < (int)s.th.size(); t++) { d += " T" + std::to_string(t) + ":"; d += s.th[t].stat == TMutex ? "mutex" : s.th[t].stat == TCond ? "cond" : s.th[t].stat == TJoin ? "join" : s.th[t].stat == TDone ? "done" : s.th[t].stat == TRw ? "rwlock" : "run"; }
    violation(s, "deadlock", "no thread can run:" + d);
  }
  if (s.spurious < O.spurious) for (int t = 0; t < (int)s.th.size(); t++) if (s.th[t].stat == TCond && !canRun(s, t)) opts.push_back(t);
  chooseAmong(s, opts, -1); return true;
}
static void joinVC(std::vector<uint32_t>& a, const std::vector<uint32_t>& b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void vcAcquire(State& s, uint64_t a) { if (O.races) joinVC(s.th[s.cur].vc, s.syncvc[a]); }
static void vcRelease(State& s, uint64_t a) { if (!O.races) return; auto& v = s.th[s.cur].vc; if (v.size() <= (size_t)s.cur) v.resize(s.cur + 1, 1); joinVC(s.syncvc[a], v); v[s.cur]++; }
static void raceCheck(State& s, uint32_t id, uint64_t off, unsigned n, bool w) {
  if (s.th.size() < 2) return; Obj* o = objOf(s, id); if (o->ro) return;
  if (s.atomicSec) { vcAcquire(s, o->addr + off); vcRelease(s, o->addr + off); return; }
  if (o->kind == OStack) { for (auto& f : s.th[s.cur].st) for (uint32_t a : f->allocas) if (a == id && !o->acc) { bool onlymine = true; (void)onlymine; break; } }
  o = objW(s, id); if (!o->acc) o->acc = std::make_shared<std::map<uint32_t, Obj::Acc>>(); else if (o->acc.use_count() > 1) o->acc = std::make_shared<std::map<uint32_t, Obj::Acc>>(*o->acc);
  auto& vc = s.th[s.cur].vc; int me = s.cur; if (vc.size() <= (size_t)me) vc.resize(me + 1, 1);
  auto clk = [&](unsigned t) { return t < vc.size() ? vc[t] : 0u; };
  for (unsigned i = 0; i < n; i++) {
    auto& A = (*o->acc)[off + i];
    if (A.wt != 0xffff && A.wt != me && A.wc > clk(A.wt)) { std::string d = std::string(w ? "write" : "read") + " by thread " + std::to_string(me) + " races with an earlier write by thread " + std::to_string(A.wt) + " at offset " + std::to_string(off + i) + " of " + objDesc(o); violation(s, "data-race", d); }
    if (w) for (int t = 0; t < 6; t++) if (t != me && A.rc[t] > clk(t)) violation(s, "data-race", "write by thread " + std::to_string(me) + " races with an earlier read by thread " + std::to_string(t) + " at offset " + std::to_string(off + i) + " of " + objDesc(o));
    if (w) { A.wt = me; A.wc = vc[me]; for (int t = 0; t < 6; t++) A.rc[t] = 0; } else if (me < 6) A.rc[me] = vc[me];
  }
}
static void threadExit(State& s, E rv) {
  Thread& th = s.th[s.cur];
  if (gInCtor) { return; }
  th.stat = TDone; th.ret = rv; if (O.races) { auto& v = s.syncvc[0x1000 + s.cur]; joinVC(v, th.vc); }
  if (s.cur == 0 && O.leak) leakCheckEnd(s);
}
