// C++ exceptions
static std::string tiName(State& s, uint64_t a) { Obj* o = objOf(s, idOf(a)); if (o && o->site) if (auto* g = dyn_cast<GlobalValue>(o->site)) return g->getName().str(); return ""; }
static const std::map<std::string, std::string> stdBases = {
  {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"},
  {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}};
static bool tiMatch(const std::string& thrown, const std::string& want) {
  if (thrown == want) return true;
  auto it = stdBases.find(thrown); if (it != stdBases.end()) return tiMatch(it->second, want);
  GlobalVariable* g = M->getGlobalVariable(thrown, true);
  if (g && g->hasInitializer()) if (auto* cs = dyn_cast<ConstantStruct>(g->getInitializer())) for (unsigned i = 2; i < cs->getNumOperands(); i++) if (cs->getOperand(i)->getType()->isPointerTy()) { if (auto* b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) if (tiMatch(b->getName().str(), want)) return true; }
  return false;
}
static std::map<uint64_t, int> tiIds;
static int tiId(uint64_t a) { auto it = tiIds.find(a); if (it != tiIds.end()) return it->second; int n = (int)(idOf(a) & 0x7fffffff); tiIds[a] = n; return n; }
static const uint64_t FORCED = 0x7f00;
static void unwind(State& s, uint64_t ex) {
  std::string thrown = ex == FORCED ? "" : tiName(s, s.excType[ex]);
  for (;;) {
    if (s.th[s.cur].st.empty()) {
      if (ex == FORCED) { threadExit(s, mkC(-1, 64)); return; }
      violation(s, "uncaught-exception", "exception of type " + demangle(thrown) + " leaves the thread (std::terminate)");
    }
    Frame& f = top(s); KInst& ki = f.f->insts[f.ip];
    if (ki.op == Instruction::Invoke) {
      auto* iv = cast<InvokeInst>(ki.I); auto* lp = cast<LandingPadInst>(iv->getUnwindDest()->getFirstNonPHI()); bool hit = false; int sel = 0;
      for (unsigned i = 0; i < lp->getNumClauses() && !hit; i++) {
        Constant* c = lp->getClause(i);
        if (lp->isCatch(i)) {
          if (isa<ConstantPointerNull>(c)) { hit = true; sel = 0x7ffffff0; }
          else if (ex != FORCED) { uint64_t a = (uint64_t)constE(c)->val; if (tiMatch(thrown, tiName(s, a))) { hit = true; sel = tiId(a); } }
        } else if (ex != FORCED) {
          bool ok = false; if (auto* ca = dyn_cast<ConstantArray>(c)) for (unsigned k = 0; k < ca->getNumOperands() && !ok; k++) { if (isa<ConstantPointerNull>(ca->getOperand(k))) ok = true; else ok = tiMatch(thrown, tiName(s, (uint64_t)constE(cast<Constant>(ca->getOperand(k)))->val)); }
          if (!ok) { hit = true; sel = -1; }
        }
      }
      if (!hit && lp->isCleanup()) { hit = true; sel = 0; }
      if (hit) {
        jump(s, f, ki.t1); Frame& f2 = top(s); KInst& l = f2.f->insts[f2.ip]; if (l.op != Instruction::LandingPad) fatal("landingpad expected");
        f2.regs[l.dest] = mkAgg({C64(ex), mkC((uint32_t)sel, 32)}); f2.ip++; return;
      }
    }
    popFrame(s);
  }
}
static void throwStd(State& s, const char* ti) {
  GlobalVariable* g = M->getGlobalVariable(ti, true);
  uint32_t id = newObj(s, 16, OMisc, nullptr); Obj* o = objW(s, id); o->st.assign(16, 1); if (GlobalVariable* v = M->getGlobalVariable("_ZTV6LceExc", true)) writeMem(s, C64(addrOf(id)), C64(gaddr[v] + 16), 8);
  uint64_t ta;
  if (g) ta = gaddr[g]; else { violation(s, "uncaught-exception", std::string("exception ") + demangle(ti) + " with no handler type in the program"); }
  s.excType[addrOf(id)] = ta; s.excRef[addrOf(id)] = 1; unwind(s, addrOf(id));
}
