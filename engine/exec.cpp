#include "exec.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <sstream>
#include <algorithm>
#include <atomic>
#include <cmath>
using namespace llvm;

// ------------------------------------------------------------------ configuration
static struct Opt {
  uint64_t maxSteps = 3000000; double timeout = 600; int workers = 8; int maxPreempt = 2, maxSleeps = 2, spurious = 0; bool schedMem = false, schedVol = false, races = false, uninitErr = false;
  uint64_t allocLimit = 4u << 20; int enumLimit = 300; std::string out = "/tmp/symout"; int samples = 4; std::string repo = "/repo/"; uint64_t maxPaths = 0;
  bool leak = false; std::string entry = "harness"; bool hangIsError = true; bool timedAlways = true; int seed = 1; bool contin = false; bool verbose = false; int maxDepth = 400; bool trace = false;
} O;
struct Shared { std::atomic<int> active, stop, nviol, everForked; std::atomic<uint64_t> paths, errs; };
static Shared* SH;
static Module* M; static const DataLayout* DL;
static std::unordered_map<Function*, KFunc*> kfuncs;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr; static std::unordered_map<uint64_t, Function*> fnAt;
static std::vector<State*> pending;
static std::map<std::string, int> builtinIdx; typedef std::function<void(State&, KInst&, std::vector<E>&)> BF;
static std::vector<BF> builtins;
static double T0;
static struct Stats { uint64_t steps = 0, paths = 0, forks = 0, asserts = 0, assertsProved = 0, assumeKill = 0, incomplete = 0, unexplored = 0, memchecks = 0, symmem = 0, hangs = 0, errors = 0, schedPts = 0, transitions = 0; std::map<std::string, uint64_t> reach, assertLabels, notes, limits; } ST;
static std::vector<std::string> sampleTests; static std::vector<std::string> violations;

static void fatal(const char* f, ...) { va_list a; va_start(a, f); char b[4096]; vsnprintf(b, sizeof b, f, a); va_end(a);
  fprintf(stderr, "ENGINE-FATAL: %s\n", b); std::ofstream(O.out + "/fatal." + std::to_string(getpid())) << b << "\n"; if (SH) SH->stop = 2; fflush(stderr); _Exit(96); }

static std::string tyStr(Type* t) { std::string s; raw_string_ostream o(s); t->print(o); return s; }
static unsigned widthOf(Type* t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isX86_FP80Ty()) return 80;
  return 0;
}
static uint64_t storeSize(Type* t) { return DL->getTypeStoreSize(t); }

// ------------------------------------------------------------------ memory
static Obj* objOf(State& s, uint32_t id) { if (id == 0 || id >= s.nobj) return nullptr; auto& p = s.pages[id >> 6]; return p ? p->o[id & 63].get() : nullptr; }
static Obj* objW(State& s, uint32_t id) {
  auto& p = s.pages[id >> 6]; if (p.use_count() > 1) p = std::make_shared<Page>(*p);
  auto& o = p->o[id & 63]; if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
  return o.get();
}
static uint32_t newObj(State& s, uint64_t size, OKind k, const Value* site) {
  if (size > MAXOBJ) fatal("object too large: %llu", (unsigned long long)size);
  uint32_t id = s.nobj++; if ((id >> 6) >= s.pages.size()) s.pages.push_back(std::make_shared<Page>());
  auto& p = s.pages[id >> 6]; if (p.use_count() > 1) p = std::make_shared<Page>(*p);
  auto o = std::make_shared<Obj>(); o->addr = BASE + id * SLOT + OFFS; o->size = (uint32_t)size; o->kind = k; o->b.assign(size, 0); o->st.assign(size, 0); o->site = site;
  p->o[id & 63] = o; return id;
}
static inline uint64_t addrOf(uint32_t id) { return BASE + id * SLOT + OFFS; }
static inline uint32_t idOf(uint64_t a) { if (a < BASE) return 0; uint64_t i = (a - BASE) / SLOT; return i > 0xfffffff ? 0 : (uint32_t)i; }
static E C64(uint64_t v) { return mkC(v, 64); }

// ------------------------------------------------------------------ state ops
static State* cloneS(State& s) { ST.forks++; return new State(s); }
static void addPC(State& s, E e) {
  if (e == eTrue || s.pcset.count(e)) return;
  if (e->k == KAnd && e->w == 1) { addPC(s, e->a); addPC(s, e->b); s.pcset.insert(e); return; }
  if (e->k == KNot && e->a->k == KOr) { addPC(s, mkNot(e->a->a)); addPC(s, mkNot(e->a->b)); s.pcset.insert(e); return; }
  s.pcset.insert(e); s.pc.push_back(e);
  if (e->k == KEq && isC(e->b)) s.known[e->a] = e->b;
  if (e->k == KVar) s.known[e] = eTrue;
  if (e->k == KNot && e->a->k == KVar) s.known[e->a] = eFalse;
}
static bool kn(State& s, E c, bool& v) {
  if (isC(c)) { v = c->val != 0; return true; }
  if (s.pcset.count(c)) { v = true; return true; }
  if (s.pcset.count(mkNot(c))) { v = false; return true; }
  return false;
}
static void incomplete(State& s, const char* why) { ST.incomplete++; ST.notes[std::string("incomplete: ") + why]++; }
static bool mayBe(State& s, E c, Model* mo) { // satisfiable with pc?
  bool v; if (kn(s, c, v)) { if (v && mo) *mo = s.model; return v; }
  Model m = s.model; Res r = solve(s.pc, c, &m);
  if (r == UNKNOWN) { incomplete(s, "solver unknown"); return false; }
  if (r == SAT) { if (mo) *mo = m; return true; }
  s.pcset.insert(mkNot(c)); return false;
}
static bool forkBool(State& s, E c) {
  bool v; if (kn(s, c, v)) return v;
  if (c->hasUninit && O.uninitErr) { /* handled by caller through reporting */ }
  v = evalE(c, s.model, newEpoch()) != 0;
  E other = v ? mkNot(c) : c; Model m2 = s.model; Res r = solve(s.pc, other, &m2);
  if (r == UNSAT) { s.pcset.insert(v ? c : mkNot(c)); return v; }
  if (r == UNKNOWN) { incomplete(s, "solver unknown at branch"); addPC(s, v ? c : mkNot(c)); return v; }
  State* sib = cloneS(s); sib->model = m2; addPC(*sib, other); sib->depth++; pending.push_back(sib);
  addPC(s, v ? c : mkNot(c)); s.depth++; return v;
}
[[noreturn]] static void violation(State& s, const std::string& kind, const std::string& msg, const Model* m = nullptr);
// enumerate all values of e (forking); returns the value in this state
static u128 concretize(State& s, E e, const char* what) {
  if (isC(e)) return e->val;
  auto it = s.known.find(e); if (it != s.known.end()) return it->second->val;
  u128 v = evalE(e, s.model, newEpoch()); E eq = mkEq(e, mkC(v, e->w));
  Model m2 = s.model; Res r = solve(s.pc, mkNot(eq), &m2);
  if (r == SAT) {
    State* sib = cloneS(s); sib->model = m2; addPC(*sib, mkNot(eq)); sib->depth++; pending.push_back(sib);
  } else if (r == UNKNOWN) incomplete(s, "solver unknown at concretize");
  addPC(s, eq); s.known[e] = mkC(v, e->w); s.depth++; return v;
}
static std::string hex(u128 v) { char b[40]; if (v >> 64) snprintf(b, 40, "%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, 40, "%llx", (unsigned long long)v); return b; }
static std::string where(State& s, int maxf = 14) {
  std::string r; auto& t = s.th[s.cur];
  for (int i = (int)t.st.size() - 1, n = 0; i >= 0 && n < maxf; i--, n++) {
    Frame& f = *t.st[i]; if (f.ip >= (int)f.f->insts.size()) continue; Instruction* I = f.f->insts[f.ip].I; r += "  at " + f.f->dname;
    if (DebugLoc d = I->getDebugLoc()) { const DILocation* L = d.get(); 
      while (L) { r += " [" + L->getFilename().str() + ":" + std::to_string(L->getLine()) + " " + (L->getScope()->getSubprogram() ? L->getScope()->getSubprogram()->getName().str() : "") + "]"; L = L->getInlinedAt(); } }
    r += "\n";
  }
  return r;
}
static std::string testText(State& s, const Model& m, bool withObs) {
  std::ostringstream o; uint64_t ep = newEpoch();
  for (auto& in : s.inputs) o << "in " << in.second << " " << in.first->w << " " << hex(evalE(in.first, m, ep)) << "\n";
  if (withObs) for (auto& b : s.obs) o << "obs " << b.first << " " << hex(evalE(b.second, m, ep)) << "\n";
  return o.str();
}
static void violation(State& s, const std::string& kind, const std::string& msg, const Model* m) {
  ST.errors++; int n = SH->nviol++;
  std::string fn = O.out + "/viol." + std::to_string(n) + ".txt"; std::ofstream f(fn + ".tmp");
  f << "# kind " << kind << "\n# msg " << msg << "\n"; std::istringstream is(where(s)); std::string l; while (std::getline(is, l)) f << "# " << l << "\n";
  for (auto& t : s.trace) f << "# trace " << t << "\n";
  f << testText(s, m ? *m : s.model, false); f.close(); rename((fn + ".tmp").c_str(), fn.c_str());
  if (O.verbose) fprintf(stderr, "VIOL %s: %s\n%s", kind.c_str(), msg.c_str(), where(s).c_str());
  if (n >= 5 && !O.contin) SH->stop = 1;
  if (n >= 200) SH->stop = 1;
  throw PathEnd();
}
// ------------------------------------------------------------------ pointer resolution
struct Ref { uint32_t id; E off; };
static std::string objDesc(Obj* o) {
  if (!o) return "no object"; static const char* n[] = {"global", "stack", "heap(malloc)", "heap(new)", "heap(new[])", "function", "misc"};
  std::string r = std::string(o->alive ? "" : "FREED ") + n[o->kind] + " object of " + std::to_string(o->size) + " bytes";
  if (o->site) { if (auto* g = dyn_cast<GlobalValue>(o->site)) r += " '" + g->getName().str() + "'"; else if (auto* I = dyn_cast<Instruction>(o->site)) { r += " from " + demangle(I->getFunction()->getName().str()); if (I->hasName()) r += " %" + I->getName().str(); } }
  return r;
}
static void raceCheck(State& s, uint32_t id, uint64_t off, unsigned n, bool w);
static Ref resolve(State& s, E addr, uint64_t n, bool w, const char* what) {
  ST.memchecks++;
  auto kit = isC(addr) ? s.known.end() : s.known.find(addr); if (kit != s.known.end()) addr = kit->second;
  if (isC(addr)) {
    uint64_t a = (uint64_t)addr->val; uint32_t id = idOf(a); Obj* o = objOf(s, id);
    if (!o) violation(s, "bad-pointer", std::string(what) + " through invalid pointer 0x" + hex(a));
    uint64_t off = a - o->addr;
    if (!o->alive) violation(s, "use-after-free", std::string(what) + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)off) + " of " + objDesc(o));
    if (a < o->addr || off > o->size || n > o->size - off) violation(s, "out-of-bounds", std::string(what) + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)off) + " of " + objDesc(o));
    if (w && o->ro) violation(s, "write-to-const", std::string(what) + " to read-only " + objDesc(o));
    return {id, C64(off)};
  }
  ST.symmem++;
  uint32_t id = 0;
  if (addr->k == KIte) { forkBool(s, addr->a); bool v = false; kn(s, addr->a, v); return resolve(s, v ? addr->b : addr->c, n, w, what); }
  if (addr->k == KAdd && isC(addr->b)) id = idOf((uint64_t)addr->b->val);
  if (addr->k == KAdd && !id) for (E x : {addr->a, addr->b}) if (x->k == KIte) { bool v = forkBool(s, x->a); E y = v ? x->b : x->c; return resolve(s, mkAdd(y, x == addr->a ? addr->b : addr->a), n, w, what); }
  Obj* o = objOf(s, id);
  if (!o) {
    // no constant base: pick the model's object, fork over the others
    uint64_t a = (uint64_t)evalE(addr, s.model, newEpoch()); id = idOf(a); o = objOf(s, id);
    if (!o) violation(s, "bad-pointer", std::string(what) + " through symbolic pointer that may be 0x" + hex(a));
    uint64_t lo = BASE + id * SLOT; E inSlot = mkAnd(mkUle(C64(lo), addr), mkUlt(addr, C64(lo + SLOT)));
    forkBool(s, inSlot);
    bool v; if (kn(s, inSlot, v) && !v) return resolve(s, addr, n, w, what);
    return {id, [&] { E off = mkSub(addr, C64(o->addr)); if (!o->alive) violation(s, "use-after-free", std::string(what) + " of " + objDesc(o));
      if (n > o->size) violation(s, "out-of-bounds", std::string(what) + " of " + std::to_string(n) + " bytes of " + objDesc(o));
      E ok = mkUle(off, C64(o->size - n)); Model m; if (mayBe(s, mkNot(ok), &m)) violation(s, "out-of-bounds", std::string(what) + " of " + std::to_string(n) + " bytes outside " + objDesc(o), &m);
      return off; }()};
  }
  if (!o->alive) violation(s, "use-after-free", std::string(what) + " of " + objDesc(o));
  if (n > o->size) violation(s, "out-of-bounds", std::string(what) + " of " + std::to_string(n) + " bytes of " + objDesc(o));
  if (w && o->ro) violation(s, "write-to-const", std::string(what) + " to read-only " + objDesc(o));
  E off = mkSub(addr, C64(o->addr)); E ok = mkUle(off, C64(o->size - n)); Model m;
  if (mayBe(s, mkNot(ok), &m)) {
    uint64_t bad = (uint64_t)evalE(off, m, newEpoch());
    violation(s, "out-of-bounds", std::string(what) + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)bad) + " (symbolic) of " + objDesc(o), &m);
  }
  if (isC(off)) return {id, off};
  return {id, off};
}
static E readByteAt(State& s, uint32_t id, uint64_t i) {
  Obj* o = objOf(s, id);
  if (o->st[i] == 1) return mkC(o->b[i], 8);
  if (o->st[i] == 2) return o->s[i];
  if (o->kind == OGlobal && false) return mkC(0, 8);
  E v = mkVar("uninit." + std::to_string(s.uninitCtr++), 8, true);
  Obj* ow = objW(s, id); if (ow->s.empty()) ow->s.assign(ow->size, nullptr); ow->s[i] = v; ow->st[i] = 2; return v;
}
static E readAt(State& s, uint32_t id, uint64_t off, unsigned n) {
  Obj* o = objOf(s, id);
  if (n <= 16) {
    bool conc = true; u128 v = 0; for (unsigned i = 0; i < n; i++) { if (o->st[off + i] != 1) { conc = false; break; } v |= (u128)o->b[off + i] << (8 * i); }
    if (conc) return mkC(v, n * 8);
  }
  E r = nullptr; for (unsigned i = 0; i < n; i++) { E b = readByteAt(s, id, off + i); r = r ? mkConcat(b, r) : b; }
  if (r->k == KExtract) r = mkExtract(r->a, r->aux, r->w);
  return r;
}
static void writeByteAt(Obj* o, uint64_t i, E v) {
  if (isC(v)) { o->b[i] = (uint8_t)v->val; o->st[i] = 1; } else { if (o->s.empty()) o->s.assign(o->size, nullptr); o->s[i] = v; o->st[i] = 2; }
}
static void writeAt(State& s, uint32_t id, uint64_t off, E v, unsigned n) {
  Obj* o = objW(s, id);
  if (v->w < n * 8) v = mkZExt(v, n * 8);
  if (isC(v)) { u128 x = v->val; for (unsigned i = 0; i < n; i++) { o->b[off + i] = (uint8_t)(x >> (8 * i)); o->st[off + i] = 1; } return; }
  for (unsigned i = 0; i < n; i++) writeByteAt(o, off + i, mkExtractRaw(v, 8 * i, 8));
}
static void offRange(State& s, E off, uint64_t lim, uint64_t& lo, uint64_t& hi, uint64_t& step) {
  lo = (uint64_t)uminOf(off); hi = std::min<uint64_t>((uint64_t)umaxOf(off), lim); step = 1; while (step < 64 && (off->kz & step)) step <<= 1;
  lo = (lo + step - 1) / step * step;
}
static E foldRead(E off, const std::vector<std::pair<uint64_t, E>>& c, size_t a, size_t b) { // balanced ite
  if (b - a == 1) return c[a].second;
  size_t m = (a + b) / 2; E l = foldRead(off, c, a, m), r = foldRead(off, c, m, b);
  return mkIte(mkUlt(off, mkC(c[m].first, off->w)), l, r);
}
static E readMem(State& s, E addr, unsigned n, const char* what = "read") {
  Ref r = resolve(s, addr, n, false, what);
  if (isC(r.off)) { if (O.races) raceCheck(s, r.id, (uint64_t)r.off->val, n, false); return readAt(s, r.id, (uint64_t)r.off->val, n); }
  Obj* o = objOf(s, r.id); uint64_t lo, hi, st; offRange(s, r.off, o->size - n, lo, hi, st);
  if ((hi - lo) / st > 4096) { uint64_t v = (uint64_t)concretize(s, r.off, "read offset"); return readAt(s, r.id, v, n); }
  std::vector<std::pair<uint64_t, E>> c; for (uint64_t i = lo; i <= hi; i += st) c.push_back({i, readAt(s, r.id, i, n)});
  if (c.size() <= 64) { E x = c.back().second; for (size_t i = c.size() - 1; i-- > 0;) x = mkIte(mkEq(r.off, C64(c[i].first)), c[i].second, x); return x; }
  return foldRead(r.off, c, 0, c.size());
}
// a destructor storing the vtable pointer that is already there (as in ThreadSanitizer's __tsan_vptr_update)
static bool sameVptr(State& s, uint32_t id, uint64_t off, E v, unsigned n) {
  if (n != 8 || !isC(v)) return false; E c = readAt(s, id, off, 8); if (!isC(c) || c->val != v->val) return false;
  uint32_t t = idOf((uint64_t)v->val); if (!t || t >= s.nobj) return false; Obj* o = objOf(s, t); if (!o || o->kind != OGlobal) return false;
  auto* g = dyn_cast_or_null<GlobalVariable>(o->site); return g && g->getName().starts_with("_ZTV");
}
static void writeMem(State& s, E addr, E v, unsigned n, const char* what = "write") {
  Ref r = resolve(s, addr, n, true, what);
  if (isC(r.off)) { if (O.races && !sameVptr(s, r.id, (uint64_t)r.off->val, v, n)) raceCheck(s, r.id, (uint64_t)r.off->val, n, true); writeAt(s, r.id, (uint64_t)r.off->val, v, n); return; }
  Obj* o = objOf(s, r.id); uint64_t lo, hi, st; offRange(s, r.off, o->size - n, lo, hi, st);
  if ((hi - lo) / st > 1024) { uint64_t x = (uint64_t)concretize(s, r.off, "write offset"); writeAt(s, r.id, x, v, n); return; }
  v = mkZExt(v, n * 8); std::map<uint64_t, E> nb;
  for (uint64_t i = lo; i <= hi; i += st) { E c = mkEq(r.off, C64(i)); if (c == eFalse) continue;
    for (unsigned k = 0; k < n; k++) { E old = nb.count(i + k) ? nb[i + k] : readByteAt(s, r.id, i + k); nb[i + k] = mkIte(c, mkExtract(v, 8 * k, 8), old); } }
  Obj* ow = objW(s, r.id); for (auto& p : nb) writeByteAt(ow, p.first, p.second);
}
static E loadTy(State& s, E addr, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { std::vector<E> k; auto* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) k.push_back(loadTy(s, mkAdd(addr, C64(L->getElementOffset(i))), st->getElementType(i))); return mkAgg(k); }
  if (auto* at = dyn_cast<ArrayType>(t)) { std::vector<E> k; uint64_t z = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) k.push_back(loadTy(s, mkAdd(addr, C64(i * z)), at->getElementType())); return mkAgg(k); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { std::vector<E> k; uint64_t z = DL->getTypeAllocSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) k.push_back(loadTy(s, mkAdd(addr, C64(i * z)), vt->getElementType())); return mkAgg(k); }
  unsigned w = widthOf(t), n = storeSize(t); E v = readMem(s, addr, n); if (w < n * 8) v = mkExtract(v, 0, w); return v;
}
static void storeTy(State& s, E addr, E v, Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeTy(s, mkAdd(addr, C64(L->getElementOffset(i))), (*v->kids)[i], st->getElementType(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t z = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); i++) storeTy(s, mkAdd(addr, C64(i * z)), (*v->kids)[i], at->getElementType()); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t z = DL->getTypeAllocSize(vt->getElementType()); for (uint64_t i = 0; i < vt->getNumElements(); i++) storeTy(s, mkAdd(addr, C64(i * z)), (*v->kids)[i], vt->getElementType()); return; }
  writeMem(s, addr, v, storeSize(t));
}
// ------------------------------------------------------------------ constants
static E constE(Constant* c);
static uint64_t gepConst(GEPOperator* g) { APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) fatal("non-constant GEP constant"); return off.getSExtValue(); }
static E zeroOf(Type* t) {
  if (auto* st = dyn_cast<StructType>(t)) { std::vector<E> k; for (auto* e : st->elements()) k.push_back(zeroOf(e)); return mkAgg(k); }
  if (auto* at = dyn_cast<ArrayType>(t)) { std::vector<E> k(at->getNumElements(), zeroOf(at->getElementType())); return mkAgg(k); }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { std::vector<E> k(vt->getNumElements(), zeroOf(vt->getElementType())); return mkAgg(k); }
  if (!widthOf(t)) fatal("zeroOf %s", tyStr(t).c_str());
  return mkC(0, widthOf(t));
}
static u128 apint(const APInt& a) { u128 r = a.getRawData()[0]; if (a.getBitWidth() > 64) r |= (u128)a.getRawData()[1] << 64; return r; }
static E constE(Constant* c) {
  Type* t = c->getType();
  if (auto* i = dyn_cast<ConstantInt>(c)) return mkC(apint(i->getValue()), widthOf(t));
  if (auto* f = dyn_cast<ConstantFP>(c)) return mkC(apint(f->getValueAPF().bitcastToAPInt()), widthOf(t));
  if (isa<ConstantPointerNull>(c)) return mkC(0, 64);
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(t);
  if (auto* g = dyn_cast<GlobalValue>(c)) { if (auto* al = dyn_cast<GlobalAlias>(g)) return constE(al->getAliasee()); auto it = gaddr.find(g); if (it == gaddr.end()) fatal("no address for %s", g->getName().str().c_str()); return C64(it->second); }
  if (auto* a = dyn_cast<ConstantAggregate>(c)) { std::vector<E> k; for (unsigned i = 0; i < a->getNumOperands(); i++) k.push_back(constE(a->getOperand(i))); return mkAgg(k); }
  if (auto* a = dyn_cast<ConstantDataSequential>(c)) { std::vector<E> k; for (unsigned i = 0; i < a->getNumElements(); i++) k.push_back(constE(a->getElementAsConstant(i))); return mkAgg(k); }
  if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: return mkAdd(constE(ce->getOperand(0)), C64(gepConst(cast<GEPOperator>(ce))));
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constE(ce->getOperand(0));
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: { E v = constE(ce->getOperand(0)); return mkZExt(v, widthOf(t)); }
      case Instruction::Sub: return mkSub(constE(ce->getOperand(0)), constE(ce->getOperand(1)));
      case Instruction::Add: return mkAdd(constE(ce->getOperand(0)), constE(ce->getOperand(1)));
      case Instruction::ICmp: { auto* x = cast<ConstantExpr>(ce); E a = constE(x->getOperand(0)), b = constE(x->getOperand(1)); switch (x->getPredicate()) { case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b)); default: break; } }
      default: fatal("constant expr opcode %s", ce->getOpcodeName());
    }
  }
  std::string s; raw_string_ostream o(s); c->print(o); fatal("constant %s", s.c_str()); return nullptr;
}
// ------------------------------------------------------------------ function compilation
static int lookupBuiltin(const std::string& n) { auto it = builtinIdx.find(n); return it == builtinIdx.end() ? -1 : it->second; }
static std::set<std::string> overrideFns;
static KFunc* getF(Function* F) {
  auto it = kfuncs.find(F); if (it != kfuncs.end()) return it->second;
  KFunc* k = new KFunc(); k->F = F; kfuncs[F] = k; k->dname = demangle(F->getName().str());
  if (auto* sp = F->getSubprogram()) { k->file = sp->getFilename().str(); std::string full = k->file; if (!full.empty() && full[0] != '/') full = sp->getDirectory().str() + "/" + full; k->isRepo = full.find(O.repo) == 0 || k->file.find(O.repo) == 0; }
  std::unordered_map<Value*, int> num; int n = 0;
  for (auto& a : F->args()) num[&a] = n++;
  for (auto& bb : *F) for (auto& I : bb) if (!I.getType()->isVoidTy()) num[&I] = n++;
  k->nregs = n; int bi = 0; for (auto& bb : *F) k->bbIdx[&bb] = bi++;
  std::unordered_map<Constant*, int> cn;
  auto opnd = [&](Value* v) -> int {
    if (auto* c = dyn_cast<Constant>(v)) { auto f = cn.find(c); if (f != cn.end()) return f->second; int idx = ~(int)k->consts.size(); k->consts.push_back(constE(c)); cn[c] = idx; return idx; }
    auto f = num.find(v); if (f == num.end()) { if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return 0; fatal("operand in %s", F->getName().str().c_str()); } return f->second; };
  for (auto& bb : *F) {
    k->bbStart.push_back(k->insts.size());
    for (auto& I : bb) {
      if (isa<DbgInfoIntrinsic>(I)) continue;
      if (auto* ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::assume || id == Intrinsic::donothing || id == Intrinsic::prefetch) continue; }
      KInst ki; ki.I = &I; ki.op = I.getOpcode(); ki.dest = I.getType()->isVoidTy() ? -1 : num[&I]; ki.w = I.getType()->isVoidTy() ? 0 : widthOf(I.getType()); ki.ty = I.getType();
      if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
        ki.ops.push_back(opnd(g->getPointerOperand()));
        if (!g->getType()->isPointerTy()) fatal("vector gep");
        for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
          Value* ix = gti.getOperand();
          if (auto* st = gti.getStructTypeOrNull()) ki.gepOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { int64_t sc = DL->getTypeAllocSize(gti.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(ix)) ki.gepOff += sc * ci->getSExtValue(); else ki.gepIdx.push_back({opnd(ix), sc}); }
        }
      } else if (auto* cb = dyn_cast<CallBase>(&I)) {
        for (auto& a : cb->args()) ki.ops.push_back(opnd(a));
        Value* cv = cb->getCalledOperand()->stripPointerCasts(); if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
        if (auto* f = dyn_cast<Function>(cv)) {
          ki.callee = f; std::string nm = f->getName().str();
          if (f->isDeclaration() || overrideFns.count(nm)) { ki.builtin = lookupBuiltin(nm); if (ki.builtin < 0 && f->isIntrinsic()) { std::string b = nm; while (ki.builtin < 0) { auto p = b.rfind('.'); if (p == std::string::npos || p < 5) break; b = b.substr(0, p); ki.builtin = lookupBuiltin(b); } } }
        } else if (isa<InlineAsm>(cv)) { ki.builtin = lookupBuiltin("__inline_asm"); }
        else ki.ops.push_back(opnd(cv));
        if (auto* iv = dyn_cast<InvokeInst>(&I)) { ki.t0 = k->bbIdx[iv->getNormalDest()]; ki.t1 = k->bbIdx[iv->getUnwindDest()]; }
      } else if (isa<PHINode>(&I)) { for (unsigned i = 0; i < I.getNumOperands(); i++) ki.ops.push_back(opnd(I.getOperand(i))); }
      else if (auto* br = dyn_cast<BranchInst>(&I)) { if (br->isConditional()) { ki.ops.push_back(opnd(br->getCondition())); ki.t0 = k->bbIdx[br->getSuccessor(0)]; ki.t1 = k->bbIdx[br->getSuccessor(1)]; } else ki.t0 = k->bbIdx[br->getSuccessor(0)]; }
      else { for (auto& o : I.operands()) ki.ops.push_back(opnd(o.get())); }
      if (auto* a = dyn_cast<AllocaInst>(&I)) ki.sz = DL->getTypeAllocSize(a->getAllocatedType());
      if (auto* c = dyn_cast<CmpInst>(&I)) ki.pred = c->getPredicate();
      if (auto* l = dyn_cast<LoadInst>(&I)) { ki.vol = l->isVolatile(); ki.atomic = l->isAtomic(); }
      if (auto* l = dyn_cast<StoreInst>(&I)) { ki.vol = l->isVolatile(); ki.atomic = l->isAtomic(); ki.ty = l->getValueOperand()->getType(); }
      k->insts.push_back(ki);
    }
  }
  return k;
}
// ------------------------------------------------------------------ frames
static Frame& top(State& s) { auto& v = s.th[s.cur].st; auto& p = v.back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }
static inline E val(Frame& f, int o) { E e = o >= 0 ? f.regs[o] : f.f->consts[~o]; if (!e) fatal("undefined register in %s", f.f->dname.c_str()); return e; }
static void freeObj(State& s, uint32_t id) { Obj* o = objW(s, id); o->alive = false; std::vector<uint8_t>().swap(o->b); std::vector<uint8_t>().swap(o->st); std::vector<E>().swap(o->s); o->acc.reset(); }
static void jump(State& s, Frame&, int target) {
  Frame& f = top(s); // re-fetched: a fork may have made the caller's reference shared with a sibling state
  KFunc* k = f.f; int from = f.bb; f.bb = target; int ip = k->bbStart[target];
  // phis
  BasicBlock* pred = nullptr; std::vector<std::pair<int, E>> nv;
  while (ip < (int)k->insts.size() && k->insts[ip].op == Instruction::PHI) {
    auto* ph = cast<PHINode>(k->insts[ip].I);
    if (!pred) pred = k->insts[k->bbStart[from]].I->getParent();
    int i = ph->getBasicBlockIndex(pred); if (i < 0) fatal("phi"); nv.push_back({k->insts[ip].dest, val(f, k->insts[ip].ops[i])}); ip++;
  }
  for (auto& p : nv) f.regs[p.first] = p.second;
  f.ip = ip;
}
static void pushFrame(State& s, Function* F, const std::vector<E>& args, CallBase* cb) {
  if (s.th[s.cur].st.size() >= (size_t)O.maxDepth) violation(s, "stack-overflow", "call depth exceeds " + std::to_string(O.maxDepth) + " in " + demangle(F->getName().str()));
  KFunc* k = getF(F); k->execs++;
  auto fr = std::make_shared<Frame>(); fr->f = k; fr->regs.assign(k->nregs, nullptr); unsigned n = F->arg_size();
  if (args.size() < n) fatal("too few args calling %s", k->dname.c_str());
  for (unsigned i = 0; i < n; i++) fr->regs[i] = args[i];
  for (size_t i = n; i < args.size(); i++) fr->va.push_back(args[i]);
  if (cb) for (unsigned i = 0; i < n && i < cb->arg_size(); i++) if (cb->isByValArgument(i)) {
    Type* t = cb->getParamByValType(i); uint64_t z = DL->getTypeAllocSize(t); uint32_t id = newObj(s, z, OStack, cb); fr->allocas.push_back(id);
    Ref r = resolve(s, args[i], z, false, "byval read"); if (!isC(r.off)) fatal("byval symbolic"); uint64_t o = (uint64_t)r.off->val; Obj* src = objOf(s, r.id); Obj* d = objW(s, id);
    for (uint64_t j = 0; j < z; j++) { d->st[j] = src->st[o + j]; d->b[j] = src->b[o + j]; if (d->st[j] == 2) writeByteAt(d, j, src->s[o + j]); }
    fr->regs[i] = C64(addrOf(id));
  }
  s.th[s.cur].st.push_back(fr); fr->bb = 0; fr->ip = k->bbStart[0];
}
static void retTo(State& s, E v); // after popping callee
static void setRet(State& s, KInst& ki, E v) { // complete a call instruction in the top frame
  Frame& f = top(s); if (ki.dest >= 0) { if (!v) v = zeroOf(ki.ty); f.regs[ki.dest] = v; }
  if (ki.I->getOpcode() == Instruction::Invoke) jump(s, f, ki.t0); else f.ip++;
}
static void popFrame(State& s) { auto& v = s.th[s.cur].st; for (uint32_t id : v.back()->allocas) freeObj(s, id); v.pop_back(); }

static void pathDone(State& s);
#include "threads.inc"
#include "eh.inc"
static void initGlobal(State& s, uint32_t id, uint64_t off, Constant* c);
#include "builtins.inc"

// ------------------------------------------------------------------ interpreter
static void doCall(State& s, KInst& ki, Frame& f) {
  CallBase* cb = cast<CallBase>(ki.I); std::vector<E> args; size_t n = cb->arg_size(); Function* F = ki.callee;
  for (size_t i = 0; i < n; i++) { Value* a = cb->getArgOperand(i); if (isa<MetadataAsValue>(a)) args.push_back(eFalse); else args.push_back(val(f, ki.ops[i])); }
  if (!F && ki.builtin < 0) {
    E fp = val(f, ki.ops[n]); uint64_t a = (uint64_t)concretize(s, fp, "function pointer"); auto it = fnAt.find(a);
    if (it == fnAt.end()) violation(s, "bad-call", "indirect call through invalid function pointer 0x" + hex(a));
    F = it->second;
    if (F->isDeclaration() || overrideFns.count(F->getName().str())) { int b = lookupBuiltin(F->getName().str()); if (b < 0) fatal("indirect call of unmodelled %s", F->getName().str().c_str()); KInst k2 = ki; k2.callee = F; k2.builtin = b; builtins[b](s, k2, args); return; }
    pushFrame(s, F, args, cb); return;
  }
  if (ki.builtin >= 0) { builtins[ki.builtin](s, ki, args); return; }
  if (F->isDeclaration()) fatal("unmodelled external function %s (%s) called\n%s", F->getName().str().c_str(), demangle(F->getName().str()).c_str(), where(s).c_str());
  pushFrame(s, F, args, cb);
}
static E gepAddr(Frame& f, KInst& ki) {
  E a = val(f, ki.ops[0]); if (ki.gepOff) a = mkAdd(a, C64((uint64_t)ki.gepOff));
  for (auto& p : ki.gepIdx) { E i = val(f, p.first); i = i->w < 64 ? mkSExt(i, 64) : i->w > 64 ? mkExtract(i, 0, 64) : i; a = mkAdd(a, mkBin(KMul, i, C64((uint64_t)p.second))); }
  return a;
}
static E icmp(unsigned p, E a, E b) {
  if (a->k == KAgg) { std::vector<E> v; for (size_t i = 0; i < a->kids->size(); i++) v.push_back(icmp(p, (*a->kids)[i], (*b->kids)[i])); return mkAgg(v); }
  switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkUlt(a, b); case CmpInst::ICMP_ULE: return mkUle(a, b); case CmpInst::ICMP_UGT: return mkUlt(b, a); case CmpInst::ICMP_UGE: return mkUle(b, a);
    case CmpInst::ICMP_SLT: return mkBin(KSlt, a, b); case CmpInst::ICMP_SLE: return mkBin(KSle, a, b); case CmpInst::ICMP_SGT: return mkBin(KSlt, b, a); case CmpInst::ICMP_SGE: return mkBin(KSle, b, a);
  }
  fatal("icmp"); return nullptr;
}
static E fcmp(unsigned p, E a, E b) {
  E un = mkF(KFUno, a, b, 1), eq = mkF(KFEq, a, b, 1), lt = mkF(KFLt, a, b, 1), gt = mkF(KFLt, b, a, 1);
  switch (p) {
    case CmpInst::FCMP_FALSE: return eFalse; case CmpInst::FCMP_TRUE: return eTrue;
    case CmpInst::FCMP_OEQ: return eq; case CmpInst::FCMP_OGT: return gt; case CmpInst::FCMP_OLT: return lt; case CmpInst::FCMP_OGE: return mkF(KFLe, b, a, 1); case CmpInst::FCMP_OLE: return mkF(KFLe, a, b, 1);
    case CmpInst::FCMP_ONE: return mkOr(lt, gt); case CmpInst::FCMP_ORD: return mkNot(un); case CmpInst::FCMP_UNO: return un;
    case CmpInst::FCMP_UEQ: return mkOr(un, eq); case CmpInst::FCMP_UGT: return mkOr(un, gt); case CmpInst::FCMP_ULT: return mkOr(un, lt); case CmpInst::FCMP_UGE: return mkOr(un, mkF(KFLe, b, a, 1)); case CmpInst::FCMP_ULE: return mkOr(un, mkF(KFLe, a, b, 1)); case CmpInst::FCMP_UNE: return mkNot(eq);
  }
  fatal("fcmp"); return nullptr;
}
static E castE(unsigned op, E a, unsigned w, Type* dt) {
  if (a->k == KAgg) { std::vector<E> v; unsigned ew = 0; if (auto* vt = dyn_cast<FixedVectorType>(dt)) ew = widthOf(vt->getElementType()); else fatal("agg cast"); if (op == Instruction::BitCast) fatal("vector bitcast"); for (E x : *a->kids) v.push_back(castE(op, x, ew, nullptr)); return mkAgg(v); }
  switch (op) {
    case Instruction::Trunc: return mkExtract(a, 0, w);
    case Instruction::ZExt: return mkZExt(a, w); case Instruction::SExt: return mkSExt(a, w);
    case Instruction::PtrToInt: case Instruction::IntToPtr: return mkZExt(a, w);
    case Instruction::BitCast: case Instruction::AddrSpaceCast: return a;
    case Instruction::SIToFP: return mkF(KSToF, a, nullptr, w); case Instruction::UIToFP: return mkF(KUToF, a, nullptr, w);
    case Instruction::FPToSI: return mkF(KFToS, a, nullptr, w); case Instruction::FPToUI: return mkF(KFToU, a, nullptr, w);
    case Instruction::FPExt: case Instruction::FPTrunc: return mkF(KFCvt, a, nullptr, w);
  }
  fatal("cast"); return nullptr;
}
static E insertVal(E agg, ArrayRef<unsigned> idx, E v) { std::vector<E> k = *agg->kids; k[idx[0]] = idx.size() == 1 ? v : insertVal(k[idx[0]], idx.drop_front(), v); return mkAgg(k); }
static void uninitBranch(State& s, E c) {
  if (O.uninitErr && c->hasUninit) { Model m; bool v = evalE(c, s.model, newEpoch()) != 0; if (mayBe(s, v ? mkNot(c) : c, &m)) violation(s, "uninitialised", "decision depends on uninitialised memory"); }
}
static void step(State& s) {
  Frame& f = top(s); KInst& ki = f.f->insts[f.ip]; ki.hit = true; s.steps++; ST.steps++;
  switch (ki.op) {
    case Instruction::Ret: {
      E rv = ki.ops.empty() ? nullptr : val(f, ki.ops[0]); popFrame(s);
      if (s.th[s.cur].st.empty()) { threadExit(s, rv); return; }
      retTo(s, rv); return; }
    case Instruction::Br:
      if (ki.ops.empty()) { jump(s, f, ki.t0); return; }
      { E c = val(f, ki.ops[0]); if (!isC(c)) uninitBranch(s, c); bool v = forkBool(s, c); ST.transitions += !isC(c); jump(s, f, v ? ki.t0 : ki.t1); return; }
    case Instruction::Switch: {
      auto* sw = cast<SwitchInst>(ki.I); E c = val(f, ki.ops[0]); if (!isC(c)) uninitBranch(s, c);
      if (isC(c)) { for (auto cs : sw->cases()) if (apint(cs.getCaseValue()->getValue()) == c->val) { jump(s, f, f.f->bbIdx[cs.getCaseSuccessor()]); return; } jump(s, f, f.f->bbIdx[sw->getDefaultDest()]); return; }
      // group by destination
      std::vector<std::pair<int, E>> g; E any = eFalse;
      for (auto cs : sw->cases()) { int d = f.f->bbIdx[cs.getCaseSuccessor()]; E q = mkEq(c, mkC(apint(cs.getCaseValue()->getValue()), c->w)); any = mkOr(any, q); bool done = false; for (auto& x : g) if (x.first == d) { x.second = mkOr(x.second, q); done = true; } if (!done) g.push_back({d, q}); }
      for (auto& x : g) if (forkBool(s, x.second)) { jump(s, f, x.first); return; }
      jump(s, f, f.f->bbIdx[sw->getDefaultDest()]); return; }
    case Instruction::Unreachable: violation(s, "unreachable", "reached code the compiler assumes unreachable (undefined behaviour)");
    case Instruction::Invoke: case Instruction::Call: doCall(s, ki, f); return;
    case Instruction::Resume: { E a = val(f, ki.ops[0]); uint64_t ex = (uint64_t)concretize(s, (*a->kids)[0], "exc"); popFrame(s); unwind(s, ex); return; }
    case Instruction::LandingPad: fatal("landingpad executed directly");
    case Instruction::Alloca: {
      uint64_t cnt = (uint64_t)concretize(s, val(f, ki.ops[0]), "alloca count"); if (cnt * ki.sz > O.allocLimit) violation(s, "alloc-limit", "stack allocation of " + std::to_string(cnt * ki.sz) + " bytes");
      Frame& f2 = top(s); uint32_t id = newObj(s, cnt * ki.sz, OStack, ki.I); f2.allocas.push_back(id); f2.regs[ki.dest] = C64(addrOf(id)); f2.ip++; return; }
    case Instruction::Load: {
      E a = val(f, ki.ops[0]); if ((ki.vol || ki.atomic || O.schedMem) && !memSched(s, a)) return;
      if (ki.atomic) s.atomicSec = true; E v = loadTy(s, a, ki.ty); s.atomicSec = false; Frame& f2 = top(s); f2.regs[ki.dest] = v; f2.ip++; return; }
    case Instruction::Store: {
      E a = val(f, ki.ops[1]); if ((ki.vol || ki.atomic || O.schedMem) && !memSched(s, a)) return;
      if (ki.atomic) s.atomicSec = true; storeTy(s, a, val(f, ki.ops[0]), ki.ty); s.atomicSec = false; top(s).ip++; return; }
    case Instruction::GetElementPtr: { E a = gepAddr(f, ki); f.regs[ki.dest] = a; f.ip++; return; }
    case Instruction::ICmp: f.regs[ki.dest] = icmp(ki.pred, val(f, ki.ops[0]), val(f, ki.ops[1])); f.ip++; return;
    case Instruction::FCmp: f.regs[ki.dest] = fcmp(ki.pred, val(f, ki.ops[0]), val(f, ki.ops[1])); f.ip++; return;
    case Instruction::Select: {
      E c = val(f, ki.ops[0]), a = val(f, ki.ops[1]), b = val(f, ki.ops[2]);
      if (c->k == KAgg) { std::vector<E> v; for (size_t i = 0; i < c->kids->size(); i++) v.push_back(mkIte((*c->kids)[i], (*a->kids)[i], (*b->kids)[i])); f.regs[ki.dest] = mkAgg(v); }
      else { bool v; if (ki.ty->isPointerTy() && !isC(c) && a != b) { v = forkBool(s, c); Frame& f2 = top(s); f2.regs[ki.dest] = v ? a : b; f2.ip++; return; } if (kn(s, c, v)) f.regs[ki.dest] = v ? a : b; else f.regs[ki.dest] = mkIte(c, a, b); }
      f.ip++; return; }
    case Instruction::Freeze: f.regs[ki.dest] = val(f, ki.ops[0]); f.ip++; return;
    case Instruction::ExtractValue: { E a = val(f, ki.ops[0]); for (unsigned i : cast<ExtractValueInst>(ki.I)->indices()) a = (*a->kids)[i]; f.regs[ki.dest] = a; f.ip++; return; }
    case Instruction::InsertValue: { f.regs[ki.dest] = insertVal(val(f, ki.ops[0]), cast<InsertValueInst>(ki.I)->getIndices(), val(f, ki.ops[1])); f.ip++; return; }
    case Instruction::ExtractElement: { E a = val(f, ki.ops[0]); uint64_t i = (uint64_t)val(f, ki.ops[1])->val; f.regs[ki.dest] = (*a->kids)[i]; f.ip++; return; }
    case Instruction::InsertElement: { std::vector<E> k = *val(f, ki.ops[0])->kids; k[(uint64_t)val(f, ki.ops[2])->val] = val(f, ki.ops[1]); f.regs[ki.dest] = mkAgg(k); f.ip++; return; }
    case Instruction::ShuffleVector: { E a = val(f, ki.ops[0]), b = val(f, ki.ops[1]); std::vector<E> k; size_t n = a->kids->size(); for (int m : cast<ShuffleVectorInst>(ki.I)->getShuffleMask()) k.push_back(m < 0 ? (*a->kids)[0] : (size_t)m < n ? (*a->kids)[m] : (*b->kids)[m - n]); f.regs[ki.dest] = mkAgg(k); f.ip++; return; }
    case Instruction::FNeg: { E a = val(f, ki.ops[0]); f.regs[ki.dest] = mkF(KFNeg, a, nullptr, a->w); f.ip++; return; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
      static const std::map<unsigned, Kind> m = {{Instruction::FAdd, KFAdd}, {Instruction::FSub, KFSub}, {Instruction::FMul, KFMul}, {Instruction::FDiv, KFDiv}};
      E a = val(f, ki.ops[0]); f.regs[ki.dest] = mkF(m.at(ki.op), a, val(f, ki.ops[1]), a->w); f.ip++; return; }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
      E a = val(f, ki.ops[0]), b = val(f, ki.ops[1]); if (b->k != KAgg) { E z = mkEq(b, mkC(0, b->w)); Model m; if (z != eFalse && mayBe(s, z, &m)) violation(s, "div-by-zero", "division by zero", &m); }
      f.regs[ki.dest] = mkBin(ki.op == Instruction::UDiv ? KUDiv : ki.op == Instruction::SDiv ? KSDiv : ki.op == Instruction::URem ? KURem : KSRem, a, b); f.ip++; return; }
    case Instruction::Add: f.regs[ki.dest] = mkBin(KAdd, val(f, ki.ops[0]), val(f, ki.ops[1])); f.ip++; return;
    case Instruction::Sub: f.regs[ki.dest] = mkBin(KSub, val(f, ki.ops[0]), val(f, ki.ops[1])); f.ip++; return;
    case Instruction::Mul: f.regs[ki.dest] = mkBin(KMul, val(f, ki.ops[0]), val(f, ki.ops[1])); f.ip++; return;
    case Instruction::And: f.regs[ki.dest] = mkBin(KAnd, val(f, ki.ops[0]), val(f, ki.ops[1])); f.ip++; return;
    case Instruction::Or: f.regs[ki.dest] = mkBin(KOr, val(f, ki.ops[0]), val(f, ki.ops[1])); f.ip++; return;
    case Instruction::Xor: f.regs[ki.dest] = mkBin(KXor, val(f, ki.ops[0]), val(f, ki.ops[1])); f.ip++; return;
    case Instruction::Shl: f.regs[ki.dest] = mkBin(KShl, val(f, ki.ops[0]), val(f, ki.ops[1])); f.ip++; return;
    case Instruction::LShr: f.regs[ki.dest] = mkBin(KLShr, val(f, ki.ops[0]), val(f, ki.ops[1])); f.ip++; return;
    case Instruction::AShr: f.regs[ki.dest] = mkBin(KAShr, val(f, ki.ops[0]), val(f, ki.ops[1])); f.ip++; return;
    case Instruction::AtomicRMW: {
      auto* a = cast<AtomicRMWInst>(ki.I); E p = val(f, ki.ops[0]); if (!memSched(s, p)) return; s.atomicSec = true; E v = val(f, ki.ops[1]); unsigned n = v->w / 8; E old = readMem(s, p, n), nv = nullptr;
      switch (a->getOperation()) { case AtomicRMWInst::Add: nv = mkAdd(old, v); break; case AtomicRMWInst::Sub: nv = mkSub(old, v); break; case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::And: nv = mkAnd(old, v); break; case AtomicRMWInst::Or: nv = mkOr(old, v); break; case AtomicRMWInst::Xor: nv = mkBin(KXor, old, v); break; default: fatal("atomicrmw"); }
      writeMem(s, p, nv, n); s.atomicSec = false; Frame& f2 = top(s); f2.regs[ki.dest] = old; f2.ip++; return; }
    case Instruction::AtomicCmpXchg: {
      E p = val(f, ki.ops[0]); if (!memSched(s, p)) return; s.atomicSec = true; E c = val(f, ki.ops[1]), v = val(f, ki.ops[2]); unsigned n = v->w / 8; E old = readMem(s, p, n); E eq = mkEq(old, c); bool b = forkBool(s, eq);
      if (b) writeMem(s, p, v, n); s.atomicSec = false; Frame& f2 = top(s); f2.regs[ki.dest] = mkAgg({old, b ? eTrue : eFalse}); f2.ip++; return; }
    case Instruction::Fence: f.ip++; return;
    default:
      if (ki.I->isCast()) { f.regs[ki.dest] = castE(ki.op, val(f, ki.ops[0]), ki.w, ki.ty); f.ip++; return; }
      fatal("instruction %s", ki.I->getOpcodeName());
  }
}
static void retTo(State& s, E v) {
  Frame& f = top(s); KInst& ki = f.f->insts[f.ip]; setRet(s, ki, v);
}
// ------------------------------------------------------------------ exploration
static void writeResult(bool root);
static std::vector<std::string> samplesKept; static uint64_t samplesSeen = 0; static uint64_t rng = 88172645463325252ull;
static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static void pathDone(State& s) {
  ST.paths++; SH->paths++; for (auto& r : s.reached) ST.reach[r]++;
  std::string t; samplesSeen++;
  if ((int)samplesKept.size() < O.samples) samplesKept.push_back(testText(s, s.model, true)); else { uint64_t j = rnd() % samplesSeen; if (j < (uint64_t)O.samples) samplesKept[j] = testText(s, s.model, true); }
}
static void runState(State* s) {
  uint64_t lim = 0;
  try {
    for (;;) {
      if (s->steps >= O.maxSteps) {
        ST.hangs++; if (O.hangIsError) violation(*s, "step-limit", "path exceeds " + std::to_string(O.maxSteps) + " instructions (possible non-termination)");
        incomplete(*s, "step limit"); break;
      }
      if ((++lim & 1023) == 0 && (SH->stop || nowS() - T0 > O.timeout)) { ST.unexplored++; break; }
      if (!schedule(*s)) break;
      int cur = s->cur; step(*s); s->th[cur].icount++;
    }
  } catch (PathEnd&) {}
  delete s;
}
static bool maybeSplit() {
  static double last = 0; if (pending.size() < 2) return false;
  int a = SH->active.load(); if (a >= O.workers) return false;
  double t = nowS(); if (t - last < 0.02) return false; last = t;
  if (!SH->active.compare_exchange_strong(a, a + 1)) return false;
  fflush(stderr); fflush(stdout); pid_t p = fork();
  if (p < 0) { SH->active--; return false; }
  std::vector<State*> mine;
  // child takes every other pending state, starting with the oldest
  for (size_t i = 0; i < pending.size(); i++) { bool child = (i % 2 == 0); if (child == (p == 0)) mine.push_back(pending[i]); else delete pending[i]; }
  pending.swap(mine);
  if (p == 0) { ST = Stats(); SS = SolverStats(); samplesKept.clear(); samplesSeen = 0; rng ^= (uint64_t)getpid() * 2654435761u + O.seed; for (auto& k : kfuncs) k.second->execs = 0; SH->everForked = 1; return true; }
  return false;
}
static bool isChild = false;
static void explore() {
  double lastMem = 0;
  while (!pending.empty()) {
    if (SH->stop || nowS() - T0 > O.timeout || (O.maxPaths && SH->paths > O.maxPaths)) { ST.unexplored += pending.size(); if (!SH->stop) ST.notes["time or path budget exhausted"]++; break; }
    if (O.workers > 1 && maybeSplit()) isChild = true;
    if (pending.empty()) break;
    State* s = pending.back(); pending.pop_back(); runState(s);
    (void)lastMem;
  }
}
static std::string jesc(const std::string& s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void writeResult(bool root) {
  std::string fn = O.out + "/part." + std::to_string(getpid()) + ".json"; std::ofstream o(fn + ".tmp");
  o << "{\"steps\":" << ST.steps << ",\"paths\":" << ST.paths << ",\"forks\":" << ST.forks << ",\"asserts\":" << ST.asserts << ",\"assertsProved\":" << ST.assertsProved << ",\"assumeKill\":" << ST.assumeKill << ",\"incomplete\":" << ST.incomplete << ",\"unexplored\":" << ST.unexplored
    << ",\"memchecks\":" << ST.memchecks << ",\"symmem\":" << ST.symmem << ",\"hangs\":" << ST.hangs << ",\"errors\":" << ST.errors << ",\"transitions\":" << ST.transitions << ",\"schedPoints\":" << ST.schedPts << ",\"queries\":" << SS.queries << ",\"z3queries\":" << SS.z3 << ",\"z3sat\":" << SS.sat << ",\"z3unsat\":" << SS.unsat << ",\"z3unknown\":" << SS.unknown << ",\"cacheHits\":" << SS.cacheHits << ",\"modelHits\":" << SS.modelHits << ",\"z3time\":" << SS.z3time << ",\"maxq\":" << SS.maxq << ",\"exprs\":" << gExprCount;
  auto mp = [&](const char* n, std::map<std::string, uint64_t>& m) { o << ",\"" << n << "\":{"; bool f = true; for (auto& p : m) { o << (f ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; f = false; } o << "}"; };
  mp("reach", ST.reach); mp("assertLabels", ST.assertLabels); mp("notes", ST.notes);
  std::map<std::string, uint64_t> fm; for (auto& k : kfuncs) if (k.second->execs && k.second->isRepo) { std::string fl = k.second->file; auto p = fl.rfind('/'); if (p != std::string::npos) fl = fl.substr(p + 1); fm[k.second->dname + " @" + fl] += k.second->execs; }
  mp("functions", fm);
  if (getenv("LCE_COV")) { // source lines executed (1) or only encoded (0), for tools/cov.py
    std::map<std::string, uint64_t> lm; for (auto& k : kfuncs) if (k.second->execs) for (auto& ki : k.second->insts) for (const DILocation* L = ki.I->getDebugLoc().get(); L; L = L->getInlinedAt()) { std::string n = L->getFilename().str(); if (L->getLine() && n.find("/repo/") != std::string::npos) { auto& c = lm[n + ":" + std::to_string(L->getLine())]; if (ki.hit) c = 1; } }
    mp("lines", lm); }
  o << ",\"samples\":["; bool f = true; for (auto& t : samplesKept) { o << (f ? "" : ",") << "\"" << jesc(t) << "\""; f = false; } o << "]}\n"; o.close(); rename((fn + ".tmp").c_str(), fn.c_str());
}
static void initGlobal(State& s, uint32_t id, uint64_t off, Constant* c) {
  Type* t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto* ds = dyn_cast<ConstantDataSequential>(c)) { StringRef r = ds->getRawDataValues(); Obj* o = objW(s, id); for (size_t i = 0; i < r.size(); i++) o->b[off + i] = (uint8_t)r[i]; return; }
  if (auto* a = dyn_cast<ConstantArray>(c)) { uint64_t z = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initGlobal(s, id, off + i * z, a->getOperand(i)); return; }
  if (auto* a = dyn_cast<ConstantStruct>(c)) { auto* L = DL->getStructLayout(a->getType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initGlobal(s, id, off + L->getElementOffset(i), a->getOperand(i)); return; }
  if (auto* a = dyn_cast<ConstantVector>(c)) { uint64_t z = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initGlobal(s, id, off + i * z, a->getOperand(i)); return; }
  writeAt(s, id, off, constE(c), storeSize(t));
}
static void realMain(int argc, char** argv) {
  std::string file;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto v = [&]() { return std::string(argv[++i]); };
    if (a == "--out") O.out = v(); else if (a == "--timeout") O.timeout = std::stod(v()); else if (a == "--workers") O.workers = std::stoi(v()); else if (a == "--max-steps") O.maxSteps = std::stoull(v());
    else if (a == "--max-preempt") O.maxPreempt = std::stoi(v()); else if (a == "--sched-mem") O.schedMem = true; else if (a == "--sched-vol") O.schedVol = true; else if (a == "--max-sleeps") O.maxSleeps = std::stoi(v()); else if (a == "--spurious") O.spurious = std::stoi(v()); else if (a == "--races") O.races = true; else if (a == "--uninit") O.uninitErr = true;
    else if (a == "--alloc-limit") O.allocLimit = std::stoull(v()); else if (a == "--samples") O.samples = std::stoi(v()); else if (a == "--repo") O.repo = v(); else if (a == "--leak") O.leak = true; else if (a == "--entry") O.entry = v();
    else if (a == "--solver-timeout") gSolverTimeoutMs = std::stoul(v()); else if (a == "--seed") O.seed = std::stoi(v()); else if (a == "--continue") O.contin = true; else if (a == "-v") O.verbose = true; else if (a == "--no-hang-error") O.hangIsError = false; else if (a == "--max-depth") O.maxDepth = std::stoi(v()); else if (a == "--trace") O.trace = true; else if (a == "--max-paths") O.maxPaths = std::stoull(v());
    else if (a == "--override") overrideFns.insert(v()); else file = a;
  }
  mkdir(O.out.c_str(), 0755); T0 = nowS();
  SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SH->active = 1; SH->stop = 0; SH->nviol = 0;
  prctl(PR_SET_CHILD_SUBREAPER, 1); rng += O.seed;
  static LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(file, err, ctx); if (!mod) { err.print("symex", errs()); _Exit(96); }
  M = mod.get(); DL = &M->getDataLayout(); exprInit(); regBuiltins();
  State* s = new State(); s->pages.push_back(std::make_shared<Page>());
  for (auto& F : *M) { if (F.isIntrinsic()) continue; uint32_t id = newObj(*s, 16, OFunc, &F); objW(*s, id)->fn = &F; objW(*s, id)->ro = true; gaddr[&F] = addrOf(id); fnAt[addrOf(id)] = &F; }
  for (auto& G : M->globals()) {
    uint64_t z = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 64; if (G.isDeclaration() && z < 64) z = 64;
    uint32_t id = newObj(*s, z, OGlobal, &G); gaddr[&G] = addrOf(id); Obj* o = objW(*s, id); o->st.assign(z, 1);
  }
  for (auto& G : M->globals()) if (G.hasInitializer()) { initGlobal(*s, idOf(gaddr[&G]), 0, G.getInitializer()); if (G.isConstant()) objW(*s, idOf(gaddr[&G]))->ro = true; }
  s->th.resize(1); s->th[0].vc.assign(1, 1); s->th[0].started = true;
  // constructors, then harness
  std::vector<std::pair<int, Function*>> ctors;
  if (auto* gc = M->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op.get()); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); }
  std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
  Function* H = M->getFunction(O.entry); if (!H || H->isDeclaration()) fatal("no entry %s", O.entry.c_str());
  for (auto& c : ctors) {
    pushFrame(*s, c.second, {}, nullptr); gInCtor = true;
    try { while (!s->th[0].st.empty()) step(*s); } catch (PathEnd&) { fatal("error in static constructor"); }
    if (!pending.empty()) fatal("fork in constructor");
  }
  gInCtor = false; s->th[0].stat = TRun; s->steps = 0;
  for (auto& k : kfuncs) k.second->execs = 0;
  pushFrame(*s, H, {}, nullptr); pending.push_back(s);
  pid_t rootPid = getpid(); explore(); writeResult(true); SH->active--;
  if (getpid() != rootPid) _Exit(0);
  // root: wait for everyone
  int bad = 0; for (;;) { int st; pid_t p = wait(&st); if (p < 0) { if (errno == ECHILD) break; continue; } if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad++; fprintf(stderr, "worker %d failed status %d\n", p, st); std::ofstream(O.out + "/fatal.worker" + std::to_string(p)) << "worker died, status " << st << "\n"; } }
  fflush(stdout); _Exit(bad || SH->stop == 2 ? 96 : 0);
}
int main(int argc, char** argv) {
  // big stack: expression recursion can be deep
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
  if (!getenv("SYM_STACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (rlim_t)2048 << 20 : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl); setenv("SYM_STACK", "1", 1); execv("/proc/self/exe", argv); }
  realMain(argc, argv); return 0;
}
