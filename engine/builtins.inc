// Natively modelled external functions
#define BI(name) static void name(State& s, KInst& ki, std::vector<E>& a)
static void reg(const std::string& n, BF f) { builtinIdx[n] = builtins.size(); builtins.push_back(f); }
static std::string cstr(State& s, E p, size_t max = 4096) { // concrete string
  std::string r; uint64_t ad = (uint64_t)concretize(s, p, "string ptr");
  for (size_t i = 0; i < max; i++) { E b = readMem(s, C64(ad + i), 1, "string read"); uint64_t c = (uint64_t)concretize(s, b, "string byte"); if (!c) return r; r += (char)c; }
  return r;
}
static E x32(uint64_t v) { return mkC(v, 32); }
static E newInput(State& s, const std::string& nm, unsigned w, const std::string& tag = "") { E v = mkVar(nm + tag + "." + std::to_string(s.inputs.size()), w); s.inputs.push_back({v, nm}); return v; }
static std::set<std::string> seenNotes;
static void heapAlloc(State& s, KInst& ki, E size, OKind k, bool zero, unsigned align = 16) {
  Model m; E big = mkUlt(C64(O.allocLimit), mkZExt(size, 64));
  if (mayBe(s, big, &m)) violation(s, "alloc-limit", "allocation request may exceed the harness limit of " + std::to_string(O.allocLimit) + " bytes", &m);
  uint64_t n = (uint64_t)concretize(s, size, "allocation size");
  s.allocBytes += n;
  uint32_t id = newObj(s, n, k, ki.I); if (zero) objW(s, id)->st.assign(n, 1); s.liveHeap++;
  setRet(s, ki, C64(addrOf(id)));
}
static void heapFree(State& s, KInst& ki, E p, int kind) {
  uint64_t a = (uint64_t)concretize(s, p, "free pointer"); if (!a) { setRet(s, ki, nullptr); return; }
  Obj* o = objOf(s, idOf(a));
  if (!o || (o->kind != OHeap && o->kind != OHeapNew && o->kind != OHeapNewArr)) violation(s, "bad-free", "free/delete of a pointer that is not a heap block: " + objDesc(o));
  if (!o->alive) violation(s, "double-free", "double free/delete of " + objDesc(o));
  if (a != o->addr) violation(s, "bad-free", "free/delete of an interior pointer of " + objDesc(o));
  if (o->kind != kind) violation(s, "alloc-dealloc-mismatch", "block released with the wrong operator: " + objDesc(o));
  freeObj(s, idOf(a)); s.liveHeap--; setRet(s, ki, nullptr);
}
static void copyMem(State& s, E dst, E src, uint64_t n) {
  if (n == 0) return;
  Ref rs = resolve(s, src, n, false, "memcpy read"); Ref rd = resolve(s, dst, n, true, "memcpy write");
  if (!isC(rs.off) || !isC(rd.off)) {
    if (n <= 64) { std::vector<E> t; for (uint64_t i = 0; i < n; i++) t.push_back(readMem(s, mkAdd(src, C64(i)), 1)); for (uint64_t i = 0; i < n; i++) writeMem(s, mkAdd(dst, C64(i)), t[i], 1); return; }
    concretize(s, src, "memcpy src"); concretize(s, dst, "memcpy dst"); rs = resolve(s, src, n, false, "memcpy read"); rd = resolve(s, dst, n, true, "memcpy write");
  }
  uint64_t so = (uint64_t)rs.off->val, d0 = (uint64_t)rd.off->val;
  if (O.races) { raceCheck(s, rs.id, so, n, false); raceCheck(s, rd.id, d0, n, true); }
  Obj* so_ = objOf(s, rs.id); std::vector<uint8_t> b(so_->b.begin() + so, so_->b.begin() + so + n), st(so_->st.begin() + so, so_->st.begin() + so + n); std::vector<E> sy; bool anySym = false; for (auto x : st) if (x == 2) anySym = true;
  if (anySym) sy.assign(so_->s.begin() + so, so_->s.begin() + so + n);
  Obj* o = objW(s, rd.id); if (anySym && o->s.empty()) o->s.assign(o->size, nullptr);
  memcpy(o->b.data() + d0, b.data(), n); memcpy(o->st.data() + d0, st.data(), n); if (anySym) for (uint64_t i = 0; i < n; i++) if (st[i] == 2) o->s[d0 + i] = sy[i];
}
static uint64_t concLen(State& s, E n) { return (uint64_t)concretize(s, n, "length"); }
static E memcmpE(State& s, E p, E q, uint64_t n) {
  E r = x32(0); std::vector<std::pair<E, E>> v; for (uint64_t i = 0; i < n; i++) v.push_back({readMem(s, mkAdd(p, C64(i)), 1, "memcmp read"), readMem(s, mkAdd(q, C64(i)), 1, "memcmp read")});
  for (size_t i = n; i-- > 0;) r = mkIte(mkEq(v[i].first, v[i].second), r, mkIte(mkUlt(v[i].first, v[i].second), x32(0xffffffff), x32(1)));
  return r;
}
// ---- formatted output
struct VaArgs { std::vector<E> v; size_t i = 0; uint64_t ap = 0; };
static E nextArg(State& s, VaArgs& va) {
  if (!va.ap) { if (va.i >= va.v.size()) violation(s, "format", "too few arguments for format"); return va.v[va.i++]; }
  E ov = readMem(s, C64(va.ap + 8), 8); uint64_t p = (uint64_t)concretize(s, ov, "va_list"); E v = readMem(s, C64(p + 8 * va.i), 8, "vararg read"); va.i++; return v;
}
static uint64_t pow10u(int n) { uint64_t r = 1; while (n--) r *= 10; return r; }
static bool decDigits(State& s, E v, std::vector<E>& out, int minD = 1) { // unsigned 64-bit, forks on the digit count
  if (isC(v)) { std::string t = std::to_string((unsigned long long)v->val); for (char c : t) out.push_back(mkC((uint8_t)c, 8)); return true; }
  // minD > 1: the field is zero-padded to minD digits, so every value below 10^minD has the same shape (no fork)
  bool padded = minD > 1 && minD < 20 && (umaxOf(v) < pow10u(minD) || !mayBe(s, mkUle(C64(pow10u(minD)), v), nullptr));
  int n = padded ? minD : 1; if (!padded) while (n < 20 && !forkBool(s, mkUlt(v, C64(pow10u(n))))) n++;
  // digits are fresh variables d_i in 0..9 whose Horner value equals v (a definitional constraint, always satisfiable)
  { // already a sum of decimal digits (10*a + b, b a digit): use its digits instead of introducing new ones
    std::vector<E> ds; E cur = v; bool ok = true;
    for (int i = 0; i < n && ok; i++) {
      E hi = nullptr, lo = nullptr; if (cur->k == KAdd) { E p = cur->a, q = cur->b; if (q->k == KMul && isC(q->b) && q->b->val == 10) std::swap(p, q); if (p->k == KMul && isC(p->b) && p->b->val == 10) { hi = p->a; lo = q; } }
      if (i == n - 1) { if (hi && umaxOf(lo) <= 15 && !mayBe(s, mkNot(mkEq(hi, C64(0))), nullptr)) cur = lo; ds.push_back(mkAdd(mkExtract(cur, 0, 8), mkC('0', 8))); break; }
      if (!hi || umaxOf(lo) > 15 || (umaxOf(hi) > ~0ull / 16 && !sumAtMost(hi, ~0ull / 2 / 10 - 1)) || (umaxOf(lo) > 9 && mayBe(s, mkUle(C64(10), lo), nullptr))) { ok = false; break; }
      ds.push_back(mkAdd(mkExtract(lo, 0, 8), mkC('0', 8))); cur = hi;
    }
    if (ok) { std::reverse(ds.begin(), ds.end()); for (E x : ds) out.push_back(x); return true; }
  }
  std::vector<E> d; std::vector<u128> dv; Model& m = s.model; u128 cur = evalE(v, m, newEpoch());
  for (int i = 0; i < n; i++) { dv.push_back(cur % 10); cur /= 10; }
  std::reverse(dv.begin(), dv.end()); E h = C64(0);
  bool fresh = true;
  for (int i = 0; i < n; i++) { E x = mkVar((padded ? "pdig." : "dig.") + std::to_string(v->id) + "." + std::to_string(n) + "." + std::to_string(i), 4); d.push_back(x); h = mkAdd(mkBin(KMul, h, C64(10)), mkZExt(x, 64)); if (s.pcset.count(mkUlt(x, mkC(10, 4)))) fresh = false; }
  if (fresh) {
    for (int i = 0; i < n; i++) { if (m.size() <= d[i]->aux) m.resize(d[i]->aux + 1, 0); m[d[i]->aux] = dv[i]; addPC(s, mkUlt(d[i], mkC(10, 4))); }
    if (!padded) addPC(s, mkNot(mkEq(d[0], mkC(0, 4))));
    // 20-digit values: forbid wrap-around of the Horner sum (18446744073709551615 has 20 digits)
    if (n == 20) { addPC(s, mkEq(d[0], mkC(1, 4))); E rest = C64(0); for (int i = 1; i < 20; i++) rest = mkAdd(mkBin(KMul, rest, C64(10)), mkZExt(d[i], 64)); addPC(s, mkUle(rest, C64(8446744073709551615ull))); }
    addPC(s, mkEq(h, v)); s.known.erase(h);
  }
  for (E x : d) out.push_back(mkAdd(mkZExt(x, 8), mkC('0', 8)));
  return true;
}
static void doFormat(State& s, E fmtp, VaArgs va, std::vector<E>& out) {
  std::string f = cstr(s, fmtp); 
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { out.push_back(mkC((uint8_t)f[i], 8)); continue; }
    size_t st = i; i++; bool left = false, zero = false, plus = false, alt = false, space = false; int width = -1, prec = -1;
    for (;; i++) { if (f[i] == '-') left = true; else if (f[i] == '0') zero = true; else if (f[i] == '+') plus = true; else if (f[i] == '#') alt = true; else if (f[i] == ' ') space = true; else break; }
    if (f[i] == '*') { width = (int)(uint64_t)concretize(s, mkExtract(nextArg(s, va), 0, 32), "width"); i++; } else while (isdigit((unsigned char)f[i])) { width = (width < 0 ? 0 : width) * 10 + f[i] - '0'; i++; }
    if (f[i] == '.') { i++; prec = 0; if (f[i] == '*') { prec = (int)(uint64_t)concretize(s, mkExtract(nextArg(s, va), 0, 32), "prec"); i++; } else while (isdigit((unsigned char)f[i])) { prec = prec * 10 + f[i] - '0'; i++; } }
    int lng = 0; for (;; i++) { if (f[i] == 'l' || f[i] == 'z' || f[i] == 'j' || f[i] == 't') lng++; else if (f[i] == 'h') lng--; else break; }
    char c = f[i]; std::vector<E> body; E sign = nullptr;
    unsigned w = lng >= 1 ? 64 : lng == 0 ? 32 : lng == -1 ? 16 : 8;
    switch (c) {
      case '%': out.push_back(mkC('%', 8)); continue;
      case 'c': body.push_back(mkExtract(nextArg(s, va), 0, 8)); zero = false; break;
      case 's': { E p = nextArg(s, va); uint64_t ad = (uint64_t)concretize(s, p, "%s"); if (!ad) violation(s, "null-deref", "NULL passed to %s"); 
        for (int n = 0; prec < 0 || n < prec; n++) { E b = readMem(s, C64(ad + n), 1, "%s read"); if (forkBool(s, mkEq(b, mkC(0, 8)))) break; body.push_back(b); } zero = false; break; }
      case 'd': case 'i': { E v = mkExtract(nextArg(s, va), 0, w); bool neg = forkBool(s, mkExtract(v, w - 1, 1)); E u = mkZExt(neg ? mkSub(mkC(0, w), v) : v, 64); if (neg) sign = mkC('-', 8); else if (plus) sign = mkC('+', 8); else if (space) sign = mkC(' ', 8); decDigits(s, u, body, prec > 0 ? prec : zero && !left ? width - (sign ? 1 : 0) : 1); break; }
      case 'u': { E v = mkZExt(mkExtract(nextArg(s, va), 0, w), 64); decDigits(s, v, body, prec > 0 ? prec : zero && !left ? width : 1); break; }
      case 'x': case 'X': case 'p': case 'o': {
        E v = c == 'p' ? nextArg(s, va) : mkZExt(mkExtract(nextArg(s, va), 0, w), 64); unsigned bits = c == 'o' ? 3 : 4; int n = 1; while (n * bits < 64 && !forkBool(s, mkUlt(v, C64(1ull << (n * bits))))) n++;
        if (c == 'p') { body.push_back(mkC('0', 8)); body.push_back(mkC('x', 8)); }
        for (int k = n - 1; k >= 0; k--) { unsigned hi = std::min<unsigned>(64 - k * bits, bits); E d = mkZExt(mkExtract(v, k * bits, hi), 8); body.push_back(mkIte(mkUlt(d, mkC(10, 8)), mkAdd(d, mkC('0', 8)), mkAdd(d, mkC((c == 'X' ? 'A' : 'a') - 10, 8)))); }
        break; }
      case 'f': case 'g': case 'e': case 'F': case 'G': case 'E': { E v = nextArg(s, va); u128 bits = concretize(s, v, "%f"); uint64_t u = (uint64_t)bits; double d; memcpy(&d, &u, 8); char b[512]; std::string fs = f.substr(st, i - st + 1); snprintf(b, sizeof b, fs.c_str(), d); for (char* q = b; *q; q++) out.push_back(mkC((uint8_t)*q, 8)); continue; }
      default: fatal("format %%%c", c);
    }
    if (c != 's' && c != 'c' && prec >= 0) { zero = false; while ((int)body.size() < prec) body.insert(body.begin(), mkC('0', 8)); }
    (void)alt; int len = body.size() + (sign ? 1 : 0), pad = width > len ? width - len : 0;
    if (!left && !zero) for (int k = 0; k < pad; k++) out.push_back(mkC(' ', 8));
    if (sign) out.push_back(sign);
    if (!left && zero) for (int k = 0; k < pad; k++) out.push_back(mkC('0', 8));
    for (E x : body) out.push_back(x);
    if (left) for (int k = 0; k < pad; k++) out.push_back(mkC(' ', 8));
  }
}
static void emitFormat(State& s, KInst& ki, E buf, E size, bool bounded, const std::vector<E>& out) {
  uint64_t lim = bounded ? concLen(s, size) : out.size() + 1; uint64_t b = (uint64_t)concretize(s, buf, "snprintf buffer");
  if (lim) { uint64_t n = std::min<uint64_t>(out.size(), lim - 1); resolve(s, C64(b), n + 1, true, "snprintf write"); for (uint64_t i = 0; i < n; i++) writeMem(s, C64(b + i), out[i], 1, "snprintf write"); writeMem(s, C64(b + n), mkC(0, 8), 1, "snprintf write"); }
  setRet(s, ki, x32(out.size()));
}
static uint64_t errnoLoc(State& s) { Thread& t = s.th[s.cur]; if (!t.errnoAddr) { uint32_t id = newObj(s, 4, OMisc, nullptr); objW(s, id)->st.assign(4, 1); t.errnoAddr = addrOf(id); } return t.errnoAddr; }
static E arg(std::vector<E>& a, size_t i) { return a[i]; }
static bool leakCheckEnd(State& s) {
  for (uint32_t id = 1; id < s.nobj; id++) { Obj* o = objOf(s, id); if (o && o->alive && (o->kind == OHeapNew || o->kind == OHeapNewArr || o->kind == OHeap)) { violation(s, "leak", "never released: " + objDesc(o)); } }
  return true;
}
static void ovf(State& s, KInst& ki, std::vector<E>& a, Kind k, bool sgn) {
  unsigned w = a[0]->w, W = k == KMul ? std::min(128u, 2 * w) : w + 1; E x = sgn ? mkSExt(a[0], W) : mkZExt(a[0], W), y = sgn ? mkSExt(a[1], W) : mkZExt(a[1], W);
  E r = mkBin(k, x, y), lo = mkExtract(r, 0, w), ex = sgn ? mkSExt(lo, W) : mkZExt(lo, W); E o;
  if (k == KSub && !sgn) o = mkUlt(a[0], a[1]); else o = mkNot(mkEq(r, ex));
  setRet(s, ki, mkAgg({lo, o}));
}
static E popcnt(E v) { E r = mkC(0, v->w); for (unsigned i = 0; i < v->w; i++) r = mkAdd(r, mkZExt(mkExtract(v, i, 1), v->w)); return r; }
static E ctlz(E v) { E r = mkC(v->w, v->w); for (unsigned i = 0; i < v->w; i++) r = mkIte(mkExtract(v, i, 1), mkC(v->w - 1 - i, v->w), r); return r; }
static E cttz(E v) { E r = mkC(v->w, v->w); for (int i = v->w - 1; i >= 0; i--) r = mkIte(mkExtract(v, i, 1), mkC(i, v->w), r); return r; }
static void regBuiltins() {
  // --- harness API
  auto inp = [](unsigned w) { return [w](State& s, KInst& ki, std::vector<E>& a) { std::string n = cstr(s, a[0]); setRet(s, ki, newInput(s, n, w)); }; };
  reg("sym_u64", inp(64)); reg("sym_u32", inp(32)); reg("sym_u16", inp(16)); reg("sym_u8", inp(8));
  reg("sym_bool", [](State& s, KInst& ki, std::vector<E>& a) { std::string n = cstr(s, a[0]); setRet(s, ki, mkZExt(newInput(s, n, 1), 32)); });
  reg("sym_bytes", [](State& s, KInst& ki, std::vector<E>& a) { uint64_t n = concLen(s, a[1]); uint64_t p = (uint64_t)concretize(s, a[0], "ptr"); std::string nm = cstr(s, a[2]); if (n) resolve(s, C64(p), n, true, "sym_bytes"); for (uint64_t i = 0; i < n; i++) writeMem(s, C64(p + i), newInput(s, nm, 8), 1); setRet(s, ki, nullptr); });
  reg("sym_eq", [](State& s, KInst& ki, std::vector<E>& a) { uint64_t n = concLen(s, a[2]); E c = eTrue; for (uint64_t i = 0; i < n; i++) { E x = readMem(s, mkAdd(a[0], C64(i)), 1, "comparison"), y = readMem(s, mkAdd(a[1], C64(i)), 1, "comparison"); if (x == y) continue; c = mkAnd(mkEq(x, y), c); } setRet(s, ki, mkZExt(c, 32)); });
  reg("sym_pattern", [](State& s, KInst& ki, std::vector<E>& a) { uint64_t n = concLen(s, a[1]); uint64_t p = (uint64_t)concretize(s, a[0], "ptr"); uint64_t salt = concLen(s, a[2]), text = concLen(s, a[3]); if (n) resolve(s, C64(p), n, true, "sym_pattern");
    for (uint64_t i = 0; i < n; i++) { uint32_t v = (uint32_t)(i * 7 + i / 251 + i / 65536 * 3 + salt); writeMem(s, C64(p + i), mkC(text ? 'a' + v % 26 : v & 255, 8), 1); } setRet(s, ki, nullptr); });
  reg("__lce_skip", [](State& s, KInst& ki, std::vector<E>& a) { // leading bytes that are known and differ from a[1], at most a[2]; the caller reads the next one itself
    uint64_t r = 0; if (isC(a[0]) && isC(a[1]) && isC(a[2]) && !O.races) { uint64_t p = (uint64_t)a[0]->val, mx = (uint64_t)a[2]->val; uint8_t c = (uint8_t)a[1]->val; Obj* o = objOf(s, idOf(p)); if (o && o->alive && p >= o->addr) for (uint64_t k = p - o->addr; k < o->size && r < mx && o->st[k] == 1 && o->b[k] != c; k++) r++; } setRet(s, ki, C64(r)); });
  reg("sym_range", [](State& s, KInst& ki, std::vector<E>& a) { // [lo,hi]
    uint64_t lo = concLen(s, a[0]), hi = concLen(s, a[1]); std::string n = cstr(s, a[2]); unsigned w = 1; while (w < 64 && (hi >> w)) w++;
    E v = newInput(s, n, w, "#" + std::to_string(lo) + "_" + std::to_string(hi)); gVars[v->aux].ranged = true; gVars[v->aux].lo = lo; gVars[v->aux].hi = hi; u128 cv = evalE(v, s.model, newEpoch()); E c = mkAnd(mkUle(mkC(lo, w), v), mkUle(v, mkC(hi, w)));
    if (cv < lo || cv > hi) { if (s.model.size() <= v->aux) s.model.resize(v->aux + 1, 0); s.model[v->aux] = lo; } addPC(s, c); setRet(s, ki, mkZExt(v, 64)); });
  reg("sym_choice", [](State& s, KInst& ki, std::vector<E>& a) { // concretised 0..n-1, forks eagerly
    uint64_t n = concLen(s, a[0]); std::string nm = cstr(s, a[1]); if (n == 0) fatal("sym_choice 0");
    std::string var = nm + "." + std::to_string(s.inputs.size());
    for (uint64_t i = n - 1; i > 0; i--) { State* sib = cloneS(s); sib->inputs.push_back({mkC(i, 32), nm}); sib->depth++; setRet(*sib, ki, x32(i)); sib->th[sib->cur].icount++; pending.push_back(sib); }
    s.inputs.push_back({mkC(0, 32), nm}); setRet(s, ki, x32(0)); });
  reg("sym_assume", [](State& s, KInst& ki, std::vector<E>& a) { E c = mkNot(mkEq(a[0], mkC(0, a[0]->w))); Model m; if (!mayBe(s, c, &m)) { ST.assumeKill++; throw PathEnd(); } s.model = m; addPC(s, c); setRet(s, ki, nullptr); });
  reg("sym_assert", [](State& s, KInst& ki, std::vector<E>& a) { E c = mkNot(mkEq(a[0], mkC(0, a[0]->w))); ST.asserts++; Model m; 
    if (c != eTrue && mayBe(s, mkNot(c), &m)) { std::string n = cstr(s, a[1]); violation(s, "assertion", n, &m); } ST.assertsProved++; std::string n = cstr(s, a[1]); ST.assertLabels[n]++; addPC(s, c); setRet(s, ki, nullptr); });
  reg("sym_fail", [](State& s, KInst& ki, std::vector<E>& a) { std::string n = cstr(s, a[0]); violation(s, "assertion", n); });
  reg("sym_reach", [](State& s, KInst& ki, std::vector<E>& a) { s.reached.insert(cstr(s, a[0])); setRet(s, ki, nullptr); });
  reg("sym_end", [](State& s, KInst& ki, std::vector<E>& a) { pathDone(s); throw PathEnd(); });
  reg("sym_observe", [](State& s, KInst& ki, std::vector<E>& a) { std::string n = cstr(s, a[0]); s.obs.push_back({n, a[1]}); setRet(s, ki, nullptr); });
  reg("sym_concretize", [](State& s, KInst& ki, std::vector<E>& a) { uint64_t v = (uint64_t)concretize(s, a[0], "sym_concretize"); setRet(s, ki, C64(v)); });
  reg("sym_is_symbolic", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, x32(1)); });
  reg("sym_heap_live", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, C64(s.liveHeap)); });
  reg("sym_alloc_bytes", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, C64(s.allocBytes)); });
  reg("sym_join_all", [](State& s, KInst& ki, std::vector<E>& a) { if (aliveThreads(s) > 1) { s.th[s.cur].stat = TAll; return; } for (auto& t : s.th) joinVC(s.th[s.cur].vc, t.vc); setRet(s, ki, nullptr); });
  reg("sym_yield", [](State& s, KInst& ki, std::vector<E>& a) { if (!schedPoint(s)) return; setRet(s, ki, nullptr); });
  reg("sym_note", [](State& s, KInst& ki, std::vector<E>& a) { if (O.verbose) fprintf(stderr, "NOTE %s %s\n", cstr(s, a[0]).c_str(), exprStr(a[1]).c_str()); setRet(s, ki, nullptr); });
  reg("sym_valid", [](State& s, KInst& ki, std::vector<E>& a) { uint64_t n = concLen(s, a[1]); uint64_t p = (uint64_t)concretize(s, a[0], "ptr"); Obj* o = objOf(s, idOf(p)); bool ok = o && o->alive && p >= o->addr && p - o->addr <= o->size && n <= o->size - (p - o->addr); setRet(s, ki, x32(ok)); });
  // --- allocation
  reg("malloc", [](State& s, KInst& ki, std::vector<E>& a) { heapAlloc(s, ki, a[0], OHeap, false); });
  reg("calloc", [](State& s, KInst& ki, std::vector<E>& a) { heapAlloc(s, ki, mkBin(KMul, a[0], a[1]), OHeap, true); });
  reg("free", [](State& s, KInst& ki, std::vector<E>& a) { heapFree(s, ki, a[0], OHeap); });
  reg("realloc", [](State& s, KInst& ki, std::vector<E>& a) {
    uint64_t p = (uint64_t)concretize(s, a[0], "realloc"), n = concLen(s, a[1]); if (n > O.allocLimit) violation(s, "alloc-limit", "realloc of " + std::to_string(n));
    if (p) { Obj* o = objOf(s, idOf(p)); if (!o || !o->alive || o->kind != OHeap || o->addr != p) violation(s, "bad-free", "realloc of " + objDesc(o)); }
    uint32_t id = newObj(s, n, OHeap, ki.I); if (p) { uint64_t c = std::min<uint64_t>(n, objOf(s, idOf(p))->size); copyMem(s, C64(addrOf(id)), C64(p), c); freeObj(s, idOf(p)); } else s.liveHeap++; setRet(s, ki, C64(addrOf(id))); });
  for (auto n : {"_Znwm", "_ZnwmRKSt9nothrow_t"}) reg(n, [](State& s, KInst& ki, std::vector<E>& a) { heapAlloc(s, ki, a[0], OHeapNew, false); });
  for (auto n : {"_Znam", "_ZnamRKSt9nothrow_t"}) reg(n, [](State& s, KInst& ki, std::vector<E>& a) { heapAlloc(s, ki, a[0], OHeapNewArr, false); });
  for (auto n : {"_ZdlPv", "_ZdlPvm", "_ZdlPvRKSt9nothrow_t"}) reg(n, [](State& s, KInst& ki, std::vector<E>& a) { heapFree(s, ki, a[0], OHeapNew); });
  for (auto n : {"_ZdaPv", "_ZdaPvm", "_ZdaPvRKSt9nothrow_t"}) reg(n, [](State& s, KInst& ki, std::vector<E>& a) { heapFree(s, ki, a[0], OHeapNewArr); });
  // --- memory
  auto cpy = [](State& s, KInst& ki, std::vector<E>& a) { uint64_t n = concLen(s, a[2]); copyMem(s, a[0], a[1], n); setRet(s, ki, a[0]); };
  for (auto n : {"memcpy", "memmove", "llvm.memcpy", "llvm.memmove", "llvm.memcpy.inline"}) reg(n, cpy);
  reg("mempcpy", [](State& s, KInst& ki, std::vector<E>& a) { uint64_t n = concLen(s, a[2]); copyMem(s, a[0], a[1], n); setRet(s, ki, mkAdd(a[0], C64(n))); });
  auto mset = [](State& s, KInst& ki, std::vector<E>& a) { uint64_t n = concLen(s, a[2]); if (n) { Ref r = resolve(s, a[0], n, true, "memset"); if (!isC(r.off)) { concretize(s, a[0], "memset"); r = resolve(s, a[0], n, true, "memset"); } if (!isC(r.off)) { uint64_t p = (uint64_t)concretize(s, r.off, "memset"); r.off = C64(p); } if (O.races) raceCheck(s, r.id, (uint64_t)r.off->val, n, true); Obj* o = objW(s, r.id); E b = mkExtract(a[1], 0, 8); for (uint64_t i = 0; i < n; i++) writeByteAt(o, (uint64_t)r.off->val + i, b); } setRet(s, ki, a[0]); };
  for (auto n : {"memset", "llvm.memset", "llvm.memset.inline"}) reg(n, mset);
  reg("bzero", [](State& s, KInst& ki, std::vector<E>& a) { uint64_t n = concLen(s, a[1]); for (uint64_t i = 0; i < n; i++) writeMem(s, mkAdd(a[0], C64(i)), mkC(0, 8), 1); setRet(s, ki, nullptr); });
  for (auto n : {"memcmp", "bcmp"}) reg(n, [](State& s, KInst& ki, std::vector<E>& a) { uint64_t n = concLen(s, a[2]); setRet(s, ki, memcmpE(s, a[0], a[1], n)); });
  // --- formatted output
  reg("snprintf", [](State& s, KInst& ki, std::vector<E>& a) { VaArgs va; va.v.assign(a.begin() + 3, a.end()); std::vector<E> out; doFormat(s, a[2], va, out); emitFormat(s, ki, a[0], a[1], true, out); });
  reg("sprintf", [](State& s, KInst& ki, std::vector<E>& a) { VaArgs va; va.v.assign(a.begin() + 2, a.end()); std::vector<E> out; doFormat(s, a[1], va, out); emitFormat(s, ki, a[0], nullptr, false, out); });
  reg("vsnprintf", [](State& s, KInst& ki, std::vector<E>& a) { VaArgs va; va.ap = (uint64_t)concretize(s, a[3], "va"); std::vector<E> out; doFormat(s, a[2], va, out); emitFormat(s, ki, a[0], a[1], true, out); });
  reg("vsprintf", [](State& s, KInst& ki, std::vector<E>& a) { VaArgs va; va.ap = (uint64_t)concretize(s, a[2], "va"); std::vector<E> out; doFormat(s, a[1], va, out); emitFormat(s, ki, a[0], nullptr, false, out); });
  for (auto n : {"printf", "puts", "putchar", "fflush", "perror"}) reg(n, [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, x32(0)); });
  reg("llvm.va_start", [](State& s, KInst& ki, std::vector<E>& a) {
    Frame& f = top(s); uint32_t id = newObj(s, 8 * f.va.size() + 8, OStack, nullptr); f.allocas.push_back(id); Obj* o = objW(s, id); std::vector<E> va = f.va; for (size_t i = 0; i < va.size(); i++) { E v = mkZExt(va[i], 64); for (int k = 0; k < 8; k++) writeByteAt(o, 8 * i + k, mkExtract(v, 8 * k, 8)); }
    writeMem(s, a[0], x32(48), 4); writeMem(s, mkAdd(a[0], C64(4)), x32(176), 4); writeMem(s, mkAdd(a[0], C64(8)), C64(addrOf(id)), 8); writeMem(s, mkAdd(a[0], C64(16)), C64(0), 8); setRet(s, ki, nullptr); });
  reg("llvm.va_end", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, nullptr); });
  reg("llvm.va_copy", [](State& s, KInst& ki, std::vector<E>& a) { copyMem(s, a[0], a[1], 24); setRet(s, ki, nullptr); });
  // --- intrinsics
  auto mm = [](Kind k, bool takeFirst) { return [k, takeFirst](State& s, KInst& ki, std::vector<E>& a) { E c = mkBin(k, a[0], a[1]); setRet(s, ki, takeFirst ? mkIte(c, a[0], a[1]) : mkIte(c, a[1], a[0])); }; };
  reg("llvm.umin", mm(KUlt, true)); reg("llvm.umax", mm(KUlt, false)); reg("llvm.smin", mm(KSlt, true)); reg("llvm.smax", mm(KSlt, false));
  reg("llvm.abs", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, mkIte(mkBin(KSlt, a[0], mkC(0, a[0]->w)), mkSub(mkC(0, a[0]->w), a[0]), a[0])); });
  reg("llvm.bswap", [](State& s, KInst& ki, std::vector<E>& a) { unsigned n = a[0]->w / 8; E r = mkExtract(a[0], 0, 8); for (unsigned i = 1; i < n; i++) r = mkConcat(r, mkExtract(a[0], 8 * i, 8)); setRet(s, ki, r); });
  reg("llvm.ctpop", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, popcnt(a[0])); });
  reg("llvm.ctlz", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, ctlz(a[0])); });
  reg("llvm.cttz", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, cttz(a[0])); });
  auto fsh = [](bool left) { return [left](State& s, KInst& ki, std::vector<E>& a) { unsigned w = a[0]->w; if (2 * w > 128) fatal("fshl width"); E c = mkConcat(a[0], a[1]); E sh = mkZExt(mkBin(KURem, a[2], mkC(w, w)), 2 * w); E r = left ? mkExtract(mkBin(KShl, c, sh), w, w) : mkExtract(mkBin(KLShr, c, sh), 0, w); setRet(s, ki, r); }; };
  reg("llvm.fshl", fsh(true)); reg("llvm.fshr", fsh(false));
  reg("llvm.uadd.with.overflow", [](State& s, KInst& ki, std::vector<E>& a) { ovf(s, ki, a, KAdd, false); }); reg("llvm.sadd.with.overflow", [](State& s, KInst& ki, std::vector<E>& a) { ovf(s, ki, a, KAdd, true); });
  reg("llvm.usub.with.overflow", [](State& s, KInst& ki, std::vector<E>& a) { ovf(s, ki, a, KSub, false); }); reg("llvm.ssub.with.overflow", [](State& s, KInst& ki, std::vector<E>& a) { ovf(s, ki, a, KSub, true); });
  reg("llvm.umul.with.overflow", [](State& s, KInst& ki, std::vector<E>& a) { ovf(s, ki, a, KMul, false); }); reg("llvm.smul.with.overflow", [](State& s, KInst& ki, std::vector<E>& a) { ovf(s, ki, a, KMul, true); });
  reg("llvm.usub.sat", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, mkIte(mkUlt(a[0], a[1]), mkC(0, a[0]->w), mkSub(a[0], a[1]))); });
  reg("llvm.uadd.sat", [](State& s, KInst& ki, std::vector<E>& a) { E r = mkAdd(a[0], a[1]); setRet(s, ki, mkIte(mkUlt(r, a[0]), mkC(maskw(r->w), r->w), r)); });
  reg("atof", [](State& s, KInst& ki, std::vector<E>& a) { // concrete text: the real value; symbolic text: any value
    uint64_t p = (uint64_t)concretize(s, a[0], "atof"); std::string t; for (int i = 0; i < 64; i++) { E c = readMem(s, C64(p + i), 1); if (!isC(c)) { setRet(s, ki, mkVar("atof." + std::to_string(s.uninitCtr++), 64)); return; } if (c->val == 0) break; t += (char)c->val; }
    double d = strtod(t.c_str(), nullptr); uint64_t b; memcpy(&b, &d, 8); setRet(s, ki, C64(b)); });
  reg("llvm.threadlocal.address", [](State& s, KInst& ki, std::vector<E>& a) { // main thread: the global itself; others: a fresh copy of its initial value
    if (s.cur == 0) { setRet(s, ki, a[0]); return; } uint64_t g = (uint64_t)a[0]->val; uint64_t& at = s.th[s.cur].tls[g];
    if (!at) { auto* G = cast<GlobalVariable>(objOf(s, idOf(g))->site); uint64_t z = DL->getTypeAllocSize(G->getValueType()); uint32_t id = newObj(s, z, OGlobal, G); objW(s, id)->st.assign(z, 1); if (G->hasInitializer()) initGlobal(s, id, 0, const_cast<Constant*>(G->getInitializer())); at = addrOf(id); }
    setRet(s, ki, C64(at)); });
  reg("llvm.expect", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, a[0]); });
  reg("llvm.objectsize", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, mkC(-1, ki.w)); });
  reg("llvm.is.constant", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, eFalse); });
  reg("llvm.stacksave", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, C64(0)); }); reg("llvm.stackrestore", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, nullptr); });
  reg("llvm.eh.typeid.for", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, x32(a[0]->val ? tiId((uint64_t)a[0]->val) : 0x7ffffff0)); });
  reg("llvm.fabs", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, mkAnd(a[0], mkC(maskw(a[0]->w) >> 1, a[0]->w))); });
  auto fmath = [](double (*f)(double)) { return [f](State& s, KInst& ki, std::vector<E>& a) { uint64_t u = (uint64_t)concretize(s, a[0], "fp"); double d; memcpy(&d, &u, 8); d = f(d); memcpy(&u, &d, 8); setRet(s, ki, C64(u)); }; };
  reg("llvm.floor", fmath([](double d) { return std::floor(d); })); reg("floor", fmath([](double d) { return std::floor(d); })); reg("llvm.ceil", fmath([](double d) { return std::ceil(d); })); reg("ceil", fmath([](double d) { return std::ceil(d); })); reg("ceilf", [](State& s, KInst& ki, std::vector<E>& a) { uint32_t u = (uint32_t)concretize(s, a[0], "fp"); float d; memcpy(&d, &u, 4); d = std::ceil(d); memcpy(&u, &d, 4); setRet(s, ki, x32(u)); });
  reg("llvm.fmuladd", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, mkF(KFAdd, mkF(KFMul, a[0], a[1], a[0]->w), a[2], a[0]->w)); });
  reg("llvm.trap", [](State& s, KInst& ki, std::vector<E>& a) { violation(s, "trap", "trap"); });
  for (auto n : {"abort", "_ZSt9terminatev", "__cxa_pure_virtual", "__cxa_call_unexpected", "__stack_chk_fail", "__assert_fail"}) { std::string nm = n; reg(n, [nm](State& s, KInst& ki, std::vector<E>& a) { violation(s, "abort", nm + " called"); }); }
  for (auto n : {"exit", "_exit"}) reg(n, [](State& s, KInst& ki, std::vector<E>& a) { violation(s, "exit", "the code under test terminates the process"); });
  reg("__errno_location", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, C64(errnoLoc(s))); });
  for (auto n : {"_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev"}) reg(n, [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, nullptr); });
  for (auto n : {"__cxa_atexit", "atexit", "__cxa_thread_atexit"}) reg(n, [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, x32(0)); });
  reg("__cxa_guard_acquire", [](State& s, KInst& ki, std::vector<E>& a) { E b = readMem(s, a[0], 1); bool done = isC(b) && b->val; setRet(s, ki, x32(done ? 0 : 1)); });
  reg("__cxa_guard_release", [](State& s, KInst& ki, std::vector<E>& a) { writeMem(s, a[0], mkC(1, 8), 1); setRet(s, ki, nullptr); });
  reg("__cxa_guard_abort", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, nullptr); });
  reg("__inline_asm", [](State& s, KInst& ki, std::vector<E>& a) { auto* cb = cast<CallBase>(ki.I); auto* ia = cast<InlineAsm>(cb->getCalledOperand()); std::string t = ia->getAsmString(); if (t.empty()) { setRet(s, ki, ki.dest >= 0 ? a[0] : nullptr); return; }
    if (t.find("bswap") != std::string::npos && a.size() == 1) { unsigned n = a[0]->w / 8; E r = mkExtract(a[0], 0, 8); for (unsigned i = 1; i < n; i++) r = mkConcat(r, mkExtract(a[0], 8 * i, 8)); setRet(s, ki, r); return; } if (t.find("cpuid") == std::string::npos && t.find("pause") != std::string::npos) { setRet(s, ki, nullptr); return; } fatal("inline asm '%s'", t.c_str()); });
  // --- exceptions
  reg("__cxa_allocate_exception", [](State& s, KInst& ki, std::vector<E>& a) { uint64_t n = concLen(s, a[0]); uint32_t id = newObj(s, std::max<uint64_t>(n, 8), OMisc, ki.I); objW(s, id)->st.assign(objW(s, id)->size, 1); setRet(s, ki, C64(addrOf(id))); });
  reg("__cxa_free_exception", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, nullptr); });
  reg("__cxa_throw", [](State& s, KInst& ki, std::vector<E>& a) { uint64_t e = (uint64_t)concretize(s, a[0], "exc"), t = (uint64_t)concretize(s, a[1], "ti"); s.excType[e] = t; s.excRef[e] = 1; unwind(s, e); });
  reg("__cxa_begin_catch", [](State& s, KInst& ki, std::vector<E>& a) { uint64_t e = (uint64_t)concretize(s, a[0], "exc"); s.th[s.cur].caught.push_back(e); setRet(s, ki, C64(e)); });
  reg("__cxa_get_exception_ptr", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, a[0]); });
  reg("__cxa_end_catch", [](State& s, KInst& ki, std::vector<E>& a) { auto& c = s.th[s.cur].caught; if (!c.empty()) c.pop_back(); setRet(s, ki, nullptr); });
  reg("__cxa_rethrow", [](State& s, KInst& ki, std::vector<E>& a) { auto& c = s.th[s.cur].caught; if (c.empty()) violation(s, "abort", "rethrow without exception"); uint64_t e = c.back(); c.pop_back(); unwind(s, e); });
  for (auto n : {"runtime_error", "logic_error", "out_of_range", "length_error", "invalid_argument", "range_error", "overflow_error", "domain_error"}) {
    std::string c = std::string("_ZNSt") + std::to_string(strlen(n)) + n; auto nop = [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, nullptr); };
    for (auto k : {"D0", "D1", "D2"}) reg(c + k + "Ev", nop);
  }
  for (auto n : {"_ZNSt9exceptionD2Ev", "_ZNSt9exceptionD1Ev", "_ZNSt9exceptionD0Ev", "_ZNSt9bad_allocD1Ev"}) reg(n, [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, nullptr); });
  for (auto n : {"_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv"}) reg(n, [](State& s, KInst& ki, std::vector<E>& a) { throwStd(s, "_ZTISt9bad_alloc"); });
  reg("__cxa_throw_bad_array_new_length", [](State& s, KInst& ki, std::vector<E>& a) { throwStd(s, "_ZTISt9bad_alloc"); });
  reg("__dynamic_cast", [](State& s, KInst& ki, std::vector<E>& a) {
    uint64_t p = (uint64_t)concretize(s, a[0], "object"); resolve(s, C64(p), 8, false, "dynamic_cast"); uint64_t vp = (uint64_t)concretize(s, readMem(s, C64(p), 8), "vptr"); resolve(s, C64(vp - 16), 16, false, "dynamic_cast");
    int64_t off = (int64_t)concretize(s, readMem(s, C64(vp - 16), 8), "offset"); std::string full = tiName(s, (uint64_t)concretize(s, readMem(s, C64(vp - 8), 8), "type")), want = tiName(s, (uint64_t)concretize(s, a[2], "type"));
    std::function<int64_t(const std::string&)> find = [&](const std::string& n) -> int64_t { if (n == want) return 0; GlobalVariable* g = M->getGlobalVariable(n, true); if (!g || !g->hasInitializer()) return -1; auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return -1;
      auto base = [&](unsigned i) { auto* b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts()); return b ? b->getName().str() : std::string(); };
      if (cs->getNumOperands() == 3) return find(base(2));
      for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) { auto* f = dyn_cast<ConstantInt>(cs->getOperand(i + 1)); if (!f || (f->getSExtValue() & 1)) fatal("dynamic_cast through a virtual base"); int64_t r = find(base(i)); if (r >= 0) return r + (f->getSExtValue() >> 8); } return -1; };
    int64_t r = find(full); setRet(s, ki, C64(r < 0 ? 0 : p + off + r)); });
  // --- threads
  auto ret0 = [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, x32(0)); };
  reg("pthread_create", [](State& s, KInst& ki, std::vector<E>& a) {
    uint64_t fn = (uint64_t)concretize(s, a[2], "thread fn"); auto it = fnAt.find(fn); if (it == fnAt.end()) violation(s, "bad-call", "pthread_create with invalid function"); int t = s.th.size(); if (t >= 6) fatal("too many threads");
    resolve(s, a[0], 8, true, "pthread_create");
    if (auto* g = M->getGlobalVariable("lce_thread_fault", true)) { // the harness lets the n-th creation fail: the handle is left with a value nobody may use
      uint64_t n = (uint64_t)concretize(s, readMem(s, C64(gaddr[g]), 4), "fault"); if (n) writeMem(s, C64(gaddr[g]), x32((uint32_t)n - 1), 4); if (n == 1) { writeMem(s, a[0], C64(0xdead0000), 8); setRet(s, ki, x32(EAGAIN)); return; } }
    writeMem(s, a[0], C64(t + 1), 8); Thread n; n.vc = s.th[s.cur].vc; n.vc.resize(std::max<size_t>(n.vc.size(), t + 1), 1); n.vc[t] = 1; n.started = true; s.th.push_back(n); auto& me = s.th[s.cur].vc; if (me.size() <= (size_t)s.cur) me.resize(s.cur + 1, 1); me[s.cur]++;
    int c = s.cur; s.cur = t; pushFrame(s, it->second, {a[3]}, nullptr); s.cur = c; setRet(s, ki, x32(0)); });
  auto tidOk = [](State& s, E e, const char* what) -> uint64_t { uint64_t t = (uint64_t)concretize(s, e, "tid") - 1; std::string w(what);
    if (t >= s.th.size()) violation(s, "bad-thread", w + " of a thread that was never started"); Thread& x = s.th[t]; if (x.joined) violation(s, "bad-thread", w + " of a thread that was joined before");
    if (x.detached && x.stat == TDone) violation(s, "bad-thread", w + " of a detached thread that has ended"); return t; };
  reg("pthread_join", [tidOk](State& s, KInst& ki, std::vector<E>& a) { if (!schedPoint(s)) return; uint64_t t = tidOk(s, a[0], "join"); if (s.th[t].detached) { setRet(s, ki, x32(EINVAL)); return; }
    if (s.th[t].stat != TDone) { s.th[s.cur].stat = TJoin; s.th[s.cur].wait = t; return; } s.th[t].joined = true; joinVC(s.th[s.cur].vc, s.th[t].vc); uint64_t p = (uint64_t)concretize(s, a[1], "retp"); if (p) writeMem(s, C64(p), s.th[t].ret ? s.th[t].ret : C64(0), 8); setRet(s, ki, x32(0)); });
  reg("pthread_detach", [tidOk](State& s, KInst& ki, std::vector<E>& a) { uint64_t t = tidOk(s, a[0], "detach"); if (s.th[t].detached) { setRet(s, ki, x32(EINVAL)); return; } s.th[t].detached = true; setRet(s, ki, x32(0)); });
  for (auto n : {"pthread_sigmask", "pthread_attr_init", "pthread_attr_destroy", "pthread_attr_setdetachstate", "pthread_setcancelstate", "pthread_setcanceltype", "pthread_condattr_destroy", "sigemptyset", "sigaddset", "pthread_mutexattr_destroy", "pthread_spin_destroy", "pthread_rwlock_destroy", "sched_yield"}) reg(n, ret0);
  reg("pthread_self", [](State& s, KInst& ki, std::vector<E>& a) { setRet(s, ki, C64(s.cur + 1)); });
  reg("pthread_mutexattr_init", [](State& s, KInst& ki, std::vector<E>& a) { writeMem(s, a[0], x32(0), 4); setRet(s, ki, x32(0)); });
  reg("pthread_mutexattr_settype", [](State& s, KInst& ki, std::vector<E>& a) { writeMem(s, a[0], a[1], 4); setRet(s, ki, x32(0)); });
  for (auto n : {"pthread_mutex_init", "pthread_spin_init", "pthread_rwlock_init"}) { bool mtx = std::string(n) == "pthread_mutex_init"; reg(n, [mtx](State& s, KInst& ki, std::vector<E>& a) { uint64_t m = (uint64_t)concretize(s, a[0], "mutex"); resolve(s, C64(m), 4, true, "lock init"); Mutex x; x.inited = true; if (mtx) { uint64_t at = (uint64_t)concretize(s, a[1], "attr"); if (at) x.type = (int)(uint64_t)concretize(s, readMem(s, C64(at), 4), "type"); } s.mx[m] = x; setRet(s, ki, x32(0)); }); }
  reg("pthread_mutex_destroy", [](State& s, KInst& ki, std::vector<E>& a) { uint64_t m = (uint64_t)concretize(s, a[0], "mutex"); auto& x = s.mx[m]; if (x.owner >= 0) { setRet(s, ki, x32(EBUSY)); return; } s.mx.erase(m); setRet(s, ki, x32(0)); });
  auto lock = [](State& s, KInst& ki, std::vector<E>& a) {
    uint64_t m = (uint64_t)concretize(s, a[0], "mutex"); resolve(s, C64(m), 4, false, "lock"); if (!schedPoint(s)) return; auto& x = s.mx[m];
    if (x.owner == s.cur && x.type == 1) { x.count++; setRet(s, ki, x32(0)); return; }
    if (x.owner == s.cur && x.type == 2) { setRet(s, ki, x32(EDEADLK)); return; }
    if (x.owner >= 0 || x.readers) { if (s.th.size() == 1) violation(s, "deadlock", "lock acquired twice by the only thread"); s.th[s.cur].stat = TMutex; s.th[s.cur].wait = m; return; }
    x.owner = s.cur; x.count = 1; vcAcquire(s, m); setRet(s, ki, x32(0)); };
  for (auto n : {"pthread_mutex_lock", "pthread_spin_lock"}) reg(n, lock);
  reg("pthread_rwlock_wrlock", lock);
  reg("pthread_rwlock_rdlock", [](State& s, KInst& ki, std::vector<E>& a) { uint64_t m = (uint64_t)concretize(s, a[0], "rwlock"); if (!schedPoint(s)) return; auto& x = s.mx[m]; if (x.owner >= 0) { if (s.th.size() == 1) violation(s, "deadlock", "rwlock"); s.th[s.cur].stat = TRw; s.th[s.cur].wait = m; s.th[s.cur].phase = 1; return; } x.readers++; s.th[s.cur].phase = 0; vcAcquire(s, m); setRet(s, ki, x32(0)); });
  for (auto n : {"pthread_mutex_trylock", "pthread_spin_trylock", "pthread_rwlock_trywrlock"}) reg(n, [](State& s, KInst& ki, std::vector<E>& a) { uint64_t m = (uint64_t)concretize(s, a[0], "mutex"); if (!schedPoint(s)) return; auto& x = s.mx[m]; if (x.owner == s.cur && x.type == 1) { x.count++; setRet(s, ki, x32(0)); return; } if (x.owner >= 0 || x.readers) { setRet(s, ki, x32(EBUSY)); return; } x.owner = s.cur; x.count = 1; vcAcquire(s, m); setRet(s, ki, x32(0)); });
  reg("pthread_rwlock_tryrdlock", [](State& s, KInst& ki, std::vector<E>& a) { uint64_t m = (uint64_t)concretize(s, a[0], "mutex"); if (!schedPoint(s)) return; auto& x = s.mx[m]; if (x.owner >= 0) { setRet(s, ki, x32(EBUSY)); return; } x.readers++; vcAcquire(s, m); setRet(s, ki, x32(0)); });
  for (auto n : {"pthread_mutex_unlock", "pthread_spin_unlock", "pthread_rwlock_unlock"}) reg(n, [](State& s, KInst& ki, std::vector<E>& a) {
    uint64_t m = (uint64_t)concretize(s, a[0], "mutex"); resolve(s, C64(m), 4, false, "unlock"); auto& x = s.mx[m]; if (x.readers > 0 && x.owner < 0) { vcRelease(s, m); x.readers--; setRet(s, ki, x32(0)); return; }
    if (x.owner != s.cur) violation(s, "bad-unlock", "unlock of a lock the thread does not hold"); if (--x.count == 0) { x.owner = -1; vcRelease(s, m); } setRet(s, ki, x32(0)); });
  reg("pthread_cond_init", [](State& s, KInst& ki, std::vector<E>& a) { resolve(s, a[0], 4, true, "cond init"); uint64_t at = (uint64_t)concretize(s, a[1], "attr"); s.condClock[(uint64_t)concretize(s, a[0], "cond")] = at ? (int)(uint64_t)concretize(s, readMem(s, C64(at), 4), "clock") : 0; setRet(s, ki, x32(0)); }); reg("pthread_cond_destroy", ret0);
  reg("pthread_condattr_init", [](State& s, KInst& ki, std::vector<E>& a) { writeMem(s, a[0], x32(0), 4); setRet(s, ki, x32(0)); });
  reg("pthread_condattr_setclock", [](State& s, KInst& ki, std::vector<E>& a) { writeMem(s, a[0], a[1], 4); setRet(s, ki, x32(0)); });
  auto cancelNow = [](State& s) { Thread& t = s.th[s.cur]; if (!t.cancelReq) return false; t.cancelReq = false; t.phase = 0; t.timed = false; unwind(s, FORCED); return true; };
  for (auto n : {"usleep", "sleep", "nanosleep"}) reg(n, [cancelNow](State& s, KInst& ki, std::vector<E>& a) {
    Thread& t = s.th[s.cur]; if (s.th.size() == 1) { setRet(s, ki, x32(0)); return; } if (cancelNow(s)) return; if (t.phase == 0) { t.phase = 5; t.stat = TSleep; return; } t.phase = 0; setRet(s, ki, x32(0)); });
  reg("pthread_testcancel", [cancelNow](State& s, KInst& ki, std::vector<E>& a) { if (cancelNow(s)) return; setRet(s, ki, nullptr); });
  reg("pthread_exit", [](State& s, KInst& ki, std::vector<E>& a) { unwind(s, FORCED); });
  auto cwait = [cancelNow](bool timed) { return [timed, cancelNow](State& s, KInst& ki, std::vector<E>& a) {
    uint64_t c = (uint64_t)concretize(s, a[0], "cond"), m = (uint64_t)concretize(s, a[1], "mutex"); if (!schedPoint(s)) return; Thread& t = s.th[s.cur]; auto& x = s.mx[m];
    if (t.phase == 0) { if (x.owner != s.cur) violation(s, "bad-unlock", "condition wait without holding the mutex"); if (cancelNow(s)) return; if (timed) { E ns = readMem(s, mkAdd(a[2], C64(8)), 8);
     bool inval = forkBool(s, mkUle(C64(1000000000), ns));
      if (auto* g = M->getGlobalVariable("lce_deadline", true)) { uint64_t d = gaddr[g]; writeMem(s, C64(d), C64(++s.nDeadline), 8); writeMem(s, C64(d + 8), C64(s.condClock.count(c) ? s.condClock[c] : 0), 8); writeMem(s, C64(d + 16), readMem(s, a[2], 8), 8); writeMem(s, C64(d + 24), ns, 8); }
      if (inval) { setRet(s, ki, x32(EINVAL)); return; } } x.owner = -1; x.count = 0; vcRelease(s, m); t.stat = TCond; t.wait = c; t.wait2 = m; t.timed = timed; t.phase = timed ? 1 : 1; 
      if (s.th.size() == 1) { if (!timed) violation(s, "deadlock", "condition wait with no other thread"); t.stat = TRun; t.phase = 3; x.owner = s.cur; x.count = 1; t.phase = 0; setRet(s, ki, x32(ETIMEDOUT)); } return; }
    // phase 2: signalled, 3: timed out
    if (x.owner >= 0) { t.stat = TMutex; t.wait = m; return; } x.owner = s.cur; x.count = 1; vcAcquire(s, m); int ph = t.phase; if (ph == 4) { cancelNow(s); return; } t.phase = 0; t.timed = false; setRet(s, ki, x32(ph == 3 ? ETIMEDOUT : 0)); }; };
  reg("pthread_cond_wait", cwait(false)); reg("pthread_cond_timedwait", cwait(true));
  auto csig = [](bool all) { return [all](State& s, KInst& ki, std::vector<E>& a) {
    uint64_t c = (uint64_t)concretize(s, a[0], "cond"); resolve(s, C64(c), 4, false, "signal"); if (!schedPoint(s)) return; std::vector<int> w; for (int t = 0; t < (int)s.th.size(); t++) if (s.th[t].stat == TCond && s.th[t].wait == c) w.push_back(t);
    auto wake = [](State& x, int t) { x.th[t].stat = TMutex; x.th[t].wait = x.th[t].wait2; x.th[t].phase = 2; x.th[t].timed = false; };
    if (all) { for (int t : w) wake(s, t); setRet(s, ki, x32(0)); return; }
    for (size_t i = 1; i < w.size(); i++) { State* sib = cloneS(s); sib->inputs.push_back({mkC(w[i], 8), "wake"}); wake(*sib, w[i]); setRet(*sib, ki, x32(0)); sib->th[sib->cur].icount++; sib->depth++; pending.push_back(sib); }
    if (!w.empty()) { s.inputs.push_back({mkC(w[0], 8), "wake"}); wake(s, w[0]); } setRet(s, ki, x32(0)); }; };
  reg("pthread_cond_signal", csig(false)); reg("pthread_cond_broadcast", csig(true));
  reg("pthread_cancel", [tidOk](State& s, KInst& ki, std::vector<E>& a) { // deferred cancellation: only a thread blocked at a cancellation point is unwound
    if (!schedPoint(s)) return; uint64_t t = tidOk(s, a[0], "cancel"); if (s.th[t].stat == TDone) { setRet(s, ki, x32(ESRCH)); return; } s.th[t].cancelReq = true; setRet(s, ki, x32(0)); });
}
