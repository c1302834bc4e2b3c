// C01-C06, C11: CAnyValue trees, binary and JSON coding, value semantics, packages
#include "hcommon.h"
#include "CAnyValue.h"
#include "CAnyPackage.h"
typedef lce::CAnyValue AV;
enum K { NUL, BOO, INT, FLT, STR, VEC, MAP };
struct M { int k; uint64_t i; bool neg; std::string s; std::vector<M> v; std::vector<std::string> n; M() : k(NUL), i(0), neg(false) {} }; // model; MAP: names n (ascending), members v
static double dbl(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static uint64_t dbits(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static AV build(const M& m) {
  switch (m.k) {
    case NUL: return AV(); case BOO: return AV((bool)m.i); case INT: return m.neg ? AV((long long)m.i) : AV((unsigned long long)m.i); case FLT: return AV(dbl(m.i)); case STR: return AV(m.s);
    case VEC: { AV a; if (m.v.empty()) { a.push_back(AV(1)); a.pop_back(); } for (size_t i = 0; i < m.v.size(); i++) a.push_back(build(m.v[i])); return a; }
    default: { AV a; if (m.v.empty()) { a["x"] = 1; a.erase("x"); } for (size_t i = 0; i < m.v.size(); i++) a[m.n[i]] = build(m.v[i]); return a; }
  }
}
static void same(AV& a, const M& m, const char* what) {
  switch (m.k) {
    case NUL: CHECK(a.isNull(), what); return;
    case BOO: { bool t = a.isBool(); CHECK(t, what); if (t) CHECK(a.asBool() == (m.i != 0), what); return; }
    case INT: { bool t = m.neg ? a.isInt() : (a.isUInt() || (a.isInt() && (int64_t)m.i >= 0)); CHECK(t, what); if (t) CHECK((uint64_t)(unsigned long long)a == m.i, what); return; }
    case FLT: { bool t = a.isFloat(); CHECK(t, what); if (t) CHECK(dbits((double)a) == m.i, what); return; }
    case STR: { bool t = a.isString(); CHECK(t, what); if (t) CHECK(str_eq(a.asString(), m.s), what); return; }
    case VEC: { bool t = a.isArray() && a.size() == m.v.size(); CHECK(t, what); if (t) for (size_t i = 0; i < m.v.size(); i++) same(a[(int)i], m.v[i], what); return; }
    default: { bool t = a.isObject() && a.size() == m.v.size(); CHECK(t, what); if (!t) return; std::vector<std::string> k = a.keys(); CHECK(k.size() == m.n.size(), what); if (k.size() != m.n.size()) return;
      for (size_t i = 0; i < k.size(); i++) { bool e = str_eq(k[i], m.n[i]); CHECK(e, what); if (e) same(a[k[i]], m.v[i], what); } return; }
  }
}
static M leaf(int kinds, int sl) {
  M m; m.k = sym_choice(kinds, "kind");
  if (m.k == BOO) m.i = sym_bool("b"); else if (m.k == INT) { m.neg = sym_bool("neg"); m.i = sym_u64("i"); if (m.neg) sym_assume((int64_t)m.i < 0); } else if (m.k == FLT) m.i = sym_u64("d"); else if (m.k == STR) m.s = sym_string(sym_choice(sl + 1, "len"), "s");
  return m;
}
static M gen(int depth, int sl, int w) {
  if (depth == 0) return leaf(5, sl);
  int c = sym_choice(3, "shape"); if (c == 0) return leaf(5, sl);
  M m; m.k = c == 1 ? VEC : MAP; int n = sym_choice(w + 1, "count");
  for (int i = 0; i < n; i++) { if (c == 2) { std::string k; if (i == 0) k = sym_string(sym_choice(2, "klen"), "k"); else k = m.n[i - 1] + std::string(1, 'z'); m.n.push_back(k); } m.v.push_back(gen(depth - 1, sl, w)); }
  return m;
}
#if HT == 1 // C01: any small tree
void harness() {
  M m = gen(DEPTH, SL, W); AV a = build(m); same(a, m, "the value as built"); std::string e = a.encode(); same(a, m, "encoding leaves the value alone");
  Exact x(e.size()); memcpy(x.p, e.data(), e.size()); AV b; b.decode(x.p, e.size()); same(b, m, "decoding the encoding gives an equal tree");
  AV c; if (sym_bool("reuse")) { c["old"] = 1; c["k"] = "v"; } c.decode((const unsigned char*)x.p, e.size()); same(c, m, "decoding replaces whatever the value held"); std::string pre("pre"); b.encode(pre); CHECK(str_eq(pre, "pre" + e), "the decoded tree encodes to the same bytes, appended"); sym_reach(m.k == MAP ? "map" : m.k == VEC ? "vec" : "leaf");
}
#elif HT == 2 // C01: long strings, keys and arrays
void harness() {
  static const int L[] = {254, 255, 256, 257, 65534, 65535, 65536, 65537}; int w = sym_choice(3, "what");
  if (w == 0) { int n = L[sym_choice(8, "n")]; std::string s(n, 'a'); s[0] = sym_u8("f"); s[n - 1] = sym_u8("l"); s[n / 2] = 0; AV a(s); std::string e = a.encode() + "tail"; AV b; b.decode(e.data(), e.size()); bool t = b.isString() && b.size() == (size_t)n; CHECK(t, "long string keeps its length"); if (t) CHECK(str_eq(b.asString(), s), "long string keeps its content"); sym_reach("str"); }
  else if (w == 1) { int n = 252 + sym_choice(4, "n"); std::string k(n, 'k'); k[0] = sym_u8("f"); k[n - 1] = sym_u8("l"); AV a; a[k] = 7; a.insert(k + "", AV("x")); AV b; std::string e = a.encode(); b.decode(e.data(), e.size()); std::vector<std::string> ks = b.keys(); bool t = ks.size() == 1 && str_eq(ks[0], k); CHECK(t, "long key"); if (t) CHECK(b[k].asString() == "x", "member under a long key"); sym_reach("key"); }
  else { static const int C[] = {127, 128, 255, 256, 300}; int n = C[sym_choice(5, "n")]; AV a; for (int i = 0; i < n; i++) a.push_back(AV(i)); int at = sym_choice(3, "at"); at = at == 0 ? 0 : at == 1 ? n - 1 : n / 2; uint32_t v = sym_u32("v"); a[at] = v; std::string e = a.encode(); AV b; b.decode(e.data(), e.size()); bool t = b.isArray() && b.size() == (size_t)n; CHECK(t, "array keeps its size"); if (t) for (int i = 0; i < n; i++) CHECK((unsigned)b[i] == (i == at ? v : (unsigned)i), "array element"); sym_reach("arr"); }
}
#elif HT == 3 // C02: arbitrary bytes, against an independent reader of the wire format
static bool g_ext; static size_t be(const unsigned char* p, int n) { size_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | p[i]; return v; }
static bool ref(const unsigned char* p, size_t n, size_t& o, M& m) {
  if (o + 1 > n) return false; int t = (int)sym_concretize(p[o] > 17 ? 17 : p[o]); o++; m = M();
  static const int W_[] = {1, 2, 4, 8}; 
  if (t <= 3) { int w = W_[t]; if (o + w > n) return false; m.k = INT; m.i = be(p + o, w); o += w; return true; }
  if (t >= 13 && t <= 16) { int w = W_[t - 13]; if (o + w > n) return false; m.k = INT; uint64_t u = be(p + o, w); int sh = 64 - 8 * w; m.i = (uint64_t)((int64_t)(u << sh) >> sh); m.neg = (int64_t)m.i < 0; o += w; return true; }
  if (t >= 4 && t <= 6) { int w = W_[t - 4]; if (o + w > n) return false; size_t l = be(p + o, w); o += w; if (l > n - o) return false; l = sym_concretize(l); m.k = STR; m.s.assign((const char*)p + o, l); o += l; return true; }
  if (t == 10) { if (o + 8 > n) return false; m.k = FLT; m.i = be(p + o, 8); o += 8; return true; }
  if (t == 11) { if (o + 1 > n) return false; m.k = BOO; m.i = p[o] != 0; o++; return true; }
  if (t == 12) { m.k = NUL; return true; }
  if (t == 9) { g_ext = true; return true; }
  if (t == 7) { if (o + 4 > n) return false; size_t c = be(p + o, 4); o += 4; if (c > n - o) return false; c = sym_concretize(c); m.k = VEC; for (size_t i = 0; i < c; i++) { M x; if (!ref(p, n, o, x)) return false; m.v.push_back(x); } return true; }
  if (t == 8) { if (o + 4 > n) return false; size_t c = be(p + o, 4); o += 4; if (c * 2 > n - o) return false; c = sym_concretize(c); m.k = MAP;
    for (size_t i = 0; i < c; i++) { if (o + 1 > n) return false; size_t l = p[o]; o++; if (l > n - o) return false; l = sym_concretize(l); std::string k((const char*)p + o, l); o += l; M x; if (!ref(p, n, o, x)) return false; size_t at = 0; while (at < m.n.size() && m.n[at] < k) at++; if (at < m.n.size() && m.n[at] == k) m.v[at] = x; else { m.n.insert(m.n.begin() + at, k); m.v.insert(m.v.begin() + at, x); } } return true; }
  return false;
}
#ifndef PL
#define PL 0
#define PFX ""
#endif
void harness() {
  size_t n = LO + sym_choice(N - LO + 1, "n"); Exact x(n); sym_bytes(x.p, n, "data"); for (size_t i = 0; i < PL && i < n; i++) sym_assume(x.p[i] == PFX[i]);
  M m; size_t o = 0; bool want = ref((unsigned char*)x.p, n, o, m), ok = true; AV a; try { a.decode(x.p, n); } catch (std::exception&) { ok = false; }
  if (g_ext) { sym_reach("ext"); return; } // the reserved extension type has no defined content
  CHECK(ok || !want, "a complete encoding is accepted"); CHECK(want || !ok, "a cut-off or unknown encoding is rejected"); if (ok && want) { same(a, m, "the value is what the bytes say"); sym_reach("ok"); } else sym_reach("rejected");
}
#elif HT == 4 // C02, C04: deep nesting, huge counts
void harness() {
  int w = sym_choice(4, "what"), bad = sym_choice(2, "bad"); std::string s; const int D = 60000;
  if (w == 0) for (int i = 0; i < D; i++) s.append("\x07\0\0\0\x01", 5); else if (w == 1) for (int i = 0; i < D; i++) s.append("\x08\0\0\0\x01\0", 6); else if (w == 2) s.assign(D, '['); else for (int i = 0; i < D; i++) s += "{\"\":";
  if (!bad && w < 2) s += '\x0c'; else if (!bad && w == 2) s.append(D, ']'); else if (!bad) { s += '1'; s.append(D, '}'); }
  bool ok = true; try { AV a; if (w < 2) a.decode(s.data(), s.size()); else a.decodeJSON(s.data(), s.size()); } catch (std::exception&) { ok = false; } CHECK(!ok || !bad, "a cut-off nest is rejected"); sym_reach("survived");
  s.clear(); if (w == 0) for (int i = 0; i < 40; i++) s.append("\x07\0\0\0\x01", 5); else if (w == 1) for (int i = 0; i < 40; i++) s.append("\x08\0\0\0\x01\0", 6); else if (w == 2) s.assign(40, '['); else for (int i = 0; i < 40; i++) s += "{\"\":";
  if (w < 2) s += '\x0c'; else if (w == 2) s.append(40, ']'); else { s += '1'; s.append(40, '}'); }
  AV b; ok = true; try { if (w < 2) b.decode(s.data(), s.size()); else b.decodeJSON(s.data(), s.size()); } catch (std::exception&) { ok = false; } CHECK(ok, "moderate nesting is accepted, also after a rejected nest");
}
#elif HT == 5 // C03: JSON of any small tree
static int64_t g_lim;
#ifndef FRAC
#define FRAC 0
#endif
static uint64_t num(int digits, const char* nm) { uint64_t v = 0; for (int i = 0; i < digits; i++) v = v * 10 + sym_range(i == 0 && digits > 1 ? 1 : 0, 9, nm); return v; }
static M jleaf(int sl) {
  static const int DG[] = {1, 2, 10, 18}; M m; m.k = sym_choice(4, "kind"); static const double F[] = {0.5, -2.25, 3, 0, 1e100, 0.1, -1e-7, 123456789.125}; if (m.k == FLT && !FRAC) m.k = STR; if (m.k == FLT) m.i = dbits(F[sym_choice(FRAC, "f")]);
  if (m.k == BOO) m.i = sym_bool("b"); else if (m.k == INT) { m.i = num(DG[sym_choice(DIG, "digits")], "d"); m.neg = sym_choice(2, "neg"); if (m.neg) { sym_assume(m.i != 0); m.i = -m.i; } } else if (m.k == STR) m.s = sym_string(sym_choice(sl + 1, "len"), "s"); return m;
}
static M jgen(int depth, int sl, int w) {
  if (depth == 0) return jleaf(sl); int c = sym_choice(3, "shape"); if (c == 0) return jleaf(sl); M m; m.k = c == 1 ? VEC : MAP; int n = sym_choice(w + 1, "count");
  for (int i = 0; i < n; i++) { if (c == 2) { std::string k; if (i == 0) k = sym_string(sym_choice(2, "klen"), "k"); else k = m.n[i - 1] + std::string(1, 'z'); m.n.push_back(k); } m.v.push_back(jgen(depth - 1, sl, w)); } return m;
}
void harness() {
  M m = jgen(DEPTH, SL, W); AV a = build(m); std::string j = a.encodeJSON(); for (size_t i = 0; i < j.size(); i++) CHECK((unsigned char)j[i] >= 0x20, "no raw control character in the text");
  Exact x(j.size()); memcpy(x.p, j.data(), j.size()); AV b; bool ok = true; if (sym_bool("reuse")) b["old"] = "content"; try { b.decodeJSON(x.p, j.size()); } catch (std::exception&) { ok = false; } CHECK(ok, "the text is accepted"); if (!ok) return; same(b, m, "reading the text gives an equal tree");
  std::string pre("p"); a.encodeJSON(pre); CHECK(str_eq(pre, "p" + j), "same text appended"); sym_reach(m.k == MAP ? "map" : m.k == VEC ? "vec" : "leaf");
}
#elif HT == 6 // C03: integers at the ends of every digit count; 64-bit extremes in every position
void harness() {
  int dg = 1 + sym_choice(20, "digits"); bool neg = sym_choice(2, "neg"); uint64_t v = 0; if (dg < 19) for (int i = 0; i < dg; i++) v = v * 10 + sym_range(i == 0 && dg > 1 ? 1 : 0, 9, "d");
  else { static const uint64_t B[] = {1000000000000000000ull, 9223372036854775806ull, 9223372036854775807ull, 9223372036854775808ull, 9999999999999999999ull, 10000000000000000000ull, 18446744073709551609ull, 18446744073709551615ull}; v = B[sym_choice(neg ? 4 : 8, "big")]; if (dg == 20) sym_end(); }
  if (neg) { if (v == 0) sym_end(); v = 0 - v; } M m; m.k = INT; m.i = v; m.neg = neg; AV a = build(m); int pos = sym_choice(3, "pos"); M t; if (pos == 1) { t.k = VEC; t.v.push_back(m); a = build(t); } else if (pos == 2) { t.k = MAP; t.n.push_back("k"); t.v.push_back(m); a = build(t); } else t = m;
  std::string j = a.encodeJSON(); AV b; b.decodeJSON(j.data(), j.size()); same(b, t, "integer survives"); sym_reach("ok");
}
#elif HT == 7 // C04: arbitrary text
static int closed(const char* p, size_t n) { // -1 not a document, 0 never closed, 1 closed; brackets counted outside strings
  size_t i = 0; while (i < n && (p[i] == ' ' || p[i] == '\t' || p[i] == '\r' || p[i] == '\n')) i++; if (i == n || (p[i] != '[' && p[i] != '{' && p[i] != '"')) return -1; 
  if (p[i] == '"') { for (i++; i < n; i++) { if (p[i] == '\\') i++; else if (p[i] == '"') return 1; } return 0; }
  char last = p[i] == '[' ? ']' : '}'; for (i++; i < n; i++) if (p[i] == last) return 1; return 0;
}
#ifndef PL
#define PL 0
#define PFX ""
#endif
void harness() {
  size_t n = PL + sym_choice(N + 1, "n"); Exact x(n); memcpy(x.p, PFX, PL); sym_bytes(x.p + PL, n - PL, "text"); bool ok = true; AV a; try { a.decodeJSON(x.p, n); } catch (std::exception&) { ok = false; }
  int c = closed(x.p, n); CHECK(!(ok && c == 0), "an unclosed document is rejected"); sym_reach(ok ? "ok" : "rejected"); if (c == 0) sym_reach("unclosed");
}
#elif HT == 8 // C04: every escape
static unsigned hexd(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static void utf8(std::string& o, unsigned u) { if (u < 0x80) o += (char)u; else if (u < 0x800) { o += (char)(0xC0 | u >> 6); o += (char)(0x80 | (u & 63)); } else if (u < 0x10000) { o += (char)(0xE0 | u >> 12); o += (char)(0x80 | (u >> 6 & 63)); o += (char)(0x80 | (u & 63)); } else { o += (char)(0xF0 | u >> 18); o += (char)(0x80 | (u >> 12 & 63)); o += (char)(0x80 | (u >> 6 & 63)); o += (char)(0x80 | (u & 63)); } }
static char hexc(unsigned v, bool up) { return v < 10 ? '0' + v : (up ? 'A' : 'a') + v - 10; }
void harness() {
  std::string t, want; int n = 1 + sym_choice(ESC, "n");
  for (int i = 0; i < n; i++) { int w = sym_choice(4, "w");
    if (w == 0) { char c = sym_u8("c"); sym_assume(c != '"' && c != '\\' && (unsigned char)c >= 0x20); t += c; want += c; }
    else if (w == 1) { int e = sym_choice(8, "esc"); t += '\\'; t += "\"\\/bfnrt"[e]; want += "\"\\/\b\f\n\r\t"[e]; }
    else if (w == 2) { unsigned u = sym_u16("u"); bool up = sym_choice(2, "upper"); sym_assume(u < 0xD800 || u > 0xDFFF); t += "\\u"; for (int k = 12; k >= 0; k -= 4) t += hexc(u >> k & 15, up); utf8(want, u); }
    else { unsigned u = (unsigned)sym_range(0x10000, 0x10FFFF, "sup"), hi = 0xD800 + ((u - 0x10000) >> 10), lo = 0xDC00 + ((u - 0x10000) & 1023); t += "\\u"; for (int k = 12; k >= 0; k -= 4) t += hexc(hi >> k & 15, true); t += "\\u"; for (int k = 12; k >= 0; k -= 4) t += hexc(lo >> k & 15, false); utf8(want, u); sym_reach("pair"); } }
  int pos = sym_choice(POS, "pos"); std::string doc = pos == 0 ? "\"" + t + "\"" : pos == 1 ? "[\"" + t + "\"]" : pos == 2 ? " { \"k\" : \"" + t + "\" }" : "{\"" + t + "\":\"v\"}"; Exact x(doc.size()); memcpy(x.p, doc.data(), doc.size()); AV a; bool ok = true; try { a.decodeJSON(x.p, x.n); } catch (std::exception&) { ok = false; } CHECK(ok, "valid text is accepted"); if (!ok) return;
  if (pos == 3) { std::vector<std::string> k = a.keys(); bool e = k.size() == 1 && str_eq(k[0], want); CHECK(e, "escapes in a key stand for their characters"); if (e) CHECK(a[want].asString() == "v", "member"); } else { AV& s = pos == 0 ? a : pos == 1 ? a[0] : a["k"]; bool e = s.isString(); CHECK(e, "a string"); if (e) CHECK(str_eq(s.asString(), want), "escapes stand for their characters"); } sym_reach("ok");
}
#elif HT == 9 // C04: whitespace, nesting and scalars in valid documents
void harness() {
  static const char* S[] = {"true", "false", "null", "0", "12", "-7", "1.5", "-0.25", "2e3", "1E2", "2.5e-1", "[]", "{}", "\"\""}; static const double F[] = {0, 0, 0, 0, 0, 0, 1.5, -0.25, 2000, 100, 0.25}; static const char WS[] = " \t\r\n";
  int a = sym_choice(14, "a"), b = sym_choice(14, "b"), shape = sym_choice(2, "shape"); std::string w; int nw = sym_choice(2, "nw"); for (int i = 0; i < nw; i++) { unsigned c = sym_choice(4, "ws"); w += WS[c]; } const std::string& u = w;
  std::string d = shape == 0 ? u + "[" + w + S[a] + u + "," + w + S[b] + u + "]" : w + "{" + u + "\"p\"" + w + ":" + u + S[a] + w + "," + u + "\"q\"" + u + ":" + w + S[b] + u + "}" + w;
  Exact x(d.size()); memcpy(x.p, d.data(), d.size()); AV v; bool ok = true; try { v.decodeJSON(x.p, x.n); } catch (std::exception&) { ok = false; } CHECK(ok, "a valid document is accepted"); if (!ok) return; bool sh = (shape == 0 ? v.isArray() : v.isObject()) && v.size() == 2; CHECK(sh, "two elements"); if (!sh) return;
  for (int i = 0; i < 2; i++) { AV& e = shape == 0 ? v[i] : v[i ? "q" : "p"]; int k = i ? b : a; CHECK(k == 0 ? e.isBool() && e.asBool() : k == 1 ? e.isBool() && !e.asBool() : k == 2 ? e.isNull() : k == 3 ? e.isUInt() && e.asUInt() == 0 : k == 4 ? e.isUInt() && e.asUInt() == 12 : k == 5 ? e.isInt() && e.asInt() == -7 : k <= 10 ? e.isFloat() && (double)e == F[k] : k == 11 ? e.isArray() && e.size() == 0 : k == 12 ? e.isObject() && e.size() == 0 : e.isString() && e.size() == 0, "element"); } sym_reach("ok");
}
#elif HT == 33 // C05: one text over another, every pair of lengths
void harness() {
  const int64_t base = sym_heap_live();
  { int la = sym_choice(TL + 1, "la"), lb = sym_choice(TL + 1, "lb"), how = sym_choice(5, "how"); std::string x(la, 'a'), y(lb, 'b'); if (la) x[la / 2] = (char)sym_u8("x"); if (lb) y[lb / 2] = (char)sym_u8("y");
    AV a(x), b(y), c; if (how == 0) a = b; else if (how == 1) { AV d(b); a = d; } else if (how == 2) { c["k"] = a; c["k"] = b; a = c["k"]; } else if (how == 3) { c.push_back(a); c.push_back(b); c[0] = c[1]; a = c[0]; } else { a = y; }
    CHECK(str_eq(a.asString(), y) && str_eq(b.asString(), y), "the text that was assigned"); b = x; CHECK(str_eq(a.asString(), y) && str_eq(b.asString(), x), "independent of its source"); a = b; CHECK(str_eq(a.asString(), x), "and assigned back"); }
  CHECK(sym_heap_live() == base, "all memory is released"); sym_reach("done");
}
#elif HT == 10 // C05: histories of copies, assignments and changes over two values
static M& sub(M& m, int k) { return k < (int)m.v.size() ? m.v[k] : m; }
void harness() {
  const int64_t base = sym_heap_live();
  {
    AV a[2]; M m[2];
    for (int i = 0; i < OPS; i++) {
      int op = sym_choice(11, "op"), t = sym_choice(2, "t"), o = 1 - t; AV& A = a[t]; M& X = m[t];
      if (op == 0) { X = M(); X.k = sym_choice(5, "kind"); if (X.k == BOO) X.i = sym_bool("b"); else if (X.k == INT) { X.i = sym_u32("i"); } else if (X.k == FLT) X.i = 0x3ff8000000000000ull; else if (X.k == STR) X.s = "str"; A = build(X); }
      else if (op == 1) { A = a[o]; X = m[o]; }
      else if (op == 2) { AV c(a[o]); M mc = m[o]; A.clear(); X = M(); same(c, mc, "copy constructed"); A = c; X = mc; }
      else if (op == 3 || op == 4) { if (X.k != VEC && X.k != NUL) continue; X.k = VEC; if (op == 3) { M e; e.k = INT; e.i = 5; A.push_back(AV(5)); X.v.push_back(e); } else { A.push_back(a[o]); X.v.push_back(m[o]); } }
      else if (op == 5 || op == 6) { if (X.k != MAP && X.k != NUL) continue; M e = m[o]; if (op == 5) { e = M(); e.k = STR; e.s = "e"; A["k"] = "e"; } else A.insert("k", a[o]); X.k = MAP; X.v.assign(1, e); X.n.assign(1, "k"); }
      else if (op == 7) { if (X.v.empty()) continue; if (X.k == VEC) A = A[0]; else A = A["k"]; M e = X.v[0]; X = e; sym_reach("child"); } // assign one of its own children
      else if (op == 8) { if (X.v.empty()) continue; AV& c = X.k == VEC ? A[0] : A["k"]; c = a[o]; X.v[0] = m[o]; }
      else if (op == 9) { if (X.v.empty()) continue; if (X.k == VEC) { A.pop_back(); X.v.pop_back(); } else { A.erase("k"); X.v.clear(); X.n.clear(); } sym_reach("emptied"); }
      else { AV& self = A; A = self; }
      same(a[0], m[0], "values hold what was assigned"); same(a[1], m[1], "the other value is not affected");
    }
    sym_reach("done");
  }
  CHECK(sym_heap_live() == base, "all memory is released");
}
#elif HT == 11 // C06: scalar accessors
void harness() {
  int t = sym_choice(13, "type"); AV a; uint64_t u = sym_u64("u"); int64_t s; 
#define CT(k, T) case k: { T x = (T)u; a = AV(x); s = (int64_t)x; CHECK((T)a == x, "reads back through its own type"); break; }
  switch (t) { CT(0, char) CT(1, unsigned char) CT(2, short) CT(3, unsigned short) CT(4, int) CT(5, unsigned int) CT(6, long) CT(7, unsigned long) CT(8, long long) CT(9, unsigned long long)
    case 10: { bool b = u & 1; a = AV(b); s = b; CHECK((bool)a == b && a.asBool() == b, "bool"); break; }
    case 11: { double d = dbl(u); a = AV(d); CHECK(dbits((double)a) == u, "double"); CHECK(a.isFloat() && !a.isUInt() && !a.isString() && (int)a == 0 && a.asInt64() == 0 && a.asString().empty() && a.data() == NULL && a.size() == 0 && !a.asBool(), "not an integer or text"); sym_reach("dbl"); return; }
    default: { std::string x = sym_string(sym_choice(3, "n"), "s"); a = sym_choice(2, "c") ? AV(x) : AV(x.c_str()); std::string w = str_eq(a.asString(), x) ? x : std::string(x.c_str()); CHECK(str_eq(a.asString(), w) && str_eq((std::string)a, w) && a.size() == w.size() && bytes_eq(a.data(), w.data(), w.size()), "string"); CHECK((int)a == 0 && a.asUInt64() == 0 && (double)a == 0.0 && !a.asBool() && !a.isArray(), "not a number"); sym_reach("str"); return; } }
  uint64_t bits = (uint64_t)s; bool un = t == 9 || t == 7; bool neg = !un && s < 0;
  CHECK((long long)a == (long long)bits && (unsigned long long)a == bits && (long)a == (long)bits && (unsigned long)a == bits, "64-bit conversions"); CHECK(a.asInt64() == (int64_t)bits, "asInt64 gives a number that fits it"); CHECK((uint64_t)a.asUInt64() == bits, "asUInt64 gives a number that fits it");
  int i32 = (int)a; unsigned u32 = (unsigned)a; CHECK(i32 == (int)bits && u32 == (unsigned)bits, "32-bit conversions"); CHECK(a.asInt() == (int)bits && (unsigned)a.asUInt() == (unsigned)bits, "asInt/asUInt"); if (bits <= 0xffffffffull) CHECK((uint64_t)a.asUInt() == bits, "asUInt gives a number that fits it");
  CHECK((short)a == (short)bits && (unsigned short)a == (unsigned short)bits && (char)a == (char)bits && (unsigned char)a == (unsigned char)bits && (bool)a == (bits != 0) && a.asBool() == (bits != 0), "narrow conversions");
  if (t != 10) CHECK(a.isInt() == neg && a.isUInt() == !neg, "sign"); else CHECK(a.isBool(), "bool"); CHECK((double)a == 0.0 && a.asString().empty() && a.data() == NULL && a.size() == 0, "not a float or text"); sym_reach("int");
}
#elif HT == 12 // C06: array histories and out-of-range positions
void harness() {
  AV a; std::vector<uint32_t> m; bool ex = false;
  for (int i = 0; i < OPS; i++) { int op = sym_choice(5, "op"); uint32_t v = sym_u32("v"); if (op == 0) { a.push_back(AV(v)); m.push_back(v); ex = true; } else if (op == 1) { a.push_front(AV(v)); m.insert(m.begin(), v); ex = true; } else if (op == 2) { a.pop_back(); if (!m.empty()) m.pop_back(); } else if (op == 3) { a.pop_front(); if (!m.empty()) m.erase(m.begin()); } else if (!m.empty()) { int k = sym_choice(m.size(), "k"); a[k] = v; m[k] = v; }
    CHECK(a.size() == m.size(), "count"); if (a.size() != m.size()) return; for (size_t k = 0; k < m.size(); k++) CHECK(a[(int)k].asUInt() == m[k], "elements"); }
  int k = (int)sym_u32("index"); bool in = k >= 0 && k < (int)m.size(), ok = true, ok2 = true; try { AV& e = a[k]; if (in) CHECK(e.asUInt() == m[k], "element at any valid index"); } catch (std::exception&) { ok = false; } const AV& ca = a; try { ca[k]; } catch (std::exception&) { ok2 = false; } CHECK(ok == in && ok2 == in, "an index outside the array is refused"); sym_reach(in ? "in" : "out");
  if (ex) { bool t = false; try { a["k"]; } catch (std::exception&) { t = true; } CHECK(t, "an array is not an object"); CHECK(AV(ca["k"]).isNull() && !ca.hasKey("k") && ca.keys().empty() && (int)ca == 0, "wrong-type reads give nothing"); }
}
#elif HT == 13 // C06: object histories
void harness() {
  AV a; std::map<std::string, uint32_t> m; std::string key[3]; key[0] = sym_string(1, "k"); key[1] = sym_choice(2, "longer") ? key[0] + sym_string(1, "k") : sym_string(1, "k"); key[2] = "k2"; bool ex = false; const AV& ca = a;
  for (int i = 0; i < OPS; i++) { int op = sym_choice(4, "op"), w = sym_choice(3, "w"); const std::string& k = key[w]; uint32_t v = sym_u32("v"); if (op == 0) { a[k] = AV(v); m[k] = v; ex = true; } else if (op == 1) { a.insert(k, AV(v)); m[k] = v; ex = true; } else if (op == 2) { a.erase(k); m.erase(k); } else { sym_assume(w == 2); if (ex || true) { a["k2"] = v; m[k] = v; ex = true; } }
    CHECK(a.size() == m.size(), "count"); for (int j = 0; j < 3; j++) { bool h = m.count(key[j]); CHECK(ca.hasKey(key[j]) == h, "present exactly when inserted"); const AV& e = ca[key[j]]; if (h) CHECK(e.asUInt() == m[key[j]], "member"); else { CHECK(e.size() == 0 && (int)e == 0 && AV(e).isNull(), "a missing member reads as null"); } } CHECK(ca["k2"].asUInt() == (m.count("k2") ? m["k2"] : 0), "by literal key"); }
  std::vector<std::string> ks = a.keys(); size_t q = 0; bool eq = ks.size() == m.size(); CHECK(eq, "keys"); if (eq) for (std::map<std::string, uint32_t>::iterator it = m.begin(); it != m.end(); ++it) CHECK(str_eq(ks[q++], it->first), "keys");
  if (ex) { bool t = false; try { a[0]; } catch (std::exception&) { t = true; } CHECK(t, "an object is not an array"); t = false; try { a.push_back(AV(1)); } catch (std::exception&) { t = true; } CHECK(t && a.isObject() && a.size() == m.size(), "and stays an object"); sym_reach("obj"); }
}
#elif HT == 30 // C06: names around and beyond the longest one the wire can carry
void harness() {
  int n = 253 + sym_choice(6, "n"); std::string k(n, 'k'); k[0] = 'a' + sym_choice(2, "f"); k[n - 1] = (char)sym_range(1, 255, "l"); uint32_t v = sym_u32("v"); AV a; const AV& ca = a; a["other"] = 5; int w = sym_choice(3, "write"); if (w == 0) a[k] = v; else if (w == 1) a[k.c_str()] = v; else a.insert(k, AV(v));
  int t = sym_choice(3, "through"); if (t) { AV b; std::string e; if (t == 1) { e = a.encode(); b.decode(e.data(), e.size()); } else { sym_assume((unsigned char)k[n - 1] < 0x80); e = a.encodeJSON(); b.decodeJSON(e.data(), e.size()); } a = b; }
  CHECK(a.size() == 2, "two members"); CHECK(ca.hasKey(k), "a stored member is there under its name"); CHECK(ca[k].asUInt() == v && ca[k.c_str()].asUInt() == v, "and reads back"); CHECK(a[k].asUInt() == v && a[k.c_str()].asUInt() == v && a.size() == 2, "also for writing"); sym_reach("long");
  a.erase(k); CHECK(a.size() == 1 && !ca.hasKey(k) && ca.hasKey("other"), "erased under its name"); sym_reach("done");
}
#elif HT == 14 // C11: package round trip
typedef lce::CAnyPackage Pk;
struct HV { uint8_t stx; uint32_t len, sid, cmd, seq, fmt, ip, err, flag; uint16_t ver; uint64_t uid; };
static void chk(lce::AnyHeader& h, HV& v) { CHECK(h.getStx() == v.stx, "stx"); CHECK(h.getLen() == v.len, "len"); CHECK(h.getVersion() == v.ver, "version"); CHECK(h.getServiceId() == v.sid, "service"); CHECK(h.getCmd() == v.cmd, "command"); CHECK(h.getSeq() == v.seq, "sequence"); CHECK(h.getFormat() == v.fmt, "format"); CHECK(h.getUid() == v.uid, "uid"); CHECK(h.getClientIp() == v.ip, "client address"); CHECK(h.getErrno() == v.err, "result"); CHECK(h.getFlag() == v.flag, "flag"); }
void harness() {
  CHECK(sizeof(lce::AnyHeader) == 43, "packed header"); HV v; v.stx = sym_u8("stx"); v.len = sym_u32("len"); v.sid = sym_u32("sid"); v.cmd = sym_u32("cmd"); v.seq = sym_u32("seq"); v.fmt = sym_u32("fmt"); v.ip = sym_u32("ip"); v.err = sym_u32("err"); v.flag = sym_u32("flag"); v.ver = sym_u16("ver"); v.uid = sym_u64("uid");
  lce::AnyHeader h; CHECK(h.getStx() == 2 && h.getUid() == 0, "fresh header"); h.setFlag(v.flag); h.setErrno(v.err); h.setClientIp(v.ip); h.setUid(v.uid); h.setFormat(v.fmt); h.setSeq(v.seq); h.setCmd(v.cmd); h.setServiceId(v.sid); h.setVersion(v.ver); h.setLen(v.len); h.setStx(v.stx); chk(h, v);
  const unsigned char* w = (const unsigned char*)&h; uint64_t u = 0; for (int i = 0; i < 8; i++) u = u << 8 | w[23 + i]; CHECK(u == v.uid, "uid is in network order"); uint32_t q = 0; for (int i = 0; i < 4; i++) q = q << 8 | w[31 + i]; CHECK(q == v.ip, "address is in network order"); q = 0; for (int i = 0; i < 4; i++) q = q << 8 | w[1 + i]; CHECK(q == v.len, "length is in network order"); CHECK((w[5] << 8 | w[6]) == v.ver, "version is in network order");
  Pk p; p.setHead(h); M m; bool json = sym_choice(2, "json"); m.k = MAP; std::string s = sym_string(sym_choice(3, "n"), "s"); uint32_t iv = sym_u32("iv"); p["cmd"] = json ? AV(77) : AV(iv); p.insert("name", AV(s)); int etx = sym_choice(2, "etx"); if (json) p.encodeJSON(); else p.encode(); size_t body = p.getBodySize(); if (etx) p.setEtx(); CHECK(p.size() == 43 + body + etx, "size"); if (etx) CHECK(p.data()[p.size() - 1] == 3, "end mark");
  Exact x(p.size()); memcpy(x.p, p.data(), p.size()); Pk r; r["stale"] = 1; if (json) r.decodeJSON(x.p, x.n); else if (sym_choice(2, "uc")) r.decode(x.p, x.n); else r.decode((const unsigned char*)x.p, x.n); chk(r.head(), v); CHECK(!r.hasKey("stale") && r.getRoot().size() == 2 && r.hasKey("cmd") && r.hasKey("name"), "body members"); CHECK((unsigned)r["cmd"] == (json ? 77u : iv), "number in the body"); CHECK(str_eq(r["name"].asString(), s), "text in the body"); sym_reach("ok");
  r.clear(); CHECK(r.size() == 43 && !r.hasKey("cmd"), "cleared"); chk(r.head(), v); r.setBodyData("abc", 3); CHECK(r.getBodySize() == 3 && bytes_eq(r.getBodyData(), "abc", 3), "raw body"); chk(r.head(), v); r.getRoot() = p.getRoot(); r.setRoot(r.getRoot()["cmd"]); r.encode(); chk(r.head(), v); Pk z; z.decode(r.data(), r.size()); CHECK((unsigned)z.getRoot() == (json ? 77u : iv), "scalar body");
}
#elif HT == 15 // C11: arbitrary and cut-off packages
void harness() {
  typedef lce::CAnyPackage Pk; int w = sym_choice(3, "w"); Pk p; p["k"] = "vv"; p["n"] = 300; if (w == 1) p.encodeJSON(); else p.encode(); size_t full = p.size(); size_t n = w == 2 ? 41 + sym_choice(N, "n") : sym_choice(full + 1, "n"); Exact x(n); if (w == 2) sym_bytes(x.p, n, "data"); else memcpy(x.p, p.data(), n);
  Pk r; bool used = sym_bool("reuse"), uc = w < 2 && sym_bool("uc"); if (used) { r["old"] = 5; r.head().setCmd(9); r.encode(); } bool ok = true; try { if (w == 1) { if (uc) r.decodeJSON((const unsigned char*)x.p, n); else r.decodeJSON(x.p, n); } else if (uc) r.decode((const unsigned char*)x.p, n); else r.decode(x.p, n); } catch (std::exception&) { ok = false; }
  if (ok && n == 43) { CHECK(r.getRoot().size() == 0 && !r.hasKey("old"), "a package without a body leaves no values of an earlier one"); sym_reach("bare"); }
  if (n < 43) CHECK(!ok, "shorter than a header: rejected"); else if (w < 2) { CHECK(ok == (n == full || n == 43), "a cut-off body is rejected"); } if (ok) CHECK(bytes_eq((const char*)&r.head(), x.p, 43), "header bytes"); sym_reach(ok ? "ok" : "rejected");
}
#elif HT == 31 // the same guarantees on a large tree: WHAT 0 binary 1 JSON 2 package, binary and JSON 3 copies 4 accessors
static std::string mix(size_t n, int salt, bool text) { std::string s(n, 'x'); if (n) sym_pattern(&s[0], n, salt, text); if (n > 2) { if (!text || n == 255) { char a = (char)sym_u8("a"); if (text) sym_assume(a > 0); s[n / 2] = a; if (!text) s[n - 1] = (char)sym_u8("b"); } if (text) { s[0] = '"'; s[n / 3] = '\\'; s[n / 4] = '\n'; s[n / 5] = 1; s[n / 6] = '/'; } } return s; }
static M in(uint64_t v, bool neg = false) { M m; m.k = INT; m.i = v; m.neg = neg; return m; }
static M st(const std::string& v) { M m; m.k = STR; m.s = v; return m; }
static std::string nm(int i) { char b[16]; snprintf(b, sizeof b, "n%05d", i); return b; }
static M big(bool text, int shape) {
  static const size_t SZ[] = {0, 1, 15, 16, 127, 128, 255, 256, 257, 1023, 1024, 4096, 5000}; M m; m.k = shape == 1 ? VEC : MAP; int n = shape == 0 ? 300 : shape == 1 ? 400 : 40;
  for (int i = 0; i < n; i++) { M e; int c = i % 8; if (c == 0) e = in((uint64_t)i << (i % 50)); else if (c == 1) e = in((uint64_t)-(int64_t)(((uint64_t)i + 1) << (i % 45)), true); else if (c == 2) e = st(shape == 2 ? mix(SZ[i / 3 % 13], i, text) : std::string(i % 37, 'v')); else if (c == 3) { e.k = BOO; e.i = i & 1; } else if (c == 4) e.k = NUL; else if (c == 5) { e.k = VEC; for (int j = 0; j < i % 5; j++) e.v.push_back(in(j)); } else if (c == 6) { e.k = MAP; for (int j = 0; j < i % 4; j++) { e.n.push_back(nm(j)); e.v.push_back(st(nm(i))); } } else { e = in(i); for (int d = 0; d < (shape == 2 ? 30 : 1); d++) { M o; if (d & 1) { o.k = VEC; o.v.push_back(in(d)); } else { o.k = MAP; o.n.push_back("d"); } o.v.push_back(e); e = o; } }
    if (m.k == MAP) m.n.push_back(shape == 2 && i == n - 1 ? std::string(255, 'o') : nm(i)); m.v.push_back(e); }
  return m;
}
void harness() {
  bool js = WHAT == 1 || (WHAT == 2 && sym_bool("json")); int shape = sym_choice(3, "shape"); M m = big(js, shape); AV a = build(m); same(a, m, "the value as built");
  if (WHAT == 0 || WHAT == 1) { std::string e = js ? a.encodeJSON() : a.encode(); same(a, m, "encoding leaves the value alone"); Exact x(e.size()); memcpy(x.p, e.data(), e.size()); AV b; b["old"] = 1; if (js) b.decodeJSON(x.p, e.size()); else b.decode(x.p, e.size()); same(b, m, "an equal tree comes back"); std::string f = "p"; if (js) b.encodeJSON(f); else b.encode(f); CHECK(str_eq(f, "p" + e), "with the same encoding, appended"); bool ok = true; if (!js) { AV c; size_t cut = e.size() - 1 - sym_choice(3, "cut") * (e.size() / 4); try { c.decode(x.p, cut); } catch (std::exception&) { ok = false; } CHECK(!ok, "a cut-off encoding is rejected"); } }
  else if (WHAT == 2) { lce::CAnyPackage p; p.head().setCmd(0x12345678); p.head().setUid(sym_u64("uid")); uint64_t u = p.head().getUid(); p.setRoot(a); if (js) p.encodeJSON(); else p.encode(); size_t body = p.getBodySize(); p.setEtx(); CHECK(p.size() == 43 + body + 1 && p.getBodySize() == body + 1, "size"); Exact x(43 + body); memcpy(x.p, p.data(), 43 + body); lce::CAnyPackage r; r["old"] = 1; if (js) r.decodeJSON(x.p, x.n); else r.decode(x.p, x.n); CHECK(r.head().getCmd() == 0x12345678 && r.head().getUid() == u, "header"); same(r.getRoot(), m, "body"); }
  else if (WHAT == 3) { int64_t base = sym_heap_live(); { AV b(a), c; c = b; same(c, m, "copy"); M n = m; int k = (int)m.v.size() / 2; if (shape == 1) { b[k] = "changed"; b.push_back(c); } else { b[m.n[k]] = "changed"; b[m.n[0]] = c; } n.v[k] = st("changed"); if (shape == 1) n.v.push_back(m); else n.v[0] = m; same(a, m, "the original is not affected"); same(c, m, "nor the other copy"); same(b, n, "the changed one"); AV& d = shape == 1 ? b[(int)m.v.size()] : b[m.n[0]]; d = b; n = n; M w = n; if (shape == 1) w.v.back() = n; else w.v[0] = n; same(b, w, "assigned into its own child"); b = shape == 1 ? b[(int)m.v.size()] : b[m.n[0]]; same(b, n, "assigned from its own child"); } CHECK(sym_heap_live() == base, "all memory is released"); }
  else if (shape == 1) { std::vector<M> v = m.v; for (int i = 0; i < 60; i++) { int op = i % 6; if (op < 2) { a.push_front(AV(i)); v.insert(v.begin(), in(i)); } else if (op == 2) { a.pop_front(); v.erase(v.begin()); } else if (op == 3) { a.pop_back(); v.pop_back(); } else if (op == 4) { a.push_back(AV("b")); v.push_back(st("b")); } else { a[i * 5] = (unsigned)i; v[i * 5] = in(i); } } M n; n.k = VEC; n.v = v; same(a, n, "every element"); int k = (int)sym_u32("index"); sym_assume(k < 0 || k >= (int)v.size()); bool t = false; try { a[k]; } catch (std::exception&) { t = true; } CHECK(t, "an index outside the array is refused"); }
  else { M n; n.k = MAP; for (size_t i = 0; i < m.v.size(); i++) { if (i % 3 == 1) a.erase(m.n[i]); else { n.n.push_back(m.n[i]); if (i % 3 == 2) { a.insert(m.n[i], AV((unsigned)i)); n.v.push_back(in(i)); } else n.v.push_back(m.v[i]); } } same(a, n, "every member"); const AV& ca = a; CHECK(!ca.hasKey(m.n[1]) && ca[m.n[1]].size() == 0 && ca.hasKey(m.n[0]), "erased and kept"); }
  sym_reach("done");
}
#elif HT == 16 || HT == 32 // C41: XML text of a tree, read back by a small reader of the format
static std::string g_t; static size_t g_o; static bool g_bad;
static bool at(const char* s) { size_t n = strlen(s); if (g_o + n > g_t.size()) return false; bool e = bytes_eq(g_t.data() + g_o, s, n); if (e) g_o += n; return e; }
static std::string text() { // character data up to the next tag, sections and references resolved
  std::string r; for (;;) {
    if (g_o >= g_t.size()) return r;
    if (g_t[g_o] == '&') { if (at("&lt;")) r += '<'; else if (at("&gt;")) r += '>'; else if (at("&amp;")) r += '&'; else if (at("&quot;")) r += '"'; else if (at("&apos;")) r += '\''; else { g_bad = true; return r; } }
    else if (g_t[g_o] != '<') r += g_t[g_o++];
    else if (at("<![CDATA[")) { while (!at("]]>")) { if (g_o >= g_t.size()) { g_bad = true; return r; } r += g_t[g_o++]; } }
    else return r;
  }
}
static bool tag(const std::string& n, bool close) { return at(close ? "</" : "<") && at(n.c_str()) && at(">"); }
static void expect(const M& m) {
  switch (m.k) {
    case VEC: for (size_t i = 0; i < m.v.size(); i++) { CHECK(tag("li", false), "an element opens"); expect(m.v[i]); CHECK(tag("li", true), "an element closes"); } return;
    case MAP: for (size_t i = 0; i < m.v.size(); i++) { CHECK(tag(m.n[i], false), "a member opens under its name"); expect(m.v[i]); CHECK(tag(m.n[i], true), "a member closes under its name"); } return;
    default: {
      std::string t = text(); CHECK(!g_bad, "character data is well formed");
      if (m.k == STR) CHECK(str_eq(t, m.s), "a string is presented exactly"); else if (m.k == NUL) CHECK(str_eq(t, "null"), "null"); else if (m.k == BOO) CHECK(str_eq(t, m.i ? "true" : "false"), "a boolean");
      else if (m.k == FLT) { CHECK(atof(t.c_str()) == dbl(m.i), "a number with fraction"); }
      else CHECK(str_eq(t, (m.neg ? "-" : "") + m.s), "a number is presented exactly"); }
  }
}
static void xnum(M& m, int digits) { for (int i = 0; i < digits; i++) { int d = sym_range(i == 0 && digits > 1 ? 1 : 0, 9, "d"); m.i = m.i * 10 + d; m.s += (char)('0' + d); } }
static M xleaf(int sl) {
  static const int DG[] = {1, 2, 10, 18}; static const uint64_t BIG[] = {9223372036854775807ull, 9223372036854775808ull, 18446744073709551615ull}; static const char* BS[] = {"9223372036854775807", "9223372036854775808", "18446744073709551615"}; static const double F[] = {0.5, -1.25, 1e30, 0.0};
  M m; m.k = sym_choice(5, "kind"); if (m.k == BOO) m.i = sym_bool("b"); else if (m.k == FLT) m.i = dbits(F[sym_choice(4, "f")]); else if (m.k == STR) m.s = sym_string(sym_choice(sl + 1, "len"), "s");
  else if (m.k == INT) { m.neg = sym_choice(2, "neg"); int w = sym_choice(DIG + 1, "digits"); if (w < DIG) xnum(m, DG[w]); else { int j = m.neg ? sym_choice(2, "big") : sym_choice(3, "ubig"); m.i = BIG[j]; m.s = BS[j]; } if (m.neg) { sym_assume(m.i != 0); m.i = -m.i; } } return m;
}
static M xgen(int depth, int sl, int w) {
  if (depth == 0) return xleaf(sl); int c = sym_choice(3, "shape"); if (c == 0) return xleaf(sl); M m; m.k = c == 1 ? VEC : MAP; int n = sym_choice(w + 1, "count");
  for (int i = 0; i < n; i++) { if (c == 2) { if (i == 0) { std::string k; int kl = 1 + sym_choice(2, "klen"); for (int j = 0; j < kl; j++) k += (char)sym_range('a', 'z', "k"); m.n.push_back(k); } else m.n.push_back(m.n[i - 1] + std::string(1, 'z')); } m.v.push_back(xgen(depth - 1, sl, w)); } return m;
}
void harness() {
#if HT == 32 // a large tree
  static const int SZ[] = {0, 1, 15, 16, 255, 256, 1023, 1024, 4096, 9000}; int shape = sym_choice(2, "shape"); M m; m.k = shape ? MAP : VEC;
  for (int i = 0; i < 200; i++) { M l; l.k = i % 5; if (l.k == BOO) l.i = i & 1; else if (l.k == FLT) l.i = dbits(i % 2 ? 0.5 : -1.25); else if (l.k == STR) { l.s.assign(i % 20 == STR ? SZ[i / 20] : i % 9, 'x'); if (l.s.size()) sym_pattern(&l.s[0], l.s.size(), i, i % 20 == STR ? 1 : 0); if (l.s.size() > 200) { char c = (char)sym_u8("c"); l.s[l.s.size() / 2] = c; l.s[7] = '<'; l.s[8] = '&'; l.s.replace(20, 3, "]]>"); } } else if (l.k == INT) { char b[32]; l.i = (uint64_t)i << i % 50; snprintf(b, sizeof b, "%llu", (unsigned long long)l.i); l.s = b; l.neg = i % 3 == 0 && l.i; if (l.neg) l.i = -l.i; }
    if (i % 7 == 6) { M v; v.k = i % 2 ? VEC : MAP; for (int j = 0; j < i % 13; j++) { v.v.push_back(l); if (v.k == MAP) v.n.push_back("s" + std::string(j + 1, 'a')); } l = v; }
    char b[16]; snprintf(b, sizeof b, "n%03d", i); m.v.push_back(l); if (shape) m.n.push_back(b); }
#else
  M m = xgen(DEPTH, SL, W);
#endif
  AV a = build(m); same(a, m, "the value as built"); std::string e = a.encodeXML(); same(a, m, "writing leaves the value alone"); g_t = e; expect(m); CHECK(g_o == g_t.size(), "nothing follows the value"); sym_reach(m.k == MAP ? "map" : m.k == VEC ? "vec" : m.k == STR ? "str" : "leaf");
  std::string pre("p<"); a.encodeXML(pre); CHECK(str_eq(pre, "p<" + e), "the same text is appended"); int utf = sym_choice(2, "utf"); std::string hd = std::string("<?xml version=\"1.0\" encoding=\"") + (utf ? "UTF-8" : "GB2312") + "\"?><xmldata>";
  CHECK(str_eq(a.encodeXMLWithHead(utf), hd + e + "</xmldata>"), "with head"); pre = "q"; a.encodeXMLWithHead(pre, utf); CHECK(str_eq(pre, "q" + hd + e + "</xmldata>"), "with head, appended");
  lce::CAnyPackage p; uint32_t cmd = sym_u32("cmd"); p.head().setCmd(cmd); p.setBodyData("old body", 8); p.setRoot(a); p.encodeXML(utf); size_t n = hd.size() + e.size() + 10; CHECK(p.getBodySize() == n && p.size() == 43 + n, "package size"); CHECK(p.getBodySize() == n && bytes_eq(p.getBodyData(), (hd + e + "</xmldata>").data(), n), "package body"); CHECK(p.head().getCmd() == cmd, "package header");
}
#endif
