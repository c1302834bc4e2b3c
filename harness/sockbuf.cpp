// C09: CSocketBuf against a byte-sequence model
#include "hcommon.h"
#include "CSocketBuf.h"
using namespace lce;
static void same(const CSocketBuf& b, const std::string& m) {
  CHECK(b.getSize() == (int)m.size(), "pending amount = added minus consumed"); if (b.getSize() != (int)m.size()) sym_end();
  CHECK(m.empty() || bytes_eq(b.getData(), m.data(), m.size()), "pending bytes are the ones added, in order");
}
void harness() {
#if HT == 1 // any operation sequence
  int init = sym_choice(MAXINIT + 1, "init"), mx = init + sym_choice(MAXGROW + 1, "grow");
  CSocketBuf bi(init, mx); CSocketBuf* bp = new CSocketBuf; CSocketBuf& bd = *bp; bool dflt = init == 0 && mx == 0 && sym_bool("default"); CSocketBuf& b = dflt ? bd : bi; if (dflt) sym_reach("default"); std::string m;
  for (int i = 0; i < OPS; i++) {
    int op = sym_choice(5, "op");
    if (op == 0) { int n = sym_choice(CH + 1, "n"); Exact e(n); sym_bytes(e.p, n, "d"); bool fits = (int)m.size() + n <= mx; bool r = b.addData(e.p, n);
      CHECK(r == fits, "data accepted exactly when it fits the limit"); if (r) m.append(e.p, n); sym_reach(r ? "added" : "refused"); }
    else if (op == 1) { // fill in place: make room until there is some, then write there
      if ((int)m.size() >= mx) continue;
      for (int g = 0; b.getFreeSize() == 0 && g < 4; g++) b.addFreeBuf();
      int fr = b.getFreeSize(); CHECK(fr > 0 && fr <= mx, "room can be made while below the limit"); if (fr <= 0) sym_end();
      int n = sym_choice((fr < CH ? fr : CH) + 1, "k"); char* p = b.getFreeBuf(); sym_bytes(p, n, "f"); m.append(p, n); CHECK(b.addData(n), "in-place data accepted"); sym_reach("inplace"); }
    else if (op == 2) { if (m.empty()) continue; int n = sym_choice(m.size(), "r") + 1; b.removeData(n); m.erase(0, n); sym_reach("removed"); }
    else if (op == 3) { b.reset(); m.clear(); }
    else { CSocketBuf c(b); same(c, m); CSocketBuf d(1, 1); d = b; same(d, m); if (m.size()) { c.removeData(1); d.reset(); } b = b; sym_reach("copied"); }
    same(b, m);
  }
#elif HT == 2 // the read path's pattern at larger sizes: long append/consume sequence with a growing buffer
  CSocketBuf b(INIT, MAXSZ); std::string m; unsigned char x = sym_u8("x");
  for (int i = 0; i < OPS; i++) {
    int n = SZ[i % 4]; std::string s(n, 0); for (int k = 0; k < n; k++) s[k] = (char)(x + k + i);
    bool r = b.addData(s.data(), n); CHECK(r == ((int)m.size() + n <= MAXSZ), "accepted exactly when it fits"); if (r) m += s;
    same(b, m);
    int k = sym_choice(3, "k"); int c = k == 0 ? 0 : k == 1 ? (int)m.size() / 2 : (int)m.size(); if (c) { b.removeData(c); m.erase(0, c); }
    same(b, m);
  }
  sym_reach("end");
#endif
}
