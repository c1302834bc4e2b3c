// C10: CPackage typed fields
#include "hcommon.h"
#include <arpa/inet.h>
#include "CPackage.h"
using namespace lce;
struct Head { uint32_t a; uint16_t b; uint8_t c; uint8_t d; };
typedef CPackage<Head> Pk;
#if HT == 1 // write a sequence of typed fields, transfer, read back
struct F { int ty; uint64_t v; std::string s; };
static void wr(Pk& p, F& f, bool shl) {
  switch (f.ty) {
#define W(i, t) case i: if (shl) p << (t)f.v; else p.write((t)f.v); break;
    W(0, unsigned char) W(1, char) W(2, unsigned short) W(3, short) W(4, unsigned int) W(5, int) W(6, unsigned long long) W(7, long long) W(8, unsigned long) W(9, long)
    case 10: { if (shl) p << f.s; else p.write(f.s.data(), f.s.size()); break; }
    case 11: p.write((unsigned char)f.s.size()); p.write(f.s.data(), f.s.size()); break;
    case 12: p.write((unsigned short)f.s.size()); p << f.s; break;
    case 13: p.write((unsigned int)f.s.size()); p << f.s; break;
    case 14: if (shl) p << f.s.c_str(); else p << f.s; p.write((char)0); break;
  }
}
static void rd(Pk& p, F& f) {
  std::string s;
  switch (f.ty) {
#define R(i, t) case i: { t x; p >> x; CHECK(x == (t)f.v, "integer field reads back"); break; }
    R(0, unsigned char) R(1, char) R(2, unsigned short) R(3, short) R(4, unsigned int) R(5, int) R(6, unsigned long long) R(7, long long) R(8, unsigned long) R(9, long)
    case 10: if (f.v & 1) { Exact e(f.s.size()); p.read(e.p, f.s.size()); CHECK(bytes_eq(e.p, f.s.data(), f.s.size()), "raw bytes read back"); } else { p.read(s, f.s.size()); CHECK(str_eq(s, f.s), "raw bytes read back"); } break;
    case 11: p.readString1(s); CHECK(str_eq(s, f.s), "string with 1-byte length reads back"); break;
    case 12: p.readString2(s); CHECK(str_eq(s, f.s), "string with 2-byte length reads back"); break;
    case 13: p.readString4(s); CHECK(str_eq(s, f.s), "string with 4-byte length reads back"); break;
    case 14: p.readString(s); CHECK(str_eq(s, f.s), "terminated string reads back"); break;
  }
}
void harness() {
  Pk p; F f[K]; bool shl = sym_bool("shl"); Head h; h.a = sym_u32("a"); h.b = sym_u16("b"); h.c = 1; h.d = 2;
  for (int i = 0; i < K; i++) { f[i].ty = sym_choice(15, "ty"); f[i].v = sym_u64("v"); if (f[i].ty >= 10) { int n = sym_choice(M + 1, "n"); f[i].s = f[i].ty == 14 ? sym_cstring(n, "s") : sym_string(n, "s"); } wr(p, f[i], shl); }
  p.setPkgHead(h); int len = p.getPkgLen(); CHECK(p.size() == len && p.getPkgBodyLen() == len - (int)sizeof(Head), "reported lengths agree");
  Exact e(len); memcpy(e.p, p.getPkg(), len);
  int how = sym_choice(7, "how");
  Pk q; if (how == 0) q.setPkgData(e.p, len); else if (how == 1) q.setPkgData((unsigned char*)e.p, len); else if (how == 2) q.setPkgData(std::string(e.p, len)); else if (how == 3) q.setPkgBody(p.getPkgBody(), p.getPkgBodyLen()), q.setPkgHead(h); else if (how == 4) q = Pk(e.p, len); else if (how == 5) q = q = Pk(e.p, len); else { q << (unsigned)7; unsigned u; q >> u; q = p; }
  CHECK(q.head().a == h.a && q.getPkgHead()->b == h.b && q.head().c == 1 && q.head().d == 2, "head is carried");
  bool nul = false; try { Pk z; z.setPkgData((const char*)0, 100); } catch (std::runtime_error&) { nul = true; } CHECK(nul, "no data is refused");
  Pk q2(q); CHECK(!q2.isEnd(), "not beyond the end before reading");
  for (int i = 0; i < K; i++) rd(q, f[i]);
  for (int i = 0; i < K; i++) rd(q2, f[i]);
  CHECK(q.isEnd(1), "everything was read");
  bool t = false; try { char c; q >> c; } catch (std::runtime_error&) { t = true; } CHECK(t, "reading past the end is refused"); sym_reach("done");
}
#elif HT == 2 // arbitrary received bytes, arbitrary reads: refused or exact, nothing outside the package is touched, also after a refused read
template<class V> static void getInt(Pk& p, uint64_t& got) { V x; p >> x; got = (uint64_t)(typename std::make_unsigned<V>::type)x; }
void harness() {
  int n = sym_choice(N + 1, "n"); Exact b(n); sym_bytes(b.p, n, "b"); Pk p;
  try { p.setPkgData(b.p, n); } catch (std::runtime_error&) { CHECK(n < (int)sizeof(Head), "only data shorter than the head is refused"); sym_reach("nohead"); return; }
  CHECK(n >= (int)sizeof(Head), "data shorter than the head must be refused");
  const unsigned char* body = (unsigned char*)b.p + sizeof(Head); int avail = n - sizeof(Head), pos = 0; bool lost = false;
  for (int i = 0; i < OPS; i++) {
    static const int W[] = {1, 2, 4, 8, 8, 1, 2, 4, 8, 8}; const int NI = 10;
    int op = sym_choice(NI + 6, "op"), need = 0; bool thrown = false; uint64_t got = 0; std::string s;
    try { if (op < NI) need = W[op]; switch (op) {
      case 0: getInt<unsigned char>(p, got); break; case 1: getInt<unsigned short>(p, got); break; case 2: getInt<unsigned int>(p, got); break; case 3: getInt<unsigned long long>(p, got); break; case 4: getInt<unsigned long>(p, got); break;
      case 5: getInt<char>(p, got); break; case 6: getInt<short>(p, got); break; case 7: getInt<int>(p, got); break; case 8: getInt<long long>(p, got); break; case 9: getInt<long>(p, got); break;
      case NI: { need = sym_choice(4, "rl"); p.read(s, need); break; }
      case NI + 1: { need = sym_choice(4, "rl"); Exact e(need); p.read(e.p, need); s.assign(e.p, need); break; }
      case NI + 2: p.readString1(s); break;
      case NI + 3: p.readString2(s); break;
      case NI + 4: p.readString4(s); break;
      case NI + 5: p.readString(s); break;
    } } catch (std::runtime_error&) { thrown = true; }
    if (lost) { sym_reach("after"); continue; } // where a refused read leaves the cursor is not specified; it must stay inside
    if (op >= NI + 2) { // declared length
      int hl = op == NI + 2 ? 1 : op == NI + 3 ? 2 : op == NI + 4 ? 4 : 0; uint64_t L = 0;
      if (op == NI + 5) { int k = pos; while (k < avail && body[k]) k++; if (k >= avail) { // unterminated: either refused, or the remaining bytes
          sym_reach("refstr"); if (thrown) { lost = true; continue; } CHECK(pos < avail, "string past the end is refused"); CHECK(str_eq(s, std::string((char*)body + pos, k - pos)), "unterminated last string is the rest"); pos = avail; continue; }
        CHECK(!thrown, "terminated string accepted"); if (thrown) return; CHECK(str_eq(s, std::string((char*)body + pos, k - pos)), "terminated string exact"); pos = k + 1; continue; }
      if (avail - pos < hl) { CHECK(thrown, "incomplete string length is refused"); lost = true; continue; }
      for (int k = 0; k < hl; k++) L = L << 8 | body[pos + k];
      bool fit = L <= (uint64_t)(avail - pos - hl); CHECK(thrown == !fit, "string accepted exactly when its declared length is there"); if (thrown) { sym_reach("reflen"); lost = true; continue; }
      CHECK(s.size() == L && bytes_eq(s.data(), (char*)body + pos + hl, s.size()), "string content exact"); pos += hl + (int)s.size(); sym_reach("str");
    } else {
      CHECK(thrown == (avail - pos < need), "read accepted exactly when the bytes are there"); if (thrown) { sym_reach("refused"); lost = true; continue; }
      if (op < NI) { uint64_t v = 0; for (int k = 0; k < need; k++) v = v << 8 | body[pos + k]; CHECK(v == got, "integer exact"); }
      else CHECK(s.size() == (size_t)need && bytes_eq(s.data(), (char*)body + pos, need), "bytes exact");
      pos += need;
    }
  }
  sym_reach("done");
}
#elif HT == 3 // seek + read never leaves the package; positions patched with writePos read back
void harness() {
  Pk p; std::string body = sym_string(N, "b"); p.write(body.data(), body.size());
  for (int i = 0; i < OPS; i++) {
    int op = sym_choice(4, "op");
    if (op < 3) { int off = (int)sym_u32("off"); sym_assume(off > -1000000 && off < 1000000); p.seek(off, op == 0 ? Pk::S_BEG : op == 1 ? Pk::S_CUR : Pk::S_END); }
    else { unsigned char c = 0; bool thrown = false; try { p >> c; } catch (std::runtime_error&) { thrown = true; } if (!thrown) { bool in = false; for (int k = 0; k < N; k++) in |= (unsigned char)body[k] == c; CHECK(in, "a byte read after seeking is one of the package's bytes"); sym_reach("read"); } }
  }
}
#elif HT == 4 // writePos
void harness() {
  Pk p; uint64_t v = sym_u64("v"), w = sym_u64("w"); int ty = sym_choice(10, "ty"); p.write((unsigned char)0x5a); size_t at;
#define WP(i, t) case i: at = p.write((t)v); p.write((unsigned char)0xa5); p.writePos((t)w, at); { t x; unsigned char a, z; p >> a >> x >> z; CHECK(x == (t)w, "patched field reads back"); CHECK(a == 0x5a && z == 0xa5, "neighbours unchanged"); } break;
  switch (ty) { WP(0, unsigned char) WP(1, char) WP(2, unsigned short) WP(3, short) WP(4, unsigned int) WP(5, int) WP(6, unsigned long long) WP(7, long) WP(8, unsigned long) WP(9, long long) }
  CHECK(p.isEnd(1), "length unchanged by patching"); p.clearBody(); CHECK(p.getPkgBodyLen() == 0 && p.isEnd(1), "clearBody empties"); p << (unsigned int)w; unsigned x; p >> x; CHECK(x == (unsigned)w, "usable after clear"); p.clear(); CHECK(p.getPkgLen() == (int)sizeof(Head), "clear leaves the head"); sym_reach("done");
}
#endif
