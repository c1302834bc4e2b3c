// the same guarantees at larger sizes: long messages, many elements, sizes around the powers of two where encodings and buffers change
#include "hcommon.h"
#include <arpa/inet.h>
// n bytes, mostly fixed (every byte differs from its neighbours), arbitrary ones at both ends, in the middle and around 256, 1024, 4096
static inline std::string mix(size_t n, int salt, bool text = false, int first = 0) {
  std::string s(n, 'x'); if (n) sym_pattern(&s[0], n, salt, text);
  size_t at[] = {0, n / 2, 255, 1023, 4096}, last = (size_t)-1; for (int k = first; k < 6; k++) { size_t p = k == 5 ? n - 1 : at[k]; if (n == 0 || p >= n || p == last) continue; last = p; char c = (char)sym_u8("mix"); if (text) sym_assume(c >= 'a' && c <= 'z'); s[p] = c; } return s;
}
static inline std::string num(unsigned long v) { char b[32]; snprintf(b, sizeof b, "%lu", v); return b; }
#if HT == 1 || HT == 2 // C07, C08: a long stream of messages of many sizes in chunks of one size
#include "CPackageFilter.h"
#include "CH2T3PackageFilter.h"
#include "CH2ShortT3PackageFilter.h"
#include "CHttpPackageFilter.h"
using namespace lce;
void harness() {
  static const size_t CH[] = {100, 1460, 4096, 1u << 20}; static const int SZ[] = {0, 1, 249, 250, 251, 252, 1000, 4096, 65529, 65530, 65531, 70000}; std::string st; std::vector<std::string> pay; std::vector<size_t> end; int ch = sym_choice(4, "chunk");
  for (size_t i = 0; i < sizeof SZ / sizeof *SZ; i++) {
    size_t n = SZ[i]; if (ch == 0 && n > 1000) break;
#if HT == 1
    if (SHORTF && n + 4 > 65535) break; pay.push_back(mix(n, i)); size_t len = n + (SHORTF ? 4 : 6); st += '\x02'; for (int k = SHORTF ? 1 : 3; k >= 0; k--) st += (char)(len >> 8 * k); st += pay.back(); st += '\x03';
#else
    std::string m = i % 3 == 2 ? "HTTP/1.1 200 OK\r\n" : i % 3 ? "POST /" + mix(n / 4, i, true) + " HTTP/1.1\r\n" : "PUT / HTTP/1.1\r\n"; int nh = i % 4 * 15; for (int k = 0; k < nh; k++) m += "X-Head-" + num(k) + ": " + mix(k, k, true) + "\r\n"; m += "Content-Length: " + num(n) + "\r\n"; if (i % 2) m += "X-Last: " + mix(1000, 1, true) + "\r\n"; pay.push_back(m + "\r\n" + mix(n, i)); st += pay.back();
#endif
    end.push_back(st.size());
  }
#if HT == 1
#if SHORTF
  CH2ShortT3PackageFilter f;
#else
  CH2T3PackageFilter f;
#endif
#else
  CHttpPackageFilter f;
#endif
  size_t at = 0, got = 0, fed = 0;
  while (fed < st.size()) {
    fed = fed + CH[ch] < st.size() ? fed + CH[ch] : st.size(); Exact e(fed - at); memcpy(e.p, st.data() + at, fed - at); size_t off = 0;
    while (got < pay.size()) {
      int real = 0, len = 0, r = f.isWholePkg(e.p + off, (int)(fed - at - off), real, len); bool want = fed >= end[got]; CHECK(r == (want ? 0 : -1), "a message is recognised exactly when it is complete"); if (r || !want) break;
      CHECK(len == (int)(end[got] - at - off) && real == (int)pay[got].size(), "the message has its length"); CHECK(bytes_eq(f.getRealPkgData(e.p + off, len), pay[got].data(), pay[got].size()), "and its bytes"); off += len; got++;
    }
    at += off; if (at == fed) continue; if (got < pay.size() && at < fed && fed < end[got]) continue; break;
  }
  CHECK(got == pay.size() && at == st.size(), "every message came out"); sym_reach("all");
}
#elif HT == 3 // C10
#include "CPackage.h"
using namespace lce;
struct Head { uint32_t a; uint16_t b; }; typedef CPackage<Head> Pk;
void harness() {
  static const size_t SZ[] = {0, 1, 127, 128, 254, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 65534, 65535, 65536, 70000}; const int NS = sizeof SZ / sizeof *SZ; Pk p; std::vector<std::string> v; uint64_t x = sym_u64("x"); int from = sym_choice(3, "from"); bool shl = sym_bool("shl");
  for (int i = from; i < NS; i += 1 + from) { std::string s = mix(SZ[i], i, true); v.push_back(s); if (s.size() < 256) { p.write((unsigned char)s.size()); p.write(s.data(), s.size()); } if (s.size() < 65536) { p.write((unsigned short)s.size()); p << s; } if (shl) p << (unsigned int)s.size() << s << s.c_str() << (char)0; else { p.write((unsigned int)s.size()); p.write(s.data(), s.size()); p << s; p.write((char)0); } p << x << (unsigned short)(x >> 16) << (long)(x + i); }
  Head h; h.a = 7; h.b = 9; p.setPkgHead(h); int len = p.getPkgLen(); CHECK(p.size() == len && p.getPkgBodyLen() == len - (int)sizeof(Head), "reported lengths agree"); Exact e(len); memcpy(e.p, p.getPkg(), len); Pk q; q.setPkgData(e.p, len); CHECK(q.head().a == 7 && q.head().b == 9, "head is carried"); Pk q2(q), q3; q3 = q;
  Pk* all[] = {&q, &q2, &q3}; Pk& r = *all[sym_choice(3, "which")]; std::string s; size_t k = 0;
  for (int i = from; i < NS; i += 1 + from, k++) { const std::string& w = v[k]; if (w.size() < 256) { r.readString1(s); CHECK(str_eq(s, w), "string with 1-byte length"); } if (w.size() < 65536) { r.readString2(s); CHECK(str_eq(s, w), "string with 2-byte length"); } r.readString4(s); CHECK(str_eq(s, w), "string with 4-byte length"); r.readString(s); CHECK(str_eq(s, w), "terminated string"); uint64_t a; unsigned short b; long c; r >> a >> b >> c; CHECK(a == x && b == (unsigned short)(x >> 16) && c == (long)(x + i), "integers in between"); }
  CHECK(r.isEnd(1), "everything was read"); bool t = false; try { char c; r >> c; } catch (std::runtime_error&) { t = true; } CHECK(t, "reading past the end is refused"); sym_reach("done");
}
#elif HT == 4 // C12
#include "CBufferQueue.h"
using namespace lce;
void harness() {
  static const int DS[] = {300, 4096, 70000}; int di = sym_choice(3, "D"), D = DS[di], n = 0; static const int PAT[] = {3, 0, 1, 7, 2, 5, 4, 6}; Exact mem(40 + D); CBufferQueue q; q.create(mem.p, 40 + D); std::vector<std::string> m; bool two = sym_bool("two"); size_t used = 0, head = 0;
  for (int step = 0; step < STEPS; step++) {
    int sz[] = {1, 100, 127, 255, D / 3, D / 2 - 9, D - 16, 17}; bool push = step % 7 < 4;
    if (push) { size_t k = sz[PAT[(step + step / 9) % 8]]; std::string s = mix(k, step); bool full = used + 8 + k + 8 > (size_t)D, thrown = false; CHECK(q.full(k) == full, "full as reported"); try { if (two) q.push(s.data(), k / 3, s.data() + k / 3, k - k / 3); else q.push(s.data(), k); } catch (std::runtime_error&) { thrown = true; } CHECK(thrown == full, "accepted exactly when it fits"); if (!full) { m.push_back(s); used += k + 8; n++; sym_reach("pushed"); } else sym_reach("full"); }
    else { bool have = head < m.size(); size_t l = have ? m[head].size() : 0; unsigned long a = two ? l / 2 : 0, b = l - a; Exact x(a), y(b + 1); b++; bool r = two ? q.pop(x.p, a, y.p, b) : q.pop(y.p, b); CHECK(r == have, "popped exactly when something is queued"); if (!r) continue; CHECK((two ? a : 0) + b == l, "length"); CHECK(bytes_eq(x.p, m[head].data(), two ? a : 0) && bytes_eq(y.p, m[head].data() + (two ? a : 0), b), "bytes"); used -= l + 8; head++; }
    CHECK(q.size() == m.size() - head && q.empty() == (m.size() == head), "count");
  }
  while (head < m.size()) { unsigned long l = m[head].size(); Exact y(l); bool r = q.pop(y.p, l); CHECK(r && l == m[head].size() && bytes_eq(y.p, m[head].data(), l), "drained in order"); if (!r) return; head++; } CHECK(q.empty(), "empty at the end"); sym_reach("done");
}
#elif HT == 5 // C09
#include "CSocketBuf.h"
using namespace lce;
void harness() {
  static const int IN[] = {1, 100, 10240}; int mx = 200000; CSocketBuf b(IN[sym_choice(3, "init")], mx); std::string m; bool inplace = sym_bool("inplace"); static const int SZ[] = {1, 300, 5000, 40000, 90000, 20, 65536, 199999}; 
  for (int i = 0; i < 16; i++) {
    int n = SZ[i % 8]; std::string s = mix(n, i);
    if (inplace) { int left = n; const char* d = s.data(); while (left && (int)m.size() < mx) { for (int g = 0; b.getFreeSize() == 0 && g < 24; g++) b.addFreeBuf(); int k = b.getFreeSize(); CHECK(k > 0 && (int)m.size() + k <= mx, "room can be made below the limit"); if (k <= 0) return; if (k > left) k = left; memcpy(b.getFreeBuf(), d, k); CHECK(b.addData(k), "in-place data accepted"); m.append(d, k); d += k; left -= k; } }
    else { bool fits = (int)m.size() + n <= mx, r = b.addData(s.data(), n); CHECK(r == fits, "accepted exactly when it fits"); if (r) m += s; else sym_reach("refused"); }
    CHECK(b.getSize() == (int)m.size(), "pending amount"); if (b.getSize() != (int)m.size()) return; CHECK(m.empty() || bytes_eq(b.getData(), m.data(), m.size()), "pending bytes");
    int c = i % 4 == 3 ? (int)m.size() / 2 : i % 4 == 1 ? (int)m.size() - 1 : i == 10 ? (int)m.size() : 0; if (c > 0) { b.removeData(c); m.erase(0, c); } if (i == 12) { CSocketBuf x(b), y(1, 2); y = b; CHECK(x.getSize() == (int)m.size() && y.getSize() == (int)m.size() && (m.empty() || (bytes_eq(x.getData(), m.data(), m.size()) && bytes_eq(y.getData(), m.data(), m.size()))), "copies"); }
    CHECK(b.getSize() == (int)m.size() && (m.empty() || bytes_eq(b.getData(), m.data(), m.size())), "rest after consuming");
  }
  sym_reach("done");
}
#elif HT == 6 // C18
#include "Utils.h"
using namespace lce;
static const char* HX = "0123456789ABCDEF";
void harness() {
  static const size_t SZ[] = {100, 255, 256, 300, 1023, 1024, 4096, 5000}; size_t n = SZ[sym_choice(8, "n")]; std::string s = mix(n, 3, false, 4); std::string e = FormUrlEncode(s), d = FormUrlDecode(e); CHECK(str_eq(d, s), "decoding the encoding gives the text back"); std::string w; for (size_t i = 0; i < n; i++) { w += '%'; w += HX[(unsigned char)s[i] >> 4]; w += HX[s[i] & 15]; } CHECK(str_eq(FormUrlDecode(w), s), "a text in which everything is escaped"); sym_reach("done");
}
#elif HT == 7 // C24
#include "Utils.h"
#include "StringHelper.h"
using namespace lce;
void harness() {
  int w = sym_choice(3, "w"); static const size_t SZ[] = {300, 1024, 5000}; size_t n = SZ[sym_choice(3, "n")]; std::string sep = sym_string(2, "sep"); 
  if (w == 0) { sym_assume(!(sep[0] >= 'a' && sep[0] <= 'z')); std::vector<std::string> v, got; std::string t; for (size_t i = 0; t.size() < n; i++) { v.push_back(mix(i * i % 97, i, true)); if (i) t += sep; t += v.back(); } SplitStr(t, sep, got); CHECK(got.size() == v.size(), "every piece"); if (got.size() != v.size()) return; for (size_t i = 0; i < v.size(); i++) CHECK(str_eq(got[i], v[i]), "the piece"); sym_reach("split"); }
  else if (w == 1) { std::string c = mix(n, 5, true), t = std::string(n, ' ') + "\t\r\n" + c + std::string(n / 2, '\n') + "\t \r"; TrimStr(t); CHECK(str_eq(t, c), "exactly the surrounding white space is removed"); sym_reach("trim"); }
  else { sym_assume(!(sep[0] >= 'a' && sep[0] <= 'z')); std::string re = sym_string(sym_choice(4, "r"), "re"), t, x; for (size_t i = 0; t.size() < n; i++) { std::string p = mix(i * i % 61, i, true); t += p; x += p; t += sep; x += re; } ReplaceStr(t, sep, re); CHECK(str_eq(t, x), "every occurrence is replaced, nothing else"); sym_reach("replace"); }
}
#endif
#if HT == 8 // C19: a large request: many parameters, headers, cookies, parts
#include "Utils.h"
#include "CHttpReader.h"
using namespace lce;
static const char* HX = "0123456789abcdef";
static std::string esc(const std::string& s) { std::string w; for (size_t i = 0; i < s.size(); i++) { if (i % 3 == 0 || !((s[i] >= 'a' && s[i] <= 'z') || (s[i] >= '0' && s[i] <= '9'))) { w += '%'; w += HX[(unsigned char)s[i] >> 4]; w += HX[s[i] & 15]; } else w += s[i]; } return w; }
void harness() {
  static const size_t SZ[] = {0, 1, 100, 255, 256, 1023, 1024, 5000, 9000}; int w = sym_choice(4, "w"); std::string s, q; std::vector<std::string> v; int n = w == 3 ? 9 : 60; for (int i = 0; i < n; i++) v.push_back(mix(w == 3 ? SZ[i] : i < 9 ? SZ[i] : i % 7, i, w == 2 || (i != 3 && w != 3), i % 25 == 3 || w == 3 ? 5 : 6)); CHttpReader r; std::string x;
  if (w == 0 || w == 1) { for (int i = 0; i < n; i++) q += (i ? "&key" : "key") + num(i) + "=" + esc(v[i]); s = w ? "POST /" + mix(2000, 1, true, 6) + " HTTP/1.1\r\nHost: h\r\nContent-Length: " + num(q.size()) + "\r\n\r\n" + q : "GET /" + mix(2000, 1, true, 6) + "?" + q + " HTTP/1.1\r\nHost: h\r\n\r\n"; CHECK(r.setData(s.data(), s.size()), "accepted"); CHECK(str_eq(r.getURI(), "/" + mix(2000, 1, true, 6)), "URI"); CHECK((int)r.getValueList().size() == n, "every parameter"); for (int i = 0; i < n; i++) CHECK(str_eq(r.getValue("key" + num(i), x, "none"), v[i]), "value"); r.getValue(x); CHECK(str_eq(x, q), "query text"); sym_reach("params"); }
  else if (w == 2) { s = "GET / HTTP/1.1\r\n"; for (int i = 0; i < n; i++) s += "X-Head-" + num(i) + ": " + v[i] + "\r\n"; s += "Cookie: "; for (int i = 0; i < n; i++) s += (i ? "; c" : "c") + num(i) + "=" + v[n - 1 - i]; s += "\r\nHost: last\r\n\r\n"; CHECK(r.setData(s.data(), s.size()), "accepted"); for (int i = 0; i < n; i++) { CHECK(str_eq(r.getHead("x-head-" + num(i)), v[i]), "header"); CHECK(str_eq(r.getCookie("c" + num(i), x, "none"), v[n - 1 - i]), "cookie"); } CHECK(str_eq(r.getHost(), "last"), "the last header"); sym_reach("heads"); }
  else { std::string b = mix(60, 9, true, 6); s = "POST /u HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=" + b + "\r\n\r\n"; for (int i = 0; i < n; i++) { s += "--" + b + "\r\nContent-Disposition: form-data; name=\"f" + num(i) + "\""; if (i & 1) s += "; filename=\"" + mix(300, i, true, 6) + "\"\r\nContent-Type: image/x-" + num(i); s += "\r\n\r\n" + v[i] + "\r\n"; } s += "--" + b + "--\r\n"; CHECK(r.setData(s.data(), s.size()), "accepted"); for (int i = 0; i < n; i++) { std::string k = "f" + num(i); if (i & 1) { CHECK(str_eq(r.getFile(k), v[i]), "file"); CHECK(str_eq(r.getFileName(k), mix(300, i, true, 6)) && str_eq(r.getFileType(k), "image/x-" + num(i)), "file name and type"); } else CHECK(str_eq(r.getValue(k, x, "none"), v[i]), "field"); } sym_reach("upload"); }
}
#elif HT == 9 // C21: a large response
#include "Utils.h"
#include "CHttpWriter.h"
using namespace lce;
#ifdef LCE_SYMBOLIC_BUILD
static struct tm g_tm;
extern "C" struct tm* gmtime_r(const time_t* t, struct tm* o) noexcept { memset(o, 0, sizeof *o); o->tm_mday = 1 + (int)(*t % 28); o->tm_year = 70; o->tm_wday = 4; return o; }
extern "C" struct tm* gmtime(const time_t* t) noexcept { return gmtime_r(t, &g_tm); }
extern "C" time_t time(time_t* t) noexcept { if (t) *t = 86400 * 9; return 86400 * 9; }
#endif
static int occurs(const std::string& d, const std::string& l) { int k = 0; for (size_t p = d.find(l); p != std::string::npos; p = d.find(l, p + 1)) k++; return k; }
void harness() {
  CHttpWriter w; for (int round = 0; round < 2; round++) { w.begin(); int nh = 40, nc = 30; std::string body; for (int i = 0; i < nh; i++) w.setHead("X-Head-" + num(i), mix(i == 7 ? 3000 : i, i + round, true, 6)); for (int i = 0; i < nc; i++) w.setCookie("c" + num(i), i == 3 ? std::string("old") : mix(i == 5 ? 3000 : i, i, true, 6), i % 2 ? "dom" : "", i % 3 ? "/p" : ""); w.setHead("X-Head-3", "again"); w.setCookie("c3", mix(3, 3, true, 6), "dom"); w.setCookie("c4", 4); w.setCookie("c4", mix(4, 4, true, 6), "", "/p");
    for (int i = 0; i < 30; i++) { std::string p = mix(i == 9 ? 70000 : i * i, i, false, 5); if (i % 2) w.write(p.data(), p.size()); else w << p; body += p; w << i; body += num(i); } w.end();
    std::string d(w.data(), w.size()); CHECK(w.getDataLen() == (int)w.size(), "length"); size_t e = d.find("\r\n\r\n"); CHECK(e != std::string::npos, "blank line"); if (e == std::string::npos) return; CHECK(str_eq(d.substr(e + 4), body), "the exact body"); std::string h = d.substr(0, e + 2); CHECK(occurs(h, "\r\nContent-Length: " + num(body.size()) + "\r\n") == 1 && occurs(h, "\r\nContent-Length:") == 1, "Content-Length is the size of the body");
    for (int i = 0; i < nh; i++) { if (i != 3) CHECK(occurs(h, "\r\nX-Head-" + num(i) + ": " + mix(i == 7 ? 3000 : i, i + round, true, 6) + "\r\n") == 1, "each header once"); CHECK(occurs(h, "\r\nX-Head-" + num(i) + ":") == 1, "no header twice"); } CHECK(occurs(h, "\r\nX-Head-3: again\r\n") == 1, "the value set last"); CHECK(occurs(h, "\r\nSet-Cookie:") == nc, "each cookie once"); for (int i = 0; i < nc; i++) { std::string l = "c" + num(i) + "=" + mix(i == 5 ? 3000 : i, i, true, 6) + (i % 2 || i % 3 ? ";" : "\r\n"); CHECK(occurs(h, "\r\nSet-Cookie:" + l) + occurs(h, "\r\nSet-Cookie: " + l) == 1, "with the value set last"); }
  } sym_reach("done");
}
#elif HT == 10 // C23: a large file
#include "env.h"
#include "CConfig.h"
using namespace lce;
void harness() {
  std::string f; std::vector<std::string> v; bool crlf = sym_bool("crlf"); static const size_t SZ[] = {1, 100, 255, 256, 1022, 1023, 1024, 1025, 4095, 4096, 10000}; const char* nl = crlf ? "\r\n" : "\n"; f += std::string("# ") + std::string(3000, 'c') + nl; for (int i = 0; i < 60; i++) { if (i % 6 == 0) f += "[sec" + num(i / 6) + "]" + nl; v.push_back(mix(i < 11 ? SZ[i] : i, i, true, i < 3 ? 0 : 6)); f += "key" + num(i) + " = " + v.back() + nl; if (i % 4 == 0) f += std::string("; x = 1") + nl + nl; } f += std::string("[sec0]") + nl + "key0=again";
  put_file("c.ini", f); CConfig c; CHECK(c.loadConfig("c.ini"), "loads"); std::string x; v[0] = "again"; for (int i = 0; i < 60; i++) { CHECK(str_eq(c.getValue("sec" + num(i / 6), "key" + num(i), x, "none"), v[i]), "the entry has the value that was written"); CHECK(str_eq(c.getValue("sec" + num(i / 6 + 1), "key" + num(i), x, "none"), "none"), "in its own section only"); } sym_reach("done");
}
#elif HT == 11 || HT == 12 // C16, C17
#include "shm.h"
#include "CBitMap.h"
#include "CShmArray.h"
using namespace lce;
#if HT == 11
template<int W> static void big() {
  static const unsigned long SZ[] = {255, 256, 257, 1000, 4096}; unsigned long n = SZ[sym_choice(5, "n")]; CBitmap<W> b; CHECK(b.init(0x11, n), "created"); CHECK(b.size() == n, "declared size"); const unsigned V = 1u << W; std::vector<unsigned> m(n, 0); unsigned v = sym_u8("v"); sym_assume(v < V); static const unsigned long AT[] = {0, 1, 127, 128, 200, 254}; unsigned long at[] = {AT[sym_choice(6, "at")], n - 1};
  for (unsigned long i = 0; i < n; i++) { m[i] = (unsigned)(i * 5 + i / 7) & (V - 1); CHECK(b.set(i, m[i]), "set in range"); } for (int k = 0; k < 2; k++) { CHECK(b.set(at[k], v), "set in range"); m[at[k]] = v; } CHECK(!b.set(n, 0), "refused beyond");
  for (unsigned long i = 0; i < n; i++) CHECK((unsigned)(int)b.get(i) == m[i], "every cell holds the value last set on it"); CBitmap<W> c; CHECK(c.init(0x11, n), "attach"); for (unsigned long i = 0; i < n; i++) CHECK((unsigned)(int)c.get(i) == m[i], "the same through another attachment"); c.clear(); for (unsigned long i = 0; i < n; i++) CHECK((int)b.get(i) == 0, "clear zeroes every cell"); sym_reach("done");
}
void harness() { switch (sym_choice(7, "width")) { case 0: big<1>(); break; case 1: big<2>(); break; case 2: big<3>(); break; case 3: big<4>(); break; case 4: big<5>(); break; case 5: big<6>(); break; default: big<8>(); } }
#else
struct El { unsigned a; char b[9]; unsigned long c; };
void harness() { static const int SZ[] = {255, 256, 257, 1000, 70000}; int n = SZ[sym_choice(5, "n")]; CShmArray<El> x, y; CHECK(x.init(5, n), "created"); CHECK(y.init(5, n), "attached"); CHECK((int)x.size() >= n, "size"); int st = n > 2000 ? 97 : 1; unsigned v = sym_u32("v"); for (int i = 0; i < n; i += st) { El e; memset(&e, 0, sizeof e); e.a = v + i; e.b[8] = (char)i; e.c = (unsigned long)i << 33; x[i] = e; } x[n - 1].a = v; for (int i = 0; i < n; i += st) { if (i == n - 1) continue; CHECK(y[i].a == v + i && y[i].b[8] == (char)i && y[i].c == (unsigned long)i << 33, "elements as written"); } CHECK(y[n - 1].a == v, "the last one"); sym_reach("done"); }
#endif
#endif
