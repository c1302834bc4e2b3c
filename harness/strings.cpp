// C18 URL coding, C24 string helpers, C22 dates
#include "hcommon.h"
#include <time.h>
#include "Utils.h"
#include "StringHelper.h"
using namespace lce;
static int hexv(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static std::string asStr(const char* p, size_t n) { return std::string(p, n); }
#if HT == 1 // encode / decode
void harness() {
  int n = sym_choice(N + 1, "n"); std::string s = sym_string(n, "s"); std::string e = FormUrlEncode(s);
  for (size_t i = 0; i < e.size(); i++) { unsigned char c = e[i]; if (c == '%') { CHECK(i + 2 < e.size() && hexv(e[i + 1]) >= 0 && hexv(e[i + 2]) >= 0, "every percent sign starts an escape"); sym_reach("escape"); }
    else CHECK((c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '-' || c == '_' || c == '.' || c == '+' || c == '~' || c == '*', "only unreserved characters"); }
  std::string d = FormUrlDecode(e); CHECK(str_eq(d, s), "decoding the encoding gives the text back"); sym_reach("done");
}
#elif HT == 2 // decode arbitrary text
void harness() {
  int n = sym_choice(N + 1, "n"); std::string s = sym_string(n, "s"), want; bool bad = false;
  for (int i = 0; i < n; i++) { if (s[i] == '+') want += ' '; else if (s[i] == '%') { if (i + 2 < n && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0) { want += (char)(hexv(s[i + 1]) * 16 + hexv(s[i + 2])); i += 2; } else { bad = true; break; } } else want += s[i]; }
  bool thrown = false; std::string d; try { d = FormUrlDecode(s); } catch (...) { thrown = true; } CHECK(!thrown, "decoding never fails"); if (thrown) return;
  if (!bad) { CHECK(str_eq(d, want), "well-formed escapes decode to their characters"); sym_reach("ok"); } else { CHECK(d.size() >= want.size() && bytes_eq(d.data(), want.data(), want.size()), "text before a stray percent sign is decoded"); sym_reach("stray"); }
}
#elif HT == 3 // split / join
void harness() {
  int n = sym_choice(N + 1, "n"), k = sym_choice(SEP, "k") + 1; std::string s = sym_string(n, "s"), sep = sym_string(k, "sep"); std::vector<std::string> v; SplitStr(s, sep, v);
  CHECK(!v.empty(), "at least one piece"); if (v.empty()) return; std::string j = v[0]; for (size_t i = 1; i < v.size(); i++) j += sep + v[i]; CHECK(str_eq(j, s), "joining the pieces restores the text");
  for (size_t i = 0; i < v.size(); i++) for (size_t p = 0; p + k <= v[i].size(); p++) CHECK(!bytes_eq(v[i].data() + p, sep.data(), k), "no piece contains the separator"); sym_reach(v.size() > 1 ? "split" : "whole");
}
#elif HT == 4 // trim
void harness() {
  int n = sym_choice(N + 1, "n"); std::string s = sym_string(n, "s"), t = s; TrimStr(t); int i = 0, j = n;
#define WS(c) ((c) == ' ' || (c) == '\t' || (c) == '\r' || (c) == '\n')
  while (i < n && WS(s[i])) i++; while (j > i && WS(s[j - 1])) j--; CHECK(str_eq(t, s.substr(i, j - i)), "exactly the surrounding white space is removed"); sym_reach(j > i ? "text" : "blank");
}
#elif HT == 5 // replace
void harness() {
  int n = sym_choice(N + 1, "n"), f = sym_choice(3, "f"), r = sym_choice(3, "r"); std::string s = sym_string(n, "s"), fi = sym_string(f, "fi"), re = sym_string(r, "re"), t = s, want;
  ReplaceStr(t, fi, re); if (f == 0) { CHECK(str_eq(t, s), "empty pattern changes nothing"); sym_reach("empty"); return; }
  for (int i = 0; i < n;) { if (i + f <= n && bytes_eq(s.data() + i, fi.data(), f)) { want += re; i += f; sym_reach("hit"); } else want += s[i++]; } CHECK(str_eq(t, want), "every occurrence is replaced, nothing else");
}
#elif HT == 6 // middle, host:port, hex, hash, ToStr
void harness() {
  int w = sym_choice(7, "w");
  if (w == 0) { std::string s = sym_string(N, "s"), b = sym_string(1 + sym_choice(2, "bl"), "b"), e = sym_string(1, "e"), out = "?"; size_t from = sym_choice(3, "from"); size_t r = GetMiddleStr(from, s, out, b, e);
    size_t p = s.find(b, from), q = p == std::string::npos ? p : s.find(e, p + b.size()); if (q == std::string::npos) { CHECK(r == std::string::npos && out == "?", "no middle part"); } else { CHECK(r == q + 1, "position after the end mark"); CHECK(str_eq(out, s.substr(p + b.size(), q - p - b.size())), "text between the marks"); sym_reach("middle"); } }
  else if (w == 1) { std::string s = sym_string(N, "s"), h = "h", p = "p"; bool r = SplitHostPort(s, h, p); size_t c = s.find(':'); CHECK(r == (c != std::string::npos), "separator found"); if (r) { CHECK(str_eq(h + ":" + p, s) && h.find(':') == std::string::npos, "host and port"); sym_reach("hostport"); } }
  else if (w == 2) { char c = (char)sym_u8("c"); std::string h = charToHex(c); CHECK(h.size() == 2, "two digits"); CHECK(hexv(h[0]) * 16 + hexv(h[1]) == (unsigned char)c, "hex digits of the byte"); CHECK(hexToChar(h[0], h[1]) == c, "inverse"); char a = h[0] >= 'A' ? h[0] | 0x20 : h[0]; CHECK(hexToChar(a, h[1]) == c, "lower case accepted"); sym_reach("hex"); }
  else if (w == 3) { int v = (int)sym_u32("v"); std::string t = ToStr(v); CHECK(strtol(t.c_str(), 0, 10) == v, "int to text and back"); sym_reach("int"); }
  else if (w == 4) { unsigned long v = sym_range(0, 999999999999999ul, "v"); std::string t = ToStr(v); CHECK(strtoull(t.c_str(), 0, 10) == v, "wide integer to text and back"); std::string x = sym_cstring(3, "x"); CHECK(str_eq(ToStr(x), x), "text unchanged"); }
  else if (w == 5) { static const unsigned long big[] = {~0ul, ~0ul - 1, 1ul << 63, (1ul << 63) - 1, 10000000000000000000ul, 9999999999999999999ul, 1000000000000000ul}; unsigned long v = big[sym_choice(7, "big")]; CHECK(strtoull(ToStr(v).c_str(), 0, 10) == v, "64-bit to text and back"); CHECK(strtoll(ToStr((long)v).c_str(), 0, 10) == (long)v, "signed 64-bit to text and back"); }
  else { std::string s = sym_string(3, "s"); unsigned long h = 0; for (int i = 0; i < 3; i++) h = 5 * h + s[i]; CHECK(Hash(s) == Hash(s.data(), 3), "same bytes, same hash"); unsigned v = sym_u32("v"); CHECK(Hash(v) == Hash((int)v), "same value, same hash"); }
}
#elif HT == 7 // GetGMTDate / Gmt2Time
static struct tm g_tm; static long g_t; 
#ifdef LCE_SYMBOLIC_BUILD
extern "C" struct tm* gmtime(const time_t* t) noexcept { CHECK(*t == g_t, "asks for the given time"); return &g_tm; }
extern "C" struct tm* gmtime_r(const time_t* t, struct tm* o) noexcept { CHECK(*t == g_t, "asks for the given time"); *o = g_tm; return o; }
#endif
static const char* MN[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
static const char* DN[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
static unsigned num(unsigned lo, unsigned hi, const char* n) { unsigned a = (unsigned)sym_range(0, hi / 10, n), b = (unsigned)sym_range(0, 9, n), v = 10 * a + b; sym_assume(v >= lo && v <= hi); return v; } // decimal digits, so the solver sees the text as sums of them
static bool two(const char* p, unsigned v) { return p[0] == (char)('0' + v / 10) && p[1] == (char)('0' + v % 10); }
void harness() {
  int y = Y0 + sym_choice(NY, "y"), m = sym_choice(12, "m"); static const int ml[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; int leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; int dm = ml[m] + (m == 1 && leap);
  unsigned d = num(1, dm, "d"), H = num(0, 23, "H"), M = num(0, 59, "M"), S = num(0, 59, "S");
  long days = 0; for (int k = 1970; k < y; k++) days += 365 + ((k % 4 == 0 && k % 100 != 0) || k % 400 == 0); for (int k = 0; k < m; k++) days += ml[k] + (k == 1 && leap); days += (long)d - 1;
  g_t = days * 86400 + H * 3600 + M * 60 + S; memset(&g_tm, 0, sizeof g_tm); g_tm.tm_year = y - 1900; g_tm.tm_mon = m; g_tm.tm_mday = d; g_tm.tm_hour = H; g_tm.tm_min = M; g_tm.tm_sec = S; unsigned wd = (unsigned)((days + 4) % 7); wd = (unsigned)sym_concretize(wd); g_tm.tm_wday = wd;
  time_t t = g_t; std::string s = GetGMTDate(t);
  CHECK(s.size() == 29, "fixed-length HTTP date"); if (s.size() != 29) return; const char* p = s.data();
  CHECK(bytes_eq(p, DN[wd], 3) && p[3] == ',' && p[4] == ' ', "weekday"); CHECK(two(p + 5, d) && p[7] == ' ' && bytes_eq(p + 8, MN[m], 3) && p[11] == ' ', "day and month"); CHECK(two(p + 12, y / 100) && two(p + 14, y % 100) && p[16] == ' ', "year");
  CHECK(two(p + 17, H) && p[19] == ':' && two(p + 20, M) && p[22] == ':' && two(p + 23, S) && bytes_eq(p + 25, " GMT", 4), "time of day");
  Exact e(30); memcpy(e.p, s.c_str(), 30); CHECK(Gmt2Time(e.p) == t, "parsing the text gives the same second");
  // the same instant in the asctime form
  std::string a = std::string(DN[wd]) + " " + MN[m] + " "; if (sym_bool("pad") && d < 10) { a += ' '; a += s[6]; } else a += s.substr(5, 2); a += " " + s.substr(17, 8) + " " + s.substr(12, 4);
  CHECK(Gmt2Time(a.c_str()) == t, "asctime form gives the same second"); std::string c = s.substr(0, 7) + "-" + MN[m] + "-" + s.substr(12); CHECK(Gmt2Time(c.c_str()) == t, "dashed form gives the same second"); sym_reach("done");
}
#elif HT == 8 // arbitrary text
void harness() { int n = sym_choice(N + 1, "n"); Exact e(n + PL + 1); memcpy(e.p, PFX, PL); sym_bytes(e.p + PL, n, "s"); for (int i = 0; i < n; i++) sym_assume(e.p[PL + i] != 0); e.p[n + PL] = 0; time_t t = Gmt2Time(e.p); CHECK(t == t, "returns"); sym_reach("done"); }
#endif
