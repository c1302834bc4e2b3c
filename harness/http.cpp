// C08 HTTP framing, C19/C20 request parser, C21 response writer
#include "hcommon.h"
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include "Utils.h"
#include "CPackageFilter.h"
#include "CHttpPackageFilter.h"
#include "CHttpReader.h"
#include "CHttpWriter.h"
using namespace lce;
static size_t findIn(const std::string& s, const char* p, size_t n, size_t from = 0) { for (size_t i = from; i + n <= s.size(); i++) if (bytes_eq(s.data() + i, p, n)) return i; return std::string::npos; }
#if HT <= 3
// the data is presented in an exact-size block: nothing beyond it may be examined
static int whole(const char* p, int n, int& real, int& len) { Exact e(n); memcpy(e.p, p, n); CHttpPackageFilter f; real = len = -7; return f.isWholePkg(e.p, n, real, len); }
static void bounds(int r, int real, int len, int n) { CHECK(r == 0 || r == -1 || r == -2, "a result of the filter interface"); if (r == 0) CHECK(len > 0 && len <= n && real > 0 && real <= n, "the boundary lies inside the received data"); }
#endif
#if HT == 1 // arbitrary bytes, after an optional fixed beginning
void harness() {
  int n = PL + sym_choice(N + 1, "n"); std::string s = std::string(PFX, PL) + sym_string(n - PL, "s"); int real, len, r = whole(s.data(), n, real, len); bounds(r, real, len, n);
  size_t e = findIn(s, "\r\n\r\n", 4); if (e == std::string::npos) { CHECK(r != 0, "no message before the blank line"); sym_reach("partial"); }
  else if (r == 0) { CHECK((size_t)len >= e + 4, "the head is part of the message"); sym_reach("ok"); }
  else sym_reach("more");
}
#elif HT == 2 // streams of K messages cut anywhere
static const char* CL[] = {"Content-Length: ", "content-length:", "CONTENT-LENGTH: ", "Content-Length:\t"};
static std::string dec(unsigned v) { char b[16]; snprintf(b, sizeof b, "%u", v); return b; }
void harness() {
  std::string st; size_t endOf[K];
  for (int i = 0; i < K; i++) {
    int kind = sym_choice(3, "kind"); std::string m = kind == 2 ? "HTTP/1.1 200 OK\r\n" : kind == 1 ? "POST /" : "GET /";
    if (kind != 2) { std::string u = sym_string(M, "u"); for (size_t j = 0; j < u.size(); j++) sym_assume(u[j] != '\r' && u[j] != '\n' && u[j] != ' '); m += u + " HTTP/1.1\r\n"; }
    int where = sym_choice(3, "where"); std::string x = sym_string(M, "x"); for (size_t j = 0; j < x.size(); j++) sym_assume(x[j] != '\r' && x[j] != '\n');
    if (where == 1) m += "X: " + x + "\r\n"; if (where == 2) m += "X-Content-Length: 9\r\n";
    std::string body; int lim = kind == 0 ? 0 : M + 1; if (lim) { int bl = sym_choice(lim + 1, "bl"); body = sym_string(bl, "body"); m += CL[i ? 0 : sym_choice(4, "cl")] + dec(bl) + (where == 1 && i == 0 ? " \r\n" : "\r\n"); sym_reach("body"); }
    if (where == 0) m += "A: b\r\n";
    st += m + "\r\n" + body; endOf[i] = st.size();
  }
  size_t at = 0; int cut = sym_choice(st.size() + 1, "cut");
  for (int i = 0; i < K; i++) {
    size_t L = endOf[i] - at; int real, len;
    if (cut < (int)endOf[i] && cut >= (int)at) { int r = whole(st.data() + at, cut - at, real, len); CHECK(r == -1, "an incomplete message waits for more"); sym_reach("wait"); }
    int r = whole(st.data() + at, st.size() - at, real, len); CHECK(r == 0, "a complete message is recognised"); CHECK(len == (int)L && real == (int)L, "the message ends where its body ends"); if (r) return; at += len;
  }
  sym_reach("all");
}
#elif HT == 3 // every declared length
void harness() {
  static const char* P[] = {"POST / HTTP/1.1\r\n", "HTTP/1.1 200 OK\r\n"}; std::string s = P[sym_choice(2, "p")]; static const char* LD[] = {" ", "", "\t", " \t "}; static const char* TR[] = {"", " ", "\t", "\t "}; int ld = sym_choice(4, "lead"), tr = sym_choice(4, "trail"); s += "Content-Length:"; s += LD[ld]; bool neg = sym_bool("neg"); if (neg) s += "-"; int nd = 1 + sym_choice(DIG, "nd"), lz = sym_choice(2, "lz"); std::string d; unsigned v = 0;
  for (int i = 0; i < nd; i++) { int x = (int)sym_range(i || nd == 1 ? 0 : 1, 9, "d"); d += (char)('0' + x); if (nd <= 3) v = v * 10 + x; else v = 1000; } if (lz) d = "0" + d; s += d + TR[tr] + "\r\n\r\n"; size_t h = s.size(); s += sym_string(BODY, "body"); int real, len, r = whole(s.data(), s.size(), real, len); bounds(r, real, len, s.size());
  if (!neg) { if (h + v <= s.size()) { CHECK(r == 0 && (size_t)len == h + v && real == len, "the declared body is delivered"); sym_reach("fits"); } else { CHECK(r != 0, "a longer body is not there yet"); if (nd <= 9) CHECK(r == -1, "the message waits for its body"); sym_reach("wait"); } }
  else { if (neg && v > 0) CHECK(r == 0 ? len >= (int)h : 1, "a negative length never cuts the head"); sym_reach("odd"); }
}
#endif
#if (HT >= 4 && HT <= 9) || HT == 12
static int hx(int v, bool up) { return v < 10 ? '0' + v : (up ? 'A' : 'a') + v - 10; }
// one arbitrary byte as a client may escape it: as itself, as '+', or as %XX in either case
static void enc1(std::string& wire, std::string& text, const char* special) {
  int how = sym_choice(3, "how"); unsigned char c;
  if (how == 0) { c = sym_u8("raw"); sym_assume(c != '%' && c != '+' && c > ' '); for (const char* q = special; *q; q++) sym_assume(c != (unsigned char)*q); wire += (char)c; }
  else if (how == 1) { c = ' '; wire += '+'; }
  else { int h = (int)sym_range(0, 15, "h"), l = (int)sym_range(0, 15, "l"); bool up = sym_bool("up"); c = (unsigned char)(h * 16 + l); wire += '%'; wire += (char)hx(h, up); wire += (char)hx(l, up); sym_reach("escaped"); }
  text += (char)c;
}
struct Req { std::string wire; std::vector<std::string> names, vals; };
static Req params(int n, int len) { Req q; for (int i = 0; i < n; i++) { std::string nm, v; if (i) q.wire += "&"; enc1(q.wire, nm, "&=?"); q.wire += "="; int l = sym_choice(len + 1, "vl"); for (int j = 0; j < l; j++) enc1(q.wire, v, "&"); bool dup = false; for (size_t k = 0; k < q.names.size(); k++) if (str_eq(q.names[k], nm)) { q.vals[k] = v; dup = true; } if (!dup) { q.names.push_back(nm); q.vals.push_back(v); } } return q; }
static void checkParams(CHttpReader& r, const Req& q) {
  CHECK(r.getValueList().size() == q.names.size(), "as many parameters as were sent");
  for (size_t i = 0; i < q.names.size(); i++) { std::string v; r.getValue(q.names[i], v, "none"); CHECK(str_eq(v, q.vals[i]), "the parameter has the value that was sent"); }
  std::string v; CHECK(str_eq(r.getValue("no such name", v, "dflt"), "dflt"), "an absent parameter yields the default");
}
#endif
#if HT == 4 // GET and form POST
void harness() {
  int post = sym_choice(2, "post"), n = sym_choice(NPAR + 1, "n"); std::string uri = "/" + sym_string(U, "uri"); for (size_t i = 1; i < uri.size(); i++) sym_assume((unsigned char)uri[i] > ' ' && uri[i] != '?'); Req q = params(n, VL);
  std::string s = post ? "POST " + uri : "GET " + uri; int qm = n || sym_bool("qm"); if (!post && qm) s += "?" + q.wire; s += sym_bool("v") ? " HTTP/1.1\r\n" : " HTTP/1.0\r\n"; s += "Host: h\r\n"; if (post && sym_bool("ct")) s += "Content-Type: application/x-www-form-urlencoded\r\n"; s += "\r\n"; if (post) s += q.wire;
  CHttpReader r; CHECK(r.setData(s.data(), s.size()), "a well-formed request is accepted"); CHECK(r.getCommand() == (post ? POST : GET), "method"); CHECK(str_eq(r.getURI(), uri), "URI without the query"); checkParams(r, q);
  std::string raw; r.getValue(raw); CHECK(str_eq(raw, q.wire), "query text"); CHECK(str_eq(r.getHead("host"), "h") && str_eq(r.getHost(), "h"), "host"); sym_reach(post ? "post" : "get");
}
#elif HT == 5 // headers and cookies, request line
void harness() {
  static const char* M[] = {"GET", "POST", "HEAD"}; int m = CK ? 0 : sym_choice(3, "m"), si = CK ? 0 : sym_choice(4, "sep"), one = CK || sym_bool("one"); std::string a = sym_string(sym_choice(CK ? 1 : L + 1, "al"), "a"), nm = sym_string(2, "nm"); if (CK) nm = "Xy"; static const char* SEP[] = {": ", ":", ":\t ", ":  "};
  for (size_t i = 0; i < a.size(); i++) sym_assume(a[i] != '\r' && a[i] != '\n' && a[i] != 0); if (!a.empty()) { sym_assume(a[0] != ' ' && a[0] != '\t' && a[a.size() - 1] != ' ' && a[a.size() - 1] != '\t'); }
  for (int i = 0; i < 2; i++) sym_assume((nm[i] >= 'a' && nm[i] <= 'z') || (nm[i] >= 'A' && nm[i] <= 'Z') || nm[i] == '-');
  std::string s = std::string(M[m]) + " /p HTTP/1." + (one ? "1" : "0") + "\r\n" + nm + SEP[si] + a + "\r\nConnection: keep-alive\r\nUser-Agent: x\r\n"; std::string cw, cv, cw2, cv2; int nc = CK ? sym_choice(3, "nc") : 0;
  if (nc) { enc1(cw, cv, ";"); if (sym_bool("two")) enc1(cw, cv, ";"); s += "Cookie: n=" + cw; if (nc == 2) { enc1(cw2, cv2, ";"); bool sp = sym_bool("sp"); s += sp ? "; " : ";"; s += "mm=" + cw2; } s += "\r\n"; } s += "\r\n";
  CHttpReader r; CHECK(r.setData(s.data(), s.size()), "a well-formed request is accepted"); CHECK(r.getCommand() == (m == 0 ? GET : m == 1 ? POST : HEAD), "method"); CHECK(str_eq(r.getURI(), "/p"), "URI"); CHECK(strncmp(r.getVersion(), "HTTP/1.", 7) == 0, "version");
  CHECK(str_eq(r.getHead(nm), a), "the header has the value that was sent"); std::string low = nm; for (int i = 0; i < 2; i++) if (low[i] >= 'A' && low[i] <= 'Z') low[i] += 32; CHECK(str_eq(r.getHead(low), a), "header names ignore case"); CHECK(str_eq(r.getConnection(), "keep-alive") && str_eq(r.getUserAgent(), "x"), "connection choice and user agent"); CHECK(str_eq(r.getHead("absent"), ""), "an absent header is empty");
  std::string v; if (nc) { CHECK(str_eq(r.getCookie("n", v, "none"), cv), "cookie value"); } CHECK(str_eq(r.getCookie("mm", v, "none"), nc == 2 ? cv2 : "none"), "second cookie"); CHECK(str_eq(r.getCookie("zz", v, "none"), "none"), "an absent cookie yields the default"); sym_reach(nc == 2 ? "cookies" : "headers");
}
#elif HT == 6 // multipart posts
void harness() {
  static const char* B[] = {"B", "----x", "\"qb\""}; int bi = sym_choice(3, "bi"); std::string bw = B[bi], b = bi == 2 ? "qb" : bw; static const char* CT[] = {"Content-Type: ", "content-type: ", "Content-Type:"}; std::string body; int n = sym_choice(NPART + 1, "n"); std::string vals[NPART + 1], types[NPART + 1]; bool isf[NPART + 1]; if (sym_bool("preamble")) body += "x\r\n";
  for (int i = 0; i < n; i++) {
    char nm = (char)('a' + i); isf[i] = sym_bool("file"); int kind = sym_choice(4, "kind"); std::string v = kind == 0 ? "" : kind == 1 ? sym_string(VL, "v") : kind == 2 ? "--" + b : "name=\"z\"; filename=\"q\"\r\nContent-Type: bad\r\n\r\n" + sym_string(1, "t");
    body += "--" + b + "\r\n"; bool tf = isf[i] && sym_bool("tfirst"); types[i] = isf[i] ? "t/x" : ""; if (tf) body += "Content-Type: t/x\r\n"; body += std::string("Content-Disposition: form-data; ");
    if (isf[i] && sym_bool("ffirst")) body += std::string("filename=\"f") + nm + "\"; name=\"" + nm + "\""; else { body += std::string("name=\"") + nm + "\""; if (isf[i]) body += std::string("; filename=\"f") + nm + "\""; } body += "\r\n"; if (isf[i] && !tf) { if (sym_bool("ctype")) { body += "Content-Type: t/x\r\n"; } else types[i] = ""; if (sym_bool("more")) body += "X: y\r\n"; } body += "\r\n" + v + "\r\n"; vals[i] = v;
  }
  body += "--" + b + "--\r\n"; std::string s = "POST /u HTTP/1.1\r\n" + std::string(CT[sym_choice(3, "ct")]) + "multipart/form-data; boundary=" + bw + "\r\n\r\n" + body; CHttpReader r; CHECK(r.setData(s.data(), s.size()), "a well-formed upload is accepted"); CHECK(r.getCommand() == POST, "method");
  for (int i = 0; i < n; i++) { std::string k(1, (char)('a' + i)), v; if (!isf[i]) { CHECK(str_eq(r.getValue(k, v, "none"), vals[i]), "the field has the bytes that were sent"); CHECK(r.getFile(k).empty() && r.getFileName(k).empty(), "a plain field is no file"); sym_reach("field"); }
    else { CHECK(str_eq(r.getFile(k), vals[i]), "the file has the bytes that were sent"); CHECK(str_eq(r.getFileName(k), "f" + k), "file name"); CHECK(str_eq(r.getFileType(k), types[i]), "file type"); sym_reach("file"); } }
  CHECK((int)r.getValueList().size() <= n, "no field that was not sent"); CHECK(strncmp(r.getContentType(), "multipart/form-data", 19) == 0, "content type header");
}
#elif HT == 12 // pieces that are no field, between the fields of a query, a form or a cookie header
void harness() {
  int kind = sym_choice(3, "kind"); std::string t; const char* sep = kind == 2 ? ";" : "&"; bool sp = kind == 2 && sym_bool("sp"); std::vector<std::string> n, v; static const char* ODD[] = {"", "x", "%3D"};
  for (int i = 0; i < PIECES; i++) { if (i) { t += sep; if (sp) t += ' '; } int c = sym_choice(4, "piece"); if (c == 3) { std::string s; t += (char)('a' + i); t += '='; n.push_back(std::string(1, (char)('a' + i))); if (sym_bool("value")) enc1(t, s, "&;"); v.push_back(s); } else { t += ODD[c]; sym_reach("odd"); } }
  std::string s = kind == 0 ? "GET /p?" + t + " HTTP/1.1\r\nHost: h\r\n\r\n" : kind == 1 ? "POST /p HTTP/1.1\r\nHost: h\r\n\r\n" + t : "GET /p HTTP/1.1\r\nCookie: " + t + "\r\nHost: h\r\n\r\n";
  CHttpReader r; CHECK(r.setData(s.data(), s.size()), "the request is accepted"); CHECK(str_eq(r.getURI(), "/p") && str_eq(r.getHead("host"), "h"), "the rest of the request");
  for (size_t i = 0; i < n.size(); i++) { std::string w; if (kind == 2) r.getCookie(n[i], w, "none"); else r.getValue(n[i], w, "none"); CHECK(str_eq(w, v[i]), "every field that was sent has its value"); sym_reach("field"); }
}
#elif HT == 7 // typed reads
void harness() {
  bool neg = sym_bool("neg"); unsigned long m; std::string d = sym_number(m); long v = (long)m; if (neg) { d = "-" + d; v = -v; sym_assume(m <= 2147483648ul); }
  std::string s = "GET /?k=" + d + " HTTP/1.1\r\nCookie: k=" + d + "\r\n\r\n"; CHttpReader r; CHECK(r.setData(s.data(), s.size()), "accepted"); int i; unsigned long u; unsigned short w; unsigned char c; bool bo; if (m <= 2147483647ul || neg) { CHECK(r.getValue("k", i, 1) == (int)v, "int parameter"); CHECK(r.getCookie("k", i, 1) == (int)v, "int cookie"); CHECK(r.getValue("k", bo, false) == (m != 0), "flag"); sym_reach("int"); }
  if (!neg) { CHECK(r.getValue("k", u, 1ul) == m, "long parameter"); CHECK(r.getCookie("k", u, 1ul) == m, "long cookie"); if (m > 9223372036854775807ul) sym_reach("large"); if (m <= 65535) CHECK(r.getValue("k", w, (unsigned short)1) == (unsigned short)m, "short"); if (m <= 255) { CHECK(r.getValue("k", c, (unsigned char)1) == (unsigned char)m, "byte parameter"); CHECK(r.getCookie("k", c, (unsigned char)1) == (unsigned char)m, "byte cookie"); } } CHECK(r.getValue("z", i, 7) == 7 && r.getValue("z", u, 8ul) == 8 && r.getValue("z", w, (unsigned short)9) == 9 && r.getValue("z", bo, true) == true && r.getCookie("z", i, 7) == 7, "defaults"); sym_reach("ok");
}
#elif HT == 8 || HT == 9
static void same(const std::string& a, const std::string& b, const char* m) { CHECK(str_eq(a, b), m); }
static void probe(CHttpReader& r, std::vector<std::string>& o) { o.push_back(r.getURI()); o.push_back(r.getVersion()); o.push_back(r.getBody()); o.push_back(r.getCookieList()); static const char* H[] = {"host", "x", "content-type", "cookie", "connection"}; for (int i = 0; i < 5; i++) o.push_back(r.getHead(H[i])); static const char* K[] = {"a", "b", "f"}; std::string v; for (int i = 0; i < 3; i++) { r.getValue(K[i], v, "none"); o.push_back(v); r.getCookie(K[i], v, "none"); o.push_back(v); o.push_back(r.getFile(K[i])); o.push_back(r.getFileName(K[i])); o.push_back(r.getFileType(K[i])); } r.getValue(v); o.push_back(v); v.clear(); for (std::map<std::string, std::string>::const_iterator it = r.getValueList().begin(); it != r.getValueList().end(); ++it) v += it->first + "=" + it->second + "\n"; o.push_back(v); }
#if HT == 8 // hostile bytes
#ifndef LONG
#define LONG 0
#endif
void harness() {
  int n = sym_choice(N + 1, "n"); std::string t = sym_string(n, "s"), s = std::string(PFX, PL) + std::string(LONG, 'q') + t + SFX; Exact e(s.size()); memcpy(e.p, s.data(), s.size()); CHttpReader r; bool thrown = false, ok = false; try { ok = r.setData(e.p, s.size()); } catch (...) { thrown = true; } CHECK(!thrown, "parsing arbitrary bytes never throws"); if (thrown) return; std::vector<std::string> o; probe(r, o); if (!ok) { CHECK(r.getErrMsg()[0] != 0, "a refused request says why"); sym_reach("rejected"); } else sym_reach("accepted");
}
#else // nothing of the previous request remains
static const char* REQ[] = {"GET /one?a=1&b=2 HTTP/1.1\r\nHost: h1\r\nX: y\r\nCookie: a=c1; b=c2\r\nConnection: keep-alive\r\n\r\n", "POST /two HTTP/1.0\r\nHost: h2\r\n\r\na=%41", "POST /three HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=B\r\n\r\n--B\r\nContent-Disposition: form-data; name=\"f\"; filename=\"n\"\r\nContent-Type: t\r\n\r\ndata\r\n--B\r\nContent-Disposition: form-data; name=\"a\"\r\n\r\nv\r\n--B--\r\n", "HEAD /four HTTP/1.1\r\n\r\n", "PUT /five HTTP/1.1\r\nHost: h\r\n\r\n", "GET /six", "GET", "", "POST / HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\n: bad\r\nHost: z\r\n\r\n"};
void harness() {
  int a = sym_choice(10, "first"), b = sym_choice(10, "second"); bool clr = sym_bool("clear"); std::string sa = REQ[a], sb = REQ[b]; if (sym_bool("tail")) sb += sym_string(2, "t"); CHttpReader r, fresh; bool ra = r.setData(sa.data(), sa.size()); (void)ra; if (clr) { r.clear(); std::vector<std::string> o, q; CHttpReader nw; probe(r, o); probe(nw, q); for (size_t i = 0; i < o.size() && i < q.size(); i++) same(o[i], q[i], "a cleared parser is like a new one"); }
  bool rb = r.setData(sb.data(), sb.size()), rf = fresh.setData(sb.data(), sb.size()); CHECK(rb == rf, "same verdict as a fresh parser"); if (rf) CHECK(r.getCommand() == fresh.getCommand(), "same method as a fresh parser"); std::vector<std::string> o, q; probe(r, o); probe(fresh, q); CHECK(o.size() == q.size(), "same shape"); for (size_t i = 0; i < o.size() && i < q.size(); i++) same(o[i], q[i], "nothing of the previous request is visible"); same(r.getErrMsg(), fresh.getErrMsg(), "the error text is of this request"); sym_reach("pair");
}
#endif
#endif
#if HT >= 10
#ifdef LCE_SYMBOLIC_BUILD
static struct tm g_tm;
extern "C" struct tm* gmtime_r(const time_t* t, struct tm* o) noexcept { memset(o, 0, sizeof *o); o->tm_mday = 1 + (int)(*t % 28); o->tm_year = 70; o->tm_wday = 4; return o; }
extern "C" struct tm* gmtime(const time_t* t) noexcept { return gmtime_r(t, &g_tm); }
extern "C" time_t time(time_t* t) noexcept { if (t) *t = 86400 * 9; return 86400 * 9; }
#endif
static std::string textOf(int len, const char* nm) { std::string s; if (len <= 3) s = sym_string(len, nm); else { s = std::string(len, 'q'); std::string e = sym_string(2, nm); s[0] = e[0]; s[len - 1] = e[1]; } for (size_t i = 0; i < s.size(); i++) if (i < 3 || i + 1 == s.size()) sym_assume(s[i] != '\r' && s[i] != '\n'); if (len) sym_assume(s[0] != ' ' && s[0] != '\t' && s[len - 1] != ' ' && s[len - 1] != '\t'); return s; }
// the response as a client reads it
struct Resp { bool ok; std::string status; std::vector<std::string> names, vals; std::string body; };
static Resp parse(const std::string& d) {
  Resp r; r.ok = false; size_t e = findIn(d, "\r\n\r\n", 4); if (e == std::string::npos) return r; r.body = d.substr(e + 4); size_t p = findIn(d, "\r\n", 2); r.status = d.substr(0, p); p += 2;
  while (p < e + 2) { size_t q = findIn(d, "\r\n", 2, p); size_t c = p; while (c < q && d[c] != ':') c++; if (c == q) return r; r.names.push_back(d.substr(p, c - p)); c++; while (c < q && (d[c] == ' ' || d[c] == '\t')) c++; size_t q0 = q; while (q > c && (d[q - 1] == ' ' || d[q - 1] == '\t')) q--; r.vals.push_back(d.substr(c, q - c)); p = q0 + 2; }
  r.ok = true; return r;
}
static int count(const Resp& r, const char* n) { int k = 0; for (size_t i = 0; i < r.names.size(); i++) k += str_eq(r.names[i], n); return k; }
static void has(const Resp& r, const std::string& n, const std::string& v, const char* msg) { int k = 0; for (size_t i = 0; i < r.names.size(); i++) if (str_eq(r.names[i], n)) { k++; CHECK(str_eq(r.vals[i], v), msg); } CHECK(k == 1, msg); }
static std::string dec(unsigned long v) { char b[24]; snprintf(b, sizeof b, "%lu", v); return b; }
static void statusIs(const Resp& r, int code) { CHECK(r.ok, "head lines and a blank line"); if (!r.ok) return; char b[32]; int n = snprintf(b, sizeof b, "HTTP/1.1 %d ", code); CHECK((int)r.status.size() > n && bytes_eq(r.status.data(), b, n), "status line with the chosen code"); }
#endif
#if HT == 10 // one response
static const int LEN[] = {0, 1, 2, 3, 990, 1001, 1010, 1024, 2500};
void harness() {
  CHttpWriter w; w.begin(); int which = sym_choice(9, "which"), lines = 4; std::string v = textOf(LEN[sym_choice(NLEN, "len")], "v"); int code = 200; std::string body;
  if (which == 0) { code = (int)sym_range(100, 599, "code"); w.setStatusCode(code); }
  else if (which == 1) { w.setHead("X-A", v); w.setHead("X-B", "b"); lines += 2; }
  else if (which == 2) w.setConnection(v);
  else if (which == 3) w.setContentType(v);
  else if (which == 4) { w.setCacheControl(v); lines += !v.empty(); }
  else if (which == 5) { w.setETag(v); lines += !v.empty(); }
  else if (which == 6) { w.setLocation(v); lines += !v.empty(); }
  else if (which == 7) { w.setCookie("n", v); w.setCookie("m", 42, "dom", "/pa"); lines += 2; }
  else { w.setLastModified(86400 * 5); w.setExpires(86400 * 7); lines += 2; }
  unsigned long set = 0; int bk = sym_choice(5, "bk"); if (bk == 1) { body = sym_string(BL, "body"); w.write(body.data(), body.size()); } else if (bk == 2) { body = std::string(5000, 'z'); w << body; } else if (bk == 3) { body = "ab12"; w << "ab" << 12; } else if (bk == 4) { static const unsigned long SET[] = {77, 4294967295ul, 5000000000ul, 18446744073709551615ul}; set = SET[sym_choice(4, "set")]; w.setBodyLen(set); }
  w.end(); std::string d(w.data(), w.size()); CHECK(w.getDataLen() == (int)w.size() && w.getData() == w.data(), "two names for the same data"); Resp r = parse(d); statusIs(r, code); if (!r.ok) return;
  CHECK(str_eq(r.body, body), "the exact body"); if (code < 200 || code == 204 || code == 304) { if (body.empty() && bk != 4) { CHECK(count(r, "Content-Length") <= 1, "at most one length"); lines += count(r, "Content-Length") - 1; } } if (!(code < 200 || code == 204 || code == 304) || !body.empty()) has(r, "Content-Length", dec(bk == 4 ? set : body.size()), "Content-Length is the size of the body");
  has(r, "Connection", which == 2 ? v : "Close", "Connection"); has(r, "Content-Type", which == 3 ? v : "text/html", "Content-Type"); CHECK(count(r, "Date") == 1, "one Date");
  if (which == 1) { has(r, "X-A", v, "the header that was set, once"); has(r, "X-B", "b", "the second header, once"); }
  if (which == 4 && !v.empty()) has(r, "Cache-Control", v, "Cache-Control"); if (which == 5 && !v.empty()) has(r, "ETag", v, "ETag"); if (which == 6 && !v.empty()) has(r, "Location", v, "Location");
  if (which == 7) { int k = 0; for (size_t i = 0; i < r.names.size(); i++) if (str_eq(r.names[i], "Set-Cookie")) { k++; std::string a = r.vals[i].substr(0, 2); if (str_eq(a, "n=")) CHECK(str_eq(r.vals[i], "n=" + v), "the cookie that was set"); else { CHECK(str_eq(a, "m="), "a cookie that was set"); CHECK(findIn(r.vals[i], "m=42", 4) == 0 && findIn(r.vals[i], "; Domain=dom", 12) != std::string::npos && findIn(r.vals[i], "; Path=/pa", 10) != std::string::npos && r.vals[i].size() == 26, "cookie attributes"); } } CHECK(k == 2, "each cookie once"); }
  if (which == 8) { has(r, "Last-Modified", GetGMTDate(86400 * 5), "Last-Modified"); has(r, "Expires", GetGMTDate(86400 * 7), "Expires"); }
  CHECK((int)r.names.size() == lines + 0, "no other header"); sym_reach(body.empty() ? "empty" : "body"); if (v.size() > 1000) sym_reach("long");
}
#elif HT == 11 // a reused writer
static void fill(CHttpWriter& w, unsigned m, const std::string& v) { if (m & 1) w.setStatusCode(404); if (m & 2) w.setHead("X" + v, v); if (m & 4) w.setCookie("c", v, "d", "/p", 60); if (m & 8) { w.setConnection("keep-alive"); w.setCacheControl(v); } if (m & 16) { w.setLocation(v); w.setETag(v); } if (m & 32) { w.setExpires(86400 * 4); w.setLastModified(86400 * 5); } if (m & 64) { w << v; w.setContentType(v); } if (m & 128) w.setBodyLen(9); }
static std::string noTime(std::string s) { size_t p; if ((p = findIn(s, "Date: ", 6)) != std::string::npos) s.erase(p, findIn(s, "\r\n", 2, p) - p); if ((p = findIn(s, "; Expires=", 10)) != std::string::npos) s.erase(p, 39); return s; }
void harness() {
  unsigned a = sym_choice(256, "a"), b = sym_choice(8, "b"); static const unsigned SEL[] = {0, 1, 2, 4, 8, 48, 64, 255}; std::string v = textOf(2, "v"), u = textOf(2, "u"); CHttpWriter w, f; if (sym_bool("b0")) w.begin(); fill(w, a, v); w.end(); w.begin(); fill(w, SEL[b], u); w.end(); if (sym_bool("twice")) w.end(); if (sym_bool("b1")) f.begin(); fill(f, SEL[b], u); f.end();
  CHECK(str_eq(noTime(std::string(w.data(), w.size())), noTime(std::string(f.data(), f.size()))), "a reused writer gives the same response as a new one"); sym_reach("pair");
}
#endif
