// C23 configuration files
#include "env.h"
#include "CConfig.h"
using namespace lce;
struct Ent { std::string app, name, val; };
static std::string trim(const std::string& s) { size_t i = 0, j = s.size(); while (i < j && (s[i] == ' ' || s[i] == '\t' || s[i] == '\r' || s[i] == '\n')) i++; while (j > i && (s[j - 1] == ' ' || s[j - 1] == '\t' || s[j - 1] == '\r' || s[j - 1] == '\n')) j--; return s.substr(i, j - i); }
static void setEnt(std::vector<Ent>& v, const std::string& a, const std::string& n, const std::string& x) { for (size_t i = 0; i < v.size(); i++) if (str_eq(v[i].app, a) && str_eq(v[i].name, n)) { v[i].val = x; return; } Ent e; e.app = a; e.name = n; e.val = x; v.push_back(e); }
static void checkAll(CConfig& c, std::vector<Ent>& v) { for (size_t i = 0; i < v.size(); i++) { std::string x; CHECK(str_eq(c.getValue(v[i].app, v[i].name, x, "none"), v[i].val), "the entry has the value that was written"); } }
#if HT == 1 // files of well-formed lines
static std::string word(const char* nm, int max) { std::string s = sym_string(max, nm); for (size_t i = 0; i < s.size(); i++) sym_assume((unsigned char)s[i] > ' ' && s[i] != '=' && s[i] != '[' && s[i] != ']' && s[i] != '#' && s[i] != ';'); return s; }
void harness() {
  static const char* WSP[] = {"", " ", "\t "}; std::string f, app; std::vector<Ent> ref; std::vector<std::string> junk; bool crlf = sym_bool("crlf"); int n = 1 + sym_choice(LINES, "n");
  for (int i = 0; i < n; i++) {
    int k = sym_choice(6, "kind"); std::string pre = WSP[sym_choice(3, "pre")], l;
    if (k == 0) { std::string a = word("a", 1); bool sp = sym_bool("sp"), more = sym_bool("more"); l = pre + "[" + (sp ? " " : "") + a + (sp ? "\t" : "") + "]" + (more ? " ; c=d" : ""); app = a; junk.push_back("[" + a + "]"); sym_reach("section"); }
    else if (k == 1 || k == 2) { std::string nm = word("k", 1), v = sym_string(VL, "v"); for (size_t j = 0; j < v.size(); j++) sym_assume(v[j] != '\n' && v[j] != '\r'); bool sp = sym_bool("sp"); l = pre + nm + (sp ? " = " : "=") + v + (k == 2 ? " \t" : ""); setEnt(ref, app, nm, trim(v)); sym_reach("entry"); }
    else if (k == 3) { bool semi = sym_bool("semi"); std::string w = word("c", 1); l = pre + (semi ? ";" : "#") + w + "=v"; junk.push_back((semi ? ";" : "#") + w); junk.push_back(w + "x"); sym_reach("comment"); }
    else if (k == 4) l = pre; else { std::string w = word("j", 2); l = pre + w; junk.push_back(w); sym_reach("junk"); }
    bool last = i + 1 == n && sym_bool("noeol"); f += l + (last ? "" : crlf ? "\r\n" : "\n");
  }
  put_file("c.ini", f); CConfig c; CHECK(c.loadConfig("c.ini"), "an existing file loads"); checkAll(c, ref);
  std::string x; for (size_t i = 0; i < junk.size(); i++) { bool known = false; for (size_t j = 0; j < ref.size(); j++) if (str_eq(ref[j].name, junk[i])) known = true; if (!known) CHECK(str_eq(c.getValue(app, junk[i], x, "none"), "none"), "comments, sections and lines without an assignment create no entry"); }
}
#elif HT == 2 // any content, any probe
void harness() {
  int n = sym_choice(N + 1, "n"); std::string f = std::string(PFX) + sym_string(n, "f"), app; std::vector<Ent> ref; size_t p = 0;
  while (p < f.size()) { size_t e = p; while (e < f.size() && f[e] != '\n') e++; std::string l = f.substr(p, e - p); p = e + 1; size_t i = 0; while (i < l.size() && (l[i] == ' ' || l[i] == '\t')) i++; if (i == l.size() || l[i] == '#' || l[i] == ';') continue; if (l[i] == '[') { size_t j = l.find(']', i); if (j != std::string::npos) app = trim(l.substr(i + 1, j - i - 1)); continue; } size_t j = l.find('=', i); if (j == std::string::npos) continue; std::string nm = trim(l.substr(i, j - i)); if (!nm.empty()) setEnt(ref, app, nm, trim(l.substr(j + 1))); }
  put_file("c.ini", f); CConfig c; bool ok = false, thrown = false; try { ok = c.loadConfig("c.ini"); } catch (...) { thrown = true; } CHECK(!thrown && ok, "any content loads"); checkAll(c, ref);
  std::string a = sym_string(sym_choice(2, "al"), "a"), k = sym_string(1, "k"), x, want = "none"; for (size_t i = 0; i < ref.size(); i++) if (str_eq(ref[i].app, a) && str_eq(ref[i].name, k)) want = ref[i].val; CHECK(str_eq(c.getValue(a, k, x, "none"), want), "any other name yields the default"); sym_reach(ref.empty() ? "none" : "some");
}
#else // typed reads, addresses, missing files
void harness() {
  int w = sym_choice(4, "w"); CConfig c; std::string x;
  if (w == 0) { bool neg = sym_bool("neg"); unsigned long m; std::string d = sym_number(m); long v = (long)m; if (neg) { d = "-" + d; v = -v; sym_assume(m <= 9223372036854775807ul); } put_file("c.ini", "[a]\nk = " + d + " # c\n"); CHECK(c.loadConfig("c.ini"), "loads");
    int i; unsigned u; long l; unsigned short s; unsigned char b; unsigned long ul; bool bo; if (m <= 2147483647ul) { CHECK(c.getValue("a", "k", i, 1) == (int)v, "int"); CHECK(c.getValue("a", "k", bo, false) == (m != 0), "flag"); } if (m <= 9223372036854775807ul) CHECK(c.getValue("a", "k", l, 1l) == v, "long");
    if (!neg) { if (m <= 4294967295ul) CHECK(c.getValue("a", "k", u, 1u) == (unsigned)m, "unsigned"); if (m <= 65535) CHECK(c.getValue("a", "k", s, (unsigned short)1) == (unsigned short)m, "short"); if (m <= 255) CHECK(c.getValue("a", "k", b, (unsigned char)1) == (unsigned char)m, "byte"); CHECK(c.getValue("a", "k", ul, 1ul) == m, "unsigned long"); if (m > 9223372036854775807ul) sym_reach("large"); }
    int df = (int)sym_u32("df"); CHECK(c.getValue("a", "z", i, df) == df && c.getValue("b", "k", i, df) == df, "default int"); CHECK(c.getValue("a", "z", u, (unsigned)df) == (unsigned)df && c.getValue("a", "z", l, (long)df) == (long)df && c.getValue("b", "k", s, (unsigned short)df) == (unsigned short)df && c.getValue("b", "k", b, (unsigned char)df) == (unsigned char)df && c.getValue("b", "k", ul, (unsigned long)df) == (unsigned long)df && c.getValue("a", "z", bo, (df & 1) != 0) == ((df & 1) != 0), "defaults"); sym_reach("typed"); }
  else if (w == 1) { std::string ip; for (int i = 0; i < 4; i++) { if (i) ip += "."; int k = 1 + sym_choice(2, "dig"); for (int j = 0; j < k; j++) ip += (char)('0' + sym_range(j ? 0 : 1, 9, "o")); } int pd = 1 + sym_choice(4, "pd"); std::string ps; unsigned port = 0; for (int i = 0; i < pd; i++) { int t = (int)sym_range(i ? 0 : 1, 9, "p"); ps += (char)('0' + t); port = port * 10 + t; } std::string v = ip + ":" + ps; put_file("c.ini", "[s]\nsrv=" + v + "\nlist=" + v + "|10.0.0.1:99\n"); c.loadConfig("c.ini"); unsigned short got = 1; std::string g; bool r = c.getIPAndPort("s", "srv", g, got, "9.9.9.9", 5);
    if (v.size() >= 10) { CHECK(r && str_eq(g, ip) && got == port, "address and port as written"); std::vector<std::pair<std::string, unsigned short> > vs; CHECK(c.getIPAndPortList("s", "list", vs, "9.9.9.9", 5) && vs.size() == 2, "all servers of the list"); if (vs.size() == 2) CHECK(str_eq(vs[0].first, ip) && vs[0].second == port && vs[1].first == "10.0.0.1" && vs[1].second == 99, "servers in order"); sym_reach("addr"); }
    r = c.getIPAndPort("s", "none", g, got, "9.9.9.9", 5); CHECK(!r && g == "9.9.9.9" && got == 5, "default address"); }
  else if (w == 2) { put_file("c.ini", "k=1\n"); c.loadConfig("c.ini"); CHECK(!c.loadConfig("missing.ini"), "a missing file is reported"); CHECK(c.getErrMsg()[0] != 0, "with a reason"); CHECK(c.getValue("", "k", x, "none") == "1", "what was loaded stays"); sym_reach("missing"); }
  else { std::string v(3000, 'v'), s = sym_string(2, "s"); for (int i = 0; i < 2; i++) sym_assume((unsigned char)s[i] > ' '); v += s; put_file("c.ini", "k=" + v + "\nm=2\n"); put_file("d.ini", "[x]\nm=4\n[]\nm=3\n"); CHECK(c.loadConfig("c.ini") && c.loadConfig("d.ini"), "two files"); CHECK(str_eq(c.getValue("", "k", x, ""), v), "a long line is read whole"); CHECK(c.getValue("", "m", x, "") == "3" && c.getValue("x", "m", x, "") == "4", "the last writer wins"); sym_reach("two"); }
}
#endif
