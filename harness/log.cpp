// C37 asynchronous log, C38 rotation
#define LCE_TM
#if HT >= 9 && HT < 12
#define FS_FAULTS
#endif
#include "tenv.h"
#include "env.h"
#include "CAsyncLog.h"
#include "CFileLog.h"
#if HT == 7
#include "CLog.h"
#endif
using namespace lce;
static std::string date(int day) { char b[40]; snprintf(b, sizeof b, "2024-%02d-%02d", day / 28 % 12 + 1, day % 28 + 1); return b; }
static std::string fname(int day, int i) { std::string n = "L_" + date(day); if (i) { char b[16]; snprintf(b, sizeof b, "_%d", i); n += b; } return n + ".log"; }
#if HT == 1 // writers and flusher under every schedule; nothing accepted is lost, doubled, torn or reordered
static CAsyncLog* lg; struct Line { std::string s; bool ok; }; static Line ln[2][4]; static int nl[2];
static void wr(int w, int i) { ln[w][i].ok = lg->writeRaw(ln[w][i].s); }
static void* writer(void*) { for (int i = 0; i < nl[1]; i++) { wr(1, i);
#ifdef FLUSHER2
    lg->flush();
#endif
  } return 0; }
void harness() {
  nl[0] = N0; nl[1] = N1; static const int LEN[] = LENS;
  for (int w = 0; w < 2; w++) for (int i = 0; i < nl[w]; i++) { std::string s(1, (char)('a' + w * 4 + i)); int k = LEN[sym_choice(sizeof LEN / sizeof *LEN, "len")]; while ((int)s.size() < k) { char c = (char)sym_u8("c"); s += c; } ln[w][i].s = s; }
  lg = new CAsyncLog; CHECK(lg->init("L", SECS, 1000000, 5, false, BUF), "init"); pthread_t t; if (N1) pthread_create(&t, 0, writer, 0);
  for (int i = 0; i < nl[0]; i++) { wr(0, i); if (FLUSH && i == 0) lg->flush(); }
  if (N1) pthread_join(t, 0); delete lg;
  std::string f; get_file(fname(0, 0).c_str(), f); size_t p = 0; int next[2] = {0, 0}; bool refused = false;
  while (p < f.size()) {
    int k = f[p] - 'a'; CHECK(k >= 0 && k < 8, "each line starts a line of the file"); int w = k / 4, i = k % 4; CHECK(i < nl[w] && ln[w][i].ok, "only accepted lines are in the file"); while (next[w] < i) { CHECK(!ln[w][next[w]].ok, "no accepted line is lost or moved behind a later one"); next[w]++; }
    CHECK(next[w] == i, "each line once, in order"); next[w]++; std::string& s = ln[w][i].s; CHECK(p + s.size() + 1 <= f.size() && bytes_eq(f.data() + p, s.data(), s.size()) && f[p + s.size()] == '\n', "the line is complete"); p += s.size() + 1;
  }
  for (int w = 0; w < 2; w++) for (int i = 0; i < nl[w]; i++) { if (i >= next[w]) CHECK(!ln[w][i].ok, "every accepted line reaches the file"); if (!ln[w][i].ok) refused = true; }
  sym_reach(refused ? "refused" : "all"); sym_reach("done");
}
#elif HT == 12 // many lines: one writer, buffers filled many times
void harness() {
  static const int BUFS[] = {300, 4096, 100000}; int buf = BUFS[sym_choice(3, "buf")], every = sym_bool("often") ? 3 : 17; CAsyncLog* lg = new CAsyncLog; CHECK(lg->init("L", 1000, 1000000, 5, false, buf), "init"); std::string want; int pend = 0, ref = 0;
  for (int i = 0; i < 150; i++) {
    int n = i % 11 == 3 ? buf / 2 - 3 + i % 7 : i % 13 == 5 ? buf - 3 + i % 4 : i * 7 % 90; if (n > 5000) n = 5000 + i; std::string s(n, 'x'); if (n) { sym_pattern(&s[0], n, i, 1); s[n - 1] = (char)sym_u8("c"); }
    bool ok = lg->writeRaw(s); if (ok) { want += s + "\n"; pend += n + 1; } else { CHECK(n + 1 > buf || pend + n + 1 > buf, "a line is refused only if the buffers are full"); ref++; }
    if (i % every == 0) { lg->flush(); lg->flush(); pend = 0; std::string f; get_file(fname(0, 0).c_str(), f); CHECK(f.size() == want.size(), "a flush puts everything into the file"); }
  }
  delete lg; std::string f; get_file(fname(0, 0).c_str(), f); CHECK(f.size() == want.size() && bytes_eq(f.data(), want.data(), want.size()), "every accepted line is in the file, once, complete and in order"); sym_reach(ref ? "refused" : "all"); sym_reach("done");
}
#elif HT == 13 // many lines in many files
void harness() {
  static const int MX[] = {100, 1000}; int num = 2 + sym_choice(2, "num") * 9; unsigned long max = MX[sym_choice(2, "max")]; std::string model[12]; int day = 0, have = 0;
  CFileLog lg; CHECK(lg.init("L", max, num, false), "init");
  for (int o = 0; o < 120; o++) {
    if (o == 70) { day++; now_s += 86400; for (int i = 0; i < 12; i++) model[i].clear(); have = 0; }
    int n = o * 13 % 97; std::string s(n, 'x'); if (n) sym_pattern(&s[0], n, o, 1); if (n && o % 20 == 7) s[n / 2] = (char)sym_u8("c"); CHECK(lg.writeRaw(s), "written");
    if (!have) have = 1; else if (model[0].size() >= max) { for (int i = num - 1; i > 0; i--) model[i] = model[i - 1]; model[0].clear(); if (have < num) have++; }
    model[0] += s + "\n"; if (o % 10 == 9) for (int i = 0; i <= num; i++) { std::string f; bool e = get_file(fname(day, i).c_str(), f); CHECK(e == (i < have), "exactly the expected files exist"); if (e) CHECK(str_eq(f, model[i]), "with exactly the expected lines"); }
  }
  sym_reach("done");
}
#elif HT == 2 // formats
void harness() {
  now_s = 86400 * (long)sym_choice(3, "day") + 3600 * 7 + 65; std::string d = date((int)(now_s / 86400)); CAsyncLog* lg = new CAsyncLog; CHECK(lg->init("L", 1, 1000000, 5, false, 600), "init"); std::string m = sym_cstring(2, "m"); for (int i = 0; i < 2; i++) sym_assume(m[i] != '\n');
  int v = sym_choice(3, "v"); CHECK(lg->write("%s-%d", m.c_str(), v), "formatted"); CHECK(lg->write(m), "string"); CHECK(lg->writeRaw(m), "raw"); CHECK(!lg->writeRaw(std::string(700, 'x')), "a line larger than the buffer is refused"); lg->flush(); 
  char b[8]; snprintf(b, sizeof b, "%d", v); std::string e = "[" + d + " 07:01:05]:" + m + "-" + b + "\n[" + d + " 07:01:05]" + m + "\n" + m + "\n", f;
  CHECK(get_file(fname((int)(now_s / 86400), 0).c_str(), f), "file written at flush"); CHECK(str_eq(f, e), "lines appear as written"); delete lg; CHECK(get_file(fname((int)(now_s / 86400), 0).c_str(), f) && str_eq(f, e), "and only once"); sym_reach("done");
}
#elif HT == 3 // unused logger, uninitialised logger
void harness() { { CAsyncLog a; } sym_reach("done"); }
#elif HT == 4 || HT == 5 // C38: rotation, HT 4 synchronous, HT 5 asynchronous logger
void harness() {
  int num = 2 + sym_choice(NUMS, "num"); unsigned long max = 1 + sym_choice(MAXS, "max"); int pre = sym_choice(num + 1, "pre"); std::string model[8]; bool have[8]; int day = 0;
  for (int i = 0; i < 8; i++) have[i] = false;
  for (int i = 0; i < pre && i < num; i++) { std::string s(1, (char)('A' + i)); s += "\n"; if (i == 0 && sym_bool("big")) s += "zzzz\n"; put_file(fname(0, i).c_str(), s); model[i] = s; have[i] = true; }
#if HT == 4
  CFileLog lg; CHECK(lg.init("L", max, num, false), "init");
#else
  CAsyncLog* plg = new CAsyncLog; CHECK(plg->init("L", 1000, max, num, false, 64), "init");
#endif
  for (int o = 0; o < OPS; o++) {
    if (sym_bool("newday")) { day++; now_s += 86400; for (int i = 0; i < 8; i++) have[i] = false, model[i].clear(); sym_reach("newday"); }
    std::string s(1, (char)('a' + o)); int k = sym_choice(3, "len"); while ((int)s.size() < 1 + k) s += (char)sym_u8("c");
#if HT == 4
    bool r = lg.writeRaw(s);
#else
    bool r = plg->writeRaw(s); plg->flush();
#endif
    CHECK(r, "written");
    if (model[0].size() >= max) { for (int i = num - 1; i > 0; i--) { model[i] = model[i - 1]; have[i] = have[i - 1]; } model[0].clear(); have[0] = false; sym_reach("rotated"); }
    model[0] += s + "\n"; have[0] = true;
    for (int i = 0; i <= num; i++) { std::string f; bool e = get_file(fname(day, i).c_str(), f); CHECK(e == (i < num && have[i]), "exactly the expected files exist"); if (e) CHECK(str_eq(f, model[i]), "with exactly the expected lines"); }
  }
  sym_reach("done");
#if HT == 5
  delete plg;
#endif
}
#elif HT == 6 // C38: writes from several threads through one synchronous logger
static CFileLog* lg; static std::string ln[2][2]; static void* writer(void* a) { int w = (int)(intptr_t)a; for (int i = 0; i < K; i++) CHECK(i & 1 ? lg->write("%s", ln[w][i].c_str()) : lg->write(ln[w][i]), "written"); return 0; }
void harness() {
  lg = new CFileLog; lg->init("L", 40, 3, false); for (int w = 0; w < 2; w++) for (int i = 0; i < K; i++) { ln[w][i] = std::string(1, (char)('a' + w * 2 + i)); ln[w][i] += "xyz"; }
  pthread_t t; pthread_create(&t, 0, writer, (void*)1); writer(0); pthread_join(t, 0); delete lg;
  std::string all, f; for (int i = 3; i >= 0; i--) if (get_file(fname(0, i).c_str(), f)) { CHECK(i < 3, "no more files than configured"); all += f; }
  int next[2] = {0, 0}; size_t p = 0; std::string d = "[" + date(0) + " 00:16:40]"; for (int n = 0; n < 2 * K; n++) {
    CHECK(p + d.size() < all.size() && bytes_eq(all.data() + p, d.data(), d.size()), "time stamp"); p += d.size(); if (all[p] == ':') p++; int k = all[p] - 'a'; CHECK(k >= 0 && k < 4 && next[k / 2] == k % 2, "each line once and in its thread's order"); next[k / 2]++; CHECK(p + 5 <= all.size() && all.compare(p + 1, 4, "xyz\n") == 0, "complete"); p += 5; }
  CHECK(p == all.size(), "nothing else"); sym_reach("done");
}
#elif HT == 7 // C42: the CLog facade; one line per enabled call, none otherwise
static const char* TAG[] = {"", "DEBUG", "INFO", "WARN", "ERROR"}; static const long LINE[] = {1, 70000, 2147483648l};
void harness() {
  CLog::log(CLog::LEVEL_ERROR, "x", 1, "before"); CLog::flush();
  unsigned mask = (unsigned)sym_range(0, 15, "mask"); bool show = sym_bool("show"); CHECK(CLog::init("L", 1000, 30000, 1000000, 5, false, mask, show), "init"); if (sym_bool("again")) CHECK(CLog::init("M", 1000, 30000, 1000000, 5, false, 15 - mask, !show), "a second initialisation is ignored");
  std::string want; std::string stamp = "[" + date(0) + " 00:16:40]"; std::vector<std::string> exp;
  for (int i = 0; i < CALLS; i++) {
    int lv = 1 + sym_choice(4, "level"), fi = sym_choice(2, "file"); long ln = LINE[sym_choice(3, "line")]; const char* file = fi ? "d/f.cpp" : "a%d%s.cpp"; std::string text;
#ifdef BIG
    int n = BIG - 1 + sym_choice(3, "n"); text.assign(n, 'x'); text[0] = (char)sym_u8("c"); text[n - 2] = (char)sym_u8("c"); sym_assume((text[0] != 0) & (text[n - 2] != 0) & (text[0] != '\n') & (text[n - 2] != '\n')); CLog::log(lv, file, ln, "%s", text.c_str()); if (n > 3999) text.resize(3999);
#else
    std::string m = sym_cstring(MN, "m"); for (int j = 0; j < MN; j++) sym_assume(m[j] != '\n'); int v = sym_choice(2, "v") * 12345 - 45;
    CLog::log(lv, file, ln, "%s-%d%%", m.c_str(), v); char b[16]; snprintf(b, sizeof b, "-%d%%", v); text = m + b;
#endif
    if ((mask & lv) == (unsigned)lv) { std::string e = std::string("[") + TAG[lv] + "]"; if (show) { char b2[24]; snprintf(b2, sizeof b2, "%ld", ln); e += std::string("[file:") + file + "][line:" + b2 + "]"; } exp.push_back(e + " " + text); sym_reach("on"); } else sym_reach("off");
  }
  CLog::flush(); std::string f; get_file(fname(0, 0).c_str(), f); size_t p = 0;
  for (size_t i = 0; i < exp.size(); i++) {
    CHECK(p + stamp.size() <= f.size() && bytes_eq(&f[p], stamp.data(), stamp.size()), "each line starts with the time"); p += stamp.size(); if (p < f.size() && f[p] == ':') p++;
    CHECK(p + exp[i].size() < f.size() && bytes_eq(&f[p], exp[i].data(), exp[i].size()), "then level, place and text as formatted"); p += exp[i].size(); CHECK(f[p] == '\n', "and ends"); p++;
  }
  CHECK(p == f.size(), "nothing else is logged"); std::string g; CHECK(!get_file("M_2024-01-01.log", g), "a second initialisation opens nothing"); sym_reach("done");
}
#elif HT == 8 // C46: a log whose flushing thread cannot be started
extern "C" { extern int lce_thread_fault; int lce_thread_fault; }
void harness() {
  CAsyncLog* lg = new CAsyncLog; lce_thread_fault = 1; CHECK(!lg->init("L", 1, 1000000, 5, false, 5), "a log without its flushing thread is reported"); std::string want;
  for (int i = 0; i < OPS; i++) { if (sym_choice(2, "op")) { lg->flush(); continue; } std::string s = sym_string(1 + sym_choice(2, "len"), "s"); if (lg->writeRaw(s)) want += s + "\n"; else sym_reach("refused"); }
  delete lg; std::string f; get_file(fname(0, 0).c_str(), f); CHECK(str_eq(f, want), "lines accepted all the same are in the file at the end"); sym_reach("done");
}
#elif HT == 9 // C47: synchronous log while files cannot be opened, written, renamed or removed
// all lines found in the day's files, oldest first
static std::string logs(int day, int num) { std::string all, f; for (int i = num; i >= 0; i--) if (get_file(fname(day, i).c_str(), f)) { CHECK(i < num, "no more files than configured"); if (f != "A\n") all += f; } return all; } // the oldest file may be gone or not
void harness() {
  unsigned long max = sym_bool("roll") ? 3 : 1000; std::string old; if (sym_bool("last")) put_file(fname(0, 4).c_str(), "A\n"); if (sym_bool("cur")) { put_file(fname(0, 0).c_str(), "B\nB\n"); old = "B\nB\n"; }
  CFileLog lg; CHECK(lg.init("L", max, 5, false), "init"); int day = 0, nf = 0; std::string want = old;
  for (int i = 0; i < OPS; i++) {
    if (sym_bool("newday")) { day++; now_s += 86400; want.clear(); }
    int f = 0; if (nf < FAULTS && sym_bool("fault")) { nf++; f = 1 << sym_choice(4, "kind"); }
    std::string s(1, (char)('a' + i)); if (sym_bool("len")) s += (char)sym_u8("c"); lce_fs_faults = f; bool r = i & 1 ? lg.write("%s", s.c_str()) : lg.writeRaw(s); lce_fs_faults = 0;
    CHECK(r || f, "without a fault a line is written"); std::string line = (i & 1 ? "[" + date(day) + (now_s % 86400 == 1000 ? " 00:16:40]:" : "?") + s.c_str() : s) + "\n";
    CHECK(r == (logs(day, 5).size() >= want.size() + line.size()) , "success is reported exactly if the line is in the file"); if (r) want += line; else sym_reach("failed");
    CHECK(str_eq(logs(day, 5), want), "the files hold exactly the lines written so far");
  }
  sym_reach("done");
}
#elif HT == 10 // C47: asynchronous log
static std::string logs(int num) { std::string all, f; for (int i = num; i >= 0; i--) if (get_file(fname(0, i).c_str(), f)) { CHECK(i < num, "no more files than configured"); if (f != "A\n") all += f; } return all; } // the oldest file may be gone or not
void harness() {
  unsigned long max = sym_bool("roll") ? 3 : 1000; std::string old; if (sym_bool("cur")) { old = "B\nB\n"; put_file(fname(0, 0).c_str(), old); } if (sym_bool("last")) put_file(fname(0, 4).c_str(), "A\n");
  CAsyncLog* lg = new CAsyncLog; CHECK(lg->init("L", SECS, max, 5, false, BUF), "init"); bool lossy = false; struct Ln { std::string s; bool must; }; Ln ln[8]; int n = 0;
  for (int i = 0; i < OPS; i++) {
    switch (sym_choice(3, "op")) {
    case 0: { static const int KD[] = KINDS; lce_fs_faults = KD[sym_choice(sizeof KD / sizeof *KD, "kind")]; if (lce_fs_faults & 2) { for (int j = 0; j < n; j++) ln[j].must = false; lossy = true; } if (!lce_fs_faults) lossy = false; } break;
    case 1: lg->flush(); break;
    default: { std::string s(1, (char)('a' + n)); if (sym_bool("len")) s += (char)sym_u8("c"); if (lg->writeRaw(s)) { ln[n].s = s + "\n"; ln[n++].must = !lossy; } else sym_reach("refused"); } }
  }
  lce_fs_faults = 0; bool z = lg->writeRaw("z"); delete lg; std::string all = logs(5); sym_reach("done");
  size_t p = 0; CHECK(all.size() >= old.size() && str_eq(all.substr(0, old.size()), old), "older lines are kept"); p = old.size();
  for (int j = 0; j < n; j++) { if (p < all.size() && all[p] == 'a' + j) { CHECK(p + ln[j].s.size() <= all.size() && bytes_eq(&all[p], ln[j].s.data(), ln[j].s.size()), "a line is complete"); p += ln[j].s.size(); } else { CHECK(!ln[j].must, "no accepted line is lost"); sym_reach("lost"); } }
  CHECK(all.substr(p) == (z ? "z\n" : ""), "a line accepted after the fault is written, and nothing else");
}
#elif HT == 11 // C47: the flusher meets faults while other threads use the log
static CAsyncLog* lg; static int acc[2]; static void* writer(void* a) { int w = (int)(intptr_t)a; for (int i = 0; i < 2; i++) { if (lg->writeRaw("x")) acc[w]++; if (w) lg->flush(); } return 0; }
void harness() {
  put_file(fname(0, 0).c_str(), "B\n"); put_file(fname(0, 4).c_str(), "A\n"); lce_fs_faults = 1 << sym_choice(4, "kind"); lg = new CAsyncLog; CHECK(lg->init("L", 0, 2, 5, false, 4), "init");
  pthread_t t; pthread_create(&t, 0, writer, (void*)1); writer(0); pthread_join(t, 0); CHECK(acc[0] + acc[1] >= 2 && acc[0] + acc[1] <= 4, "lines are accepted while there is room"); if (acc[0] + acc[1] < 4) sym_reach("refused"); delete lg; sym_reach("done"); lce_fs_faults = 0; std::string f; CHECK((get_file(fname(0, 0).c_str(), f) && f.compare(0, 2, "B\n") == 0) || (get_file(fname(0, 1).c_str(), f) && f.compare(0, 2, "B\n") == 0), "files stay");
}
#endif
