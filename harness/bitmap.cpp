// C16 bitmaps, C17 shared array
#include "shm.h"
#include "CBitMap.h"
#include "CShmArray.h"
using namespace lce;
#if HT == 1 // one arbitrary set on an arbitrary map: the cell takes the value, every other cell keeps its own
typedef CBitmap<WID> B;
void harness() {
  unsigned long n = 1 + sym_choice(NMAX, "n"); B b; CHECK(b.init(0x11, n), "created"); CHECK(b.size() == n, "declared size");
  unsigned char m[NMAX + 1]; const int V = 1 << WID;
  for (unsigned long i = 0; i < n; i++) { m[i] = 0; CHECK((int)b.get(i) == 0, "new map is zero"); }
  if (PRE) for (unsigned long i = 0; i < n; i++) { m[i] = sym_u8("v"); sym_assume(m[i] < V); CHECK(b.set(i, m[i]), "set in range"); }
  for (int k = 0; k < OPS; k++) {
    unsigned long i = SYMIDX ? sym_u64("i") : sym_choice(n + 2, "i"); unsigned v = sym_u8("w"); sym_assume(v < (unsigned)V);
    bool r = b.set(i, v); CHECK(r == (i < n), "set accepted exactly within the declared range"); if (r && i < n) m[i] = v; sym_reach(r ? "set" : "refused");
    if (i >= n) CHECK((int)b.get(i) == 0, "get out of range yields 0");
    for (unsigned long j = 0; j < n; j++) CHECK((unsigned)(int)b.get(j) == m[j], "every cell holds the value last set on it");
  }
  B c; CHECK(c.init(0x11, n), "attach again"); for (unsigned long j = 0; j < n; j++) CHECK((unsigned)(int)c.get(j) == m[j], "second attachment sees the same cells");
  CHECK(c.shm_size() == b.shm_size(), "segment size"); c.clear(); for (unsigned long j = 0; j < n; j++) CHECK((int)b.get(j) == 0, "clear zeroes every cell");
}
#elif HT == 2 // failures
void harness() {
  CBitmap<1> b; int w = sym_choice(3, "w"); if (w == 0) g_failget = 1; if (w == 1) g_failat = 1; bool r = b.init(7, 9, w != 2); CHECK(!r, "failure to get the segment is reported"); g_failget = g_failat = 0; sym_reach("failed");
}
#elif HT == 4 // one object set up again and again, on other segments, in other sizes, with failures in between, and on what a creator that died left behind
static const unsigned long SZ[] = {1, 9, 17};
template<int W> static void again() {
  CBitmap<W>* b = new CBitmap<W>; unsigned char m[2][17]; memset(m, 0, sizeof m); int have[2] = {-1, -1}; bool maybe[2] = {false, false};
  if (sym_bool("left")) { have[0] = sym_choice(3, "leftn"); { CBitmap<W> p; p.init(0x11, SZ[have[0]]); } memset(g_seg[0].p, 0, g_seg[0].size); sym_reach("left"); } // the creator died right after making the segment
  for (int k = 0; k < OPS; k++) {
    int key = sym_choice(2, "key"), si = sym_choice(3, "size"), fail = sym_choice(3, "fail"); unsigned long n = SZ[si]; g_failget = fail == 1; g_failat = fail == 2; bool r = b->init(0x11 + key, n); g_failget = g_failat = 0;
    if (fail) { CHECK(!r, "failure to get the segment is reported"); if (fail == 2 && have[key] < 0) { maybe[key] = true; have[key] = si; } sym_reach("failed"); }
    else if (have[key] >= 0 && si > have[key]) { if (!maybe[key]) CHECK(!r, "an existing smaller segment is not used for a larger map"); if (r) { have[key] = si; maybe[key] = false; } sym_reach("small"); }
    else { CHECK(r, "set up"); if (have[key] < 0) have[key] = si; }
    if (!r) { CHECK((int)b->get(0) == 0 && !b->set(0, 1) && !b->set(16, 1), "a map that could not be set up has no cells"); continue; }
    CHECK(b->size() == n, "declared size"); for (unsigned long j = 0; j < n; j++) CHECK((unsigned)(int)b->get(j) == m[key][j], "every cell holds the value last set on it in that segment");
    unsigned long i = sym_choice(3, "i"); i = i == 0 ? 0 : i == 1 ? n - 1 : n; unsigned v = sym_u8("v"); sym_assume(v < (1u << W)); bool s = b->set(i, v); CHECK(s == (i < n), "set accepted exactly within the declared range"); if (i < n) m[key][i] = v;
    for (unsigned long j = 0; j < n; j++) CHECK((unsigned)(int)b->get(j) == m[key][j], "and every cell holds the value last set on it"); sym_reach("again");
  }
  delete b; for (int key = 0; key < 2; key++) if (have[key] >= 0 && !maybe[key]) { unsigned long n = SZ[have[key]]; CBitmap<W> c; CHECK(c.init(0x11 + key, n), "attach"); for (unsigned long j = 0; j < n; j++) CHECK((unsigned)(int)c.get(j) == m[key][j], "another attachment sees the same cells"); c.clear(); for (unsigned long j = 0; j < n; j++) CHECK((int)c.get(j) == 0, "cleared"); }
  for (int i = 0; i < g_nseg; i++) CHECK(g_seg[i].att == 0, "nothing stays attached"); sym_reach("done");
}
void harness() { switch (sym_choice(7, "width")) { case 0: again<1>(); break; case 1: again<2>(); break; case 2: again<3>(); break; case 3: again<4>(); break; case 4: again<5>(); break; case 5: again<6>(); break; default: again<8>(); } }
#elif HT == 5 // the shared array likewise
struct El { int a; char b[3]; };
void harness() {
  static const int SZ[] = {1, 2, 4}; CShmArray<El>* x = new CShmArray<El>; int m[2][4]; memset(m, 0, sizeof m); int have[2] = {-1, -1}; bool maybe[2] = {false, false};
  if (sym_bool("left")) { have[0] = sym_choice(3, "leftn"); { CShmArray<El> p; p.init(5, SZ[have[0]]); } memset(g_seg[0].p, 0, g_seg[0].size); sym_reach("left"); }
  for (int k = 0; k < OPS; k++) {
    int key = sym_choice(2, "key"), si = sym_choice(3, "size"), fail = sym_choice(3, "fail"), n = SZ[si]; g_failget = fail == 1; g_failat = fail == 2; bool r = x->init(5 + key, n); g_failget = g_failat = 0;
    if (fail) { CHECK(!r, "failure to get the segment is reported"); if (fail == 2 && have[key] < 0) { maybe[key] = true; have[key] = si; } sym_reach("failed"); continue; }
    if (have[key] >= 0 && si > have[key]) { if (!maybe[key]) CHECK(!r, "an existing smaller segment is not used for a larger array"); if (r) { have[key] = si; maybe[key] = false; } sym_reach("small"); if (!r) continue; }
    else { CHECK(r, "set up"); if (!r) continue; if (have[key] < 0) have[key] = si; if (maybe[key]) { maybe[key] = false; have[key] = si; } }
    int sz = (int)x->size(); CHECK(sz >= n && sz <= SZ[have[key]], "size"); for (int j = 0; j < n; j++) CHECK((*x)[j].a == m[key][j], "elements as last written to that segment"); int i = sym_choice(n, "i"); m[key][i] = (int)sym_u32("a"); (*x)[i].a = m[key][i]; for (int j = 0; j < n; j++) CHECK((*x)[j].a == m[key][j], "element as last written, the others unchanged"); CHECK((int)x->size() == sz, "size unchanged"); sym_reach("again");
  }
  delete x; for (int key = 0; key < 2; key++) if (have[key] >= 0 && !maybe[key]) { CShmArray<El> y; CHECK(y.init(5 + key, SZ[have[key]]), "attach"); for (int j = 0; j < SZ[have[key]]; j++) CHECK(y[j].a == m[key][j], "same through another attachment"); }
  for (int i = 0; i < g_nseg; i++) CHECK(g_seg[i].att == 0, "nothing stays attached"); sym_reach("done");
}
#elif HT == 3 // shared array
struct El { int a; char b[3]; };
void harness() {
  int n = 1 + sym_choice(NMAX, "n"); int w = sym_choice(4, "w"); 
  if (w) { CShmArray<El> f; if (w == 1) g_failget = 1; if (w == 2) g_failat = 1; CHECK(!f.init(5, n, w != 3), "failure to get the segment is reported"); g_failget = g_failat = 0; sym_reach("failed"); }
  CShmArray<El> x; CHECK(x.init(5, n), "created"); CHECK(x.isCreate() || w == 2, "created now"); CHECK((int)x.size() == n, "size"); El m[NMAX]; memset(m, 0, sizeof m);
  CShmArray<El> y; CHECK(y.init(5, n, false) && !y.isCreate() && (int)y.size() == n, "attached again");
  for (int k = 0; k < OPS; k++) {
    int i = sym_choice(n, "i"); m[i].a = (int)sym_u32("a"); m[i].b[2] = (char)sym_u8("b"); if (sym_choice(2, "which")) x[i] = m[i]; else y[i] = m[i];
    for (int j = 0; j < n; j++) { const CShmArray<El>& cx = x; CHECK(cx[j].a == m[j].a && cx[j].b[2] == m[j].b[2], "element as last written"); CHECK(y[j].a == m[j].a && y[j].b[2] == m[j].b[2], "same through the other attachment"); }
  }
  CShmArray<El> z; CHECK(!z.init(5, n + 1), "an existing smaller segment is not used for a larger array"); sym_reach("done");
}
#endif
