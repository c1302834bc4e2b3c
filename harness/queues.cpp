// C12: CBufferQueue   C13: CCircleQueue
#include "hcommon.h"
#include "CBufferQueue.h"
#include "CCircleQueue.h"
using namespace lce;
static const int HD = 40; // attach/create header
#if HT == 1
static void push(CBufferQueue& q, std::vector<std::string>& m, int n, int D, bool two) {
  std::string s = sym_string(n, "d"); bool thrown = false; bool full = q.full(n);
  size_t used = 0; for (auto& x : m) used += x.size() + 8;
  int k = two ? sym_choice(n + 1, "split") : 0; Exact a(k), b(n - k); memcpy(a.p, s.data(), k); memcpy(b.p, s.data() + k, n - k);
  try { if (two) q.push(a.p, k, b.p, n - k); else q.push(b.p, n); } catch (std::runtime_error&) { thrown = true; }
  CHECK(thrown == full, "refused exactly when reported full for that length");
  CHECK(thrown == (used + 8 + n + 8 > (size_t)D), "accepted exactly when it fits the free space");
  if (!thrown) m.push_back(s); sym_reach(thrown ? "full" : "pushed");
}
static void pop(CBufferQueue& q, std::vector<std::string>& m, int D, bool two) {
  int sh = m.empty() || !SHORT ? 0 : sym_choice(3, "short"); // 1: a buffer that cannot take the message, which is dropped as a whole  2: more room than needed
  if (sh == 1) { unsigned long n = sym_bool("near") ? m[0].size() - 1 : 0, n1 = two ? n / 2 : 0, n2 = n - n1; Exact a(n1), b(n2); bool thrown = false; try { if (two) q.pop(a.p, n1, b.p, n2); else q.pop(b.p, n2); } catch (std::runtime_error&) { thrown = true; } CHECK(thrown, "a message longer than the caller's room is refused"); m.erase(m.begin()); sym_reach("short"); return; }
  if (two) { unsigned long n1 = sym_choice(4, "b1") * 3, n2 = sh || m.empty() ? D : n1 < m[0].size() ? m[0].size() - n1 : 0; Exact a(n1), b(n2); bool r = q.pop(a.p, n1, b.p, n2); CHECK(r == !m.empty(), "pop succeeds exactly when something is queued"); if (!r) return;
    CHECK(n1 + n2 == m[0].size() && n1 <= a.n, "popped length"); if (n1 + n2 != m[0].size()) sym_end(); CHECK(bytes_eq(a.p, m[0].data(), n1) && bytes_eq(b.p, m[0].data() + n1, n2), "popped bytes"); m.erase(m.begin()); sym_reach("popped2"); return; }
  unsigned long n = D; if (!m.empty() && !sh) n = m[0].size(); // exact fit: an overrun is caught
  Exact a(n); bool r = q.pop(a.p, n); CHECK(r == !m.empty(), "pop succeeds exactly when something is queued"); if (!r) { sym_reach("popempty"); return; }
  CHECK(n == m[0].size(), "popped length"); if (n != m[0].size()) sym_end(); CHECK(bytes_eq(a.p, m[0].data(), n), "popped bytes"); m.erase(m.begin()); sym_reach("popped");
}
void harness() {
  int D = DMIN + sym_choice(DVAR, "D"), mx = D - 16; Exact mem(HD + D); CBufferQueue q; q.create(mem.p, HD + D); std::vector<std::string> m; bool two = TWO;
  // bring the ring to any starting offset: accept and drain one message of any size
  int a = sym_choice(mx + 1, "a"); if (a) { push(q, m, a, D, false); pop(q, m, D, false); }
  for (int i = 0; i < OPS; i++) {
    int c = sym_choice(NSZ + 1 + SHORT, "op"); if (c > NSZ) { size_t was = q.size(); if (two) q.push(0, 0, 0, 0); else q.push(0, 0); CHECK(q.size() == was, "an empty message is no message"); } else if (c == NSZ) pop(q, m, D, two); else push(q, m, 1 + c * (mx - 1) / (NSZ - 1), D, two);
    CHECK(q.size() == m.size(), "count matches"); CHECK(q.empty() == m.empty(), "empty matches");
  }
  CBufferQueue q2; q2.attach(mem.p, HD + D); CHECK(q2.size() == m.size(), "attaching shows the same queue"); while (!m.empty()) pop(q2, m, D, two); CHECK(q2.empty(), "drained"); sym_reach("drained");
}
#elif HT == 2 // too small buffer, messages too long for the caller
void harness() {
  int D = 24 + sym_choice(12, "D"); Exact mem(HD + D); CBufferQueue q; q.create(mem.p, HD + D);
  int n = 1 + sym_choice(8, "n"); std::string s = sym_string(n, "s"), t = sym_string(1, "t"); bool f1 = q.full(n), f2; q.push(s.data(), n); f2 = q.full(1); if (!f2) q.push(t.data(), 1); CHECK(!f1, "fits");
  unsigned long k = sym_choice(n, "k"); Exact e(k); unsigned long kk = k; bool thrown = false; try { q.pop(e.p, kk); } catch (std::runtime_error&) { thrown = true; } CHECK(thrown, "message longer than the caller's buffer is refused"); sym_reach("toolong");
  if (!f2) { char c; kk = 1; CHECK(q.pop(&c, kk) && kk == 1 && c == t[0], "next message is intact"); CHECK(q.empty(), "empty"); }
  CBufferQueue z; Exact sm(HD + 16); thrown = false; int z1 = sym_choice(HD + 17, "z"); try { z.create(sm.p, z1); } catch (std::runtime_error&) { thrown = true; } CHECK(thrown, "region too small is refused");
  thrown = false; try { z.attach(mem.p, HD + D - 1); } catch (std::runtime_error&) { thrown = true; } CHECK(thrown, "attach with another size is refused");
}
#elif HT == 5 // attaching to arbitrary bytes: refused, or every index lies inside the region
void harness() {
  size_t D = 17 + sym_choice(8, "D"); Exact mem(HD + D); CBufferQueue v; v.create(mem.p, HD + D); uint64_t w[5], g[5]; memcpy(g, mem.p, HD); int k = sym_choice(6, "k"); if (k < 5) { w[k] = sym_u64("w"); memcpy(mem.p + 8 * k, &w[k], 8); } else for (int i = 0; i < 5; i++) { w[i] = sym_u64("w"); memcpy(mem.p + 8 * i, &w[i], 8); }
  size_t sz = HD + D - sym_choice(2, "sz"); CBufferQueue q; bool ok = true; try { q.attach(mem.p, sz); } catch (std::runtime_error&) { ok = false; }
  if (ok) { CHECK(sz == HD + D || k == 5 || w[k] != g[k], "another size is refused"); q.empty(); q.size(); sym_reach("taken"); } else { CHECK(sz != HD + D || k == 5 || w[k] != g[k], "a region a queue was made in is accepted"); sym_reach("refused"); }
  bool thrown = false; try { q.attach(mem.p, sym_choice(HD + 17, "small")); } catch (std::runtime_error&) { thrown = true; } CHECK(thrown, "a region too small is refused");
}
#elif HT == 3 // circular queue
void harness() {
  CCircleQueue<int> q; int cap = 1 + sym_choice(CAP, "cap"); q.init(cap); std::vector<int> m;
  for (int i = 0; i < OPS; i++) {
    if (sym_choice(2, "op")) { int v = (int)sym_u32("v"); bool r = q.enque(v); CHECK(r == ((int)m.size() < cap), "push accepted exactly below capacity"); if (r) m.push_back(v); else sym_reach("full"); }
    else { int v = 12345, w = v; bool r = q.deque(v); CHECK(r == !m.empty(), "pop succeeds exactly when non-empty"); if (r) { CHECK(v == m[0], "oldest element"); m.erase(m.begin()); } else { CHECK(v == w, "refused pop leaves the output alone"); sym_reach("empty"); } }
    CHECK(q.empty() == m.empty(), "empty state"); CHECK(q.full() == ((int)m.size() == cap), "full state");
  }
}
#elif HT == 4 // circular queue of strings, default size
void harness() {
  CCircleQueue<std::string> q; q.init(2); std::string a = sym_string(3, "a"), b = sym_string(20, "b"), c = sym_string(2, "c"), x;
  CHECK(q.enque(a) && q.enque(b) && !q.enque(c), "capacity 2"); CHECK(q.deque(x) && str_eq(x, a), "first"); CHECK(q.enque(c), "room again"); CHECK(q.deque(x) && str_eq(x, b), "second"); CHECK(q.deque(x) && str_eq(x, c), "third"); CHECK(!q.deque(x) && q.empty(), "drained");
  CCircleQueue<char> d; d.init(0); int n = 0; while (d.enque((char)n)) n++; CHECK(n == 1000, "default capacity"); for (int i = 0; i < 1000; i++) { char v; if (!d.deque(v) || v != (char)i) sym_fail("order"); } sym_reach("done");
}
#endif
