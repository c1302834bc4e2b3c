// C15
#include "hcommon.h"
#include <time.h>
static long g_now = 1000000;
extern "C" time_t time(time_t* p) noexcept { if (p) *p = g_now; return g_now; }
#include "CLruCache.h"
using namespace lce;
struct E { int k; uint32_t v; long c; unsigned ex; };
#if HT == 1 // any history on a small cache; model: entries in recency order
template <class C> static void run(C& c, size_t mx, bool sharded) {
  std::vector<E> m; // front = most recent
  for (int i = 0; i < OPS; i++) {
    int op = sym_choice(5, "op"), k = op == 4 || op == 3 ? 0 : sym_choice(KEYS, "k"); int at = -1; for (size_t j = 0; j < m.size(); j++) if (m[j].k == k) at = j;
    if (op == 0) { E e = {k, sym_u32("v"), g_now, EXP ? (unsigned)sym_range(0, 3, "ex") : 0}; size_t before = m.size(); CHECK(c.set(k, e.v, e.ex), "stored"); if (at >= 0) m.erase(m.begin() + at); m.insert(m.begin(), e);
      size_t sz = c.getSize(); CHECK(sz <= mx || sharded, "entry count within the maximum"); CHECK(sz >= 1 && sz <= m.size(), "plausible entry count"); if (sz < 1 || sz > m.size()) sym_end();
      if (at < 0 && before < mx && !sharded) CHECK(sz == m.size(), "no eviction below the maximum"); if (sz < m.size()) sym_reach("evicted"); if (!sharded) m.resize(sz); sym_reach("set"); }
    else if (op == 1) { uint32_t v = 0; bool r = c.get(k, v); bool exp = at >= 0 && m[at].ex && g_now - m[at].c > (long)m[at].ex; bool want = at >= 0 && !exp; CHECK(r == want, "hit exactly when the key is stored and not expired"); if (r && want) { CHECK(v == m[at].v, "latest value under the key"); E e = m[at]; m.erase(m.begin() + at); m.insert(m.begin(), e); sym_reach("hit"); } if (exp) { m.erase(m.begin() + at); sym_reach("expired"); } }
    else if (op == 2) { c.del(k); if (at >= 0) m.erase(m.begin() + at); }
    else if (op == 3) { c.clear(); m.clear(); CHECK(c.getSize() == 0, "empty after clear"); }
    else g_now += (long)sym_range(0, 4, "dt");
    CHECK(c.getSize() == m.size(), "entry count");
  }
  for (int k = 0; k < KEYS; k++) { int at = -1; for (size_t j = 0; j < m.size(); j++) if (m[j].k == k) at = j; uint32_t v = 0; bool exp = at >= 0 && m[at].ex && g_now - m[at].c > (long)m[at].ex; bool r = c.get(k, v); CHECK(r == (at >= 0 && !exp), "exactly the entries not evicted, erased or expired remain"); if (r && at >= 0) CHECK(v == m[at].v, "with their latest values"); }
}
void harness() { size_t mx = MAXSZ ? 1 + sym_choice(MAXSZ, "mx") : 10000; CLruCache<int, uint32_t> c(mx); CHECK(c.getMaxSize() == mx, "configured maximum"); run(c, mx, false); }
#elif HT == 2 // eviction order on a cache larger than one eviction batch
void harness() {
  const int MX = 60; CLruCache<int, uint32_t> c(MX); std::vector<int> m; for (int i = 0; i < MX; i++) { c.set(i, i * 3); m.push_back(i); }
  CHECK(c.getSize() == MX, "full");
  for (int i = 0; i < OPS; i++) { int w = sym_choice(4, "which"); int k = w == 0 ? 0 : w == 1 ? 25 : w == 2 ? 51 : 59; size_t at = 0; while (m[at] != k) at++; int op = sym_choice(3, "op"); uint32_t v = 0; if (op == 2) { CHECK(c.set(k, k * 3), "stored"); m.erase(m.begin() + at); m.push_back(k); } else if (op == 0) { CHECK(c.get(k, v) && v == (uint32_t)k * 3, "hit"); m.erase(m.begin() + at); m.push_back(k); } else { c.del(k); c.set(k, k * 3); m.erase(m.begin() + at); m.push_back(k); } }
  c.set(1000, 7); m.push_back(1000); size_t sz = c.getSize(); CHECK(sz <= (size_t)MX && sz >= 1, "within the maximum"); sym_reach("over");
  size_t drop = m.size() - sz; for (size_t i = 0; i < m.size(); i++) { uint32_t v = 0; bool r = c.get(m[i], v); CHECK(r == (i >= drop), "the least recently used entries are the ones evicted"); if (r) CHECK(v == (m[i] == 1000 ? 7u : (uint32_t)m[i] * 3), "value"); }
}
#elif HT == 3 // sharded cache: values never mix, string keys
void harness() {
  CLruCacheV2<std::string, std::string> c(128); CHECK(c.getMaxSize() == 128, "configured maximum"); std::string k[3], v[3]; for (int i = 0; i < 3; i++) { k[i] = sym_string(1 + (i & 1), "k"); v[i] = sym_string(2, "v"); }
  sym_assume(k[0] != k[2]);
  for (int i = 0; i < 3; i++) { CHECK(c.set(k[i], v[i]), "stored"); std::string x; CHECK(c.get(k[i], x) && str_eq(x, v[i]), "latest value under the key"); }
  std::string x; CHECK(c.get(k[0], x) && str_eq(x, v[0]), "other entries keep their values"); CHECK(c.getSize() == 3, "count");
  c.set(k[0], v[2]); CHECK(c.get(k[0], x) && str_eq(x, v[2]), "overwritten"); CHECK(c.get(k[2], x) && str_eq(x, v[2]), "kept"); c.del(k[2]); CHECK(!c.get(k[2], x) && c.get(k[1], x) && str_eq(x, v[1]), "erased key only"); c.clear(); CHECK(c.getSize() == 0 && !c.get(k[1], x), "cleared"); sym_reach("done");
}
#endif
