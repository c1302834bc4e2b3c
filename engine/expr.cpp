#include "expr.h"
#include <cstring>
#include <cstdio>
#include <cmath>
#include <algorithm>
#include <set>
#include <map>

std::vector<VarInfo> gVars; std::vector<E> gVarExpr;
uint64_t gExprCount = 0;
E eTrue, eFalse;
static const std::vector<uint32_t> noVars;

static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 32); }

struct Table {
  std::vector<E> slots; size_t n = 0;
  Table() : slots(1 << 20, nullptr) {}
} static T;
static char* arena = nullptr; static size_t arenaLeft = 0;
static E allocE() {
  if (arenaLeft < sizeof(Expr)) { arenaLeft = sizeof(Expr) * 65536; arena = (char*)aligned_alloc(64, arenaLeft); }
  E e = (E)arena; arena += sizeof(Expr); arenaLeft -= sizeof(Expr); return e;
}
static uint64_t hashE(Kind k, unsigned w, uint32_t aux, E a, E b, E c, u128 v) {
  uint64_t h = mix(k * 1315423911u + w, aux);
  h = mix(h, a ? a->id + 1 : 0); h = mix(h, b ? b->id + 1 : 0); h = mix(h, c ? c->id + 1 : 0);
  h = mix(h, (uint64_t)v); h = mix(h, (uint64_t)(v >> 64)); return h;
}
static std::set<std::vector<uint32_t>> varSets;
static const std::vector<uint32_t>* internVS(const std::vector<uint32_t>& v) {
  if (v.empty()) return &noVars; return &*varSets.insert(v).first;
}
static const std::vector<uint32_t>* unionVS(const std::vector<uint32_t>* a, const std::vector<uint32_t>* b) {
  if (a == b || b->empty()) return a; if (a->empty()) return b;
  if (b->size() == 1 && std::binary_search(a->begin(), a->end(), (*b)[0])) return a;
  if (a->size() == 1 && std::binary_search(b->begin(), b->end(), (*a)[0])) return b;
  static std::map<std::pair<const void*, const void*>, const std::vector<uint32_t>*> memo;
  auto key = a < b ? std::make_pair((const void*)a, (const void*)b) : std::make_pair((const void*)b, (const void*)a);
  auto it = memo.find(key); if (it != memo.end()) return it->second;
  std::vector<uint32_t> r; std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  auto* p = internVS(r); if (memo.size() > 2000000) memo.clear(); memo[key] = p; return p;
}
static void knownBits(E e);
static E raw(Kind k, unsigned w, uint32_t aux, E a, E b, E c, u128 v) {
  if (T.n * 2 > T.slots.size()) {
    std::vector<E> old; old.swap(T.slots); T.slots.assign(old.size() * 2, nullptr);
    for (E e : old) if (e) { size_t i = hashE(e->k, e->w, e->aux, e->a, e->b, e->c, e->val) & (T.slots.size() - 1); while (T.slots[i]) i = (i + 1) & (T.slots.size() - 1); T.slots[i] = e; }
  }
  size_t i = hashE(k, w, aux, a, b, c, v) & (T.slots.size() - 1);
  while (E e = T.slots[i]) {
    if (e->k == k && e->w == w && e->aux == aux && e->a == a && e->b == b && e->c == c && e->val == v) return e;
    i = (i + 1) & (T.slots.size() - 1);
  }
  E e = allocE(); memset((void*)e, 0, sizeof(Expr));
  e->k = k; e->w = w; e->aux = aux; e->a = a; e->b = b; e->c = c; e->val = v; e->id = (uint32_t)gExprCount++;
  e->ct = k == KConst || (k == KIte && b->ct && c->ct);
  e->vars = &noVars; e->depth = 1;
  for (E x : {a, b, c}) if (x) { e->vars = unionVS(e->vars, x->vars); e->hasUninit |= x->hasUninit; if (x->depth + 1 > e->depth) e->depth = x->depth + 1; }
  if (k == KVar) { std::vector<uint32_t> s(1, aux); e->vars = internVS(s); e->hasUninit = gVars[aux].uninit; }
  knownBits(e);
  T.slots[i] = e; T.n++; return e;
}
static void knownBits(E e) {
  u128 m = maskw(e->w); e->kz = e->ko = 0;
  switch (e->k) {
    case KConst: e->ko = e->val; e->kz = m & ~e->val; break;
    case KNot: e->kz = e->a->ko; e->ko = e->a->kz; break;
    case KAnd: e->kz = e->a->kz | e->b->kz; e->ko = e->a->ko & e->b->ko; break;
    case KOr: e->kz = e->a->kz & e->b->kz; e->ko = e->a->ko | e->b->ko; break;
    case KXor: e->kz = (e->a->kz & e->b->kz) | (e->a->ko & e->b->ko); e->ko = (e->a->kz & e->b->ko) | (e->a->ko & e->b->kz); break;
    case KConcat: e->kz = (e->a->kz << e->b->w) | e->b->kz; e->ko = (e->a->ko << e->b->w) | e->b->ko; break;
    case KExtract: e->kz = (e->a->kz >> e->aux) & m; e->ko = (e->a->ko >> e->aux) & m; break;
    case KZExt: e->kz = e->a->kz | (m & ~maskw(e->a->w)); e->ko = e->a->ko; break;
    case KSExt: { u128 s = (u128)1 << (e->a->w - 1); u128 hi = m & ~maskw(e->a->w); e->kz = e->a->kz | ((e->a->kz & s) ? hi : 0); e->ko = e->a->ko | ((e->a->ko & s) ? hi : 0); break; }
    case KIte: e->kz = e->b->kz & e->c->kz; e->ko = e->b->ko & e->c->ko; break;
    case KAdd: case KMul: {
      // trailing zeros, and leading zeros if no overflow
      u128 ma = umaxOf(e->a), mb = umaxOf(e->b);
      unsigned ta = 0, tb = 0; while (ta < e->w && (e->a->kz >> ta & 1)) ta++; while (tb < e->w && (e->b->kz >> tb & 1)) tb++;
      unsigned t = e->k == KAdd ? std::min(ta, tb) : std::min<unsigned>(ta + tb, e->w);
      e->kz |= maskw(t) & m;
      if (e->w <= 64) {
        bool ov = false; u128 s;
        if (e->k == KAdd) s = ma + mb; else s = ma * mb;
        if (s > m) ov = true;
        if (!ov) { unsigned L = 0; while (L < e->w && (s >> L)) L++; e->kz |= m & ~maskw(L); }
      }
      break; }
    case KUDiv: { if (e->b->k == KConst && e->b->val) { u128 s = umaxOf(e->a) / e->b->val; unsigned L = 0; while (L < e->w && (s >> L)) L++; e->kz |= m & ~maskw(L); } break; }
    case KURem: { if (e->b->k == KConst && e->b->val) { u128 s = e->b->val - 1; if (umaxOf(e->a) < s) s = umaxOf(e->a); unsigned L = 0; while (L < e->w && (s >> L)) L++; e->kz |= m & ~maskw(L); } break; }
    case KLShr: { unsigned L = 0; u128 s = umaxOf(e->a); while (L < e->w && (s >> L)) L++; e->kz |= m & ~maskw(L); break; }
    default: break;
  }
}
E mkC(u128 v, unsigned w) { return raw(KConst, w, 0, 0, 0, 0, v & maskw(w)); }
void exprInit() { eTrue = mkC(1, 1); eFalse = mkC(0, 1); }
static std::unordered_map<std::string, E> varByName;
E mkVar(const std::string& name, unsigned w, bool uninit) {
  std::string key = name + "/" + std::to_string(w);
  auto it = varByName.find(key); if (it != varByName.end()) return it->second;
  gVars.push_back({name, w, uninit}); E e = raw(KVar, w, gVars.size() - 1, 0, 0, 0, 0); gVarExpr.push_back(e);
  varByName[key] = e; return e;
}
static bool allKnown(E e) { return (e->kz | e->ko) == maskw(e->w); }
static E fin(E e) { if (!isC(e) && e->k != KAgg && allKnown(e)) return mkC(e->ko, e->w); return e; }

struct MKey { E a; uint64_t x; bool operator==(const MKey& o) const { return a == o.a && x == o.x; } };
struct MHash { size_t operator()(const MKey& k) const { return mix((uint64_t)(uintptr_t)k.a, k.x); } };
static std::unordered_map<MKey, E, MHash> memoU;   // unary pushes through DAGs
static E memoGet(E a, uint64_t x) { auto it = memoU.find({a, x}); return it == memoU.end() ? nullptr : it->second; }
static E memoPut(E a, uint64_t x, E r) { if (memoU.size() > 8000000) memoU.clear(); memoU[{a, x}] = r; return r; }

E mkNot(E a) {
  if (isC(a)) return mkC(~a->val, a->w);
  if (a->k == KNot) return a->a;
  if (a->w == 1) {
    if (a->k == KUlt) return mkBin(KUle, a->b, a->a);
    if (a->k == KUle) return mkBin(KUlt, a->b, a->a);
    if (a->k == KSlt) return mkBin(KSle, a->b, a->a);
    if (a->k == KSle) return mkBin(KSlt, a->b, a->a);
  }
  if (a->k == KIte && a->ct) { if (E r = memoGet(a, 1)) return r; return memoPut(a, 1, mkIte(a->a, mkNot(a->b), mkNot(a->c))); }
  if (a->k == KConcat) return mkConcat(mkNot(a->a), mkNot(a->b));
  return fin(raw(KNot, a->w, 0, a, 0, 0, 0));
}
E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (w < a->w) return mkExtract(a, 0, w);
  if (isC(a)) return mkC(a->val, w);
  if (a->k == KZExt) return mkZExt(a->a, w);
  if (a->k == KExtract && a->aux == 0 && !((~a->a->kz & maskw(a->a->w)) >> a->w)) return mkZExt(a->a, w);
  if ((a->k == KAdd || (a->k == KMul && isC(a->b))) && a->w <= 64 && w <= 64) { // no overflow: push through, so that sums of digits stay in one shape
    u128 x = umaxOf(a->a), y = umaxOf(a->b); if ((a->k == KAdd ? x + y : x * y) <= maskw(a->w)) { if (E r = memoGet(a, 3000 + w)) return r; return memoPut(a, 3000 + w, mkBin(a->k, mkZExt(a->a, w), mkZExt(a->b, w))); }
  }
  if (a->k == KIte && a->ct) { if (E r = memoGet(a, 1000 + w)) return r; return memoPut(a, 1000 + w, mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w))); }
  return fin(raw(KZExt, w, 0, a, 0, 0, 0));
}
// signed interval of a; false if an operation inside it may overflow (or nothing useful is known)
static bool srange(E a, i128& lo, i128& hi, int d) {
  unsigned w = a->w; i128 mx = ((i128)1 << (w - 1)) - 1, mn = -mx - 1; if (d > 80) return false;
  if (isC(a)) { lo = hi = sx(a->val, w); return true; }
  i128 l1, h1, l2, h2;
  switch (a->k) {
    case KAdd: if (!srange(a->a, l1, h1, d + 1) || !srange(a->b, l2, h2, d + 1)) break; lo = l1 + l2; hi = h1 + h2; if (lo >= mn && hi <= mx) return true; break;
    case KSub: if (!srange(a->a, l1, h1, d + 1) || !srange(a->b, l2, h2, d + 1)) break; lo = l1 - h2; hi = h1 - l2; if (lo >= mn && hi <= mx) return true; break;
    case KMul: { if (!isC(a->b) || !srange(a->a, l1, h1, d + 1)) break; i128 c = sx(a->b->val, w); i128 x = l1 * c, y = h1 * c; lo = x < y ? x : y; hi = x < y ? y : x; if (lo >= mn && hi <= mx) return true; break; }
    case KZExt: if (a->a->k == KVar && gVars[a->a->aux].ranged) { lo = gVars[a->a->aux].lo; hi = gVars[a->a->aux].hi; return true; } break;
    case KSExt: lo = -((i128)1 << (a->a->w - 1)); hi = -lo - 1; return true;
    default: break;
  }
  if (a->kz >> (w - 1) & 1) { lo = 0; hi = (i128)umaxOf(a); return true; }
  return false;
}
bool sumAtMost(E a, uint64_t m) { i128 lo, hi; return srange(a, lo, hi, 0) && lo >= 0 && hi <= (i128)m; }
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkC((u128)sx(a->val, a->w), w);
  if (a->kz >> (a->w - 1) & 1) return mkZExt(a, w);
  if (a->k == KSExt) return mkSExt(a->a, w);
  if ((a->k == KAdd || a->k == KSub || (a->k == KMul && isC(a->b))) && a->w <= 64 && w <= 64) { // no signed overflow: push through
    i128 lo, hi; if (srange(a, lo, hi, 0)) { if (E r = memoGet(a, 4000 + w)) return r; return memoPut(a, 4000 + w, mkBin(a->k, mkSExt(a->a, w), mkSExt(a->b, w))); }
  }
  if (a->k == KIte && a->ct) { if (E r = memoGet(a, 2000 + w)) return r; return memoPut(a, 2000 + w, mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w))); }
  return fin(raw(KSExt, w, 0, a, 0, 0, 0));
}
// low part of a sum kept whole, so that bytes of one stored value merge back into that value
E mkExtractRaw(E a, unsigned off, unsigned w) {
  if (off == 0 && w < a->w && (a->k == KAdd || a->k == KSub || a->k == KMul)) { u128 m = maskw(w); if (((a->kz | a->ko) & m) == m) return mkC(a->ko & m, w); return fin(raw(KExtract, w, 0, a, 0, 0, 0)); }
  return mkExtract(a, off, w);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkC((hi->val << lo->w) | lo->val, w);
  if (isC(hi) && hi->val == 0) return mkZExt(lo, w);
  if (hi->k == KExtract && lo->k == KExtract && hi->a == lo->a && hi->aux == lo->aux + lo->w) return mkExtractRaw(hi->a, lo->aux, w);
  // right-normalise: concat(concat(x,y),lo) -> concat(x, concat(y,lo))
  if (hi->k == KConcat) return mkConcat(hi->a, mkConcat(hi->b, lo));
  if (hi->k == KZExt && !isC(hi->a)) { E l = mkConcat(hi->a, lo); return mkZExt(l, w); }
  if (lo->k == KConcat && hi->k == KExtract && lo->a->k == KExtract && hi->a == lo->a->a && hi->aux == lo->a->aux + lo->a->w)
    return mkConcat(mkExtractRaw(hi->a, lo->a->aux, hi->w + lo->a->w), lo->b);
  if (lo->k == KConcat && isC(hi) && isC(lo->a)) return mkConcat(mkC((hi->val << lo->a->w) | lo->a->val, hi->w + lo->a->w), lo->b);
  if (hi->k == KIte && lo->k == KIte && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  return fin(raw(KConcat, w, 0, hi, lo, 0, 0));
}
static E mkExtract1(E a, unsigned off, unsigned w);
E mkExtract(E a, unsigned off, unsigned w) {
  if (a->depth < 4) return mkExtract1(a, off, w);
  uint64_t key = 0x10000 + off * 256 + w; if (E r = memoGet(a, key)) return r;
  return memoPut(a, key, mkExtract1(a, off, w));
}
static E mkExtract1(E a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (isC(a)) return mkC(a->val >> off, w);
  u128 m = maskw(w);
  if ((((a->kz | a->ko) >> off) & m) == m) return mkC(a->ko >> off, w);
  if (off == a->w - 1 && (a->k == KAdd || a->k == KSub || a->k == KMul) && a->w <= 64) { i128 lo, hi; if (srange(a, lo, hi, 0)) { if (lo >= 0) return mkC(0, 1); if (hi < 0) return mkC(1, 1); if (a->k == KSub && isC(a->a) && a->a->val == 0) { i128 l2, h2; if (srange(a->b, l2, h2, 0) && l2 >= 0) return mkNot(mkEq(a->b, mkC(0, a->w))); } } }
  switch (a->k) {
    case KExtract: return mkExtract(a->a, a->aux + off, w);
    case KConcat:
      if (off >= a->b->w) return mkExtract(a->a, off - a->b->w, w);
      if (off + w <= a->b->w) return mkExtract(a->b, off, w);
      return mkConcat(mkExtract(a->a, 0, off + w - a->b->w), mkExtract(a->b, off, a->b->w - off));
    case KZExt:
      if (off >= a->a->w) return mkC(0, w);
      if (off + w <= a->a->w) return mkExtract(a->a, off, w);
      return mkZExt(mkExtract(a->a, off, a->a->w - off), w);
    case KSExt:
      if (off + w <= a->a->w) return mkExtract(a->a, off, w);
      if (off < a->a->w) return mkSExt(mkExtract(a->a, off, a->a->w - off), w);
      return mkSExt(mkExtract(a->a, a->a->w - 1, 1), w);
    case KIte:
      if (a->ct || isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
      { E x = mkExtract(a->b, off, w), y = mkExtract(a->c, off, w); return mkIte(a->a, x, y); }
    case KAnd: case KOr: case KXor: return mkBin(a->k, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
    case KNot: return mkNot(mkExtract(a->a, off, w));
    case KAdd: case KSub: case KMul: if (off == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    default: break;
  }
  return fin(raw(KExtract, w, off, a, 0, 0, 0));
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (c->k == KNot) return mkIte(c->a, b, a);
  if (a->w == 1) {
    if (a == eTrue && b == eFalse) return c;
    if (a == eFalse && b == eTrue) return mkNot(c);
    if (a == eTrue) return mkOr(c, b);
    if (b == eFalse) return mkAnd(c, a);
    if (a == eFalse) return mkAnd(mkNot(c), b);
    if (b == eTrue) return mkOr(mkNot(c), a);
  }
  if (a->k == KIte && a->a == c) a = a->b;
  if (b->k == KIte && b->a == c) b = b->c;
  if (a == b) return a;
  if (b->k == KIte && b->b == a) return mkIte(mkOr(c, b->a), a, b->c);
  if (a->k == KAgg) {
    std::vector<E> k; for (size_t i = 0; i < a->kids->size(); i++) k.push_back(mkIte(c, (*a->kids)[i], (*b->kids)[i])); return mkAgg(k);
  }
  return fin(raw(KIte, a->w, 0, c, a, b, 0));
}
static bool isCommut(Kind k) { return k == KAdd || k == KMul || k == KAnd || k == KOr || k == KXor || k == KEq; }
static u128 foldBin(Kind k, u128 x, u128 y, unsigned w) {
  u128 m = maskw(w);
  switch (k) {
    case KAdd: return (x + y) & m; case KSub: return (x - y) & m; case KMul: return (x * y) & m;
    case KUDiv: return y ? x / y : m; case KURem: return y ? x % y : x;
    case KSDiv: { if (!y) return sx(x, w) < 0 ? 1 : m; i128 a = sx(x, w), b = sx(y, w); if (b == -1) return (u128)(-(u128)a) & m; return (u128)(a / b) & m; }
    case KSRem: { if (!y) return x; i128 a = sx(x, w), b = sx(y, w); if (b == -1) return 0; return (u128)(a % b) & m; }
    case KAnd: return x & y; case KOr: return x | y; case KXor: return x ^ y;
    case KShl: return y >= w ? 0 : (x << y) & m; case KLShr: return y >= w ? 0 : x >> y;
    case KAShr: return (u128)(sx(x, w) >> (y >= w ? w - 1 : (unsigned)y)) & m;
    case KEq: return x == y; case KUlt: return x < y; case KUle: return x <= y;
    case KSlt: return sx(x, w) < sx(y, w); case KSle: return sx(x, w) <= sx(y, w);
    default: return 0;
  }
}
static bool isCmp(Kind k) { return k >= KEq && k <= KSle; }
// Split Or/Add/Xor of operands with disjoint possible bits into a concat
static E disjointMerge(E a, E b) {
  unsigned w = a->w; u128 m = maskw(w);
  if (((a->kz | b->kz) & m) != m) return nullptr;
  // build segments from the low end
  std::vector<E> segs; unsigned i = 0;
  while (i < w) {
    bool az = a->kz >> i & 1, bz = b->kz >> i & 1; int own = az && bz ? 0 : az ? 2 : 1;
    unsigned j = i + 1;
    while (j < w) {
      bool az2 = a->kz >> j & 1, bz2 = b->kz >> j & 1; int o = az2 && bz2 ? 0 : az2 ? 2 : 1;
      if (o != own) break; j++;
    }
    segs.push_back(own == 0 ? mkC(0, j - i) : mkExtract(own == 1 ? a : b, i, j - i));
    i = j; if (segs.size() > 16) return nullptr;
  }
  E r = segs[0]; for (size_t k = 1; k < segs.size(); k++) r = mkConcat(segs[k], r); return r;
}
static void ctNodes(E e, std::set<E>& s) { if (s.size() > 600 || !s.insert(e).second) return; if (e->k == KIte) { ctNodes(e->b, s); ctNodes(e->c, s); } }
static E pushCT(Kind k, E tree, E cst, bool left, std::unordered_map<E, E>& memo) {
  if (isC(tree)) return left ? mkBin(k, tree, cst) : mkBin(k, cst, tree);
  auto it = memo.find(tree); if (it != memo.end()) return it->second;
  E x = pushCT(k, tree->b, cst, left, memo), y = pushCT(k, tree->c, cst, left, memo);
  return memo[tree] = mkIte(tree->a, x, y);
}
static E eqConst(E a, E c);
// linear form modulo 2^w over opaque terms; used only to decide syntactic equality of sums
struct LinForm { std::vector<std::pair<E, u128>> t; u128 c = 0; unsigned n = 0; };
static bool lin(E e, u128 k, LinForm& f, int d) {
  if (++f.n > 160 || d > 60) return false;
  switch (e->k) {
    case KConst: f.c += k * e->val; return true;
    case KAdd: return lin(e->a, k, f, d + 1) && lin(e->b, k, f, d + 1);
    case KSub: return lin(e->a, k, f, d + 1) && lin(e->b, (u128)0 - k, f, d + 1);
    case KMul: if (isC(e->b)) return lin(e->a, k * e->b->val, f, d + 1); break;
    case KConcat: return lin(mkZExt(e->a, e->w), k << e->b->w, f, d + 1) && lin(mkZExt(e->b, e->w), k, f, d + 1);
    case KZExt: if (e->a->k == KConcat) return lin(mkZExt(e->a->a, e->w), k << e->a->b->w, f, d + 1) && lin(mkZExt(e->a->b, e->w), k, f, d + 1); break;
    default: break;
  }
  for (auto& t : f.t) if (t.first == e) { t.second += k; return true; }
  f.t.push_back({e, k}); return true;
}
E mkBin(Kind k, E a, E b) {
  unsigned w = a->w;
  if (a->k == KAgg) { std::vector<E> v; for (size_t i = 0; i < a->kids->size(); i++) v.push_back(mkBin(k, (*a->kids)[i], (*b->kids)[i])); return mkAgg(v); }
  if (isC(a) && isC(b)) return mkC(foldBin(k, a->val, b->val, w), isCmp(k) ? 1 : w);
  if (isCommut(k) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  if (isCmp(k) && w <= 64 && w > 1) { E x = isC(b) ? a : isC(a) ? b : nullptr; if (x && (x->k == KAdd || x->k == KSub || x->k == KMul)) { // decided by the value range of a sum
    i128 lo, hi; if (srange(x, lo, hi, 0)) { u128 cv = isC(b) ? b->val : a->val; i128 c = sx(cv, w); bool left = isC(b);
      if (k == KEq && (c < lo || c > hi)) return eFalse;
      if (k == KSlt || k == KSle || (lo >= 0 && c >= 0)) { bool strict = k == KSlt || k == KUlt; if (k != KEq) { if (left) { if (strict ? hi < c : hi <= c) return eTrue; if (strict ? lo >= c : lo > c) return eFalse; } else { if (strict ? c < lo : c <= lo) return eTrue; if (strict ? c >= hi : c > hi) return eFalse; } } } } } }
  // push through constant-leaf ite trees
  if (isC(b) && a->ct) { std::set<E> s; ctNodes(a, s); if (s.size() <= 600) { std::unordered_map<E, E> memo; return pushCT(k, a, b, true, memo); } }
  if (isC(a) && b->ct) { std::set<E> s; ctNodes(b, s); if (s.size() <= 600) { std::unordered_map<E, E> memo; return pushCT(k, b, a, false, memo); } }
  u128 m = maskw(w);
  switch (k) {
    case KAdd:
      if (isC(b)) {
        if (b->val == 0) return a;
        { E x = a->k == KZExt ? a->a : a; if (x->k == KConcat && isC(x->a) && (((x->a->val << x->b->w) + b->val) & m) == 0) return mkZExt(x->b, w); } // character - '0'
        if (a->k == KAdd && isC(a->b)) return mkAdd(a->a, mkC(a->b->val + b->val, w));
        if (a->k == KNot && b->val == 1) return mkSub(mkC(0, w), a->a);
        if (a->k == KSub && isC(a->a)) return mkSub(mkC(a->a->val + b->val, w), a->b);
      } else {
        if (a->k == KAdd && isC(a->b)) return mkAdd(mkAdd(a->a, b), a->b);
        if (b->k == KAdd && isC(b->b)) return mkAdd(mkAdd(a, b->a), b->b);
        if (a->k == KSub && a->b == b) return a->a;
        if (b->k == KSub && b->b == a) return b->a;
        if (a == b && w > 1) return mkBin(KShl, a, mkC(1, w));
      }
      if (E d = disjointMerge(a, b)) return d;
      break;
    case KSub:
      if (a == b) return mkC(0, w);
      if (isC(b)) return mkAdd(a, mkC(-b->val, w));
      if (a->k == KAdd) { if (a->a == b) return a->b; if (a->b == b) return a->a; if (isC(a->b)) return mkAdd(mkSub(a->a, b), a->b); }
      if (b->k == KAdd) { if (isC(b->b)) return mkAdd(mkSub(a, b->a), mkC(-b->b->val, w)); if (b->a == a) return mkSub(mkC(0, w), b->b); if (b->b == a) return mkSub(mkC(0, w), b->a); }
      if (a->k == KAdd && b->k == KAdd) { if (a->a == b->a) return mkSub(a->b, b->b); if (a->b == b->b) return mkSub(a->a, b->a); if (a->a == b->b) return mkSub(a->b, b->a); if (a->b == b->a) return mkSub(a->a, b->b); }
      if (b->k == KSub && isC(b->a) && b->a->val == 0) return mkAdd(a, b->b);
      if (b->k == KSub && b->a == a) return b->b;
      break;
    case KMul:
      if (isC(b)) {
        if (b->val == 0) return b; if (b->val == 1) return a;
        if ((b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!(b->val >> s & 1)) s++; return mkBin(KShl, a, mkC(s, w)); }
        if (a->k == KMul && isC(a->b)) return mkBin(KMul, a->a, mkC(a->b->val * b->val, w));
      }
      break;
    case KUDiv:
      if (isC(b)) {
        if (b->val == 1) return a;
        if (b->val && (b->val & (b->val - 1)) == 0) { unsigned s = 0; while (!(b->val >> s & 1)) s++; return mkBin(KLShr, a, mkC(s, w)); }
        if (b->val && umaxOf(a) < b->val) return mkC(0, w);
        if (b->val && a->k == KZExt && b->val <= maskw(a->a->w)) return mkZExt(mkBin(KUDiv, a->a, mkC(b->val, a->a->w)), w);
      }
      break;
    case KURem:
      if (isC(b)) {
        if (b->val == 1) return mkC(0, w);
        if (b->val && (b->val & (b->val - 1)) == 0) return mkAnd(a, mkC(b->val - 1, w));
        if (b->val && umaxOf(a) < b->val) return a;
        if (b->val && a->k == KZExt && b->val <= maskw(a->a->w)) return mkZExt(mkBin(KURem, a->a, mkC(b->val, a->a->w)), w);
      }
      break;
    case KSDiv: case KSRem:
      if ((a->kz >> (w - 1) & 1) && (b->kz >> (w - 1) & 1)) return mkBin(k == KSDiv ? KUDiv : KURem, a, b);
      if (isC(b) && b->val == 1) return k == KSDiv ? a : mkC(0, w);
      break;
    case KAnd:
      if (a == b) return a;
      if (isC(b)) {
        if (b->val == 0) return b; if (b->val == m) return a;
        if ((b->val & ~a->kz & m) == 0) return mkC(0, w);
        if (((~b->val & m) & ~a->kz) == 0) return a;
        // contiguous mask -> extract
        unsigned lo = 0; while (!(b->val >> lo & 1)) lo++; unsigned hi = lo; while (hi < w && (b->val >> hi & 1)) hi++;
        if ((b->val >> hi) == 0 || hi >= w) {
          E x = mkExtract(a, lo, hi - lo); if (lo) x = mkConcat(x, mkC(0, lo)); return mkZExt(x, w);
        }
        if (a->k == KAnd && isC(a->b)) return mkAnd(a->a, mkC(a->b->val & b->val, w));
      }
      if (w == 1) { if (a->k == KNot && a->a == b) return eFalse; if (b->k == KNot && b->a == a) return eFalse;
        if (a->k == KAnd && (a->a == b || a->b == b)) return a; if (b->k == KAnd && (b->a == a || b->b == a)) return b;
        if (a->k == KEq && b->k == KEq && a->a == b->a && isC(a->b) && isC(b->b) && a->b != b->b) return eFalse; }
      break;
    case KOr:
      if (a == b) return a;
      if (isC(b)) { if (b->val == 0) return a; if (b->val == m) return b; }
      if (w == 1) { if (a->k == KNot && a->a == b) return eTrue; if (b->k == KNot && b->a == a) return eTrue;
        if (a->k == KOr && (a->a == b || a->b == b)) return a; if (b->k == KOr && (b->a == a || b->b == a)) return b; }
      if (w > 1) if (E d = disjointMerge(a, b)) return d;
      break;
    case KXor:
      if (a == b) return mkC(0, w);
      if (isC(b)) { if (b->val == 0) return a; if (b->val == m) return mkNot(a); }
      if (a->k == KXor) { if (a->a == b) return a->b; if (a->b == b) return a->a; if (isC(a->b) && isC(b)) return mkBin(KXor, a->a, mkC(a->b->val ^ b->val, w)); }
      if (b->k == KXor) { if (b->a == a) return b->b; if (b->b == a) return b->a; }
      if (w > 1) if (E d = disjointMerge(a, b)) return d;
      break;
    case KShl:
      if (isC(b)) { if (b->val == 0) return a; if (b->val >= w) return mkC(0, w); unsigned s = (unsigned)b->val; return mkConcat(mkExtract(a, 0, w - s), mkC(0, s)); }
      if (isC(a) && a->val == 0) return a;
      break;
    case KLShr:
      if (isC(b)) { if (b->val == 0) return a; if (b->val >= w) return mkC(0, w); unsigned s = (unsigned)b->val; return mkZExt(mkExtract(a, s, w - s), w); }
      if (isC(a) && a->val == 0) return a;
      break;
    case KAShr:
      if (isC(b)) { if (b->val == 0) return a; unsigned s = b->val >= w ? w - 1 : (unsigned)b->val; return mkSExt(mkExtract(a, s, w - s), w); }
      if (a->kz >> (w - 1) & 1) return mkBin(KLShr, a, b);
      break;
    case KEq:
      if (a == b) return eTrue;
      if (w > 1 && w <= 64 && (a->k == KAdd || a->k == KSub || a->k == KMul || b->k == KAdd || b->k == KSub || b->k == KMul)) {
        LinForm f; if (lin(a, 1, f, 0) && lin(b, m, f, 0)) {
          unsigned nz = 0; for (auto& t : f.t) if (t.second & m) nz++; if (!nz) return (f.c & m) == 0 ? eTrue : eFalse;
          if (nz < f.t.size()) { E sum = nullptr; for (auto& t : f.t) if (t.second & m) { E x = mkBin(KMul, t.first, mkC(t.second, w)); sum = sum ? mkAdd(sum, x) : x; } return mkEq(sum, mkC((u128)0 - f.c, w)); }
        }
      }
      if ((a->kz & b->ko) || (a->ko & b->kz)) return eFalse;
      if (isC(b)) { E r = eqConst(a, b); if (r) return r; }
      else {
        for (int sw = 0; sw < 2; sw++) { E x = sw ? b : a, y = sw ? a : b; auto ar = [](E e) { return e->k == KAdd || e->k == KSub || e->k == KMul; };
          if (x->k == KSub && isC(x->a) && !ar(x->b) && ar(y) && y->k != KSub) return mkEq(x->b, mkSub(x->a, y)); }
        if (a->k == KZExt && b->k == KZExt) { unsigned x = std::max(a->a->w, b->a->w); return mkEq(mkZExt(a->a, x), mkZExt(b->a, x)); }
        if (a->k == KSExt && b->k == KSExt && a->a->w == b->a->w) return mkEq(a->a, b->a);
        if (a->k == KConcat && b->k == KConcat && a->b->w == b->b->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
        if (a->k == KAdd && b->k == KAdd) { if (a->b == b->b) return mkEq(a->a, b->a); if (a->a == b->a) return mkEq(a->b, b->b); if (isC(a->b) && isC(b->b)) return mkEq(mkAdd(a->a, mkC(a->b->val - b->b->val, w)), b->a); }
        if (a->k == KAdd && a->a == b) return mkEq(a->b, mkC(0, w));
        if (a->k == KAdd && a->b == b) return mkEq(a->a, mkC(0, w));
        if (b->k == KAdd && b->a == a) return mkEq(b->b, mkC(0, w));
        if (b->k == KAdd && b->b == a) return mkEq(b->a, mkC(0, w));
        if (w == 1) { if (a->k == KNot && a->a == b) return eFalse; if (b->k == KNot && b->a == a) return eFalse; }
        if (a->k == KIte && (a->b == b)) return mkOr(a->a, mkEq(a->c, b));
        if (a->k == KIte && (a->c == b)) return mkOr(mkNot(a->a), mkEq(a->b, b));
        if (b->k == KIte && (b->b == a)) return mkOr(b->a, mkEq(b->c, a));
        if (b->k == KIte && (b->c == a)) return mkOr(mkNot(b->a), mkEq(b->b, a));
      }
      break;
    case KUlt:
      if (a == b) return eFalse;
      if (umaxOf(a) < uminOf(b)) return eTrue;
      if (uminOf(a) >= umaxOf(b)) return eFalse;
      if (isC(b) && b->val == 1) return mkEq(a, mkC(0, w));
      if (isC(a) && a->val == 0) return mkNot(mkEq(b, a));
      if (isC(a) && a->val == m - 1) return mkEq(b, mkC(m, w));
      if (isC(b) && b->val == m) return mkNot(mkEq(a, b));
      if (a->k == KZExt && b->k == KZExt) { unsigned x = std::max(a->a->w, b->a->w); return mkUlt(mkZExt(a->a, x), mkZExt(b->a, x)); }
      if (a->k == KZExt && isC(b)) return mkUlt(a->a, mkC(b->val, a->a->w));
      if (b->k == KZExt && isC(a)) return mkUlt(mkC(a->val, b->a->w), b->a);
      if (isC(b) && a->k == KConcat && isC(a->b) && a->b->val == 0 && (b->val & maskw(a->b->w)) == 0) return mkUlt(a->a, mkC(b->val >> a->b->w, a->a->w));
      break;
    case KUle:
      if (a == b) return eTrue;
      if (umaxOf(a) <= uminOf(b)) return eTrue;
      if (uminOf(a) > umaxOf(b)) return eFalse;
      if (isC(b)) { if (b->val == m) return eTrue; return mkUlt(a, mkC(b->val + 1, w)); }
      if (isC(a)) { if (a->val == 0) return eTrue; return mkUlt(mkC(a->val - 1, w), b); }
      if (a->k == KZExt && b->k == KZExt) { unsigned x = std::max(a->a->w, b->a->w); return mkUle(mkZExt(a->a, x), mkZExt(b->a, x)); }
      break;
    case KSlt: case KSle: {
      if (a == b) return k == KSle ? eTrue : eFalse;
      u128 s = (u128)1 << (w - 1);
      if ((a->kz & s) && (b->kz & s)) return mkBin(k == KSlt ? KUlt : KUle, a, b);
      if ((a->ko & s) && (b->ko & s)) return mkBin(k == KSlt ? KUlt : KUle, a, b);
      if ((a->ko & s) && (b->kz & s)) return eTrue;
      if ((a->kz & s) && (b->ko & s)) return eFalse;
      if (k == KSlt && isC(b) && b->val == 0) return mkExtract(a, w - 1, 1);
      if (k == KSle && isC(a) && a->val == 0) return mkNot(mkExtract(b, w - 1, 1));
      if (k == KSlt && isC(a) && a->val == m) return mkNot(mkExtract(b, w - 1, 1));
      if (k == KSle && isC(b) && b->val == m) return mkExtract(a, w - 1, 1);
      if (k == KSle && isC(b) && b->val != (s - 1)) return mkBin(KSlt, a, mkC(b->val + 1, w));
      if (k == KSle && isC(b)) return eTrue;
      if (k == KSle && isC(a) && a->val != s) return mkBin(KSlt, mkC(a->val - 1, w), b);
      if (k == KSle && isC(a)) return eTrue;
      if (a->k == KSExt && b->k == KSExt) { unsigned x = std::max(a->a->w, b->a->w); return mkBin(k, mkSExt(a->a, x), mkSExt(b->a, x)); }
      if (a->k == KSExt && isC(b)) { i128 v = sx(b->val, w); unsigned aw = a->a->w; i128 lo = -((i128)1 << (aw - 1)), hi = ((i128)1 << (aw - 1)) - 1;
        if (k == KSlt) { if (v > hi) return eTrue; if (v <= lo) return eFalse; return mkBin(k, a->a, mkC((u128)v, aw)); } }
      if (b->k == KSExt && isC(a)) { i128 v = sx(a->val, w); unsigned aw = b->a->w; i128 lo = -((i128)1 << (aw - 1)), hi = ((i128)1 << (aw - 1)) - 1;
        if (k == KSlt) { if (v < lo) return eTrue; if (v >= hi) return eFalse; return mkBin(k, mkC((u128)v, aw), b->a); } }
      break; }
    default: break;
  }
  return fin(raw(k, isCmp(k) ? 1 : w, 0, a, b, 0, 0));
}
static E eqConst(E a, E c) {
  unsigned w = a->w; u128 v = c->val;
  if (w == 1) return v ? a : mkNot(a);
  switch (a->k) {
    case KZExt: if (v >> a->a->w) return eFalse; return mkEq(a->a, mkC(v, a->a->w));
    case KSExt: { u128 lo = v & maskw(a->a->w); if (((u128)sx(lo, a->a->w) & maskw(w)) != v) return eFalse; return mkEq(a->a, mkC(lo, a->a->w)); }
    case KConcat: return mkAnd(mkEq(a->a, mkC(v >> a->b->w, a->a->w)), mkEq(a->b, mkC(v, a->b->w)));
    case KAdd: if (isC(a->b)) return mkEq(a->a, mkC(v - a->b->val, w)); break;
    case KSub: if (isC(a->a)) return mkEq(a->b, mkC(a->a->val - v, w)); if (v == 0) return mkEq(a->a, a->b); break;
    case KXor: if (isC(a->b)) return mkEq(a->a, mkC(v ^ a->b->val, w)); if (v == 0) return mkEq(a->a, a->b); break;
    case KNot: return mkEq(a->a, mkC(~v, w));
    case KIte: {
      if (isC(a->b) && isC(a->c)) { bool x = a->b->val == v, y = a->c->val == v; return x ? (y ? eTrue : a->a) : (y ? mkNot(a->a) : eFalse); }
      if (isC(a->b)) { if (a->b->val == v) return mkOr(a->a, mkEq(a->c, c)); return mkAnd(mkNot(a->a), mkEq(a->c, c)); }
      if (isC(a->c)) { if (a->c->val == v) return mkOr(mkNot(a->a), mkEq(a->b, c)); return mkAnd(a->a, mkEq(a->b, c)); }
      break; }
    case KOr: if (v == 0) return mkAnd(mkEq(a->a, c), mkEq(a->b, c)); break;
    default: break;
  }
  return nullptr;
}
E mkAgg(const std::vector<E>& kids) {
  E e = allocE(); memset((void*)e, 0, sizeof(Expr)); e->k = KAgg; e->w = 0; e->vars = &noVars; e->id = (uint32_t)gExprCount++; e->kids = new std::vector<E>(kids); return e;
}
static double bd(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static float bf(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u128 db(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 fb(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }
static u128 foldF(Kind k, u128 x, u128 y, unsigned aw, unsigned w) {
  if (k == KSToF) { i128 v = sx(x, aw); return w == 64 ? db((double)(int64_t)v) : fb((float)(int64_t)v); }
  if (k == KUToF) { uint64_t v = (uint64_t)x; return w == 64 ? db((double)v) : fb((float)v); }
  if (k == KFToS || k == KFToU) {
    double d = aw == 64 ? bd(x) : bf(x);
    if (k == KFToU) return (u128)(uint64_t)d & maskw(w);
    return (u128)(int64_t)d & maskw(w);
  }
  if (k == KFCvt) { if (aw == 64 && w == 32) return fb((float)bd(x)); if (aw == 32 && w == 64) return db((double)bf(x)); return x; }
  if (k == KFNeg) return x ^ ((u128)1 << (aw - 1));
  if (aw == 64) { double a = bd(x), b = bd(y);
    switch (k) { case KFAdd: return db(a + b); case KFSub: return db(a - b); case KFMul: return db(a * b); case KFDiv: return db(a / b);
      case KFEq: return a == b; case KFLt: return a < b; case KFLe: return a <= b; case KFUno: return std::isnan(a) || std::isnan(b); default: return 0; } }
  float a = bf(x), b = bf(y);
  switch (k) { case KFAdd: return fb(a + b); case KFSub: return fb(a - b); case KFMul: return fb(a * b); case KFDiv: return fb(a / b);
    case KFEq: return a == b; case KFLt: return a < b; case KFLe: return a <= b; case KFUno: return std::isnan(a) || std::isnan(b); default: return 0; }
}
E mkF(Kind k, E a, E b, unsigned w) {
  if (a->k == KAgg) { std::vector<E> v; for (size_t i = 0; i < a->kids->size(); i++) v.push_back(mkF(k, (*a->kids)[i], b ? (*b->kids)[i] : nullptr, w)); return mkAgg(v); }
  if (isC(a) && (!b || isC(b))) return mkC(foldF(k, a->val, b ? b->val : 0, a->w, w), w);
  if (k == KFNeg) return mkBin(KXor, a, mkC((u128)1 << (a->w - 1), a->w));
  return raw(k, w, 0, a, b, 0, 0);
}
static uint64_t gEpoch = 1;
uint64_t newEpoch() { return ++gEpoch; }
u128 evalE(E e, const Model& m, uint64_t ep) {
  if (e->k == KConst) return e->val;
  if (e->evalEpoch == ep) return e->evalVal;
  u128 r = 0;
  switch (e->k) {
    case KVar: r = e->aux < m.size() ? m[e->aux] & maskw(e->w) : 0; break;
    case KNot: r = ~evalE(e->a, m, ep) & maskw(e->w); break;
    case KConcat: r = (evalE(e->a, m, ep) << e->b->w) | evalE(e->b, m, ep); break;
    case KExtract: r = (evalE(e->a, m, ep) >> e->aux) & maskw(e->w); break;
    case KZExt: r = evalE(e->a, m, ep); break;
    case KSExt: r = (u128)sx(evalE(e->a, m, ep), e->a->w) & maskw(e->w); break;
    case KIte: r = evalE(e->a, m, ep) ? evalE(e->b, m, ep) : evalE(e->c, m, ep); break;
    default:
      if (e->k >= KFAdd) r = foldF(e->k, evalE(e->a, m, ep), e->b ? evalE(e->b, m, ep) : 0, e->a->w, e->w);
      else r = foldBin(e->k, evalE(e->a, m, ep), evalE(e->b, m, ep), e->a->w);
  }
  e->evalEpoch = ep; e->evalVal = r; return r;
}
static const char* kn[] = {"c","v","not","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite","fadd","fsub","fmul","fdiv","feq","flt","fle","funo","fneg","ftos","ftou","stof","utof","fcvt","agg"};
std::string exprStr(E e, int d) {
  char buf[64];
  if (e->k == KConst) { snprintf(buf, 64, "%llx:%u", (unsigned long long)e->val, e->w); return buf; }
  if (e->k == KVar) return gVars[e->aux].name;
  if (d <= 0) return "..";
  std::string s = "("; s += kn[e->k]; if (e->k == KExtract) s += "@" + std::to_string(e->aux); if (e->k==KExtract||e->k == KZExt || e->k == KSExt) s += ":" + std::to_string(e->w);
  for (E x : {e->a, e->b, e->c}) if (x) s += " " + exprStr(x, d - 1);
  return s + ")";
}
