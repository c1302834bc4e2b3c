// Hash-consed bit-vector expressions with eager simplification.
#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <unordered_map>
typedef unsigned __int128 u128;
typedef __int128 i128;

enum Kind : uint8_t {
  KConst, KVar, KNot, KAdd, KSub, KMul, KUDiv, KSDiv, KURem, KSRem, KAnd, KOr, KXor,
  KShl, KLShr, KAShr, KEq, KUlt, KUle, KSlt, KSle, KConcat, KExtract, KZExt, KSExt, KIte,
  // floating point on bit patterns (w = 32/64)
  KFAdd, KFSub, KFMul, KFDiv, KFEq, KFLt, KFLe, KFUno, KFNeg, KFToS, KFToU, KSToF, KUToF, KFCvt,
  KAgg
};

struct VarSet;
struct Expr {
  Kind k; uint16_t w; bool ct; bool hasUninit; uint32_t id;
  uint32_t aux;            // extract offset / var index
  uint32_t depth;
  Expr *a, *b, *c;
  u128 val;                // const value
  u128 kz, ko;             // known zero / known one bits
  const std::vector<uint32_t>* vars; // sorted var indexes
  std::vector<Expr*>* kids;          // aggregates
  uint64_t evalEpoch; u128 evalVal;
  void* z3; uint32_t z3epoch;
};
typedef Expr* E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline bool isC(E e) { return e->k == KConst; }
static inline i128 sx(u128 v, unsigned w) { if (w >= 128) return (i128)v; u128 m = (u128)1 << (w - 1); return (i128)((v ^ m) - m); }

struct VarInfo { std::string name; unsigned w; bool uninit; bool ranged = false; uint64_t lo = 0, hi = 0; };
extern std::vector<VarInfo> gVars;
extern std::vector<E> gVarExpr;
extern uint64_t gExprCount;

E mkC(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w, bool uninit = false);
E mkNot(E a);
E mkBin(Kind k, E a, E b);
E mkExtractRaw(E a, unsigned off, unsigned w);
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkF(Kind k, E a, E b, unsigned w);
E mkAgg(const std::vector<E>& kids);
static inline E mkAdd(E a, E b) { return mkBin(KAdd, a, b); }
static inline E mkSub(E a, E b) { return mkBin(KSub, a, b); }
static inline E mkEq(E a, E b) { return mkBin(KEq, a, b); }
static inline E mkUlt(E a, E b) { return mkBin(KUlt, a, b); }
static inline E mkUle(E a, E b) { return mkBin(KUle, a, b); }
static inline E mkAnd(E a, E b) { return mkBin(KAnd, a, b); }
static inline E mkOr(E a, E b) { return mkBin(KOr, a, b); }
bool sumAtMost(E a, uint64_t m);
extern E eTrue, eFalse;
void exprInit();
static inline u128 umaxOf(E e) { return maskw(e->w) & ~e->kz; }
static inline u128 uminOf(E e) { return e->ko; }

typedef std::vector<u128> Model;   // by var index
u128 evalE(E e, const Model& m, uint64_t epoch);
uint64_t newEpoch();
std::string exprStr(E e, int depth = 6);
