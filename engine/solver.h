#pragma once
#include "expr.h"
#include <memory>
enum Res { SAT, UNSAT, UNKNOWN };
struct SolverStats { uint64_t queries = 0, z3 = 0, cacheHits = 0, modelHits = 0, unknown = 0, sat = 0, unsat = 0; double z3time = 0, maxq = 0; };
extern SolverStats SS;
extern unsigned gSolverTimeoutMs;
// is  AND(pc) && cond  satisfiable?  On SAT *m (initialised with a model of pc) is updated to satisfy both.
Res solve(const std::vector<E>& pc, E cond, Model* m);
double nowS();
