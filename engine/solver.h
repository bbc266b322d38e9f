#pragma once
#include "expr.h"
enum Res { UNSAT, SAT, UNKNOWN };
struct SolverStats { u64 queries = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0, linear = 0; double seconds = 0, maxq = 0; };
extern SolverStats g_ss;
extern unsigned g_solverTimeoutMs;
// decides the conjunction of cs; on SAT fills the values of the variables that occur
Res solve(const std::vector<E> &cs, std::map<uint32_t, u128> &model);
std::string toSmt2(const std::vector<E> &cs);
