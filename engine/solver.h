// SMT back end (Z3): satisfiability of conjunctions of 1-bit expressions.
#pragma once
#include "expr.h"
#include <string>
enum class Res { Sat, Unsat, Unknown };
struct SolverStats { u64 queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0, fpQueries = 0; double time = 0, maxTime = 0; };
extern SolverStats gSolver;
void solverInit(unsigned timeoutMs, unsigned fpTimeoutMs);
// constraints `cons` are known satisfiable together; asks whether cons && extra is satisfiable.
// On Sat, `model` (a satisfying assignment of cons on entry) is updated to satisfy cons && extra.
Res solve(const std::vector<E>& cons, E extra, Assign& model);
E mkNamedVar(const std::string& name, int w);
extern bool gSolverSelfCheck;
