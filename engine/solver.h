#pragma once
#include "expr.h"
#include <vector>
#include <memory>
namespace symx {
enum class Res { Sat, Unsat, Unknown };
struct SolverStats { u64 queries = 0, z3calls = 0, cacheHits = 0, modelHits = 0, unknown = 0; double time = 0, maxTime = 0; };
extern SolverStats g_ss;
void solverInit(unsigned timeoutMs);
// is  (and pc) && cond  satisfiable?  pc is known satisfiable with 'base'. On Sat fills 'out' (full model).
Res solve(const std::vector<E> &pc, E cond, const Model &base, Model &out);
}
