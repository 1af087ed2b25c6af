#pragma once
#include "expr.h"
#include <vector>
#include <string>

enum class Sat { yes, no, unknown };

struct SolverStats
{
   uint64_t queries = 0;      // queries discharged (after constant folding / model reuse)
   uint64_t z3calls = 0;      // of which reached z3
   uint64_t cachehits = 0;
   uint64_t unknown = 0;
   double seconds = 0;
   double maxsec = 0;
};
extern SolverStats g_solver;
extern unsigned g_solver_timeout_ms;
extern std::string g_dump_dir;

// is  pc /\ cond  satisfiable?  On yes, *model (if given) is updated: it starts as an assignment satisfying pc
// and ends as one satisfying pc /\ cond.
Sat solve(const std::vector<Expr*>& pc, Expr* cond, Assignment* model);
