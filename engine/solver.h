#pragma once
#include "expr.h"
enum SatRes { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0; double time = 0, maxTime = 0; };
extern SolverStats g_ss;
void solverInit(unsigned timeoutMs);
// Is the conjunction of cs satisfiable?  On SAT, model values of the variables occurring are written to m.
SatRes solverCheck(const std::vector<EP> &cs, Model &m);
extern std::string g_dumpDir; extern u64 g_dumpMax;
