#pragma once
#include "expr.h"
#include <vector>
#include <string>
enum Res { SAT, UNSAT, UNKNOWN };
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; double seconds = 0, maxQuery = 0; };
extern SolverStats gStats;
extern unsigned gSolverTimeoutMs;
extern std::string gDumpDir;
// Decide the conjunction of cs. On SAT the variables occurring in cs are written to model.
Res solverCheck(const std::vector<Ex> &cs, std::vector<u64> &model);
