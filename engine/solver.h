#pragma once
#include "expr.h"

struct VarInfo { u32 w; u32 kind; std::string name; };
extern std::vector<VarInfo> gVars;
enum Res { R_UNSAT, R_SAT, R_UNKNOWN };
struct SolverStats { u64 queries = 0, unsat = 0, sat = 0, unknown = 0, badmodel = 0; double secs = 0, maxsecs = 0; };
extern SolverStats gSolver;
extern unsigned gSolverTimeoutMs;
extern bool gDumpUnknown;
// decide the conjunction; on SAT, model (indexed by var id) is updated for the variables that occur
Res z3solve(const std::vector<E>& cs, std::vector<Words>& model);
Words freshRandom(u32 w);
// Are two terms equal for every value, when every term outside `open` is an arbitrary value?
Res z3equalCut(E a, E b, const std::vector<bool>& open);
