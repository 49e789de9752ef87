// Z3 back end: translation of expressions and satisfiability queries.
#pragma once
#include "expr.h"
#include <map>
enum Sat { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct SolverStats { uint64_t z3 = 0, z3sat = 0, z3unsat = 0, z3unknown = 0, cacheHits = 0, domain = 0, model = 0, resets = 0; double z3time = 0, maxq = 0; };
extern SolverStats g_sst;
extern unsigned g_qtimeout; // ms
extern double g_deadline;
typedef std::vector<std::pair<unsigned, uint64_t>> Asg; // variable id -> value (bit pattern)
struct Unsupported { std::string what; };
void solverInit();
// conjunction of cs; fills model on SAT for every variable occurring
Sat solveZ3(const std::vector<Ex>& cs, Asg* model);
std::string dumpSmt(const std::vector<Ex>& cs);
