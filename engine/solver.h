#pragma once
#include "expr.h"
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0; double time = 0; };
extern SolverStats SS;
typedef std::shared_ptr<Model> MP;
enum SatRes { UNSAT, SAT, UNKNOWN };
// pc /\ c ?  `base` satisfies pc; on SAT `out` satisfies pc /\ c.
SatRes checkSat(const std::vector<E> &pc, E c, const MP &base, MP &out);
MP newModel(const std::vector<uint8_t> &b);
extern unsigned solverTimeoutMs;
