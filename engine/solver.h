#pragma once
#include "expr.h"
struct SolverStats { u64 queries = 0, z3 = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, cvc5 = 0, domain = 0; double secs = 0; };
extern SolverStats g_sstats;
extern unsigned g_timeoutMs;
enum Tri { NO, YES, UNK };
// Is  constraints /\ cond  satisfiable?  On YES, `model` (base model) is patched with the assignment.
Tri solveMay(const std::vector<E> &cons, E cond, Model &model);
