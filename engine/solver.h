#pragma once
#include "expr.h"
struct PathCond {
  std::vector<Expr*> cs; std::vector<Bits256> dom; SymSet entangled; std::vector<u64> model;
  Bits256& domain(u32 s);
};
enum Res { UNSAT=0, SAT=1, UNKNOWN=2 };
struct SolverStats { u64 queries=0, sat=0, unsat=0, unknown=0, cache=0, domain=0, model=0, fd=0, confirmed=0, unknown_confirm=0; double time=0; };
extern SolverStats g_ss; extern unsigned g_timeout_ms;
// is pc && cond satisfiable?  on SAT fills model
Res check(PathCond&pc, Expr*cond, std::vector<u64>&model);
void confirm_unsat(PathCond&pc,Expr*cond);
extern double g_confirm_budget;
void add_constraint(PathCond&pc, Expr*c); // caller guarantees pc.model satisfies it or updates the model
