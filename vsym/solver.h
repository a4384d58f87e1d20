#pragma once
#include "expr.h"
struct Model { std::vector<u64> v; u64 get(u64 i) const { return i < v.size() ? v[i] : g_vars[i].lo; } void set(u64 i, u64 x) { while (v.size() <= i) v.push_back(g_vars[v.size()].lo); v[i] = x; } };
u64 evalExpr(Expr* e, const Model& m);      // under a model
void newEval();                              // call before evaluating under a different model
enum Res { UNSAT, SAT, UNKNOWN };
// is (cons relevant to q) && q satisfiable?  On SAT m is updated (variables outside the slice keep their values).
Res solve(const std::vector<Expr*>& cons, Expr* q, Model& m, bool hard = false);
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, cache = 0; double time = 0, maxtime = 0; };
extern SolverStats g_ss; extern unsigned g_timeout, g_hardTimeout; extern bool g_dump;
