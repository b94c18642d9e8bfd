// QF_BV decision procedure: bit-blasting onto MiniSat; Z3 as second opinion / fallback.
#pragma once
#include "expr.h"
#include <map>

struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, z3 = 0, z3disagree = 0, z3unknown = 0, us = 0, z3us = 0, fpTables = 0, fpEntries = 0, unknown = 0; };
extern SolverStats SS;

enum SatRes { R_UNSAT = 0, R_SAT = 1, R_UNKNOWN = 2 };

struct BVSolver {
  BVSolver();
  // permanently assert e (1 bit)
  void add(Expr *e);
  // is PC /\ e satisfiable?  On SAT newModel holds an assignment of every variable.
  SatRes check(Expr *e, std::vector<u128> &newModel);
  // second opinion by Z3 on PC /\ e
  SatRes checkZ3(Expr *e, u64 rlimit, std::vector<u128> *model = nullptr);
  Expr *lower(Expr *e); // eliminate FP; nullptr if too many tuples
  std::vector<Expr *> pc;
  std::string smt2(Expr *e);
  bool fpStuck = false;
  Expr *fpStuckLeaf = nullptr;
  struct Impl; Impl *I;
};
