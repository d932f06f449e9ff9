#pragma once
#include "expr.hpp"
void solverInit(u64 rlimit);
// 1 sat (out filled for the given symbols), 0 unsat, -1 unknown
int z3solve(const std::vector<Expr*>&cs,const std::vector<std::pair<u32,int>>&syms,Model&out);
std::string z3smt(const std::vector<Expr*>&cs);
double nowS();
