#pragma once
#include "expr.h"
enum SR { S_UNSAT, S_SAT, S_UNK };
struct SolverStats { uint64_t queries, sat, unsat, unknown, nsec, cached, nfclosed; };
extern SolverStats* g_ss;
struct PathState {
  std::vector<const Expr*> pc;
  std::vector<std::vector<uint64_t>> pcVars;
  Assign cur;
  bool curValid = true;
};
extern PathState g_ps;
extern int g_queryTimeoutMs;
void solverInit();
void pcAdd(const Expr* c);
SR checkSat(const Expr* extra, Assign* model, bool full = false, int timeoutMs = 0);
SR checkSat2(const std::vector<const Expr*>& extra, Assign* model, int timeoutMs = 0);
bool evalCur(const Expr* c);  // evaluate under current model
std::string dumpSmt(const Expr* extra);
extern void (*g_beforeQuery)();   // may end the path: its time is up
extern void (*g_hungQuery)();     // called from a signal handler: ends the path
