#include "solver.h"
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <sys/wait.h>
#include <errno.h>
#include <z3.h>
#include <sys/time.h>
#include <time.h>
#include <signal.h>
#include <algorithm>
#include <set>
#include <unordered_set>
#include <atomic>

PathState g_ps;
SolverStats* g_ss;
int g_queryTimeoutMs = 20000;
static Z3_context ctx;
static std::unordered_map<const Expr*, Z3_ast> memo, memoFp;
static std::unordered_map<uint64_t, Z3_func_decl> funs;
static std::vector<Z3_ast> sideAxioms;      // axioms for uninterpreted real functions used by the query
static std::unordered_map<const Expr*, std::vector<Z3_ast>> axiomsOf;
static std::unordered_map<const Expr*, Z3_ast> tieOf;   // K_ROFBV: the auxiliary real equals the integer
static bool z3err = false;
static void onErr(Z3_context, Z3_error_code e) { z3err = true; (void)e; }
static void onAlarm(int) { if (ctx) Z3_interrupt(ctx); }
// a query that reacts to no interrupt ends its path (counted as incomplete), on a second timer of its own
void (*g_beforeQuery)() = nullptr;
void (*g_hungQuery)() = nullptr;
static void onHung(int) { if (g_hungQuery) g_hungQuery(); }
static void hardTimer(int ms) {
  static pid_t owner = 0; static timer_t id;
  if (owner != getpid()) {
    if (!ms) return;
    struct sigevent ev; memset(&ev, 0, sizeof ev);
    ev.sigev_notify = SIGEV_SIGNAL; ev.sigev_signo = SIGUSR1;
    if (timer_create(CLOCK_MONOTONIC, &ev, &id) != 0) return;
    owner = getpid();
  }
  struct itimerspec it; memset(&it, 0, sizeof it);
  it.it_value.tv_sec = ms / 1000; it.it_value.tv_nsec = (ms % 1000) * 1000000l;
  timer_settime(id, 0, &it, nullptr);
}

void solverInit() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, onErr);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = onAlarm;
  sigaction(SIGALRM, &sa, nullptr);
  sa.sa_handler = onHung;
  sigaction(SIGUSR1, &sa, nullptr);
}
static Z3_sort bvs(int w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_sort fps(int w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
static Z3_ast tr(const Expr* e);
static Z3_ast rne() { return Z3_mk_fpa_rne(ctx); }
static Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_int(ctx, 1, bvs(1)), Z3_mk_int(ctx, 0, bvs(1))); }
static std::unordered_map<const Expr*, Z3_ast> memoB;
static Z3_ast trB(const Expr* e);

static Z3_ast trFp(const Expr* e) {
  auto it = memoFp.find(e);
  if (it != memoFp.end()) return it->second;
  Z3_ast r;
  auto A = [&](int i) { return trFp(e->x[i]); };
  switch (e->k) {
    case K_FADD: r = Z3_mk_fpa_add(ctx, rne(), A(0), A(1)); break;
    case K_FSUB: r = Z3_mk_fpa_sub(ctx, rne(), A(0), A(1)); break;
    case K_FMUL: r = Z3_mk_fpa_mul(ctx, rne(), A(0), A(1)); break;
    case K_FDIV: r = Z3_mk_fpa_div(ctx, rne(), A(0), A(1)); break;
    case K_FSQRT: r = Z3_mk_fpa_sqrt(ctx, rne(), A(0)); break;
    case K_FROUND: {
      Z3_ast m = e->a == 0 ? Z3_mk_fpa_rtn(ctx) : e->a == 1 ? Z3_mk_fpa_rtp(ctx) : e->a == 2 ? Z3_mk_fpa_rtz(ctx) : e->a == 3 ? rne() : Z3_mk_fpa_rna(ctx);
      r = Z3_mk_fpa_round_to_integral(ctx, m, A(0)); break;
    }
    case K_F2F: r = Z3_mk_fpa_to_fp_float(ctx, rne(), A(0), fps(e->w)); break;
    case K_SI2F: r = Z3_mk_fpa_to_fp_signed(ctx, rne(), tr(e->x[0]), fps(e->w)); break;
    case K_UI2F: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne(), tr(e->x[0]), fps(e->w)); break;
    case K_ITE: r = Z3_mk_ite(ctx, trB(e->x[0]), A(1), A(2)); break;
    default: r = Z3_mk_fpa_to_fp_bv(ctx, tr(e), fps(e->w)); break;
  }
  memoFp[e] = r;
  return r;
}
static Z3_ast rnum(long double v) {
  if (v == floorl(v) && fabsl(v) < 1e15L) { char b[64]; snprintf(b, sizeof b, "%.0Lf", v); return Z3_mk_numeral(ctx, b, Z3_mk_real_sort(ctx)); }
  // dyadic exact for moderately sized mantissas, else decimal
  char b[80]; snprintf(b, sizeof b, "%.20Lf", v);
  if (fabsl(v) < 1e-6L || fabsl(v) > 1e18L) {
    int ex; long double m = frexpl(v, &ex);  // v = m * 2^ex
    long long mi = (long long)ldexpl(m, 62); ex -= 62;
    Z3_sort rs = Z3_mk_real_sort(ctx);
    snprintf(b, sizeof b, "%lld", mi);
    Z3_ast x = Z3_mk_numeral(ctx, b, rs);
    std::string p2 = "1";
    for (int i = 0; i < abs(ex); i++) { int c = 0; for (int k = (int)p2.size() - 1; k >= 0; k--) { int d = (p2[k] - '0') * 2 + c; p2[k] = '0' + d % 10; c = d / 10; } if (c) p2 = char('0' + c) + p2; }
    Z3_ast q = Z3_mk_numeral(ctx, p2.c_str(), rs);
    Z3_ast a2[2] = {x, q};
    return ex < 0 ? Z3_mk_div(ctx, x, q) : Z3_mk_mul(ctx, 2, a2);
  }
  return Z3_mk_numeral(ctx, b, Z3_mk_real_sort(ctx));
}
static Z3_ast trR(const Expr* e) {
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Z3_sort rs = Z3_mk_real_sort(ctx);
  Z3_ast r;
  switch (e->k) {
    case K_RCONST: r = rnum(e->r); break;
    case K_RVAR: { char b[32]; snprintf(b, sizeof b, "r%llu", (unsigned long long)e->a); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), rs); break; }
    case K_RADD: { Z3_ast a[2] = {trR(e->x[0]), trR(e->x[1])}; r = Z3_mk_add(ctx, 2, a); break; }
    case K_RMUL: { Z3_ast a[2] = {trR(e->x[0]), trR(e->x[1])}; r = Z3_mk_mul(ctx, 2, a); break; }
    case K_RDIV: r = Z3_mk_div(ctx, trR(e->x[0]), trR(e->x[1])); break;
    case K_RITE: r = Z3_mk_ite(ctx, trB(e->x[0]), trR(e->x[1]), trR(e->x[2])); break;
    case K_ROFBV: {   // an auxiliary real with the interval of the integer; tied to it in queries that are not purely real
      char b[32]; snprintf(b, sizeof b, "q%u", e->id); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), rs);
      unsigned __int128 lo, hi; bool neg = e->a;
      if (exprRange(e->x[0], lo, hi) && !(neg && (hi >> (e->x[0]->w - 1)))) neg = false;
      else { int w = e->x[0]->w; lo = 0; hi = ((unsigned __int128)1 << w) - 1; if (neg) hi >>= 1; }
      axiomsOf[e].push_back(Z3_mk_le(ctx, r, rnum((long double)hi)));
      axiomsOf[e].push_back(Z3_mk_ge(ctx, r, neg ? rnum(-(long double)hi - 1) : rnum((long double)lo)));
      tieOf[e] = Z3_mk_eq(ctx, r, Z3_mk_int2real(ctx, Z3_mk_bv2int(ctx, tr(e->x[0]), e->a)));
      break;
    }
    case K_RFUN: {
      Z3_ast a[2]; int n = e->x[1] ? 2 : 1;
      a[0] = trR(e->x[0]); if (n > 1) a[1] = trR(e->x[1]);
      uint64_t key = 0x100000000ull + e->a * 4 + n;
      auto& f = funs[key];
      if (!f) { char b[32]; snprintf(b, sizeof b, "rf%llu_%d", (unsigned long long)e->a, n); Z3_sort d[2] = {rs, rs}; f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, b), n, d, rs); }
      r = Z3_mk_app(ctx, f, n, a);
      Z3_ast z = rnum(0);
      if (e->a == RF_EXP) {
        axiomsOf[e].push_back(Z3_mk_gt(ctx, r, z));
        axiomsOf[e].push_back(Z3_mk_iff(ctx, Z3_mk_gt(ctx, a[0], z), Z3_mk_gt(ctx, r, rnum(1))));
        axiomsOf[e].push_back(Z3_mk_iff(ctx, Z3_mk_eq(ctx, a[0], z), Z3_mk_eq(ctx, r, rnum(1))));
      }
      if (e->a == RF_SQRT) {
        Z3_ast m[2] = {r, r};
        axiomsOf[e].push_back(Z3_mk_ge(ctx, r, z));
        axiomsOf[e].push_back(Z3_mk_implies(ctx, Z3_mk_ge(ctx, a[0], z), Z3_mk_eq(ctx, Z3_mk_mul(ctx, 2, m), a[0])));
      }
      break;
    }
    default: fprintf(stderr, "trR kind %d\n", e->k); abort();
  }
  memo[e] = r;
  return r;
}
static Z3_ast trB(const Expr* e) {  // width-1 bv as Bool
  auto it = memoB.find(e);
  if (it != memoB.end()) return it->second;
  Z3_ast r;
  switch (e->k) {
    case K_CONST: r = e->a ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case K_EQ: if (e->x[0]->w == 1) r = Z3_mk_iff(ctx, trB(e->x[0]), trB(e->x[1])); else r = Z3_mk_eq(ctx, tr(e->x[0]), tr(e->x[1])); break;
    case K_ULT: r = Z3_mk_bvult(ctx, tr(e->x[0]), tr(e->x[1])); break;
    case K_ULE: r = Z3_mk_bvule(ctx, tr(e->x[0]), tr(e->x[1])); break;
    case K_SLT: r = Z3_mk_bvslt(ctx, tr(e->x[0]), tr(e->x[1])); break;
    case K_SLE: r = Z3_mk_bvsle(ctx, tr(e->x[0]), tr(e->x[1])); break;
    case K_FEQ: r = Z3_mk_fpa_eq(ctx, trFp(e->x[0]), trFp(e->x[1])); break;
    case K_FLT: r = Z3_mk_fpa_lt(ctx, trFp(e->x[0]), trFp(e->x[1])); break;
    case K_FLE: r = Z3_mk_fpa_leq(ctx, trFp(e->x[0]), trFp(e->x[1])); break;
    case K_FUNO: { Z3_ast a[2] = {Z3_mk_fpa_is_nan(ctx, trFp(e->x[0])), Z3_mk_fpa_is_nan(ctx, trFp(e->x[1]))}; r = Z3_mk_or(ctx, 2, a); break; }
    case K_RLT: r = Z3_mk_lt(ctx, trR(e->x[0]), trR(e->x[1])); break;
    case K_RLE: r = Z3_mk_le(ctx, trR(e->x[0]), trR(e->x[1])); break;
    case K_REQ: r = Z3_mk_eq(ctx, trR(e->x[0]), trR(e->x[1])); break;
    case K_AND: { Z3_ast a[2] = {trB(e->x[0]), trB(e->x[1])}; r = Z3_mk_and(ctx, 2, a); break; }
    case K_OR: { Z3_ast a[2] = {trB(e->x[0]), trB(e->x[1])}; r = Z3_mk_or(ctx, 2, a); break; }
    case K_XOR: if (e->x[1]->k == K_CONST) r = e->x[1]->a ? Z3_mk_not(ctx, trB(e->x[0])) : trB(e->x[0]); else r = Z3_mk_xor(ctx, trB(e->x[0]), trB(e->x[1])); break;
    case K_ITE: r = Z3_mk_ite(ctx, trB(e->x[0]), trB(e->x[1]), trB(e->x[2])); break;
    default: r = Z3_mk_eq(ctx, tr(e), Z3_mk_int(ctx, 1, bvs(1))); break;
  }
  memoB[e] = r;
  return r;
}
static Z3_ast tr(const Expr* e) {
  if (e->w == 0) return trR(e);
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Z3_ast r;
  auto A = [&](int i) { return tr(e->x[i]); };
  switch (e->k) {
    case K_CONST:
      if (e->w <= 64) r = Z3_mk_unsigned_int64(ctx, e->a, bvs(e->w));
      else r = Z3_mk_concat(ctx, Z3_mk_unsigned_int64(ctx, e->b, bvs(e->w - 64)), Z3_mk_unsigned_int64(ctx, e->a, bvs(64)));
      break;
    case K_VAR: { char b[32]; snprintf(b, sizeof b, "v%llu", (unsigned long long)e->a); r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), bvs(e->w)); break; }
    case K_ADD: r = Z3_mk_bvadd(ctx, A(0), A(1)); break;
    case K_SUB: r = Z3_mk_bvsub(ctx, A(0), A(1)); break;
    case K_MUL: r = Z3_mk_bvmul(ctx, A(0), A(1)); break;
    case K_UDIV: r = Z3_mk_bvudiv(ctx, A(0), A(1)); break;
    case K_SDIV: r = Z3_mk_bvsdiv(ctx, A(0), A(1)); break;
    case K_UREM: r = Z3_mk_bvurem(ctx, A(0), A(1)); break;
    case K_SREM: r = Z3_mk_bvsrem(ctx, A(0), A(1)); break;
    case K_AND: r = Z3_mk_bvand(ctx, A(0), A(1)); break;
    case K_OR: r = Z3_mk_bvor(ctx, A(0), A(1)); break;
    case K_XOR: r = Z3_mk_bvxor(ctx, A(0), A(1)); break;
    case K_SHL: r = Z3_mk_bvshl(ctx, A(0), A(1)); break;
    case K_LSHR: r = Z3_mk_bvlshr(ctx, A(0), A(1)); break;
    case K_ASHR: r = Z3_mk_bvashr(ctx, A(0), A(1)); break;
    case K_ITE: r = Z3_mk_ite(ctx, trB(e->x[0]), A(1), A(2)); break;
    case K_CONCAT: r = Z3_mk_concat(ctx, A(0), A(1)); break;
    case K_EXTRACT: r = Z3_mk_extract(ctx, e->a + e->w - 1, e->a, A(0)); break;
    case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->x[0]->w, A(0)); break;
    case K_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->x[0]->w, A(0)); break;
    case K_F2SI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), trFp(e->x[0]), e->w); break;
    case K_F2UI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), trFp(e->x[0]), e->w); break;
    case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_FSQRT: case K_FROUND: case K_F2F: case K_SI2F: case K_UI2F:
      r = Z3_mk_fpa_to_ieee_bv(ctx, trFp(e)); break;
    case K_FREM: case K_FUN: {
      Z3_ast a[2]; int n = e->x[1] ? 2 : 1;
      a[0] = A(0); if (n > 1) a[1] = A(1);
      uint64_t key = (e->k == K_FREM ? 999 : e->a) * 1000 + e->w * 4 + n;
      auto& f = funs[key];
      if (!f) {
        char b[32]; snprintf(b, sizeof b, "uf%llu", (unsigned long long)key);
        Z3_sort d[2] = {bvs(e->x[0]->w), n > 1 ? bvs(e->x[1]->w) : nullptr};
        f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, b), n, d, bvs(e->w));
      }
      r = Z3_mk_app(ctx, f, n, a);
      break;
    }
    case K_RBITS: {  // opaque bits of a real: injective only by congruence
      uint64_t key = 0x200000000ull + e->w;
      auto& f = funs[key];
      if (!f) { char b[32]; snprintf(b, sizeof b, "rbits%d", e->w); Z3_sort d[1] = {Z3_mk_real_sort(ctx)}; f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, b), 1, d, bvs(e->w)); }
      Z3_ast a[1] = {trR(e->x[0])};
      r = Z3_mk_app(ctx, f, 1, a);
      break;
    }
    default: r = b2bv(trB(e)); break;
  }
  memo[e] = r;
  return r;
}

void pcAdd(const Expr* c) {
  if (c->k == K_CONST) return;
  if (c->k == K_AND && c->w == 1) { pcAdd(c->x[0]); pcAdd(c->x[1]); return; }
  for (auto* p : g_ps.pc) if (p == c) return;
  g_ps.pc.push_back(c);
  std::vector<uint64_t> v;
  collectVars(c, v);
  g_ps.pcVars.push_back(v);
}
static uint64_t nowns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ull + t.tv_nsec; }

static std::map<std::vector<uint32_t>, SR> g_unsatCache;

// does a boolean expression over reals also look at bit-vectors (outside integer-to-real conversions)?
static bool mixedBV(const Expr* e, std::unordered_set<const Expr*>& seen) {
  if (e->k == K_ROFBV || e->k == K_CONST || e->k == K_RCONST || e->k == K_RVAR) return false;
  if (e->w > 1 || e->k == K_VAR) return true;
  if (!seen.insert(e).second) return false;
  for (int i = 0; i < e->n; i++) if (mixedBV(e->x[i], seen)) return true;
  return false;
}
static void gatherAxioms(const Expr* e, std::unordered_set<const Expr*>& seen, std::vector<Z3_ast>& out, bool& nl, std::vector<const Expr*>& rofs) {
  std::vector<const Expr*> st{e};
  while (!st.empty()) {
    const Expr* x = st.back(); st.pop_back();
    if (!seen.insert(x).second) continue;
    auto it = axiomsOf.find(x);
    if (it != axiomsOf.end()) for (auto a : it->second) out.push_back(a);
    if (x->k == K_RMUL && x->x[0]->k != K_RCONST && x->x[1]->k != K_RCONST) nl = true;
    if (x->k == K_RDIV) nl = true;
    if (x->k == K_ROFBV) { rofs.push_back(x); continue; }
    for (int i = 0; i < x->n; i++) st.push_back(x->x[i]);
  }
}

SR checkSat2(const std::vector<const Expr*>& extras, Assign* model, int timeoutMs) {
  for (auto* e : extras) if (e->k == K_CONST && !e->a) return S_UNSAT;
  // slice
  std::set<uint64_t> vars;
  std::vector<uint64_t> tmp;
  for (auto* e : extras) { tmp.clear(); collectVars(e, tmp); vars.insert(tmp.begin(), tmp.end()); }
  std::vector<char> in(g_ps.pc.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < g_ps.pc.size(); i++) {
      if (in[i]) continue;
      bool hit = false;
      for (uint64_t v : g_ps.pcVars[i]) if (vars.count(v)) { hit = true; break; }
      if (!hit && !g_ps.curValid) hit = true;   // without a full model take everything
      if (hit) { in[i] = 1; vars.insert(g_ps.pcVars[i].begin(), g_ps.pcVars[i].end()); ch = true; }
    }
  }
  std::vector<uint32_t> key;
  for (auto* e : extras) key.push_back(e->id);
  for (size_t i = 0; i < in.size(); i++) if (in[i]) key.push_back(g_ps.pc[i]->id);
  std::sort(key.begin(), key.end());
  auto cit = g_unsatCache.find(key);
  if (cit != g_unsatCache.end()) { __atomic_fetch_add(&g_ss->cached, 1, __ATOMIC_RELAXED); return cit->second; }

  uint8_t fl = 0;
  z3err = false;
  std::vector<Z3_ast> as;
  std::vector<const Expr*> parts(extras.begin(), extras.end()), rofs;
  for (size_t i = 0; i < in.size(); i++) if (in[i]) parts.push_back(g_ps.pc[i]);
  for (auto* e : parts) { trB(e); fl |= e->flags; }
  bool nl = false, dropped = false;
  if (fl & 2) {
    std::unordered_set<const Expr*> seen;
    for (auto* e : parts) gatherAxioms(e, seen, as, nl, rofs);
  }
  // The non-linear real solver knows no bit-vectors: constraints over bit-vectors alone are left out (an unsatisfiable
  // rest is still unsatisfiable, a model is accepted only if it also satisfies what was left out).
  bool pure = nl && !(fl & 4);
  if (pure) { std::unordered_set<const Expr*> seen; for (auto* e : parts) if ((e->flags & 2) && mixedBV(e, seen)) { pure = false; break; } }
  for (auto* e : parts) { if (pure && !(e->flags & 2)) { dropped = true; continue; } as.push_back(trB(e)); }
  if (pure) dropped |= !rofs.empty(); else for (auto* x : rofs) as.push_back(tieOf[x]);
  if (g_beforeQuery) g_beforeQuery();
  uint64_t t0 = nowns();
  int tmo = timeoutMs ? timeoutMs : g_queryTimeoutMs;
  Z3_solver s;
  if (fl & 2) {
    if (pure) s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_NRA"));
    else if (nl) s = Z3_mk_solver(ctx);
    else s = Z3_mk_simple_solver(ctx);
  } else if (fl & 1) s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, (fl & 4) ? "QF_UFBV" : "QF_FPBV"));
  else if (fl & 4) s = Z3_mk_solver(ctx);
  else s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  if ((fl & 1) && (fl & 4)) s = Z3_mk_solver(ctx);
  Z3_solver_inc_ref(ctx, s);
  for (auto a : as) Z3_solver_assert(ctx, s, a);
  std::vector<long double> rv; std::vector<uint64_t> bvv;   // values of vars, in order
  SR res = S_UNK;
  // non-linear arithmetic does not always react to an interrupt: run it in a process that can be killed
  int pp[2] = {-1, -1}; pid_t pid = 0;
  if (nl && pipe(pp) == 0) {
    pid = fork();
    if (pid < 0) { close(pp[0]); close(pp[1]); pid = 0; pp[0] = -1; }
    else if (pid > 0) {
      close(pp[1]);
      std::string buf; uint64_t end = nowns() + (uint64_t)tmo * 1000000ull + 500000000ull;
      for (;;) {
        int64_t left = (int64_t)(end - nowns()) / 1000000;
        if (left <= 0) break;
        struct pollfd pf = {pp[0], POLLIN, 0};
        int k = poll(&pf, 1, (int)left);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) break;
        char b[4096]; ssize_t g = read(pp[0], b, sizeof b);
        if (g < 0 && errno == EINTR) continue;
        if (g <= 0) break;
        buf.append(b, g);
      }
      close(pp[0]);
      kill(pid, SIGKILL);
      int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
      size_t nv = vars.size() + rofs.size(), need = 1 + nv * (sizeof(long double) + 8);
      if (!buf.empty()) res = buf[0] == 'U' ? S_UNSAT : buf[0] == 'S' && buf.size() == need ? S_SAT : S_UNK;
      if (res == S_SAT) for (size_t q = 0; q < nv; q++) {
        long double l; uint64_t u; const char* c = buf.data() + 1 + q * (sizeof l + 8);
        memcpy(&l, c, sizeof l); memcpy(&u, c + sizeof l, 8); rv.push_back(l); bvv.push_back(u);
      }
    }
  }
  bool child = pp[0] >= 0 && pid == 0;
  if (pid == 0) {
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = tmo / 1000; it.it_value.tv_usec = (tmo % 1000) * 1000;
    it.it_interval.tv_usec = 200000;
    setitimer(ITIMER_REAL, &it, nullptr);
    if (!child) hardTimer(tmo + 10000);
    Z3_lbool r = Z3_solver_check(ctx, s);
    if (!child) hardTimer(0);
    memset(&it, 0, sizeof it);
    setitimer(ITIMER_REAL, &it, nullptr);
    res = r == Z3_L_TRUE ? S_SAT : r == Z3_L_FALSE ? S_UNSAT : S_UNK;
    if (z3err) { if (getenv("SYMX_DEBUG")) fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(ctx, Z3_get_error_code(ctx))); res = S_UNK; }
    if (res == S_SAT && (model || child)) {
      Z3_model m = Z3_solver_get_model(ctx, s);
      Z3_model_inc_ref(ctx, m);
      std::vector<uint64_t> vl(vars.begin(), vars.end());
      for (size_t q = 0; q < vl.size() + rofs.size(); q++) {
        bool real = q >= vl.size() || g_vars[vl[q]].isReal;
        Z3_ast out;
        long double val = 0; uint64_t u = 0;
        char b[32]; if (q < vl.size()) snprintf(b, sizeof b, "%c%llu", real ? 'r' : 'v', (unsigned long long)vl[q]); else snprintf(b, sizeof b, "q%u", rofs[q - vl.size()]->id);
        Z3_ast c = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), real ? Z3_mk_real_sort(ctx) : bvs(g_vars[vl[q]].w));
        if (Z3_model_eval(ctx, m, c, true, &out)) {
          if (!real) Z3_get_numeral_uint64(ctx, out, &u);
          else {
            if (Z3_is_algebraic_number(ctx, out)) out = Z3_get_algebraic_number_lower(ctx, out, 30);
            if (Z3_is_numeral_ast(ctx, out)) {
              std::string s1 = Z3_get_numeral_decimal_string(ctx, out, 25);
              if (!s1.empty() && s1.back() == '?') s1.pop_back();
              val = strtold(s1.c_str(), nullptr);
            }
          }
        }
        rv.push_back(val); bvv.push_back(u);
      }
      Z3_model_dec_ref(ctx, m);
    }
    if (child) {
      std::string buf(1, res == S_SAT ? 'S' : res == S_UNSAT ? 'U' : '?');
      for (size_t q = 0; q < rv.size(); q++) { buf.append((char*)&rv[q], sizeof rv[q]); buf.append((char*)&bvv[q], 8); }
      size_t at = 0;
      while (at < buf.size()) { ssize_t w = write(pp[1], buf.data() + at, buf.size() - at); if (w <= 0) break; at += w; }
      _exit(0);
    }
  }
  if (res == S_SAT && model) {
    *model = g_ps.curValid ? g_ps.cur : Assign();
    size_t q = 0;
    for (uint64_t v : vars) { if (g_vars[v].isReal) model->re[v] = rv[q]; else if (!dropped) model->bv[v] = bvv[q]; else if (!model->bv.count(v)) model->bv[v] = g_vars[v].kind == 1 && g_vars[v].lo > 0 ? (uint64_t)(int64_t)g_vars[v].lo : 0; q++; }
    if (dropped) {
      for (auto* x : rofs) {   // integer inputs that only appear converted to reals: read them back from the real
        const Expr* b = x->x[0]; uint64_t u = (uint64_t)(int64_t)roundl(rv[q++]);
        while (b->k == K_ZEXT || b->k == K_SEXT || (b->k == K_ADD && isC(b->x[1]))) { if (b->k == K_ADD) u -= b->x[1]->a; b = b->x[0]; }
        if (b->k == K_VAR) model->bv[b->a] = u & maskw(b->w);
      }
      EvalCtx ec; ec.as = model;
      for (auto* e : parts) if (!evalBV(e, ec)) { res = S_UNK; break; }
    }
  }
  if (res == S_SAT && !model && dropped) res = S_UNK;
  Z3_solver_dec_ref(ctx, s);
  uint64_t dt = nowns() - t0;
  if (getenv("SYMX_DEBUG") && dt > 2000000000ull) fprintf(stderr, "slow query %.1fs res=%d fl=%d nl=%d extra=%s\n", dt / 1e9, res, fl, nl, exprStr(extras[0], 8).c_str());
  __atomic_fetch_add(&g_ss->queries, 1, __ATOMIC_RELAXED);
  __atomic_fetch_add(&g_ss->nsec, dt, __ATOMIC_RELAXED);
  __atomic_fetch_add(res == S_SAT ? &g_ss->sat : res == S_UNSAT ? &g_ss->unsat : &g_ss->unknown, 1, __ATOMIC_RELAXED);
  if (res == S_UNSAT) g_unsatCache[key] = res;
  return res;
}
SR checkSat(const Expr* extra, Assign* model, bool, int timeoutMs) { return checkSat2({extra}, model, timeoutMs); }
bool evalCur(const Expr* c) { EvalCtx ec; ec.as = &g_ps.cur; return (bool)evalBV(c, ec); }
