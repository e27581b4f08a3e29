#include "common.h"
#include "Operations.h"
#include "Functions.h"
#include "Modules.h"
static LossReduction red(int k) { return k == 0 ? LossReduction::NONE : k == 1 ? LossReduction::SUM : LossReduction::MEAN; }
static void reduced(const Tensor& y, const Fs& e, const Sh& s, int k, const char* m) {
  if (k == 0) { checkT(y, e, s, m); return; }
  float z = 0; for (float f : e) z += f; checkT(y, {k == 1 ? z : z / (float)e.size()}, {}, m);
}
HARNESS(mse) {
  beginReal();
  Sh s = pickShape("d", 0, 3, 1, TIER == 2 ? 3 : 2, 8); int k = (int)pick("reduction", 0, 2); int via = (int)pick("via", 0, 2); Fs a = symFs("a", prod(s)), b = symFs("b", prod(s)), e;
  for (size_t i = 0; i < a.size(); i++) e.push_back((a[i] - b[i]) * (a[i] - b[i]));
  Tensor A = mk(a, s), B = mk(b, s); nn::MSELoss mod(red(k));
  reduced(via == 0 ? op::mseLoss(A, B, red(k)) : via == 1 ? function::mseLoss(A, B, red(k)) : mod(A, B), e, s, k, "mean squared error"); checkT(A, a, s, "operand unchanged"); checkT(B, b, s, "operand unchanged"); END();
}
// a target that is broadcast
HARNESS(mse_broadcast) {
  beginReal();
  int64_t m = pick("m", 1, 2), n = pick("n", 1, 3); int f = (int)pick("form", 0, 2), k = (int)pick("reduction", 0, 2); Sh s = {m, n}, t = f == 0 ? Sh{n} : f == 1 ? Sh{m, 1} : Sh{1}; Fs a = symFs("a", m * n), b = symFs("b", prod(t)), e;
  for (int64_t i = 0; i < m * n; i++) { float q = a[i] - b[f == 0 ? i % n : f == 1 ? i / n : 0]; e.push_back(q * q); }
  Tensor A = mk(a, s), B = mk(b, t); bool swap = pick("swap", 0, 1); reduced(swap ? function::mseLoss(B, A, red(k)) : function::mseLoss(A, B, red(k)), e, s, k, "mean squared error of a broadcast operand"); END();
}
HARNESS(nll) {
  begin();
  int64_t n = pick("n", 1, 3), c = pick("c", 1, 3); int via = (int)pick("via", 0, 2); Fs a = symFs("a", n * c); std::vector<int64_t> t; for (int64_t i = 0; i < n; i++) t.push_back(sym_i64("target", 0, c - 1));
  Tensor A = mk(a, {n, c}), T = mkI(t, {n}); nn::NLLLoss mod(red(0)); Tensor y = via == 0 ? op::nllLoss(A, T, red(0)) : via == 1 ? function::nllLoss(A, T, red(0)) : mod(A, T);
  checkLayout(y, {n}, "negative log-likelihood"); for (int64_t i = 0; i < n; i++) { uint32_t e = fbits(a[i * c]); for (int64_t j = 1; j < c; j++) e = sym_ite32(t[i] == j, fbits(a[i * c + j]), e); float f; memcpy(&f, &e, 4); CHECKF(fp(y)[i], -1.f * f, "negative log-likelihood of an element"); }
  checkT(A, a, {n, c}, "operand unchanged"); checkI(T, t, {n}, "operand unchanged"); END();
}
HARNESS(nll_reduced) {
  beginReal();
  int64_t n = pick("n", 1, TIER == 2 ? 4 : 3), c = pick("c", 1, 2); int k = (int)pick("reduction", 0, 2), via = (int)pick("via", 0, 2); Fs a = symFs("a", n * c), e; std::vector<int64_t> t; for (int64_t i = 0; i < n; i++) { t.push_back(pick("target", 0, c - 1)); e.push_back(-a[i * c + t[i]]); }
  Tensor A = mk(a, {n, c}), T = mkI(t, {n}); nn::NLLLoss mod(red(k)); reduced(via == 0 ? op::nllLoss(A, T, red(k)) : via == 1 ? function::nllLoss(A, T, red(k)) : mod(A, T), e, {n}, k, "negative log-likelihood"); END();
}
// targets outside the classes, and shapes that do not go together, are refused
HARNESS(refused) {
  begin();
  int f = (int)pick("form", 0, 3); int64_t n = pick("n", 1, 2), c = pick("c", 1, 2); std::vector<int64_t> t(n, 0); Sh ts = {n}; Tensor A = mk(symFs("a", n * c), {n, c}), B = mk(symFs("b", n * (c + 2)), {n, c + 2});
  if (f == 0) { int64_t at = pick("at", 0, n - 1), v = sym_i64("target", INT64_MIN, INT64_MAX); sym_assume((v >= c) | (v < -c)); t[at] = v; }
  if (f == 1) { t.assign(n + 1, 0); ts = {n + 1}; }
  if (f == 2) { sym_assume(c == 2); }
  if (f == 3) ts = {n, 1};
  Tensor T = mkI(t, ts); sym_reach("end"); sym_trap_policy(1); if (f == 2) function::mseLoss(A, B); else function::nllLoss(A, T); CHECK(false, "a loss accepts targets that do not fit");
}
// batches past unrolled or blocked loops
HARNESS(wide) {
  beginReal();
  int k = (int)pick("reduction", 0, 2); bool nll = pick("nll", 0, 1), fn = pick("function", 0, 1); static const Sh S[] = {{33, 3}, {2, 65}, {130, 1}, {9, 9}}; Sh s = S[pick("shape", 0, 3)]; int64_t n = s[0], c = s[1]; Fs a = symFs("a", n * c), e; Tensor A = mk(a, s);
  if (nll) { std::vector<int64_t> t; for (int64_t i = 0; i < n; i++) { t.push_back((i * 7 + 3) % c); e.push_back(-1.f * a[i * c + t[i]]); if (i % 4 == 1) t[i] -= c; } Tensor T = mkI(t, {n}); reduced(fn ? function::nllLoss(A, T, red(k)) : op::nllLoss(A, T, red(k)), e, {n}, k, "negative log-likelihood"); }
  else { Fs b = symFs("b", n * c); for (size_t i = 0; i < a.size(); i++) e.push_back((a[i] - b[i]) * (a[i] - b[i])); Tensor B = mk(b, s); reduced(fn ? function::mseLoss(A, B, red(k)) : op::mseLoss(A, B, red(k)), e, s, k, "mean squared error"); }
  checkT(A, a, s, "operand unchanged"); END();
}
