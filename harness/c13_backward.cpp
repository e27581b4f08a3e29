#include "common.h"
#include "Functions.h"
#include <cmath>
// A graph is a list of nodes; each node's oracle value carries its derivative with respect to every leaf (forward mode),
// so the oracle and the code under test compute the same sum over paths in opposite directions.
struct N { float v; std::vector<float> d; };
static std::vector<float> lin(const std::vector<float>& a, float p, const std::vector<float>& b, float q) { std::vector<float> r; for (size_t i = 0; i < a.size(); i++) r.push_back(p * a[i] + q * b[i]); return r; }
enum { ADD, MUL, SUB, SIN, PERM, INPLACE };
struct G {
  std::vector<Tensor> t; std::vector<N> n; int L = 0; Sh s;
  int leaf(float v, bool rg) { t.push_back(mk({v}, s, rg)); N k{v, {}}; n.push_back(k); L++; return (int)t.size() - 1; }
  void close() { for (int i = 0; i < L; i++) { n[i].d.assign(L, 0.f); n[i].d[i] = 1.f; } }
  int op(int k, int a, int b) {
    Tensor y; N r;
    if (k == ADD) { y = t[a] + t[b]; r.v = n[a].v + n[b].v; r.d = lin(n[a].d, 1, n[b].d, 1); }
    else if (k == MUL) { y = t[a] * t[b]; r.v = n[a].v * n[b].v; r.d = lin(n[a].d, n[b].v, n[b].d, n[a].v); }
    else if (k == SUB) { y = t[a] - t[b]; r.v = n[a].v - n[b].v; r.d = lin(n[a].d, 1, n[b].d, -1); }
    else if (k == SIN) { y = t[a].sin(); r.v = std::sin(n[a].v); r.d = lin(n[a].d, std::cos(n[a].v), n[a].d, 0); }
    else if (k == PERM) { y = t[a].reshape(IntArrayView(s)); r = n[a]; }
    else { y = t[a] * t[a]; y += t[b]; r.v = n[a].v * n[a].v + n[b].v; r.d = lin(n[a].d, 2 * n[a].v, n[b].d, 1); }
    t.push_back(y); n.push_back(r); return (int)t.size() - 1;
  }
  void values(const char* m) { for (size_t i = 0; i < t.size(); i++) checkT(t[i], {n[i].v}, s, m); }
  void grads(const std::vector<float>& e, const std::vector<bool>& got, const char* m) {
    for (int i = 0; i < L; i++) if (t[i].requiresGrad()) { if (got[i]) checkT(t[i].grad(), {e[i]}, s, m); else if (t[i].grad().defined()) checkT(t[i].grad(), {0.f}, s, m); }
  }
};
static void back(const Tensor& r, float g, const Sh& s) { Tensor G = mk({g}, s); r.backward(G); checkT(G, {g}, s, "the caller's gradient is unchanged"); }
// reachable(i): leaves the root depends on through recorded operations
static void build(G& g, int K, int nops, std::vector<std::vector<bool>>& dep, int64_t lastFixed) {
  for (int i = 0; i < (int)g.t.size(); i++) { std::vector<bool> d(g.L, false); d[i] = true; dep.push_back(d); }
  for (int k = 0; k < K; k++) { int m = (int)g.t.size(); int64_t o = pick("op", 0, nops - 1), a = k + 1 == K && lastFixed ? m - 1 : pick("a", 0, m - 1), b = o == SIN || o == PERM ? a : pick("b", 0, m - 1);
    if (o == ADD || o == MUL) sym_assume(b <= a);  // symmetric
    g.op((int)o, (int)a, (int)b); std::vector<bool> d(g.L); for (int i = 0; i < g.L; i++) d[i] = dep[a][i] || dep[b][i]; dep.push_back(d); }
}
// every graph of two leaves and three (thorough: four) additions and products
HARNESS(graphs) {
  beginReal();
  G g; g.s = {1}; g.leaf(sym_f32("x"), true); g.leaf(sym_f32("y"), true); g.close(); std::vector<std::vector<bool>> dep; build(g, 3, 2, dep, 1); int R = (int)g.t.size() - 1; float s = sym_f32("g");
  back(g.t[R], s, g.s); g.grads({s * g.n[R].d[0], s * g.n[R].d[1]}, dep[R], "gradient of a leaf is the sum over all paths"); g.values("values are unchanged by backward"); END();
}
HARNESS(t_graphs_large) {
  beginReal();
  G g; g.s = {1}; g.leaf(sym_f32("x"), true); g.leaf(sym_f32("y"), true); g.close(); std::vector<std::vector<bool>> dep; build(g, 4, 2, dep, 1); int R = (int)g.t.size() - 1; float s = sym_f32("g");
  back(g.t[R], s, g.s); g.grads({s * g.n[R].d[0], s * g.n[R].d[1]}, dep[R], "gradient of a leaf is the sum over all paths"); g.values("values are unchanged by backward"); END();
}
// other operations, leaves without gradient
HARNESS(graphs_mixed) {
  beginReal();
  G g; g.s = {1}; int w = (int)pick("which", 0, 2); g.leaf(sym_f32("x"), w != 1); g.leaf(sym_f32("y"), w != 2); g.close(); std::vector<std::vector<bool>> dep; build(g, 2, 6, dep, 0); int R = (int)g.t.size() - 1; float s = sym_f32("g");
  if (!g.t[R].requiresGrad()) { bool any = false; for (int i = 0; i < 2; i++) any |= dep[R][i] && g.t[i].requiresGrad(); CHECK(!any, "the result does not require a gradient"); back(g.t[R], s, g.s); g.grads({0, 0}, {false, false}, "a root without gradient delivers nothing"); END(); return; }
  back(g.t[R], s, g.s); g.grads({s * g.n[R].d[0], s * g.n[R].d[1]}, dep[R], "gradient of a leaf is the sum over all paths"); g.values("values are unchanged by backward"); END();
}
// several backward passes, from the same or from different roots, with clearing in between
HARNESS(passes) {
  beginReal();
  G g; g.s = {1}; g.leaf(sym_f32("x"), true); g.leaf(sym_f32("y"), true); g.close(); std::vector<std::vector<bool>> dep; build(g, TIER == 2 ? 3 : 2, TIER == 2 ? 3 : 2, dep, 0); std::vector<float> e(2, 0.f); std::vector<bool> got(2, false);
  int P = TIER == 2 ? 3 : 2; int m = (int)g.t.size();
  for (int k = 0; k < P; k++) { int64_t r = pick("root", 0, m - 1); float s = sym_f32("g"); back(g.t[r], s, g.s); for (int i = 0; i < 2; i++) { e[i] += s * g.n[r].d[i]; if (dep[r][i]) got[i] = true; }
    if (k + 1 < P && pick("clear", 0, 1)) for (int i = 0; i < 2; i++) { g.t[i].zeroGrad(); e[i] = 0; } }
  g.grads(e, got, "gradients of repeated passes add up until cleared"); g.values("values are unchanged by backward"); END();
}
// the graph outlives the handles of the intermediate results; a rebuilt graph starts afresh
HARNESS(handles) {
  beginReal();
  float x = sym_f32("x"), y = sym_f32("y"), s = sym_f32("g"); Sh sh = {1}; Tensor X = mk({x}, sh, true), Y = mk({y}, sh, true), r; int n = (int)pick("rounds", 1, 3), form = (int)pick("form", 0, 2); float ex = 0, ey = 0;
  for (int k = 0; k < n; k++) { { Tensor a = X * Y; Tensor b = a + X; if (form == 1) { Tensor c = a; a = Tensor(); b = b * c; } else b = b * b; r = b; } back(r, s, sh); float a = x * y, b = a + x; if (form == 1) { ex += s * ((y + 1) * a + b * y); ey += s * (x * a + b * x); } else { ex += s * 2 * b * (y + 1); ey += s * 2 * b * x; } if (form == 2) { X.zeroGrad(); ex = 0; } }
  checkT(X.grad(), {ex}, sh, "gradient after rebuilding the graph"); checkT(Y.grad(), {ey}, sh, "gradient after rebuilding the graph"); END();
}
// one tensor used many times; deep chains
HARNESS(reuse) {
  beginReal();
  int k = (int)pick("n", 1, TIER == 2 ? 12 : 6), form = (int)pick("form", 0, 2); float x = sym_f32("x"), s = sym_f32("g"), v, d; Sh sh = {1}; Tensor X = mk({x}, sh, true), r = X * 1.f; v = x; d = 1;
  for (int i = 0; i < k; i++) { if (form == 0) { r = r + X; v += x; d += 1; } else if (form == 1) { r = X * r; d = v + x * d; v *= x; } else { r = r + r; v += v; d += d; } }
  checkT(r, {v}, sh, "value of the chain"); back(r, s, sh); checkT(X.grad(), {s * d}, sh, "every use of the tensor contributes once"); END();
}
// shapes change on the way; several elements; the gradient that comes back has the leaf's shape
HARNESS(shapes) {
  beginReal();
  Fs x = symFs("x", 2), w = symFs("w", 2), g = symFs("g", 4); Tensor X = mk(x, {2}, true), W = mk(w, {2, 1}, true); int form = (int)pick("form", 0, 3); Tensor y; Fs dx(2, 0.f), dw(2, 0.f);
  // out[i][j] = (w_i * x_j) (+ x_j) (* out)
  if (form == 0) { y = W * X + X; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { dx[j] += g[i * 2 + j] * (w[i] + 1); dw[i] += g[i * 2 + j] * x[j]; } y.backward(mk(g, {2, 2})); }
  else if (form == 1) { Tensor h = W * X; y = h * h; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { float o = w[i] * x[j]; dx[j] += g[i * 2 + j] * 2 * o * w[i]; dw[i] += g[i * 2 + j] * 2 * o * x[j]; } y.backward(mk(g, {2, 2})); }
  else if (form == 2) { Tensor h = W + X; y = h.reshape({4}); y = y * y.permute(); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { float o = 2 * (w[i] + x[j]) * g[i * 2 + j]; dx[j] += o; dw[i] += o; } y.backward(mk(g, {4})); }
  else { Tensor h = W * X; y = h.sum(); Tensor z = y * y; float t = 0; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) t += w[i] * x[j]; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { dx[j] += 2 * t * w[i]; dw[i] += 2 * t * x[j]; } z.backward(); }
  checkT(X.grad(), dx, {2}, "gradient through changing shapes"); checkT(W.grad(), dw, {2, 1}, "gradient through changing shapes"); checkT(X, x, {2}, "values are unchanged by backward"); checkT(W, w, {2, 1}, "values are unchanged by backward"); END();
}
// a small network: linear, relu, linear, softmax-free loss
HARNESS(network) {
  beginReal();
  int64_t B = pick("batch", 1, 2); Fs x = symFs("x", B * 2), w1 = symFs("w1", 4), b1 = symFs("b1", 2), w2 = symFs("w2", 2), b2 = symFs("b2", 1), t = symFs("t", B);
  Tensor X = mk(x, {B, 2}, true), W1 = mk(w1, {2, 2}, true), B1 = mk(b1, {2}, true), W2 = mk(w2, {1, 2}, true), B2 = mk(b2, {1}, true);
  Tensor L = function::mseLoss(function::linear(function::relu(function::linear(X, W1, B1)), W2, B2), mk(t, {B, 1}), LossReduction::SUM); CHECK(L.requiresGrad(), "the loss requires a gradient"); L.backward();
  Fs dx(x.size(), 0.f), dw1(4, 0.f), db1(2, 0.f), dw2(2, 0.f), db2(1, 0.f);
  for (int64_t b = 0; b < B; b++) { float h[2], o = b2[0]; bool on[2]; for (int i = 0; i < 2; i++) { h[i] = b1[i] + x[b * 2] * w1[i * 2] + x[b * 2 + 1] * w1[i * 2 + 1]; sym_assume(h[i] != 0); on[i] = sym_fork(h[i] > 0); if (on[i]) o += h[i] * w2[i]; } float e = 2 * (o - t[b]); db2[0] += e; for (int i = 0; i < 2; i++) if (on[i]) { dw2[i] += e * h[i]; float q = e * w2[i]; db1[i] += q; for (int j = 0; j < 2; j++) { dw1[i * 2 + j] += q * x[b * 2 + j]; dx[b * 2 + j] += q * w1[i * 2 + j]; } } }
  checkT(X.grad(), dx, {B, 2}, "gradient of a network"); checkT(W1.grad(), dw1, {2, 2}, "gradient of a network"); checkT(B1.grad(), db1, {2}, "gradient of a network"); checkT(W2.grad(), dw2, {1, 2}, "gradient of a network"); checkT(B2.grad(), db2, {1}, "gradient of a network"); END();
}
// a gradient of the wrong shape, or a missing one, is refused and delivers nothing
HARNESS(refused) {
  beginReal();
  Fs x = symFs("x", 2); Tensor X = mk(x, {2}, true), y = X * X; int f = (int)pick("form", 0, 2);
  if (f == 0) y.backward(); else if (f == 1) y.backward(mk(symFs("g", 1), {1})); else y.backward(mk(symFs("g", 2), {1, 2}));
  CHECK(!X.grad().defined(), "a refused gradient delivers nothing"); checkT(X, x, {2}, "values are unchanged"); END();
}
