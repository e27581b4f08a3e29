#include "common.h"
#include "Operations.h"
#include "Functions.h"
#include "Utils/RandomGenerator.h"
#include <cmath>
// every harness: values and upstream gradient are symbolic; the gradient of every operand that asks for one is compared
// with the vector-Jacobian product written out element by element
static Fs ones(size_t n) { return Fs(n, 1.f); }
static void back(const Tensor& y, const Fs& g, const Sh& s) { checkLayout(y, s, "shape of the result"); CHECK(y.requiresGrad(), "the result requires a gradient"); y.backward(mk(g, s)); }
static void noGrad(const Tensor& t) { CHECK(!t.requiresGrad(), "a tensor that needs no gradient has one"); }
struct Op2 { Fs v; Sh s; std::vector<int64_t> at; };   // at: element used for every output element
static std::vector<int64_t> bmap(const Sh& s, const Sh& out) {
  std::vector<int64_t> r; size_t k = out.size() - s.size();
  forCoord(out, [&](int64_t, const Sh& c) { int64_t o = 0; for (size_t d = 0; d < s.size(); d++) o = o * s[d] + (s[d] == 1 ? 0 : c[d + k]); r.push_back(o); });
  return r;
}
// add, sub, mul, div, pow with every broadcast combination
static void binary(int op, const Sh& as, const Sh& bs, const Sh& os, bool ga, bool gb, float alpha) {
  Fs a = op == 4 ? symFsR("a", prod(as), 0.5f, 4.f) : symFs("a", prod(as)), b = op == 3 ? symFsR("b", prod(bs), 0.5f, 8.f) : op == 4 ? Fs(prod(bs), (float)pick("exponent", 2, 3)) : symFs("b", prod(bs)), g = symFs("g", prod(os));
  Tensor A = mk(a, as, ga), B = mk(b, bs, gb), y;
  switch (op) { case 0: y = function::add(A, B, alpha); break; case 1: y = function::sub(A, B, alpha); break; case 2: y = A * B; break; case 3: y = A / B; break; default: y = function::pow(A, B); }
  auto ma = bmap(as, os), mb = bmap(bs, os); Fs da(a.size(), 0.f), db(b.size(), 0.f);
  for (size_t i = 0; i < g.size(); i++) { float p = a[ma[i]], q = b[mb[i]], u, v;
    switch (op) { case 0: u = 1; v = alpha; break; case 1: u = 1; v = -alpha; break; case 2: u = q; v = p; break; case 3: u = 1 / q; v = -p / (q * q); break; default: u = q * std::pow(p, q - 1); v = std::pow(p, q) * std::log(p); }
    da[ma[i]] += g[i] * u; db[mb[i]] += g[i] * v; }
  back(y, g, os); if (ga) checkT(A.grad(), da, as, "gradient of the first operand"); else noGrad(A); if (gb) checkT(B.grad(), db, bs, "gradient of the second operand"); else noGrad(B);
  checkT(A, a, as, "operand unchanged"); checkT(B, b, bs, "operand unchanged"); END();
}
HARNESS(binary_broadcast) {
  beginReal();
  Sh as = pickShape("a", 0, 2, 1, 2), bs = pickShape("b", 0, 2, 1, 2), os(std::max(as.size(), bs.size()), 1); int op = (int)pick("op", 0, 4), w = (int)pick("which", 0, 2);
  for (size_t i = 0; i < os.size(); i++) { int64_t x = i < as.size() ? as[as.size() - 1 - i] : 1, y = i < bs.size() ? bs[bs.size() - 1 - i] : 1; os[os.size() - 1 - i] = std::max(x, y); }
  binary(op, as, bs, os, w != 1, w != 0, 1.f);
}
HARNESS(binary_alpha) { beginReal(); bool b = pick("broadcast", 0, 1), op = pick("op", 0, 1), ga = pick("ga", 0, 1); binary(op, {2}, b ? Sh{1} : Sh{2}, {2}, op ? ga : true, op, pick("alpha", 0, 1) ? 0.5f : -3.f); }
HARNESS(kf_add_alpha) { beginReal(); bool b = pick("broadcast", 0, 1); binary(0, {2}, b ? Sh{1} : Sh{2}, {2}, pick("ga", 0, 1), true, pick("alpha", 0, 1) ? 0.5f : -3.f); }
// scalars, in-place forms and operators
HARNESS(binary_forms) {
  beginReal();
  Sh s = {2}; Fs a = symFs("a", 2), b = symFsR("b", 2, 0.5f, 8.f), g = symFs("g", 2), da(2), db(2); int op = (int)pick("op", 0, 3), f = (int)pick("form", 0, 3); Tensor A = mk(a, s, true), B = mk(b, s, f == 0), y;
  float c = f == 1 || f == 2 ? 2.f : 0.f;
  if (f == 0) { y = A * 1.f; if (op == 0) y += B; else if (op == 1) y -= B; else if (op == 2) y *= B; else y /= B; }
  else if (f == 1) y = op == 0 ? A + c : op == 1 ? A - c : op == 2 ? A * c : A / c;
  else if (f == 2) { A = mk(b, s, true); y = op == 0 ? c + A : op == 1 ? c - A : op == 2 ? c * A : c / A; }
  else y = op == 0 ? A + B : op == 1 ? A - B : op == 2 ? A * B : A / B;
  for (int i = 0; i < 2; i++) { float p = f == 2 ? c : a[i], q = f == 1 ? c : b[i]; float u = op < 2 ? 1 : op == 2 ? q : 1 / q, v = op == 0 ? 1 : op == 1 ? -1 : op == 2 ? p : -p / (q * q); da[i] = g[i] * (f == 2 ? v : u); db[i] = g[i] * v; }
  back(y, g, s); checkT(A.grad(), da, s, "gradient of the operand"); if (f == 0) checkT(B.grad(), db, s, "gradient of the in-place operand"); else noGrad(B); END();
}
HARNESS(unary) {
  beginReal();
  Sh s = pickShape("d", 0, 2, 1, 2); int64_t n = prod(s); int op = (int)pick("op", 0, 3); Fs x = symFs("x", n), g = symFs("g", n), d; for (auto v : x) sym_assume(v != 0); Tensor X = mk(x, s, true), y = op == 0 ? X.sin() : op == 1 ? X.cos() : op == 2 ? function::relu(X) : X * 1.f;
  for (int64_t i = 0; i < n; i++) d.push_back(g[i] * (op == 0 ? std::cos(x[i]) : op == 1 ? -std::sin(x[i]) : op == 2 ? (sym_fork(x[i] > 0) ? 1.f : 0.f) : 1.f));
  back(y, g, s); checkT(X.grad(), d, s, "gradient of an element-wise function"); END();
}
HARNESS(softmax) {
  beginReal();
  Sh s = pickShape("d", 1, 2, 1, TIER == 2 ? 3 : 2, 4); int r = (int)s.size(); int64_t dim = pick("dim", -r, r - 1), k = dim < 0 ? dim + r : dim, n = s[k], inner = prod(s, k + 1, s.size()), N = prod(s); bool lg = pick("log", 0, 1); Fs x = symFsR("x", N, -20, 20), g = symFs("g", N), d(N);
  for (int64_t b = 0; b < N; b++) { if (b / inner % n) continue; float z = 0, q = 0; for (int64_t i = 0; i < n; i++) z += std::exp(x[b + i * inner]); for (int64_t i = 0; i < n; i++) q += lg ? g[b + i * inner] : g[b + i * inner] * std::exp(x[b + i * inner]) / z; for (int64_t i = 0; i < n; i++) { int64_t o = b + i * inner; float y = std::exp(x[o]) / z; d[o] = lg ? g[o] - y * q : y * (g[o] - q); } }
  Tensor X = mk(x, s, true); back(lg ? function::logSoftmax(X, dim) : function::softmax(X, dim), g, s); checkT(X.grad(), d, s, "gradient of softmax"); checkT(X, x, s, "operand unchanged"); END();
}
HARNESS(sum) {
  beginReal();
  Sh s = pickShape("d", 0, 3, 1, 2); Fs x = symFs("x", prod(s)), g = symFs("g", 1); Tensor X = mk(x, s, true); back(X.sum(), g, {}); checkT(X.grad(), Fs(x.size(), g[0]), s, "gradient of a sum"); END();
}
HARNESS(transforms) {
  beginReal();
  Sh s = pickShape("d", 1, 3, 1, 3, TIER == 2 ? 12 : 6); int r = (int)s.size(); int64_t n = prod(s); int op = (int)pick("op", 0, 7); Fs x = symFs("x", n), g = symFs("g", n); Tensor X = mk(x, s, true), y; Sh os; std::vector<int64_t> src(n); for (int64_t i = 0; i < n; i++) src[i] = i;
  auto perm = [&](const Sh& p) { os.clear(); for (auto d : p) os.push_back(s[d]); forCoord(os, [&](int64_t i, const Sh& c) { Sh q(r); for (int k = 0; k < r; k++) q[p[k]] = c[k]; src[i] = off(s, q); }); };
  switch (op) {
    case 0: os = {n}; y = X.reshape(IntArrayView(os)); break;
    case 1: os = {1, n}; y = X.view(IntArrayView(os)); break;
    case 2: { Sh p; std::vector<int> left; for (int i = 0; i < r; i++) left.push_back(i); while (!left.empty()) { int64_t k = pick("axis", 0, (int64_t)left.size() - 1); p.push_back(left[k]); left.erase(left.begin() + k); } perm(p); Sh q = p; if (pick("negative", 0, 1)) for (auto& d : q) d -= r; y = X.permute(IntArrayView(q)); break; }
    case 3: { Sh p; for (int i = r - 1; i >= 0; i--) p.push_back(i); perm(p); y = X.permute(); break; }
    case 4: os = {n}; y = X.flatten(); break;
    case 5: { os = s; os.insert(os.begin(), 1); Sh u = {1, s[0]}; y = X.unflatten(0, IntArrayView(u)); break; }
    case 6: { for (auto d : s) if (d != 1) os.push_back(d); Sh all; for (int i = 0; i < r; i++) all.push_back(i - (i & 1) * r); y = X.squeeze(IntArrayView(all)); break; }
    default: { int64_t k = pick("at", 0, r); os = s; os.insert(os.begin() + k, 1); y = X.unsqueeze(k); }
  }
  Fs d(n); for (int64_t i = 0; i < n; i++) d[src[i]] = g[i];
  back(y, g, os); checkT(X.grad(), d, s, "gradient of a rearrangement"); checkT(X, x, s, "operand unchanged"); END();
}
HARNESS(linear) {
  beginReal();
  Sh lead = pickShape("d", 0, 2, 1, 2); int64_t in = pick("in", 1, TIER == 2 ? 3 : 2), out = pick("out", 1, TIER == 2 ? 3 : 2), R = prod(lead); bool bias = pick("bias", 0, 1); unsigned who = (unsigned)pick("who", 1, 7); sym_assume(bias || (!(who & 4) && who)); if (TIER != 2) sym_assume(who == 7 || who == 3 || who == 1 || (bias && who == 4));
  Sh xs = lead, ys = lead; xs.push_back(in); ys.push_back(out); Fs x = symFs("x", R * in), w = symFs("w", in * out), b = symFs("b", out), g = symFs("g", R * out), dx(x.size(), 0.f), dw(w.size(), 0.f), db(out, 0.f);
  for (int64_t r = 0; r < R; r++) for (int64_t o = 0; o < out; o++) { float q = g[r * out + o]; db[o] += q; for (int64_t i = 0; i < in; i++) { dx[r * in + i] += q * w[o * in + i]; dw[o * in + i] += q * x[r * in + i]; } }
  Tensor X = mk(x, xs, who & 1), W = mk(w, {out, in}, who & 2), B = mk(b, {out}, who & 4); back(bias ? function::linear(X, W, B) : function::linear(X, W), g, ys);
  if (who & 1) checkT(X.grad(), dx, xs, "gradient of the input of a linear layer"); else noGrad(X); if (who & 2) checkT(W.grad(), dw, {out, in}, "gradient of the weight of a linear layer"); else noGrad(W); if (who & 4) checkT(B.grad(), db, {out}, "gradient of the bias of a linear layer"); else noGrad(B); END();
}
static int64_t outDim(int64_t h, int64_t k, int64_t s, int64_t p) { return (h + 2 * p - k) / s + 1; }
static void conv(int64_t N, int64_t C, int64_t O, int64_t H, int64_t W, Dim2D k, Dim2D st, Dim2D p, unsigned who) {
  Sh xs = {N, C, H, W}, ws = {O, C, k.h, k.w}; int64_t oh = outDim(H, k.h, st.h, p.h), ow = outDim(W, k.w, st.w, p.w); Sh os = {N, O, oh, ow}; Fs x = symFs("x", prod(xs)), w = symFs("w", prod(ws)), b = symFs("b", O), g = symFs("g", prod(os)), dx(x.size(), 0.f), dw(w.size(), 0.f), db(O, 0.f);
  int64_t q = 0; for (int64_t n = 0; n < N; n++) for (int64_t o = 0; o < O; o++) for (int64_t i = 0; i < oh; i++) for (int64_t j = 0; j < ow; j++, q++) { db[o] += g[q];
    for (int64_t c = 0; c < C; c++) for (int64_t u = 0; u < k.h; u++) for (int64_t v = 0; v < k.w; v++) { int64_t r = i * st.h - p.h + u, l = j * st.w - p.w + v; if (r >= 0 && r < H && l >= 0 && l < W) { int64_t xi = ((n * C + c) * H + r) * W + l, wi = ((o * C + c) * k.h + u) * k.w + v; dx[xi] += g[q] * w[wi]; dw[wi] += g[q] * x[xi]; } } }
  Tensor X = mk(x, xs, who & 1), Wt = mk(w, ws, who & 2), B = mk(b, {O}, who & 4); back(function::conv2d(X, Wt, B, st, p), g, os);
  if (who & 1) checkT(X.grad(), dx, xs, "gradient of the input of a convolution"); else noGrad(X); if (who & 2) checkT(Wt.grad(), dw, ws, "gradient of the weight of a convolution"); else noGrad(Wt); if (who & 4) checkT(B.grad(), db, {O}, "gradient of the bias of a convolution"); else noGrad(B); END();
}
HARNESS(conv_channels) { beginReal(); int64_t N = pick("n", 1, 2), C = pick("c", 1, 2), O = pick("o", 1, 2), W = pick("w", 1, 3); static const unsigned who[] = {7, 1, 2, 4}; conv(N, C, O, 1, W, Dim2D(1, pick("k", 1, W < 2 ? 1 : 2)), 1, 0, who[pick("who", 0, 3)]); }
HARNESS(conv_window) {
  beginReal();
  int64_t H = pick("h", 1, 3), W = pick("w", 1, 2); Dim2D k(pick("kh", 1, 2), pick("kw", 1, 2)), st(pick("sh", 1, 2), pick("sw", 1, 2)), p(pick("ph", 0, 1), pick("pw", 0, 1)); sym_assume(H + 2 * p.h >= k.h && W + 2 * p.w >= k.w); if (TIER != 2) sym_assume(k.h + k.w > 2 && (st.w == 1 || p.h == 1)); conv(1, 1, 2, H, W, k, st, p, 7);
}
// max pooling hands the gradient to an element that attains the maximum (elements of a window are pairwise different here)
HARNESS(pool) {
  beginReal();
  int64_t N = pick("n", 0, 1), C = pick("c", 1, 2), H = pick("h", 1, 2), W = pick("w", 1, 2); Dim2D k(pick("kh", 1, 2), pick("kw", 1, 2)), st(pick("s", 1, 2)), p(pick("p", 0, 1), 0); sym_assume(2 * p.h <= k.h && H + 2 * p.h >= k.h && W >= k.w && (C == 1 || H * W <= 2));
  int64_t oh = outDim(H, k.h, st.h, p.h), ow = outDim(W, k.w, st.w, p.w), B = N ? N : 1; Sh xs = N ? Sh{N, C, H, W} : Sh{C, H, W}, os = N ? Sh{N, C, oh, ow} : Sh{C, oh, ow}; Fs x = symFsR("x", prod(xs), -1e30f, 1e30f), g = symFs("g", prod(os)), d(x.size(), 0.f);
  int64_t q = 0; for (int64_t n = 0; n < B; n++) for (int64_t c = 0; c < C; c++) for (int64_t i = 0; i < oh; i++) for (int64_t j = 0; j < ow; j++, q++) { int64_t best = -1; for (int64_t u = 0; u < k.h; u++) for (int64_t v = 0; v < k.w; v++) { int64_t r = i * st.h - p.h + u, l = j * st.w + v; if (r < 0 || r >= H || l >= W) continue; int64_t o = ((n * C + c) * H + r) * W + l; if (best < 0) best = o; else { sym_assume(x[o] != x[best]); if (sym_fork(x[o] > x[best])) best = o; } } d[best] += g[q]; }
  Tensor X = mk(x, xs, true); back(function::maxPool2d(X, k, st, p), g, os); checkT(X.grad(), d, xs, "gradient of max pooling"); END();
}
HARNESS(dropout) {
  beginReal(); manualSeed(pick("seed", 0, 3));
  int64_t n = pick("n", 1, 4); bool train = pick("training", 0, 1); float p = pick("p", 0, 1) ? 0.5f : 0.25f; Fs g = symFs("g", n), d; Tensor X = mk(ones(n), {n}, true), y = function::dropout(X, p, train);
  for (int64_t i = 0; i < n; i++) d.push_back(g[i] * fp(y)[i]);  // the input is one, so the output is the factor itself
  back(y, g, {n}); checkT(X.grad(), d, {n}, "gradient of dropout"); END();
}
static LossReduction red(int k) { return k == 0 ? LossReduction::NONE : k == 1 ? LossReduction::SUM : LossReduction::MEAN; }
HARNESS(mse) {
  beginReal();
  int k = (int)pick("reduction", 0, 2), f = (int)pick("form", 0, 4); Sh s = f == 4 ? Sh{2} : Sh{2, 2}, t = f == 1 ? Sh{2} : f == 2 ? Sh{2, 1} : f == 3 ? Sh{1} : f == 4 ? Sh{2, 2} : s, o = {2, 2}; Fs a = symFs("a", prod(s)), b = symFs("b", prod(t)), g = symFs("g", k ? 1 : 4), d(a.size(), 0.f); auto ma = bmap(s, o), mb = bmap(t, o);
  for (int i = 0; i < 4; i++) d[ma[i]] += 2 * (a[ma[i]] - b[mb[i]]) * (k ? g[0] : g[i]) / (k == 2 ? 4.f : 1.f);
  Tensor A = mk(a, s, true); back(function::mseLoss(A, mk(b, t), red(k)), g, k ? Sh{} : o); checkT(A.grad(), d, s, "gradient of the mean squared error"); END();
}
HARNESS(nll) {
  beginReal();
  int64_t n = pick("n", 1, 3), c = pick("c", 1, 2); int k = (int)pick("reduction", 0, 2); Fs a = symFs("a", n * c), g = symFs("g", k ? 1 : n), d(n * c, 0.f); std::vector<int64_t> t; for (int64_t i = 0; i < n; i++) { t.push_back(pick("target", 0, c - 1)); d[i * c + t[i]] = -(k ? g[0] : g[i]) / (k == 2 ? (float)n : 1.f); }
  Tensor A = mk(a, {n, c}, true); back(function::nllLoss(A, mkI(t, {n}), red(k)), g, k ? Sh{} : Sh{n}); checkT(A.grad(), d, {n, c}, "gradient of the negative log-likelihood"); END();
}
// larger concrete shapes, symbolic values
HARNESS(wide_binary) {
  beginReal(); static const Sh A[] = {{65}, {3, 40}, {1, 33}, {2, 3, 1, 5, 2}, {40, 1}, {1}}, B[] = {{65}, {40}, {7, 1}, {3, 4, 1, 2}, {1, 9}, {130}}, O[] = {{65}, {3, 40}, {7, 33}, {2, 3, 4, 5, 2}, {40, 9}, {130}};
  int64_t k = pick("pair", 0, 5); bool sw = pick("swap", 0, 1); int op = (int)pick("op", 0, 3); static const unsigned who[] = {3, 1, 2}; unsigned w = who[pick("who", 0, 2)]; binary(op, sw ? B[k] : A[k], sw ? A[k] : B[k], O[k], w & 1, w & 2, 1.f);
}
HARNESS(wide_unary) {
  beginReal(); static const Sh S[] = {{130}, {5, 31}, {2, 1, 3, 2, 1, 4}}; Sh s = S[pick("shape", 0, 2)]; int64_t n = prod(s); int op = (int)pick("op", 0, 4); Fs x, g = symFs("g", n), d; for (int64_t i = 0; i < n; i++) x.push_back(i % 3 ? sym_f32_range("x", 1, 4) : sym_f32_range("x", -4, -1)); Tensor X = mk(x, s, true), y = op == 0 ? X.sin() : op == 1 ? X.cos() : op == 2 ? function::relu(X) : op == 3 ? X.sum() : X * 3.f;
  for (int64_t i = 0; i < n; i++) d.push_back(op == 0 ? g[i] * std::cos(x[i]) : op == 1 ? g[i] * -std::sin(x[i]) : op == 2 ? (i % 3 ? g[i] : 0.f) : op == 3 ? g[0] : g[i] * 3.f);
  back(y, op == 3 ? Fs{g[0]} : g, op == 3 ? Sh{} : s); checkT(X.grad(), d, s, "gradient of an element-wise function"); END();
}
HARNESS(wide_softmax) {
  beginReal(); static const Sh S[] = {{34}, {5, 17}, {3, 9, 2}}; static const int64_t D[] = {0, -1, 1}; int64_t q = pick("shape", 0, 2); Sh s = S[q]; int r = (int)s.size(); int64_t k = D[q] < 0 ? D[q] + r : D[q], n = s[k], inner = prod(s, k + 1, s.size()), N = prod(s); bool lg = pick("log", 0, 1); Fs x, g = symFs("g", N), d(N); for (int64_t i = 0; i < N; i++) { int64_t p = i / inner % n * 7 % n; x.push_back(sym_f32_range("x", (float)p, p + 0.5f)); }
  for (int64_t b = 0; b < N; b++) { if (b / inner % n) continue; float z = 0, e = 0; for (int64_t i = 0; i < n; i++) z += std::exp(x[b + i * inner]); for (int64_t i = 0; i < n; i++) e += lg ? g[b + i * inner] : g[b + i * inner] * std::exp(x[b + i * inner]) / z; for (int64_t i = 0; i < n; i++) { int64_t o = b + i * inner; float y = std::exp(x[o]) / z; d[o] = lg ? g[o] - y * e : y * (g[o] - e); } }
  Tensor X = mk(x, s, true); back(lg ? function::logSoftmax(X, D[q]) : function::softmax(X, D[q]), g, s); checkT(X.grad(), d, s, "gradient of softmax"); END();
}
HARNESS(wide_linear) {
  beginReal(); int64_t q = pick("case", 0, 3); Sh lead = q == 0 ? Sh{17} : q == 1 ? Sh{2, 3} : q == 2 ? Sh{} : Sh{2, 1, 2}; int64_t in = q == 0 ? 3 : q == 1 ? 9 : q == 2 ? 20 : 4, out = q == 0 ? 9 : q == 1 ? 2 : q == 2 ? 7 : 10, R = prod(lead); bool bias = pick("bias", 0, 1); Sh xs = lead, ys = lead; xs.push_back(in); ys.push_back(out); Fs x = symFs("x", R * in), w = symFs("w", in * out), b = symFs("b", out), g = symFs("g", R * out), dx(x.size(), 0.f), dw(w.size(), 0.f), db(out, 0.f);
  for (int64_t r = 0; r < R; r++) for (int64_t o = 0; o < out; o++) { float p = g[r * out + o]; db[o] += p; for (int64_t i = 0; i < in; i++) { dx[r * in + i] += p * w[o * in + i]; dw[o * in + i] += p * x[r * in + i]; } }
  Tensor X = mk(x, xs, true), W = mk(w, {out, in}, true), B = mk(b, {out}, bias); back(bias ? function::linear(X, W, B) : function::linear(X, W), g, ys); checkT(X.grad(), dx, xs, "gradient of the input of a linear layer"); checkT(W.grad(), dw, {out, in}, "gradient of the weight of a linear layer"); if (bias) checkT(B.grad(), db, {out}, "gradient of the bias of a linear layer"); END();
}
HARNESS(wide_conv) {
  beginReal(); switch (pick("case", 0, 5)) { case 0: conv(3, 2, 3, 4, 4, 3, 1, 1, 7); break; case 1: conv(1, 3, 2, 5, 5, Dim2D(3, 2), Dim2D(2, 1), Dim2D(0, 1), 7); break; case 2: conv(1, 1, 1, 7, 7, 3, 3, 0, 7); break; case 3: conv(2, 1, 5, 3, 6, Dim2D(1, 4), Dim2D(1, 2), Dim2D(0, 2), 7); break; case 4: conv(5, 1, 1, 3, 3, 2, 2, 1, 7); break; default: conv(1, 5, 1, 2, 2, 2, 1, 1, 7); }
}
HARNESS(wide_pool) {
  beginReal(); int64_t q = pick("case", 0, 3), N = q == 1 ? 3 : 1, C = q == 2 ? 5 : 2, H = q == 0 ? 6 : q == 1 ? 4 : q == 2 ? 3 : 7, W = q == 0 ? 6 : q == 1 ? 4 : q == 2 ? 5 : 7; Dim2D k = q == 0 ? Dim2D(2, 2) : q == 1 ? Dim2D(3, 2) : q == 2 ? Dim2D(2, 3) : Dim2D(3, 3), st = q == 1 ? Dim2D(1, 2) : q == 3 ? Dim2D(3, 3) : Dim2D(2, 2), p = q == 2 ? Dim2D(1, 1) : q == 3 ? Dim2D(1, 1) : Dim2D(0, 0); int64_t oh = outDim(H, k.h, st.h, p.h), ow = outDim(W, k.w, st.w, p.w); Sh xs = {N, C, H, W}, os = {N, C, oh, ow}; Fs x, g = symFs("g", prod(os)), d(prod(xs), 0.f); std::vector<int64_t> ord; int64_t M = prod(xs); for (int64_t i = 0; i < M; i++) { int64_t o = (i * 37 + 11) % 997 - 500; ord.push_back(o); x.push_back(sym_f32_range("x", (float)o, o + 0.5f)); }
  int64_t z = 0; for (int64_t n = 0; n < N; n++) for (int64_t c = 0; c < C; c++) for (int64_t i = 0; i < oh; i++) for (int64_t j = 0; j < ow; j++, z++) { int64_t best = -1; for (int64_t u = 0; u < k.h; u++) for (int64_t v = 0; v < k.w; v++) { int64_t r = i * st.h - p.h + u, l = j * st.w - p.w + v; if (r < 0 || r >= H || l < 0 || l >= W) continue; int64_t o = ((n * C + c) * H + r) * W + l; if (best < 0 || ord[o] > ord[best]) best = o; } d[best] += g[z]; }
  Tensor X = mk(x, xs, true); back(function::maxPool2d(X, k, st, p), g, os); checkT(X.grad(), d, xs, "gradient of max pooling"); END();
}
HARNESS(wide_loss) {
  beginReal(); int k = (int)pick("reduction", 0, 2); bool nll = pick("nll", 0, 1); int64_t n = nll ? 35 : 130, c = nll ? 11 : 1, N = n * c; Fs a = symFs("a", N), b = symFs("b", nll ? 0 : n), g = symFs("g", k ? 1 : n), d(N, 0.f); std::vector<int64_t> t; for (int64_t i = 0; i < n; i++) { float u = k ? g[0] : g[i], s = k == 2 ? (float)n : 1.f; if (nll) { t.push_back(i * 7 % c); d[i * c + t[i]] = -u / s; } else d[i] = 2 * (a[i] - b[i]) * u / s; }
  Sh s = nll ? Sh{n, c} : Sh{n}; Tensor A = mk(a, s, true); back(nll ? function::nllLoss(A, mkI(t, {n}), red(k)) : function::mseLoss(A, mk(b, {n}), red(k)), g, k ? Sh{} : Sh{n}); checkT(A.grad(), d, s, "gradient of a loss"); END();
}
HARNESS(wide_transforms) {
  beginReal(); int op = (int)pick("op", 0, 5); Sh s = {2, 3, 1, 5, 2}, os; int64_t n = 60; Fs x = symFs("x", n), g = symFs("g", n), d(n); Tensor X = mk(x, s, true), y; std::vector<int64_t> src(n); for (int64_t i = 0; i < n; i++) src[i] = i;
  auto perm = [&](const Sh& p) { os.clear(); for (auto e : p) os.push_back(s[e]); forCoord(os, [&](int64_t i, const Sh& c) { Sh q(5); for (int k = 0; k < 5; k++) q[p[k]] = c[k]; src[i] = off(s, q); }); };
  switch (op) { case 0: { Sh p = {4, 0, 3, 1, 2}; perm(p); y = X.permute(IntArrayView(p)); break; } case 1: { Sh p = {1, 3, 4, 2, 0}; perm(p); Sh q = {1, -2, 4, -3, 0}; y = X.permute(IntArrayView(q)); break; } case 2: os = {12, 5}; y = X.reshape(IntArrayView(os)); break; case 3: os = {2, 15, 2}; y = X.flatten(1, 3); break; case 4: os = {2, 3, 5, 2}; y = X.squeeze(2); break; default: perm({4, 3, 2, 1, 0}); y = X.permute(); }
  for (int64_t i = 0; i < n; i++) d[src[i]] = g[i]; back(y, g, os); checkT(X.grad(), d, s, "gradient of a rearrangement"); END();
}
// operands of many dimensions, broadcast in any of them
HARNESS(high_binary) {
  beginReal(); static const Sh S[][2] = {{{2, 2, 2, 1}, {2, 2, 2, 2}}, {{2, 1, 2, 1}, {1, 2, 1, 2}}, {{1, 1, 1, 2}, {2, 2, 1, 1}}, {{2, 1, 1, 1, 2}, {2, 1, 2, 1}}, {{1, 2, 1}, {2, 1, 1, 1, 2}}, {{2, 1, 1, 1, 1, 2}, {}}, {{1, 1, 1, 1}, {2, 1, 1, 2}}, {{3, 1, 1, 1}, {1, 1, 1, 3}}};
  int64_t k = pick("case", 0, 7); bool sw = pick("swap", 0, 1); Sh as = S[k][sw], bs = S[k][!sw], os(std::max(as.size(), bs.size()), 1); int op = (int)pick("op", 0, 4);
  for (size_t i = 0; i < os.size(); i++) { int64_t x = i < as.size() ? as[as.size() - 1 - i] : 1, y = i < bs.size() ? bs[bs.size() - 1 - i] : 1; os[os.size() - 1 - i] = std::max(x, y); }
  binary(op, as, bs, os, true, true, 1.f);
}
// strides larger than the kernel, with padding
HARNESS(conv_sparse) {
  beginReal(); static const int64_t C[][8] = {{4, 1, 1, 1, 2, 1, 1, 0}, {5, 2, 1, 1, 3, 1, 2, 0}, {4, 4, 2, 2, 3, 3, 1, 1}, {3, 5, 1, 2, 2, 3, 1, 1}, {2, 6, 1, 1, 1, 4, 0, 3}, {6, 2, 2, 1, 4, 2, 2, 1}, {5, 5, 1, 1, 2, 2, 1, 1}, {4, 3, 2, 2, 3, 3, 2, 2}, {3, 3, 1, 1, 2, 2, 2, 2}, {3, 2, 3, 2, 4, 3, 3, 2}}; const int64_t* q = C[pick("case", 0, 9)];
  conv(1, 1, 1, q[0], q[1], Dim2D(q[2], q[3]), Dim2D(q[4], q[5]), Dim2D(q[6], q[7]), 7);
}
