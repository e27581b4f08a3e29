#include "common.h"
#include "Operations.h"
#include "Functions.h"
#include <cmath>
// elements along a dimension: (base, stride) of every row
template <class F> static void rows(const Sh& s, int64_t dim, F f) { int64_t inner = prod(s, dim + 1, s.size()), n = s[dim], outer = prod(s, 0, dim); for (int64_t o = 0; o < outer; o++) for (int64_t i = 0; i < inner; i++) f(o * n * inner + i, inner, n); }
static Fs softmaxRef(const Fs& v, const Sh& s, int64_t dim, bool lg) {
  Fs e(v.size());
  rows(s, dim, [&](int64_t b, int64_t st, int64_t n) { float z = 0; for (int64_t i = 0; i < n; i++) z += std::exp(v[b + i * st]); for (int64_t i = 0; i < n; i++) e[b + i * st] = lg ? v[b + i * st] - std::log(z) : std::exp(v[b + i * st]) / z; });
  return e;
}
HARNESS(softmax) {
  beginReal();
  Sh s = pickShape("d", 1, 3, 1, TIER == 2 ? 3 : 2, TIER == 2 ? 6 : 4); if (TIER != 2 && s.size() == 1) s[0] = pick("len", 1, 4);
  int r = (int)s.size(); int64_t dim = pick("dim", -r, r - 1), d = dim < 0 ? dim + r : dim; bool lg = pick("log", 0, 1); int form = (int)pick("form", 0, 3);
  Fs v = symFsR("v", prod(s), -50, 50), e = softmaxRef(v, s, d, lg); Tensor x = mk(v, s), y;
  if (form == 0) y = lg ? op::logSoftmax(x, dim) : op::softmax(x, dim);
  else if (form == 1) y = lg ? function::logSoftmax(x, dim) : function::softmax(x, dim);
  else if (form == 2) { y = mk(Fs(v.size(), 3.f), s); if (lg) op::logSoftmaxOut(y, x, dim); else op::softmaxOut(y, x, dim); }
  else { y = mk(v, s); if (lg) op::logSoftmaxOut(y, y, dim); else op::softmaxOut(y, y, dim); }
  checkT(y, e, s, lg ? "log-softmax" : "softmax"); checkT(x, v, s, "operand unchanged"); END();
}
// the intermediate values stay representable: nothing is exponentiated that is larger than the row's maximum
HARNESS(softmax_stable) {
  begin();
  bool lg = pick("log", 0, 1); static const float big[] = {0.f, 100.f, -100.f, 1000.f, -1000.f, 3e38f, -3e38f}; float c = big[pick("shift", 0, 6)]; int64_t n = pick("n", 1, 3); Fs v(n, c);
  Tensor y = lg ? op::logSoftmax(mk(v, {n}), 0) : op::softmax(mk(v, {n}), 0);
  for (int64_t i = 0; i < n; i++) { float q = fp(y)[i], w = lg ? -std::log((float)n) : 1.f / n; CHECK(q == q && std::fabs(q - w) < 1e-4f, "softmax of large equal values"); } END();
}
// scores far apart or masked out: the result is the softmax of the differences, never NaN
HARNESS(softmax_spread) {
  begin();
  bool lg = pick("log", 0, 1), col = pick("column", 0, 1); static const float at[] = {0.f, 90.f, -90.f, 1000.f, -1000.f, 30000.f}; static const float gap[] = {0.f, 1.f, -2.f, -200.f, -1e9f, -INFINITY}; float c = at[pick("at", 0, 5)]; int64_t g1 = pick("second", 0, TIER == 2 ? 5 : 2), g2 = pick("third", TIER == 2 ? 0 : 3, 5), pos = pick("pos", 0, 2);
  float d[3]; d[pos] = 0; d[(pos + 1) % 3] = gap[g1]; d[(pos + 2) % 3] = gap[g2]; Fs v; for (float k : d) { v.push_back(c + k); if (col) v.push_back(-c); }
  Tensor x = mk(v, {3, col ? 2 : 1}), y = lg ? op::logSoftmax(x, 0) : op::softmax(x, 0); double e[3], m = -INFINITY, z = 0; for (int i = 0; i < 3; i++) { e[i] = (double)v[i * (col ? 2 : 1)]; if (e[i] > m) m = e[i]; } for (int i = 0; i < 3; i++) { e[i] -= m; z += std::exp(e[i]); }
  for (int i = 0; i < 3; i++) { float q = fp(y)[i * (col ? 2 : 1)]; double w = lg ? e[i] - std::log(z) : std::exp(e[i]) / z; CHECK(q == q && (q == w || std::fabs(q - w) <= 1e-5 + 1e-5 * std::fabs(w)), "softmax of scores far apart"); } END();
}
// rows far from zero: the deviation comes from the differences to the mean
HARNESS(norm_offset) {
  begin();
  static const float at[] = {0.f, 1000.f, -4096.f, 30000.f}; float c = at[pick("at", 0, 3)]; bool rms = pick("rms", 0, 1); int64_t n = pick("n", 2, 5); sym_assume(!rms || c == 0.f); Fs v; for (int64_t i = 0; i < n; i++) v.push_back(c + (float)((i * i * 3) % 5)); double m = 0, q = 0; if (!rms) { for (float k : v) m += k; m /= n; } for (float k : v) q += (k - m) * (k - m); double sd = std::sqrt(q / n + 1e-5); Sh ns = {n}; Tensor x = mk(v, {1, n});
  Tensor y = rms ? function::rmsNorm(x, IntArrayView(ns), Tensor(), 1e-5f) : function::layerNorm(x, IntArrayView(ns), Tensor(), Tensor(), 1e-5f);
  for (int64_t i = 0; i < n; i++) CHECK(std::fabs(fp(y)[i] - (v[i] - m) / sd) < 0.02, "layer norm of a row far from zero"); END();
}
// attention with scores far apart: the strongest key wins, nothing overflows
HARNESS(attention_spread) {
  begin();
  static const float at[] = {1.f, 20.f, 100.f, 1000.f, 100000.f}; float c = at[pick("at", 0, 4)]; bool neg = pick("neg", 0, 1); Fs q = {neg ? -c : c}, k = {1, 2, 3}, val = {5, 7, 11}; double sc[3], m = -INFINITY, z = 0, e = 0; for (int i = 0; i < 3; i++) { sc[i] = (double)q[0] * k[i]; if (sc[i] > m) m = sc[i]; } for (int i = 0; i < 3; i++) { double w = std::exp(sc[i] - m); z += w; e += w * val[i]; }
  Tensor y = function::sdpAttention(mk(q, {1, 1, 1}), mk(k, {1, 3, 1}), mk(val, {1, 3, 1})); CHECK(std::fabs(fp(y)[0] - e / z) < 1e-3, "attention with scores far apart"); END();
}
HARNESS(layer_norm) {
  beginReal();
  Sh s = pickShape("d", 1, 3, 1, 3, TIER == 2 ? 9 : 6); int64_t n = s.back(), R = prod(s) / n; bool rms = pick("rms", 0, 1), w = pick("weight", 0, 1), b = !rms && pick("bias", 0, 1); float eps = pick("eps", 0, 1) ? 1e-5f : 0.5f;
  Fs v = symFs("v", prod(s)), W = symFs("w", n), B = symFs("b", n), e;
  for (int64_t r = 0; r < R; r++) { float m = 0, q = 0; const float* p = v.data() + r * n; if (!rms) { for (int64_t i = 0; i < n; i++) m += p[i]; m /= n; } for (int64_t i = 0; i < n; i++) q += (p[i] - m) * (p[i] - m); float sd = std::sqrt(q / n + eps); for (int64_t i = 0; i < n; i++) e.push_back((p[i] - m) / sd * (w ? W[i] : 1.f) + (b ? B[i] : 0.f)); }
  Tensor x = mk(v, s), tw = w ? mk(W, {n}) : Tensor(), tb = b ? mk(B, {n}) : Tensor(); Sh ns = {n};
  checkT(rms ? function::rmsNorm(x, IntArrayView(ns), tw, eps) : function::layerNorm(x, IntArrayView(ns), tw, tb, eps), e, s, rms ? "RMS norm" : "layer norm"); checkT(x, v, s, "operand unchanged"); END();
}
HARNESS(embedding) {
  begin();
  Sh is = pickShape("i", 1, 2, 1, 2); int64_t n = pick("rows", 1, 3), c = pick("cols", 1, 2), k = prod(is); Fs w = symFs("w", n * c); std::vector<int64_t> ix; for (int64_t i = 0; i < k; i++) ix.push_back(sym_i64("ix", 0, n - 1));
  Tensor y = function::embedding(mkI(ix, is), mk(w, {n, c})); Sh os = is; os.push_back(c); checkLayout(y, os, "shape of an embedding");
  for (int64_t i = 0; i < k; i++) for (int64_t j = 0; j < c; j++) { uint32_t e = fbits(w[j]); for (int64_t r = 1; r < n; r++) e = sym_ite32(ix[i] == r, fbits(w[r * c + j]), e); CHECK(fbits(fp(y)[i * c + j]) == e, "embedding row"); }
  END();
}
HARNESS(embedding_range) {
  begin();
  int64_t i = sym_i64("ix", -100, 100); sym_assume((i < -3) | (i >= 3)); Tensor w = mk(symFs("w", 6), {3, 2}), ix = mkI({i}, {1});
  sym_reach("end"); sym_trap_policy(1); function::embedding(ix, w); CHECK(false, "an embedding row that does not exist is accepted");
}
HARNESS(rope_apply) {
  beginReal();
  int64_t b = pick("b", 1, 2), h = pick("h", 1, 2), t = pick("t", 1, 2), half = pick("half", 1, 2), d = 2 * half, ctx = pick("ctx", 1, 3), o = pick("offset", 0, 2); sym_assume(o + t <= ctx && (TIER == 2 || b + h <= 3));
  Fs x = symFs("x", b * h * t * d), r = symFs("r", ctx * d * 2), e(x.size()); Sh s = {b, h, t, d};
  for (int64_t q = 0; q < b * h; q++) for (int64_t p = 0; p < t; p++) for (int64_t i = 0; i < half; i++) { int64_t k = (q * t + p) * d; const float* row = r.data() + (p + o) * d * 2; float c = row[2 * i], sn = row[2 * i + 1]; e[k + i] = x[k + i] * c - x[k + half + i] * sn; e[k + half + i] = x[k + half + i] * c + x[k + i] * sn; }
  Tensor X = mk(x, s), R = mk(r, {ctx, d, 2}); checkT(function::ropeApply(X, R, o), e, s, "rotary embedding"); checkT(X, x, s, "operand unchanged"); END();
}
HARNESS(rope_range) {
  begin();
  int64_t t = pick("t", 1, 2), o = sym_i64("offset", -1000, 1000); sym_assume((o < 0) | (o + t > 2)); Tensor x = mk(symFs("x", 2 * t), {1, 1, t, 2}), r = mk(symFs("r", 8), {2, 2, 2});
  sym_reach("end"); sym_trap_policy(1); function::ropeApply(x, r, o); CHECK(false, "positions beyond the rotary table are accepted");
}
// the table: angle = position * theta^(-2i/d), with the documented frequency scaling
HARNESS(rope_init) {
  beginReal();
  int64_t half = pick("half", 1, 2), d = 2 * half, ctx = pick("ctx", 1, 3); bool sc = pick("scaling", 0, 1); float theta = 10000.f;
  RopeScalingConfig c(sym_f32_range("factor", 1, 32), 4.f, 1.f, pick("orig", 0, 2) == 0 ? 4 : 8192);
  Tensor t = sc ? op::ropeInit(d, ctx, theta, c, options::dtype(DType::Float32)) : op::ropeInit(d, ctx, theta, std::nullopt, options::dtype(DType::Float32)); checkLayout(t, {ctx, d, 2}, "shape of a rotary table");
  for (int64_t p = 0; p < ctx; p++) for (int64_t i = 0; i < half; i++) {
    float f = 1.f / std::pow(theta, (float)(2 * i) / (float)d);
    if (sc) { float L = (float)c.originalContextLength, wl = 2.f * (float)M_PI / f, g = f; if (wl > L / c.lowFreqFactor) g = f / c.factor; else if (wl >= L / c.highFreqFactor) { float m = (L / wl - c.lowFreqFactor) / (c.highFreqFactor - c.lowFreqFactor); g = (1 - m) * (f / c.factor) + m * f; } f = g; }
    float a = p * f;
    for (int64_t k = 0; k < 2; k++) { const float* q = fp(t) + (p * d + i + k * half) * 2; CHECKF(q[0], std::cos(a), "cosine in a rotary table"); CHECKF(q[1], std::sin(a), "sine in a rotary table"); } }
  END();
}
// attention: softmax(q k^T scale + mask) v
HARNESS(attention) {
  beginReal();
  int64_t B = pick("b", 0, 2), L = pick("l", 1, 2), S = pick("s", 1, 2), E = pick("e", 1, 2), D = pick("d", 1, 2); int mode = (int)pick("mask", 0, 3); bool sc = pick("scale", 0, 1); if (TIER != 2) sym_assume((D == 1 || E == 1) && (B < 2 || (L == S && !sc)));
  int64_t N = B ? B : 1; auto sh = [&](int64_t a, int64_t b) { return B ? Sh{B, a, b} : Sh{a, b}; };
  Fs q = symFsR("q", N * L * E, -4, 4), k = symFsR("k", N * S * E, -4, 4), v = symFs("v", N * S * D), m = symFsR("m", L * S, -4, 4), e; std::vector<uint8_t> bm(L * S, 1);
  if (mode == 2) for (int64_t i = 0; i < L; i++) bm[i * S + (S - 1)] = S == 1 || pick("allow", 0, 1);
  float f = sc ? 0.25f : 1.f / std::sqrt((float)E);
  for (int64_t n = 0; n < N; n++) for (int64_t i = 0; i < L; i++) { Fs w; float z = 0; for (int64_t j = 0; j < S; j++) { float a = 0; for (int64_t c = 0; c < E; c++) a += q[(n * L + i) * E + c] * k[(n * S + j) * E + c]; a *= f; if (mode == 3) a += m[i * S + j]; bool on = mode == 1 ? j <= i : mode == 2 ? bm[i * S + j] : true; w.push_back(on ? std::exp(a) : 0.f); z += w[j]; } for (int64_t d = 0; d < D; d++) { float o = 0; for (int64_t j = 0; j < S; j++) o += w[j] / z * v[(n * S + j) * D + d]; e.push_back(o); } }
  Tensor Q = mk(q, sh(L, E)), K = mk(k, sh(S, E)), Vt = mk(v, sh(S, D)), M = mode == 3 ? mk(m, {L, S}) : mode == 2 ? Tensor(bm, IntArrayView(Sh{L, S}), options::dtype(DType::Bool)) : Tensor();
  checkT(sc ? function::sdpAttention(Q, K, Vt, mode == 1, M, 0.f, 0.25f) : function::sdpAttention(Q, K, Vt, mode == 1, M), e, sh(L, D), "scaled dot-product attention");
  checkT(Q, q, sh(L, E), "operand unchanged"); checkT(Vt, v, sh(S, D), "operand unchanged"); END();
}
HARNESS(silu_mul) {
  beginReal();
  Sh s = pickShape("d", 1, 3, 1, 2, 4); int64_t h = s.back(); Sh is = s; is.back() = 2 * h; Fs v = symFsR("v", prod(is), -20, 20), e; for (int64_t r = 0; r < prod(s) / h; r++) for (int64_t i = 0; i < h; i++) { float g = v[r * 2 * h + i], u = v[r * 2 * h + h + i]; e.push_back(g / (1.f + std::exp(-g)) * u); }
  Tensor x = mk(v, is); checkT(function::siluMul(x), e, s, "fused SiLU and product"); checkT(x, v, is, "operand unchanged"); END();
}
HARNESS(activations) {
  beginReal();
  Sh s = pickShape("d", 0, 2, 1, 2); Fs v = symFsR("v", prod(s), -20, 20), e; int k = (int)pick("op", 0, 2);
  for (float a : v) e.push_back(k == 0 ? a / (1.f + std::exp(-a)) : k == 1 ? 0.5f * a * (1.f + std::tanh(0.7978845608f /* sqrt(2/pi) */ * (a + 0.044715f * a * a * a))) : (sym_fork(a > 0) ? a : 0.f));
  Tensor x = mk(v, s); checkT(k == 0 ? function::silu(x) : k == 1 ? function::gelu(x) : function::relu(x), e, s, "activation"); checkT(x, v, s, "operand unchanged"); END();
}
HARNESS(softmax_bad_dim) {
  begin();
  int64_t d = sym_i64("dim", -100, 100); sym_assume((d < -2) | (d > 1)); Tensor x = mk(symFs("x", 4), {2, 2}); bool lg = pick("log", 0, 1);
  sym_reach("end"); sym_trap_policy(1); if (lg) op::logSoftmax(x, d); else op::softmax(x, d); CHECK(false, "softmax along a dimension that does not exist is accepted");
}
// rows past unrolled or blocked loops; the order of a row's elements is fixed, their values are not
static Fs ordered(int64_t n, float step) { Fs v; for (int64_t i = 0; i < n; i++) { float lo = (float)((i * 101 + 7) % 1009 % (n < 17 ? 17 : n)) * step; v.push_back(sym_f32_range("v", lo, lo + step * 0.5f)); } return v; }
HARNESS(wide_softmax) {
  beginReal();
  static const Sh S[] = {{33}, {5, 17}, {17, 5}, {2, 9, 3}, {1, 65}, {2, 2, 2, 5}}; Sh s = S[pick("shape", 0, TIER == 2 ? 5 : 3)]; int r = (int)s.size(); int64_t d = pick("dim", 0, r - 1); bool lg = pick("log", 0, 1), fn = pick("function", 0, 1);
  Fs v = ordered(prod(s), 0.125f), e = softmaxRef(v, s, d, lg); Tensor x = mk(v, s);
  checkT(lg ? (fn ? function::logSoftmax(x, d - r) : op::logSoftmax(x, d)) : (fn ? function::softmax(x, d - r) : op::softmax(x, d)), e, s, lg ? "log-softmax" : "softmax"); checkT(x, v, s, "operand unchanged"); END();
}
HARNESS(wide_norm) {
  beginReal();
  static const Sh S[] = {{33}, {17, 5}, {2, 9, 3}, {3, 20}, {65, 2}}; Sh s = S[pick("shape", 0, 4)]; int64_t n = s.back(), R = prod(s) / n; bool rms = pick("rms", 0, 1), w = pick("weight", 0, 1), b = !rms && w; Fs v = symFs("v", prod(s)), W = symFs("w", n), B = symFs("b", n), e;
  for (int64_t r = 0; r < R; r++) { float m = 0, q = 0; const float* p = v.data() + r * n; if (!rms) { for (int64_t i = 0; i < n; i++) m += p[i]; m /= n; } for (int64_t i = 0; i < n; i++) q += (p[i] - m) * (p[i] - m); float sd = std::sqrt(q / n + 1e-5f); for (int64_t i = 0; i < n; i++) e.push_back((p[i] - m) / sd * (w ? W[i] : 1.f) + (b ? B[i] : 0.f)); }
  Sh ns = {n}; Tensor x = mk(v, s), tw = w ? mk(W, ns) : Tensor(), tb = b ? mk(B, ns) : Tensor();
  checkT(rms ? function::rmsNorm(x, IntArrayView(ns), tw, 1e-5f) : function::layerNorm(x, IntArrayView(ns), tw, tb, 1e-5f), e, s, rms ? "RMS norm" : "layer norm"); END();
}
HARNESS(wide_rest) {
  beginReal();
  int k = (int)pick("op", 0, 3);
  if (k == 0) { int64_t n = 40, c = 9; Fs w = symFs("w", n * c), e; std::vector<int64_t> ix; for (int64_t i = 0; i < 66; i++) { ix.push_back((i * 31 + 3) % n); for (int64_t j = 0; j < c; j++) e.push_back(w[ix[i] * c + j]); } checkT(function::embedding(mkI(ix, {2, 33}), mk(w, {n, c})), e, {2, 33, c}, "embedding row"); }
  if (k == 1) { int64_t b = 2, h = 3, t = 9, half = 5, d = 10, ctx = 12, o = 2; Fs x = symFs("x", b * h * t * d), r = symFs("r", ctx * d * 2), e(x.size()); Sh s = {b, h, t, d};
    for (int64_t q = 0; q < b * h; q++) for (int64_t p = 0; p < t; p++) for (int64_t i = 0; i < half; i++) { int64_t a = (q * t + p) * d; const float* row = r.data() + (p + o) * d * 2; float c = row[2 * i], sn = row[2 * i + 1]; e[a + i] = x[a + i] * c - x[a + half + i] * sn; e[a + half + i] = x[a + half + i] * c + x[a + i] * sn; }
    checkT(function::ropeApply(mk(x, s), mk(r, {ctx, d, 2}), o), e, s, "rotary embedding"); }
  if (k == 2) { Sh s = {3, 17}, is = {3, 34}; Fs v = symFsR("v", 102, -20, 20), e; for (int64_t r = 0; r < 3; r++) for (int64_t i = 0; i < 17; i++) { float g = v[r * 34 + i], u = v[r * 34 + 17 + i]; e.push_back(g / (1.f + std::exp(-g)) * u); } checkT(function::siluMul(mk(v, is)), e, s, "fused SiLU and product"); }
  if (k == 3) { int f = (int)pick("activation", 0, 1); Fs v = symFsR("v", 65, -20, 20), e; for (float a : v) e.push_back(f == 0 ? a / (1.f + std::exp(-a)) : 0.5f * a * (1.f + std::tanh(0.7978845608f * (a + 0.044715f * a * a * a)))); Tensor x = mk(v, {65}); checkT(f == 0 ? function::silu(x) : function::gelu(x), e, {65}, "activation"); }
  END();
}
// attention over longer sequences with ordered scores
HARNESS(wide_attention) {
  beginReal();
  int64_t L = pick("l", 4, 5), S = pick("s", 4, 5), E = 1, D = 2; bool causal = pick("causal", 0, 1); int64_t N = pick("b", 1, 2); if (TIER == 1) sym_assume(N == 1 || (L == 5 && S == 4)); Fs q, k, v = symFs("v", N * S * D), e;
  for (int64_t i = 0; i < N * L; i++) q.push_back(sym_f32_range("q", 1, 1.001f)); for (int64_t i = 0; i < N * S; i++) { float lo = (float)((i * 3 + 1) % 5) * 0.25f; k.push_back(sym_f32_range("k", lo, lo + 0.0625f)); }
  for (int64_t n = 0; n < N; n++) for (int64_t i = 0; i < L; i++) { Fs w; float z = 0; for (int64_t j = 0; j < S; j++) { if (causal && j > i) { w.push_back(0.f); continue; } w.push_back(std::exp(q[n * L + i] * k[n * S + j])); z += w.back(); } for (int64_t d = 0; d < D; d++) { float a = 0; for (int64_t j = 0; j < S; j++) if (!causal || j <= i) a += w[j] / z * v[(n * S + j) * D + d]; e.push_back(a); } }
  checkT(function::sdpAttention(mk(q, {N, L, E}), mk(k, {N, S, E}), mk(v, {N, S, D}), causal), e, {N, L, D}, "scaled dot-product attention"); END();
}
