#include "common.h"
#include "Functions.h"
static int64_t outDim(int64_t h, int64_t k, int64_t s, int64_t p) { return (h + 2 * p - k) / s + 1; }
static void conv(int64_t N, int64_t C, int64_t O, int64_t H, int64_t W, Dim2D k, Dim2D st, Dim2D p, bool bias) {
  Sh xs = {N, C, H, W}, ws = {O, C, k.h, k.w}; Fs x = symFs("x", prod(xs)), w = symFs("w", prod(ws)), b = symFs("b", O); int64_t oh = outDim(H, k.h, st.h, p.h), ow = outDim(W, k.w, st.w, p.w);
  Fs e; for (int64_t n = 0; n < N; n++) for (int64_t o = 0; o < O; o++) for (int64_t i = 0; i < oh; i++) for (int64_t j = 0; j < ow; j++) {
    float z = bias ? b[o] : 0.f;
    for (int64_t c = 0; c < C; c++) for (int64_t u = 0; u < k.h; u++) for (int64_t v = 0; v < k.w; v++) { int64_t r = i * st.h - p.h + u, l = j * st.w - p.w + v; if (r >= 0 && r < H && l >= 0 && l < W) z += x[((n * C + c) * H + r) * W + l] * w[((o * C + c) * k.h + u) * k.w + v]; }
    e.push_back(z); }
  Tensor X = mk(x, xs), Wt = mk(w, ws), B = mk(b, {O});
  checkT(bias ? function::conv2d(X, Wt, B, st, p) : function::conv2d(X, Wt, {}, st, p), e, {N, O, oh, ow}, "convolution");
  checkT(X, x, xs, "operand unchanged"); checkT(Wt, w, ws, "operand unchanged"); checkT(B, b, {O}, "operand unchanged");
  END();
}
// channel and batch counts against small images
HARNESS(conv_channels) {
  beginReal();
  int64_t N = pick("n", 1, 2), C = pick("c", 1, 2), O = pick("o", 1, TIER == 2 ? 3 : 2), H = pick("h", 1, 2), W = pick("w", 1, 3); int k = (int)pick("k", 0, 1); sym_assume(k == 0 || H == 2); Dim2D ks = k == 0 ? Dim2D(1, 1) : Dim2D(2, 1);
  conv(N, C, O, H, W, ks, 1, Dim2D(0, pick("pw", 0, 1)), pick("bias", 0, 1));
}
// kernel, stride and padding
HARNESS(conv_window) {
  beginReal();
  int64_t m = TIER == 2 ? 4 : 3, H = pick("h", 1, m), W = pick("w", 1, m); Dim2D k(pick("kh", 1, 3), pick("kw", 1, 2)), st(pick("sh", 1, 2), pick("sw", 1, 2)), p(pick("ph", 0, 1), pick("pw", 0, 1));
  sym_assume(H + 2 * p.h >= k.h && W + 2 * p.w >= k.w); if (TIER != 2) sym_assume((k.h > 1 || k.w > 1) && (H == 3 || W == 2));
  conv(1, 1, 2, H, W, k, st, p, false);
}
static void pool(int64_t N, int64_t C, int64_t H, int64_t W, Dim2D k, Dim2D st, Dim2D p) {
  Sh xs = N ? Sh{N, C, H, W} : Sh{C, H, W}; int64_t B = N ? N : 1, oh = outDim(H, k.h, st.h, p.h), ow = outDim(W, k.w, st.w, p.w); Sh os = N ? Sh{N, C, oh, ow} : Sh{C, oh, ow};
  Fs x = symFsR("x", prod(xs), -1e30f, 1e30f); Tensor X = mk(x, xs), y = function::maxPool2d(X, k, st, p); checkLayout(y, os, "shape of the pooled tensor");
  const float* q = fp(y); int64_t o = 0;
  for (int64_t n = 0; n < B; n++) for (int64_t c = 0; c < C; c++) for (int64_t i = 0; i < oh; i++) for (int64_t j = 0; j < ow; j++, o++) {
    bool bound = true, some = false;
    for (int64_t u = 0; u < k.h; u++) for (int64_t v = 0; v < k.w; v++) { int64_t r = i * st.h - p.h + u, l = j * st.w - p.w + v; if (r >= 0 && r < H && l >= 0 && l < W) { float a = x[((n * C + c) * H + r) * W + l]; bound = bound & (q[o] >= a); some = some | (q[o] == a); } }
    CHECK(bound, "maximum of a pooling window"); CHECK(some, "maximum of a pooling window"); }
  checkT(X, x, xs, "operand unchanged"); END();
}
HARNESS(pool_channels) { beginReal(); int64_t N = pick("n", 0, 2), C = pick("c", 1, 2); pool(N, C, 2, pick("w", 1, 2), Dim2D(pick("kh", 1, 2), 1), 1, 0); }
HARNESS(pool_window) {
  beginReal();
  int64_t H = pick("h", 1, 3), W = pick("w", 1, TIER == 2 ? 3 : 2); Dim2D k(pick("kh", 1, 3), pick("kw", 1, 2)), st(pick("sh", 1, 2), pick("sw", 1, 2)), p(pick("ph", 0, 1), pick("pw", 0, 1));
  sym_assume(2 * p.h <= k.h && 2 * p.w <= k.w && H + 2 * p.h >= k.h && W + 2 * p.w >= k.w && H * W <= (TIER == 2 ? 6 : 4) && k.h * k.w > 1); if (TIER != 2) sym_assume(k.w == 2 || st.w == 1);
  pool(1, 1, H, W, k, st, p);
}
// wrong operands are refused
HARNESS(mismatch) {
  begin();
  int f = (int)pick("form", 0, 4); Sh xs = {1, pick("c", 1, 2), 2, 2}, ws = {2, pick("wc", 1, 2), 1, 1}; Sh bs = {pick("b", 1, 3)};
  if (f == 0) sym_assume(xs[1] != ws[1] && bs[0] == 2); else { sym_assume(xs[1] == ws[1]); if (f == 1) sym_assume(bs[0] != 2); else sym_assume(bs[0] == 2); if (f == 2) xs = {1, 2}; if (f == 3) ws = {2, 1}; if (f == 4) xs = {1, 2}; }
  Tensor x = mk(symFs("x", prod(xs)), xs), w = mk(symFs("w", prod(ws)), ws), b = mk(symFs("b", prod(bs)), bs);
  sym_reach("end"); sym_trap_policy(1); if (f == 4) function::maxPool2d(x, 1, 1, 0); else function::conv2d(x, w, b, 1, 0); CHECK(false, "convolution of operands that do not fit is accepted");
}
// kernels, strides, paddings and channel counts beyond the small cases
HARNESS(wide_conv) {
  beginReal();
  static const int64_t C[][10] = {{2, 3, 5, 7, 6, 3, 3, 2, 2, 1}, {1, 2, 3, 12, 5, 5, 2, 3, 1, 2}, {3, 1, 9, 6, 6, 2, 4, 2, 3, 1}, {1, 9, 2, 4, 4, 1, 1, 3, 2, 0}, {2, 1, 1, 3, 3, 3, 3, 1, 1, 2}, {1, 1, 2, 4, 20, 4, 6, 4, 6, 0}, {5, 2, 2, 3, 3, 2, 2, 1, 1, 1}, {1, 1, 2, 5, 4, 1, 1, 3, 2, 2}, {2, 1, 1, 4, 6, 2, 1, 3, 3, 1}, {1, 2, 1, 3, 3, 1, 2, 2, 4, 2}, {1, 1, 2, 4, 3, 2, 2, 3, 3, 2}, {1, 1, 1, 3, 3, 1, 1, 2, 2, 3}};
  const int64_t* q = C[pick("case", 0, 11)]; conv(q[0], q[1], q[2], q[3], q[4], Dim2D(q[5], q[6]), Dim2D(q[7], q[8]), Dim2D(q[9], pick("pw", 0, 1) ? q[9] : 0), pick("bias", 0, 1));
}
// the order of the elements is fixed, their values are not
HARNESS(wide_pool) {
  beginReal();
  static const int64_t C[][9] = {{2, 3, 7, 6, 3, 3, 2, 2, 1}, {1, 2, 12, 5, 5, 2, 3, 1, 1}, {0, 3, 6, 6, 2, 4, 2, 3, 1}, {1, 4, 5, 9, 1, 1, 3, 4, 0}, {2, 1, 4, 10, 4, 6, 4, 6, 2}, {3, 2, 8, 8, 2, 2, 2, 2, 0}};
  const int64_t* g = C[pick("case", 0, 5)]; int64_t N = g[0], c = g[1], H = g[2], W = g[3]; Dim2D k(g[4], g[5]), st(g[6], g[7]), p(g[8], pick("pw", 0, 1) ? std::min(g[8], g[5] / 2) : 0); p.h = std::min(p.h, k.h / 2); bool neg = pick("negative", 0, 1);
  Sh xs = N ? Sh{N, c, H, W} : Sh{c, H, W}; int64_t B = N ? N : 1, n = B * c * H * W, oh = outDim(H, k.h, st.h, p.h), ow = outDim(W, k.w, st.w, p.w); Sh os = N ? Sh{N, c, oh, ow} : Sh{c, oh, ow};
  Fs x; std::vector<int64_t> rk; for (int64_t i = 0; i < n; i++) { int64_t r = (i * 101 + 7) % 1009; rk.push_back(r); float lo = (float)r - (neg ? 2000.f : 0.f); x.push_back(sym_f32_range("x", lo, lo + 0.5f)); }
  Fs e; for (int64_t b = 0; b < B * c; b++) for (int64_t i = 0; i < oh; i++) for (int64_t j = 0; j < ow; j++) { int64_t best = -1; for (int64_t u = 0; u < k.h; u++) for (int64_t v = 0; v < k.w; v++) { int64_t r = i * st.h - p.h + u, l = j * st.w - p.w + v; if (r >= 0 && r < H && l >= 0 && l < W) { int64_t a = (b * H + r) * W + l; if (best < 0 || rk[a] > rk[best]) best = a; } } e.push_back(x[best]); }
  Tensor X = mk(x, xs); checkT(function::maxPool2d(X, k, st, p), e, os, "maximum of a pooling window"); checkT(X, x, xs, "operand unchanged"); END();
}
