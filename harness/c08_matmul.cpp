#include "common.h"
#include "Operations.h"
#include "Functions.h"
// reference product of two operands given as shape + values; transposes apply to the last two dimensions of operands of rank >= 2
struct V { Sh s; Fs v; };
static V matmulRef(V a, V b, bool ta, bool tb) {
  bool pa = a.s.size() == 1, pb = b.s.size() == 1;
  if (pa) { a.s.insert(a.s.begin(), 1); ta = false; }
  if (pb) { b.s.push_back(1); tb = false; }
  size_t ra = a.s.size(), rb = b.s.size(), rr = std::max(ra, rb);
  int64_t m = ta ? a.s[ra - 1] : a.s[ra - 2], k = ta ? a.s[ra - 2] : a.s[ra - 1], n = tb ? b.s[rb - 2] : b.s[rb - 1];
  Sh batch;
  for (size_t i = 0; i + 2 < rr; i++) { int64_t x = i + ra >= rr && i - (rr - ra) + 2 < ra ? a.s[i - (rr - ra)] : 1, y = i + rb >= rr && i - (rr - rb) + 2 < rb ? b.s[i - (rr - rb)] : 1; batch.push_back(x == 1 ? y : x); }
  V r; r.s = batch; if (!pa) r.s.push_back(m); if (!pb) r.s.push_back(n);
  forCoord(batch, [&](int64_t, const Sh& c) {
    int64_t oa = 0, ob = 0;
    for (size_t i = 0; i < batch.size(); i++) {
      if (i + ra >= rr) { int64_t d = a.s[i - (rr - ra)]; oa = oa * d + (d == 1 ? 0 : c[i]); }
      if (i + rb >= rr) { int64_t d = b.s[i - (rr - rb)]; ob = ob * d + (d == 1 ? 0 : c[i]); }
    }
    const float *x = a.v.data() + oa * m * k, *y = b.v.data() + ob * k * n;
    for (int64_t i = 0; i < m; i++) for (int64_t j = 0; j < n; j++) { float z = 0; for (int64_t p = 0; p < k; p++) z += (ta ? x[p * m + i] : x[i * k + p]) * (tb ? y[j * k + p] : y[p * n + j]); r.v.push_back(z); }
  });
  return r;
}
static V operand(const char* n, const Sh& s) { V v; v.s = s; v.v = symFs(n, prod(s)); return v; }
static void mm(const V& a, const V& b, bool ta, bool tb, const char* m) {
  Tensor x = mk(a.v, a.s), y = mk(b.v, b.s); V r = matmulRef(a, b, ta, tb);
  checkT(op::matmul(x, y, ta, tb), r.v, r.s, m); checkT(function::matmul(x, y, ta, tb), r.v, r.s, m);
  checkT(x, a.v, a.s, "operand unchanged"); checkT(y, b.v, b.s, "operand unchanged");
}
HARNESS(matrix) {
  beginReal();
  int64_t hi = TIER == 2 ? 4 : 3, m = pick("m", 1, hi), k = pick("k", 1, hi), n = pick("n", 1, hi); bool ta = pick("ta", 0, 1), tb = pick("tb", 0, 1);
  mm(operand("a", ta ? Sh{k, m} : Sh{m, k}), operand("b", tb ? Sh{n, k} : Sh{k, n}), ta, tb, "matrix product"); END();
}
HARNESS(vectors) {
  beginReal();
  int64_t hi = TIER == 2 ? 4 : 3, m = pick("m", 1, hi), k = pick("k", 1, hi), n = pick("n", 1, hi); int form = (int)pick("form", 0, 2); bool ta = pick("ta", 0, 1), tb = pick("tb", 0, 1);
  if (form == 0) { sym_assume(m == 1 && n == 1); mm(operand("a", {k}), operand("b", {k}), ta, tb, "product of vectors"); }
  else if (form == 1) { sym_assume(n == 1); mm(operand("a", ta ? Sh{k, m} : Sh{m, k}), operand("b", {k}), ta, tb, "matrix times vector"); }
  else { sym_assume(m == 1); mm(operand("a", {k}), operand("b", tb ? Sh{n, k} : Sh{k, n}), ta, tb, "vector times matrix"); }
  END();
}
// batches: every broadcastable pair of batch shapes
HARNESS(batched) {
  beginReal();
  Sh ab = pickShape("a", 0, 2, 1, 2), bb = pickShape("b", 0, 2, 1, TIER == 2 ? 3 : 2);
  sym_assume(ab.size() + bb.size() > 0);
  for (size_t i = 0; i < std::min(ab.size(), bb.size()); i++) { int64_t x = ab[ab.size() - 1 - i], y = bb[bb.size() - 1 - i]; sym_assume(x == y || x == 1 || y == 1); }
  static const int64_t mkn[][3] = {{1, 2, 2}, {2, 1, 2}, {2, 2, 1}, {2, 3, 2}, {1, 1, 1}}; int q = (int)pick("mkn", 0, TIER == 2 ? 4 : 3); int64_t m = mkn[q][0], k = mkn[q][1], n = mkn[q][2];
  bool ta = pick("ta", 0, 1), tb = pick("tb", 0, 1);
  Sh as = ab, bs = bb; as.push_back(ta ? k : m); as.push_back(ta ? m : k); bs.push_back(tb ? n : k); bs.push_back(tb ? k : n);
  mm(operand("a", as), operand("b", bs), ta, tb, "batched product"); END();
}
HARNESS(batched_vector) {
  beginReal();
  Sh bb = pickShape("b", 1, 2, 1, 2); int64_t k = pick("k", 1, 2), n = pick("n", 1, 2); bool left = pick("left", 0, 1), t = pick("t", 0, 1);
  Sh s = bb; 
  if (left) { s.push_back(t ? n : k); s.push_back(t ? k : n); mm(operand("a", {k}), operand("b", s), false, t, "vector times batch"); }
  else { s.push_back(t ? k : n); s.push_back(t ? n : k); mm(operand("a", s), operand("b", {k}), t, false, "batch times vector"); }
  END();
}
// operands that are views into larger buffers
HARNESS(views) {
  beginReal();
  Sh s = {3, 2}, q = {2, 2}; V a = operand("a", s), b = operand("b", s); int64_t i = pick("i", 0, 1), j = pick("j", 0, 1); bool ta = pick("ta", 0, 1), tb = pick("tb", 0, 1);
  V va{q, Fs(a.v.begin() + 2 * i, a.v.begin() + 2 * i + 4)}, vb{q, Fs(b.v.begin() + 2 * j, b.v.begin() + 2 * j + 4)}; V r = matmulRef(va, vb, ta, tb);
  checkT(op::matmul(mk(a.v, s).narrow(0, i, 2), mk(b.v, s).narrow(0, j, 2), ta, tb), r.v, r.s, "product of views"); END();
}
HARNESS(dot) {
  beginReal();
  Sh s = pickShape("d", 0, 2, 1, 3, 6); V a = operand("a", s), b = operand("b", s); float z = 0; for (size_t i = 0; i < a.v.size(); i++) z += a.v[i] * b.v[i];
  Tensor x = mk(a.v, s), y = mk(b.v, s); checkT(op::dot(x, y), {z}, {}, "dot product"); checkT(x, a.v, s, "operand unchanged"); END();
}
HARNESS(linear) {
  beginReal();
  Sh lead = pickShape("d", 1, 2, 1, 2); int64_t in = pick("in", 1, TIER == 2 ? 3 : 2), out = pick("out", 1, TIER == 2 ? 3 : 2); bool bias = pick("bias", 0, 1);
  Sh xs = lead; xs.push_back(in); Sh ys = lead; ys.push_back(out); V x = operand("x", xs), w = operand("w", {out, in}), b = operand("b", {out}); Fs e;
  for (int64_t r = 0; r < prod(lead); r++) for (int64_t o = 0; o < out; o++) { float z = bias ? b.v[o] : 0.f; for (int64_t k = 0; k < in; k++) z += x.v[r * in + k] * w.v[o * in + k]; e.push_back(z); }
  Tensor X = mk(x.v, xs), W = mk(w.v, w.s), B = mk(b.v, b.s); checkT(bias ? function::linear(X, W, B) : function::linear(X, W), e, ys, "linear");
  checkT(X, x.v, xs, "operand unchanged"); checkT(W, w.v, w.s, "operand unchanged"); END();
}
static bool cfg(int64_t& h, int64_t& w, Dim2D& k, Dim2D& st, Dim2D& p, int64_t hi) {
  h = pick("h", 1, hi); w = pick("w", 1, hi); k = Dim2D(pick("kh", 1, 2), pick("kw", 1, 2)); st = Dim2D(pick("sh", 1, 2), pick("sw", 1, 2)); p = Dim2D(pick("ph", 0, 1), pick("pw", 0, 1));
  return h + 2 * p.h >= k.h && w + 2 * p.w >= k.w;
}
HARNESS(im2col) {
  begin();
  int64_t h, w; Dim2D k(1), st(1), p(0); sym_assume(cfg(h, w, k, st, p, TIER == 2 ? 4 : 3)); int64_t n = pick("batch", 0, TIER == 2 ? 2 : 2), c = pick("c", 1, 2); if (TIER != 2) sym_assume((n == 2) == (c == 2) && (h == 3 || w == 2) && (k.h == 2 || st.h == 1) && (k.w == 2 || st.w == 1));
  Sh s = n ? Sh{n, c, h, w} : Sh{c, h, w}; int64_t N = n ? n : 1; Fs v = symFs("v", prod(s)); int64_t oh = (h + 2 * p.h - k.h) / st.h + 1, ow = (w + 2 * p.w - k.w) / st.w + 1;
  Fs e; for (int64_t b = 0; b < N; b++) for (int64_t y = 0; y < oh; y++) for (int64_t x = 0; x < ow; x++) for (int64_t q = 0; q < c; q++) for (int64_t i = 0; i < k.h; i++) for (int64_t j = 0; j < k.w; j++) {
    int64_t r = y * st.h - p.h + i, l = x * st.w - p.w + j; e.push_back(r >= 0 && r < h && l >= 0 && l < w ? v[((b * c + q) * h + r) * w + l] : 0.f); }
  Tensor t = mk(v, s); checkT(op::im2col(t, k, st, p), e, {N * oh * ow, c * k.h * k.w}, "im2col"); checkT(t, v, s, "operand unchanged"); END();
}
HARNESS(col2im) {
  beginReal();
  int64_t h, w; Dim2D k(1), st(1), p(0); sym_assume(cfg(h, w, k, st, p, TIER == 2 ? 4 : 3)); int64_t n = pick("batch", 0, 2), c = pick("c", 1, 2); if (TIER != 2) sym_assume((n == 2) == (c == 2) && (h == 3 || w == 2) && (k.h == 2 || st.h == 1) && (k.w == 2 || st.w == 1));
  Sh s = n ? Sh{n, c, h, w} : Sh{c, h, w}; int64_t N = n ? n : 1, oh = (h + 2 * p.h - k.h) / st.h + 1, ow = (w + 2 * p.w - k.w) / st.w + 1; Sh cs = {N * oh * ow, c * k.h * k.w}; Fs v = symFs("v", prod(cs)), e(prod(s), 0.f); int64_t o = 0;
  for (int64_t b = 0; b < N; b++) for (int64_t y = 0; y < oh; y++) for (int64_t x = 0; x < ow; x++) for (int64_t q = 0; q < c; q++) for (int64_t i = 0; i < k.h; i++) for (int64_t j = 0; j < k.w; j++, o++) {
    int64_t r = y * st.h - p.h + i, l = x * st.w - p.w + j; if (r >= 0 && r < h && l >= 0 && l < w) e[((b * c + q) * h + r) * w + l] += v[o]; }
  Tensor t = mk(v, cs); checkT(op::col2im(t, IntArrayView(s), k, st, p), e, s, "col2im"); checkT(t, v, cs, "operand unchanged"); END();
}
// operands whose sizes do not fit are refused
HARNESS(mismatch) {
  begin();
  int form = (int)pick("form", 0, 5); bool ta = pick("ta", 0, 1), tb = pick("tb", 0, 1); Sh as, bs;
  if (form == 0) { as = {pick("a0", 1, 2), pick("a1", 1, 2)}; bs = {pick("b0", 1, 2), pick("b1", 1, 2)}; sym_assume(as[!ta] != bs[tb]); }
  else if (form == 1) { as = {pick("a0", 1, 3)}; bs = {pick("b0", 1, 3), 2}; sym_assume(!tb && !ta && as[0] != bs[0]); }
  else if (form == 2) { as = {2, pick("a0", 1, 3)}; bs = {pick("b0", 1, 3)}; sym_assume(!ta && !tb && as[1] != bs[0]); }
  else if (form == 3) { as = {pick("a0", 2, 3), 1, 2}; bs = {pick("b0", 2, 3), 2, 1}; sym_assume(!ta && !tb && as[0] != bs[0]); }
  else if (form == 4) { as = {}; bs = {1}; if (ta) std::swap(as, bs); sym_assume(!tb); }
  else { as = {pick("a0", 1, 3)}; bs = {pick("b0", 1, 3)}; sym_assume(as[0] != bs[0]); }
  Tensor x = mk(symFs("x", prod(as)), as), y = mk(symFs("y", prod(bs)), bs);
  sym_reach("end"); sym_trap_policy(1);
  if (form == 5 && tb) op::dot(x, y); else op::matmul(x, y, ta, tb);
  CHECK(false, "a product of operands that do not fit is accepted");
}
// 16-bit elements: products and sums that are exact
template <class T> static void exact16() {
  int64_t k = pick("k", 1, TIER == 2 ? 3 : 2); bool ta = pick("ta", 0, 1), tb = pick("tb", 0, 1); std::vector<T> a, b; std::vector<int> wa, wb;
  for (int64_t i = 0; i < k; i++) { a.push_back(T((float)(i + 1))); wa.push_back(i + 1); uint16_t bit[2]; T q0(-1.f), q1(2.f); memcpy(bit, &q0, 2); memcpy(bit + 1, &q1, 2); int64_t s = sym_i64("b", 0, 1); uint16_t u = (uint16_t)sym_ite32(s == 0, bit[0], bit[1]); T q; memcpy(&q, &u, 2); b.push_back(q); wb.push_back((int)sym_ite32(s == 0, (uint32_t)-1, 2)); }
  Sh as = ta ? Sh{k, 1} : Sh{1, k}, bs = tb ? Sh{1, k} : Sh{k, 1}; DType dt = TypeToDType_v<T>; Tensor x(a, IntArrayView(as), options::dtype(dt)), y(b, IntArrayView(bs), options::dtype(dt));
  int z = 0; for (int64_t i = 0; i < k; i++) z += wa[i] * wb[i];
  Tensor r = op::matmul(x, y, ta, tb); CHECK(r.dtype() == dt && isShape(r, {1, 1}), "type of a product"); CHECK((float)r.dataPtr<T>()[0] == (float)z, "product of 16-bit elements");
  END();
}
HARNESS(exact_f16) { begin(); exact16<Half>(); }
HARNESS(exact_bf16) { begin(); exact16<BFloat16>(); }
// sizes past unrolled or blocked loops
HARNESS(wide) {
  beginReal();
  static const int64_t mkn[][3] = {{17, 33, 3}, {3, 9, 40}, {65, 2, 5}, {1, 130, 1}, {9, 9, 9}, {33, 1, 17}, {1, 20, 33}, {33, 20, 1}}; int q = (int)pick("mkn", 0, 7); int64_t m = mkn[q][0], k = mkn[q][1], n = mkn[q][2]; bool ta = pick("ta", 0, 1), tb = pick("tb", 0, 1);
  mm(operand("a", ta ? Sh{k, m} : Sh{m, k}), operand("b", tb ? Sh{n, k} : Sh{k, n}), ta, tb, "matrix product"); END();
}
HARNESS(wide_batch) {
  beginReal();
  static const Sh A[] = {{9}, {3, 4}, {1, 5}, {3, 1}, {2, 3, 2}, {}}, B[] = {{9}, {3, 4}, {4, 1}, {5}, {3, 1}, {2, 3, 3}}; int q = (int)pick("batch", 0, 5); bool ta = pick("ta", 0, 1), tb = pick("tb", 0, 1), sw = pick("swap", 0, 1); int64_t m = 2, k = 3, n = 2;
  Sh as = sw ? B[q] : A[q], bs = sw ? A[q] : B[q]; as.push_back(ta ? k : m); as.push_back(ta ? m : k); bs.push_back(tb ? n : k); bs.push_back(tb ? k : n); mm(operand("a", as), operand("b", bs), ta, tb, "batched product"); END();
}
HARNESS(wide_linear) {
  beginReal();
  static const int64_t C[][3] = {{33, 3, 5}, {2, 65, 3}, {3, 4, 40}, {1, 17, 1}, {9, 9, 9}}; int q = (int)pick("size", 0, 4); int64_t R = C[q][0], in = C[q][1], out = C[q][2]; bool bias = pick("bias", 0, 1), three = pick("rank 3", 0, 1);
  V x = operand("x", three ? Sh{1, R, in} : Sh{R, in}), w = operand("w", {out, in}), b = operand("b", {out}); Fs e; for (int64_t r = 0; r < R; r++) for (int64_t o = 0; o < out; o++) { float z = bias ? b.v[o] : 0.f; for (int64_t k = 0; k < in; k++) z += x.v[r * in + k] * w.v[o * in + k]; e.push_back(z); }
  Tensor X = mk(x.v, x.s), W = mk(w.v, w.s), B = mk(b.v, b.s); checkT(bias ? function::linear(X, W, B) : function::linear(X, W), e, three ? Sh{1, R, out} : Sh{R, out}, "linear");
  int64_t N = 130; V p = operand("p", {N}), u = operand("u", {N}); float z = 0; for (int64_t i = 0; i < N; i++) z += p.v[i] * u.v[i]; checkT(op::dot(mk(p.v, {N}), mk(u.v, {N})), {z}, {}, "dot product"); END();
}
// kernels, strides and paddings beyond the window sizes of the other cases
HARNESS(wide_columns) {
  beginReal();
  static const int64_t C[][9] = {{2, 3, 9, 7, 3, 3, 2, 2, 1}, {1, 2, 12, 5, 5, 2, 3, 1, 2}, {3, 1, 6, 6, 2, 4, 2, 3, 1}, {1, 4, 5, 9, 1, 1, 3, 4, 0}, {2, 1, 3, 3, 3, 3, 1, 1, 2}, {1, 1, 4, 20, 4, 6, 4, 6, 0}, {1, 2, 5, 4, 1, 1, 3, 2, 2}, {2, 1, 4, 6, 2, 1, 3, 3, 1}, {1, 1, 3, 3, 1, 2, 2, 4, 2}, {1, 2, 4, 3, 2, 2, 3, 3, 2}, {1, 1, 3, 3, 1, 1, 2, 2, 3}};
  const int64_t* q = C[pick("case", 0, 10)]; int64_t N = q[0], c = q[1], h = q[2], w = q[3]; Dim2D k(q[4], q[5]), st(q[6], q[7]), p(q[8], pick("pw", 0, 1) ? q[8] : 0); bool back = pick("col2im", 0, 1);
  Sh s = {N, c, h, w}; int64_t oh = (h + 2 * p.h - k.h) / st.h + 1, ow = (w + 2 * p.w - k.w) / st.w + 1; Sh cs = {N * oh * ow, c * k.h * k.w}; Fs v = symFs("v", prod(back ? cs : s)), e(prod(back ? s : cs), 0.f); int64_t o = 0;
  for (int64_t b = 0; b < N; b++) for (int64_t y = 0; y < oh; y++) for (int64_t x = 0; x < ow; x++) for (int64_t z = 0; z < c; z++) for (int64_t i = 0; i < k.h; i++) for (int64_t j = 0; j < k.w; j++, o++) {
    int64_t r = y * st.h - p.h + i, l = x * st.w - p.w + j; if (r < 0 || r >= h || l < 0 || l >= w) continue; int64_t a = ((b * c + z) * h + r) * w + l; if (back) e[a] += v[o]; else e[o] = v[a]; }
  if (back) checkT(op::col2im(mk(v, cs), IntArrayView(s), k, st, p), e, s, "col2im"); else checkT(op::im2col(mk(v, s), k, st, p), e, cs, "im2col"); END();
}
