// C26: sort, top-k, cumulative sum, multinomial
#include "common.h"
#include "Operations.h"
#include "Functions.h"
#include "Utils/RandomGenerator.h"
#include <limits>
template <class T> static Tensor mkT(const std::vector<T>& v, const Sh& s) { return Tensor(v, IntArrayView(s)); }
template <class T> static bool eqBits(T a, T b) { return memcmp(&a, &b, sizeof(T)) == 0; }
template <> bool eqBits<float>(float a, float b) { return fbits(a) == fbits(b); }
// the slice positions of an axis: base offset of slice j, stride inner
struct Ax { int64_t n, outer, inner; Ax(const Sh& s, int64_t d) : n(s[d]), outer(prod(s, 0, d)), inner(prod(s, d + 1, s.size())) {} int64_t at(int64_t o, int64_t in, int64_t i, int64_t len) const { return (o * len + i) * inner + in; } };
// v: input in row-major order; k outputs per slice; ordered by "largest first" or "smallest first"
template <class T> static void checkOrder(const TensorPair& r, const std::vector<T>& v, const Sh& s, int64_t d, int64_t k, bool desc, bool ordered) {
  Sh rs = s; rs[d] = k; const Tensor &val = r.first, &idx = r.second; checkLayout(val, rs, "shape of the values"); checkLayout(idx, rs, "shape of the indices");
  CHECK(val.dtype() == TypeToDType_v<T> && idx.dtype() == DType::Int64, "types of values and indices"); CHECK(!val.requiresGrad() && !idx.requiresGrad(), "plain results");
  Ax a(s, d); const T* vp = val.dataPtr<T>(); const int64_t* ip = idx.dataPtr<int64_t>();
  for (int64_t o = 0; o < a.outer; o++) for (int64_t in = 0; in < a.inner; in++) {
    std::vector<char> used(a.n, 0); std::vector<T> got;
    for (int64_t i = 0; i < k; i++) {
      int64_t j = ip[a.at(o, in, i, k)]; CHECK(j >= 0 && j < a.n, "index lies in the slice"); j = sym_concretize(j); CHECK(!used[j], "no index is repeated"); used[j] = 1;
      T x = vp[a.at(o, in, i, k)]; CHECK(eqBits(x, v[a.at(o, in, j, a.n)]), "value is the input element its index names"); got.push_back(x);
    }
    if (ordered) for (int64_t i = 1; i < k; i++) CHECK(desc ? got[i - 1] >= got[i] : got[i - 1] <= got[i], "values are in order");
    // nothing left out is more extreme than anything taken
    for (int64_t j = 0; j < a.n; j++) if (!used[j]) for (int64_t i = 0; i < k; i++) { T x = v[a.at(o, in, j, a.n)]; CHECK(desc ? got[i] >= x : got[i] <= x, "the extreme elements are taken"); }
  }
}
template <class T> static void same(const Tensor& t, const std::vector<T>& v) { const T* p = t.dataPtr<T>(); for (size_t i = 0; i < v.size(); i++) CHECK(eqBits(p[i], v[i]), "the input is unchanged"); }
static Fs noNan(const char* n, int64_t k) { Fs v = symFs(n, k); for (float f : v) sym_assume(f == f); return v; }
static std::vector<int64_t> i64s(int64_t k) { std::vector<int64_t> v; for (int64_t i = 0; i < k; i++) v.push_back(sym_i64("x", INT64_MIN, INT64_MAX)); return v; }
static std::vector<int32_t> i32s(int64_t k) { std::vector<int32_t> v; for (int64_t i = 0; i < k; i++) v.push_back(sym_i32("x", INT32_MIN, INT32_MAX)); return v; }
static std::vector<uint8_t> u8s(int64_t k) { std::vector<uint8_t> v; for (int64_t i = 0; i < k; i++) v.push_back(sym_u8("x")); return v; }
HARNESS(sort_f32) { begin(); int64_t n = pick("n", 1, TIER == 2 ? 4 : 3); bool desc = pick("descending", 0, 1); Fs v = noNan("x", n); Tensor t = mk(v, {n}); checkOrder<float>(op::sort(t, pick("dim", -1, 0), desc), v, {n}, 0, n, desc, true); same(t, v); END(); }
HARNESS(sort_i64) { begin(); int64_t n = pick("n", 1, TIER == 2 ? 5 : 4); bool desc = pick("descending", 0, 1); auto v = i64s(n); Tensor t = mkT(v, {n}); checkOrder<int64_t>(op::sort(t, 0, desc), v, {n}, 0, n, desc, true); same(t, v); END(); }
HARNESS(sort_i32) { begin(); int64_t n = pick("n", 1, 3); bool desc = pick("descending", 0, 1); auto v = i32s(n); Tensor t = mkT(v, {n}); checkOrder<int32_t>(op::sort(t, 0, desc), v, {n}, 0, n, desc, true); same(t, v); END(); }
HARNESS(sort_bool) { begin(); int64_t n = pick("n", 1, 3); bool desc = pick("descending", 0, 1); auto v = u8s(n); Tensor t = mkT(v, {n}); checkOrder<uint8_t>(op::sort(t, 0, desc), v, {n}, 0, n, desc, true); same(t, v); END(); }
template <class H> static std::vector<H> halves(int64_t n) { std::vector<H> v; for (int64_t i = 0; i < n; i++) { H h(sym_u16("x"), H::from_bits()); sym_assume((float)h == (float)h); v.push_back(h); } return v; }
template <class H> static void half() { int64_t n = pick("n", 1, 2); bool desc = pick("descending", 0, 1); auto v = halves<H>(n); Tensor t = mkT(v, {n}); switch (pick("op", 0, 1)) { case 0: checkOrder<H>(op::sort(t, 0, desc), v, {n}, 0, n, desc, true); break; default: { int64_t k = pick("k", 1, n); checkOrder<H>(op::topk(t, k, 0, desc, true), v, {n}, 0, k, desc, true); } } }
HARNESS(half_f16) { begin(); half<Half>(); END(); }
HARNESS(half_bf16) { begin(); half<BFloat16>(); END(); }
// longer slices (past the insertion-sort threshold): fixed values with one free one
HARNESS(sort_long) { begin(); int64_t n = pick("n", 16, TIER == 2 ? 40 : 20); bool desc = pick("descending", 0, 1); std::vector<int64_t> v; for (int64_t i = 0; i < n; i++) v.push_back((i * 7919 + 13) % 11); v[pick("free", 0, 1) ? n / 2 : n - 1] = sym_i64("x", INT64_MIN, INT64_MAX); Tensor t = mkT(v, {n}); if (pick("topk", 0, 1)) { int64_t k = pick("k", 1, 3); checkOrder<int64_t>(op::topk(t, k, 0, desc, true), v, {n}, 0, k, desc, true); } else checkOrder<int64_t>(op::sort(t, 0, desc), v, {n}, 0, n, desc, true); END(); }
// any axis of any shape; the elements of one slice are free, the others fixed
static std::vector<int64_t> mixed(const Sh& s, int64_t d, int64_t free) {
  int64_t n = prod(s); std::vector<int64_t> v; for (int64_t i = 0; i < n; i++) v.push_back((i * 5 + 3) % 7);
  if (n > 0) { Ax a(s, d); int64_t sl = free % (a.outer * a.inner); for (int64_t i = 0; i < a.n; i++) v[a.at(sl / a.inner, sl % a.inner, i, a.n)] = sym_i64("x", INT64_MIN, INT64_MAX); } return v;
}
HARNESS(sort_axis) {
  begin(); Sh s = pickShape("size", 1, 3, 1, 3, TIER == 2 ? 18 : 9); int64_t r = s.size(), d = pick("dim", -3, 2); sym_assume(d >= -r && d < r); int64_t dd = d < 0 ? d + r : d; bool desc = pick("descending", 0, 1); int64_t fr = TIER == 2 ? pick("free slice", 0, 1) * 3 : 3;
  auto v = mixed(s, dd, fr); Tensor t = mkT(v, s); checkOrder<int64_t>(function::sort(t, d, desc), v, s, dd, s[dd], desc, true); same(t, v); END();
}
HARNESS(sort_zero) { begin(); Sh s = pickShape("size", 1, 3, 0, 2, 8); sym_assume(prod(s) == 0); int64_t d = pick("dim", 0, 2); sym_assume(d < (int64_t)s.size()); Tensor t = mk({}, s); auto r = op::sort(t, d, false); checkLayout(r.first, s, "shape of an empty sort"); checkLayout(r.second, s, "shape of an empty sort"); checkLayout(op::cumsum(t, d), s, "shape of an empty sum"); END(); }
HARNESS(bad_dim) { Sh s = pickShape("size", 0, 2, 1, 2, 4); int64_t r = s.size(), d = sym_i64("dim", -5, 5); sym_assume(d < -r || d >= r); begin(); Tensor t = mk(symFs("x", prod(s)), s); int64_t w = pick("op", 0, 2); sym_reach("end"); sym_trap_policy(1); if (w == 0) op::sort(t, d, false); else if (w == 1) op::cumsum(t, d); else op::topk(t, 1, d, true, true); CHECK(false, "an axis outside the tensor is refused"); }
// ---- top-k
HARNESS(topk_f32) { begin(); int64_t n = pick("n", 1, 3), k = pick("k", 1, 3); sym_assume(k <= n); bool big = pick("largest", 0, 1), so = pick("sorted", 0, 1); Fs v = noNan("x", n); Tensor t = mk(v, {n}); checkOrder<float>(op::topk(t, k, 0, big, so), v, {n}, 0, k, big, so); same(t, v); END(); }
HARNESS(topk_i64) { begin(); int64_t n = pick("n", 1, TIER == 2 ? 5 : 4), k = pick("k", 1, 4); sym_assume(k <= n && (n < 4 || k == 2)); bool big = pick("largest", 0, 1), so = pick("sorted", 0, 1); auto v = i64s(n); Tensor t = mkT(v, {n}); checkOrder<int64_t>(op::topk(t, k, -1, big, so), v, {n}, 0, k, big, so); same(t, v); END(); }
HARNESS(topk_axis) {
  begin(); Sh s = pickShape("size", 1, 3, 1, 3, TIER == 2 ? 18 : 9); int64_t r = s.size(), d = pick("dim", -3, 2); sym_assume(d >= -r && d < r); int64_t dd = d < 0 ? d + r : d; bool big = pick("largest", 0, 1); int64_t k = pick("k", 1, 3); sym_assume(k <= s[dd]);
  auto v = mixed(s, dd, 4); Tensor t = mkT(v, s); checkOrder<int64_t>(function::topk(t, k, d, big), v, s, dd, k, big, true); same(t, v); END();
}
HARNESS(topk_bad_k) { int64_t n = pick("n", 0, 3), k = sym_i64("k", -1000, 1000); sym_assume(k <= 0 || k > n); begin(); Tensor t = mk(symFs("x", n), {n}); sym_reach("end"); sym_trap_policy(1); op::topk(t, k, 0, true, true); CHECK(false, "k outside 1..n is refused"); }
// ---- cumulative sum
HARNESS(cumsum_real) {
  beginReal(); Sh s = pickShape("size", 1, TIER == 2 ? 4 : 3, 1, TIER == 2 ? 4 : 3, TIER == 2 ? 36 : 27); int64_t r = s.size(), d = pick("dim", -4, 3); sym_assume(d >= -r && d < r); int64_t dd = d < 0 ? d + r : d; Fs v = symFs("x", prod(s)), e(v.size()); Tensor t = mk(v, s); Tensor c = function::cumsum(t, d); Ax a(s, dd);
  for (int64_t o = 0; o < a.outer; o++) for (int64_t in = 0; in < a.inner; in++) { float sum = 0; for (int64_t i = 0; i < a.n; i++) { sum += v[a.at(o, in, i, a.n)]; e[a.at(o, in, i, a.n)] = sum; } }
  checkT(c, e, s, "prefix sums"); CHECK(!c.requiresGrad(), "plain result"); checkVals(t, v, "the input is unchanged"); END();
}
template <class T> static void csInt(const std::vector<T>& v) { int64_t n = v.size(); Tensor t = mkT(v, {n}), c = op::cumsum(t, 0); checkLayout(c, {n}, "shape"); CHECK(c.dtype() == TypeToDType_v<T>, "type"); T sum = 0; for (int64_t i = 0; i < n; i++) { sum = (T)(sum + v[i]); CHECK(c.dataPtr<T>()[i] == sum, "prefix sums"); } same(t, v); }
HARNESS(cumsum_int) { begin(); int64_t n = pick("n", 1, 4); switch (pick("type", 0, 1)) { case 0: { std::vector<int64_t> v; for (int64_t i = 0; i < n; i++) v.push_back(sym_i64("x", -(1ll << 60), 1ll << 60)); csInt(v); break; } default: { std::vector<int32_t> v; for (int64_t i = 0; i < n; i++) v.push_back(sym_i32("x", -(1 << 28), 1 << 28)); csInt(v); } } END(); }
// bits: the sum of finite floats in order of the slice
HARNESS(cumsum_f32) { begin(); int64_t n = pick("n", 1, 5); Fs v = symFs("x", n); Tensor t = mk(v, {n}), c = op::cumsum(t, 0); float s = 0; for (int64_t i = 0; i < n; i++) { s += v[i]; CHECK(fbits(fp(c)[i]) == fbits(s), "prefix sums"); } END(); }
// ---- multinomial: every engine output
static void checkDraw(const Tensor& r, const Fs& w, int64_t rows, int64_t k, bool repl, bool one) {
  checkLayout(r, one ? Sh{k} : Sh{rows, k}, "shape of the draws"); CHECK(r.dtype() == DType::Int64 && !r.requiresGrad(), "type of the draws"); int64_t n = w.size() / rows; const int64_t* p = r.dataPtr<int64_t>();
  for (int64_t b = 0; b < rows; b++) { std::vector<char> used(n, 0); for (int64_t i = 0; i < k; i++) { int64_t j = p[b * k + i]; CHECK(j >= 0 && j < n, "the drawn index is in range"); j = sym_concretize(j); CHECK(w[b * n + j] > 0, "an index of non-zero weight is drawn"); if (!repl) { CHECK(!used[j], "no repetition without replacement"); used[j] = 1; } } }
}
static Fs weights(int64_t rows, int64_t n, int64_t need, float hi) { Fs w; for (int64_t b = 0; b < rows; b++) { int64_t pos = 0; for (int64_t i = 0; i < n; i++) { if (sym_concretize(sym_i64("non-zero", 0, 1))) { w.push_back(sym_f32_range("w", 0, hi)); sym_assume(w.back() > 0); pos++; } else w.push_back(0); } sym_assume(pos >= need); } return w; }
HARNESS(multinomial_real) { beginReal(); int64_t n = pick("n", 1, 3), k = pick("k", 0, TIER == 2 ? 3 : 2); bool repl = pick("replacement", 0, 1); sym_assume(repl || k <= n); Fs w = weights(1, n, repl ? 1 : k, 1000); manualSeed(1); rng_havoc((int)k + 1); Tensor t = mk(w, {n}); checkDraw(op::multinomial(t, k, repl), w, 1, k, repl, true); checkVals(t, w, "the weights are unchanged"); END(); }
HARNESS(multinomial_rows) { beginReal(); int64_t n = 2, rows = pick("rows", 1, 2), k = pick("k", 1, 2); bool repl = pick("replacement", 0, 1); Fs w = weights(rows, n, repl ? 1 : k, 1000); manualSeed(1); rng_havoc((int)(k * rows) + 1); Tensor t = mk(w, {rows, n}); checkDraw(function::multinomial(t, k, repl), w, rows, k, repl, false); END(); }
// bit precise, up to the largest float (an infinite total is refused): every engine output with one non-zero weight, fixed engine outputs with two
static void bits(const Fs& w, float tot, int64_t n) { sym_assume(tot > 0); bool inf = tot > std::numeric_limits<float>::max(); Tensor t = mk(w, {n}); if (inf) { sym_reach("end"); sym_trap_policy(1); op::multinomial(t, 1, true); CHECK(false, "an infinite total is refused"); } Tensor r = op::multinomial(t, 1, true); int64_t j = r.dataPtr<int64_t>()[0]; CHECK(j >= 0 && j < n, "the drawn index is in range"); CHECK((j == 0 ? w[0] : w[n - 1]) > 0, "an index of non-zero weight is drawn"); END(); }
static float weight() { float w = sym_f32("w"); sym_assume(w >= 0 && w <= std::numeric_limits<float>::max()); return w; }
HARNESS(multinomial_one) { begin(); int64_t n = pick("n", 1, 2); Fs w; for (int64_t i = 0; i < n; i++) w.push_back(0); float x = weight(); w[pick("at", 0, 1) ? n - 1 : 0] = x; manualSeed(1); rng_havoc(2); bits(w, x, n); }
HARNESS(multinomial_two) { begin(); Fs w{weight(), weight()}; manualSeed((unsigned long)pick("seed", 1, 3)); bits(w, w[0] + w[1], 2); }
HARNESS(multinomial_refuse) { int64_t n = pick("n", 1, 3), k = pick("k", 1, 3); bool repl = pick("replacement", 0, 1); begin(); Fs w; int64_t pos = 0; for (int64_t i = 0; i < n; i++) { bool nz = pick("non-zero", 0, 1); w.push_back(nz ? (float)(i + 1) : 0.f); pos += nz; } sym_assume(repl ? pos == 0 : pos < k); Tensor t = mk(w, {n}); manualSeed(1); sym_reach("end"); sym_trap_policy(1); op::multinomial(t, k, repl); CHECK(false, "drawing more indices than there are non-zero weights is refused"); }
HARNESS(multinomial_bad) { int64_t c = pick("case", 0, 3); begin(); float inf = std::numeric_limits<float>::infinity(), q = std::numeric_limits<float>::quiet_NaN(); Tensor t = c == 0 ? mk({1.f, inf}, {2}) : c == 1 ? mk({q, 1.f}, {2}) : c == 2 ? mk({}, {0}) : mk(symFs("x", 4), {1, 2, 2}); manualSeed(1); sym_reach("end"); sym_trap_policy(1); op::multinomial(t, 1, true); CHECK(false, "weights from which nothing can be drawn are refused"); }
// long slices: concrete values with distinct order, one free element
static std::vector<int64_t> longRow(int64_t n, int64_t at) { std::vector<int64_t> v; for (int64_t i = 0; i < n; i++) v.push_back((i * 7919 + 13) % 101 * 2); v[at] = sym_i64("x", -10, 30); return v; }
HARNESS(wide_order) { begin(); static const int64_t N[] = {65, 130, 300}; int64_t n = N[pick("n", 0, 2)]; bool desc = pick("descending", 0, 1); auto v = longRow(n, n - 1); Tensor t = mkT(v, {n}); if (pick("topk", 0, 1)) { static const int64_t K[] = {1, 7, 60}; int64_t k = K[pick("k", 0, 2)]; checkOrder<int64_t>(op::topk(t, k, 0, desc, true), v, {n}, 0, k, desc, true); } else checkOrder<int64_t>(op::sort(t, 0, desc), v, {n}, 0, n, desc, true); same(t, v); END(); }
HARNESS(wide_axis) { begin(); static const Sh S[] = {{9, 33}, {2, 40, 3}, {2, 1, 3, 2, 5}}; static const int64_t D[] = {1, 1, 4}; int64_t q = pick("shape", 0, 2); bool desc = pick("descending", 0, 1); auto v = longRow(prod(S[q]), prod(S[q]) - 1); Tensor t = mkT(v, S[q]); if (pick("topk", 0, 1)) checkOrder<int64_t>(op::topk(t, 3, D[q], desc, true), v, S[q], D[q], 3, desc, true); else checkOrder<int64_t>(op::sort(t, D[q] - (int64_t)S[q].size(), desc), v, S[q], D[q], S[q][D[q]], desc, true); END(); }
HARNESS(wide_cumsum) {
  beginReal(); static const Sh S[] = {{130}, {3, 70}, {40, 3}, {2, 1, 9, 2, 3}}; static const int64_t D[] = {0, 1, 0, 2}; int64_t q = pick("shape", 0, 3); Sh s = S[q]; Fs v = symFs("x", prod(s)), e(v.size()); Tensor t = mk(v, s), c = op::cumsum(t, D[q]); Ax a(s, D[q]);
  for (int64_t o = 0; o < a.outer; o++) for (int64_t in = 0; in < a.inner; in++) { float sum = 0; for (int64_t i = 0; i < a.n; i++) { sum += v[a.at(o, in, i, a.n)]; e[a.at(o, in, i, a.n)] = sum; } } checkT(c, e, s, "prefix sums"); END();
}
// many categories, few of them possible
HARNESS(wide_multinomial) { begin(); int64_t n = pick("n", 0, 1) ? 300 : 40, k = pick("k", 1, 2) * 3; bool repl = pick("replacement", 0, 1); Fs w(n, 0.f); for (int64_t i = 3; i < n; i += n / 10) w[i] = 1.f + i % 4; manualSeed((unsigned long)pick("seed", 1, 3)); Tensor t = mk(w, {n}); checkDraw(op::multinomial(t, k, repl), w, 1, k, repl, true); Fs u; for (int r = 0; r < 5; r++) u.insert(u.end(), w.begin(), w.end()); checkDraw(op::multinomial(mk(u, {5, n}), k, repl), u, 5, k, repl, false); END(); }
