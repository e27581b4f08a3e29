#include "common.h"
#include "Operations.h"
// dims of t mapped to the group (output element) every input element belongs to
struct Red { Sh out; std::vector<std::vector<int64_t>> g; };
static Red groups(const Sh& s, unsigned mask, bool keep) {
  Red r; Sh kept, full;
  for (size_t d = 0; d < s.size(); d++) { bool in = mask >> d & 1; if (!in) kept.push_back(s[d]); full.push_back(in ? 1 : s[d]); if (!in) r.out.push_back(s[d]); else if (keep) r.out.push_back(1); }
  r.g.resize(prod(full));
  forCoord(s, [&](int64_t i, const Sh& c) { Sh k; for (size_t d = 0; d < s.size(); d++) k.push_back(mask >> d & 1 ? 0 : c[d]); r.g[off(full, k)].push_back(i); });
  return r;
}
static float sumOf(const Fs& v, const std::vector<int64_t>& g) { float a = 0; for (auto i : g) a += v[i]; return a; }
static Fs each(const Red& r, const Fs& v, int what, bool unbiased) {
  Fs o;
  for (auto& g : r.g) {
    float n = (float)g.size(), m = sumOf(v, g) / n, q = 0;
    if (what == 0) { o.push_back(sumOf(v, g)); continue; }
    if (what == 1) { o.push_back(m); continue; }
    for (auto i : g) q += (v[i] - m) * (v[i] - m);
    o.push_back(q / (unbiased ? n - 1 : n));
  }
  return o;
}
static const int MAXN = TIER == 2 ? 8 : 6;
// sum, mean, var over every set of dimensions
HARNESS(sums_dims) {
  beginReal();
  Sh s = pickShape("d", 1, TIER == 2 ? 4 : 3, 1, 3, MAXN); int r = (int)s.size(); Fs v = symFs("v", prod(s)); Tensor x = mk(v, s);
  unsigned mask = (unsigned)pick("dims", 1, (1 << r) - 1); bool keep = pick("keep", 0, 1), neg = pick("negative", 0, 1);
  Sh dims; for (int d = 0; d < r; d++) if (mask >> d & 1) dims.push_back(neg ? d - r : d);
  if (neg && dims.size() > 1) std::swap(dims[0], dims[1]);
  Red g = groups(s, mask, keep); IntArrayView dv(dims);
  int k = (int)pick("op", 0, 3);
  if (k < 2) {
    checkT(k == 0 ? x.sum(dv, keep) : x.mean(dv, keep), each(g, v, k, false), g.out, "reduction over dimensions");
    if (dims.size() == 1) checkT(k == 0 ? x.sum(dims[0], keep) : x.mean(dims[0], keep), each(g, v, k, false), g.out, "reduction over one dimension");
  } else {
    bool unb = k == 3; sym_assume(!unb || g.g[0].size() > 1);
    Fs var = each(g, v, 2, unb), mean = each(g, v, 1, false);
    checkT(x.var(dv, unb, keep), var, g.out, "variance over dimensions");
    TensorPair p = x.varMean(dv, unb, keep); checkT(p.first, var, g.out, "variance over dimensions"); checkT(p.second, mean, g.out, "mean that goes with the variance");
    if (dims.size() == 1) { checkT(x.var(dims[0], unb, keep), var, g.out, "variance over one dimension"); TensorPair q = x.varMean(dims[0], unb, keep); checkT(q.first, var, g.out, "variance over one dimension"); checkT(q.second, mean, g.out, "mean that goes with the variance"); }
  }
  checkT(x, v, s, "operand unchanged"); END();
}
HARNESS(sums_all) {
  beginReal();
  Sh s = pickShape("d", 0, 3, 1, 3, MAXN); Fs v = symFs("v", prod(s)); Tensor x = mk(v, s); Red g = groups(s, (1u << s.size()) - 1, false);
  checkT(x.sum(), each(g, v, 0, false), {}, "sum"); checkT(x.mean(), each(g, v, 1, false), {}, "mean");
  checkT(x.var(false), each(g, v, 2, false), {}, "variance"); checkT(x.varMean(false).second, each(g, v, 1, false), {}, "mean");
  if (prod(s) > 1) { checkT(x.var(true), each(g, v, 2, true), {}, "variance"); TensorPair p = x.varMean(true); checkT(p.first, each(g, v, 2, true), {}, "variance"); checkT(p.second, each(g, v, 1, true), {}, "mean"); }
  if (s.empty()) { checkT(x.sum(-1), v, {}, "sum of a scalar"); checkT(x.mean(0), v, {}, "mean of a scalar"); checkT(x.varMean(0, false).second, v, {}, "mean of a scalar"); checkT(x.varMean(0, false).first, {0.f}, {}, "variance of a scalar"); }
  checkT(x, v, s, "operand unchanged"); END();
}
// min / max: an upper (lower) bound that occurs at the index
template <class T> static T get(const char*);
template <> float get<float>(const char* n) { float f = sym_f32(n); sym_assume(f == f); return f; }
template <> Half get<Half>(const char* n) { uint16_t u = sym_u16(n); sym_assume((u & 0x7fff) <= 0x7c00); Half h; memcpy(&h, &u, 2); return h; }
template <> BFloat16 get<BFloat16>(const char* n) { uint16_t u = sym_u16(n); sym_assume((u & 0x7fff) <= 0x7f80); BFloat16 h; memcpy(&h, &u, 2); return h; }
template <class T> static float f32(T v) { return (float)v; }
template <class T> static void extreme(const std::vector<T>& v, const std::vector<int64_t>& g, T val, bool max, const char* m) {
  float q = f32(val); bool some = false, bound = true;
  for (auto i : g) { float e = f32(v[i]); some = some | (q == e); bound = bound & (max ? q >= e : q <= e); }
  CHECK(bound, m); CHECK(some, m);
}
template <class T> static void pointed(const std::vector<T>& v, const std::vector<int64_t>& g, int64_t at, bool max, const char* m) {
  CHECK((at >= 0) & (at < (int64_t)g.size()), m);
  bool ok = true; 
  for (size_t k = 0; k < g.size(); k++) { bool b = true; float q = f32(v[g[k]]); for (auto i : g) { float e = f32(v[i]); b = b & (max ? q >= e : q <= e); } ok = ok & (b | (at != (int64_t)k)); }
  CHECK(ok, m);
}
template <class T> static void extremes(int maxRank, int64_t maxn) {
  Sh s = pickShape("d", 0, maxRank, 1, 3, maxn); int r = (int)s.size(); int64_t n = prod(s);
  std::vector<T> v; for (int64_t i = 0; i < n; i++) v.push_back(get<T>("v"));
  DType dt = TypeToDType_v<T>; Tensor x(v, IntArrayView(s), options::dtype(dt)); std::vector<int64_t> all; for (int64_t i = 0; i < n; i++) all.push_back(i);
  bool mx = pick("max", 0, 1); int64_t dim = pick("dim", -r - 1, r - 1); 
  if (dim == -r - 1) {
    Tensor y = mx ? x.max() : x.min(), z = mx ? x.argmax() : x.argmin();
    CHECK(isShape(y, {}) && isShape(z, {}) && y.dtype() == dt && z.dtype() == DType::Int64, "shape and type of a total reduction");
    extreme(v, all, y.dataPtr<T>()[0], mx, "largest or smallest element"); pointed(v, all, z.dataPtr<int64_t>()[0], mx, "position of the largest or smallest element");
  } else {
    bool keep = pick("keep", 0, 1); int64_t d = dim < 0 ? dim + r : dim;
    Red g = groups(s, 1u << d, keep); TensorPair p = mx ? x.max(dim, keep) : x.min(dim, keep); Tensor z = mx ? x.argmax(dim, keep) : x.argmin(dim, keep);
    checkLayout(p.first, g.out, "shape of the values"); checkLayout(p.second, g.out, "shape of the indices"); checkLayout(z, g.out, "shape of the positions");
    CHECK(p.first.dtype() == dt && p.second.dtype() == DType::Int64 && z.dtype() == DType::Int64, "types of values and indices");
    for (size_t o = 0; o < g.g.size(); o++) {
      extreme(v, g.g[o], p.first.dataPtr<T>()[o], mx, "largest or smallest element along a dimension");
      pointed(v, g.g[o], p.second.dataPtr<int64_t>()[o], mx, "index of the largest or smallest element along a dimension");
      pointed(v, g.g[o], z.dataPtr<int64_t>()[o], mx, "position of the largest or smallest element along a dimension");
    }
  }
  const T* xp = x.dataPtr<T>(); for (int64_t i = 0; i < n; i++) CHECK(f32(xp[i]) == f32(v[i]), "operand unchanged");
  END();
}
HARNESS(extremes_f32) { beginReal(); extremes<float>(TIER == 2 ? 3 : 2, TIER == 2 ? 6 : 4); }
// with infinities and zeros of either sign
HARNESS(extremes_f32_bits) { begin(); extremes<float>(2, TIER == 2 ? 4 : 2); }
HARNESS(extremes_f16) { begin(); extremes<Half>(TIER == 2 ? 2 : 1, TIER == 2 ? 3 : 2); }
HARNESS(extremes_bf16) { begin(); extremes<BFloat16>(TIER == 2 ? 2 : 1, TIER == 2 ? 3 : 2); }
// larger layouts with real-valued elements in a fixed order: which elements a group takes
HARNESS(extremes_layout) {
  beginReal();
  static const Sh shapes[] = {{2, 2, 3}, {2, 3, 1}, {1, 3, 2}, {3, 2, 2}, {2, 1, 2, 2}, {2, 2, 2, 1}};
  Sh s = shapes[pick("shape", 0, TIER == 2 ? 5 : 3)]; int r = (int)s.size(); int64_t n = prod(s);
  int64_t hot = sym_i64("hot", 0, n - 1); bool mx = pick("max", 0, 1); Fs v;
  for (int64_t i = 0; i < n; i++) { uint32_t u = sym_ite32(hot == i, fbits(mx ? 7.f : -7.f), 0); float w; memcpy(&w, &u, 4); v.push_back(w); }
  Tensor x = mk(v, s); int64_t dim = pick("dim", -r, r - 1), d = dim < 0 ? dim + r : dim; bool keep = pick("keep", 0, 1);
  Red g = groups(s, 1u << d, keep); TensorPair p = mx ? x.max(dim, keep) : x.min(dim, keep);
  checkLayout(p.first, g.out, "shape of the values"); checkLayout(p.second, g.out, "shape of the indices");
  for (size_t o = 0; o < g.g.size(); o++) { extreme(v, g.g[o], fp(p.first)[o], mx, "largest or smallest element along a dimension"); pointed(v, g.g[o], p.second.dataPtr<int64_t>()[o], mx, "index along a dimension"); }
  END();
}
// sums of 16-bit elements whose partial sums are exact
template <class T> static void small16() {
  Sh s = pickShape("d", 1, 2, 1, 2, TIER == 2 ? 4 : 2); int r = (int)s.size(); int64_t n = prod(s); std::vector<T> v; std::vector<int64_t> w;
  for (int64_t i = 0; i < n; i++) { int64_t k = sym_i64("v", 0, 2); static const float tab[] = {-1.f, 1.f, 2.f}; uint16_t b[3]; for (int j = 0; j < 3; j++) { T q(tab[j]); memcpy(&b[j], &q, 2); } w.push_back((int64_t)sym_ite64(k == 0, (uint64_t)-1, (uint64_t)k)); uint16_t u = (uint16_t)sym_ite32(k == 0, b[0], sym_ite32(k == 1, b[1], b[2])); T q; memcpy(&q, &u, 2); v.push_back(q); }
  Tensor x(v, IntArrayView(s), options::dtype(TypeToDType_v<T>));
  auto eq = [&](const Tensor& t, size_t o, int64_t k, const char* m) { CHECK((float)t.dataPtr<T>()[o] == (float)k, m); };
  int64_t dim = pick("dim", 0, r); unsigned mask = dim == r ? (1u << r) - 1 : 1u << dim; Red g = groups(s, mask, false);
  Tensor y = dim == r ? x.sum() : x.sum(dim); CHECK(y.dtype() == x.dtype(), "type of a sum"); checkLayout(y, g.out, "shape of a sum");
  for (size_t o = 0; o < g.g.size(); o++) { int64_t k = 0; for (auto i : g.g[o]) k += w[i]; eq(y, o, k, "sum of 16-bit elements"); }
  if (g.g[0].size() == 2) { Tensor m = dim == r ? x.mean() : x.mean(dim); for (size_t o = 0; o < g.g.size(); o++) { int64_t k = 0; for (auto i : g.g[o]) k += w[i]; CHECK((float)m.dataPtr<T>()[o] * 2.f == (float)k, "mean of 16-bit elements"); } }
  END();
}
HARNESS(sum_f16) { begin(); small16<Half>(); }
HARNESS(sum_bf16) { begin(); small16<BFloat16>(); }
// a dimension that does not exist is refused
HARNESS(bad_dim) {
  begin();
  Sh s = pickShape("d", 1, 2, 1, 2, 4); int r = (int)s.size(); Tensor x = mk(symFs("v", prod(s)), s);
  int64_t dim = sym_i64("dim", -1000, 1000); sym_assume((dim < -r) | (dim >= r)); int k = (int)pick("op", 0, 6); Sh ds = {dim}; IntArrayView dv(ds);
  sym_reach("end"); sym_trap_policy(1);
  switch (k) { case 0: x.sum(dim); break; case 1: x.mean(dim); break; case 2: x.var(dim, false); break; case 3: x.max(dim); break; case 4: x.argmin(dim); break; case 5: x.sum(dv); break; default: x.varMean(dv, false); }
  CHECK(false, "a reduction accepts a dimension that does not exist");
}
// element counts past unrolled or blocked loops
static const Sh WIDE[] = {{300}, {17, 19}, {2, 3, 33}, {65, 2}, {3, 130}, {40, 1, 4}};
HARNESS(wide_sums) {
  beginReal();
  Sh s = WIDE[pick("shape", 0, 5)]; int r = (int)s.size(); Fs v = symFs("v", prod(s)); Tensor x = mk(v, s);
  unsigned mask = (unsigned)pick("dims", 0, (1 << r) - 1); bool keep = mask & 1, mean = pick("mean", 0, 1);
  if (!mask) { Red g = groups(s, (1u << r) - 1, false); checkT(mean ? x.mean() : x.sum(), each(g, v, mean, false), {}, "total"); }
  else {
    Sh dims; for (int d = 0; d < r; d++) if (mask >> d & 1) dims.push_back(d); Red g = groups(s, mask, keep); IntArrayView dv(dims);
    checkT(mean ? x.mean(dv, keep) : x.sum(dv, keep), each(g, v, mean, false), g.out, "reduction over dimensions");
    if (dims.size() == 1) checkT(mean ? x.mean(dims[0], keep) : x.sum(dims[0], keep), each(g, v, mean, false), g.out, "reduction over one dimension");
  }
  checkT(x, v, s, "operand unchanged"); END();
}
HARNESS(wide_var) {
  beginReal();
  static const Sh W[] = {{33}, {3, 17}, {17, 3}, {2, 2, 9}}; Sh s = W[pick("shape", 0, 3)]; int r = (int)s.size(); unsigned mask = 1u << pick("dim", 0, r - 1); bool unb = pick("unbiased", 0, 1), all = pick("all", 0, 1); if (all) mask = (1u << r) - 1;
  sym_assume(prod(s) > 0); Fs v = symFs("v", prod(s)); Tensor x = mk(v, s); Sh dims; for (int d = 0; d < r; d++) if (mask >> d & 1) dims.push_back(d); Red g = groups(s, mask, false);
  TensorPair p = all ? x.varMean(unb) : x.varMean(IntArrayView(dims), unb, false); checkT(p.first, each(g, v, 2, unb), g.out, "variance"); checkT(p.second, each(g, v, 1, unb), g.out, "mean that goes with the variance");
  checkT(all ? x.var(unb) : x.var(dims[0], unb, false), each(g, v, 2, unb), g.out, "variance");
  END();
}
// one extreme element at a chosen place among equal ones: every place within a long row, and the first of two
HARNESS(wide_extremes) {
  begin();
  Sh s = WIDE[pick("shape", 0, 5)]; int r = (int)s.size(); int64_t n = prod(s); bool mx = pick("max", 0, 1); int64_t dim = pick("dim", -1, r - 1); int64_t q = pick("hot", 0, 7); static const int64_t P[8] = {0, 1, 7, 8, 31, 32, -1, -2}; int64_t hot = P[q] < 0 ? n + P[q] : P[q];
  Fs v; for (int64_t i = 0; i < n; i++) v.push_back((float)((i * 37) % 11) - 5.f); v[hot] = mx ? 9.f : -9.f; Tensor x = mk(v, s);
  Red g = groups(s, dim < 0 ? (1u << r) - 1 : 1u << dim, false);
  if (dim < 0) { extreme(v, g.g[0], fp(mx ? x.max() : x.min())[0], mx, "largest or smallest element"); CHECK((mx ? x.argmax() : x.argmin()).dataPtr<int64_t>()[0] == hot, "position of the only extreme element"); }
  else {
    TensorPair p = mx ? x.max(dim, false) : x.min(dim, false); Tensor a = mx ? x.argmax(dim, false) : x.argmin(dim, false); checkLayout(p.first, g.out, "shape of the values"); checkLayout(p.second, g.out, "shape of the indices");
    for (size_t o = 0; o < g.g.size(); o++) { extreme(v, g.g[o], fp(p.first)[o], mx, "largest or smallest element along a dimension"); pointed(v, g.g[o], p.second.dataPtr<int64_t>()[o], mx, "index along a dimension"); pointed(v, g.g[o], a.dataPtr<int64_t>()[o], mx, "position along a dimension"); }
  }
  END();
}
// values far from zero: the variance comes from the differences to the mean
HARNESS(variance_offset) {
  begin();
  static const float at[] = {0.f, 1000.f, -4096.f, 30000.f}; float c = at[pick("at", 0, 3)]; bool unb = pick("unbiased", 0, 1); int64_t form = pick("form", 0, 2), n = pick("n", 2, 5); Fs v; for (int64_t i = 0; i < n; i++) v.push_back(c + (float)((i * i * 3) % 5)); double m = 0, q = 0; for (float k : v) m += k; m /= n; for (float k : v) q += (k - m) * (k - m); q /= unb ? n - 1 : n; Tensor x = mk(v, {1, n}); Sh d = {0, 1};
  TensorPair r = form == 0 ? op::varMean(x, unb) : form == 1 ? op::varMeanOnDim(x, 1, unb, false) : op::varMeanOnDims(x, IntArrayView(d), unb, false);
  CHECK(std::fabs(fp(r.first)[0] - q) < 0.01, "variance of values far from zero"); CHECK(std::fabs(fp(r.second)[0] - m) < 0.01 + 1e-6 * std::fabs(m), "mean of values far from zero"); END();
}
