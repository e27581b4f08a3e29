#include "common.h"
#include "Operations.h"
#include "Utils/Half.h"
#include "Utils/BFloat16.h"
template <class T> static uint64_t raw(T v) { uint64_t u = 0; memcpy(&u, &v, sizeof v); return u; }
template <class T> static bool all(const Tensor& t, T v) { const T* p = t.dataPtr<T>(); for (int64_t i = 0; i < t.numel(); i++) if (raw(p[i]) != raw(v)) return false; return true; }
// every element of the tensor is the scalar converted to the tensor's element type
static bool holds(const Tensor& t, const Scalar& s) { switch (t.dtype()) { case DType::Float32: return all<float>(t, s.to<float>()); case DType::Float16: return all<Half>(t, s.to<Half>()); case DType::BFloat16: return all<BFloat16>(t, s.to<BFloat16>()); case DType::Int32: return all<int32_t>(t, s.to<int32_t>()); case DType::Int64: return all<int64_t>(t, s.to<int64_t>()); default: return all<uint8_t>(t, s.to<uint8_t>()); } }
static Options opt(DType d, bool rg = false) { return options::dtype(d).requiresGrad(rg); }
static bool okOpts(const Tensor& t, DType d, bool rg) { return t.dtype() == d && t.requiresGrad() == rg && t.device() == Device(DeviceType::CPU); }
HARNESS(factories) {
  begin(); Sh s = pickShape("size", 0, 3, 0, 2, 8); DType d = (DType)pick("type", 0, 5); bool rg = d <= DType::BFloat16 && pick("requires grad", 0, 1); IntArrayView v(s); Options o = opt(d, rg);
  Tensor e = Tensor::empty(v, o), z = Tensor::zeros(v, o), n = Tensor::ones(v, o); checkLayout(e, s, "empty"); checkLayout(z, s, "zeros"); checkLayout(n, s, "ones"); CHECK(okOpts(e, d, rg) && okOpts(z, d, rg) && okOpts(n, d, rg), "requested options"); CHECK(holds(z, Scalar(0)), "zeros"); CHECK(holds(n, Scalar(1)), "ones");
  Tensor zl = Tensor::zerosLike(n), ol = Tensor::onesLike(z); checkLayout(zl, s, "zerosLike"); checkLayout(ol, s, "onesLike"); CHECK(zl.dtype() == d && ol.dtype() == d, "type of the model"); CHECK(holds(zl, Scalar(0)), "zerosLike"); CHECK(holds(ol, Scalar(1)), "onesLike"); CHECK(holds(z, Scalar(0)) && holds(n, Scalar(1)), "the model is unchanged");
  DType d2 = d == DType::Int64 ? DType::Float32 : DType::Int64; Tensor zo = Tensor::zerosLike(n, opt(d2)), oo = Tensor::onesLike(n, opt(d2)); CHECK(zo.dtype() == d2 && oo.dtype() == d2 && !zo.requiresGrad(), "given options win"); checkLayout(zo, s, "zerosLike"); CHECK(holds(zo, Scalar(0)) && holds(oo, Scalar(1)), "contents"); END();
}
static Scalar symScalar(int64_t k, DType d) {
  switch (k) { case 0: { float f = sym_f32("value"); if (d == DType::Bool) sym_assume(f > -1.f && f < 256.f); else if (d == DType::Int32 || d == DType::Int64) sym_assume(f > -2e9f && f < 2e9f); return Scalar(f); } case 1: return Scalar(sym_i32("value", INT32_MIN, INT32_MAX)); case 2: return Scalar(sym_i64("value", INT64_MIN, INT64_MAX)); default: return Scalar((bool)pick("value", 0, 1)); }
}
HARNESS(full) {
  begin(); Sh s = pickShape("size", 0, 2, 0, 3, 6); DType d = (DType)pick("type", 0, 5); Scalar x = symScalar(pick("kind", 0, 3), d); IntArrayView v(s); Tensor t = Tensor::full(v, x, opt(d)); checkLayout(t, s, "full"); CHECK(okOpts(t, d, false), "requested options"); CHECK(holds(t, x), "full"); Tensor l = Tensor::fullLike(t, x); checkLayout(l, s, "fullLike"); CHECK(l.dtype() == d && holds(l, x), "fullLike"); DType d2 = d == DType::Float32 ? DType::Float16 : DType::Float32; Tensor lo = Tensor::fullLike(t, Scalar(1), opt(d2)); CHECK(lo.dtype() == d2 && holds(lo, Scalar(1)), "fullLike with options"); Tensor c = Tensor::scalar(x, opt(d)); checkLayout(c, {}, "scalar"); CHECK(c.dtype() == d && holds(c, x), "scalar"); END();
}
// in-place fills change every element of this tensor and nothing else
HARNESS(fills) {
  begin(); int64_t n = pick("n", 0, 5); DType d = (DType)pick("type", 0, 5); Scalar x = symScalar(d == DType::Int64 ? 2 : d == DType::Int32 ? 1 : 0, d); Tensor t = Tensor::full(IntArrayView({n}), Scalar(3), opt(d)), k = t.clone(), a = t; int64_t how = pick("fill", 0, 3); if (how == 0) { t.fill_(x); CHECK(holds(t, x), "fill"); } else if (how == 1) { t.fillZero_(); CHECK(holds(t, Scalar(0)), "fill zero"); } else if (how == 2) { t.fillOne_(); CHECK(holds(t, Scalar(1)), "fill one"); } else op::fill(t, x), CHECK(holds(t, x), "fill"); checkLayout(t, {n}, "shape kept"); CHECK(t.dtype() == d, "type kept"); CHECK(holds(k, Scalar(3)), "a clone is unchanged"); CHECK(a.dataPtr<>() == t.dataPtr<>(), "an alias shows the new values"); END();
}
HARNESS(fill_offset) { begin(); Fs v = symFs("x", 6); Tensor t = mk(v, {2, 3}), k = t.clone(); float f = sym_f32("value"); int64_t o = pick("offset", 0, 6), c = pick("count", 0, 6); sym_assume(o + c <= 6); op::fillOffset(t, Tensor::scalar(f), o, c); Fs e = v; for (int64_t i = 0; i < c; i++) e[o + i] = f; for (int i = 0; i < 6; i++) CHECK(fbits(fp(t)[i]) == fbits(e[i]), "exactly the chosen elements"); for (int i = 0; i < 6; i++) CHECK(fbits(fp(k)[i]) == fbits(v[i]), "a clone is unchanged"); END(); }
template <class T> static void masked(DType d) {
  Sh s = pickShape("size", 0, 2, 0, 3, 5); int64_t n = prod(s); std::vector<T> v; for (int64_t i = 0; i < n; i++) { if constexpr (std::is_same_v<T, float>) v.push_back(sym_f32("x")); else if constexpr (std::is_same_v<T, int64_t>) v.push_back(sym_i64("x", INT64_MIN, INT64_MAX)); else v.push_back(sym_u8("x")); } std::vector<uint8_t> m; for (int64_t i = 0; i < n; i++) m.push_back(sym_u8("mask")); T f; if constexpr (std::is_same_v<T, float>) f = sym_f32("value"); else if constexpr (std::is_same_v<T, int64_t>) f = sym_i64("value", INT64_MIN, INT64_MAX); else f = sym_u8("value");
  Scalar x = [&]() -> Scalar { if constexpr (std::is_same_v<T, uint8_t>) return Scalar((int32_t)f); else return Scalar(f); }(); Tensor t(v, IntArrayView(s)), mask(m, IntArrayView(s)), k = t.clone(), r; int64_t how = pick("form", 0, 3); if (how == 0) { t.fillMasked_(mask, x); r = t; } else if (how == 1) r = op::fillMasked(t, mask, x); else if (how == 2) { r = Tensor::full(IntArrayView(s), Scalar(1), opt(d)); op::fillMaskedOut(r, t, mask, x); } else { op::fillMaskedOut(t, t, mask, x); r = t; }
  checkLayout(r, s, "shape"); CHECK(r.dtype() == d, "type"); for (int64_t i = 0; i < n; i++) { CHECK(raw(r.template dataPtr<T>()[i]) == raw(m[i] ? f : v[i]), "exactly the selected elements change"); CHECK(raw(k.template dataPtr<T>()[i]) == raw(v[i]), "a clone is unchanged"); CHECK(mask.dataPtr<uint8_t>()[i] == m[i], "the mask is unchanged"); if (how == 1 || how == 2) CHECK(raw(t.template dataPtr<T>()[i]) == raw(v[i]), "the input is unchanged"); } END();
}
HARNESS(masked_f32) { begin(); masked<float>(DType::Float32); }
HARNESS(masked_i64) { begin(); masked<int64_t>(DType::Int64); }
HARNESS(masked_bool) { begin(); masked<uint8_t>(DType::Bool); }
HARNESS(masked_bad) { int64_t k = pick("wrong", 0, 2); begin(); Tensor t = mk(symFs("x", 4), {4}), m = k == 0 ? mk({1, 0, 1, 0}, {4}) : Tensor(std::vector<uint8_t>(k == 1 ? 3 : 4, 1), k == 1 ? IntArrayView({3}) : IntArrayView({2, 2})); bool in = pick("in place", 0, 1); sym_reach("end"); sym_trap_policy(1); if (in) t.fillMasked_(m, 1.f); else op::fillMasked(t, m, 1.f); CHECK(false, "a mask of another shape or type is refused"); }
// ---- ranges
template <class T> static void rangeInt(DType d, int64_t R) {
  static const int64_t st[] = {1, 2, 3, 5, 7, -1, -2, -3}; T a = (T)sym_i64("start", -R, R), b = (T)sym_i64("stop", -R, R), step = (T)st[pick("step", 0, 7)]; Tensor t = Tensor::arange<T>(a, b, step, opt(DType::Float32)); CHECK(t.dtype() == d, "type of the arguments"); CHECK(t.dim() == 1, "one dimension"); int64_t n = sym_concretize(t.numel()); const T* p = t.dataPtr<T>();
  for (int64_t i = 0; i < n; i++) { CHECK(p[i] == a + (T)i * step, "start, start+step, ..."); CHECK(step > 0 ? p[i] < b : p[i] > b, "below stop"); } T next = a + (T)n * step; CHECK(step > 0 ? next >= b : next <= b, "nothing is missing before stop"); END();
}
HARNESS(arange_i32) { begin(); rangeInt<int32_t>(DType::Int32, 5); }
HARNESS(arange_i64) { begin(); rangeInt<int64_t>(DType::Int64, 6); }
HARNESS(t_arange_i64) { begin(); rangeInt<int64_t>(DType::Int64, 40); }
HARNESS(arange_f32) {
  begin(); static const float st[] = {1, 0.5f, 2, 1.5f, -1, -0.5f}; float a = (float)sym_i32("start", -6, 6) * 0.25f, b = (float)sym_i32("stop", -6, 6) * 0.25f, step = st[pick("step", 0, 5)]; Tensor t = Tensor::arange<float>(a, b, step); CHECK(t.dtype() == DType::Float32 && t.dim() == 1, "type"); int64_t n = sym_concretize(t.numel()); const float* p = fp(t); for (int64_t i = 0; i < n; i++) { CHECK(p[i] == a + (float)i * step, "start, start+step, ..."); CHECK(step > 0 ? p[i] < b : p[i] > b, "below stop"); } float next = a + (float)n * step; CHECK(step > 0 ? next >= b : next <= b, "nothing is missing before stop"); END();
}
HARNESS(arange_default) { begin(); int64_t n = pick("n", 0, 9); Tensor t = Tensor::arange<float>(0.f, (float)n); checkLayout(t, {n}, "size"); for (int64_t i = 0; i < n; i++) CHECK(fp(t)[i] == (float)i, "counts up by one"); Tensor u = Tensor::arange<int64_t>(0, n, 1, options::dtype(DType::Float32).requiresGrad(false)); checkLayout(u, {n}, "size"); CHECK(u.dtype() == DType::Int64, "type"); for (int64_t i = 0; i < n; i++) CHECK(u.dataPtr<int64_t>()[i] == i, "counts up by one"); END(); }
HARNESS(linspace) { beginReal(); float a = sym_f32("start"), b = sym_f32("end"); int64_t n = pick("steps", 1, 20); Tensor t = Tensor::linspace<float>(a, b, n); Fs e; for (int64_t i = 0; i < n; i++) e.push_back(i ? a + (float)i * ((b - a) / (float)(n - 1)) : a); checkT(t, e, {n}, "evenly spaced"); if (n > 1) CHECKF(fp(t)[n - 1], b, "the last one is the end"); CHECKF(fp(t)[0], a, "the first one is the start"); END(); }
HARNESS(linspace_int) { begin(); int64_t n = pick("steps", 1, 17); int64_t a = sym_i64("start", -100, 100), k = sym_i64("step", -100, 100); Tensor t = Tensor::linspace<int64_t>(a, a + k * (n - 1), n); CHECK(t.dtype() == DType::Int64, "type"); checkLayout(t, {n}, "size"); for (int64_t i = 0; i < n; i++) CHECK(t.dataPtr<int64_t>()[i] == a + i * k, "evenly spaced"); END(); }
HARNESS(linspace_bad) { int64_t n = pick("steps", -1, 0); begin(); sym_reach("end"); sym_trap_policy(1); Tensor::linspace<float>(0.f, 1.f, n); CHECK(false, "no steps is refused"); }
HARNESS(fill_linspace) { beginReal(); float a = sym_f32("start"), s = sym_f32("step"); Sh sh = pickShape("size", 0, 2, 1, 3, 6); int64_t n = prod(sh); Tensor t = Tensor::zeros(IntArrayView(sh)), k = t.clone(); t.fillLinSpace_(a, s, n); Fs e; for (int64_t i = 0; i < n; i++) e.push_back(i ? a + (float)i * s : a); checkT(t, e, sh, "evenly spaced in row-major order"); checkVals(k, Fs(n, 0.f), "a clone is unchanged"); END(); }
HARNESS(fill_linspace_bad) { int64_t n = pick("steps", 0, 5); sym_assume(n != 4); begin(); Tensor t = Tensor::zeros(IntArrayView({2, 2})); sym_reach("end"); sym_trap_policy(1); t.fillLinSpace_(0.f, 1.f, n); CHECK(false, "another number of steps than elements is refused"); }
// ---- triangles of ones and shifted diagonals act as eye-like factories
HARNESS(eye_like) { begin(); int64_t n = pick("rows", 1, 3), m = pick("columns", 1, 3), k = pick("diagonal", -3, 3); Tensor o = Tensor::ones(IntArrayView({n, m})); Tensor e = o.tril(k).triu(k); checkLayout(e, {n, m}, "shape"); for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < m; j++) CHECK(fp(e)[i * m + j] == (j - i == k ? 1.f : 0.f), "ones on the diagonal only"); END(); }
HARNESS(default_options) {
  begin(); DType d = (DType)pick("type", 0, 5); setDefaultDType(d); Tensor t = Tensor::zeros(IntArrayView({2})); CHECK(t.dtype() == d && holds(t, Scalar(0)), "the default element type is used"); Tensor e = Tensor::ones(IntArrayView({2}), options::dtype(DType::Int32)); CHECK(e.dtype() == DType::Int32, "a given type wins"); setDefaultDType(DType::Float32); CHECK(Tensor::zeros(IntArrayView({1})).dtype() == DType::Float32, "back to the usual default"); Options o; CHECK(!o.requiresGrad_ && !o.pinnedMemory_, "no gradient unless asked"); Options g = Options().requiresGrad(); CHECK(g.requiresGrad_ && !g.noGrad().requiresGrad_ && g.indices().dtype_ == DType::Int64, "derived options"); END();
}
HARNESS(independent) { begin(); Tensor a = Tensor::ones(IntArrayView({3})), b = Tensor::ones(IntArrayView({3})); a.fill_(sym_f32("value")); CHECK(holds(b, Scalar(1.f)), "each factory call has its own storage"); Tensor z = Tensor::zerosLike(b); z.fill_(sym_f32("value")); CHECK(holds(b, Scalar(1.f)), "each factory call has its own storage"); END(); }
// longer tensors, and counts past 16 bits
HARNESS(wide) {
  begin(); static const int64_t N[] = {65, 300, 70000}; int64_t n = N[pick("size", 0, 2)]; DType d = (DType)pick("type", 0, 5); Tensor z = Tensor::zeros(IntArrayView({n}), opt(d)), o = Tensor::ones(IntArrayView({n}), opt(d)), f = Tensor::full(IntArrayView({n}), Scalar(5), opt(d)); CHECK(z.numel() == n && o.numel() == n && f.numel() == n, "size"); CHECK(holds(z, Scalar(0)) && holds(o, Scalar(1)) && holds(f, Scalar(5)), "contents"); z.fill_(Scalar(1)); CHECK(holds(z, Scalar(1)), "fill"); f.fillZero_(); CHECK(holds(f, Scalar(0)), "fill zero"); f.fillOne_(); CHECK(holds(f, Scalar(1)), "fill one"); END();
}
HARNESS(wide_range) {
  begin(); int64_t n = pick("count", 0, 1) ? 70000 : 300, a = sym_i64("start", -1000, 1000), k = pick("step", 0, 1) ? 3 : -2; Tensor t = Tensor::arange<int64_t>(a, a + k * n, k); checkLayout(t, {n}, "size"); bool ok = true; for (int64_t i = 0; i < n; i++) ok &= t.dataPtr<int64_t>()[i] == a + i * k; CHECK(ok, "start, start+step, ..."); END();
}
HARNESS(wide_arange_f32) { begin(); int64_t n = pick("count", 0, 1) ? 70000 : 300; Tensor t = Tensor::arange<float>(0.f, (float)n); checkLayout(t, {n}, "size"); bool ok = true; for (int64_t i = 0; i < n; i++) ok &= fp(t)[i] == (float)i; CHECK(ok, "counts up by one"); END(); }
HARNESS(wide_linspace) { beginReal(); float a = sym_f32("start"), s = sym_f32("step"); int64_t n = pick("steps", 0, 1) ? 300 : 33; Tensor t = Tensor::zeros(IntArrayView({n})); t.fillLinSpace_(a, s, n); for (int64_t i = 0; i < n; i++) CHECKF(fp(t)[i], a + (float)i * s, "evenly spaced"); Tensor u = Tensor::linspace<float>(a, a + s * (n - 1), n); checkLayout(u, {n}, "size"); for (int64_t i = 0; i < n; i++) CHECKF(fp(u)[i] * (n - 1), a * (n - 1) + (float)i * (s * (n - 1)), "evenly spaced"); END(); }
HARNESS(wide_masked) {
  begin(); int64_t n = pick("size", 0, 1) ? 300 : 70; Fs v = symFs("x", n); float f = sym_f32("value"); std::vector<uint8_t> m; for (int64_t i = 0; i < n; i++) m.push_back((i * 7 + 1) % 3 == 0); int64_t u = pick("free", 0, 1) ? n - 1 : n / 2; m[u] = sym_u8("mask"); Tensor t = mk(v, {n}), mask(m, IntArrayView({n})), r = op::fillMasked(t, mask, Scalar(f)), w = mk(v, {n}); w.fillMasked_(mask, Scalar(f));
  for (int64_t i = 0; i < n; i++) { CHECK(fbits(fp(r)[i]) == fbits(m[i] ? f : v[i]), "exactly the selected elements change"); CHECK(fbits(fp(w)[i]) == fbits(m[i] ? f : v[i]), "exactly the selected elements change"); } checkVals(t, v, "the input is unchanged"); END();
}
