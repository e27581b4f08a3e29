#include "common.h"
#include "Utils/Half.h"
#include "Utils/BFloat16.h"
template <class T> struct In;  // any value of the type; conversions with no defined result are kept out by fits()
template <> struct In<float> { static float any() { return sym_f32("x"); } };
template <> struct In<Half> { static Half any() { uint32_t h = sym_u16("x"); return Half((unsigned short)h, Half::from_bits()); } };
template <> struct In<BFloat16> { static BFloat16 any() { uint32_t h = sym_u16("x"); return BFloat16((unsigned short)h, BFloat16::from_bits()); } };
template <> struct In<int32_t> { static int32_t any() { return sym_i32("x", INT32_MIN, INT32_MAX); } };
template <> struct In<int64_t> { static int64_t any() { return sym_i64("x", INT64_MIN, INT64_MAX); } };
template <> struct In<uint8_t> { static uint8_t any() { return sym_u8("x"); } };
template <class T> static constexpr bool isF = std::is_same_v<T, float> || std::is_same_v<T, Half> || std::is_same_v<T, BFloat16>;
template <class S, class D> static void fits(S v) {
  if constexpr (isF<S> && !isF<D>) { float f = v; sym_assume(f == f); if (std::is_same_v<D, uint8_t>) sym_assume(f > -1.f && f < 256.f); else if (std::is_same_v<D, int32_t>) sym_assume(f >= -2147483648.f && f < 2147483648.f); else sym_assume(f >= -9223372036854775808.f && f < 9223372036854775808.f); }
}
template <class T> static uint64_t raw(T v) { uint64_t u = 0; memcpy(&u, &v, sizeof v); return u; }
// the same value: same bits, or both NaN
template <class T> static bool same(T a, T b) { if constexpr (isF<T>) { float x = a, y = b; return raw(a) == raw(b) || (x != x && y != y); } else return a == b; }
template <class S, class D> static void cast() {
  const int N = 2; std::vector<S> v; for (int i = 0; i < N; i++) { v.push_back(In<S>::any()); fits<S, D>(v[i]); } Sh s{1, N}; Tensor t(v, IntArrayView(s)); CHECK(t.dtype() == TypeToDType_v<S>, "element type of the list"); Tensor r = t.to(TypeToDType_v<D>); checkLayout(r, s, "shape of the cast"); CHECK(r.dtype() == TypeToDType_v<D>, "element type of the cast");
  const D* p = r.dataPtr<D>(); const S* q = t.dataPtr<S>(); for (int i = 0; i < N; i++) { CHECK(same<D>(p[i], static_cast<D>(v[i])), "value of the cast"); CHECK(raw(q[i]) == raw(v[i]), "the source is unchanged"); } CHECK(t.dtype() == TypeToDType_v<S>, "the source is unchanged");
  std::vector<D> l = t.toList<D>(); CHECK(l.size() == (size_t)N, "list length"); for (int i = 0; i < N; i++) CHECK(same<D>(l[i], static_cast<D>(v[i])), "list values");
  if constexpr (!std::is_same_v<S, D>) { D* w = r.dataPtr<D>(); w[0] = D(1); CHECK(raw(t.dataPtr<S>()[0]) == raw(v[0]), "the cast has its own storage"); }
}
template <class S> static void casts() { switch (pick("to", 0, 5)) { case 0: cast<S, float>(); break; case 1: cast<S, Half>(); break; case 2: cast<S, BFloat16>(); break; case 3: cast<S, int32_t>(); break; case 4: cast<S, int64_t>(); break; default: cast<S, uint8_t>(); } END(); }
HARNESS(cast_f32) { begin(); casts<float>(); }
HARNESS(cast_f16) { begin(); casts<Half>(); }
HARNESS(cast_bf16) { begin(); casts<BFloat16>(); }
HARNESS(cast_i32) { begin(); casts<int32_t>(); }
HARNESS(cast_i64) { begin(); casts<int64_t>(); }
HARNESS(cast_bool) { begin(); casts<uint8_t>(); }
HARNESS(longer) { begin(); int64_t n = pick("n", 3, TIER == 2 ? 70 : 20); bool back = pick("from int", 0, 1); if (back) { std::vector<int32_t> v; for (int64_t i = 0; i < n; i++) v.push_back(sym_i32("x", INT32_MIN, INT32_MAX)); Tensor t(v), r = t.to(DType::Int64); for (int64_t i = 0; i < n; i++) CHECK(r.dataPtr<int64_t>()[i] == (int64_t)v[i], "value of the cast"); auto l = t.toList<int64_t>(); for (int64_t i = 0; i < n; i++) CHECK(l[i] == (int64_t)v[i], "list values"); } else { Fs v = symFs("x", n); Tensor t(v), q = t.to(DType::Float16); for (int64_t i = 0; i < n; i++) { CHECK(same<Half>(q.dataPtr<Half>()[i], Half(v[i])), "value of the cast"); } } END(); }
// lossless round trips
HARNESS(round_trip) {
  begin(); switch (pick("via", 0, 3)) {
    case 0: { int32_t x = sym_i32("x", INT32_MIN, INT32_MAX); Tensor t(std::vector<int32_t>{x}); CHECK(t.to(DType::Int64).to(DType::Int32).item<int32_t>() == x && t.to(DType::Int64).item<int64_t>() == (int64_t)x, "int32 through int64"); break; }
    case 1: { uint8_t x = sym_u8("x"); Tensor t(std::vector<uint8_t>{x}); CHECK(t.to(DType::Float32).to(DType::Bool).item<uint8_t>() == x && t.to(DType::Int32).to(DType::Bool).item<uint8_t>() == x, "bool through wider types"); break; }
    case 2: { uint16_t h = sym_u16("x"); Half x(h, Half::from_bits()); Tensor t(std::vector<Half>{x}); CHECK(same<Half>(t.to(DType::Float32).to(DType::Float16).item<Half>(), x), "half through float"); break; }
    default: { uint16_t h = sym_u16("x"); BFloat16 x(h, BFloat16::from_bits()); Tensor t(std::vector<BFloat16>{x}); CHECK(same<BFloat16>(t.to(DType::Float32).to(DType::BFloat16).item<BFloat16>(), x), "bfloat16 through float"); } }
  END();
}
template <class T> static void sameType() { std::vector<T> v{In<T>::any(), In<T>::any()}; Tensor t(v); Tensor r = t.to(TypeToDType_v<T>); CHECK(r.dtype() == TypeToDType_v<T>, "type"); checkLayout(r, {2}, "shape"); for (int i = 0; i < 2; i++) CHECK(raw(r.dataPtr<T>()[i]) == raw(v[i]), "casting to the same type returns the same values"); Tensor d = t.to(Device(DeviceType::CPU)); for (int i = 0; i < 2; i++) CHECK(raw(d.dataPtr<T>()[i]) == raw(v[i]), "moving to the same device returns the same values"); }
HARNESS(same_type) { begin(); switch (pick("type", 0, 5)) { case 0: sameType<float>(); break; case 1: sameType<Half>(); break; case 2: sameType<BFloat16>(); break; case 3: sameType<int32_t>(); break; case 4: sameType<int64_t>(); break; default: sameType<uint8_t>(); } END(); }
// any shape, empty and scalar included
HARNESS(shapes) {
  begin(); Sh s = pickShape("size", 0, 3, 0, 2, 8); Fs v = symFs("x", prod(s)); for (float f : v) sym_assume(f > -1000.f && f < 1000.f); Tensor t = mk(v, s); DType d = (DType)pick("to", 0, 5); for (float f : v) if (d == DType::Bool) sym_assume(f > -1.f); if (d == DType::Bool) for (float f : v) sym_assume(f < 256.f); Tensor r = t.to(d); checkLayout(r, s, "shape of the cast"); CHECK(r.dtype() == d, "element type"); CHECK(t.dtype() == DType::Float32, "the source is unchanged"); checkVals(t, v, "the source is unchanged");
  for (size_t i = 0; i < v.size(); i++) { bool ok = d == DType::Float32 ? fbits(r.dataPtr<float>()[i]) == fbits(v[i]) : d == DType::Float16 ? raw(r.dataPtr<Half>()[i]) == raw(Half(v[i])) : d == DType::BFloat16 ? raw(r.dataPtr<BFloat16>()[i]) == raw(BFloat16(v[i])) : d == DType::Int32 ? r.dataPtr<int32_t>()[i] == (int32_t)v[i] : d == DType::Int64 ? r.dataPtr<int64_t>()[i] == (int64_t)v[i] : r.dataPtr<uint8_t>()[i] == (uint8_t)v[i]; CHECK(ok, "value of the cast"); } END();
}
HARNESS(gradient_flag) { begin(); bool rg = pick("requires grad", 0, 1); Tensor t = mk({1.f, 2.f}, {2}, rg); DType d = pick("to", 1, 2) == 1 ? DType::Float16 : DType::BFloat16; CHECK(t.to(d).requiresGrad() == rg, "options other than the type are kept"); CHECK(t.requiresGrad() == rg, "the source is unchanged"); END(); }
// ---- scalars
template <class S, class D> static void sc() { S v = In<S>::any(); fits<S, D>(v); Scalar s(v); CHECK(s.dtype() == TypeToDType_v<S>, "kind of the scalar"); CHECK(raw(s.to<S>()) == raw(v), "value of the scalar"); CHECK(same<D>(s.to<D>(), static_cast<D>(v)), "converted scalar"); Scalar c = s; CHECK(c.dtype() == s.dtype() && raw(c.to<S>()) == raw(v), "copied scalar"); CHECK(same<D>(s.to<TypeToDType_v<D>>(), static_cast<D>(v)), "converted by type name"); Tensor t = Tensor::scalar(s, options::dtype(TypeToDType_v<D>)); CHECK(t.isScalar() && t.numel() == 1 && t.dtype() == TypeToDType_v<D> && same<D>(t.item<D>(), static_cast<D>(v)), "scalar tensor"); }
template <class S> static void scs() { switch (pick("to", 0, 5)) { case 0: sc<S, float>(); break; case 1: sc<S, Half>(); break; case 2: sc<S, BFloat16>(); break; case 3: sc<S, int32_t>(); break; case 4: sc<S, int64_t>(); break; default: sc<S, uint8_t>(); } }
HARNESS(scalar_f32) { begin(); scs<float>(); END(); }
HARNESS(scalar_f16) { begin(); scs<Half>(); END(); }
HARNESS(scalar_bf16) { begin(); scs<BFloat16>(); END(); }
HARNESS(scalar_i32) { begin(); scs<int32_t>(); END(); }
HARNESS(scalar_i64) { begin(); scs<int64_t>(); END(); }
HARNESS(scalar_bool) { begin(); bool b = pick("b", 0, 1); Scalar s(b); CHECK(s.dtype() == DType::Bool, "kind of the scalar"); CHECK(s.to<bool>() == b && s.to<uint8_t>() == b && s.to<int32_t>() == b && s.to<int64_t>() == b && s.to<float>() == (b ? 1.f : 0.f) && (float)s.to<Half>() == (b ? 1.f : 0.f) && (float)s.to<BFloat16>() == (b ? 1.f : 0.f), "value of the scalar"); float f = sym_f32_range("f", -100, 100); CHECK(Scalar(f).to<bool>() == (f != 0), "truth value"); END(); }
// ---- item and lists
HARNESS(item) {
  begin(); Sh s = pickShape("size", 0, 3, 1, 1, 1); float f = sym_f32("f"); sym_assume(f > -1e6f && f < 1e6f); Tensor t = mk({f}, s); CHECK(fbits(t.item<float>()) == fbits(f) && t.item<int32_t>() == (int32_t)f && t.item<int64_t>() == (int64_t)f, "item is the stored value"); int64_t k = sym_i64("k", INT64_MIN, INT64_MAX); Tensor i(std::vector<int64_t>{k}, IntArrayView(s)); CHECK(i.item<int64_t>() == k && i.item<int32_t>() == (int32_t)k, "item is the stored value"); END();
}
HARNESS(item_many) { int64_t n = pick("n", 0, 3); sym_assume(n != 1); begin(); Tensor t = mk(symFs("x", n), {n}); sym_reach("end"); sym_trap_policy(1); t.item<float>(); CHECK(false, "item of a tensor that does not hold exactly one value is refused"); }
HARNESS(nested) {
  begin(); Fs v = symFs("x", 12); switch (pick("form", 0, 4)) {
    case 0: { Tensor t(v); checkT(t, v, {12}, "from a list"); break; }
    case 1: { Array2d<float> a{{v[0], v[1], v[2]}, {v[3], v[4], v[5]}}; Fs e(v.begin(), v.begin() + 6); checkT(Tensor(a), e, {2, 3}, "from a nested list"); break; }
    case 2: { Array3d<float> a{{{v[0], v[1], v[2]}, {v[3], v[4], v[5]}}, {{v[6], v[7], v[8]}, {v[9], v[10], v[11]}}}; checkT(Tensor(a), v, {2, 2, 3}, "from a nested list"); break; }
    case 3: { Sh s{3, 4}; Tensor t(v, IntArrayView(s)); Fs l = t.toList<float>(); CHECK(l.size() == 12, "list length"); for (int i = 0; i < 12; i++) CHECK(fbits(l[i]) == fbits(v[i]), "list values in row-major order"); break; }
    default: { Tensor t = mk(v, {4, 3}).permute(IntArrayView({1, 0})); Fs l = t.toList<float>(); CHECK(l.size() == 12, "list length"); for (int i = 0; i < 12; i++) CHECK(fbits(l[i]) == fbits(v[(i % 4) * 3 + i / 4]), "list values in row-major order of the tensor"); } }
  END();
}
HARNESS(wrong_size) { begin(); int64_t n = pick("values", 0, 3), m = pick("size", 0, 3); sym_assume(n != m); Fs v = symFs("x", n); sym_reach("end"); sym_trap_policy(1); mk(v, {m}); CHECK(false, "a list of another length than the shape is refused"); }
HARNESS(list_own) { begin(); Fs v = symFs("x", 2); Tensor t = mk(v, {2}); Fs l = t.toList<float>(); l[0] = 7; checkT(t, v, {2}, "the list is a copy"); Fs w = v; Tensor u = mk(w, {2}); w[0] = 9; checkT(u, v, {2}, "the tensor copies its list"); END(); }
HARNESS(sizes) { begin(); CHECK(dtypeSize(DType::Float32) == 4 && dtypeSize(DType::Float16) == 2 && dtypeSize(DType::BFloat16) == 2 && dtypeSize(DType::Int32) == 4 && dtypeSize(DType::Int64) == 8 && dtypeSize(DType::Bool) == 1, "element sizes"); DType d = (DType)pick("type", 0, 5); int64_t n = pick("n", 0, 5); Tensor t = Tensor::empty(IntArrayView({n}), options::dtype(d)); CHECK(t.nbytes() == n * (int64_t)dtypeSize(d) && t.numel() == n, "bytes of a tensor"); END(); }
template <class S, class D> static void wideCast(int64_t n) {
  std::vector<S> v; for (int64_t i = 0; i < n; i++) v.push_back(S((float)(i * 3 % 199) - (isF<S> || !std::is_same_v<S, uint8_t> ? (std::is_same_v<D, uint8_t> ? 0 : 90) : 0))); v[n - 1] = In<S>::any(); fits<S, D>(v[n - 1]); Tensor t(v, IntArrayView({n})), r = t.to(TypeToDType_v<D>); checkLayout(r, {n}, "shape of the cast"); CHECK(r.dtype() == TypeToDType_v<D>, "element type of the cast"); for (int64_t i = 0; i < n; i++) CHECK(same<D>(r.dataPtr<D>()[i], static_cast<D>(v[i])), "value of the cast"); END();
}
template <class S> static void wideCasts() { int64_t n = pick("n", 0, 1) ? 130 : 33; switch (pick("to", 0, 5)) { case 0: wideCast<S, float>(n); break; case 1: wideCast<S, Half>(n); break; case 2: wideCast<S, BFloat16>(n); break; case 3: wideCast<S, int32_t>(n); break; case 4: wideCast<S, int64_t>(n); break; default: wideCast<S, uint8_t>(n); } }
HARNESS(wide) { begin(); switch (pick("from", 0, 5)) { case 0: wideCasts<float>(); break; case 1: wideCasts<Half>(); break; case 2: wideCasts<BFloat16>(); break; case 3: wideCasts<int32_t>(); break; case 4: wideCasts<int64_t>(); break; default: wideCasts<uint8_t>(); } }
