#include "common.h"
#include "Utils/Half.h"
#include "Utils/BFloat16.h"
#include <limits>
// ---- reference conversions in integer arithmetic only
static uint32_t halfOf(uint32_t u) {
  uint32_t s = (u >> 16) & 0x8000, a = u & 0x7fffffff, e = a >> 23, m = a & 0x7fffff; if (a > 0x7f800000) return s | 0x7e00; if (e >= 143) return s | 0x7c00;
  if (e >= 113) { uint32_t r = ((e - 112) << 10) | (m >> 13), rest = m & 0x1fff; return s | (r + (rest > 0x1000 || (rest == 0x1000 && (r & 1)))); }
  if (e < 102) return s; uint32_t full = m | 0x800000, k = 126 - e, r = full >> k, rest = full & ((1u << k) - 1), half = 1u << (k - 1); return s | (r + (rest > half || (rest == half && (r & 1))));
}
static uint32_t floatOfHalf(uint32_t h) {
  uint32_t s = (h & 0x8000) << 16, e = (h >> 10) & 31, m = h & 1023; if (e == 31) return s | 0x7f800000 | (m << 13); if (e) return s | ((e + 112) << 23) | (m << 13); if (!m) return s;
  uint32_t k = 0; for (uint32_t i = 0; i < 10; i++) if ((m >> i) & 1) k = i; return s | ((k + 103) << 23) | ((m << (23 - k)) & 0x7fffff);
}
static float bf(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static bool nan32(uint32_t u) { return (u & 0x7fffffff) > 0x7f800000; }
// one path per exponent: the sign and every mantissa are symbolic
static uint32_t anyFloat(int64_t lo, int64_t hi) { uint32_t e = (uint32_t)pick("exponent", lo, hi), m = sym_u32("mantissa"); sym_assume(m < 0x800000); return (sym_u8("sign") & 1 ? 0x80000000u : 0u) | (e << 23) | m; }
static void toHalf(int64_t lo, int64_t hi) {
  begin(); uint32_t e = (uint32_t)pick("exponent", lo, hi), m = sym_u32("mantissa"), s = sym_u32("sign"); sym_assume(m < 0x800000 && s <= 1); uint32_t u = (s << 31) | (e << 23) | m; uint32_t r = Half(bf(u)).x, x = halfOf(u);
  if (e == 255) { CHECK((r & 0x7c00) == 0x7c00, "infinities and NaN stay special"); CHECK(((r & 1023) != 0) == (m != 0), "NaN stays NaN and infinity infinity"); if (sym_fork(m == 0)) CHECK(r == x, "the sign of infinity"); } else CHECK(r == x, "nearest half, ties to even");
  END();
}
HARNESS(half_tiny) { toHalf(0, 101); }
HARNESS(half_subnormal) { toHalf(102, 112); }
HARNESS(half_normal) { toHalf(113, 142); }
HARNESS(half_large) { toHalf(143, 255); }
HARNESS(half_back) {
  begin(); uint32_t e = (uint32_t)pick("exponent", 0, 31), m = sym_u32("mantissa"), s = sym_u32("sign"); sym_assume(m < 1024 && s <= 1); uint32_t h = (s << 15) | (e << 10) | m; Half x((unsigned short)h, Half::from_bits()); uint32_t f = fbits((float)x);
  if (e == 31) { CHECK((f & 0x7f800000) == 0x7f800000 && ((f & 0x7fffff) != 0) == (m != 0), "infinities and NaN stay special"); if (sym_fork(m == 0)) CHECK(f >> 31 == s, "sign"); } else CHECK(f == floatOfHalf(h), "half to float is exact"); END();
}
HARNESS(half_roundtrip) { begin(); uint32_t e = (uint32_t)pick("exponent", 0, 31), m = sym_u32("mantissa"), s = sym_u32("sign"); sym_assume(m < 1024 && s <= 1); uint32_t h = (s << 15) | (e << 10) | m; sym_assume(e != 31 || m == 0); CHECK(Half((float)Half((unsigned short)h, Half::from_bits())).x == h, "a round trip returns the same bits"); END(); }
// the bit-level conversion gives the same as the arithmetic one
HARNESS(half_bits) { begin(); uint32_t e = (uint32_t)pick("exponent", 0, 31), m = sym_u32("mantissa"), s = sym_u32("sign"); sym_assume(m < 1024 && s <= 1 && (e != 31 || m == 0)); uint32_t h = (s << 15) | (e << 10) | m; sym_assume((h & 0x7fff) != 0); CHECK(detail::fp16_ieee_to_fp32_bits((uint16_t)h) == floatOfHalf(h), "bit-level conversion"); END(); }
HARNESS(bf16_from) {
  begin(); uint32_t u = sym_u32("bits"); uint32_t r = BFloat16(bf(u)).x; if (sym_fork(nan32(u))) CHECK((r & 0x7f80) == 0x7f80 && (r & 0x7f) != 0, "NaN stays NaN"); else { uint32_t lo = u & 0xffff, q = u >> 16; CHECK(r == q + (lo > 0x8000 || (lo == 0x8000 && (q & 1))), "nearest bfloat16, ties to even"); } END();
}
HARNESS(bf16_back) { begin(); uint32_t h = sym_u32("bits"); sym_assume(h < 65536); BFloat16 x((unsigned short)h, BFloat16::from_bits()); CHECK(fbits((float)x) == h << 16, "bfloat16 to float is exact"); bool nan = nan32(h << 16); uint32_t r = BFloat16((float)x).x; CHECK(nan || r == h, "a round trip returns the same bits"); CHECK(!nan || nan32(r << 16), "NaN stays NaN"); END(); }
// ---- arithmetic and comparison: as in float, rounded once
template <class T> static T anyOf(const char* n) { uint32_t h = sym_u32(n); sym_assume(h < 65536); return T((unsigned short)h, T::from_bits()); }
template <class T> static void same(T r, float f, const char* m) { CHECK(r.x == T(f).x, m); }
template <class T> static void arith() {
  begin(); T a = anyOf<T>("a"), b = anyOf<T>("b"); float p = a, q = b;
  switch (pick("op", 0, 8)) {
    case 0: same<T>(a + b, p + q, "+"); { T c = a; c += b; same<T>(c, p + q, "+="); } break;
    case 1: same<T>(a - b, p - q, "-"); { T c = a; c -= b; same<T>(c, p - q, "-="); } break;
    case 2: same<T>(a * b, p * q, "*"); { T c = a; c *= b; same<T>(c, p * q, "*="); } break;
    case 3: same<T>(a / b, p / q, "/"); { T c = a; c /= b; same<T>(c, p / q, "/="); } break;
    case 4: same<T>(-a, -p, "negation"); break;
    case 5: { float f = sym_f32("f"); CHECK(fbits(a + f) == fbits(p + f) && fbits(a - f) == fbits(p - f) && fbits(a * f) == fbits(p * f) && fbits(a / f) == fbits(p / f), "with a float on the right"); break; }
    case 6: { float f = sym_f32("f"); CHECK(fbits(f + a) == fbits(f + p) && fbits(f - a) == fbits(f - p) && fbits(f * a) == fbits(f * p) && fbits(f / a) == fbits(f / p), "with a float on the left"); break; }
    case 7: { float f = sym_f32("f"), g = f, h = f, k = f; float l = f; g += a; h -= a; k *= a; l /= a; CHECK(fbits(g) == fbits(f + p) && fbits(h) == fbits(f - p) && fbits(k) == fbits(f * p) && fbits(l) == fbits(f / p), "in place on a float"); break; }
    default: CHECK((a < b) == (p < q) && (a > b) == (p > q) && (a <= b) == (p <= q) && (a >= b) == (p >= q) && (a == b) == (p == q) && (a != b) == (p != q), "comparisons");
  }
  END();
}
HARNESS(half_arith) { arith<Half>(); }
HARNESS(bf16_arith) { arith<BFloat16>(); }
static uint64_t dbits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
template <class T> static void mixed() {
  begin(); T a = anyOf<T>("a"); float p = a;
  if (pick("with", 0, 1)) { double d = sym_f64("d"), P = p; CHECK(dbits(a + d) == dbits(P + d) && dbits(a - d) == dbits(P - d) && dbits(a * d) == dbits(P * d) && dbits(a / d) == dbits(P / d), "with a double on the right"); CHECK(dbits(d + a) == dbits(d + P) && dbits(d - a) == dbits(d - P) && dbits(d * a) == dbits(d * P) && dbits(d / a) == dbits(d / P), "with a double on the left"); }
  else if (pick("wide", 0, 1)) { int64_t i = sym_i64("i", -4000, 4000); float q = T((float)i); same<T>(a + i, p + q, "with an integer"); same<T>(a - i, p - q, "with an integer"); same<T>(a * i, p * q, "with an integer"); same<T>(a / i, p / q, "with an integer"); same<T>(i + a, q + p, "with an integer"); same<T>(i - a, q - p, "with an integer"); same<T>(i * a, q * p, "with an integer"); same<T>(i / a, q / p, "with an integer"); }
  else { int i = sym_i32("i", -4000, 4000); float q = T((float)i); same<T>(a + i, p + q, "with an integer"); same<T>(a - i, p - q, "with an integer"); same<T>(a * i, p * q, "with an integer"); same<T>(a / i, p / q, "with an integer"); same<T>(i + a, q + p, "with an integer"); same<T>(i - a, q - p, "with an integer"); same<T>(i * a, q * p, "with an integer"); same<T>(i / a, q / p, "with an integer"); }
  END();
}
HARNESS(half_mixed) { mixed<Half>(); }
HARNESS(bf16_mixed) { mixed<BFloat16>(); }
HARNESS(limits) {
  begin(); typedef std::numeric_limits<Half> H; typedef std::numeric_limits<BFloat16> B; CHECK((float)H::max() == 65504.f && (float)H::lowest() == -65504.f && (float)H::min() == 6.103515625e-05f && (float)H::epsilon() == 0.0009765625f && (float)H::denorm_min() == 5.9604644775390625e-08f && (float)H::infinity() == std::numeric_limits<float>::infinity(), "half limits"); 
  CHECK(H::is_specialized && H::is_signed && !H::is_integer && !H::is_exact && H::is_bounded && H::has_infinity && H::has_quiet_NaN && H::radix == 2 && H::digits == 11 && H::digits10 == 3 && H::max_digits10 == 5 && H::min_exponent == -13 && H::min_exponent10 == -4 && H::max_exponent == 16 && H::max_exponent10 == 4, "half: kind and sizes");
  CHECK(B::is_specialized && B::is_signed && !B::is_integer && !B::is_exact && B::is_bounded && B::has_infinity && B::has_quiet_NaN && B::radix == 2 && B::digits == 8 && B::digits10 == 2 && B::max_digits10 == 4 && B::min_exponent == -125 && B::min_exponent10 == -37 && B::max_exponent == 128 && B::max_exponent10 == 38, "bfloat16: kind and sizes");
  float n = H::quiet_NaN(); CHECK(n != n, "half NaN");
  CHECK(fbits(B::max()) == 0x7f7f0000 && fbits(B::lowest()) == 0xff7f0000 && fbits(B::min()) == 0x00800000 && (float)B::epsilon() == 0.0078125f && fbits(B::denorm_min()) == 0x10000 && (float)B::infinity() == std::numeric_limits<float>::infinity(), "bfloat16 limits"); float m = B::quiet_NaN(); CHECK(m != m, "bfloat16 NaN"); END();
}
// ---- in tensors: stored as the rounded value, read back exactly, arithmetic rounded once per element
template <class T> static void tensors(DType dt) {
  begin(); Fs v = symFs("x", 2); Tensor t = mk(v, {2}).to(dt); CHECK(t.dtype() == dt, "type"); const T* p = t.dataPtr<T>(); for (int i = 0; i < 2; i++) CHECK(p[i].x == T(v[i]).x, "stored rounded to nearest"); Tensor b = t.to(DType::Float32); for (int i = 0; i < 2; i++) CHECK(fbits(fp(b)[i]) == fbits((float)T(v[i])), "read back exactly"); Tensor s = t + t; const T* q = s.dataPtr<T>(); CHECK(s.dtype() == dt, "type"); (void)q; END();
}
HARNESS(half_tensor) { tensors<Half>(DType::Float16); }
HARNESS(bf16_tensor) { tensors<BFloat16>(DType::BFloat16); }
