#include "common.h"
#include "Operations.h"
#include "Functions.h"
#include <cmath>
#include <functional>
// one symbolic element per operand; every form of an operation must give the defining value
template <class T> static DType dt() { return TypeToDType_v<T>; }
template <class T> static Tensor one(T v) { return Tensor(std::vector<T>{v}, IntArrayView{1}, options::dtype(dt<T>())); }
static void eq(float a, float b, const char* m) { CHECKF(a, b, m); }
template <class T> static uint16_t bits16(T v) { uint16_t u; memcpy(&u, &v, 2); return u; }
static bool nan16h(uint16_t u) { return (u & 0x7fff) > 0x7c00; }
static bool nan16b(uint16_t u) { return (u & 0x7fff) > 0x7f80; }
static void eq(Half a, Half b, const char* m) { uint16_t x = bits16(a), y = bits16(b); CHECK((x == y) | (nan16h(x) & nan16h(y)), m); }
static void eq(BFloat16 a, BFloat16 b, const char* m) { uint16_t x = bits16(a), y = bits16(b); CHECK((x == y) | (nan16b(x) & nan16b(y)), m); }
static void eq(int64_t a, int64_t b, const char* m) { CHECK(a == b, m); }
static void eq(uint8_t a, uint8_t b, const char* m) { CHECK(a == b, m); }
template <class T> struct In;
template <> struct In<float> { static float get(const char* n) { return sym_f32(n); } };
template <> struct In<Half> { static Half get(const char* n) { uint16_t u = sym_u16(n); Half h; memcpy(&h, &u, 2); return h; } };
template <> struct In<BFloat16> { static BFloat16 get(const char* n) { uint16_t u = sym_u16(n); BFloat16 h; memcpy(&h, &u, 2); return h; } };
template <> struct In<int64_t> { static int64_t get(const char* n) { return (int64_t)sym_u64(n); } };
template <> struct In<uint8_t> { static uint8_t get(const char* n) { return sym_u8(n); } };
template <class T> static T at(const Tensor& t) { return t.dataPtr<T>()[0]; }

template <class T, class A, class O, class I> static void un(T v, T want, A alloc, O out, I inpl, const char* m) {
  Tensor x = one<T>(v), o = one<T>(T()), z = one<T>(v);
  Tensor r = alloc(x); CHECK(r.dtype() == dt<T>(), m); eq(at<T>(r), want, m);
  out(o, x); eq(at<T>(o), want, m);
  inpl(z); eq(at<T>(z), want, m);
  eq(at<T>(x), v, "operand unchanged");
}
#define UN(name, v, want) un<T>(v, want, [](const Tensor& x) { return op::name(x); }, [](Tensor& o, const Tensor& x) { op::name##Out(o, x); }, [](Tensor& x) { op::name##Inplace(x); }, #name)
template <class T> static void unaryDirect(int k) {
  T v = In<T>::get("v");
  switch (k) {
    case 0: UN(abs, v, T(std::abs(v))); break;
    case 1: UN(neg, v, T(-v)); break;
    case 2: UN(sqrt, v, T(std::sqrt(v))); break;
    case 3: UN(square, v, T(v * v)); break;
    case 4: UN(exp, v, T(std::exp(v))); break;
    case 5: UN(log, v, T(std::log(v))); break;
    case 6: UN(sin, v, T(std::sin(v))); break;
    case 7: UN(cos, v, T(std::cos(v))); break;
    case 8: UN(tanh, v, T(std::tanh(v))); break;
    case 9: sym_assume(v == v); UN(relu, v, v > T(0) ? v : T(0)); break;
    case 10: sym_assume(v == v); UN(sign, v, v > T(0) ? T(1) : v < T(0) ? T(-1) : T(0)); break;
  }
  END();
}
HARNESS(unary_f32) { begin(); unaryDirect<float>((int)pick("op", 0, 10)); }
HARNESS(unary_f16) { begin(); unaryDirect<Half>((int)pick("op", 0, 10)); }
HARNESS(unary_bf16) { begin(); unaryDirect<BFloat16>((int)pick("op", 0, 10)); }
// sign, absolute value and relu in terms of the bits, independent of the library's arithmetic
HARNESS(unary_f32_bits) {
  begin();
  float v = sym_f32("v"); uint32_t b = fbits(v);
  bool nan = (b & 0x7fffffff) > 0x7f800000; sym_assume(!nan);
  bool zero = (b & 0x7fffffff) == 0, neg = b >> 31;
  CHECK(fbits(at<float>(op::abs(one<float>(v)))) == (b & 0x7fffffff), "abs clears the sign");
  CHECK(fbits(at<float>(op::neg(one<float>(v)))) == (b ^ 0x80000000u), "neg flips the sign");
  CHECK(at<float>(op::sign(one<float>(v))) == (zero ? 0.f : neg ? -1.f : 1.f), "sign");
  float r = at<float>(op::relu(one<float>(v)));
  CHECK(zero || neg ? r == 0.f : fbits(r) == b, "relu");
  END();
}
HARNESS(activations) {
  beginReal();
  using T = float; float v = sym_f32("v");
  int k = (int)pick("op", 0, 2);
  float th = std::tanh(0.7978845608f * (v + 0.044715f * v * v * v));
  if (k == 0) UN(sigmoid, v, 1 / (1 + std::exp(-v)));
  if (k == 1) UN(silu, v, v / (1 + std::exp(-v)));
  if (k == 2) UN(gelu, v, 0.5f * v * (1 + th));
  END();
}
// far from zero the activations saturate, they neither overflow nor turn into NaN; near zero they keep their relative accuracy
HARNESS(activations_extreme) {
  begin();
  static const float at[] = {0.f, 1e-6f, 0.5f, 3.f, 9.f, 20.f, 50.f, 88.f, 89.f, 100.f, 710.f, 1e4f}; float a = at[pick("at", 0, 11)], v = pick("neg", 0, 1) ? -a : a; int k = (int)pick("op", 0, 4), form = (int)pick("form", 0, 1); double w = 0;
  Tensor x = one<float>(v), r;
  if (k == 0) { r = form ? x : op::sigmoid(x); if (form) op::sigmoidInplace(r); w = 1 / (1 + std::exp(-(double)v)); }
  if (k == 1) { r = form ? x : op::silu(x); if (form) op::siluInplace(r); w = v / (1 + std::exp(-(double)v)); }
  if (k == 2) { r = form ? x : op::gelu(x); if (form) op::geluInplace(r); double q = v; w = 0.5 * q * (1 + std::tanh(0.7978845608028654 * (q + 0.044715 * q * q * q))); }
  if (k == 3) { r = form ? x : op::tanh(x); if (form) op::tanhInplace(r); w = std::tanh((double)v); }
  if (k == 4) { Tensor two = mk({v, 2.f}, {1, 2}); r = form ? op::siluMul(two) : function::siluMul(two); w = 2 * v / (1 + std::exp(-(double)v)); }
  float g = r.dataPtr<float>()[0]; CHECK(g == g && std::fabs(g - w) <= 1e-6 + 1e-5 * std::fabs(w), "activation far from zero"); END();
}
// several elements: each result depends on its own element only
HARNESS(many_elements) {
  begin();
  Fs v = symFs("v", 7); Sh s = {7};
  int k = (int)pick("op", 0, 5);
  Tensor x = mk(v, s), r, z = mk(v, s), o = Tensor::zeros({7});
  if (k == 0) { r = op::neg(x); op::negInplace(z); op::negOut(o, x); }
  if (k == 1) { r = op::exp(x); op::expInplace(z); op::expOut(o, x); }
  if (k == 2) { r = op::square(x); op::squareInplace(z); op::squareOut(o, x); }
  if (k == 3) { r = op::sqrt(x); op::sqrtInplace(z); op::sqrtOut(o, x); }
  if (k == 4) { r = op::abs(x); op::absInplace(z); op::absOut(o, x); }
  if (k == 5) { r = op::log(x); op::logInplace(z); op::logOut(o, x); }
  for (int i = 0; i < 7; i++) {
    float w = k == 0 ? -v[i] : k == 1 ? std::exp(v[i]) : k == 2 ? v[i] * v[i] : k == 3 ? std::sqrt(v[i]) : k == 4 ? std::fabs(v[i]) : std::log(v[i]);
    CHECKF(fp(r)[i], w, "element"); CHECKF(fp(z)[i], w, "element (in place)"); CHECKF(fp(o)[i], w, "element (out)");
  }
  checkT(x, v, s, "operand unchanged");
  END();
}
template <class T, class A, class O, class I> static void bin(T a, T b, T want, A alloc, O out, I inpl, const char* m) {
  Tensor x = one<T>(a), y = one<T>(b), o = one<T>(T()), z = one<T>(a);
  Tensor r = alloc(x, y); CHECK(r.dtype() == dt<T>(), m); eq(at<T>(r), want, m);
  out(o, x, y); eq(at<T>(o), want, m);
  inpl(z, y); eq(at<T>(z), want, m);
  eq(at<T>(x), a, "left operand unchanged"); eq(at<T>(y), b, "right operand unchanged");
}
#define BIN(name, want) bin<T>(a, b, want, [](const Tensor& x, const Tensor& y) { return op::name(x, y); }, [](Tensor& o, const Tensor& x, const Tensor& y) { op::name##Out(o, x, y); }, [](Tensor& x, const Tensor& y) { op::name##Inplace(x, y); }, #name)
#define BINA(name, want, al) bin<T>(a, b, want, [&](const Tensor& x, const Tensor& y) { return op::name(x, y, al); }, [&](Tensor& o, const Tensor& x, const Tensor& y) { op::name##Out(o, x, y, al); }, [&](Tensor& x, const Tensor& y) { op::name##Inplace(x, y, al); }, #name)
#define BIN2(name, want) bin<T>(a, b, want, [](const Tensor& x, const Tensor& y) { return op::name(x, y); }, [](Tensor& o, const Tensor& x, const Tensor& y) { op::name##Out(o, x, y); }, [](Tensor& x, const Tensor& y) { x = op::name(x, y); }, #name)
template <class T> static void binaryDirect(int k) {
  T a = In<T>::get("a"), b = In<T>::get("b");
  if (k <= 1) { T al = In<T>::get("alpha"); Scalar s(al); if (k == 0) BINA(add, T(a + al * b), s); else BINA(sub, T(a - al * b), s); END(); return; }
  switch (k) {
    case 2: BIN(mul, T(a * b)); break;
    case 3: BIN(div, T(a / b)); break;
    case 4: BIN(pow, T(std::pow(a, b))); break;
    case 5: sym_assume(a == a && b == b); BIN2(maximum, a < b ? b : a); break;
    case 6: sym_assume(a == a && b == b); BIN2(minimum, b < a ? b : a); break;
    case 7: sym_assume(a == a && b == b); BIN(clampMin, a < b ? b : a); break;
    case 8: sym_assume(a == a && b == b); BIN(clampMax, a > b ? b : a); break;
  }
  END();
}
HARNESS(binary_f32) { begin(); binaryDirect<float>((int)pick("op", 0, 8)); }
HARNESS(binary_f16) { begin(); binaryDirect<Half>((int)pick("op", 0, 8)); }
HARNESS(binary_bf16) { begin(); binaryDirect<BFloat16>((int)pick("op", 0, 8)); }
HARNESS(binary_i64) {
  begin();
  using T = int64_t; T a = In<T>::get("a"), b = In<T>::get("b");
  BIN2(maximum, a < b ? b : a); BIN2(minimum, b < a ? b : a); BIN(clampMin, a < b ? b : a); BIN(clampMax, a > b ? b : a);
  END();
}
HARNESS(binary_bool) {
  begin();
  using T = uint8_t; T a = In<T>::get("a"), b = In<T>::get("b");
  BIN(logicAnd, T(a && b ? 1 : 0)); BIN(logicOr, T(a || b ? 1 : 0)); UN(logicNot, a, T(a ? 0 : 1));
  Tensor x = one<T>(a), y = one<T>(b);
  CHECK(at<T>(x & y) == (a && b ? 1 : 0), "operator &"); CHECK(at<T>(x | y) == (a || b ? 1 : 0), "operator |"); CHECK(at<T>(~x) == (a ? 0 : 1), "operator ~");
  END();
}
template <class T> static void compare() {
  T a = In<T>::get("a"), b = In<T>::get("b");
  Tensor x = one<T>(a), y = one<T>(b), s = Tensor::scalar(Scalar(b), options::dtype(dt<T>()));
  bool w[6] = {a < b, a <= b, a > b, a >= b, a == b, a != b};
  for (int k = 0; k < 6; k++) {
    Tensor r, p, q;
    if (k == 0) { r = op::lt(x, y); p = x < y; q = x < Scalar(b); }
    if (k == 1) { r = op::le(x, y); p = x <= y; q = x <= Scalar(b); }
    if (k == 2) { r = op::gt(x, y); p = x > y; q = x > Scalar(b); }
    if (k == 3) { r = op::ge(x, y); p = x >= y; q = x >= Scalar(b); }
    if (k == 4) { r = op::eq(x, y); p = x == y; q = x == Scalar(b); }
    if (k == 5) { r = op::ne(x, y); p = x != y; q = x != Scalar(b); }
    CHECK(r.dtype() == DType::Bool && p.dtype() == DType::Bool && q.dtype() == DType::Bool, "comparison gives Bool");
    CHECK((at<uint8_t>(r) == 1) == w[k] && at<uint8_t>(r) <= 1, "comparison");
    CHECK((at<uint8_t>(p) == 1) == w[k], "comparison operator"); CHECK((at<uint8_t>(q) == 1) == w[k], "comparison with a scalar");
  }
  END();
}
HARNESS(compare_f32) { begin(); compare<float>(); }
HARNESS(compare_i64) { begin(); compare<int64_t>(); }
HARNESS(compare_f16) { begin(); compare<Half>(); }
HARNESS(compare_bf16) { begin(); compare<BFloat16>(); }
// IEEE comparison decided on the bits
HARNESS(compare_f32_bits) {
  begin();
  float a = sym_f32("a"), b = sym_f32("b"); uint32_t u = fbits(a), v = fbits(b);
  bool nan = (u & 0x7fffffff) > 0x7f800000 || (v & 0x7fffffff) > 0x7f800000;
  int64_t ka = u >> 31 ? -(int64_t)(u & 0x7fffffff) : (int64_t)u, kb = v >> 31 ? -(int64_t)(v & 0x7fffffff) : (int64_t)v;
  Tensor x = one<float>(a), y = one<float>(b);
  CHECK(at<uint8_t>(op::lt(x, y)) == (!nan && ka < kb), "lt"); CHECK(at<uint8_t>(op::le(x, y)) == (!nan && ka <= kb), "le");
  CHECK(at<uint8_t>(op::gt(x, y)) == (!nan && ka > kb), "gt"); CHECK(at<uint8_t>(op::ge(x, y)) == (!nan && ka >= kb), "ge");
  CHECK(at<uint8_t>(op::eq(x, y)) == (!nan && ka == kb), "eq"); CHECK(at<uint8_t>(op::ne(x, y)) == (nan || ka != kb), "ne");
  END();
}
HARNESS(clamp3) {
  begin();
  float a = sym_f32("a"), lo = sym_f32("lo"), hi = sym_f32("hi");
  sym_assume(a == a && lo <= hi);
  float w = a < lo ? lo : a > hi ? hi : a;
  Tensor x = one<float>(a), l = one<float>(lo), h = one<float>(hi), o = one<float>(0.f), z = one<float>(a);
  CHECKF(at<float>(op::clamp(x, l, h)), w, "clamp"); op::clampOut(o, x, l, h); CHECKF(at<float>(o), w, "clamp (out)"); op::clampInplace(z, l, h); CHECKF(at<float>(z), w, "clamp (in place)");
  CHECK(at<float>(z) >= lo && at<float>(z) <= hi, "clamp result within bounds");
  END();
}
HARNESS(addcmul) {
  beginReal();
  float a = sym_f32("a"), b = sym_f32("b"), c = sym_f32("c"), k = sym_f32("k"), w = a + k * b * c;
  Tensor x = one<float>(a), l = one<float>(b), h = one<float>(c), o = one<float>(0.f), z = one<float>(a);
  CHECKF(at<float>(op::addcmul(x, l, h, Scalar(k))), w, "addcmul"); op::addcmulOut(o, x, l, h, Scalar(k)); CHECKF(at<float>(o), w, "addcmul (out)"); op::addcmulInplace(z, l, h, Scalar(k)); CHECKF(at<float>(z), w, "addcmul (in place)");
  END();
}
// operators on tensors and scalars agree with the definition, in both operand orders
HARNESS(operators) {
  beginReal();
  Fs v = symFs("v", 3), u = symFs("u", 3); Sh s = {3}; float c = sym_f32("c");
  int k = (int)pick("op", 0, 3);
  Tensor x = mk(v, s), y = mk(u, s), r, xs, sx, i1 = mk(v, s), i2 = mk(v, s);
  auto f = [&](float a, float b) { return k == 0 ? a + b : k == 1 ? a - b : k == 2 ? a * b : a / b; };
  if (k == 0) { r = x + y; xs = x + Scalar(c); sx = Scalar(c) + x; i1 += y; i2 += Scalar(c); }
  if (k == 1) { r = x - y; xs = x - Scalar(c); sx = Scalar(c) - x; i1 -= y; i2 -= Scalar(c); }
  if (k == 2) { r = x * y; xs = x * Scalar(c); sx = Scalar(c) * x; i1 *= y; i2 *= Scalar(c); }
  if (k == 3) { r = x / y; xs = x / Scalar(c); sx = Scalar(c) / x; i1 /= y; i2 /= Scalar(c); }
  Fs wr, wxs, wsx; for (int i = 0; i < 3; i++) { wr.push_back(f(v[i], u[i])); wxs.push_back(f(v[i], c)); wsx.push_back(f(c, v[i])); }
  checkT(r, wr, s, "tensor op tensor"); checkT(xs, wxs, s, "tensor op scalar"); checkT(sx, wsx, s, "scalar op tensor"); checkT(i1, wr, s, "assignment with tensor"); checkT(i2, wxs, s, "assignment with scalar");
  checkT(x, v, s, "operand unchanged"); checkT(y, u, s, "operand unchanged");
  END();
}
HARNESS(methods) {
  begin();
  Fs v = symFs("v", 3), u = symFs("u", 3); Sh s = {3}; float c = sym_f32("c");
  for (int i = 0; i < 3; i++) sym_assume(v[i] == v[i] && u[i] == u[i]);
  Tensor x = mk(v, s), y = mk(u, s);
  Tensor a = x.sin(), b = x.cos(), d = x.sqrt(), e = x.pow(Scalar(c)), g = x.pow(y), mx = Tensor::maximum(x, y), mn = Tensor::minimum(x, y);
  for (int i = 0; i < 3; i++) {
    CHECKF(fp(a)[i], std::sin(v[i]), "sin"); CHECKF(fp(b)[i], std::cos(v[i]), "cos"); CHECKF(fp(d)[i], std::sqrt(v[i]), "sqrt");
    CHECKF(fp(e)[i], std::pow(v[i], c), "pow scalar"); CHECKF(fp(g)[i], std::pow(v[i], u[i]), "pow tensor");
    CHECK(fp(mx)[i] >= v[i] && fp(mx)[i] >= u[i] && (fp(mx)[i] == v[i] || fp(mx)[i] == u[i]), "maximum");
    CHECK(fp(mn)[i] <= v[i] && fp(mn)[i] <= u[i] && (fp(mn)[i] == v[i] || fp(mn)[i] == u[i]), "minimum");
  }
  END();
}
// integer, bool and 16-bit scalars take part in float arithmetic with their value
HARNESS(int_scalars) {
  beginReal();
  float v = sym_f32("v"); int k = (int)pick("k", -3, 3);
  Tensor x = one<float>(v);
  CHECKF(at<float>(x + k), v + (float)k, "tensor + int"); CHECKF(at<float>(k - x), (float)k - v, "int - tensor"); CHECKF(at<float>(x * (int64_t)k), v * (float)k, "tensor * int64"); CHECKF(at<float>(x + true), v + 1.f, "tensor + bool");
  CHECKF(at<float>(op::add(x, x, Scalar(k))), v + (float)k * v, "integer alpha");
  END();
}
// known finding: the out forms of the comparisons dispatch on the Bool output, for which nothing is registered
HARNESS(kf_compare_out) {
  begin();
  int k = (int)pick("op", 0, 5);
  Tensor x = one<float>(1.f), y = one<float>(2.f), o = Tensor::zeros({1}, options::dtype(DType::Bool));
  switch (k) { case 0: op::ltOut(o, x, y); break; case 1: op::leOut(o, x, y); break; case 2: op::gtOut(o, x, y); break; case 3: op::geOut(o, x, y); break; case 4: op::eqOut(o, x, y); break; default: op::neOut(o, x, y); }
  END();
}
// longer tensors: every element by its own operand
HARNESS(wide_unary) {
  begin(); static const int64_t N[] = {65, 130, 300}; int64_t n = N[pick("size", 0, 2)]; int k = (int)pick("op", 0, 3); Fs v = symFs("v", n); Tensor x = mk(v, {n}), z = mk(v, {n}), o = Tensor::zeros({n}), r;
  if (k == 0) { r = op::neg(x); op::negInplace(z); op::negOut(o, x); } if (k == 1) { r = op::sin(x); op::sinInplace(z); op::sinOut(o, x); } if (k == 2) { r = op::square(x); op::squareInplace(z); op::squareOut(o, x); } if (k == 3) { r = op::tanh(x); op::tanhInplace(z); op::tanhOut(o, x); }
  for (int64_t i = 0; i < n; i++) { float w = k == 0 ? -v[i] : k == 1 ? std::sin(v[i]) : k == 2 ? v[i] * v[i] : std::tanh(v[i]); CHECKF(fp(r)[i], w, "element"); CHECKF(fp(z)[i], w, "element (in place)"); CHECKF(fp(o)[i], w, "element (out)"); }
  checkVals(x, v, "operand unchanged"); END();
}
template <class T> static void wideBin(int64_t n, int k) {
  T al = sizeof(T) == 4 ? In<T>::get("alpha") : T(0.75f);
  std::vector<T> a, b; for (int64_t i = 0; i < n; i++) { bool sy = sizeof(T) == 4 || i == n - 1; a.push_back(sy ? In<T>::get("a") : T(0.25f * i - 3)); b.push_back(sy ? In<T>::get("b") : T(0.5f * i + 1)); } Tensor x(a, IntArrayView({n})), y(b, IntArrayView({n})), o = Tensor::zeros({n}, options::dtype(dt<T>())), z = x.clone(), r;
  if (k == 0) { r = op::add(x, y, Scalar(al)); op::addOut(o, x, y, Scalar(al)); op::addInplace(z, y, Scalar(al)); } if (k == 1) { r = op::mul(x, y); op::mulOut(o, x, y); op::mulInplace(z, y); } if (k == 2) { r = op::div(x, y); op::divOut(o, x, y); op::divInplace(z, y); }
  auto w = [&](int64_t i) { T p = a[i], q = b[i]; return k == 0 ? T(p + al * q) : k == 1 ? T(p * q) : T(p / q); };
  for (int64_t i = 0; i < n; i++) { eq(r.dataPtr<T>()[i], w(i), "element"); eq(o.dataPtr<T>()[i], w(i), "element (out)"); eq(z.dataPtr<T>()[i], w(i), "element (in place)"); eq(x.dataPtr<T>()[i], a[i], "operand unchanged"); }
  END();
}
HARNESS(wide_f32) { begin(); static const int64_t N[] = {65, 130, 300}; int64_t n = N[pick("size", 0, 2)]; wideBin<float>(n, (int)pick("op", 0, 2)); }
HARNESS(wide_low) { begin(); static const int64_t N[] = {33, 70}; int64_t n = N[pick("size", 0, 1)]; int k = (int)pick("op", 0, 2); if (pick("half", 0, 1)) wideBin<Half>(n, k); else wideBin<BFloat16>(n, k); }
HARNESS(wide_i64) {
  begin(); int64_t n = pick("size", 0, 1) ? 300 : 65; std::vector<int64_t> a, b; for (int64_t i = 0; i < n; i++) { a.push_back(sym_i64("a", INT64_MIN, INT64_MAX)); b.push_back(sym_i64("b", INT64_MIN, INT64_MAX)); } Tensor x = mkI(a, {n}), y = mkI(b, {n}); int k = (int)pick("op", 0, 4);
  Tensor r = k == 0 ? x == y : k == 1 ? x < y : k == 2 ? x <= y : k == 3 ? x > y : x != y; CHECK(r.dtype() == DType::Bool, "type"); checkLayout(r, {n}, "shape");
  for (int64_t i = 0; i < n; i++) { bool w = k == 0 ? a[i] == b[i] : k == 1 ? a[i] < b[i] : k == 2 ? a[i] <= b[i] : k == 3 ? a[i] > b[i] : a[i] != b[i]; CHECK(r.dataPtr<uint8_t>()[i] == (uint8_t)sym_ite32(w, 1, 0), "element"); }
  END();
}
HARNESS(wide_logic) {
  begin(); int64_t n = pick("size", 0, 1) ? 300 : 65; std::vector<uint8_t> a, b; for (int64_t i = 0; i < n; i++) { a.push_back(i % 3 == 1); b.push_back(i % 5 < 2); } a[n - 1] = pick("a", 0, 1); b[n - 1] = pick("b", 0, 1); a[n / 2] = pick("a", 0, 1); Tensor x(a, IntArrayView({n})), y(b, IntArrayView({n})); int k = (int)pick("op", 0, 2);
  Tensor r = k == 0 ? (x & y) : k == 1 ? (x | y) : ~x;
  for (int64_t i = 0; i < n; i++) CHECK(r.dataPtr<uint8_t>()[i] == (k == 0 ? (a[i] & b[i]) : k == 1 ? (a[i] | b[i]) : (a[i] ^ 1)), "element");
  END();
}
