#pragma once
#include "sym.h"
#include "TinyTorch.h"
#include "Tensor/CachedAllocator.h"
#include <vector>
#include <utility>
using namespace tinytorch;
typedef std::vector<int64_t> Sh;
typedef std::vector<float> Fs;

static inline void begin() { CachedAllocator::setCacheEnabled(false); }
static inline void beginReal() { begin(); sym_real_mode(); }
static inline int64_t prod(const Sh& s) { int64_t n = 1; for (auto d : s) n *= d; return n; }
static inline int64_t prod(const Sh& s, size_t a, size_t b) { int64_t n = 1; for (size_t i = a; i < b; i++) n *= s[i]; return n; }
static inline Sh rowMajor(const Sh& s) { Sh r(s.size()); int64_t k = 1; for (size_t i = s.size(); i-- > 0;) { r[i] = k; k *= s[i]; } return r; }
// a shape with a concrete rank and concrete sizes: one execution path per shape
static inline Sh pickShape(const char* n, int minRank, int maxRank, int64_t lo, int64_t hi, int64_t maxNumel = 1 << 20) {
  int64_t r = sym_concretize(sym_i64("rank", minRank, maxRank));
  Sh s; int64_t k = 1;
  for (int64_t i = 0; i < r; i++) {
    int64_t d = sym_concretize(sym_i64(n, lo, hi));
    if (k > 0 && d > 0) { sym_assume(k * d <= maxNumel); k *= d; }
    s.push_back(d);
  }
  return s;
}
static inline int64_t pick(const char* n, int64_t lo, int64_t hi) { return sym_concretize(sym_i64(n, lo, hi)); }
static inline Fs symFs(const char* n, int64_t k) { Fs v; v.reserve(k); for (int64_t i = 0; i < k; i++) v.push_back(sym_f32(n)); return v; }
static inline Fs symFsR(const char* n, int64_t k, float lo, float hi) { Fs v; v.reserve(k); for (int64_t i = 0; i < k; i++) v.push_back(sym_f32_range(n, lo, hi)); return v; }
static inline Tensor mk(const Fs& v, const Sh& s, bool rg = false) { return Tensor(v, IntArrayView(s), options::dtype(DType::Float32).requiresGrad(rg)); }
static inline Tensor mkI(const std::vector<int64_t>& v, const Sh& s) { return Tensor(v, IntArrayView(s), options::dtype(DType::Int64)); }
static inline Tensor symT(const char* n, const Sh& s) { return mk(symFs(n, prod(s)), s); }
static inline Sh shp(const Tensor& t) { Sh r; for (auto d : t.shape()) r.push_back(d); return r; }
static inline const float* fp(const Tensor& t) { return t.dataPtr<float>(); }
static inline bool isShape(const Tensor& t, const Sh& s) {
  if (t.dim() != (int64_t)s.size()) return false;
  bool ok = true;
  for (size_t i = 0; i < s.size(); i++) ok &= t.shape()[i] == s[i];
  return ok;
}
// shape, row-major strides, element count
static inline void checkLayout(const Tensor& t, const Sh& s, const char* what) {
  CHECK(t.defined(), what);
  CHECK(isShape(t, s), what);
  Sh st = rowMajor(s);
  bool ok = t.strides().size() == s.size() && t.numel() == prod(s);
  for (size_t i = 0; ok && i < s.size(); i++) ok &= t.strides()[i] == st[i];
  CHECK(ok, what);
}
static inline uint32_t fbits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static inline void checkVals(const Tensor& t, const Fs& v, const char* what) {
  CHECK(t.numel() == (int64_t)v.size(), what);
  const float* p = fp(t);
  for (size_t i = 0; i < v.size(); i++) CHECKF(p[i], v[i], what);
}
static inline void checkT(const Tensor& t, const Fs& v, const Sh& s, const char* what) { checkLayout(t, s, what); checkVals(t, v, what); }
static inline void checkI(const Tensor& t, const std::vector<int64_t>& v, const Sh& s, const char* what) {
  checkLayout(t, s, what); CHECK(t.dtype() == DType::Int64, what);
  const int64_t* p = t.dataPtr<int64_t>();
  for (size_t i = 0; i < v.size(); i++) CHECK(p[i] == v[i], what);
}
// iterate over all coordinates of a shape
template <class F> static inline void forCoord(const Sh& s, F f) {
  int64_t n = prod(s); Sh c(s.size(), 0);
  for (int64_t i = 0; i < n; i++) {
    f(i, c);
    for (size_t d = s.size(); d-- > 0;) { if (++c[d] < s[d]) break; c[d] = 0; }
  }
}
static inline int64_t off(const Sh& s, const Sh& c) { int64_t o = 0; for (size_t i = 0; i < s.size(); i++) o = o * s[i] + c[i]; return o; }
#define END() sym_reach("end")
