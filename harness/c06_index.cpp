#include "common.h"
#include "Operations.h"
#include "Functions.h"
static int64_t wr(int64_t i, int64_t n) { return i < 0 ? i + n : i; }
// value of v at a symbolic position
static uint32_t at(const Fs& v, int64_t i) { uint32_t r = 0; for (size_t k = 0; k < v.size(); k++) r = sym_ite32(i == (int64_t)k, fbits(v[k]), r); return r; }
static void checkBits(const Tensor& t, const std::vector<uint32_t>& w, const char* m) {
  CHECK(t.numel() == (int64_t)w.size(), m);
  const float* p = fp(t);
  for (size_t i = 0; i < w.size(); i++) CHECK(fbits(p[i]) == w[i], m);
}
static std::vector<int64_t> symIdx(const char* n, int64_t k, int64_t size) { std::vector<int64_t> r; for (int64_t i = 0; i < k; i++) r.push_back(sym_i64(n, -size, size - 1)); return r; }
static Sh tail(const Sh& s, size_t from) { return Sh(s.begin() + from, s.end()); }

HARNESS(index) {
  begin();
  Sh s = pickShape("d", 1, 3, 1, 3, TIER == 2 ? 18 : 8); int64_t len = pick("len", 1, (int64_t)s.size());
  Fs v = symFs("v", prod(s)); Tensor x = mk(v, s);
  Sh idx; int64_t o = 0; for (int64_t i = 0; i < len; i++) { int64_t k = pick("i", -s[i], s[i] - 1); idx.push_back(k); o = o * s[i] + wr(k, s[i]); }
  Sh t = tail(s, len); int64_t n = prod(t);
  Tensor y = op::index(x, IntArrayView(idx));
  checkT(y, Fs(v.begin() + o * n, v.begin() + (o + 1) * n), t, "index");
  checkT(x, v, s, "index leaves its operand alone");
  END();
}
// an index into a part of a tensor addresses the part
HARNESS(index_of_view) {
  begin();
  int64_t n = pick("n", 2, 4), st = pick("start", 0, n - 1), len = n - st, i = pick("i", -len, len - 1), j = pick("j", -2, 1); Sh s = {n, 2, 2};
  Fs v = symFs("v", prod(s)); Tensor x = mk(v, s), y = x.narrow(0, st, len);
  int64_t b = (st + wr(i, len)) * 4;
  Sh i1 = {i}, i2 = {i, j};
  Tensor a = op::index(y, IntArrayView(i1)), c = op::index(y, IntArrayView(i2)); Sh k1 = {j}; Tensor d = op::index(a, IntArrayView(k1));
  checkT(a, Fs(v.begin() + b, v.begin() + b + 4), {2, 2}, "index of a view");
  Fs w(v.begin() + b + wr(j, 2) * 2, v.begin() + b + wr(j, 2) * 2 + 2);
  checkT(c, w, {2}, "index of a view"); checkT(d, w, {2}, "index of an index");
  END();
}
HARNESS(index_invalid) {
  begin();
  int64_t n = pick("n", 1, 3), m = pick("m", 1, 3), a = sym_i64("i", -5, 5), b = sym_i64("j", -5, 5); int form = (int)pick("form", 0, 3);
  bool bi = (a < -n) | (a >= n), bj = (b < -m) | (b >= m);
  sym_assume(form & 1 ? (bool)(bi | bj) : bi);
  Sh s = {n, m}; Tensor x = mk(Fs(n * m, 1.f), s); Sh idx; idx.push_back(a); if (form & 1) idx.push_back(b);
  Tensor val = Tensor::scalar(2.f); sym_reach("end"); sym_trap_policy(1);
  if (form < 2) op::index(x, IntArrayView(idx)); else op::indexPut(x, IntArrayView(idx), val);
  CHECK(false, "an index outside the dimension is accepted");
}
HARNESS(index_put) {
  begin();
  Sh s = pickShape("d", 1, 3, 1, 3, TIER == 2 ? 18 : 8); int64_t len = pick("len", 1, (int64_t)s.size());
  Fs v = symFs("v", prod(s)); Tensor x = mk(v, s);
  Sh idx; int64_t o = 0; for (int64_t i = 0; i < len; i++) { int64_t k = pick("i", -s[i], s[i] - 1); idx.push_back(k); o = o * s[i] + wr(k, s[i]); }
  Sh t = tail(s, len); int64_t n = prod(t);
  bool scalar = pick("scalar", 0, 1); Fs w = v;
  if (scalar) { float q = sym_f32("value"); op::indexPut(x, IntArrayView(idx), Tensor::scalar(q)); for (int64_t i = 0; i < n; i++) w[o * n + i] = q; }
  else { Fs q = symFs("value", n); Tensor val = mk(q, t.empty() ? Sh{1} : t); op::indexPut(x, IntArrayView(idx), val); for (int64_t i = 0; i < n; i++) w[o * n + i] = q[i]; checkVals(val, q, "index put leaves the values alone"); }
  checkT(x, w, s, "index put");
  END();
}
HARNESS(index_put_shape) {
  begin();
  int64_t m = pick("m", 1, 3), k = pick("values", 2, 4); sym_assume(k != m);
  Tensor x = mk(Fs(2 * m, 1.f), {2, m}), val = mk(Fs(k, 2.f), {k}); Sh idx = {1};
  sym_reach("end"); sym_trap_policy(1); op::indexPut(x, IntArrayView(idx), val);
  CHECK(false, "index put accepts values of another size");
}
// advanced index: every combination of ranks; the index values are symbolic
static void advShape(Sh& s, int64_t& len, Sh& is) {
  s = pickShape("d", 1, 3, 1, TIER == 2 ? 3 : 2, 12); len = pick("len", 1, (int64_t)s.size()); is = pick("index rank", 1, 2) == 1 ? Sh{pick("count", 1, TIER == 2 ? 3 : 2)} : Sh{2, 1};
}
HARNESS(index_advance) {
  begin();
  Sh s, is; int64_t len; advShape(s, len, is); int64_t k = prod(is);
  Fs v = symFs("v", prod(s)); Tensor x = mk(v, s); std::vector<Tensor> ix; std::vector<std::vector<int64_t>> iv;
  for (int64_t d = 0; d < len; d++) { iv.push_back(symIdx("i", k, s[d])); ix.push_back(mkI(iv[d], is)); }
  Tensor y = op::indexAdvance(x, ArrayView<Tensor>(ix));
  Sh t = is, tl = tail(s, len); t.insert(t.end(), tl.begin(), tl.end()); int64_t n = prod(tl);
  checkLayout(y, t, "advanced index");
  std::vector<uint32_t> w;
  for (int64_t a = 0; a < k; a++) { int64_t o = 0; for (int64_t d = 0; d < len; d++) o = o * s[d] + wr(iv[d][a], s[d]); for (int64_t b = 0; b < n; b++) w.push_back(at(v, o * n + b)); }
  checkBits(y, w, "advanced index"); checkT(x, v, s, "advanced index leaves its operand alone");
  for (int64_t d = 0; d < len; d++) checkI(ix[d], iv[d], is, "advanced index leaves its indices alone");
  END();
}
HARNESS(index_put_advance) {
  begin();
  Sh s, is; int64_t len; advShape(s, len, is); int64_t k = prod(is);
  Fs v = symFs("v", prod(s)); Tensor x = mk(v, s); std::vector<Tensor> ix; std::vector<std::vector<int64_t>> iv;
  for (int64_t d = 0; d < len; d++) { iv.push_back(symIdx("i", k, s[d])); ix.push_back(mkI(iv[d], is)); }
  Sh tl = tail(s, len); int64_t n = prod(tl), N = (int64_t)v.size(); Sh t = is; t.insert(t.end(), tl.begin(), tl.end());
  bool scalar = pick("scalar", 0, 1); Fs q = symFs("value", scalar ? 1 : k * n); Tensor val = scalar ? Tensor::scalar(q[0]) : mk(q, t);
  sym_assume(scalar || !val.isScalar());
  op::indexPutAdvance(x, ArrayView<Tensor>(ix), val);
  std::vector<uint32_t> w; for (auto f : v) w.push_back(fbits(f));
  for (int64_t a = 0; a < k; a++) { int64_t o = 0; for (int64_t d = 0; d < len; d++) o = o * s[d] + wr(iv[d][a], s[d]); for (int64_t b = 0; b < n; b++) for (int64_t z = 0; z < N; z++) w[z] = sym_ite32(o * n + b == z, fbits(q[scalar ? 0 : a * n + b]), w[z]); }
  checkLayout(x, s, "advanced index put"); checkBits(x, w, "advanced index put");
  checkVals(val, q, "advanced index put leaves the values alone");
  END();
}
HARNESS(index_advance_invalid) {
  begin();
  int64_t n = pick("n", 1, 3), m = pick("m", 1, 2), len = pick("len", 1, 2), put = pick("put", 0, 1), three = pick("rank 3", 0, 1);
  Sh s = {n, m}; if (three) s.push_back(2);
  std::vector<int64_t> a = {sym_i64("i", -5, 5), 0}, b = {0, sym_i64("j", -5, 5)};
  bool bi = (a[0] < -n) | (a[0] >= n), bj = (b[1] < -m) | (b[1] >= m);
  sym_assume(len == 2 ? (bool)(bi | bj) : bi);
  Tensor x = mk(Fs(prod(s), 1.f), s); std::vector<Tensor> ix = {mkI(a, {2})}; if (len == 2) ix.push_back(mkI(b, {2}));
  Tensor val = Tensor::scalar(2.f); sym_reach("end"); sym_trap_policy(1);
  if (put) op::indexPutAdvance(x, ArrayView<Tensor>(ix), val); else op::indexAdvance(x, ArrayView<Tensor>(ix));
  CHECK(false, "an advanced index outside the dimension is accepted");
}
HARNESS(index_advance_lengths) {
  begin();
  int64_t a = pick("a", 1, 3), b = pick("b", 1, 3), put = pick("put", 0, 1), three = pick("rank 3", 0, 1); sym_assume(a != b);
  Sh s = {2, 2}; if (three) s.push_back(2);
  Tensor x = mk(Fs(prod(s), 1.f), s); std::vector<Tensor> ix = {mkI(std::vector<int64_t>(a, 1), {a}), mkI(std::vector<int64_t>(b, 1), {b})};
  Tensor val = Tensor::scalar(2.f); sym_reach("end"); sym_trap_policy(1);
  if (put) op::indexPutAdvance(x, ArrayView<Tensor>(ix), val); else op::indexAdvance(x, ArrayView<Tensor>(ix));
  CHECK(false, "index tensors of different lengths are accepted");
}
HARNESS(index_put_advance_shape) {
  begin();
  int64_t k = pick("count", 1, 3), q = pick("values", 2, 7), len = pick("len", 1, 2); sym_assume(q != (len == 1 ? 2 * k : k));
  Tensor x = mk(Fs(4, 1.f), {2, 2}), val = mk(Fs(q, 2.f), {q}); std::vector<Tensor> ix(len, mkI(std::vector<int64_t>(k, 1), {k}));
  sym_reach("end"); sym_trap_policy(1); op::indexPutAdvance(x, ArrayView<Tensor>(ix), val);
  CHECK(false, "advanced index put accepts values of another size");
}
// gather / scatter: index shape may be smaller than the tensor's in the other dimensions
static void gsShape(Sh& s, Sh& is, int64_t& d, int64_t& k) {
  s = pickShape("d", 1, TIER == 2 ? 3 : 2, 1, 3, TIER == 2 ? 9 : 6); int64_t r = (int64_t)s.size(); d = pick("dim", -r, r - 1); k = wr(d, r);
  for (int64_t i = 0; i < r; i++) is.push_back(i == k ? pick("index size", 0, TIER == 2 ? 3 : 2) : pick("index size", TIER == 2 ? 1 : std::max<int64_t>(1, s[i] - 1), s[i]));
  sym_assume(prod(is) <= (TIER == 2 ? 6 : 4));
}
HARNESS(gather) {
  begin();
  Sh s, is; int64_t d, k; gsShape(s, is, d, k); Fs v = symFs("v", prod(s)); Tensor x = mk(v, s);
  auto iv = symIdx("i", prod(is), s[k]); Tensor ix = mkI(iv, is);
  Tensor y = function::gather(x, d, ix); checkLayout(y, is, "gather");
  std::vector<uint32_t> w; forCoord(is, [&](int64_t i, const Sh& c) { Sh o = c; uint32_t r = 0; for (int64_t z = 0; z < s[k]; z++) { o[k] = z; r = sym_ite32(wr(iv[i], s[k]) == z, fbits(v[off(s, o)]), r); } w.push_back(r); });
  checkBits(y, w, "gather"); checkT(x, v, s, "gather leaves its operand alone"); checkI(ix, iv, is, "gather leaves its index alone");
  END();
}
HARNESS(scatter) {
  begin();
  Sh s, is; int64_t d, k; gsShape(s, is, d, k); Fs v = symFs("v", prod(s)), q = symFs("src", prod(is)); Tensor x = mk(v, s), src = mk(q, is);
  auto iv = symIdx("i", prod(is), s[k]); Tensor ix = mkI(iv, is);
  std::vector<uint32_t> w; for (auto f : v) w.push_back(fbits(f));
  forCoord(is, [&](int64_t i, const Sh& c) { Sh o = c; for (int64_t z = 0; z < s[k]; z++) { o[k] = z; int64_t at = off(s, o); w[at] = sym_ite32(wr(iv[i], s[k]) == z, fbits(q[i]), w[at]); } });
  Tensor y = function::scatter(x, d, ix, src); checkLayout(y, s, "scatter"); checkBits(y, w, "scatter"); checkT(x, v, s, "scatter leaves its operand alone");
  x.scatter_(d, ix, src); checkLayout(x, s, "scatter_"); checkBits(x, w, "scatter_");
  checkT(src, q, is, "scatter leaves its source alone"); checkI(ix, iv, is, "scatter leaves its index alone");
  END();
}
HARNESS(gather_scatter_invalid) {
  begin();
  int64_t n = pick("n", 1, 3), m = pick("m", 1, 2), d = pick("dim", 0, 1), i = sym_i64("i", -5, 5), sz = d == 0 ? n : m; int form = (int)pick("form", 0, 2);
  sym_assume((bool)((i < -sz) | (i >= sz)));
  Tensor x = mk(Fs(n * m, 1.f), {n, m}), src = mk(Fs(1, 2.f), {1, 1}), ix = mkI({i}, {1, 1}); sym_reach("end"); sym_trap_policy(1);
  if (form == 0) function::gather(x, d, ix); else if (form == 1) function::scatter(x, d, ix, src); else x.scatter_(d, ix, src);
  CHECK(false, "an index outside the dimension is accepted");
}
HARNESS(gather_scatter_shape) {
  begin();
  int64_t n = pick("n", 1, 2), m = pick("m", 1, 2), a = pick("a", 1, 3), b = pick("b", 1, 3), d = pick("dim", 0, 1), c = pick("src", 0, 1); int form = (int)pick("form", 0, 2);
  bool big = (d == 1 && a > n) || (d == 0 && b > m), bad = big || (form > 0 && c); sym_assume(bad);
  Tensor x = mk(Fs(n * m, 1.f), {n, m}), src = mk(Fs(a * (b + c), 2.f), {a, b + c}), ix = mkI(std::vector<int64_t>(a * b, 0), {a, b}); sym_reach("end"); sym_trap_policy(1);
  if (form == 0) function::gather(x, d, ix); else if (form == 1) function::scatter(x, d, ix, src); else x.scatter_(d, ix, src);
  CHECK(false, "an index larger than the tensor, or a source of another shape, is accepted");
}
HARNESS(index_select) {
  begin();
  Sh s = pickShape("d", 1, 3, 1, TIER == 2 ? 3 : 2, 12); int64_t r = (int64_t)s.size(), d = pick("dim", -r, r - 1), k = wr(d, r), n = pick("count", 0, TIER == 2 ? 3 : 2);
  Fs v = symFs("v", prod(s)); Tensor x = mk(v, s); auto iv = symIdx("i", n, s[k]); Tensor ix = mkI(iv, {n});
  Sh t = s; t[k] = n; Tensor y = function::indexSelect(x, d, ix); checkLayout(y, t, "indexSelect");
  std::vector<uint32_t> w; forCoord(t, [&](int64_t i, const Sh& c) { Sh o = c; uint32_t q = 0; for (int64_t z = 0; z < s[k]; z++) { o[k] = z; q = sym_ite32(wr(iv[c[k]], s[k]) == z, fbits(v[off(s, o)]), q); } w.push_back(q); });
  checkBits(y, w, "indexSelect"); checkT(x, v, s, "indexSelect leaves its operand alone");
  END();
}
HARNESS(index_select_invalid) {
  begin();
  int64_t n = pick("n", 1, 3), d = pick("dim", 0, 1), i = sym_i64("i", -6, 6), z = d == 0 ? n : 2; sym_assume((bool)((i < -z) | (i >= z)));
  Tensor x = mk(Fs(n * 2, 1.f), {n, 2}), ix = mkI({0, i}, {2}); sym_reach("end"); sym_trap_policy(1); function::indexSelect(x, d, ix);
  CHECK(false, "an index outside the dimension is accepted");
}
HARNESS(index_dtype) {
  begin();
  Tensor x = mk(Fs(4, 1.f), {2, 2}), src = mk(Fs(2, 1.f), {2, 1}), i1 = mk(Fs(2, 1.f), {2}), i2 = mk(Fs(2, 1.f), {2, 1}); int form = (int)pick("form", 0, 5);
  std::vector<Tensor> one = {i1}, two = {i1, i1}; sym_reach("end"); sym_trap_policy(1);
  switch (form) { case 0: function::gather(x, 0, i2); break; case 1: function::scatter(x, 0, i2, src); break; case 2: x.scatter_(0, i2, src); break; case 3: function::indexSelect(x, 0, i1); break; case 4: op::indexAdvance(x, ArrayView<Tensor>(one)); break; default: op::indexAdvance(x, ArrayView<Tensor>(two)); }
  CHECK(false, "a floating-point index tensor is accepted");
}
// every element type
template <class T> static void typed(DType dt) {
  Sh s = {2, 3, 2}; std::vector<T> v(12), q(4);
  auto one = [&](T& t) { uint64_t u = sizeof(T) == 8 ? sym_u64("v") : sizeof(T) == 4 ? sym_u32("v") : sizeof(T) == 2 ? sym_u16("v") : sym_u8("v"); memcpy(&t, &u, sizeof(T)); };
  for (auto& t : v) one(t); for (auto& t : q) one(t);
  Tensor x(v, IntArrayView(s), options::dtype(dt)); Sh qs = {2, 2}; Tensor val(q, IntArrayView(qs), options::dtype(dt));
  auto chk = [&](const Tensor& y, const Sh& t, const std::vector<T>& w, const char* m) { checkLayout(y, t, m); CHECK(y.dtype() == dt, m); const T* p = y.dataPtr<T>(); for (size_t i = 0; i < w.size(); i++) CHECK(memcmp(p + i, &w[i], sizeof(T)) == 0, m); };
  auto sub = [&](std::vector<int> k) { std::vector<T> w; for (int i : k) w.push_back(v[i]); return w; };
  Sh i1 = {1}, i2 = {-1, 1}; chk(op::index(x, IntArrayView(i1)), {3, 2}, sub({6, 7, 8, 9, 10, 11}), "index"); chk(op::index(x, IntArrayView(i2)), {2}, sub({8, 9}), "index");
  std::vector<Tensor> ix = {mkI({1, 0}, {2}), mkI({-1, 1}, {2})};
  chk(op::indexAdvance(x, ArrayView<Tensor>(ix)), {2, 2}, sub({10, 11, 2, 3}), "advanced index");
  Sh f = {6, 2}; Tensor x2 = x.reshape(IntArrayView(f)); chk(op::indexAdvance(x2, ArrayView<Tensor>(ix)), {2}, sub({3, 1}), "advanced index");
  chk(function::indexSelect(x, 1, mkI({2, 0}, {2})), {2, 2, 2}, sub({4, 5, 0, 1, 10, 11, 6, 7}), "indexSelect");
  chk(function::gather(x2, 1, mkI({1, 0, 0, 1}, {2, 2})), {2, 2}, sub({1, 0, 2, 3}), "gather");
  { auto w = v; for (int i = 0; i < 2; i++) { w[1] = q[0]; w[0] = q[1]; w[2] = q[2]; w[3] = q[3]; } Tensor y = function::scatter(x2, 1, mkI({1, 0, 0, 1}, {2, 2}), val); chk(y, f, w, "scatter"); x2.scatter_(1, mkI({1, 0, 0, 1}, {2, 2}), val); chk(x2, f, w, "scatter_"); }
  { auto w = v; w[10] = q[0]; w[11] = q[1]; w[2] = q[2]; w[3] = q[3]; Tensor y = x.clone(); op::indexPutAdvance(y, ArrayView<Tensor>(ix), val); chk(y, s, w, "advanced index put"); }
  { auto w = v; w[8] = q[0]; w[9] = q[1]; Tensor y = x.clone(); op::indexPut(y, IntArrayView(i2), val.narrow(0, 0, 1).reshape(IntArrayView(Sh{2}))); chk(y, s, w, "index put"); }
  chk(x, s, v, "operand unchanged");
  END();
}
HARNESS(typed) {
  begin();
  switch (pick("dtype", 0, 4)) { case 0: typed<Half>(DType::Float16); break; case 1: typed<BFloat16>(DType::BFloat16); break; case 2: typed<int32_t>(DType::Int32); break; case 3: typed<int64_t>(DType::Int64); break; default: typed<uint8_t>(DType::Bool); }
}
// element counts past unrolled or blocked loops; the index values are fixed here, the data symbolic
HARNESS(wide) {
  begin();
  static const Sh S[] = {{20, 7}, {40, 3, 5}, {130, 2}, {300}, {2, 65}};
  Sh s = S[pick("shape", 0, 4)]; int64_t r = (int64_t)s.size(), k = pick("dim", 0, r - 1); int f = (int)pick("op", 0, 6);
  Fs v = symFs("v", prod(s)); Tensor x = mk(v, s);
  auto pr = [](int64_t i, int64_t n) { int64_t z = (i * 7919 + 13) % n; return i % 3 == 1 ? z - n : z; };
  if (f < 3) {
    Sh is = s; is[k] = s[k] + 3; std::vector<int64_t> iv; for (int64_t i = 0; i < prod(is); i++) iv.push_back(pr(i, s[k])); Tensor ix = mkI(iv, is);
    if (f == 0) { Fs w(prod(is)); forCoord(is, [&](int64_t i, const Sh& c) { Sh o = c; o[k] = wr(iv[i], s[k]); w[i] = v[off(s, o)]; }); checkT(function::gather(x, k, ix), w, is, "gather"); }
    else { Fs q = symFs("src", prod(is)), w = v; Tensor src = mk(q, is); forCoord(is, [&](int64_t i, const Sh& c) { Sh o = c; o[k] = wr(iv[i], s[k]); w[off(s, o)] = q[i]; });
      if (f == 1) checkT(function::scatter(x, k, ix, src), w, s, "scatter"); else { Tensor z = mk(v, s); z.scatter_(k, ix, src); checkT(z, w, s, "scatter_"); } }
  } else if (f == 3) {
    std::vector<int64_t> iv; for (int64_t i = 0; i < 70; i++) iv.push_back(pr(i, s[k])); Sh t = s; t[k] = 70; Fs w(prod(t));
    forCoord(t, [&](int64_t i, const Sh& c) { Sh o = c; o[k] = wr(iv[c[k]], s[k]); w[i] = v[off(s, o)]; }); checkT(function::indexSelect(x, k, mkI(iv, {70})), w, t, "indexSelect");
  } else if (f == 4) {
    int64_t len = k + 1; Sh idx; int64_t o = 0; for (int64_t i = 0; i < len; i++) { idx.push_back(pr(i * 5 + 1, s[i])); o = o * s[i] + wr(idx[i], s[i]); } Sh t = tail(s, len); int64_t n = prod(t);
    checkT(op::index(x, IntArrayView(idx)), Fs(v.begin() + o * n, v.begin() + (o + 1) * n), t, "index");
    Fs q = symFs("value", n), w = v; Tensor z = mk(v, s); op::indexPut(z, IntArrayView(idx), mk(q, t.empty() ? Sh{1} : t)); for (int64_t i = 0; i < n; i++) w[o * n + i] = q[i]; checkT(z, w, s, "index put");
    op::indexPut(z, IntArrayView(idx), Tensor::scalar(q[0])); for (int64_t i = 0; i < n; i++) w[o * n + i] = q[0]; checkT(z, w, s, "index put");
  } else {
    int64_t len = k + 1, c = 70; std::vector<Tensor> ix; std::vector<std::vector<int64_t>> iv(len); for (int64_t d = 0; d < len; d++) { for (int64_t i = 0; i < c; i++) iv[d].push_back(pr(i * (d + 3) + d, s[d])); ix.push_back(mkI(iv[d], {c})); }
    Sh tl = tail(s, len), t = {c}; t.insert(t.end(), tl.begin(), tl.end()); int64_t n = prod(tl); Fs q = symFs("value", c * n), w(c * n), z = v;
    for (int64_t a = 0; a < c; a++) { int64_t o = 0; for (int64_t d = 0; d < len; d++) o = o * s[d] + wr(iv[d][a], s[d]); for (int64_t b = 0; b < n; b++) { w[a * n + b] = v[o * n + b]; z[o * n + b] = q[a * n + b]; } }
    if (f == 5) checkT(op::indexAdvance(x, ArrayView<Tensor>(ix)), w, t, "advanced index"); else { Tensor y = mk(v, s); op::indexPutAdvance(y, ArrayView<Tensor>(ix), mk(q, t)); checkT(y, z, s, "advanced index put"); }
  }
  checkT(x, v, s, "operand unchanged");
  END();
}
