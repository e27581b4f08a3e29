#include "common.h"
#include "Operations.h"
#include "Functions.h"
#define NB (TIER == 2 ? 3 : 2)
static Fs sub(const Fs& v, const Sh& from, const Sh& to, Sh (*m)(const Sh&, void*), void* u) {
  Fs w(prod(to));
  forCoord(to, [&](int64_t i, const Sh& c) { w[i] = v[off(from, m(c, u))]; });
  return w;
}
// every permutation of every shape
HARNESS(permute) {
  begin();
  Sh s = pickShape("d", 0, TIER == 2 ? 4 : 3, 1, NB + (TIER == 2 ? 0 : 1), 24); int r = (int)s.size();
  Sh p, inv(r), raw; bool used[8] = {};
  for (int i = 0; i < r; i++) { int64_t k = pick("perm", 0, r - 1); sym_assume(!used[k]); used[k] = true; p.push_back(k); inv[k] = i; raw.push_back(pick("neg", 0, 1) ? k - r : k); }
  Fs v = symFs("v", prod(s)); Tensor x = mk(v, s);
  Sh t; for (auto k : p) t.push_back(s[k]);
  Fs w(v.size()); forCoord(t, [&](int64_t i, const Sh& c) { Sh o(r); for (int d = 0; d < r; d++) o[p[d]] = c[d]; w[i] = v[off(s, o)]; });
  Tensor y = x.permute(IntArrayView(raw));
  checkT(y, w, t, "permute"); checkT(x, v, s, "permute leaves its operand alone");
  checkT(y.permute(IntArrayView(inv)), v, s, "inverse permutation restores the tensor");
  Tensor z = mk(v, s); z.permute_(IntArrayView(raw)); checkT(z, w, t, "permute_");
  END();
}
HARNESS(permute_all) {
  begin();
  Sh s = pickShape("d", 0, TIER == 2 ? 5 : 4, 0, 3, TIER == 2 ? 48 : 24); int r = (int)s.size();
  Fs v = symFs("v", prod(s)); Tensor x = mk(v, s);
  Sh t(s.rbegin(), s.rend()); Fs w(v.size());
  forCoord(t, [&](int64_t i, const Sh& c) { Sh o(c.rbegin(), c.rend()); w[i] = v[off(s, o)]; });
  checkT(x.permute(), w, t, "permute()"); Tensor z = mk(v, s); z.permute_(); checkT(z, w, t, "permute_()");
  if (r == 2) { checkT(x.t(), w, t, "t()"); Tensor q = mk(v, s); q.t_(); checkT(q, w, t, "t_()"); checkT(op::transpose2d(x), w, t, "transpose2d"); }
  checkT(x, v, s, "operand unchanged");
  END();
}
HARNESS(transpose) {
  begin();
  Sh s = pickShape("d", 1, TIER == 2 ? 4 : 3, 0, 3, 18); int64_t r = (int64_t)s.size();
  int64_t a = pick("dim0", -r, r - 1), b = pick("dim1", -r, r - 1), i0 = a < 0 ? a + r : a, i1 = b < 0 ? b + r : b;
  Fs v = symFs("v", prod(s)); Tensor x = mk(v, s);
  Sh t = s; std::swap(t[i0], t[i1]); Fs w(v.size());
  forCoord(t, [&](int64_t i, const Sh& c) { Sh o = c; std::swap(o[i0], o[i1]); w[i] = v[off(s, o)]; });
  Tensor y = x.transpose(a, b); checkT(y, w, t, "transpose"); checkT(x, v, s, "operand unchanged");
  Tensor z = mk(v, s); z.transpose_(b, a); checkT(z, w, t, "transpose_"); z.transpose_(a, b); checkT(z, v, s, "transposing twice restores");
  END();
}
HARNESS(transpose_invalid) {
  begin();
  int64_t r = pick("rank", 1, 3), a = sym_i64("dim0", -6, 6), b = sym_i64("dim1", -6, 6);
  sym_assume(a < -r || a >= r || b < -r || b >= r);
  Sh s; for (int i = 0; i < r; i++) s.push_back(2);
  Tensor x = mk(Fs(prod(s), 1.f), s); sym_reach("end"); sym_trap_policy(1); Tensor y = x.transpose(a, b);
  CHECK(false, "transpose accepts a dimension out of range");
}
static int64_t wrap(int64_t d, int64_t r) { return d < 0 ? d + r : d; }
static Fs slice(const Fs& v, const Sh& s, int64_t d, int64_t start, int64_t len) {
  Sh t = s; t[d] = len; Fs w(prod(t));
  forCoord(t, [&](int64_t i, const Sh& c) { Sh o = c; o[d] += start; w[i] = v[off(s, o)]; });
  return w;
}
static Sh withDim(Sh s, int64_t d, int64_t n) { s[d] = n; return s; }
HARNESS(split_sections) {
  begin();
  Sh s = pickShape("d", 1, 3, 0, 3, 18); int64_t r = (int64_t)s.size(), d = pick("dim", -r, r - 1), k = wrap(d, r);
  Sh sec; int64_t left = s[k]; int parts = (int)pick("parts", 1, 3);
  for (int i = 0; i + 1 < parts; i++) { int64_t q = pick("section", 0, left); sec.push_back(q); left -= q; } sec.push_back(left);
  Fs v = symFs("v", prod(s)); Tensor x = mk(v, s);
  auto ps = x.split(IntArrayView(sec), d);
  CHECK(ps.size() == sec.size(), "number of parts");
  int64_t at = 0;
  for (size_t i = 0; i < ps.size(); i++) { checkT(ps[i], slice(v, s, k, at, sec[i]), withDim(s, k, sec[i]), "split part"); at += sec[i]; }
  checkT(function::concat(ArrayView<Tensor>(ps), d), v, s, "concat of the parts restores the tensor");
  checkT(x, v, s, "operand unchanged");
  END();
}
HARNESS(split_even) {
  begin();
  Sh s = pickShape("d", 1, 3, 1, 4, 24); int64_t r = (int64_t)s.size(), d = pick("dim", -r, r - 1), k = wrap(d, r), z = pick("size", 1, 4);
  sym_assume(s[k] % z == 0);
  Fs v = symFs("v", prod(s)); Tensor x = mk(v, s);
  auto ps = x.split(z, d);
  CHECK((int64_t)ps.size() == s[k] / z, "number of parts");
  for (size_t i = 0; i < ps.size(); i++) checkT(ps[i], slice(v, s, k, i * z, z), withDim(s, k, z), "split part");
  checkT(function::concat(ArrayView<Tensor>(ps), d), v, s, "concat of the parts restores the tensor");
  END();
}
HARNESS(split_invalid) {
  begin();
  int64_t n = pick("n", 1, 4), z = sym_i64("size", -2, 6); sym_assume(z <= 0 || n % z != 0);
  Tensor x = mk(Fs(n, 1.f), {n}); sym_reach("end"); sym_trap_policy(1); x.split(z, 0);
  CHECK(false, "split accepts a size that does not divide the dimension");
}
HARNESS(split_sections_invalid) {
  begin();
  int64_t n = pick("n", 1, 4), a = sym_i64("a", 0, 6), b = sym_i64("b", 0, 6); sym_assume(a + b != n);
  Tensor x = mk(Fs(n, 1.f), {n}); Sh sec = {a, b}; sym_reach("end"); sym_trap_policy(1); x.split(IntArrayView(sec), 0);
  CHECK(false, "split accepts sections that do not add up");
}
HARNESS(chunk) {
  begin();
  Sh s = pickShape("d", 1, 3, 1, TIER == 2 ? 7 : 5, 20); int64_t r = (int64_t)s.size(), d = pick("dim", -r, r - 1), k = wrap(d, r), n = pick("chunks", 1, 6);
  Fs v = symFs("v", prod(s)); Tensor x = mk(v, s);
  auto ps = x.chunk(n, d);
  int64_t c = std::min(n, s[k]), z = (s[k] + c - 1) / c, cnt = (s[k] + z - 1) / z;
  CHECK((int64_t)ps.size() == cnt, "number of chunks");
  for (int64_t i = 0; i < cnt; i++) { int64_t len = std::min(z, s[k] - i * z); checkT(ps[i], slice(v, s, k, i * z, len), withDim(s, k, len), "chunk"); }
  checkT(function::concat(ArrayView<Tensor>(ps), d), v, s, "concat of the chunks restores the tensor");
  checkT(x, v, s, "operand unchanged");
  END();
}
HARNESS(concat) {
  begin();
  Sh s = pickShape("d", 1, 3, 0, 2, 8); int64_t r = (int64_t)s.size(), d = pick("dim", -r, r - 1), k = wrap(d, r); int n = (int)pick("tensors", 1, 3);
  std::vector<Tensor> ts; std::vector<Fs> vs; Sh lens; int64_t tot = 0;
  for (int i = 0; i < n; i++) { int64_t l = i == 0 ? s[k] : pick("len", 0, 2); Sh q = withDim(s, k, l); vs.push_back(symFs("v", prod(q))); ts.push_back(mk(vs[i], q)); lens.push_back(l); tot += l; }
  Sh t = withDim(s, k, tot); Fs w(prod(t));
  forCoord(t, [&](int64_t i, const Sh& c) { Sh o = c; int j = 0; while (o[k] >= lens[j]) o[k] -= lens[j++]; w[i] = vs[j][off(withDim(s, k, lens[j]), o)]; });
  checkT(function::concat(ArrayView<Tensor>(ts), d), w, t, "concat");
  if (k == 0 && d == 0) checkT(r == 1 ? function::hstack(ArrayView<Tensor>(ts)) : function::vstack(ArrayView<Tensor>(ts)), w, t, "hstack / vstack");
  if (k == 1 && d == 1) checkT(function::hstack(ArrayView<Tensor>(ts)), w, t, "hstack");
  for (int i = 0; i < n; i++) checkT(ts[i], vs[i], withDim(s, k, lens[i]), "operands unchanged");
  END();
}
HARNESS(concat_invalid) {
  begin();
  int64_t a = sym_i64("a", 1, 3), b = sym_i64("b", 1, 3); a = sym_concretize(a); b = sym_concretize(b); sym_assume(a != b);
  Tensor x = mk(Fs(a * 2, 1.f), {2, a}), y = mk(Fs(b * 2, 1.f), {2, b}); std::vector<Tensor> ts = {x, y};
  int form = (int)pick("form", 0, 2); sym_reach("end"); sym_trap_policy(1);
  if (form == 0) function::concat(ArrayView<Tensor>(ts), 0); else if (form == 1) function::vstack(ArrayView<Tensor>(ts)); else function::stack(ArrayView<Tensor>(ts), 0);
  CHECK(false, "joining tensors of different shapes is accepted");
}
HARNESS(stack) {
  begin();
  Sh s = pickShape("d", 0, 3, 1, 2, 8); int64_t r = (int64_t)s.size(), d = pick("dim", -r - 1, r), k = d < 0 ? d + r + 1 : d; int n = (int)pick("tensors", 1, 3);
  std::vector<Tensor> ts; std::vector<Fs> vs; for (int i = 0; i < n; i++) { vs.push_back(symFs("v", prod(s))); ts.push_back(mk(vs[i], s)); }
  Sh t = s; t.insert(t.begin() + k, n); Fs w(prod(t));
  forCoord(t, [&](int64_t i, const Sh& c) { Sh o = c; int64_t j = o[k]; o.erase(o.begin() + k); w[i] = vs[j][off(s, o)]; });
  checkT(function::stack(ArrayView<Tensor>(ts), d), w, t, "stack");
  if (r == 1 && d == 0) checkT(function::vstack(ArrayView<Tensor>(ts)), w, t, "vstack of vectors");
  END();
}
HARNESS(narrow) {
  begin();
  Sh s = pickShape("d", 1, 3, 1, 3, 18); int64_t r = (int64_t)s.size(), d = pick("dim", -r, r - 1), k = wrap(d, r);
  int64_t st = pick("start", -s[k], s[k] - 1), b = wrap(st, s[k]), len = pick("length", 0, s[k] - b);
  Fs v = symFs("v", prod(s)); Tensor x = mk(v, s);
  Tensor y = x.narrow(d, st, len);
  checkT(y, slice(v, s, k, b, len), withDim(s, k, len), "narrow"); checkT(x, v, s, "operand unchanged");
  if (len > 0) { int64_t l2 = pick("length2", 1, len); checkT(y.narrow(d, len - l2, l2), slice(v, s, k, b + len - l2, l2), withDim(s, k, l2), "narrow of a narrowed tensor"); }
  END();
}
HARNESS(narrow_invalid) {
  begin();
  int64_t n = pick("n", 1, 3), d = pick("dim", 0, 1), st = sym_i64("start", -4, 4), len = sym_i64("length", -1, 4); int64_t b = st < 0 ? st + n : st;
  sym_assume(b < 0 || b >= n || len < 0 || b + len > n);
  Tensor x = mk(Fs(n * 2, 1.f), d == 0 ? Sh{n, 2} : Sh{2, n}); sym_reach("end"); sym_trap_policy(1); x.narrow(d, st, len);
  CHECK(false, "narrow accepts a range outside the dimension");
}
// a part of a part: views of views keep addressing the right elements
HARNESS(nested_views) {
  begin();
  Sh s = {pick("d", 2, 4), 2}; int64_t a = pick("start", 0, s[0] - 1), n = s[0] - a;
  Fs v = symFs("v", prod(s)); Tensor x = mk(v, s), y = x.narrow(0, a, n); Fs yv = slice(v, s, 0, a, n); Sh ys = {n, 2};
  int k = (int)pick("op", 0, 6);
  if (k == 0) { auto ps = y.split(1, 0); for (int64_t i = 0; i < n; i++) checkT(ps[i], slice(yv, ys, 0, i, 1), {1, 2}, "split of a view"); }
  if (k == 1) { auto ps = y.chunk(n, 0); for (int64_t i = 0; i < n; i++) checkT(ps[i], slice(yv, ys, 0, i, 1), {1, 2}, "chunk of a view"); }
  if (k == 2) { Fs w(yv.size()); Sh t = {2, n}; forCoord(t, [&](int64_t i, const Sh& c) { w[i] = yv[c[1] * 2 + c[0]]; }); checkT(y.t(), w, t, "transpose of a view"); }
  if (k == 3) { std::vector<Tensor> ts = {y, x}; Fs w = yv; w.insert(w.end(), v.begin(), v.end()); checkT(function::concat(ArrayView<Tensor>(ts), 0), w, {n + s[0], 2}, "concat of a view"); }
  if (k == 4) { Sh t = {n * 2}; checkT(y.reshape(IntArrayView(t)), yv, t, "reshape of a view"); checkT(y.clone(), yv, ys, "clone of a view"); }
  if (k == 5) { checkT(function::repeatInterleave(y, 1, 0), yv, ys, "repeat of a view"); auto l = y.toList<float>(); for (size_t i = 0; i < yv.size(); i++) CHECKF(l[i], yv[i], "toList of a view"); }
  if (k == 6) { Sh t = {2, n, 2}; Fs w; for (int i = 0; i < 2; i++) w.insert(w.end(), yv.begin(), yv.end()); checkT(function::expand(y, IntArrayView(t)), w, t, "expand of a view"); }
  checkT(x, v, s, "operand unchanged");
  END();
}
HARNESS(expand) {
  begin();
  Sh s = pickShape("d", 0, 3, 1, 3, 9); int64_t r = (int64_t)s.size(), extra = pick("extra", 0, r < 3 ? 2 : 1);
  Sh req, t; int64_t tot = 1;
  for (int64_t i = 0; i < r + extra; i++) {
    int64_t cur = i < extra ? 1 : s[i - extra], q;
    if (cur == 1) { q = pick("size", -1, 2); sym_assume(q != 0); } else q = pick("keep", 0, 1) ? -1 : cur;
    req.push_back(q); t.push_back(q == -1 ? cur : q); tot *= t.back();
  }
  Fs v = symFs("v", prod(s)); Tensor x = mk(v, s); Fs w(tot);
  forCoord(t, [&](int64_t i, const Sh& c) { Sh o(r); for (int64_t d = 0; d < r; d++) o[d] = s[d] == 1 ? 0 : c[d + extra]; w[i] = v[off(s, o)]; });
  checkT(function::expand(x, IntArrayView(req)), w, t, "expand"); checkT(x, v, s, "operand unchanged");
  END();
}
HARNESS(expand_invalid) {
  begin();
  int64_t a = pick("have", 2, 3), b = pick("want", 1, 4); sym_assume(a != b);
  Tensor x = mk(Fs(a, 1.f), {a}); Sh t = {2, b}; sym_reach("end"); sym_trap_policy(1); function::expand(x, IntArrayView(t));
  CHECK(false, "expand accepts a size that differs from a dimension larger than 1");
}
HARNESS(repeat_interleave) {
  begin();
  Sh s = pickShape("d", 1, 3, 1, 3, 12); int64_t r = (int64_t)s.size(), d = pick("dim", -r, r - 1), k = wrap(d, r), n = pick("repeats", 1, 3);
  Fs v = symFs("v", prod(s)); Tensor x = mk(v, s);
  Sh t = withDim(s, k, s[k] * n); Fs w(prod(t));
  forCoord(t, [&](int64_t i, const Sh& c) { Sh o = c; o[k] /= n; w[i] = v[off(s, o)]; });
  checkT(function::repeatInterleave(x, n, d), w, t, "repeatInterleave"); checkT(x, v, s, "operand unchanged");
  END();
}
HARNESS(triangles) {
  begin();
  Sh s = pickShape("d", 2, TIER == 2 ? 4 : 3, 1, 3, 18); int64_t g = sym_i64("diagonal", -5, 5); int64_t r = (int64_t)s.size();
  Fs v = symFs("v", prod(s)); Tensor x = mk(v, s), lo = x.tril(g), hi = x.triu(g);
  checkLayout(lo, s, "tril"); checkLayout(hi, s, "triu");
  forCoord(s, [&](int64_t i, const Sh& c) {
    int64_t e = c[r - 1] - c[r - 2];
    bool kl = e <= g, kh = e >= g;
    CHECK(fbits(fp(lo)[i]) == sym_ite32(kl, fbits(v[i]), 0u), "tril"); CHECK(fbits(fp(hi)[i]) == sym_ite32(kh, fbits(v[i]), 0u), "triu");
  });
  checkT(x, v, s, "operand unchanged");
  END();
}
// the same operations move elements of every element type
template <class T> static void typed(DType dt) {
  Sh s = {2, 3, 2}; std::vector<T> v(12);
  for (int i = 0; i < 12; i++) { if (sizeof(T) == 8) { uint64_t u = sym_u64("v"); memcpy(&v[i], &u, sizeof(T)); } else if (sizeof(T) == 4) { uint32_t u = sym_u32("v"); memcpy(&v[i], &u, sizeof(T)); } else if (sizeof(T) == 2) { uint16_t u = sym_u16("v"); memcpy(&v[i], &u, sizeof(T)); } else { uint8_t u = sym_u8("v"); memcpy(&v[i], &u, 1); } }
  Tensor x(v, IntArrayView(s), options::dtype(dt));
  auto chk = [&](const Tensor& y, const Sh& t, auto f, const char* m) {
    checkLayout(y, t, m); CHECK(y.dtype() == dt, m);
    const T* p = y.dataPtr<T>();
    forCoord(t, [&](int64_t i, const Sh& c) { T a = p[i], b = v[off(s, f(c))]; CHECK(memcmp(&a, &b, sizeof(T)) == 0, m); });
  };
  Sh p = {2, 0, 1};
  chk(x.permute(IntArrayView(p)), {2, 2, 3}, [](const Sh& c) { return Sh{c[1], c[2], c[0]}; }, "permute");
  chk(x.transpose(0, 1), {3, 2, 2}, [](const Sh& c) { return Sh{c[1], c[0], c[2]}; }, "transpose");
  chk(x.narrow(1, 1, 2), {2, 2, 2}, [](const Sh& c) { return Sh{c[0], c[1] + 1, c[2]}; }, "narrow");
  chk(x.narrow(0, 1, 1), {1, 3, 2}, [](const Sh& c) { return Sh{1, c[1], c[2]}; }, "narrow");
  chk(x.split(1, 1)[2], {2, 1, 2}, [](const Sh& c) { return Sh{c[0], 2, c[2]}; }, "split");
  chk(x.split(1, 0)[1], {1, 3, 2}, [](const Sh& c) { return Sh{1, c[1], c[2]}; }, "split");
  chk(x.chunk(2, 2)[1], {2, 3, 1}, [](const Sh& c) { return Sh{c[0], c[1], 1}; }, "chunk");
  chk(x.chunk(2, 0)[1], {1, 3, 2}, [](const Sh& c) { return Sh{1, c[1], c[2]}; }, "chunk");
  std::vector<Tensor> ts = {x, x};
  chk(function::concat(ArrayView<Tensor>(ts), 1), {2, 6, 2}, [](const Sh& c) { return Sh{c[0], c[1] % 3, c[2]}; }, "concat");
  chk(function::stack(ArrayView<Tensor>(ts), 1), {2, 2, 3, 2}, [](const Sh& c) { return Sh{c[0], c[2], c[3]}; }, "stack");
  Sh e = {2, 2, 3, 2};
  chk(function::expand(x, IntArrayView(e)), e, [](const Sh& c) { return Sh{c[1], c[2], c[3]}; }, "expand");
  chk(function::repeatInterleave(x, 2, -1), {2, 3, 4}, [](const Sh& c) { return Sh{c[0], c[1], c[2] / 2}; }, "repeatInterleave");
  Sh f = {12}; chk(x.reshape(IntArrayView(f)), f, [](const Sh& c) { return Sh{c[0] / 6, c[0] / 2 % 3, c[0] % 2}; }, "reshape");
  END();
}
HARNESS(typed) {
  begin();
  switch (pick("dtype", 0, 4)) { case 0: typed<Half>(DType::Float16); break; case 1: typed<BFloat16>(DType::BFloat16); break; case 2: typed<int32_t>(DType::Int32); break; case 3: typed<int64_t>(DType::Int64); break; default: typed<uint8_t>(DType::Bool); }
}
// element counts past unrolled or blocked loops, one case per operation
HARNESS(wide) {
  begin();
  int k = (int)pick("op", 0, 13);
  static const Sh S2[] = {{33, 17}, {40, 8}, {1, 130}, {64, 3}, {9, 65}}, S3[] = {{7, 9, 5}, {3, 40, 2}, {2, 3, 33}, {65, 1, 2}};
  if (k < 3) {
    Sh s = S2[pick("shape", 0, 4)]; Fs v = symFs("v", prod(s)); Tensor x = mk(v, s); Sh t = {s[1], s[0]}; Fs w(v.size());
    forCoord(t, [&](int64_t i, const Sh& c) { w[i] = v[c[1] * s[1] + c[0]]; });
    checkT(k == 0 ? x.t() : k == 1 ? x.transpose(0, 1) : x.permute(IntArrayView{1, 0}), w, t, "transposed matrix");
  } else if (k < 6) {
    Sh s = S3[pick("shape", 0, 3)], p = k == 3 ? Sh{2, 0, 1} : k == 4 ? Sh{0, 2, 1} : Sh{2, 1, 0}; Fs v = symFs("v", prod(s)); Tensor x = mk(v, s); Sh t; for (auto d : p) t.push_back(s[d]); Fs w(v.size());
    forCoord(t, [&](int64_t i, const Sh& c) { Sh o(3); for (int d = 0; d < 3; d++) o[p[d]] = c[d]; w[i] = v[off(s, o)]; });
    checkT(k == 3 ? x.permute(IntArrayView(p)) : k == 4 ? x.transpose(1, -1) : x.transpose(0, 2), w, t, "permuted tensor");
  } else {
    Sh s = S3[pick("shape", 0, 3)]; int64_t d = pick("dim", 0, 2); Fs v = symFs("v", prod(s)); Tensor x = mk(v, s);
    if (k == 6) { int64_t n = s[d], z = (n + 3) / 4, at = 0; for (auto& y : x.chunk(4, d)) { int64_t l = std::min(z, n - at); checkT(y, slice(v, s, d, at, l), withDim(s, d, l), "chunk"); at += l; } CHECK(at == n, "chunks cover"); }
    if (k == 7) { int64_t st = s[d] / 3, l = s[d] - st; checkT(x.narrow(d, st, l), slice(v, s, d, st, l), withDim(s, d, l), "narrow"); }
    if (k == 8) { Sh sec = {s[d] / 3, s[d] - s[d] / 3 - s[d] / 5, s[d] / 5}; int64_t at = 0; auto ps = x.split(IntArrayView(sec), d); for (int i = 0; i < 3; i++) { checkT(ps[i], slice(v, s, d, at, sec[i]), withDim(s, d, sec[i]), "split"); at += sec[i]; } }
    if (k == 9) { Sh q = withDim(s, d, 5); Fs v2 = symFs("w", prod(q)); Tensor y = mk(v2, q); std::vector<Tensor> ts = {x, y, x}; int64_t n = s[d]; Sh t = withDim(s, d, 2 * n + 5); Fs w(prod(t));
      forCoord(t, [&](int64_t i, const Sh& c) { Sh o = c; bool m = o[d] >= n && o[d] < n + 5; if (o[d] >= n + 5) o[d] -= n + 5; else if (m) o[d] -= n; w[i] = m ? v2[off(q, o)] : v[off(s, o)]; });
      checkT(function::concat(ArrayView<Tensor>(ts), d), w, t, "concat"); }
    if (k == 10) { Fs v2 = symFs("w", prod(s)); std::vector<Tensor> ts = {x, mk(v2, s)}; Sh t = s; t.insert(t.begin() + d, 2); Fs w(prod(t));
      forCoord(t, [&](int64_t i, const Sh& c) { Sh o = c; int64_t j = o[d]; o.erase(o.begin() + d); w[i] = (j ? v2 : v)[off(s, o)]; }); checkT(function::stack(ArrayView<Tensor>(ts), d), w, t, "stack"); }
    if (k == 11) { Sh t = withDim(s, d, s[d] * 3); Fs w(prod(t)); forCoord(t, [&](int64_t i, const Sh& c) { Sh o = c; o[d] /= 3; w[i] = v[off(s, o)]; }); checkT(function::repeatInterleave(x, 3, d), w, t, "repeatInterleave"); }
    if (k == 12) { Sh q = s; q.insert(q.begin() + d, 1); Sh t = s; t.insert(t.begin() + d, 4); Fs w(prod(t)); forCoord(t, [&](int64_t i, const Sh& c) { Sh o = c; o.erase(o.begin() + d); w[i] = v[off(s, o)]; }); checkT(function::expand(x.reshape(IntArrayView(q)), IntArrayView(t)), w, t, "expand"); }
    if (k == 13) { bool lo = pick("lower", 0, 1); int64_t g = d * 3 - 3; Fs w(v.size()); forCoord(s, [&](int64_t i, const Sh& c) { w[i] = (lo ? c[2] <= c[1] + g : c[2] >= c[1] + g) ? v[i] : 0.f; }); checkT(lo ? function::tril(x, g) : function::triu(x, g), w, s, "triangle"); }
    checkT(x, v, s, "operand unchanged");
  }
  END();
}
// five to eight dimensions cross the inline capacity of the shape vectors
HARNESS(high_rank) {
  begin();
  int r = (int)pick("rank", 5, 8); int64_t a = pick("a", 0, 1) ? r - 1 : 0, b = pick("b", 1, r - 2); if (TIER == 2) b = pick("b2", 1, r - 2);
  Sh s(r, 1); s[r / 2] = 2; s[a] = 2; s[b] = 3; int k = (int)pick("op", 0, 6);
  Fs v = symFs("v", prod(s)); Tensor x = mk(v, s);
  if (k == 0) { Sh t(s.rbegin(), s.rend()); Fs w(v.size()); forCoord(t, [&](int64_t i, const Sh& c) { Sh o(c.rbegin(), c.rend()); w[i] = v[off(s, o)]; }); checkT(x.permute(), w, t, "permute()"); }
  if (k == 1) { Sh t = s; std::swap(t[a], t[b]); Fs w(v.size()); forCoord(t, [&](int64_t i, const Sh& c) { Sh o = c; std::swap(o[a], o[b]); w[i] = v[off(s, o)]; }); checkT(x.transpose(a, b - r), w, t, "transpose"); }
  if (k == 2) { checkT(x.narrow(b, 1, 2), slice(v, s, b, 1, 2), withDim(s, b, 2), "narrow"); }
  if (k == 3) { auto ps = x.split(1, b); for (int i = 0; i < s[b]; i++) checkT(ps[i], slice(v, s, b, i, 1), withDim(s, b, 1), "split"); checkT(function::concat(ArrayView<Tensor>(ps), b - r), v, s, "concat"); }
  if (k == 4) { Sh t = withDim(s, b, s[b] * 2); Fs w(prod(t)); forCoord(t, [&](int64_t i, const Sh& c) { Sh o = c; o[b] /= 2; w[i] = v[off(s, o)]; }); checkT(function::repeatInterleave(x, 2, b), w, t, "repeatInterleave"); }
  if (k == 5) { Sh t = s; for (auto& q : t) if (q == 1) { q = 2; break; } Fs w(prod(t)); forCoord(t, [&](int64_t i, const Sh& c) { Sh o = c; for (int d = 0; d < r; d++) if (s[d] == 1) o[d] = 0; w[i] = v[off(s, o)]; }); checkT(function::expand(x, IntArrayView(t)), w, t, "expand"); }
  if (k == 6 && r < 8) { std::vector<Tensor> ts = {x, x}; Sh t = s; t.insert(t.begin() + b, 2); Fs w(prod(t)); forCoord(t, [&](int64_t i, const Sh& c) { Sh o = c; o.erase(o.begin() + b); w[i] = v[off(s, o)]; }); checkT(function::stack(ArrayView<Tensor>(ts), b), w, t, "stack"); }
  checkT(x, v, s, "operand unchanged");
  END();
}
// triangles of tensors with several leading dimensions
HARNESS(triangles_high) {
  begin(); static const Sh S[] = {{2, 2, 2, 2}, {2, 1, 3, 2}, {3, 2, 1, 2}, {1, 2, 2, 1, 3}, {2, 2, 2, 2, 3}}; Sh s = S[pick("shape", 0, 4)]; int64_t g = pick("diagonal", -3, 3), r = (int64_t)s.size(); Fs v = symFs("v", prod(s)); Tensor x = mk(v, s), lo = x.tril(g), hi = x.triu(g); checkLayout(lo, s, "tril"); checkLayout(hi, s, "triu");
  forCoord(s, [&](int64_t i, const Sh& c) { int64_t e = c[r - 1] - c[r - 2]; CHECK(fbits(fp(lo)[i]) == (e <= g ? fbits(v[i]) : 0u), "tril"); CHECK(fbits(fp(hi)[i]) == (e >= g ? fbits(v[i]) : 0u), "triu"); }); checkT(x, v, s, "operand unchanged"); END();
}
