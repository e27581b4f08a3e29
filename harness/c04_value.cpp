#include "common.h"
#include "Operations.h"
#include "Functions.h"
#include "Utils/RandomGenerator.h"
struct E { Tensor t; Fs v; Sh s; };
typedef std::vector<E> Pool;
static Fs part(const Fs& v, size_t a, size_t n) { return Fs(v.begin() + a, v.begin() + a + n); }
static Sh withFirst(Sh s, int64_t n) { s[0] = n; return s; }
// derivation k of an entry; false when it does not apply
enum { NSHARE = 8, NDERIVE = 27 };
static bool derive(int k, Pool& P, size_t from) {
  E e = P[from]; Sh s = e.s; int64_t n = prod(s), r = (int64_t)s.size(); const Tensor& t = e.t;
  auto add = [&](const Tensor& y, const Fs& v, const Sh& q) { P.push_back({y, v, q}); return true; };
  int64_t row = r ? n / s[0] : 0;
  switch (k) {
    // these share the buffer of their operand
    case 0: return add(t.clone(), e.v, s);
    case 1: { Sh q = {n}; return add(t.reshape(IntArrayView(q)), e.v, q); }
    case 2: if (!r) return false; return add(t.narrow(0, s[0] - 1, 1), part(e.v, (s[0] - 1) * row, row), withFirst(s, 1));
    case 3: { if (!r) return false; auto ps = t.split(1, 0); for (int64_t i = 0; i < s[0]; i++) add(ps[i], part(e.v, i * row, row), withFirst(s, 1)); return true; }
    case 4: { if (!r) return false; Sh ix = {-1}; return add(op::index(t, IntArrayView(ix)), part(e.v, (s[0] - 1) * row, row), Sh(s.begin() + 1, s.end())); }
    case 5: { if (!r) return false; auto ps = t.chunk(2, 0); int64_t a = (s[0] + 1) / 2; add(ps[0], part(e.v, 0, a * row), withFirst(s, a)); if (s[0] > a) add(ps[1], part(e.v, a * row, (s[0] - a) * row), withFirst(s, s[0] - a)); return true; }
    case 6: { Sh q = s; q.insert(q.begin(), 1); return add(t.unsqueeze(0), e.v, q); }
    case 7: { Sh q = {n, 1}; return add(t.view(IntArrayView(q)), e.v, q); }
    // the rest
    case 8: { Sh q = {n}; if (!r) return false; return add(t.flatten(), e.v, q); }
    case 9: { Sh q; for (auto d : s) if (d != 1) q.push_back(d); return add(t.squeeze(), e.v, q); }
    case 10: { if (!r) return false; Sh q = s, a = {1, s[0]}; q.insert(q.begin(), 1); return add(t.unflatten(0, IntArrayView(a)), e.v, q); }
    case 11: { if (r != 2) return false; Fs w(n); for (int64_t i = 0; i < n; i++) w[i] = e.v[(i % s[0]) * s[1] + i / s[0]]; Sh q = {s[1], s[0]}; return add(t.t(), w, q); }
    case 12: { if (r != 2) return false; Fs w(n); for (int64_t i = 0; i < n; i++) w[i] = e.v[(i % s[0]) * s[1] + i / s[0]]; Sh q = {s[1], s[0]}; return add(t.permute(), w, q); }
    case 13: { if (!r) return false; std::vector<Tensor> one = {t}; return add(function::concat(ArrayView<Tensor>(one), 0), e.v, s); }
    case 14: { std::vector<Tensor> one = {t}; Sh q = s; q.insert(q.begin(), 1); return add(function::stack(ArrayView<Tensor>(one), 0), e.v, q); }
    case 15: return add(function::expand(t, IntArrayView(s)), e.v, s);
    case 16: if (!r) return false; return add(function::repeatInterleave(t, 1, 0), e.v, s);
    case 17: if (r != 2) return false; return add(t.tril(5), e.v, s);
    case 18: if (!r) return false; return add(function::indexSelect(t, 0, mkI({0}, {1})), part(e.v, 0, row), withFirst(s, 1));
    case 19: { if (!r) return false; std::vector<Tensor> ix = {mkI({0}, {1})}; return add(op::indexAdvance(t, ArrayView<Tensor>(ix)), part(e.v, 0, row), withFirst(s, 1)); }
    case 20: if (!r || s[r - 1] < 1) return false; if (r != 1) return false; return add(t.narrow(-1, 0, s[0]), e.v, s);
    case 21: return add(Tensor::maximum(t, t), e.v, s);
    case 22: { if (r) return false; return add(t.sum(), e.v, s); }   // reductions of a scalar
    case 23: { if (r) return false; return add(t.max(), e.v, s); }
    case 24: { if (r) return false; return add(t.min(), e.v, s); }
    case 25: { if (r) return false; return add(t.mean(), e.v, s); }
    default: { if (r != 2) return false; return add(t.transpose(0, 1).transpose(0, 1), e.v, s); }
  }
}
enum { NMUT = 34 };
static const int shortMut[] = {0, 3, 5, 8, 9, 10, 12, 24};
static bool mutate(int m, E& e, const Fs& q) {
  int64_t n = prod(e.s), r = (int64_t)e.s.size(); Tensor& t = e.t; float c = q[0]; bool keep = true;
  if (n > (int64_t)q.size()) return false;
  Fs qq = part(q, 0, n); Tensor o = mk(qq, e.s);
  auto set = [&](auto f) { for (int64_t i = 0; i < n; i++) e.v[i] = f(i); };
  switch (m) {
    case 0: t.fill_(c); set([&](int64_t) { return c; }); break;
    case 1: t.fillZero_(); set([&](int64_t) { return 0.f; }); break;
    case 2: t.fillOne_(); set([&](int64_t) { return 1.f; }); break;
    case 3: { std::vector<uint8_t> b; for (int64_t i = 0; i < n; i++) b.push_back(i % 2 == 0); Tensor mask(b, IntArrayView(e.s), options::dtype(DType::Bool)); t.fillMasked_(mask, c); set([&](int64_t i) { return b[i] ? c : e.v[i]; }); break; }
    case 4: t.fillLinSpace_(2.f, 1.f, n); set([&](int64_t i) { return 2.f + i; }); break;
    case 5: op::negInplace(t); set([&](int64_t i) { return -e.v[i]; }); break;
    case 6: op::absInplace(t); set([&](int64_t i) { return std::fabs(e.v[i]); }); break;
    case 7: t -= o; keep = false; break;
    case 8: op::mulInplace(t, o); set([&](int64_t i) { return e.v[i] * qq[i]; }); break;
    case 9: { if (r == 0) return false; Sh is(r, 1); t.scatter_(0, mkI({-1}, is), mk({c}, is)); e.v[(e.s[0] - 1) * (n / e.s[0])] = c; break; }
    case 10: { if (r == 0) return false; Sh ix; for (int i = 0; i < r; i++) ix.push_back(-1); op::indexPut(t, IntArrayView(ix), Tensor::scalar(c)); e.v[n - 1] = c; break; }
    case 11: { if (r == 0) return false; Sh ix = {0}; int64_t row = n / e.s[0]; op::indexPut(t, IntArrayView(ix), row == 1 ? Tensor::scalar(qq[0]) : mk(part(qq, 0, row), {row})); for (int64_t i = 0; i < row; i++) e.v[i] = qq[i]; break; }
    case 12: { if (r == 0) return false; std::vector<Tensor> ix(r, mkI({-1}, {1})); op::indexPutAdvance(t, ArrayView<Tensor>(ix), Tensor::scalar(c)); e.v[n - 1] = c; break; }
    case 13: op::divInplace(t, o); set([&](int64_t i) { return e.v[i] / qq[i]; }); break;
    case 14: t *= o; set([&](int64_t i) { return e.v[i] * qq[i]; }); break;
    case 15: t /= o; set([&](int64_t i) { return e.v[i] / qq[i]; }); break;
    case 16: t.fillUniform_(0.f, 1.f); keep = false; break;
    case 17: t.fillNormal_(); keep = false; break;
    case 18: t.fillBernoulli_(0.5f); keep = false; break;
    case 19: op::addcmulInplace(t, o, o, 1.f); keep = false; break;
    case 20: op::clampMinInplace(t, o); keep = false; break;
    case 21: op::powInplace(t, o); keep = false; break;
    case 22: op::sqrtInplace(t); keep = false; break;
    case 23: op::addInplace(t, o, 2.f); keep = false; break;
    case 24: op::negOut(t, o); set([&](int64_t i) { return -qq[i]; }); break;
    case 25: op::mulOut(t, o, o); set([&](int64_t i) { return qq[i] * qq[i]; }); break;
    case 26: op::subOut(t, o, o, 1.f); keep = false; break;
    case 27: op::clampOut(t, o, Tensor::scalar(0.f), Tensor::scalar(1.f)); keep = false; break;
    case 28: op::addcmulOut(t, o, o, o, 1.f); keep = false; break;
    case 29: if (r == 0) return false; op::softmaxOut(t, o, -1); keep = false; break;
    case 30: if (r == 0) return false; op::logSoftmaxOut(t, o, -1); keep = false; break;
    case 31: { std::vector<uint8_t> b(n, 1); Tensor mask(b, IntArrayView(e.s), options::dtype(DType::Bool)); op::fillMaskedOut(t, o, mask, c); set([&](int64_t) { return c; }); break; }
    case 32: op::reluOut(t, o); keep = false; break;
    default: op::clampInplace(t, Tensor::scalar(0.f), Tensor::scalar(1.f)); keep = false; break;
  }
  if (!keep) { const float* p = fp(t); for (int64_t i = 0; i < n; i++) e.v[i] = p[i]; }
  checkVals(o, qq, "an in-place operation leaves its operands alone");
  return true;
}
static void checkAll(Pool& P, size_t target) {
  for (size_t i = 0; i < P.size(); i++) checkT(P[i].t, P[i].v, P[i].s, i == target ? "the written tensor holds the written values" : "a write through one tensor changes another");
}
// every deriving operation against every in-place operation, writing to either side
HARNESS(derive_then_write) {
  begin(); manualSeed(1);
  Pool P; Sh s = pick("scalar", 0, 1) ? Sh{} : Sh{2, 2}; Fs v = symFs("v", prod(s)); P.push_back({mk(v, s), v, s});
  int k = (int)pick("derive", 0, NDERIVE - 1); sym_assume(derive(k, P, 0)); checkAll(P, 0);
  size_t w = (size_t)pick("target", 0, (int64_t)P.size() - 1); Fs q = symFs("q", 4);
  int m = (int)pick("write", 0, NMUT - 1);
  Tensor keep = P[w].t.clone(); Fs kv = P[w].v;
  sym_assume(mutate(m, P[w], q)); checkAll(P, w); checkVals(keep, kv, "a write reaches a clone");
  END();
}
// without anything sharing the buffer, writes still only touch their tensor
HARNESS(write_unshared) {
  begin(); manualSeed(1);
  Sh s = pickShape("d", 0, 2, 1, 2, 4); Fs v = symFs("v", prod(s)), q = symFs("q", 4); Pool P; P.push_back({mk(v, s), v, s});
  sym_assume(mutate((int)pick("write", 0, NMUT - 1), P[0], q)); checkAll(P, 0);
  END();
}
// chains of sharing: a part of a clone of a part ..., written at any link
HARNESS(chain) {
  begin();
  Pool P; Sh s = {2, 2}; Fs v = symFs("v", 4); P.push_back({mk(v, s), v, s});
  int steps = TIER == 2 ? 3 : 2;
  for (int i = 0; i < steps; i++) { size_t f = (size_t)pick("from", 0, (int64_t)P.size() - 1); sym_assume(derive((int)pick("derive", 0, NSHARE - 1), P, f)); }
  size_t w = (size_t)pick("target", 0, (int64_t)P.size() - 1); Fs q = symFs("q", 4);
  sym_assume(mutate(shortMut[pick("write", 0, TIER == 2 ? 3 : 2) * (TIER == 2 ? 1 : 2)], P[w], q)); checkAll(P, w);
  END();
}
// two writes: the second one finds a buffer that the first one separated (or not)
HARNESS(two_writes) {
  begin();
  Pool P; Sh s = {2, 2}; Fs v = symFs("v", 4); P.push_back({mk(v, s), v, s});
  sym_assume(derive((int)pick("derive", 0, NSHARE - 1), P, 0));
  for (int i = 0; i < 2; i++) {
    size_t w = (size_t)pick("target", 0, (int64_t)P.size() - 1); Fs q = symFs("q", 4);
    sym_assume(mutate(shortMut[TIER == 2 ? pick("write", 0, 7) : i == 0 ? 3 : 2], P[w], q)); checkAll(P, w);
    if (i == 0) { size_t f = (size_t)pick("from", 0, (int64_t)P.size() - 1); int d = (int)pick("again", 0, 2); if (d < 2) sym_assume(derive(d == 0 ? 0 : 2, P, f)); }
  }
  END();
}
// a tensor combined in place with a part of itself
HARNESS(self_overlap) {
  begin();
  Sh s = {2, 2}; Fs v = symFs("v", 4); Tensor x = mk(v, s), row = x.narrow(0, pick("row", 0, 1), 1); Fs rv(fp(row), fp(row) + 2);
  int k = (int)pick("op", 0, 3); Fs w(4);
  for (int i = 0; i < 4; i++) w[i] = k == 0 ? v[i] * rv[i % 2] : k == 1 ? v[i] * v[i] : k == 2 ? v[i] / rv[i % 2] : -v[i];
  if (k == 0) op::mulInplace(x, row); else if (k == 1) op::mulInplace(x, x.clone()); else if (k == 2) op::divInplace(x, row); else { Tensor y = x.clone(); op::negOut(x, y); checkT(y, v, s, "operand changed"); }
  checkT(x, w, s, "in-place operation with a part of the tensor itself"); checkT(row, rv, {1, 2}, "the part keeps its values");
  END();
}
// gradients handed over by the caller stay the caller's
HARNESS(gradients) {
  begin();
  Sh s = {2}; Fs v = symFs("v", 2), g = symFs("g", 2), h = symFs("h", 2); Tensor x = mk(v, s, true), G = mk(g, s), H = mk(h, s);
  int k = (int)pick("first", 0, 1), m = (int)pick("then", 0, 4);
  if (k == 0) x.setGrad(G); else x.addGrad(G);
  checkT(x.grad(), g, s, "the gradient that was set"); Fs e = g;
  if (m == 0) { x.zeroGrad(); e = {0.f, 0.f}; } else if (m == 1) { x.addGrad(H); e = Fs(fp(x.grad()), fp(x.grad()) + 2); } else if (m == 2) { op::negInplace(G); for (auto& z : g) z = -z; } else if (m == 3) { Tensor q = x.grad(); op::negInplace(x.grad()); for (auto& z : e) z = -z; } else { op::negInplace(x); for (auto& z : v) z = -z; }
  checkT(G, g, s, "the caller's gradient tensor changed"); checkT(H, h, s, "the caller's gradient tensor changed"); checkT(x.grad(), e, s, "gradient"); checkT(x, v, s, "tensor changed by its gradient");
  END();
}
// writes through every element type
template <class T> static void typed(DType dt) {
  Sh s = {2, 2}; std::vector<T> v(4);
  for (auto& t : v) { uint64_t u = sizeof(T) == 8 ? sym_u64("v") : sizeof(T) == 4 ? sym_u32("v") : sizeof(T) == 2 ? sym_u16("v") : sym_u8("v"); memcpy(&t, &u, sizeof(T)); }
  Tensor x(v, IntArrayView(s), options::dtype(dt)); std::vector<Tensor> P = {x, x.clone(), x.narrow(0, 1, 1), x.reshape(IntArrayView(Sh{4}))};
  size_t w = (size_t)pick("target", 0, 3); int m = (int)pick("write", 0, 3); Tensor& y = P[w];
  if (m == 0) y.fill_(1); else if (m == 1) { Sh ix = {0}; std::vector<T> val(y.numel() / y.shape(0)); for (auto& q : val) q = v[3]; Sh vs = {(int64_t)val.size()}; Tensor q(val, IntArrayView(vs), options::dtype(dt)); op::indexPut(y, IntArrayView(ix), q); }
  else if (m == 2) { std::vector<uint8_t> b(y.numel(), 1); Tensor mask(b, y.shape(), options::dtype(DType::Bool)); y.fillMasked_(mask, 1); }
  else { Sh is(y.dim(), 1); std::vector<T> val = {v[3]}; y.scatter_(0, mkI({0}, is), Tensor(val, IntArrayView(is), options::dtype(dt))); }
  for (size_t i = 0; i < 4; i++) if (i != w) { const T* p = P[i].dataPtr<T>(); for (int64_t j = 0; j < P[i].numel(); j++) CHECK(memcmp(p + j, &v[i == 2 ? j + 2 : j], sizeof(T)) == 0, "a write through one tensor changes another"); }
  END();
}
HARNESS(typed) {
  begin();
  switch (pick("dtype", 0, 4)) { case 0: typed<Half>(DType::Float16); break; case 1: typed<BFloat16>(DType::BFloat16); break; case 2: typed<int32_t>(DType::Int32); break; case 3: typed<int64_t>(DType::Int64); break; default: typed<uint8_t>(DType::Bool); }
}
// known finding: copy_ writes through
HARNESS(kf_copy_through) {
  begin();
  Fs v = symFs("v", 2), q = symFs("q", 2); Sh s = {2}; Tensor x = mk(v, s), y = x.clone(), z = mk(q, s);
  y.copy_(z); checkT(y, q, s, "copy_"); checkT(x, v, s, "copy_ on a clone changes the original");
  END();
}
