// C34: the CUDA back end, run thread by thread on the host, against the CPU back end of the same library.
#include "common.h"
#include "cuemu.h"
#include "Utils/RandomGenerator.h"
#include "Optimizer.h"
#include "Modules.h"
static Device G(int i = 0) { return Device::cuda(i); }
static Tensor dev(const Tensor& t, int i = 0) { return t.to(G(i)); }
static Tensor host(const Tensor& t) { return t.to(Device::cpu()); }
static void start() { beginReal(); if (TIER == 2) { cuemu::lazy = pick("lazy", 0, 1); cuemu::backward = pick("backward", 0, 1); } else cuemu::lazy = cuemu::backward = pick("schedule", 0, 1); }
// the shapes a harness covers: a few in the quick tier, all of them in the thorough one
static Sh few(std::vector<Sh> l, int minRank, int maxRank, int lo, int hi, int cap) { return TIER == 2 ? pickShape("s", minRank, maxRank, lo, hi, cap) : l[pick("shape", 0, (int64_t)l.size() - 1)]; }
static void same(const Tensor& d, const Tensor& c, const char* msg) {
  CHECK(d.device().isCuda(), "the result is on the device"); Tensor h = host(d);
  CHECK(h.device().isCpu() && h.dtype() == c.dtype(), msg);
  checkLayout(h, shp(c), msg);
  if (c.dtype() == DType::Float32) checkVals(h, Fs(c.dataPtr<float>(), c.dataPtr<float>() + c.numel()), msg);
  else if (c.dtype() == DType::Int64) checkI(h, std::vector<int64_t>(c.dataPtr<int64_t>(), c.dataPtr<int64_t>() + c.numel()), shp(c), msg);
  else if (c.dtype() == DType::Bool) for (int64_t i = 0; i < c.numel(); i++) CHECK(h.dataPtr<uint8_t>()[i] == c.dataPtr<uint8_t>()[i], msg);
}
template <class F, class... T> static void agree(const char* msg, F f, const T&... t) { Tensor c = f(t...); Tensor d = f(dev(t)...); same(d, c, msg); }
template <class F, class... T> static void agree2(const char* msg, F f, const T&... t) { TensorPair c = f(t...); TensorPair d = f(dev(t)...); same(d.first, c.first, msg); same(d.second, c.second, msg); }
// values that no two elements share
static Fs distinct(const char* n, int64_t k) { Fs v = symFs(n, k); for (int64_t i = 0; i < k; i++) for (int64_t j = 0; j < i; j++) sym_assume(v[i] != v[j]); return v; }
// long tensors: a few symbolic elements among fixed ones
static Fs longV(const char* n, int64_t k) { Fs v(k); for (int64_t i = 0; i < k; i++) v[i] = 0.25f * (float)((i * 37) % 101) - 12.f; for (int64_t p : {(int64_t)0, k / 2, k - 1}) v[p] = sym_f32(n); return v; }
HARNESS(move) {
  start(); Sh s = pickShape("s", 0, 3, 1, 3, 12); Fs v = symFs("v", prod(s)); Tensor t = mk(v, s);
  int64_t a = pick("dev", 0, 1); Tensor d = dev(t, a); same(d, t, "moved to the device and back");
  Tensor e = (d + d).to(G(pick("dev2", 0, 1))); same(e, t + t, "moved between devices"); same(d, t, "the source keeps its values");
  Tensor p = Tensor(v, IntArrayView(s), options::dtype(DType::Float32).pinnedMemory(true)); Tensor q = dev(p); p.fill_(0.f); same(q, t, "moved from pinned memory"); Tensor z = Tensor::zeros(IntArrayView(s), options::device(G())); z.copy_(t); same(z, t, "copied to the device"); Tensor c = Tensor::zeros(IntArrayView(s)); c.copy_(d); checkVals(c, v, "copied from the device");
  END();
}
// with the allocators' caches: memory that is handed out again while work is pending
HARNESS(reuse) {
  start(); CachedAllocator::setCacheEnabled(true); Fs v = symFs("v", 3), w = symFs("w", 3), x = symFs("x", 3); int64_t k = pick("case", 0, 3); Tensor d; int from = (int)pick("dev", 0, 1);
  if (k == 0) { { Tensor p = Tensor(v, IntArrayView({3}), options::dtype(DType::Float32).pinnedMemory(true)); d = dev(p, from); } Tensor q = Tensor(w, IntArrayView({3}), options::dtype(DType::Float32).pinnedMemory(true)); same(d, mk(v, {3}), "values moved from pinned memory"); CHECKF(fp(q)[0], w[0], "pinned tensor"); }
  if (k == 1) { { Tensor p = dev(mk(v, {3}), from); d = p.to(G(!from)); } Tensor q = dev(mk(w, {3}), from); same(d, mk(v, {3}), "values moved between devices"); same(q, mk(w, {3}), "a later tensor"); }
  if (k == 2) { { Tensor p = dev(mk(v, {3}), from); d = (p + p).to(G(!from)) * dev(mk(x, {3}), !from); } Tensor q = dev(mk(w, {3}), from) - dev(mk(x, {3}), from); Fs e, f; for (int i = 0; i < 3; i++) { e.push_back((v[i] + v[i]) * x[i]); f.push_back(w[i] - x[i]); } same(d, mk(e, {3}), "computed on two devices"); same(q, mk(f, {3}), "a later tensor"); }
  if (k == 3) { { Tensor p = dev(mk(v, {3}), from); d = p * p; } { Tensor p = dev(mk(w, {3}), from); d = d + p; } Tensor q = dev(mk(x, {3}), from); Fs e; for (int i = 0; i < 3; i++) e.push_back(v[i] * v[i] + w[i]); same(d, mk(e, {3}), "computed from tensors that are gone"); same(q, mk(x, {3}), "a later tensor"); }
  END();
}
HARNESS(unary) {
  start(); Sh s = few({{}, {3}, {2, 2}}, 0, 2, 1, 3, 6); Tensor a = mk(symFs("a", prod(s)), s); int64_t form = pick("form", 0, 2);
#define U(n, o, body) case n: if (form == 0) agree(#o, [](const Tensor& x) { return op::o(x); }, a); else if (form == 1) agree(#o, [](const Tensor& x) { Tensor r = Tensor::empty(x.shape(), x.options()); op::o##Out(r, x); return r; }, a); else agree(#o, [](const Tensor& x) { Tensor r = x.clone(); r.copyOnWrite(); op::o##Inplace(r); return r; }, a); break;
  switch (pick("op", 0, 13)) { U(0, abs, ) U(1, neg, ) U(2, sign, ) U(3, square, ) U(4, exp, ) U(5, sin, ) U(6, cos, ) U(7, sigmoid, ) U(8, tanh, ) U(9, relu, ) U(10, gelu, ) U(11, silu, )
    case 12: a = mk(symFsR("p", prod(s), 0.5f, 100.f), s); switch (form) { U(0, sqrt, ) U(1, sqrt, ) U(2, sqrt, ) } break;
    case 13: a = mk(symFsR("p", prod(s), 0.5f, 100.f), s); switch (form) { U(0, log, ) U(1, log, ) U(2, log, ) } break; }
  END();
}
HARNESS(unary_backward) {
  start(); Sh s = pickShape("s", 1, 2, 1, 3, 6); Tensor g = mk(symFs("g", prod(s)), s), a = mk(symFs("a", prod(s)), s);
  switch (pick("op", 0, 1)) { case 0: agree("sinBackwardP1", [](const Tensor& x, const Tensor& y) { return op::sinBackwardP1(x, y); }, g, a); break; case 1: agree("cosBackwardP1", [](const Tensor& x, const Tensor& y) { return op::cosBackwardP1(x, y); }, g, a); break; }
  END();
}
static const Sh bsh[][2] = {{{}, {}}, {{}, {2, 3}}, {{2, 3}, {}}, {{2, 3}, {2, 3}}, {{3}, {2, 3}}, {{2, 1}, {1, 3}}, {{2, 1, 3}, {2, 1}}, {{1}, {2, 2, 2}}, {{2, 2, 1, 2}, {2, 1, 1}}};
HARNESS(binary) {
  start(); int64_t k = pick("case", 0, 8); Sh s = bsh[k][0], t = bsh[k][1]; Tensor a = mk(symFs("a", prod(s)), s), b = mk(symFs("b", prod(t)), t);
  switch (pick("op", 0, 6)) {
    case 0: agree("add", [](const Tensor& x, const Tensor& y) { return x + y; }, a, b); break;
    case 1: agree("sub", [](const Tensor& x, const Tensor& y) { return x - y; }, a, b); break;
    case 2: agree("mul", [](const Tensor& x, const Tensor& y) { return x * y; }, a, b); break;
    case 3: b = mk(symFsR("d", prod(t), 0.5f, 4.f), t); agree("div", [](const Tensor& x, const Tensor& y) { return x / y; }, a, b); break;
    case 4: a = mk(symFsR("q", prod(s), 0.5f, 4.f), s); agree("pow", [](const Tensor& x, const Tensor& y) { return op::pow(x, y); }, a, b); break;
    case 5: agree("add alpha", [](const Tensor& x, const Tensor& y) { return op::add(x, y, 3); }, a, b); break;
    case 6: agree("sub alpha", [](const Tensor& x, const Tensor& y) { return op::sub(x, y, 0.5f); }, a, b); break; }
  END();
}
HARNESS(binary_compare) {
  start(); int64_t k = pick("case", 1, 5); Sh s = bsh[k][0], t = bsh[k][1]; Fs va(prod(s), 1.f), vb(prod(t), 1.f); va[pick("i", 0, prod(s) - 1)] = sym_f32("a"); vb[0] = sym_f32("b"); Tensor a = mk(va, s), b = mk(vb, t);
#define B(n, o) case n: agree(#o, [](const Tensor& x, const Tensor& y) { return op::o(x, y); }, a, b); break;
  switch (pick("op", 0, 9)) { B(0, maximum) B(1, minimum) B(2, eq) B(3, ne) B(4, lt) B(5, le) B(6, gt) B(7, ge) B(8, clampMin) B(9, clampMax) }
  END();
}
HARNESS(binary_inplace) {
  start(); int64_t k = pick("case", 0, 3); static const Sh sh[][2] = {{{2, 3}, {2, 3}}, {{2, 3}, {3}}, {{2, 3}, {}}, {{2, 1, 2}, {1, 1, 2}}}; Sh s = sh[k][0], t = sh[k][1]; Tensor a = mk(symFs("a", prod(s)), s), b = mk(symFsR("b", prod(t), 0.5f, 4.f), t);
  switch (pick("op", 0, 7)) {
#define I(n, o, ...) case n: agree(#o, [](const Tensor& x, const Tensor& y) { Tensor r = x.clone(); r.copyOnWrite(); op::o##Inplace(r, y, ##__VA_ARGS__); return r; }, a, b); break;
    I(0, add, 2) I(1, sub, 2) I(2, mul) I(3, div)
    case 4: agree("addOut", [](const Tensor& x, const Tensor& y) { Tensor r = Tensor::empty(x.shape(), x.options()); op::addOut(r, x, y, 2); return r; }, a, b); break;
    case 5: agree("mulOut", [](const Tensor& x, const Tensor& y) { Tensor r = Tensor::empty(x.shape(), x.options()); op::mulOut(r, x, y); return r; }, a, b); break;
    case 6: agree("clamp", [](const Tensor& x, const Tensor& y) { return op::clamp(x, Tensor::scalar(-1.f, x.options()), Tensor::scalar(1.f, x.options())); }, mk({sym_f32("c"), 0.f}, {2}), b); break;
    case 7: agree("addcmul", [](const Tensor& x, const Tensor& y) { return op::addcmul(x, y, y, 0.5f); }, a, b); break; }
  END();
}
HARNESS(logic) {
  start(); uint8_t m[4]; for (auto& x : m) x = (uint8_t)pick("m", 0, 1);
  auto mkB = [&](int k) { Tensor t = Tensor::empty({2}, options::dtype(DType::Bool)); t.dataPtr<uint8_t>()[0] = m[k]; t.dataPtr<uint8_t>()[1] = m[k + 1]; return t; };
  Tensor a = mkB(0), b = mkB(2), v = mk(symFs("v", 2), {2});
  switch (pick("op", 0, 4)) {
    case 0: agree("not", [](const Tensor& x) { return op::logicNot(x); }, a); break; case 1: agree("and", [](const Tensor& x, const Tensor& y) { return op::logicAnd(x, y); }, a, b); break; case 2: agree("or", [](const Tensor& x, const Tensor& y) { return op::logicOr(x, y); }, a, b); break;
    case 3: agree("fillMasked", [](const Tensor& x, const Tensor& k) { return op::fillMasked(x, k, 7.f); }, v, a); break;
    case 4: agree("fillMasked_", [](const Tensor& x, const Tensor& k) { Tensor r = x.clone(); r.fillMasked_(k, 7.f); return r; }, v, b); break; }
  END();
}
HARNESS(filling) {
  start(); int64_t n = pick("n", 1, 9); float f = sym_f32("f"); Options g = options::device(G());
  switch (pick("op", 0, 5)) {
    case 0: same(Tensor::full({n}, f, g), Tensor::full({n}, f), "full"); break; case 1: same(Tensor::ones({n, 2}, g), Tensor::ones({n, 2}), "ones"); break; case 2: same(Tensor::zeros({n}, g), Tensor::zeros({n}), "zeros"); break;
    case 3: same(Tensor::arange<float>(1.f, 1.f + (float)n * 2.f, 2.f, g), Tensor::arange<float>(1.f, 1.f + (float)n * 2.f, 2.f), "arange"); break;
    case 4: { Tensor d = dev(mk(symFs("v", n), {n})), c = host(d); int64_t i = pick("i", 0, n - 1); op::fillOffset(d, Tensor::scalar(f, d.options()), i, 1); op::fillOffset(c, Tensor::scalar(f), i, 1); same(d, c, "fillOffset"); break; }
    case 5: same(Tensor::scalar(f, g), Tensor::scalar(f), "scalar"); break; }
  END();
}
HARNESS(random) {
  start(); int64_t o = pick("op", 0, 3), n = pick("n", 1, o == 3 ? 9 : o == 0 ? 6 : 5); tinytorch::manualSeed(5); Options g = options::device(G());
  switch (o) {
    case 0: { float lo = sym_f32_range("lo", -4.f, 4.f), hi = sym_f32_range("hi", -4.f, 4.f); sym_assume(lo < hi); Tensor t = host(Tensor::uniform({n}, lo, hi, g)); for (int64_t i = 0; i < n; i++) CHECK(fp(t)[i] >= lo && fp(t)[i] <= hi, "uniform values lie in the range"); break; }
    case 1: { Tensor t = host(Tensor::bernoulli({n}, 0.25f, g)); for (int64_t i = 0; i < n; i++) CHECK(fp(t)[i] == 0.f || fp(t)[i] == 1.f, "a Bernoulli value is 0 or 1"); break; }
    case 2: { Tensor x = mk(symFs("x", n), {n}); Tensor t = host(op::dropout(dev(x), 0.5f)); for (int64_t i = 0; i < n; i++) CHECK(fp(t)[i] == 0.f || fp(t)[i] == fp(x)[i] / 0.5f, "a dropped-out value is 0 or scaled"); break; }
    case 3: { Tensor a = Tensor::randn({n}, g), b = Tensor::randn({n}, g); tinytorch::manualSeed(5); same(Tensor::randn({n}, g), host(a), "the same seed gives the same values"); same(Tensor::randn({n}, g), host(b), "the same seed gives the same values again"); break; } }
  END();
}
HARNESS(sums) {
  start(); Sh s = few({{}, {1}, {3}, {2, 3}, {3, 1}, {1, 2}, {2, 3, 2}, {2, 1, 3}}, 0, 3, 1, 3, 12); Tensor a = mk(symFs("a", prod(s)), s); int64_t r = (int64_t)s.size();
  int64_t o = pick("op", 0, 5); bool kd = pick("keep", 0, 1);
  if (o < 2) { agree("total", [=](const Tensor& x) { return o ? x.mean() : x.sum(); }, a); END(); return; }
  if (r == 0) { END(); return; }
  int64_t d = pick("dim", -r, r - 1);
  if (o < 4) { agree("along a dimension", [=](const Tensor& x) { return o == 2 ? op::sumOnDim(x, d, kd) : op::meanOnDim(x, d, kd); }, a); END(); return; }
  int64_t e = pick("dim2", -r, r - 1); sym_assume((d + r) % r != (e + r) % r);
  agree("along two dimensions", [=](const Tensor& x) { return o == 4 ? op::sumOnDims(x, std::vector<int64_t>{d, e}, kd) : op::meanOnDims(x, std::vector<int64_t>{d, e}, kd); }, a);
  END();
}
HARNESS(variance) {
  start(); Sh s = pickShape("s", 1, 2, 2, 3, 6); Tensor a = mk(symFs("a", prod(s)), s); int64_t r = (int64_t)s.size(); bool ub = pick("unbiased", 0, 1), kd = pick("keep", 0, 1);
  int64_t o = pick("op", 0, 2), d = pick("dim", 0, r - 1);
  agree2("variance and mean", [=](const Tensor& x) { return o == 0 ? op::varMean(x, ub) : o == 1 ? op::varMeanOnDim(x, d, ub, kd) : op::varMeanOnDims(x, std::vector<int64_t>{d}, ub, kd); }, a);
  END();
}
HARNESS(extremes) {
  start(); static const Sh sh[] = {{3}, {2, 2}, {1, 3}, {3, 1}, {2, 1, 2}, {1, 2, 1}}; Sh s = sh[pick("shape", 0, 5)]; Tensor a = mk(distinct("a", prod(s)), s); int64_t r = (int64_t)s.size(); bool mx = pick("max", 0, 1), kd = pick("keep", 0, 1); int64_t o = pick("op", 0, 2);
  if (o == 0) agree("extreme", [=](const Tensor& x) { return mx ? op::max(x) : op::min(x); }, a);
  else if (o == 1) agree("index of the extreme", [=](const Tensor& x) { return mx ? op::argmax(x) : op::argmin(x); }, a);
  else { int64_t d = pick("dim", -r, r - 1); agree2("extremes along a dimension", [=](const Tensor& x) { return mx ? op::maxOnDim(x, d, kd) : op::minOnDim(x, d, kd); }, a); }
  END();
}
HARNESS(reduce_long) {
  start(); static const Sh sh[] = {{513}, {1200}, {513, 2}, {2, 513}, {512, 1}, {1100, 2}, {2, 1100}}; Sh s = sh[pick("shape", 0, 6)]; Tensor a = mk(longV("a", prod(s)), s);
  switch (pick("op", 0, 3)) { case 0: agree("long total", [](const Tensor& x) { return x.sum(); }, a); break; case 1: agree("long sum, first dimension", [](const Tensor& x) { return op::sumOnDim(x, 0, false); }, a); break; case 2: agree("long sum, last dimension", [](const Tensor& x) { return op::sumOnDim(x, -1, false); }, a); break; case 3: if (s.size() == 2) agree("long sum, both dimensions", [](const Tensor& x) { return op::sumOnDims(x, std::vector<int64_t>{0, 1}, false); }, a); break; }
  END();
}
HARNESS(extremes_long) {
  start(); static const Sh sh[] = {{513}, {1200}, {513, 2}, {2, 513}, {1100, 2}}; Sh s = sh[pick("shape", 0, 4)]; int64_t n = prod(s); Fs v(n); for (int64_t i = 0; i < n; i++) v[i] = (float)((i * 7919) % 10007); int64_t at = pick("at", 0, 3); bool mx = TIER == 2 ? pick("max", 0, 1) : at % 2; int64_t p[] = {0, n / 2, n - 1, n - 2}; v[p[at]] = mx ? sym_f32_range("v", 20000.f, 30000.f) : sym_f32_range("v", -30000.f, -20000.f); Tensor a = mk(v, s);
  switch (pick("op", 0, 3)) { case 0: agree("long extreme", [=](const Tensor& x) { return mx ? op::max(x) : op::min(x); }, a); break; case 1: agree("long index", [=](const Tensor& x) { return mx ? op::argmax(x) : op::argmin(x); }, a); break; case 2: case 3: { int64_t d = pick("dim", 0, (int64_t)s.size() - 1); agree2("long extremes along a dimension", [=](const Tensor& x) { return mx ? op::maxOnDim(x, d, false) : op::minOnDim(x, d, false); }, a); break; } }
  END();
}
HARNESS(transforms) {
  start(); Sh s = few({{1}, {3}, {2, 3}, {3, 1}, {1, 2, 3}, {2, 3, 2}, {2, 1, 2}}, 1, 3, 1, 3, 12); Tensor a = mk(symFs("a", prod(s)), s); int64_t r = (int64_t)s.size();
  switch (pick("op", 0, 5)) {
    case 0: { std::vector<int64_t> p(r); for (int64_t i = 0; i < r; i++) p[i] = i; int64_t k = pick("perm", 0, r == 3 ? 5 : r == 2 ? 1 : 0); bool neg = pick("negative", 0, 1); for (int64_t i = 0; i < k; i++) std::next_permutation(p.begin(), p.end()); if (neg) for (auto& x : p) x -= r; agree("permute", [&](const Tensor& x) { return op::permute(x, p); }, a); break; }
    case 1: agree("permute all", [](const Tensor& x) { return op::permuteAll(x); }, a); break;
    case 2: { int64_t d = pick("d", -r, r - 1), e = pick("e", -r, r - 1); agree("transpose", [=](const Tensor& x) { return op::transpose(x, d, e); }, a); break; }
    case 3: if (r >= 2) { int64_t k = pick("diag", -2, 2); bool lo = pick("lower", 0, 1); agree("triangle", [=](const Tensor& x) { return lo ? op::tril(x, k) : op::triu(x, k); }, a); } break;
    case 4: { int64_t d = pick("d", -r, r - 1), k = pick("times", 1, 3); agree("repeatInterleave", [=](const Tensor& x) { return op::repeatInterleave(x, k, d); }, a); break; }
    case 5: { Sh t = s; int64_t extra = pick("extra", 0, 1); for (auto& x : t) if (x == 1) x = 3; if (extra) t.insert(t.begin(), 2); agree("expand", [&](const Tensor& x) { return op::expand(x, t); }, a); break; } }
  END();
}
HARNESS(indexing) {
  start(); Sh s = few({{3}, {2, 3}, {3, 2}, {2, 3, 2}}, 1, 3, 2, 3, 12); int64_t r = (int64_t)s.size(), n = prod(s); Tensor a = mk(symFs("a", n), s); int64_t o = pick("op", 0, 3), d = o == 3 ? 0 : pick("d", -r, r - 1), dd = d < 0 ? d + r : d;
  switch (o) {
    case 0: { int64_t k = pick("k", 1, TIER == 2 ? 3 : 2); std::vector<int64_t> ix; for (int64_t i = 0; i < k; i++) ix.push_back(pick("ix", -s[dd], s[dd] - 1)); agree("indexSelect", [=](const Tensor& x, const Tensor& i) { return op::indexSelect(x, d, i); }, a, mkI(ix, {k})); break; }
    case 1: { Sh t(r, 1); t[dd] = 2; int64_t i0 = pick("i", -s[dd], s[dd] - 1), i1 = pick("i", -s[dd], s[dd] - 1); agree("gather", [=](const Tensor& x, const Tensor& i) { return op::gather(x, d, i); }, a, mkI({i0, i1}, t)); break; }
    case 2: { Sh t(r, 1); t[dd] = 2; int64_t i0 = pick("i", 0, s[dd] - 1), i1 = pick("i", 0, s[dd] - 1); sym_assume(i0 != i1); bool in = pick("in", 0, 1); agree("scatter", [=](const Tensor& x, const Tensor& i, const Tensor& v) { if (!in) return op::scatter(x, d, i, v); Tensor q = x.clone(); q.scatter_(d, i, v); return q; }, a, mkI({i0, i1}, t), mk(symFs("v", 2), t)); break; }
    case 3: { int64_t k = pick("len", 1, r); std::vector<Tensor> ix; for (int64_t i = 0; i < k; i++) ix.push_back(mkI({pick("j", -s[i], s[i] - 1), i ? 0 : 1}, {2})); int64_t w = pick("write", 0, 2);
      auto f = [&](const Tensor& x, const Tensor& v) { std::vector<Tensor> jx; for (auto& t : ix) jx.push_back(x.device().isCuda() ? dev(t) : t); ArrayView<Tensor> av(jx); if (w == 0) return op::indexAdvance(x, av); Tensor q = x.clone(); q.copyOnWrite(); op::indexPutAdvance(q, av, v); return q; };
      Tensor z = op::indexAdvance(a, ArrayView<Tensor>(ix)); if (w) { auto e = [&](int i, int64_t q) { int64_t x = ix[q].dataPtr<int64_t>()[i]; return x < 0 ? x + s[q] : x; }; bool clash = true; for (int64_t q = 0; q < k; q++) if (e(0, q) != e(1, q)) clash = false; if (clash && w == 2) { END(); return; } }
      agree("indexed by tensors", f, a, w == 1 ? mk({sym_f32("v")}, {}) : mk(symFs("v", z.numel()), shp(z))); break; } }
  END();
}
HARNESS(cast) {
  start(); int64_t n = TIER == 2 ? pick("n", 1, 3) : 2; static const DType ty[] = {DType::Float32, DType::Int64, DType::Int32, DType::Bool};
  Tensor a; int64_t from = pick("from", 0, 1), to = pick("to", 0, 3);
  if (from == 0) { Fs v; for (int64_t i = 0; i < n; i++) v.push_back(pick("half", -4, 4) * 0.5f); a = mk(v, {n}); } else { std::vector<int64_t> v; for (int64_t i = 0; i < n; i++) v.push_back(sym_i64("v", -100, 100)); a = mkI(v, {n}); }
  agree("cast", [=](const Tensor& x) { return x.to(ty[to]).to(DType::Int64); }, a);
  END();
}
HARNESS(products) {
  start(); int64_t m = pick("m", 1, 2), k = pick("k", 1, 3), n = pick("n", 1, 3); bool ta = pick("ta", 0, 1), tb = pick("tb", 0, 1); int64_t b = pick("batch", 0, 3);
  Sh s{ta ? k : m, ta ? m : k}, t{tb ? n : k, tb ? k : n}; if (b == 1) { s.insert(s.begin(), 2); t.insert(t.begin(), 2); } if (b == 2) s.insert(s.begin(), 2); if (b == 3) { s.insert(s.begin(), {2, 1}); t.insert(t.begin(), 2); }
  agree("matmul", [=](const Tensor& x, const Tensor& y) { return op::matmul(x, y, ta, tb); }, mk(symFs("a", prod(s)), s), mk(symFs("b", prod(t)), t));
  END();
}
HARNESS(dots) {
  start(); int64_t k = pick("k", 1, 4), m = pick("m", 1, 2);
  switch (pick("op", 0, 2)) { case 0: agree("dot", [](const Tensor& x, const Tensor& y) { return op::dot(x, y); }, mk(symFs("a", k), {k}), mk(symFs("b", k), {k})); break;
    case 1: agree("matrix times vector", [](const Tensor& x, const Tensor& y) { return op::matmul(x, y, false, false); }, mk(symFs("a", m * k), {m, k}), mk(symFs("b", k), {k})); break;
    case 2: agree("vector times matrix", [](const Tensor& x, const Tensor& y) { return op::matmul(x, y, false, false); }, mk(symFs("a", k), {k}), mk(symFs("b", m * k), {k, m})); break; }
  END();
}
HARNESS(columns) {
  start(); int64_t c = pick("c", 1, 2), h = pick("h", 2, TIER == 2 ? 4 : 3), w = pick("w", 2, TIER == 2 ? 3 : 2), kh = pick("kh", 1, 2), kw = pick("kw", 1, 2), sh = pick("sh", 1, 3), sw = pick("sw", 1, 2), ph = pick("ph", 0, 1), pw = pick("pw", 0, 1); bool four = pick("batch", 0, 1);
  Sh s = four ? Sh{2, c, h, w} : Sh{c, h, w}; Dim2D K(kh, kw), S(sh, sw), P(ph, pw); Tensor a = mk(symFs("a", prod(s)), s);
  agree("im2col", [=](const Tensor& x) { return op::im2col(x, K, S, P); }, a); Tensor col = op::im2col(a, K, S, P); Tensor g = mk(symFs("g", col.numel()), shp(col));
  agree("col2im", [=](const Tensor& x) { return op::col2im(x, s, K, S, P); }, g);
  END();
}
HARNESS(softmax) {
  start(); Sh s = few({{1}, {3}, {2, 2}, {3, 1}, {1, 2, 3}, {2, 2, 1}}, 1, 3, 1, 3, 6); int64_t r = (int64_t)s.size(), d = pick("d", -r, r - 1); bool lg = pick("log", 0, 1); Fs v(prod(s)); for (size_t i = 0; i < v.size(); i++) v[i] = sym_f32_range("a", (float)i, (float)i + 1.f); Tensor a = mk(v, s);
  agree("softmax", [=](const Tensor& x) { return lg ? op::logSoftmax(x, d) : op::softmax(x, d); }, a);
  agree("softmax gradient", [=](const Tensor& g, const Tensor& y) { return lg ? op::logSoftmaxBackward(g, y, d) : op::softmaxBackward(g, y, d); }, mk(symFs("g", prod(s)), s), a);
  END();
}
HARNESS(norms) {
  start(); int64_t o = pick("rows", 1, 2), n = pick("n", 1, 3); bool w = pick("weight", 0, 1), b = pick("bias", 0, 1); Tensor a = mk(symFs("a", o * n), {o, n}), W = mk(symFs("w", n), {n}), B = mk(symFs("b", n), {n}); bool rms = pick("rms", 0, 1);
  agree("normalisation", [=](const Tensor& x, const Tensor& y, const Tensor& z) { Tensor none; return rms ? op::rmsNorm(x, IntArrayView{n}, w ? y : none, 0.5f) : op::layerNorm(x, IntArrayView{n}, w ? y : none, b ? z : none, 0.5f); }, a, W, B);
  END();
}
// more than one warp, and the kernels for long rows
HARNESS(norms_long) {
  start(); static const int64_t N[] = {33, 64, 70, 1025}; int64_t n = N[pick("n", 0, TIER == 2 ? 3 : 2)], o = pick("rows", 1, 2); bool rms = pick("rms", 0, 1); Fs v(o * n); for (int64_t i = 0; i < o * n; i++) v[i] = 0.25f * (float)((i * 37) % 101) - 12.f; Fs w = longV("w", n); Tensor a = mk(v, {o, n}), W = mk(w, {n}), B = mk(longV("b", n), {n});
  auto f = [=](const Tensor& x, const Tensor& y, const Tensor& z) { return rms ? op::rmsNorm(x, IntArrayView{n}, y, 0.5f) : op::layerNorm(x, IntArrayView{n}, y, z, 0.5f); };
  agree("normalisation of long rows", f, a, W, B);
  END();
}
HARNESS(softmax_long) {
  start(); static const Sh S[] = {{33}, {70}, {2, 65}, {65, 2}, {1030}}; Sh s = S[pick("shape", 0, 4)]; bool lg = pick("log", 0, 1); int64_t d = s.size() == 1 || s[0] > 2 ? 0 : 1; Fs v(prod(s)); for (size_t i = 0; i < v.size(); i++) v[i] = 0.01f * (float)((i * 37) % 101); Tensor a = mk(v, s);
  if (pick("backward", 0, 1)) agree("gradient of softmax along long rows", [=](const Tensor& g, const Tensor& y) { return lg ? op::logSoftmaxBackward(g, y, d) : op::softmaxBackward(g, y, d); }, mk(longV("g", prod(s)), s), a);
  else agree("softmax along long rows", [=](const Tensor& x) { return lg ? op::logSoftmax(x, d) : op::softmax(x, d); }, a);
  END();
}
HARNESS(rope_table) {
  start(); int64_t h = 2 * pick("half", 1, 3), len = pick("len", 1, 3); std::optional<RopeScalingConfig> c; if (pick("scaled", 0, 1)) c.emplace(8.f, 4.f, 1.f, pick("original", 0, 2) * 40 + 4);
  same(op::ropeInit(h, len, 10000.f, c, options::device(G())), op::ropeInit(h, len, 10000.f, c, Options()), "rotary table"); END();
}
HARNESS(dropped) {
  start(); float p = pick("p", 0, 2) * 0.5f; Fs v = symFs("v", 3); Tensor m = mk({1.f, 0.f, 1.f}, {3}); if (p == 0.f) m = mk({0.f, 0.f, 0.f}, {3});
  agree("masked dropout", [=](const Tensor& x, const Tensor& y) { return op::dropoutMasked(x, y, p); }, mk(v, {3}), m); END();
}
// a scalar reduced, and outputs written into shared buffers, leave their input alone
HARNESS(unshared) {
  start(); int64_t o = pick("op", 0, 15); Fs v = symFsR("v", o < 8 ? 1 : 2, 0.5f, 4.f); Tensor a = mk(v, o < 8 ? Sh{} : Sh{2});
  agree("the input of an operation whose result is changed or shares its buffer", [=](const Tensor& x) { Tensor r; IntArrayView d0{}; std::vector<int64_t> ds{0, 1};
    if (o < 8) { switch (o) { case 0: r = op::sum(x); break; case 1: r = op::mean(x); break; case 2: r = op::max(x); break; case 3: r = op::min(x); break; case 4: r = op::sumOnDims(x, ds, false); break; case 5: r = op::meanOnDims(x, ds, false); break; case 6: r = op::varMean(x, false).second; break; case 7: r = op::maxOnDim(x, 0, false).first; break; } r.fill_(9.f); return x; }
    r = x.clone(); switch (o) { case 8: op::expOut(r, x); break; case 9: op::negOut(r, x); break; case 10: op::softmaxOut(r, x, 0); break; case 11: op::logSoftmaxOut(r, x, 0); break;
      case 12: case 13: { std::vector<Tensor> ix{x.device().isCuda() ? dev(mkI({1}, {1})) : mkI({1}, {1})}; op::indexPutAdvance(r, ArrayView<Tensor>(ix), Tensor::scalar(5.f, x.options())); if (o == 13) return r; break; }
      case 14: { Tensor q = x.clone(); op::reluOut(q, x); op::absInplace(q); break; } case 15: { Tensor q = x.reshape({2, 1}); Tensor w = q.clone(); std::vector<Tensor> ix{x.device().isCuda() ? dev(mkI({1}, {1})) : mkI({1}, {1}), x.device().isCuda() ? dev(mkI({0}, {1})) : mkI({0}, {1})}; op::indexPutAdvance(w, ArrayView<Tensor>(ix), Tensor::scalar(5.f, x.options())); return q; } }
    return x; }, a);
  END();
}
HARNESS(infinities) {
  begin(); cuemu::lazy = cuemu::backward = pick("schedule", 0, 1); float I = std::numeric_limits<float>::infinity(), f = pick("sign", 0, 1) ? I : -I; int64_t k = pick("finite", 0, 2); Fs v(4, f); if (k) v[k] = 1.f; Tensor a = mk(v, {2, 2}); int64_t d = pick("d", 0, 1); bool big = pick("largest", 0, 1);
  agree("extreme of infinities", [=](const Tensor& x) { return big ? op::max(x) : op::min(x); }, a);
  // of equal values either may be named
  auto place = [](const Tensor& t) { Tensor h = host(t); return Sh(h.dataPtr<int64_t>(), h.dataPtr<int64_t>() + h.numel()); };
  int64_t p = place(big ? op::argmax(dev(a)) : op::argmin(dev(a)))[0]; float e = fp(big ? op::max(a) : op::min(a))[0]; CHECK(p >= 0 && p < 4, "the place of an extreme value lies in the tensor"); CHECK(v[p] == e, "the place of an extreme value");
  agree("extreme of infinities along a dimension", [=](const Tensor& x) { return big ? op::maxOnDim(x, d, false).first : op::minOnDim(x, d, false).first; }, a);
  Sh q = place(big ? op::maxOnDim(dev(a), d, false).second : op::minOnDim(dev(a), d, false).second); Tensor c = big ? op::maxOnDim(a, d, false).first : op::minOnDim(a, d, false).first;
  for (int64_t i = 0; i < 2; i++) { CHECK(q[i] >= 0 && q[i] < 2, "the place along a dimension lies in the tensor"); CHECK(v[d ? i * 2 + q[i] : q[i] * 2 + i] == fp(c)[i], "the place along a dimension"); }
  END();
}
// every form of the binary and ternary operations, the output sharing its buffer with another tensor
HARNESS(forms) {
  start(); int64_t o = pick("op", 0, 14), k = pick("case", 0, 2); static const Sh T[] = {{1, 2}, {2}, {}}; Sh s{1, 2}, t = T[k];
  Tensor a = mk(symFsR("a", 2, 0.5f, 4.f), s), b = mk(symFsR("b", prod(t), 0.5f, 4.f), t), c = mk(symFsR("c", prod(t), 0.5f, 4.f), t); bool which = pick("input", 0, 1);
#define R(n, call) case n: call; break;
  agree("output form", [=](const Tensor& x, const Tensor& y, const Tensor& z) { Tensor r = x.clone();
    switch (o) { R(0, op::subOut(r, x, y, 2)) R(1, op::divOut(r, x, y)) R(2, op::powOut(r, x, y)) R(3, op::maximumOut(r, x, y)) R(4, op::minimumOut(r, x, y)) R(5, op::clampMinOut(r, x, y)) R(6, op::clampMaxOut(r, x, y)) R(7, op::clampOut(r, x, y, z)) R(8, op::addcmulOut(r, x, y, z, 2)) R(9, op::powInplace(r, y)) R(10, op::clampMinInplace(r, y)) R(11, op::clampMaxInplace(r, y)) R(12, op::clampInplace(r, y, z)) R(13, op::addcmulInplace(r, y, z, 2)) R(14, op::addOut(r, x, y, 3)) }
    return which ? x : r; }, a, b, c);
  END();
}
HARNESS(forms_backward) {
  start(); int64_t o = pick("op", 0, 2); Tensor g = mk(symFs("g", 2), {2}), a = mk(symFsR("a", 2, 0.5f, 4.f), {2}), b = mk(symFsR("b", 2, 0.5f, 4.f), {2});
  agree("gradient of an operand", [=](const Tensor& q, const Tensor& x, const Tensor& y) { return o == 0 ? op::divBackwardP2(q, x, y) : o == 1 ? op::powBackwardP1(q, x, y) : op::powBackwardP2(q, x, y); }, g, a, b); END();
}
HARNESS(forms_bool) {
  start(); int64_t o = pick("op", 0, 7); uint8_t m[4]; for (auto& x : m) x = (uint8_t)pick("m", 0, 1); bool which = pick("input", 0, 1);
  auto mkB = [&](int k) { Tensor t = Tensor::empty({2}, options::dtype(DType::Bool)); t.dataPtr<uint8_t>()[0] = m[k]; t.dataPtr<uint8_t>()[1] = m[k + 1]; return t; };
  Tensor v = mk(symFs("v", 2), {2});
  agree("logical form", [=](const Tensor& x, const Tensor& y, const Tensor& w) { Tensor r = x.clone(), f = w.clone();
    switch (o) { R(0, op::logicNotOut(r, x)) R(1, op::logicNotInplace(r)) R(2, op::logicAndOut(r, x, y)) R(3, op::logicAndInplace(r, y)) R(4, op::logicOrOut(r, x, y)) R(5, op::logicOrInplace(r, y)) R(6, op::fillMaskedOut(f, w, y, 7.f)) R(7, op::fillMaskedInplace(f, y, 7.f)) }
    return o >= 6 ? (which ? w : f) : which ? x : r; }, mkB(0), mkB(2), v);
  END();
}
HARNESS(forms_int) {
  start(); int64_t o = pick("op", 0, 16); std::vector<int64_t> va{pick("a", -1, 1), 5}, vb{pick("b", -1, 1), 5}; if (pick("large", 0, 1)) { va[0] += (int64_t)1 << 60; vb[0] += (int64_t)1 << 60; } Tensor a = mkI(va, {2}), b = mkI(vb, {2}), c = mkI({1, 1}, {2});
  agree("operation on integers", [=](const Tensor& x, const Tensor& y, const Tensor& z) { Tensor r = x.clone();
    switch (o) { R(0, r = op::maximum(x, y)) R(1, r = op::minimum(x, y)) R(2, return op::eq(x, y)) R(3, return op::ne(x, y)) R(4, return op::lt(x, y)) R(5, return op::le(x, y)) R(6, return op::gt(x, y)) R(7, return op::ge(x, y)) R(8, op::maximumOut(r, x, y)) R(9, op::minimumOut(r, x, y)) R(10, r = op::clampMin(x, y)) R(11, r = op::clampMax(x, y)) R(12, r = op::clampMin(x, z)) R(13, r = op::permuteAll(x.reshape({2, 1}))) R(14, r = op::expand(x.reshape({2, 1}), IntArrayView({2, 3}))) R(15, r.fill_(3)) R(16, r = op::indexSelect(x, 0, z)) }
    return r; }, a, b, c);
  END();
}
HARNESS(steps) {
  start(); int64_t n = pick("n", 1, 5); float a = (float)pick("start", -2, 2), b = (float)pick("end", -2, 2); Options g = options::device(G());
  if (pick("int", 0, 1)) same(Tensor::arange<int64_t>(3, 3 + 2 * n, 2, g), Tensor::arange<int64_t>(3, 3 + 2 * n, 2), "arange"); else if (n > 1) same(Tensor::linspace<float>(a, b, n, g), Tensor::linspace<float>(a, b, n), "linspace"); END();
}
// the gradient that reaches a loss need not be one
HARNESS(loss_gradients) {
  start(); auto red = (LossReduction)pick("reduction", 0, 2); int64_t o = pick("op", 0, 1), n = pick("n", 1, 2), c = pick("c", 1, 3); Sh s{n, c}, gs = red == LossReduction::NONE ? (o ? Sh{n} : s) : Sh{}; Tensor a = mk(symFs("a", n * c), s), g = mk(symFs("g", prod(gs)), gs);
  if (o) { std::vector<int64_t> tv; for (int64_t i = 0; i < n; i++) tv.push_back(pick("t", 0, c - 1)); agree("nllLoss gradient", [=](const Tensor& q, const Tensor& x, const Tensor& t) { return op::nllLossBackward(q, x, t, red); }, g, a, mkI(tv, {n})); }
  else { bool wide = pick("broadcast", 0, 1); Tensor b = mk(symFs("b", c), {c}); if (wide) agree("mseLoss gradient of a broadcast input", [=](const Tensor& q, const Tensor& x, const Tensor& t) { return op::mseLossBackward(q, x, t, red); }, g, b, a); else agree("mseLoss gradient", [=](const Tensor& q, const Tensor& x, const Tensor& t) { return op::mseLossBackward(q, x, t, red); }, g, a, b); }
  END();
}
// shapes the CPU refuses are refused before anything runs on the device
HARNESS(refused) {
  start(); Tensor v3 = dev(mk(symFs("a", 3), {3})), v2 = dev(mk(symFs("b", 2), {2})), m = dev(mk(symFs("m", 6), {2, 3})); int64_t o = pick("op", 0, 9);
  std::vector<int64_t> axes = o == 1 ? std::vector<int64_t>{0, 0} : o == 2 ? std::vector<int64_t>{0, 2} : std::vector<int64_t>{-3, 1}; Tensor row = dev(mkI({0, 1, 0}, {3, 1})), two = dev(mkI({0, 1}, {2, 1})), one = dev(mkI({0}, {1})); std::vector<Tensor> ix{two.reshape({2}), one}, three{one, one, one}; int64_t far = pick("offset", 1, 2); Tensor rt = dev(mk(symFs("r", 8), {2, 2, 2})), in = dev(mk(symFs("i", 4), {1, 1, 2, 2}));
  sym_reach("end"); sym_trap_policy(1);
  switch (o) { case 0: op::dot(v3, v2); break; case 1: case 2: case 3: op::permute(m, axes); break; case 4: op::expand(m, IntArrayView({2, 2})); break; case 5: op::gather(m, 1, row); break; case 6: op::scatter(m, 1, two, v3.reshape({3, 1})); break; case 7: op::indexAdvance(m, ArrayView<Tensor>(ix)); break; case 8: op::ropeApply(in, rt, far); break; case 9: op::indexAdvance(m, ArrayView<Tensor>(three)); break; }
  cudaDeviceSynchronize(); CHECK(false, "an operation with shapes that reach outside its operands is refused");
}
HARNESS(losses) {
  start(); int64_t n = pick("n", 1, 3), c = pick("c", 1, 3); auto red = (LossReduction)pick("reduction", 0, 2); int64_t o = pick("op", 0, 1);
  if (o == 0) { Tensor a = mk(symFs("a", n * c), {n, c}), t = mk(symFs("t", n * c), {n, c}); agree("mseLoss", [=](const Tensor& x, const Tensor& y) { return function::mseLoss(x, y, red); }, a, t);
    if (red != LossReduction::NONE) { Tensor x = mk(Fs(fp(a), fp(a) + n * c), {n, c}, true); function::mseLoss(x, t, red).backward(); Tensor y = Tensor(Fs(fp(a), fp(a) + n * c), {n, c}, options::device(G()).requiresGrad(true)); function::mseLoss(y, dev(t), red).backward(); same(y.grad(), x.grad(), "mseLoss gradient"); } }
  else { Fs v = symFs("a", n * c); Tensor a = mk(v, {n, c}); std::vector<int64_t> tv; for (int64_t i = 0; i < n; i++) tv.push_back(pick("t", 0, c - 1)); Tensor t = mkI(tv, {n}); agree("nllLoss", [=](const Tensor& x, const Tensor& y) { return function::nllLoss(x, y, red); }, a, t);
    if (red != LossReduction::NONE) { Tensor x = mk(v, {n, c}, true); function::nllLoss(x, t, red).backward(); Tensor y = Tensor(v, {n, c}, options::device(G()).requiresGrad(true)); function::nllLoss(y, dev(t), red).backward(); same(y.grad(), x.grad(), "nllLoss gradient"); } }
  END();
}
HARNESS(orders) {
  start(); static const Sh sh[] = {{3}, {2, 2}, {1, 3}, {3, 1}, {2, 2, 1}}; Sh s = sh[pick("shape", 0, 4)]; int64_t r = (int64_t)s.size(), d = pick("d", -r, r - 1), dd = d < 0 ? d + r : d; bool desc = pick("desc", 0, 1);
  switch (pick("op", 0, 2)) { case 0: agree2("sort", [=](const Tensor& x) { return op::sort(x, d, desc); }, mk(distinct("a", prod(s)), s)); break;
    case 1: { int64_t k = pick("k", 1, s[dd]); agree2("topk", [=](const Tensor& x) { return op::topk(x, k, d, desc, true); }, mk(distinct("a", prod(s)), s)); break; }
    case 2: agree("cumsum", [=](const Tensor& x) { return op::cumsum(x, d); }, mk(symFs("a", prod(s)), s)); break; }
  END();
}
HARNESS(multinomial) {
  start(); tinytorch::manualSeed(3); int64_t b = pick("b", 0, 1), n = pick("n", 1, b && TIER != 2 ? 2 : 3), k = pick("k", 1, n); bool rep = pick("rep", 0, 1); Fs p; for (int64_t i = 0; i < n * (b + 1); i++) p.push_back((float)pick("p", 0, 2)); for (int64_t r = 0; r <= b; r++) { int64_t nz = 0; for (int64_t i = 0; i < n; i++) nz += p[r * n + i] > 0; sym_assume(nz >= (rep ? 1 : k)); }
  Tensor t = mk(p, b ? Sh{2, n} : Sh{n}); Tensor o = host(op::multinomial(dev(t), k, rep)); CHECK(isShape(o, b ? Sh{2, k} : Sh{k}), "multinomial shape");
  const int64_t* q = o.dataPtr<int64_t>(); for (int64_t r = 0; r <= b; r++) for (int64_t i = 0; i < k; i++) { int64_t x = q[r * k + i]; CHECK(x >= 0 && x < n && p[r * n + x] > 0, "a drawn category has weight"); if (!rep) for (int64_t j = 0; j < i; j++) CHECK(q[r * k + j] != x, "a category is drawn once"); }
  END();
}
HARNESS(fused) {
  start(); int64_t n = pick("n", 1, 3), m = pick("m", 1, 2); agree("siluMul", [](const Tensor& x) { return op::siluMul(x); }, mk(symFs("a", m * 2 * n), {m, 2 * n}));
  END();
}
HARNESS(rope) {
  start(); int64_t h = 2 * pick("half", 1, 2), len = 3, t = pick("seq", 1, 2), o = pick("offset", 0, 1), b = pick("b", 1, 2), hd = pick("heads", 1, 2);
  Tensor ro = mk(symFs("r", len * h * 2), {len, h, 2}); agree("ropeApply", [=](const Tensor& x, const Tensor& y) { return op::ropeApply(x, y, o); }, mk(symFs("a", b * hd * t * h), {b, hd, t, h}), ro);
  END();
}
// 16-bit floats: small integers, so that both back ends are exact
static Tensor small(const Sh& s, DType d, int64_t seed) { Fs v(prod(s)); for (size_t i = 0; i < v.size(); i++) v[i] = (float)((int64_t)(i * 7 + seed * 3) % 5 - 2); return mk(v, s).to(d); }
template <class F, class... T> static void agreeH(const char* msg, F f, const T&... t) { Tensor c = f(t...); Tensor d = f(dev(t)...); CHECK(d.dtype() == c.dtype(), msg); same(d.to(DType::Float32), c.to(DType::Float32), msg); }
HARNESS(halves) {
  begin(); cuemu::lazy = cuemu::backward = pick("schedule", 0, 1); DType t = pick("bf16", 0, 1) ? DType::BFloat16 : DType::Float16; static const Sh S[] = {{4}, {2, 4}, {2, 2, 2}, {513}, {2, 520}, {520, 2}}; Sh s = S[pick("shape", 0, 5)]; int64_t r = (int64_t)s.size(); Tensor a = small(s, t, pick("values", 0, 1)), b = small(s, t, 1);
  switch (pick("op", 0, 9)) {
    case 0: agreeH("sum", [](const Tensor& x) { return x.sum(); }, a); break; case 1: agreeH("largest", [](const Tensor& x) { return op::max(x); }, a); break; case 2: agreeH("least", [](const Tensor& x) { return op::min(x); }, a); break;
    case 3: { int64_t d = pick("dim", 0, r - 1); agreeH("sum along a dimension", [=](const Tensor& x) { return op::sumOnDim(x, d, false); }, a); break; }
    case 4: { int64_t d = pick("dim", 0, r - 1); agreeH("extreme along a dimension", [=](const Tensor& x) { return op::maxOnDim(x, d, true).first; }, a); break; }
    case 5: agreeH("add", [](const Tensor& x, const Tensor& y) { return op::add(x, y, 2); }, a, b); break; case 6: agreeH("mul", [](const Tensor& x, const Tensor& y) { return x * y; }, a, b); break; case 7: agreeH("relu", [](const Tensor& x) { return op::relu(x); }, a); break;
    case 8: agreeH("abs", [](const Tensor& x) { return op::abs(x); }, a); break; case 9: if (r > 1) agreeH("sum over dimensions", [](const Tensor& x) { return op::sumOnDims(x, std::vector<int64_t>{0, 1}, false); }, a); break; }
  END();
}
// gradients on the device
static Tensor leaf(const Fs& v, const Sh& s, bool g) { return Tensor(v, IntArrayView(s), options::device(g ? G() : Device::cpu()).requiresGrad(true)); }
HARNESS(gradients) {
  start(); int64_t o = pick("op", 0, 9); Sh s = o == 8 ? Sh{1, 1, 3, 3} : o == 9 ? Sh{1, 1, 2, 4} : Sh{2, 3}, t = o == 8 ? Sh{1, 1, 2, 2} : o == 7 ? Sh{2, 3} : pick("broadcast", 0, 1) ? Sh{3} : Sh{2, 3}; int64_t n = prod(s); Fs a = o == 9 ? Fs(n) : symFs("a", n), b = o == 3 ? symFsR("b", prod(t), 0.5f, 4.f) : symFs("b", prod(t)); if (o == 9) for (int64_t i = 0; i < n; i++) a[i] = sym_f32_range("a", (float)(i * 3 % 8), (float)(i * 3 % 8) + 0.5f);
  auto f = [&](const Tensor& x, const Tensor& y) -> Tensor { switch (o) { case 0: return x + y; case 1: return x - y; case 2: return x * y; case 3: return x / y; case 4: return function::relu(x) * y; case 5: return function::softmax(x, 1) * y; case 6: return function::logSoftmax(x, 0) * y; case 7: return function::linear(x, y, Tensor()); case 8: return function::conv2d(x, y, Tensor(), 1, 1); default: return function::maxPool2d(x, 2, 2, 0); } };
  Tensor x = leaf(a, s, false), y = leaf(b, t, false), X = leaf(a, s, true), Y = leaf(b, t, true); Tensor z = f(x, y), Z = f(X, Y); same(Z, z, "result"); Tensor g = mk(symFs("g", z.numel()), shp(z)); z.backward(g); Z.backward(dev(g)); same(X.grad(), x.grad(), "gradient of the first operand"); if (o != 9) same(Y.grad(), y.grad(), "gradient of the second operand"); END();
}
// a short training run
HARNESS(training) {
  start(); int64_t o = pick("optimizer", 0, 3); Fs w = symFs("w", 2), b = symFs("b", 1); w[1] = 1.f; Fs in{0.5f, -1.f, 2.f, 0.25f}, tgt{1.f, -0.5f};
  auto run = [&](bool g) { Tensor W = leaf(w, {1, 2}, g), B = leaf(b, {1}, g); Tensor x(in, IntArrayView{2, 2}, options::device(g ? G() : Device::cpu())), t(tgt, IntArrayView{2, 1}, options::device(g ? G() : Device::cpu())); std::vector<TensorPtr> ps{&W, &B}; std::unique_ptr<optim::Optimizer> opt; if (o == 0) opt = std::make_unique<optim::SGD>(std::move(ps), 0.125f); else if (o == 1) opt = std::make_unique<optim::SGD>(std::move(ps), 0.125f, 0.5f); else if (o == 2) opt = std::make_unique<optim::SGD>(std::move(ps), 0.125f, 0.f, 0.f, 0.25f); else opt = std::make_unique<optim::SGD>(std::move(ps), 0.125f, 0.5f, 0.f, 0.f, true);
    for (int i = 0; i < 2; i++) { opt->zeroGrad(); function::mseLoss(function::linear(x, W, B), t).backward(); opt->step(); } return TensorPair(W, B); };
  TensorPair c = run(false), d = run(true); same(d.first, c.first, "trained weight"); same(d.second, c.second, "trained bias"); END();
}
// a device tensor changed in place, after it was cloned
HARNESS(clones) {
  start(); Fs v = symFs("v", 3); float f = sym_f32("f"); Tensor a = dev(mk(v, {3})); Tensor b = a.clone(), c = b; switch (pick("change", 0, 3)) { case 0: b.fill_(f); break; case 1: op::addInplace(b, a, 1); break; case 2: b.fillZero_(); break; case 3: op::mulInplace(b, Tensor::scalar(f, b.options())); break; } same(a, mk(v, {3}), "a clone is changed alone"); Tensor h = host(b); same(c, h, "aliases see the change"); END();
}
// tensors without elements
HARNESS(empties) {
  start(); static const Sh S[] = {{0}, {0, 2}, {2, 0}, {2, 0, 3}}; Sh s = S[pick("shape", 0, 3)]; Tensor a = mk({}, s), b = mk({}, s); float f = sym_f32("f");
  switch (pick("op", 0, 12)) {
    case 0: agree("moved", [](const Tensor& x) { return x; }, a); break; case 1: agree("add", [](const Tensor& x, const Tensor& y) { return x + y; }, a, b); break; case 2: agree("relu", [](const Tensor& x) { return op::relu(x); }, a); break;
    case 3: agree("sum", [](const Tensor& x) { return x.sum(); }, a); break; case 4: agree("cast", [](const Tensor& x) { return x.to(DType::Int64); }, a); break; case 5: same(Tensor::full(IntArrayView(s), f, options::device(G())), Tensor::full(IntArrayView(s), f), "full"); break;
    case 6: agree("clone", [](const Tensor& x) { return x.clone(); }, a); break; case 7: agree("permute", [](const Tensor& x) { return op::permuteAll(x); }, a); break; case 8: agree("compare", [](const Tensor& x, const Tensor& y) { return op::lt(x, y); }, a, b); break; case 9: agree("fill", [=](const Tensor& x) { Tensor y = x.clone(); y.fill_(f); return y; }, a); break;
    case 10: agree("times a scalar", [=](const Tensor& x) { return x * f; }, a); break; case 11: agree("sum along a dimension", [](const Tensor& x) { return op::sumOnDim(x, 0, false); }, a); break; case 12: agree("clamp", [](const Tensor& x) { return op::clampMin(x, Tensor::scalar(0.f, x.options())); }, a); break; }
  END();
}
