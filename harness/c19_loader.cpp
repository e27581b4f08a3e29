#include "common.h"
#include "Data/DataLoader.h"
#include "Utils/RandomGenerator.h"
#include <memory>
using namespace tinytorch::data;
// sample i: a two-element feature row and a scalar label, both functions of i
struct Ds : Dataset {
  size_t n; Fs a, b; std::vector<int64_t> l; mutable int calls = 0; explicit Ds(size_t k) : n(k), a(symFs("a", k)), b(symFs("b", k)) { for (size_t i = 0; i < k; i++) l.push_back(1000 + (int64_t)i); }
  size_t size() const override { return n; }
  std::vector<Tensor> getItem(size_t i) override { CHECK(i < n, "only samples of the dataset are asked for"); calls++; return {mk({a[i], b[i]}, {2}), Tensor::scalar(l[i], options::dtype(DType::Int64))}; }
};
static std::vector<size_t> pass(const DataLoader& dl, const Ds& d, int64_t b, int64_t batches, int64_t total, const char* m) {
  std::vector<size_t> seen; int64_t k = 0;
  for (auto [idx, batch] : dl) {
    CHECK((int64_t)idx == k, "batches are numbered in order"); CHECK(batch.size() == 2, "one tensor per sample component"); int64_t cnt = total - k * b < b ? total - k * b : b; CHECK(cnt > 0, "no empty batch");
    checkLayout(batch[0], {cnt, 2}, "batches stack the samples"); checkLayout(batch[1], {cnt}, "batches stack the labels"); CHECK(batch[1].dtype() == DType::Int64, "label type"); const int64_t* lp = batch[1].dataPtr<int64_t>(); const float* fpp = fp(batch[0]);
    for (int64_t i = 0; i < cnt; i++) { int64_t s = sym_concretize(lp[i]) - 1000; CHECK(s >= 0 && s < (int64_t)d.n, "a sample of the dataset"); if (s < 0 || s >= (int64_t)d.n) return seen; CHECKF(fpp[2 * i], d.a[s], m); CHECKF(fpp[2 * i + 1], d.b[s], m); seen.push_back((size_t)s); }
    k++;
  }
  CHECK(k == batches, "the reported number of batches is delivered"); CHECK((int64_t)seen.size() == (batches * b < total ? batches * b : total), "number of samples"); return seen;
}
static void distinct(const std::vector<size_t>& s) { for (size_t i = 0; i < s.size(); i++) for (size_t j = 0; j < i; j++) CHECK(s[i] != s[j], "no sample twice in one pass"); }
static void inOrder(const std::vector<size_t>& s) { for (size_t i = 0; i < s.size(); i++) CHECK(s[i] == i, "samples come in order"); }
static int64_t cnt(int64_t n, int64_t b, bool drop) { return drop ? n / b : n / b + (n % b != 0); }
HARNESS(ordered) {
  begin(); int64_t n = pick("samples", 0, TIER == 2 ? 9 : 6), b = pick("batch", 1, n + 1); bool drop = pick("dropLast", 0, 1); auto d = std::make_shared<Ds>(n); DataLoader dl(d, b, nullptr, false, drop); int64_t k = cnt(n, b, drop); CHECK((int64_t)dl.size() == k, "number of batches"); CHECK((int64_t)dl.batchSize() == b, "batch size");
  auto s = pass(dl, *d, b, k, n, "values of the sample"); inOrder(s); auto t = pass(dl, *d, b, k, n, "values of the sample, second pass"); inOrder(t); END();
}
// every batch size, however large
HARNESS(any_batch_size) {
  begin(); int64_t n = pick("samples", 1, 5); uint64_t b = sym_u64("batch"); sym_assume(b >= (uint64_t)n); bool drop = pick("dropLast", 0, 1); auto d = std::make_shared<Ds>(n); DataLoader dl(d, b, nullptr, false, drop); bool one = !drop || b == (uint64_t)n; CHECK(dl.size() == (one ? 1u : 0u), "one batch holds everything"); CHECK((dl.begin() != dl.end()) == one, "delivered"); END();
}
HARNESS(shuffled) {
  begin(); int64_t n = pick("samples", 0, TIER == 2 ? 4 : 3), b = pick("batch", 1, n < 2 ? n + 1 : 2); bool drop = pick("dropLast", 0, 1); manualSeed(1); rng_havoc((int)n + 2); auto d = std::make_shared<Ds>(n); DataLoader dl(d, b, nullptr, true, drop); rng_havoc(0); int64_t k = cnt(n, b, drop); CHECK((int64_t)dl.size() == k, "number of batches");
  auto s = pass(dl, *d, b, k, n, "values of the sample"); distinct(s); auto t = pass(dl, *d, b, k, n, "second pass"); distinct(t); END();
}
// the same seed gives the same order; the default is to shuffle
HARNESS(seeded) {
  begin(); uint64_t seed = pick("seed", 0, 3); int64_t n = 7; auto d = std::make_shared<Ds>(n); manualSeed(seed); DataLoader x(d, 2); manualSeed(seed); DataLoader y(d, 2); auto s = pass(x, *d, 2, 4, n, "values"), t = pass(y, *d, 2, 4, n, "values"); distinct(s); for (size_t i = 0; i < s.size(); i++) CHECK(s[i] == t[i], "the same seed gives the same order"); END();
}
// a sampler decides which samples are visited, and in which order
struct Fixed : Sampler { std::vector<size_t> v; std::vector<size_t> indices() const override { return v; } size_t size() const override { return v.size(); } };
HARNESS(sampler) {
  begin(); int64_t n = 3, m = pick("count", 0, TIER == 2 ? 4 : 3), b = pick("batch", 1, 3); bool drop = pick("dropLast", 0, 1), sh = pick("shuffle", 0, 1); auto d = std::make_shared<Ds>(n); auto f = std::make_shared<Fixed>(); for (int64_t i = 0; i < m; i++) f->v.push_back((size_t)sym_i64("index", 0, n - 1)); DataLoader dl(d, b, f, sh, drop); int64_t k = cnt(m, b, drop); CHECK((int64_t)dl.size() == k, "number of batches"); auto s = pass(dl, *d, b, k, m, "values"); for (size_t i = 0; i < s.size(); i++) CHECK(s[i] == f->v[i], "the sampler's order"); END();
}
HARNESS(sequential_sampler) { begin(); int64_t n = pick("samples", 0, 6); SequentialSampler s(n); auto v = s.indices(); CHECK((int64_t)s.size() == n && (int64_t)v.size() == n, "size"); s.setEpoch(3); v = s.indices(); inOrder(v); CHECK((int64_t)v.size() == n, "size"); END(); }
HARNESS(random_sampler) {
  begin(); int64_t n = pick("samples", 0, TIER == 2 ? 4 : 3); rng_havoc(2 * (int)n + 2); RandomSampler s(n, sym_u64("seed")); auto v = s.indices(); CHECK((int64_t)s.size() == n && (int64_t)v.size() == n, "size"); for (auto& x : v) { CHECK(x < (size_t)n, "in range"); } distinct(v); s.setEpoch(sym_u64("epoch")); v = s.indices(); CHECK((int64_t)v.size() == n, "size"); for (auto x : v) CHECK(x < (size_t)n, "in range"); distinct(v); END();
}
// the order is a function of seed + epoch alone
HARNESS(random_sampler_seeded) {
  begin(); int64_t n = pick("samples", 2, 8); uint64_t seed = pick("seed", 0, 2), e = pick("epoch", 0, 2); RandomSampler s(n, seed), t(n, seed); s.setEpoch(1); s.setEpoch(e); t.setEpoch(e); manualSeed(9); auto v = s.indices(), w = t.indices(); distinct(v); for (int64_t i = 0; i < n; i++) CHECK(v[i] == w[i], "same seed and epoch, same order"); if (e == 0) { RandomSampler u(n, seed); w = u.indices(); for (int64_t i = 0; i < n; i++) CHECK(v[i] == w[i], "epoch 0 is the initial order"); } END();
}
// counts do not go through floating point
HARNESS(large_count) {
  begin(); struct Big : Sampler { size_t n; std::vector<size_t> indices() const override { return std::vector<size_t>(n); } size_t size() const override { return n; } }; auto d = std::make_shared<Ds>(1); auto f = std::make_shared<Big>(); f->n = 16777217; DataLoader dl(d, 1, f); CHECK(dl.size() == 16777217u, "number of batches"); END();
}
// many samples
HARNESS(wide) {
  begin(); static const int64_t N[] = {300, 130, 70}, B[] = {64, 7, 70}; int64_t q = pick("case", 0, 2), n = N[q], b = B[q]; bool drop = pick("dropLast", 0, 1), sh = pick("shuffle", 0, 1); manualSeed(3); auto d = std::make_shared<Ds>(n); DataLoader dl(d, b, nullptr, sh, drop); int64_t k = cnt(n, b, drop); CHECK((int64_t)dl.size() == k, "number of batches"); auto s = pass(dl, *d, b, k, n, "values of the sample"); std::vector<char> seen(n, 0); for (auto i : s) { CHECK(!seen[i], "no sample twice in one pass"); seen[i] = 1; } if (!sh) inOrder(s); END();
}
