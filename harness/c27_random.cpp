// C27: seeded random fills, dropout
#include "common.h"
#include "Operations.h"
#include "Functions.h"
#include "Module/Basic.h"
#include "Utils/RandomGenerator.h"
static const unsigned long SEEDS[] = {1, 0, 42, 2147483647ul, 123456789012ul};
// one random operation; the values it produced
static Fs vals(const Tensor& t) { Fs r; if (t.dtype() == DType::Int64) for (int64_t i = 0; i < t.numel(); i++) r.push_back((float)t.dataPtr<int64_t>()[i]); else for (int64_t i = 0; i < t.numel(); i++) r.push_back(fp(t)[i]); return r; }
static const int NOPS = 8;
static Fs op1(int64_t k) {
  switch (k) {
    case 0: return vals(Tensor::rand({3}));
    case 1: return vals(Tensor::randn({3}));
    case 2: return vals(Tensor::bernoulli({4}, 0.4f));
    case 3: return vals(function::dropout(mk({1.f, 2.f, 3.f, 4.f}, {4}), 0.5f, true));
    case 4: return vals(op::dropout(mk({1.f, 2.f, 3.f}, {3}), 0.5f));
    case 5: return vals(op::multinomial(mk({1.f, 2.f, 3.f}, {3}), 3, true));
    case 6: return vals(Tensor::uniform({2}, -2.f, 3.f));
    default: { Tensor t = mk({0.f, 0.f, 0.f}, {3}); t.fillNormal_(1.f, 2.f); return vals(t); } }
}
static void cat(Fs& a, const Fs& b) { a.insert(a.end(), b.begin(), b.end()); }
// the same seed and the same operations give the same values, whatever was drawn before
HARNESS(reproducible) {
  begin(); int64_t len = pick("length", 1, TIER == 2 ? 3 : 2); std::vector<int64_t> ops; for (int64_t i = 0; i < len; i++) ops.push_back(pick("op", 0, NOPS - 1)); unsigned long s = SEEDS[pick("seed", 0, 2)];
  manualSeed(s); Fs a; for (auto o : ops) cat(a, op1(o)); op1(pick("between", 0, 1)); manualSeed(s); Fs b; for (auto o : ops) cat(b, op1(o));
  CHECK(a.size() == b.size(), "same number of values"); bool same = true; for (size_t i = 0; i < a.size(); i++) same &= fbits(a[i]) == fbits(b[i]); CHECK(same, "the same seed gives the same values"); END();
}
// every seed (uniform fills need no decision)
HARNESS(every_seed) { begin(); unsigned long s = (unsigned long)sym_i64("seed", 0, TIER == 2 ? 4294967295ll : 65535); manualSeed(s); Tensor a = Tensor::rand({1}); manualSeed(s); Tensor b = Tensor::rand({1}); for (int i = 0; i < 1; i++) CHECK(fbits(fp(a)[i]) == fbits(fp(b)[i]), "the same seed gives the same values"); END(); }
// one shared stream: consecutive calls continue it, they do not restart it
HARNESS(one_stream) {
  begin(); unsigned long s = SEEDS[pick("seed", 0, 4)]; int64_t p = pick("first", 1, 3), q = pick("second", 1, 3); manualSeed(s); Tensor all = Tensor::rand({p + q}); manualSeed(s); Tensor a = Tensor::rand({p}), b = Tensor::rand({q}); bool same = true; for (int64_t i = 0; i < p + q; i++) same &= fbits(fp(all)[i]) == fbits(i < p ? fp(a)[i] : fp(b)[i - p]); CHECK(same, "consecutive calls continue one stream"); END();
}
HARNESS(calls_differ) { begin(); unsigned long s = SEEDS[pick("seed", 0, 4)]; int64_t k = pick("op", 0, 3); manualSeed(s); auto f = [&]() { return k == 0 ? vals(Tensor::rand({6})) : k == 1 ? vals(Tensor::randn({6})) : k == 2 ? vals(Tensor::bernoulli({40}, 0.5f)) : vals(function::dropout(Tensor::ones({40}), 0.5f, true)); }; Fs a = f(), b = f(); bool same = true; for (size_t i = 0; i < a.size(); i++) same &= fbits(a[i]) == fbits(b[i]); CHECK(!same, "a second call draws new values"); bool allSame = true; for (size_t i = 1; i < a.size(); i++) allSame &= fbits(a[i]) == fbits(a[0]); CHECK(!allSame, "elements are drawn one by one"); END(); }
HARNESS(seeds_differ) { begin(); int64_t i = pick("seed", 0, 2); manualSeed(10 + i); Tensor a = Tensor::rand({4}); manualSeed(11 + i); Tensor b = Tensor::rand({4}); bool same = true; for (int k = 0; k < 4; k++) same &= fbits(fp(a)[k]) == fbits(fp(b)[k]); CHECK(!same, "different seeds give different values"); END(); }
// ranges, for every engine output
HARNESS(uniform_real) { beginReal(); Sh s = pickShape("size", 0, 2, 0, 2, 4); float lo = sym_f32_range("lo", -100, 100), hi = sym_f32_range("hi", -100, 100); sym_assume(lo < hi); manualSeed(1); rng_havoc(1); Tensor t = Tensor::uniform(IntArrayView(s), lo, hi); checkLayout(t, s, "shape"); for (int64_t i = 0; i < t.numel(); i++) CHECK(fp(t)[i] >= lo && fp(t)[i] < hi, "uniform values lie in the range"); Tensor u = mk(Fs(3, 500.f), {3}); u.fillUniform_(lo, hi); for (int i = 0; i < 3; i++) CHECK(fp(u)[i] >= lo && fp(u)[i] < hi, "uniform values lie in the range"); END(); }
HARNESS(uniform_bits) { begin(); static const float R[][2] = {{0, 1}, {-1, 1}, {5, 7}, {-0.5f, -0.25f}, {1e-3f, 1e3f}, {3, 3}}; int64_t k = pick("range", 0, 5); manualSeed(1); rng_havoc(1); Tensor t = Tensor::uniform({2}, R[k][0], R[k][1]); for (int i = 0; i < 2; i++) CHECK(fp(t)[i] >= R[k][0] && fp(t)[i] <= R[k][1], "uniform values lie in the range"); END(); }
HARNESS(rand_bits) { begin(); Sh s = pickShape("size", 0, 3, 0, 2, 2); manualSeed(1); rng_havoc(1); Tensor t = Tensor::rand(IntArrayView(s)); checkLayout(t, s, "shape"); for (int64_t i = 0; i < t.numel(); i++) CHECK(fp(t)[i] >= 0.f && fp(t)[i] < 1.f, "rand lies in [0, 1)"); END(); }
template <class T> static void low() { manualSeed(1); rng_havoc(1); Tensor t = Tensor::rand({1}, options::dtype(TypeToDType_v<T>)); CHECK(t.dtype() == TypeToDType_v<T>, "type"); float f = t.dataPtr<T>()[0]; CHECK(f >= 0.f && f <= 1.f, "rand lies between 0 and 1"); }
HARNESS(rand_low) { begin(); switch (pick("type", 0, 1)) { case 0: low<Half>(); break; default: low<BFloat16>(); } END(); }
// the extremes of the engine reach both ends of the range
HARNESS(uniform_spread) { beginReal(); float lo = sym_f32_range("lo", -100, 100), hi = sym_f32_range("hi", -100, 100); sym_assume(lo < hi); manualSeed(3); Tensor t = Tensor::uniform({40}, lo, hi); manualSeed(3); Tensor u = Tensor::rand({40}); for (int i = 0; i < 40; i++) CHECKF(fp(t)[i], lo + fp(u)[i] * (hi - lo), "uniform values are spread over the whole range"); float mn = 1, mx = 0; for (int i = 0; i < 40; i++) { mn = fp(u)[i] < mn ? fp(u)[i] : mn; mx = fp(u)[i] > mx ? fp(u)[i] : mx; } CHECK(mn < 0.25f && mx > 0.75f, "values reach both parts of the range"); END(); }
// normal: location and scale
HARNESS(normal) { beginReal(); unsigned long s = SEEDS[pick("seed", 0, 2)]; int64_t n = pick("n", 0, 5); float m = sym_f32_range("mean", -10, 10), d = sym_f32_range("stddev", 0.1f, 10); manualSeed(s); Tensor z = Tensor::randn({n}); manualSeed(s); Tensor t = mk(Fs(n, 7.f), {n}); t.fillNormal_(m, d); checkLayout(t, {n}, "shape"); for (int64_t i = 0; i < n; i++) CHECKF(fp(t)[i], fp(z)[i] * d + m, "mean and deviation are applied"); END(); }
HARNESS(normal_moments) { begin(); manualSeed(SEEDS[pick("seed", 0, 2)]); Tensor z = Tensor::randn({400}); double s = 0, q = 0; for (int i = 0; i < 400; i++) { s += fp(z)[i]; q += (double)fp(z)[i] * fp(z)[i]; } CHECK(s / 400 < 0.25 && s / 400 > -0.25 && q / 400 > 0.7 && q / 400 < 1.3, "standard normal values"); END(); }
// Bernoulli
HARNESS(bernoulli) { beginReal(); Sh s = pickShape("size", 0, 2, 0, 2, 3); float p = sym_f32_range("p", 0, 1); manualSeed(1); rng_havoc(1); Tensor t = Tensor::bernoulli(IntArrayView(s), p); checkLayout(t, s, "shape"); for (int64_t i = 0; i < t.numel(); i++) { bool one = fp(t)[i] == 1.f, zero = fp(t)[i] == 0.f; CHECK(one || zero, "Bernoulli values are 0 or 1"); if (one) CHECK(p > 0, "probability 0 never gives 1"); else CHECK(p < 1, "probability 1 never gives 0"); } END(); }
HARNESS(bernoulli_ends) { begin(); float p = pick("p", 0, 1) ? 1.f : 0.f; manualSeed(1); rng_havoc(1); Tensor t; if (pick("fill", 0, 1)) { t = mk({5.f}, {1}); t.fillBernoulli_(p); } else t = Tensor::bernoulli({1}, p); CHECK(fp(t)[0] == p, "probabilities 0 and 1 are certain"); END(); }
// the share of ones follows p: a larger p never turns a one into a zero, and fixed draws hit it roughly
HARNESS(bernoulli_share) { begin(); manualSeed(SEEDS[pick("seed", 0, 2)]); int64_t k = pick("p*10", 1, 9); Tensor t = Tensor::bernoulli({300}, (float)k / 10); int ones = 0; for (int i = 0; i < 300; i++) ones += fp(t)[i] == 1.f; CHECK(ones > 300 * (double)k / 10 - 45 && ones < 300 * (double)k / 10 + 45, "p is the probability of a one"); END(); }
// dropout
static void checkDrop(const Tensor& r, const Fs& x, const Sh& s, float p, const char* what) { checkLayout(r, s, "shape"); for (size_t i = 0; i < x.size(); i++) { float y = fp(r)[i]; if (y == 0.f) continue; CHECKF(y * (1 - p), x[i], what); } }
HARNESS(dropout_train) { beginReal(); Sh s = pickShape("size", 0, 2, 0, 2, 3); float p = sym_f32_range("p", 0, 0.9f); Fs x = symFsR("x", prod(s), 1, 4); Tensor t = mk(x, s); manualSeed(1); rng_havoc(1); Tensor r = pick("module", 0, 1) ? nn::Dropout(p)(t) : function::dropout(t, p, true); checkDrop(r, x, s, p, "kept elements are scaled by 1/(1-p)"); checkVals(t, x, "the input is unchanged"); END(); }
HARNESS(dropout_op) { beginReal(); int64_t n = pick("n", 0, 3); float keep = sym_f32_range("keep", 0.1f, 1); Fs x = symFsR("x", n, 1, 4); Tensor t = mk(x, {n}); manualSeed(1); rng_havoc(1); Tensor r = op::dropout(t, keep); checkLayout(r, {n}, "shape"); for (int64_t i = 0; i < n; i++) { float y = fp(r)[i]; if (y == 0.f) continue; CHECKF(y * keep, x[i], "kept elements are scaled by the inverse of the keeping probability"); } checkVals(t, x, "the input is unchanged"); END(); }
HARNESS(dropout_ends) { beginReal(); int64_t n = pick("n", 0, 3); bool all = pick("drop all", 0, 1); Fs x = symFs("x", n); manualSeed(1); rng_havoc(1); Tensor r = function::dropout(mk(x, {n}), all ? 1.f : 0.f, true); checkT(r, all ? Fs(n, 0.f) : x, {n}, "probabilities 0 and 1 are certain"); Tensor q = op::dropout(mk(x, {n}), all ? 0.f : 1.f); checkT(q, all ? Fs(n, 0.f) : x, {n}, "probabilities 0 and 1 are certain"); END(); }
HARNESS(dropout_eval) { begin(); Sh s = pickShape("size", 0, 3, 0, 2, 8); Fs x = symFs("x", prod(s)); float p = sym_f32("p"); sym_assume(p >= 0 && p <= 1); Tensor t = mk(x, s); manualSeed(1); rng_havoc(1); Tensor r; int64_t how = pick("via", 0, 1); if (how == 0) r = function::dropout(t, p, false); else { nn::Dropout d(p); d.eval(); r = d(t); } checkT(r, x, s, "dropout is the identity in evaluation mode"); CHECK(rng_draws() == 0, "evaluation draws nothing"); if (r.numel() > 0) { r.fillZero_(); checkVals(t, x, "writing to the result leaves the input alone"); } END(); }
HARNESS(dropout_share) { begin(); manualSeed(SEEDS[pick("seed", 0, 2)]); int64_t k = pick("p*10", 1, 9); bool o = pick("op", 0, 1); Tensor x = Tensor::ones({300}); Tensor t = o ? op::dropout(x, 1.f - (float)k / 10) : function::dropout(x, (float)k / 10, true); int zeros = 0; for (int i = 0; i < 300; i++) zeros += fp(t)[i] == 0.f; CHECK(zeros > 300 * (double)k / 10 - 45 && zeros < 300 * (double)k / 10 + 45, "p is the probability of dropping"); END(); }
// the gradient passes exactly where the value passed
HARNESS(dropout_grad) { beginReal(); int64_t n = pick("n", 1, 2); float p = sym_f32_range("p", 0, 0.9f); Fs x = symFsR("x", n, 1, 4), w = symFsR("w", n, 1, 4); Tensor t = mk(x, {n}, true), g = mk(w, {n}); manualSeed(1); rng_havoc(1); Tensor r = function::dropout(t, p, true); r.backward(g); for (int64_t i = 0; i < n; i++) { if (fp(r)[i] == 0.f) CHECKF(fp(t.grad())[i], 0.f, "no gradient through a dropped element"); else CHECKF(fp(t.grad())[i] * (1 - p), w[i], "gradient of a kept element"); } END(); }
HARNESS(dropout_grad_eval) { beginReal(); int64_t n = pick("n", 1, 3); Fs x = symFs("x", n), w = symFs("w", n); Tensor t = mk(x, {n}, true); Tensor r = function::dropout(t, 0.5f, false); r.backward(mk(w, {n})); checkVals(t.grad(), w, "gradient of the identity"); END(); }
HARNESS(wide) {
  begin(); static const int64_t N[] = {65, 130, 300}; int64_t n = N[pick("n", 0, 2)], k = pick("kind", 0, 3); unsigned long s = SEEDS[pick("seed", 0, 2)]; auto draw = [&]() { return k == 0 ? Tensor::rand({n}) : k == 1 ? Tensor::randn({n}) : k == 2 ? Tensor::uniform({n}, -3.f, 5.f) : Tensor::bernoulli({n}, 0.5f); }; manualSeed(s); Tensor a = draw(), b = draw(); manualSeed(s); Tensor c = draw(), d = draw(); bool eq = true; int64_t rep = 0; for (int64_t i = 0; i < n; i++) { eq &= fbits(fp(a)[i]) == fbits(fp(c)[i]) && fbits(fp(b)[i]) == fbits(fp(d)[i]); rep += i > 0 && fp(a)[i] == fp(a)[i - 1]; if (k == 0) CHECK(fp(a)[i] >= 0 && fp(a)[i] < 1, "rand lies in [0, 1)"); if (k == 2) CHECK(fp(a)[i] >= -3 && fp(a)[i] < 5, "uniform values lie in the range"); if (k == 3) CHECK(fp(a)[i] == 0 || fp(a)[i] == 1, "Bernoulli values are 0 or 1"); }
  CHECK(eq, "the same seed gives the same values"); if (k < 3) CHECK(rep == 0, "consecutive values differ"); for (int64_t l = 1; l < n / 2 && k < 3; l++) { bool cyc = true; for (int64_t i = l; i < n; i++) cyc &= fp(a)[i] == fp(a)[i - l]; CHECK(!cyc, "values do not repeat in a cycle"); } END();
}
HARNESS(wide_dropout) { beginReal(); int64_t n = pick("n", 0, 1) ? 300 : 65; bool o = pick("op", 0, 1); float p = 0.25f; Fs x = symFsR("x", n, 1, 4); Tensor t = mk(x, {n}); manualSeed(SEEDS[pick("seed", 0, 2)]); Tensor r = o ? op::dropout(t, 1 - p) : function::dropout(t, p, true); for (int64_t i = 0; i < n; i++) { float y = fp(r)[i]; if (sym_fork(y == 0.f)) continue; CHECKF(y * 0.75f, x[i], "kept elements are scaled by 1/(1-p)"); } checkVals(t, x, "the input is unchanged"); END(); }
