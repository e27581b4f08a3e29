// C28: weight initializers and layer initialisation
#include "common.h"
#include "Initializer.h"
#include "Modules.h"
#include "Utils/RandomGenerator.h"
using namespace tinytorch::nn;
static double fan(const Sh& s, bool in) { double r = in ? s[1] : s[0]; for (size_t i = 2; i < s.size(); i++) r *= s[i]; return r; }
static float gainOf(float a) { return std::sqrt(2.0f / (1.f + a * a)); }
static void inRange(const Tensor& t, float lo, float hi, const char* what) { for (int64_t i = 0; i < t.numel(); i++) CHECK(fp(t)[i] >= lo - 1e-5f * (hi - lo) && fp(t)[i] <= hi + 1e-5f * (hi - lo), what); }
HARNESS(fans) {
  begin(); Sh s = pickShape("size", 2, 4, 0, 3); Tensor t = Tensor::empty(IntArrayView(s)); auto f = Initializer::calculateFan(t); CHECK((double)f.first == fan(s, true) && (double)f.second == fan(s, false), "fan in and fan out of a weight"); CHECK((double)Initializer::calculateFan(t, FanMode::FAN_IN) == fan(s, true) && (double)Initializer::calculateFan(t, FanMode::FAN_OUT) == fan(s, false), "fan selected by mode"); END();
}
HARNESS(gain) { beginReal(); float a = sym_f32_range("a", 0, 10); float g = Initializer::calculateGain(a); CHECK(g >= 0, "the gain is not negative"); CHECKF(g * g * (1 + a * a), 2.f, "gain of the leaky rectifier"); END(); }
// every engine output: values stay inside the bound of the formula; shape, identity and other fields untouched
HARNESS(kaiming_bound) {
  beginReal(); Sh s = pickShape("size", 2, 4, 1, 2, 4); bool in = pick("fan in", 0, 1); float a = (float)pick("a", 0, 3); manualSeed(1); rng_havoc(1); Tensor t = mk(Fs(prod(s), 77.f), s, pick("requires grad", 0, 1)); bool rg = t.requiresGrad(); const void* p = t.dataPtr<float>(); Initializer::kaimingUniform(t, a, in ? FanMode::FAN_IN : FanMode::FAN_OUT);
  float b = std::sqrt(3.f) * gainOf(a) / std::sqrt((float)fan(s, in)); checkLayout(t, s, "shape"); inRange(t, -b, b, "Kaiming values stay inside the bound"); CHECK(t.dataPtr<float>() == p && t.requiresGrad() == rg, "filled in place"); END();
}
// the whole range is used: the same draws as a uniform fill over the bound, for every slope
HARNESS(kaiming_scale) {
  beginReal(); Sh s = pickShape("size", 2, 4, 1, 3, 9); bool in = pick("fan in", 0, 1); float a = (float)pick("a", 0, 3) * 0.5f; Tensor t = Tensor::empty(IntArrayView(s)), u = Tensor::empty(IntArrayView(s)); manualSeed(5); Initializer::kaimingUniform(t, a, in ? FanMode::FAN_IN : FanMode::FAN_OUT); manualSeed(5); u.fillUniform_(-1.f, 1.f); float b = std::sqrt(3.f) * gainOf(a) / std::sqrt((float)fan(s, in)); for (int64_t i = 0; i < t.numel(); i++) CHECKF(fp(t)[i], fp(u)[i] * b, "Kaiming values use the whole range"); END();
}
HARNESS(uniform) { beginReal(); Sh s = pickShape("size", 0, 3, 0, 2, 4); float lo = sym_f32_range("lo", -50, 50), hi = sym_f32_range("hi", -50, 50); sym_assume(lo < hi); manualSeed(1); rng_havoc(1); Tensor t = mk(Fs(prod(s), 77.f), s); Initializer::uniform(t, lo, hi); checkLayout(t, s, "shape"); for (int64_t i = 0; i < t.numel(); i++) CHECK(fp(t)[i] >= lo && fp(t)[i] <= hi, "uniform values stay in the range"); END(); }
HARNESS(normal) { beginReal(); int64_t n = pick("n", 0, 4); float m = sym_f32_range("mean", -10, 10), d = sym_f32_range("stddev", 0.1f, 10); Tensor t = Tensor::empty({n}), z = Tensor::empty({n}); manualSeed(7); Initializer::normal(t, m, d); manualSeed(7); z.fillNormal_(0.f, 1.f); for (int64_t i = 0; i < n; i++) CHECKF(fp(t)[i], fp(z)[i] * d + m, "mean and deviation"); END(); }
HARNESS(constants) { begin(); Sh s = pickShape("size", 0, 3, 0, 3, 27); bool one = pick("ones", 0, 1); bool sh = pick("shared", 0, 1); Fs v = symFs("x", prod(s)); Tensor t = mk(v, s), keep; if (sh) keep = t.clone(); if (one) Initializer::ones(t); else Initializer::zeros(t); checkT(t, Fs(prod(s), one ? 1.f : 0.f), s, "filled with the constant"); if (sh) checkVals(keep, v, "a copy taken before is unchanged"); END(); }
// ---- layers: every engine output
static void spread(const Tensor& t, float b) { float mn = 0, mx = 0; for (int64_t i = 0; i < t.numel(); i++) { mn = fp(t)[i] < mn ? fp(t)[i] : mn; mx = fp(t)[i] > mx ? fp(t)[i] : mx; } CHECK(mn < -0.6f * b && mx > 0.6f * b, "values use the whole range"); }
HARNESS(linear) {
  beginReal(); int64_t in = pick("in", 1, 3), out = pick("out", 1, 2); bool bias = pick("bias", 0, 1); manualSeed(1); rng_havoc(1); Linear l(in, out, bias); l.initParameters(); float b = 1.f / std::sqrt((float)in); checkLayout(l.weight(), {out, in}, "weight shape"); inRange(l.weight(), -b, b, "weights stay inside 1/sqrt(fan in)"); CHECK(l.weight().requiresGrad(), "weights are trainable"); CHECK(l.bias().defined() == bias, "bias present when asked for"); if (bias) { checkLayout(l.bias(), {out}, "bias shape"); inRange(l.bias(), -b, b, "biases stay inside 1/sqrt(fan in)"); CHECK(l.bias().requiresGrad(), "biases are trainable"); } END();
}
HARNESS(conv) {
  beginReal(); int64_t in = pick("in", 1, 2), out = pick("out", 1, 2), kh = pick("kh", 1, 2), kw = pick("kw", 1, 2); bool bias = pick("bias", 0, 1); manualSeed(1); rng_havoc(1); Conv2D l(in, out, {kh, kw}, 1, 0, bias); l.initParameters(); float b = 1.f / std::sqrt((float)(in * kh * kw)); checkLayout(l.weight(), {out, in, kh, kw}, "weight shape"); inRange(l.weight(), -b, b, "weights stay inside 1/sqrt(fan in)"); CHECK(l.weight().requiresGrad(), "weights are trainable"); CHECK(l.bias().defined() == bias, "bias present when asked for"); if (bias) { checkLayout(l.bias(), {out}, "bias shape"); inRange(l.bias(), -b, b, "biases stay inside 1/sqrt(fan in)"); } END();
}
HARNESS(layer_spread) { begin(); manualSeed(11); int64_t k = pick("layer", 0, 1); if (k == 0) { Linear l(4, 40); l.initParameters(); spread(l.weight(), 0.5f); spread(l.bias(), 0.5f); } else { Conv2D l(1, 40, {2, 2}); l.initParameters(); spread(l.weight(), 0.5f); spread(l.bias(), 0.5f); } END(); }
HARNESS(embedding) { beginReal(); int64_t n = pick("n", 1, 3), d = pick("d", 1, 3); Embedding e(n, d); manualSeed(3); e.initParameters(); Tensor z = Tensor::empty({n, d}); manualSeed(3); z.fillNormal_(0.f, 1.f); checkLayout(e.weight(), {n, d}, "weight shape"); for (int64_t i = 0; i < n * d; i++) CHECKF(fp(e.weight())[i], fp(z)[i], "embeddings are standard normal"); END(); }
HARNESS(norms) { begin(); int64_t d = pick("d", 1, 4); bool bias = pick("bias", 0, 1); Fs v = symFs("x", d); LayerNorm l({d}, 1e-5f, bias); memcpy(l.weight().dataPtr<float>(), v.data(), 4 * d); if (bias) memcpy(l.bias().dataPtr<float>(), v.data(), 4 * d); l.initParameters(); checkT(l.weight(), Fs(d, 1.f), {d}, "weight one"); CHECK(l.bias().defined() == bias, "bias present when asked for"); if (bias) checkT(l.bias(), Fs(d, 0.f), {d}, "bias zero"); RMSNorm r({d}); memcpy(r.weight().dataPtr<float>(), v.data(), 4 * d); r.initParameters(); checkT(r.weight(), Fs(d, 1.f), {d}, "weight one"); END(); }
// a tree: every layer of it is initialised
HARNESS(tree) { begin(); manualSeed(2); Sequential m{std::make_shared<Linear>(3, 2), std::make_shared<Sequential>(std::initializer_list<std::shared_ptr<Module>>{std::make_shared<LayerNorm>(Sh{2}), std::make_shared<Linear>(2, 2, false)}), std::make_shared<Relu>()}; for (auto& p : m.parameters()) p->fill_(100.f); m.initParameters(); for (auto& p : m.parameters()) for (int64_t i = 0; i < p->numel(); i++) CHECK(fp(*p)[i] <= 1.f && fp(*p)[i] >= -1.f, "every layer of the tree is initialised"); END(); }
HARNESS(wide_fans) { begin(); static const Sh S[] = {{300, 70}, {5, 7, 3, 3}, {2, 3, 4, 5, 6}, {1, 1, 70}, {12, 1}}; const Sh& s = S[pick("shape", 0, 4)]; Tensor t = Tensor::empty(IntArrayView(s)); auto f = Initializer::calculateFan(t); CHECK((double)f.first == fan(s, true) && (double)f.second == fan(s, false), "fan in and fan out of a weight"); END(); }
HARNESS(wide) {
  begin(); manualSeed(5); int64_t k = pick("layer", 0, 2); float b; Tensor w, c; std::shared_ptr<Linear> l; std::shared_ptr<Conv2D> v; if (k == 2) { v = std::make_shared<Conv2D>(5, 6, Dim2D(3, 3)); v->initParameters(); w = v->weight(); c = v->bias(); b = 1.f / std::sqrt(45.f); } else { l = std::make_shared<Linear>(k ? 3 : 100, k ? 100 : 3); l->initParameters(); w = l->weight(); c = l->bias(); b = 1.f / std::sqrt(k ? 3.f : 100.f); }
  inRange(w, -b, b, "weights stay inside 1/sqrt(fan in)"); inRange(c, -b, b, "biases stay inside 1/sqrt(fan in)"); int hi = 0, lo = 0; for (int64_t i = 0; i < w.numel(); i++) { hi += fp(w)[i] > 0.8f * b; lo += fp(w)[i] < -0.8f * b; } CHECK(hi > 0 && lo > 0, "the bound is used on both sides"); END();
}
