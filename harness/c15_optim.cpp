#include "common.h"
#include "Operations.h"
#include "Optimizer.h"
#include <cmath>
#include <memory>
using namespace tinytorch::optim;
// Two trained parameters and one that never receives a gradient; a fresh or kept gradient at every step.
struct P { Tensor a, b, n, z; Fs va, vb, vn, vz; };
static P params() { P p; p.va = symFs("a", 2); p.vb = symFs("b", 1); p.vn = symFs("n", 1); p.a = mk(p.va, {2}, true); p.b = mk(p.vb, {1, 1}, true); p.n = mk(p.vn, {1}, true); p.vz = symFs("z", 2); p.z = mk(p.vz, {2}); return p; }
static float itef(bool c, float a, float b) { uint32_t u = sym_ite32(c, fbits(a), fbits(b)); float f; memcpy(&f, &u, 4); return f; }
struct St { std::vector<float> s; };
// rule(step, value, gradient, state) -> new value
template <class R> static void drive(Optimizer& o, P& p, int K, int nstate, float init, R rule, bool flip = true) {
  std::vector<std::vector<float>> st(3, std::vector<float>(nstate, init)); Fs ga, gb; bool hasB = false;
  for (int k = 1; k <= K; k++) {
    int64_t mode = k == 1 ? 1 : flip ? pick("fresh", 0, 1) : 1;  // keep the previous gradients, or new ones
    if (mode) { ga = symFs("ga", 2); p.a.setGrad(mk(ga, {2})); if (k == 1 ? pick("bHasGrad", 0, 1) : hasB) { gb = symFs("gb", 1); p.b.setGrad(mk(gb, {1, 1})); hasB = true; } }
    o.step();
    for (int i = 0; i < 2; i++) p.va[i] = rule(k, p.va[i], ga[i], st[i]);
    if (hasB) p.vb[0] = rule(k, p.vb[0], gb[0], st[2]);
    checkT(p.a, p.va, {2}, "parameter follows the update rule"); checkT(p.b, p.vb, {1, 1}, "second parameter"); checkT(p.n, p.vn, {1}, "a parameter without gradient is unchanged"); CHECK(!p.n.grad().defined(), "no gradient appears"); checkT(p.z, p.vz, {2}, "a frozen parameter is unchanged"); CHECK(!p.z.requiresGrad(), "a frozen parameter stays frozen");
    checkT(p.a.grad(), ga, {2}, "the step does not modify the gradient"); if (hasB) checkT(p.b.grad(), gb, {1, 1}, "the step does not modify the gradient");
    CHECK(p.a.requiresGrad() && p.b.requiresGrad() && !p.a.grad().requiresGrad(), "flags are kept");
  }
}
static int steps() { return TIER == 2 ? 3 : 2; }
static float pos(const char* n) { float f = sym_f32(n); sym_assume(f > 0); return f; }
static float nz(const char* n) { float f = sym_f32(n); sym_assume(f != 0); return f; }
HARNESS(sgd_plain) {
  beginReal(); P p = params(); float lr = pos("lr"); SGD o({&p.a, &p.b, &p.n, &p.z}, lr);
  drive(o, p, steps() + 1, 0, 0, [&](int, float v, float g, std::vector<float>&) { return v - lr * g; }); END();
}
HARNESS(sgd_decay) {
  beginReal(); P p = params(); float lr = pos("lr"), wd = nz("wd"); SGD o({&p.a, &p.b, &p.n, &p.z}, lr, 0.f, 0.f, wd);
  drive(o, p, steps(), 0, 0, [&](int, float v, float g, std::vector<float>&) { return v - lr * (g + wd * v); }); END();
}
static void sgdMom(bool nesterov) {
  P p = params(); float lr = pos("lr"), mu = pos("mu"), damp = nesterov ? 0.f : sym_f32("dampening"), wd = pick("decay", 0, 1) ? nz("wd") : 0.f; SGD o({&p.a, &p.b, &p.n, &p.z}, lr, mu, damp, wd, nesterov);
  drive(o, p, steps(), 1, 0, [&](int k, float v, float g, std::vector<float>& s) { float d = wd != 0.f ? g + wd * v : g; s[0] = k == 1 ? d : mu * s[0] + (1.f - damp) * d; return v - lr * (nesterov ? d + mu * s[0] : s[0]); }); END();
}
HARNESS(sgd_momentum) { beginReal(); sgdMom(false); }
HARNESS(sgd_nesterov) { beginReal(); sgdMom(true); }
// the first gradient of the second parameter arrives late: its momentum starts then
HARNESS(sgd_late) {
  beginReal(); P p = params(); float lr = pos("lr"), mu = pos("mu"), damp = sym_f32("dampening"); SGD o({&p.a, &p.b, &p.n, &p.z}, lr, mu, damp); Fs ga = symFs("ga", 2); p.a.setGrad(mk(ga, {2}));
  o.step(); checkT(p.b, p.vb, {1, 1}, "no gradient yet"); Fs gb = symFs("gb", 1); p.b.setGrad(mk(gb, {1, 1})); o.step(); checkT(p.b, {p.vb[0] - lr * gb[0]}, {1, 1}, "first step of a late parameter is undamped");
  float b1 = ga[0], b2 = mu * b1 + (1.f - damp) * ga[0]; checkT(p.a, {p.va[0] - lr * b1 - lr * b2, p.va[1] - lr * ga[1] - lr * (mu * ga[1] + (1.f - damp) * ga[1])}, {2}, "the other parameter"); END();
}
HARNESS(adagrad) {
  beginReal(); P p = params(); float lr = pos("lr"), dec = pos("lrDecay"), acc = pos("initAcc"), eps = pos("eps"), wd = pick("decay", 0, 1) ? nz("wd") : 0.f; Adagrad o({&p.a, &p.b, &p.n, &p.z}, lr, dec, wd, acc, eps);
  drive(o, p, steps(), 1, acc, [&](int k, float v, float g, std::vector<float>& s) { float d = wd != 0.f ? g + wd * v : g; s[0] = s[0] + d * d; return v - lr / (1 + float(k - 1) * dec) * d / (std::sqrt(s[0]) + eps); }, false); END();
}
static void rms(bool mom, bool cen) {
  P p = params(); float lr = pos("lr"), al = sym_f32("alpha"), eps = pos("eps"), wd = pick("decay", 0, 1) ? nz("wd") : 0.f, mu = mom ? pos("mu") : 0.f; sym_assume(al > 0 && al < 1); RMSprop o({&p.a, &p.b, &p.n, &p.z}, lr, al, eps, wd, mu, cen);
  drive(o, p, TIER == 2 ? 2 : mom && cen ? 1 : 2, 3, 0, [&](int, float v, float g, std::vector<float>& s) { float d = wd != 0.f ? g + wd * v : g; s[0] = al * s[0] + (1.f - al) * d * d; float a = s[0]; if (cen) { s[1] = al * s[1] + (1.f - al) * d; a = s[0] - s[1] * s[1]; } a = std::sqrt(a) + eps; if (!mom) return v - lr * d / a; s[2] = mu * s[2] + d / a; return v - lr * s[2]; }, false); END();
}
HARNESS(rmsprop) { beginReal(); rms(false, false); }
HARNESS(rmsprop_momentum) { beginReal(); rms(true, false); }
HARNESS(rmsprop_centered) { beginReal(); rms(false, true); }
HARNESS(rmsprop_centered_momentum) { beginReal(); rms(true, true); }
HARNESS(adadelta) {
  beginReal(); P p = params(); float lr = pos("lr"), rho = sym_f32("rho"), eps = pos("eps"), wd = pick("decay", 0, 1) ? nz("wd") : 0.f; sym_assume(rho > 0 && rho < 1); AdaDelta o({&p.a, &p.b, &p.n, &p.z}, lr, rho, eps, wd);
  drive(o, p, 2, 2, 0, [&](int, float v, float g, std::vector<float>& s) { float d = wd != 0.f ? g + wd * v : g; s[0] = rho * s[0] + (1.f - rho) * d * d; float x = std::sqrt(s[1] + eps) / std::sqrt(s[0] + eps) * d; s[1] = rho * s[1] + (1.f - rho) * x * x; return v - lr * x; }, false); END();
}
static void adam(bool w, bool ams, int K) {
  P p = params(); float lr = pos("lr"), b1 = sym_f32("beta1"), b2 = sym_f32("beta2"), eps = pos("eps"), wd = pick("decay", 0, 1) ? nz("wd") : 0.f; sym_assume(b1 > 0 && b1 < 1 && b2 > 0 && b2 < 1); Adam* o = w ? new AdamW({&p.a, &p.b, &p.n, &p.z}, lr, {b1, b2}, eps, wd, ams) : new Adam({&p.a, &p.b, &p.n, &p.z}, lr, {b1, b2}, eps, wd, ams);
  float p1 = 1, p2 = 1; int done = 0;
  drive(*o, p, K, 3, 0, [&](int k, float v, float g, std::vector<float>& s) {
    if (k > done) { p1 = p1 * b1; p2 = p2 * b2; done = k; }
    float d = g; if (w) v = v * (1.f - lr * wd); else if (wd != 0.f) d = g + wd * v;
    s[0] = b1 * s[0] + (1.f - b1) * d; s[1] = b2 * s[1] + (1.f - b2) * d * d; float mh = s[0] / (1.f - p1), vh = s[1] / (1.f - p2);
    if (ams) { vh = itef(s[2] > vh, s[2], vh); s[2] = vh; }
    return v - lr * mh / (std::sqrt(vh) + eps); }, false); delete o; END();
}
HARNESS(adam) { beginReal(); adam(false, false, 2); }
HARNESS(adamw) { beginReal(); adam(true, false, 2); }
HARNESS(adam_amsgrad) { beginReal(); adam(false, true, 1); }
HARNESS(adamw_amsgrad) { beginReal(); adam(true, true, 1); }
// the running maximum of AMSGrad across steps: a large gradient followed by small ones
static void amsTwo(bool w) {
  float v = sym_f32("v"), lr = pos("lr"), b1 = 0.5f, b2 = 0.25f, eps = pos("eps"); Tensor t = mk({v}, {1}, true); Adam* o = w ? new AdamW({&t}, lr, {b1, b2}, eps, 0.f, true) : new Adam({&t}, lr, {b1, b2}, eps, 0.f, true);
  float m = 0, s = 0, mx = 0, p1 = 1, p2 = 1;
  for (int k = 0; k < (TIER == 2 ? 3 : 2); k++) { float g = sym_f32("g"); t.setGrad(mk({g}, {1})); o->step(); p1 *= b1; p2 *= b2; m = b1 * m + (1.f - b1) * g; s = b2 * s + (1.f - b2) * g * g; float vh = s / (1.f - p2); mx = itef(mx > vh, mx, vh); v = v - lr * (m / (1.f - p1)) / (std::sqrt(mx) + eps); checkT(t, {v}, {1}, "AMSGrad keeps the largest second moment"); }
  delete o; END();
}
HARNESS(amsgrad_running_max) { beginReal(); amsTwo(false); }
HARNESS(amsgrad_running_max_w) { beginReal(); amsTwo(true); }
HARNESS(zero_grad) {
  begin(); P p = params(); SGD o({&p.a, &p.b, &p.n, &p.z}, 0.5f); p.a.setGrad(mk(symFs("g", 2), {2})); o.zeroGrad(); checkT(p.a.grad(), {0, 0}, {2}, "cleared"); checkT(p.a, p.va, {2}, "parameters are unchanged"); checkT(p.b, p.vb, {1, 1}, "parameters are unchanged"); checkT(p.z, p.vz, {2}, "parameters are unchanged");
  if (p.b.grad().defined()) checkT(p.b.grad(), {0}, {1, 1}, "zero"); o.setLr(sym_f32("lr")); CHECK(true, "x"); END();
}
// a step records nothing and leaves recording on afterwards
HARNESS(no_recording) {
  beginReal(); P p = params(); int64_t which = pick("opt", 0, 5); std::unique_ptr<Optimizer> o;
  if (which == 0) o.reset(new SGD({&p.a, &p.b, &p.n, &p.z}, 0.5f, 0.5f)); else if (which == 1) o.reset(new Adagrad({&p.a, &p.b, &p.n, &p.z}, 0.5f)); else if (which == 2) o.reset(new RMSprop({&p.a, &p.b, &p.n, &p.z}, 0.5f)); else if (which == 3) o.reset(new AdaDelta({&p.a, &p.b, &p.n, &p.z}, 0.5f)); else if (which == 4) o.reset(new Adam({&p.a, &p.b, &p.n, &p.z}, 0.5f)); else o.reset(new AdamW({&p.a, &p.b, &p.n, &p.z}, 0.5f));
  p.a.setGrad(mk({1, 2}, {2})); p.b.setGrad(mk({3}, {1, 1})); o->step(); CHECK(NoGradGuard::isGradEnabled(), "recording is on again"); CHECK(p.a.requiresGrad() && p.a.isLeaf(), "still a leaf parameter"); Tensor y = p.a * 2; CHECK(y.requiresGrad(), "recording works"); END();
}
// many parameters, a long one among them
HARNESS(wide) {
  beginReal(); int64_t which = pick("opt", 0, 6); static const Sh S[] = {{70}, {}, {3, 5}, {2, 1, 2, 1, 3}, {1}, {9}, {2, 2}}; const int K = 7; std::vector<Tensor> t(K); std::vector<Fs> v(K), g(K); std::vector<TensorPtr> ps; float lr = pos("lr"), eps = pos("eps");
  for (int i = 0; i < K; i++) { v[i] = symFs("p", prod(S[i])); g[i] = symFs("g", prod(S[i])); if (which == 4) for (size_t j = 2; j < g[i].size(); j++) g[i][j] = 0.5f * (float)(j % 7) - 2.f; t[i] = mk(v[i], S[i], true); if (i != 3) t[i].setGrad(mk(g[i], S[i])); ps.push_back(&t[i]); }
  std::unique_ptr<Optimizer> o; switch (which) { case 0: o.reset(new SGD(std::vector<TensorPtr>(ps), lr)); break; case 1: o.reset(new SGD(std::vector<TensorPtr>(ps), lr, 0.5f, 0.f, 0.25f, true)); break; case 2: o.reset(new Adagrad(std::vector<TensorPtr>(ps), lr, 0.f, 0.f, 0.f, eps)); break; case 3: o.reset(new RMSprop(std::vector<TensorPtr>(ps), lr, 0.75f, eps)); break; case 4: o.reset(new AdaDelta(std::vector<TensorPtr>(ps), lr, 0.75f, eps)); break; case 5: o.reset(new Adam(std::vector<TensorPtr>(ps), lr, {0.5f, 0.75f}, eps)); break; default: o.reset(new AdamW(std::vector<TensorPtr>(ps), lr, {0.5f, 0.75f}, eps, 0.125f)); }
  o->step();
  for (int i = 0; i < K; i++) { Fs e = v[i]; if (i != 3) for (size_t j = 0; j < e.size(); j++) { float q = g[i][j], &x = e[j]; switch (which) { case 0: x -= lr * q; break; case 1: { float d = q + 0.25f * x; x -= lr * (d + 0.5f * d); break; } case 2: x -= lr * q / (std::sqrt(q * q) + eps); break; case 3: x -= lr * q / (std::sqrt(0.25f * q * q) + eps); break; case 4: x -= lr * (std::sqrt(eps) / std::sqrt(0.25f * q * q + eps) * q); break; case 5: x -= lr * q / (std::sqrt(q * q) + eps); break; default: x = x * (1.f - lr * 0.125f) - lr * q / (std::sqrt(q * q) + eps); } }
    checkT(t[i], e, S[i], "every parameter follows the rule"); }
  END();
}
// more steps, each with its own gradient
HARNESS(longer) {
  beginReal(); float lr = pos("lr"), mu = 0.5f, wd = pick("decay", 0, 1) ? 0.25f : 0.f; bool nest = pick("nesterov", 0, 1); float damp = !nest && pick("damp", 0, 1) ? 0.5f : 0.f; float v = sym_f32("v"), b = 0; Tensor t = mk({v}, {1}, true); SGD o({&t}, lr, mu, damp, wd, nest);
  for (int k = 0; k < 12; k++) { float g = sym_f32("g"), d = g; t.setGrad(mk({g}, {1})); o.step(); if (wd != 0.f) d = g + wd * v; b = k ? mu * b + (1.f - damp) * d : d; v -= lr * (nest ? d + mu * b : b); CHECKF(fp(t)[0], v, "parameter after several steps"); }
  END();
}
// the running averages over several steps: zero gradients after the first keep the algebra short
HARNESS(longer_adaptive) {
  beginReal(); int64_t which = pick("opt", 0, 4); float lr = pos("lr"), eps = pos("eps"), v = sym_f32("v"), g = pos("g"); Tensor t = mk({v}, {1}, true); std::unique_ptr<Optimizer> o; std::vector<TensorPtr> ps{&t};
  switch (which) { case 0: o.reset(new Adam(std::vector<TensorPtr>(ps), lr, {0.5f, 0.75f}, eps)); break; case 1: o.reset(new AdamW(std::vector<TensorPtr>(ps), lr, {0.5f, 0.75f}, eps, 0.f)); break; case 2: o.reset(new RMSprop(std::vector<TensorPtr>(ps), lr, 0.75f, eps)); break; case 3: o.reset(new Adagrad(std::vector<TensorPtr>(ps), lr, 0.5f, 0.f, 0.f, eps)); break; default: o.reset(new Adam(std::vector<TensorPtr>(ps), lr, {0.5f, 0.75f}, eps, 0.f, true)); }
  float m = 0, s = 0, p1 = 1, p2 = 1, mx = 0;
  for (int k = 0; k < 5; k++) { float q = k == 0 ? g : 0.f; t.setGrad(mk({q}, {1})); o->step(); p1 *= 0.5f; p2 *= 0.75f; m = 0.5f * m + 0.5f * q; if (which == 3) s += q * q; else s = 0.75f * s + 0.25f * q * q;
    switch (which) { case 0: case 1: v -= lr * (m / (1.f - p1)) / (std::sqrt(s / (1.f - p2)) + eps); break; case 2: v -= lr * q / (std::sqrt(s) + eps); break; case 3: v -= lr / (1 + k * 0.5f) * q / (std::sqrt(s) + eps); break; default: { float vh = s / (1.f - p2); if (k == 0) mx = vh; v -= lr * (m / (1.f - p1)) / (std::sqrt(mx) + eps); } }
    CHECKF(fp(t)[0], v, "parameter after several steps"); }
  END();
}
