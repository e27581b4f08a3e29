#include "common.h"
#include "Functions.h"
#include "Modules.h"
#include "Tensor/AutogradMeta.h"
static Tensor t2(bool rg, int64_t a = 2, int64_t b = 2) { Fs v; for (int i = 0; i < a * b; i++) v.push_back(0.5f + i); return mk(v, {a, b}, rg); }
// one operation on (a, b, c); need = the operands that take part
static TensorList run(int op, const Tensor& a, const Tensor& b, const Tensor& c, unsigned& need) {
  need = 1; Tensor ix = mkI({0, 1, 1, 0}, {2, 2}), tg = mkI({0, 1}, {2});
  switch (op) {
    case 0: need = 3; return {a + b}; case 1: need = 3; return {a - b}; case 2: need = 3; return {a * b}; case 3: need = 3; return {a / b}; case 4: return {a + 1.f}; case 5: return {2.f / a};
    case 6: need = 3; return {function::pow(a, b)}; case 7: return {a.sin()}; case 8: return {a.cos()}; case 9: return {a.sqrt()}; case 10: need = 3; return {function::maximum(a, b)}; case 11: need = 3; return {function::minimum(a, b)};
    case 12: need = 3; return {a < b}; case 13: need = 3; return {a == b}; case 14: need = 3; return {function::matmul(a, b)}; case 15: return {a.sum()}; case 16: return {function::sum(a, 0)}; case 17: return {function::mean(a)}; case 18: return {function::mean(a, 1)};
    case 19: return {function::min(a)}; case 20: { auto p = function::max(a, 0, false); return {p.first, p.second}; } case 21: return {function::argmax(a)}; case 22: return {function::var(a, true)}; case 23: { auto p = function::varMean(a, 0, true); return {p.first, p.second}; }
    case 24: return {function::relu(a)}; case 25: return {function::gelu(a)}; case 26: return {function::silu(a)}; case 27: return {function::softmax(a)}; case 28: return {function::logSoftmax(a)};
    case 29: return {a.reshape({4})}; case 30: return {a.view({1, 4})}; case 31: return {a.permute()}; case 32: return {a.permute({1, 0})}; case 33: return {a.flatten()}; case 34: { Sh u = {1, 2}; return {a.unflatten(0, IntArrayView(u))}; } case 35: return {a.squeeze()}; case 36: return {a.unsqueeze(0)}; case 37: return {a.transpose(0, 1)};
    case 38: return {a.tril()}; case 39: return {a.triu()}; case 40: { auto v = function::split(a, 1); return {v[0], v[1]}; } case 41: { auto v = function::chunk(a, 2); return {v[0], v[1]}; }
    case 42: { need = 3; std::vector<Tensor> l = {a, b}; return {function::concat(ArrayView<Tensor>(l))}; } case 43: { need = 3; std::vector<Tensor> l = {a, b}; return {function::stack(ArrayView<Tensor>(l))}; } case 44: { need = 3; std::vector<Tensor> l = {a, b}; return {function::hstack(ArrayView<Tensor>(l))}; } case 45: { need = 3; std::vector<Tensor> l = {a, b}; return {function::vstack(ArrayView<Tensor>(l))}; }
    case 46: return {function::narrow(a, 0, 0, 1)}; case 47: return {function::gather(a, 0, ix)}; case 48: need = 3; return {function::scatter(a, 0, ix, b)}; case 49: return {function::expand(a.reshape({1, 2, 2}), {2, 2, 2})}; case 50: return {function::indexSelect(a, 0, tg)}; case 51: return {function::repeatInterleave(a, 2, 0)};
    case 52: { auto p = function::topk(a, 1, 1); return {p.first, p.second}; } case 53: { auto p = function::sort(a); return {p.first, p.second}; } case 54: return {function::cumsum(a, 0)};
    case 55: need = 7; return {function::linear(a, b, c.reshape({4}).narrow(0, 0, 2))}; case 56: return {function::dropout(a, 0.5f, false)}; case 57: need = 3; return {function::mseLoss(a, b)}; case 58: return {function::nllLoss(a, tg)};
    case 59: need = 3; return {function::conv2d(a.reshape({1, 1, 2, 2}), b.reshape({1, 1, 2, 2}))}; case 60: return {function::maxPool2d(a.reshape({1, 1, 2, 2}), 2, 2)};
    case 61: need = 3; return {function::layerNorm(a, {2}, b.narrow(0, 0, 1).reshape({2}), {})}; case 62: need = 3; return {function::rmsNorm(a, {2}, b.narrow(0, 0, 1).reshape({2}))}; case 63: need = 2; return {function::embedding(tg, b)};
    default: need = 7; return {function::sdpAttention(a, b, c)};
  }
}
static const int OPS = 65;
HARNESS(result) {
  begin();
  int op = (int)pick("op", 0, OPS - 1); unsigned f = (unsigned)pick("requires", 0, 7), need; bool off = pick("disabled", 0, 1); Tensor a = t2(f & 1), b = t2(f & 2), c = t2(f & 4); TensorList r;
  if (op == 57) sym_assume(!(f & 2));   // targets never require a gradient
  if (off) { NoGradGuard g; r = run(op, a, b, c, need); } else r = run(op, a, b, c, need);
  for (auto& t : r) { bool e = !off && (f & need); CHECK(t.requiresGrad() == e, "a result requires a gradient exactly when recording is on and an operand requires one"); if (e) CHECK(!t.isLeaf(), "a recorded result is not a leaf"); }
  CHECK(a.requiresGrad() == !!(f & 1) && b.requiresGrad() == !!(f & 2) && c.requiresGrad() == !!(f & 4), "operands keep their flag"); CHECK(NoGradGuard::isGradEnabled(), "recording is on again"); END();
}
// in-place forms
HARNESS(inplace) {
  beginReal();
  int op = (int)pick("op", 0, 7), kind = (int)pick("kind", 0, 2); bool rb = pick("b", 0, 1), off = pick("disabled", 0, 1); float x = sym_f32("x"), y = sym_f32_range("y", 0.5f, 4.f); Tensor A = mk({x}, {1}, kind != 0), a = kind == 2 ? A * 2.f : A, b = mk({y}, {1}, rb); Tensor keep = a;
  auto f = [&] { switch (op) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; case 3: a /= b; break; case 4: a += 3.f; break; case 5: a *= 3.f; break; case 6: a.reshape_({1, 1}); break; default: a.unsqueeze_(0); } };
  if (off) { NoGradGuard g; f(); } else f();
  float v = kind == 2 ? x * 2 : x, e = op == 0 ? v + y : op == 1 ? v - y : op == 2 ? v * y : op == 3 ? v / y : op == 4 ? v + 3 : op == 5 ? v * 3 : v; checkT(a, {e}, op >= 6 ? Sh{1, 1} : Sh{1}, "value of an in-place operation");
  if (kind) CHECK(a.requiresGrad(), "an in-place operation keeps the flag"); else CHECK(a.requiresGrad() == (!off && rb && op < 4), "an in-place operation on a constant is recorded when its operand is");
  if (kind == 1) CHECK(a.isLeaf() && keep.isLeaf(), "a leaf stays a leaf"); if (off && kind != 2) CHECK(!a.requiresGrad() || a.isLeaf(), "nothing is recorded while disabled"); END();
}
// nested scopes, left in any way, restore the mode they found
static bool scope(int depth, int64_t plan, bool early) {
  bool before = NoGradGuard::isGradEnabled();
  for (int i = 0; i < 2; i++) {
    if (plan & 1) { WithNoGrad { CHECK(!NoGradGuard::isGradEnabled(), "recording is off inside the scope"); if (depth) scope(depth - 1, plan >> 2, early); CHECK(!NoGradGuard::isGradEnabled(), "an inner scope does not switch recording on"); if (early) return before; } }
    else { NoGradGuard g; CHECK(!NoGradGuard::isGradEnabled(), "recording is off inside the scope"); if (depth) scope(depth - 1, plan >> 1, !early); CHECK(!NoGradGuard::isGradEnabled(), "an inner scope does not switch recording on"); if (early) break; }
    CHECK(NoGradGuard::isGradEnabled() == before, "a scope restores the mode it found");
  }
  return before;
}
HARNESS(scopes) {
  begin();
  bool r = scope((int)pick("depth", 0, 3), pick("plan", 0, 15), pick("early", 0, 1)); CHECK(r && NoGradGuard::isGradEnabled(), "scopes restore the mode they found"); Tensor a = t2(true); CHECK((a + a).requiresGrad(), "recording works after the scopes"); END();
}
HARNESS(leaves) {
  beginReal();
  float x = sym_f32("x"); Tensor a = mk({x, x}, {2}, pick("requires", 0, 1)); int f = (int)pick("form", 0, 5); bool rg = a.requiresGrad();
  if (rg) CHECK(a.isLeaf() && !a.grad().defined(), "a new tensor is a leaf without gradient");
  Tensor r;
  switch (f) {
    case 0: r = a.clone(); CHECK(r.requiresGrad() == rg && (!rg || r.isLeaf()), "a clone is a leaf of its own"); if (rg) { r.backward(mk({1, 1}, {2})); CHECK(!a.grad().defined() && r.grad().defined(), "a clone has its own gradient"); } break;
    case 1: a.setRequiresGrad(true); CHECK(a.requiresGrad() && a.isLeaf(), "asking for a gradient makes a leaf"); break;
    case 2: a.setRequiresGrad(false); CHECK(!a.requiresGrad() && !a.isLeaf() && !(a + a).requiresGrad(), "a tensor that no longer asks is not recorded"); break;
    case 3: if (!rg) break; a.zeroGrad(); checkT(a.grad(), {0, 0}, {2}, "clearing gives a zero gradient of the tensor's shape"); a.backward(mk({x, 1}, {2})); checkT(a.grad(), {x, 1}, {2}, "a leaf root receives the gradient"); a.zeroGrad(); checkT(a.grad(), {0, 0}, {2}, "clearing gives a zero gradient of the tensor's shape"); CHECK(!a.grad().requiresGrad(), "a gradient does not require one"); break;
    case 4: { if (!rg) break; Tensor y = a * a; y.setRequiresGrad(true); CHECK(y.requiresGrad(), "still requires a gradient"); Tensor z = a * 3.f; z.backward(mk({1, 1}, {2})); CHECK(!a.grad().requiresGrad() && a.grad().defined(), "a gradient does not require one"); checkT(a.grad(), {3, 3}, {2}, "gradient of a product"); break; }
    default: { if (!rg) break; Tensor g = mk({x, x}, {2}); a.setGrad(g); checkT(a.grad(), {x, x}, {2}, "the gradient that was set"); a.addGrad(g); checkT(a.grad(), {2 * x, 2 * x}, {2}, "adding to a gradient"); checkT(g, {x, x}, {2}, "the tensor passed in is unchanged"); a.zeroGrad(); checkT(g, {x, x}, {2}, "clearing a gradient leaves the tensor it was set from"); }
  }
  checkT(a, {x, x}, {2}, "values are unchanged"); END();
}
// hooks
struct Rec { int id; std::vector<int>* log; float seen; float scale; };
static void hook(void* c, Tensor& g) { auto* r = (Rec*)c; r->log->push_back(r->id); r->seen = g.dataPtr<float>()[0]; if (r->scale != 1.f) g *= r->scale; }
HARNESS(hooks) {
  beginReal();
  int n = (int)pick("hooks", 1, 3); float x = sym_f32("x"), s = sym_f32("g"); Tensor a = mk({x}, {1}, true), b = mk({x}, {1}, true); std::vector<int> log, expect; std::vector<Rec> rec(n + 1); std::vector<int64_t> id; std::vector<int> live;
  for (int i = 0; i < n; i++) { rec[i] = {i, &log, 0.f, 1.f}; id.push_back(a.registerHook(&hook, &rec[i])); live.push_back(i); for (int j = 0; j < i; j++) CHECK(id[j] != id[i], "ids are distinct"); }
  int rm = (int)pick("remove", 0, n); for (int k = 0; k < rm; k++) { int64_t w = pick("at", 0, (int64_t)live.size() - 1); a.unregisterHook(id[live[w]]); live.erase(live.begin() + w); }
  if (pick("add", 0, 1)) { rec[n] = {n, &log, 0.f, 1.f}; int64_t i = a.registerHook(&hook, &rec[n]); for (int j : live) CHECK(id[j] != i, "ids are distinct"); live.push_back(n); }
  int form = (int)pick("form", 0, 2), passes = (int)pick("passes", 1, 2); float e = 0;
  for (int p = 0; p < passes; p++) { Tensor y = form == 0 ? a * b : form == 1 ? a * a + a : b * b; y.backward(mk({s}, {1})); if (form != 2) { for (int j : live) expect.push_back(j); } e += form == 0 ? s * x : form == 1 ? s * (2 * x + 1) : 0.f; }
  CHECK(log == expect, "every remaining hook runs once per delivered gradient, in the order of registration"); if (form != 2) { for (int j : live) CHECKF(rec[j].seen, e, "a hook sees the gradient"); checkT(a.grad(), {e}, {1}, "hooks that only look change nothing"); } END();
}
HARNESS(hooks_change) {
  beginReal();
  float x = sym_f32("x"), s = sym_f32("g"); Tensor a = mk({x}, {1}, true); std::vector<int> log; std::vector<Rec> rec = {{0, &log, 0.f, 2.f}, {1, &log, 0.f, 1.f}}; a.registerHook(&hook, &rec[0]); a.registerHook(&hook, &rec[1]); (a * 3.f).backward(mk({s}, {1})); CHECKF(rec[0].seen, 3 * s, "a hook sees the gradient"); CHECKF(rec[1].seen, 6 * s, "a later hook sees the change"); checkT(a.grad(), {6 * s}, {1}, "a hook's change is kept"); checkT(a, {x}, {1}, "values are unchanged"); END();
}
