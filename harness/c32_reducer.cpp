// The real Reducer and DistributedModule, over a stand-in back end that records what each rank contributes.  The code is
// executed once as the other ranks and once as this rank; the collectives pair up by the order in which they are issued.
#include "common.h"
#include "Functions.h"
#include "Modules.h"
#include "Utils/RandomGenerator.h"
#include <mutex>
#include <condition_variable>
#include <optional>
namespace tinytorch::cuda { struct CudaDeviceGuard { explicit CudaDeviceGuard(int) {} }; }
#include "Distributed/Reducer.cpp"
#include "Distributed/DistributedModule.cpp"
using namespace tinytorch::distributed;
typedef std::vector<Fs> Calls; // one entry per collective
struct FakeWork : Work {
  Tensor t; Fs result; int* waits; FakeWork(const Tensor& x, Fs r, int* w) : t(x), result(std::move(r)), waits(w) {}
  bool wait(std::chrono::milliseconds) override { if (!completed_) { float* p = t.dataPtr<float>(); for (size_t i = 0; i < result.size(); i++) p[i] = result[i]; completed_ = true; (*waits)++; } return true; }
};
struct FakeBackend : Backend {
  Calls reduced, cast; const Calls *otherReduced = nullptr, *rootCast = nullptr; int waits = 0, castRoot = -1; bool sum = true;
  FakeBackend(int r, int n) : Backend(r, n) {}
  void setTimeout(std::chrono::milliseconds) override {}
  std::string getBackendName() const override { return "fake"; }
  std::shared_ptr<BackendOptions> getBackendOptions() override { return nullptr; }
  // until it is waited for, the buffer of a collective holds anything
  std::shared_ptr<Work> post(Tensor& t, Fs r) { float* p = t.dataPtr<float>(); for (int64_t i = 0; i < t.numel(); i++) p[i] = sym_f32_range("unfinished", -1e6f, 1e6f); return std::make_shared<FakeWork>(t, std::move(r), &waits); }
  static Fs vals(const Tensor& t) { const float* p = t.dataPtr<float>(); return Fs(p, p + t.numel()); }
  std::shared_ptr<Work> allReduce(std::vector<Tensor>& ts, const AllReduceOptions& o) override {
    CHECK(ts.size() == 1, "one buffer per collective"); sum &= o.reduceOp == SUM; Fs v = vals(ts[0]); size_t k = reduced.size(); reduced.push_back(v);
    if (otherReduced) { CHECK(k < otherReduced->size() && (*otherReduced)[k].size() == v.size(), "all ranks issue the same reductions in the same order"); for (size_t i = 0; i < v.size(); i++) v[i] = v[i] + (*otherReduced)[k][i] * (float)(size_ - 1); }
    return post(ts[0], v);
  }
  std::shared_ptr<Work> broadcast(std::vector<Tensor>& ts, const BroadcastOptions& o) override {
    CHECK(ts.size() == 1, "one buffer per collective"); castRoot = o.rootRank; Fs v = vals(ts[0]); size_t k = cast.size(); cast.push_back(v);
    if (rootCast && o.rootRank != rank_) { CHECK(k < rootCast->size() && (*rootCast)[k].size() == v.size(), "all ranks issue the same broadcasts in the same order"); v = (*rootCast)[k]; }
    return post(ts[0], v);
  }
};
static std::shared_ptr<DistributedProcessGroup> group(const std::shared_ptr<FakeBackend>& b) {
  auto g = std::make_shared<DistributedProcessGroup>(); auto p = std::make_shared<ProcessGroup>(std::shared_ptr<Store>(), b->getRank(), b->getSize());
  p->setBackend(DeviceType::CPU, BackendType::NCCL, std::shared_ptr<Backend>(b)); p->setDefaultBackend(BackendType::NCCL); g->processGroup_ = p; return g;
}
static Calls snap(const std::vector<Tensor>& ps) { Calls r; for (auto& p : ps) r.push_back(FakeBackend::vals(p)); return r; }
static std::vector<TensorPtr> ptrs(std::vector<Tensor>& v) { std::vector<TensorPtr> r; for (auto& t : v) r.push_back(&t); return r; }
// parameters of picked sizes; frozen ones do not require a gradient
struct Cfg { std::vector<Sh> shapes; std::vector<char> frozen; int64_t cap; int world; int64_t total() const { int64_t n = 0; for (size_t i = 0; i < shapes.size(); i++) if (!frozen[i]) n += prod(shapes[i]); return n; } };
static Cfg config(int maxP, bool freeze) { Cfg c; int64_t n = pick("params", 1, maxP); static const Sh S[] = {{1}, {2}, {1, 3}}; for (int64_t i = 0; i < n; i++) { c.shapes.push_back(S[pick("shape", 0, 2)]); c.frozen.push_back(freeze ? pick("frozen", 0, 1) : 0); } static const int64_t C[] = {1, 8, 12, 16, kDefaultBucketBytesCap}; c.cap = C[pick("cap", 0, 4)]; c.world = (int)pick("world", 2, 3); return c; }
static std::vector<Tensor> params(const Cfg& c, const Calls& v) { std::vector<Tensor> r; for (size_t i = 0; i < c.shapes.size(); i++) r.push_back(mk(v[i], c.shapes[i], !c.frozen[i])); return r; }
static Calls symCalls(const char* n, const Cfg& c) { Calls r; for (auto& s : c.shapes) r.push_back(symFsR(n, prod(s), -1000, 1000)); return r; }
// one backward in which parameter i receives the gradient g[i]; the parameters are used in the given order
static void backwardStep(std::vector<Tensor>& ps, const Cfg& c, const Calls& g, int order) {
  Tensor loss; size_t n = ps.size();
  for (size_t j = 0; j < n; j++) { size_t i = order == 0 ? j : n - 1 - j; Tensor t = function::sum(function::mul(ps[i], mk(g[i], c.shapes[i]))); loss = loss.defined() ? function::add(loss, t) : t; }
  if (loss.requiresGrad()) loss.backward();
}
static void checkAvg(const std::vector<Tensor>& ps, const Cfg& c, const Calls& mine, const Calls& theirs, const char* m) {
  for (size_t i = 0; i < ps.size(); i++) { if (c.frozen[i]) continue; const Tensor& g = ps[i].grad(); CHECK(g.defined() && isShape(g, c.shapes[i]), "gradients keep the parameter's shape"); for (int64_t k = 0; k < g.numel(); k++) CHECKF(fp(g)[k], (mine[i][k] + theirs[i][k] * (float)(c.world - 1)) / (float)c.world, m); }
}
static void buckets(const FakeBackend& b, const Cfg& c, const char* m) {
  int64_t tot = 0; for (auto& v : b.reduced) { tot += v.size(); bool one = false; for (auto& s : c.shapes) one |= prod(s) == (int64_t)v.size(); bool fr = false; for (auto f : c.frozen) fr |= f; if (!fr) CHECK((int64_t)v.size() * 4 <= c.cap || one, "a bucket stays within its size unless it holds one parameter"); }
  bool fr = false; for (auto f : c.frozen) fr |= f; CHECK(fr ? tot >= c.total() : tot == c.total(), m); CHECK(b.sum, "contributions are summed"); CHECK(b.waits == (int)b.reduced.size(), "every reduction is waited for");
}
static void run(const Cfg& c, int steps, bool clear, int order) {
  Calls val = symCalls("p", c); auto other = std::make_shared<FakeBackend>(1, c.world), me = std::make_shared<FakeBackend>(0, c.world); std::vector<Calls> go, gm; for (int s = 0; s < steps; s++) { go.push_back(symCalls("other", c)); gm.push_back(symCalls("own", c)); }
  std::vector<Calls> upto; // what the other ranks contributed in each step
  { auto ps = params(c, val); Reducer r(ptrs(ps), group(other), c.cap); for (int s = 0; s < steps; s++) { size_t at = other->reduced.size(); (void)at; if (s && clear) for (auto& p : ps) p.setGrad(Tensor()); r.prepareForBackward(); backwardStep(ps, c, go[s], order); if (!clear && s + 1 < steps) { // the other ranks go on from the average too
        for (size_t i = 0; i < ps.size(); i++) if (!c.frozen[i]) { Fs a; for (size_t k = 0; k < go[0][i].size(); k++) a.push_back((gm[0][i][k] + go[0][i][k] * (float)(c.world - 1)) / (float)c.world); ps[i].setGrad(mk(a, c.shapes[i])); } } } }
  me->otherReduced = &other->reduced;
  auto ps = params(c, val); Reducer r(ptrs(ps), group(me), c.cap); Calls base;
  for (int s = 0; s < steps; s++) {
    if (s && clear) for (auto& p : ps) p.setGrad(Tensor());
    me->waits = 0; size_t before = me->reduced.size(); r.prepareForBackward(); backwardStep(ps, c, gm[s], order);
    FakeBackend d(0, c.world); d.sum = me->sum; d.waits = me->waits; d.reduced.assign(me->reduced.begin() + before, me->reduced.end()); buckets(d, c, "every gradient is reduced exactly once per backward");
    if (clear || s == 0) checkAvg(ps, c, gm[s], go[s], "the gradient is the average over all ranks");
    else { Calls m = gm[0], t = go[0]; for (size_t i = 0; i < m.size(); i++) for (size_t k = 0; k < m[i].size(); k++) { m[i][k] += gm[1][i][k]; t[i][k] += go[1][i][k]; } checkAvg(ps, c, m, t, "accumulated gradients are averages over all ranks"); }
  }
  for (size_t i = 0; i < ps.size(); i++) { checkVals(ps[i], val[i], "parameters are unchanged"); CHECK(ps[i].requiresGrad() == !c.frozen[i], "parameters keep their mode"); }
  END();
}
HARNESS(average) { beginReal(); Cfg c = config(3, false); run(c, 1, true, (int)pick("order", 0, 1)); }
HARNESS(frozen) { beginReal(); Cfg c = config(TIER == 2 ? 3 : 2, true); bool any = false; for (auto f : c.frozen) any |= f; sym_assume(any); run(c, 1, true, 0); }
HARNESS(steps) { beginReal(); Cfg c = config(2, false); run(c, 2, pick("clear", 0, 1), (int)pick("order", 0, 1)); }
// a parameter used twice in one pass is ready once
HARNESS(shared_use) {
  beginReal(); Cfg c{{{2}, {1}}, {0, 0}, pick("cap", 0, 1) ? 1 : 64, 2}; Calls val = symCalls("p", c), g = symCalls("g", c), h = symCalls("h", c); auto b = std::make_shared<FakeBackend>(0, 2); auto ps = params(c, val); Calls zero; Reducer r(ptrs(ps), group(b), c.cap); r.prepareForBackward();
  Tensor l = function::add(function::sum(function::mul(ps[0], mk(g[0], {2}))), function::sum(function::mul(ps[1], mk(g[1], {1})))); l = function::add(l, function::sum(function::mul(ps[0], mk(h[0], {2})))); l.backward();
  for (int k = 0; k < 2; k++) CHECKF(fp(ps[0].grad())[k], (g[0][k] + h[0][k]) / 2, "every use counts before the average"); CHECKF(fp(ps[1].grad())[0], g[1][0] / 2, "every use counts before the average"); END();
}
// the parameters of the root reach every rank
HARNESS(broadcast) {
  beginReal(); Cfg c = config(3, TIER == 2); int root = (int)pick("root", 0, 1); Calls vr = symCalls("root value", c), vm = symCalls("own value", c); auto rb = std::make_shared<FakeBackend>(root, c.world), me = std::make_shared<FakeBackend>(1 - root, c.world);
  { auto ps = params(c, vr); Reducer r(ptrs(ps), group(rb), c.cap); r.broadcastParameters(root); for (size_t i = 0; i < ps.size(); i++) checkVals(ps[i], vr[i], "the root keeps its parameters"); CHECK(rb->castRoot == root, "the root rank is passed on"); }
  me->rootCast = &rb->cast; auto ps = params(c, vm); auto before = ptrs(ps); Reducer r(ptrs(ps), group(me), c.cap); r.broadcastParameters(root); CHECK(me->castRoot == root, "the root rank is passed on");
  for (size_t i = 0; i < ps.size(); i++) { checkT(ps[i], vr[i], c.shapes[i], "every rank starts from the root's parameters"); CHECK(ps[i].requiresGrad() == !c.frozen[i], "parameters keep their mode"); } CHECK(me->waits == (int)me->cast.size(), "every broadcast is waited for"); END();
}
// the wrapped module: forward, parameters, one training step
HARNESS(module) {
  beginReal(); int root = (int)pick("root", 0, 1); int64_t cap = pick("cap", 0, 1) ? 1 : 1 << 20; bool bias = pick("bias", 0, 1), freeze = pick("freeze", 0, 1) && bias; Fs w = symFsR("w", 2, -10, 10), b = symFsR("b", 1, -10, 10), x = symFsR("x", 2, -10, 10), y = symFsR("y", 2, -10, 10); Calls cast;
  auto mkLin = [&](const Fs& wv, const Fs& bv) { auto l = std::make_shared<nn::Linear>(2, 1, bias); l->weight() = mk(wv, {1, 2}, true); if (bias) l->bias() = mk(bv, {1}, !freeze); return l; };
  manualSeed(1); auto ob = std::make_shared<FakeBackend>(root, 2), me = std::make_shared<FakeBackend>(1 - root, 2);
  { auto l = mkLin(w, b); DistributedModule d(*l, group(ob), root, cap); Tensor out = d.forward(mk(y, {1, 2})); function::sum(out).backward(); }
  me->rootCast = &ob->cast; me->otherReduced = &ob->reduced; auto l = mkLin(Fs{1, 2}, Fs{3}); DistributedModule d(*l, group(me), root, cap);
  checkVals(l->weight(), w, "every rank starts from the root's parameters"); if (bias) checkVals(l->bias(), b, "every rank starts from the root's parameters");
  auto ps = d.parameters(); CHECK(ps.size() == (bias ? 2u : 1u) && ps[0] == &l->weight(), "the wrapper shows the module's parameters"); d.eval(); CHECK(!l->training_, "the mode reaches the module"); d.train(); CHECK(l->training_, "the mode reaches the module");
  for (int s = 0; s < 2; s++) {
    if (s) { d.zeroGrad(); me->reduced.clear(); }
    Tensor out = pick("call", 0, 1) ? d(mk(x, {1, 2})) : d.forward(mk(x, {1, 2})); Fs e{x[0] * w[0] + x[1] * w[1]}; if (bias) e[0] += b[0]; checkT(out, e, {1, 1}, "forward is the module's forward"); function::sum(out).backward();
    for (int k = 0; k < 2; k++) CHECKF(fp(l->weight().grad())[k], (x[k] + y[k]) / 2, "the gradient is the average over all ranks"); if (bias && !freeze) CHECKF(fp(l->bias().grad())[0], 1.f, "the gradient is the average over all ranks");
  }
  END();
}
