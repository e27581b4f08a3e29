// C29: module trees
#include "common.h"
#include "Functions.h"
#include "Modules.h"
#include "Utils/RandomGenerator.h"
#include <functional>
#include <memory>
#include <set>
#include <string>
using namespace tinytorch::nn;
typedef std::shared_ptr<Module> MP;
// a module that shows its mode and counts calls
struct Probe : Module { float a, b; std::vector<int>* order; int id; Tensor w; Probe(float a_ = 1, float b_ = 0, std::vector<int>* o = nullptr, int i = 0) : a(a_), b(b_), order(o), id(i) { w = mk({1.f}, {1}, true); } bool mode() const { return training_; } Tensor forward(const Tensor& x) override { if (order) order->push_back(id); return x * a + b; } std::vector<std::pair<std::string, TensorPtr>> namedParameters_() override { return {{"w", &w}}; } };
struct Node : Module { std::vector<MP> kids; void add(const std::string& n, MP m) { registerModule(n, *m); kids.push_back(m); } bool mode() const { return training_; } };
struct Own : Module { Tensor w = mk({1.f, 2.f}, {2}, true); std::vector<MP> kids; bool mode() const { return training_; } std::vector<std::pair<std::string, TensorPtr>> namedParameters_() override { return {{"own", &w}}; } void add(std::vector<std::pair<std::string, MP>> v) { std::vector<std::pair<std::string, std::reference_wrapper<Module>>> r; for (auto& p : v) { kids.push_back(p.second); r.emplace_back(p.first, *p.second); } registerModules(r); } };
struct Exp { std::vector<std::pair<std::string, TensorPtr>> par, st; std::vector<std::function<bool()>> modes; };
static MP build(int depth, const std::string& pre, Exp& e);
static MP leaf(const std::string& pre, Exp& e, bool few = false) {
  auto P = [&](const char* n, Tensor* t) { e.par.emplace_back(pre + n, t); e.st.emplace_back(pre + n, t); };
  int64_t kind = few ? 2 * pick("leaf kind", 0, 2) : pick("leaf", 0, 5); if (few && kind == 2) kind = 3;
  switch (kind) {
    case 0: { bool b = pick("bias", 0, 1); auto l = std::make_shared<Linear>(2, 1, b); P("weight", &l->weight()); if (b) P("bias", &l->bias()); return l; }
    case 1: { auto l = std::make_shared<Conv2D>(1, 1, Dim2D(1), Dim2D(1), Dim2D(0), false); P("weight", &l->weight()); return l; }
    case 2: { auto l = std::make_shared<LayerNorm>(Sh{2}); P("weight", &l->weight()); P("bias", &l->bias()); return l; }
    case 3: { auto l = std::make_shared<RoPE>(2, 2); e.st.emplace_back(pre + "rope", &l->cache()); return l; }
    case 4: { auto l = std::make_shared<Probe>(); P("w", &l->w); Probe* q = l.get(); e.modes.push_back([q] { return q->mode(); }); return l; }
    default: return std::make_shared<Relu>(); }
}
static MP build(int depth, const std::string& pre, Exp& e) {
  if (depth == 0 || pick("inner", 0, 1) == 0) return leaf(pre, e, pre.size() > 0);
  switch (pick("container", 0, 3)) {
    case 0: { int64_t n = pick("children", 0, 2); if (n == 0) return std::make_shared<Sequential>(std::initializer_list<MP>{}); auto s = std::make_shared<ModuleList>(); for (int64_t i = 0; i < n; i++) s->pushBack(build(depth - 1, pre + std::to_string(i) + ".", e)); return s; }
    case 1: { MP x = build(depth - 1, pre + "0.", e); auto s = std::make_shared<Sequential>(std::initializer_list<MP>{x}); MP y = leaf(pre + "1.", e, true); s->pushBack(y); return s; }
    case 2: { auto n = std::make_shared<Node>(); Node* q = n.get(); e.modes.push_back([q] { return q->mode(); }); n->add("left", build(depth - 1, pre + "left.", e)); return n; }
    default: { auto n = std::make_shared<Own>(); Own* q = n.get(); e.par.emplace_back(pre + "own", &n->w); e.st.emplace_back(pre + "own", &n->w); e.modes.push_back([q] { return q->mode(); }); std::vector<std::pair<std::string, MP>> v; v.emplace_back("a", build(depth - 1, pre + "a.", e)); n->add(v); return n; } }
}
static void same(const std::vector<std::pair<std::string, TensorPtr>>& got, const std::vector<std::pair<std::string, TensorPtr>>& want, const char* what) {
  CHECK(got.size() == want.size(), what); std::set<std::string> names; for (auto& g : got) { CHECK(names.insert(g.first).second, "path names are unique"); int hits = 0; for (auto& w : want) hits += w.first == g.first && w.second == g.second; CHECK(hits == 1, what); int twice = 0; for (auto& h : got) twice += h.second == g.second; CHECK(twice == 1, "every tensor is listed once"); }
}
HARNESS(tree) {
  begin(); Exp e; MP m = build(TIER == 2 ? 3 : 2, "", e);
  same(m->namedParameters(), e.par, "every parameter of the tree under its path"); same(m->namedStates(), e.st, "every state of the tree under its path");
  auto ps = m->parameters(); auto ss = m->states(); auto np = m->namedParameters(); CHECK(ps.size() == e.par.size() && ss.size() == e.st.size(), "as many parameters as names"); for (size_t i = 0; i < ps.size(); i++) CHECK(ps[i] == np[i].second, "parameters in the order of their names");
  // mode
  for (auto& f : e.modes) CHECK(f(), "modules start in training mode"); m->eval(); for (auto& f : e.modes) CHECK(!f(), "eval reaches the whole tree"); m->train(); for (auto& f : e.modes) CHECK(f(), "train reaches the whole tree"); m->train(false); for (auto& f : e.modes) CHECK(!f(), "train(false) reaches the whole tree");
  // gradients
  if (!e.par.empty() && pick("freeze", 0, 1)) e.par[0].second->setRequiresGrad(false);
  for (auto& p : e.par) { if (!p.second->requiresGrad()) continue; Sh s = shp(*p.second); p.second->addGrad(mk(Fs(prod(s), 3.f), s)); } m->zeroGrad(); for (auto& p : e.par) { if (!p.second->requiresGrad()) continue; const Tensor& g = p.second->grad(); if (g.defined()) for (int64_t i = 0; i < g.numel(); i++) CHECK(fp(g)[i] == 0.f, "gradient clearing reaches every parameter"); }
  END();
}
HARNESS(convert) { begin(); Exp e; MP m = build(1, "", e); std::vector<std::pair<TensorPtr, Sh>> before; for (auto& p : e.st) { before.emplace_back(p.second, shp(*p.second)); } m->to(DType::Float16); for (auto& b : before) { CHECK(b.first->dtype() == DType::Float16, "conversion reaches every state"); CHECK(isShape(*b.first, b.second), "conversion keeps shapes"); } same(m->namedParameters(), e.par, "conversion keeps the parameters in place"); for (auto& p : e.par) CHECK(p.second->requiresGrad(), "conversion keeps parameters trainable"); m->to(DType::Float32, Device(DeviceType::CPU)); for (auto& b : before) CHECK(b.first->dtype() == DType::Float32 && b.first->device().isCpu(), "conversion reaches every state"); END(); }
// containers run their children in order
HARNESS(sequence) {
  beginReal(); int64_t n = pick("children", 0, TIER == 2 ? 4 : 3); std::vector<int> order; Fs a = symFs("a", n), b = symFs("b", n), x = symFs("x", 2); std::vector<MP> v; for (int64_t i = 0; i < n; i++) v.push_back(std::make_shared<Probe>(a[i], b[i], &order, (int)i)); std::shared_ptr<Sequential> s; int64_t at = pick("given", 0, 1);
  if (at && n >= 2) { s = std::make_shared<Sequential>(std::initializer_list<MP>{v[0], v[1]}); for (int64_t i = 2; i < n; i++) s->pushBack(v[i]); } else { s = std::make_shared<Sequential>(std::initializer_list<MP>{}); for (int64_t i = 0; i < n; i++) s->pushBack(v[i]); }
  CHECK((int64_t)s->size() == n && s->empty() == (n == 0), "number of children"); for (int64_t i = 0; i < n; i++) CHECK(&(*s)[i] == v[i].get(), "children by position"); int64_t k = 0; for (auto& c : *s) CHECK(c == v[k++], "children in order"); Tensor t = mk(x, {2}); Tensor r = pick("call", 0, 1) ? (*s)(t) : s->forward(t); Fs e = x; for (int64_t i = 0; i < n; i++) for (auto& f : e) f = f * a[i] + b[i];
  CHECK((int64_t)order.size() == n, "every child runs once"); for (int64_t i = 0; i < n; i++) CHECK(order[i] == (int)i, "children run in order"); checkT(r, e, {2}, "the output of one child is the input of the next"); END();
}
HARNESS(list) { begin(); ModuleList l; int64_t n = pick("n", 0, 3); for (int64_t i = 0; i < n; i++) { if (pick("emplace", 0, 1)) l.emplaceBack<Linear>(2, 1, false); else l.pushBack(std::make_shared<Linear>(2, 1, false)); } CHECK((int64_t)l.size() == n, "size"); auto p = l.namedParameters(); CHECK((int64_t)p.size() == n, "one weight per child"); for (int64_t i = 0; i < n; i++) { CHECK(p[i].first == std::to_string(i) + ".weight", "children are named by position"); CHECK(p[i].second == &static_cast<Linear&>(l[i]).weight(), "children by position"); } END(); }
HARNESS(list_range) { int64_t n = pick("n", 0, 2); uint64_t i = sym_u64("index"); sym_assume(i >= (uint64_t)n); begin(); ModuleList l; for (int64_t k = 0; k < n; k++) l.emplaceBack<Relu>(); sym_reach("end"); sym_trap_policy(1); (void)l[i]; CHECK(false, "a position outside the list is refused"); }
// layers use their own weights
static void put(Tensor& t, const Fs& v) { CHECK(t.numel() == (int64_t)v.size(), "size of a weight"); float* p = t.dataPtr<float>(); for (size_t i = 0; i < v.size(); i++) p[i] = v[i]; }
HARNESS(linear) { beginReal(); int64_t in = pick("in", 1, 2), out = pick("out", 1, 2), n = pick("rows", 1, 2); bool bias = pick("bias", 0, 1); Linear l(in, out, bias), other(in, out, bias); Fs w = symFs("w", in * out), b = symFs("b", out), x = symFs("x", n * in), e; put(l.weight(), w); put(other.weight(), Fs(in * out, 9.f)); if (bias) { put(l.bias(), b); put(other.bias(), Fs(out, 9.f)); } for (int64_t r = 0; r < n; r++) for (int64_t o = 0; o < out; o++) { float s = 0; for (int64_t i = 0; i < in; i++) s += x[r * in + i] * w[o * in + i]; e.push_back(bias ? s + b[o] : s); } checkT(l(mk(x, {n, in})), e, {n, out}, "linear layer with its own weights"); END(); }
HARNESS(conv) { beginReal(); bool bias = pick("bias", 0, 1); int64_t sh = pick("sh", 1, 2), sw = pick("sw", 1, 2), ph = pick("ph", 0, 1), pw = pick("pw", 0, 1); Conv2D l(1, 2, {2, 1}, {sh, sw}, {ph, pw}, bias); Fs w = symFs("w", 4), b = symFs("b", 2), x = symFs("x", 9); put(l.weight(), w); if (bias) put(l.bias(), b); Sh ws{2, 1, 2, 1}; Tensor t = mk(x, {1, 1, 3, 3}); Tensor want = function::conv2d(t, mk(w, ws), bias ? mk(b, {2}) : Tensor(), {sh, sw}, {ph, pw}); Fs e(fp(want), fp(want) + want.numel()); checkT(l(t), e, shp(want), "convolution with its own weights, stride and padding"); END(); }
HARNESS(pool) { beginReal(); int64_t form = pick("form", 0, 2); Fs x = symFs("x", 8); Tensor t = mk(x, {1, 1, 2, 4}); MaxPool2D m = form == 0 ? MaxPool2D({2, 2}) : form == 1 ? MaxPool2D({2, 1}, Dim2D(1, 2)) : MaxPool2D({2, 2}, Dim2D(2, 2), {1, 1}); Tensor want = form == 0 ? function::maxPool2d(t, {2, 2}, {2, 2}, 0) : form == 1 ? function::maxPool2d(t, {2, 1}, {1, 2}, 0) : function::maxPool2d(t, {2, 2}, {2, 2}, {1, 1}); Tensor r = m(t); CHECK(isShape(r, shp(want)), "shape of the pool"); checkVals(r, Fs(fp(want), fp(want) + want.numel()), "pool with its own window"); END(); }
HARNESS(norms) { beginReal(); int64_t d = pick("d", 1, 3), n = pick("rows", 1, 2); int64_t k = pick("kind", 0, 2); Fs x = symFs("x", n * d), w = symFs("w", d), b = symFs("b", d); Tensor t = mk(x, {n, d}); Sh ns{d}; Tensor r, want; float eps = 0.25f; if (k == 2) { RMSNorm l(ns, eps); put(l.weight(), w); r = l(t); want = function::rmsNorm(t, ns, mk(w, {d}), eps); } else { LayerNorm l(ns, eps, k == 0); put(l.weight(), w); if (k == 0) put(l.bias(), b); r = l(t); want = function::layerNorm(t, ns, mk(w, {d}), k == 0 ? mk(b, {d}) : Tensor(), eps); } checkT(r, Fs(fp(want), fp(want) + n * d), {n, d}, "normalisation with its own weights"); END(); }
HARNESS(embedding) { begin(); int64_t n = 3, d = pick("d", 1, 2), c = pick("count", 0, 3); Embedding l(n, d); Fs w = symFs("w", n * d), e; put(l.weight(), w); std::vector<int64_t> ix; for (int64_t i = 0; i < c; i++) { ix.push_back(sym_concretize(sym_i64("i", 0, n - 1))); for (int64_t k = 0; k < d; k++) e.push_back(w[ix.back() * d + k]); } Tensor r = l(mkI(ix, {c})); checkT(r, e, {c, d}, "rows of its own table"); END(); }
HARNESS(plain) {
  beginReal(); Fs x = symFs("x", 8); Sh s{2, 2, 2}; Tensor t = mk(x, s), r, want; switch (pick("layer", 0, 6)) {
    case 0: r = Relu()(t); want = function::relu(t); break; case 1: r = Gelu()(t); want = function::gelu(t); break; case 2: r = Silu()(t); want = function::silu(t); break;
    case 3: { int64_t d = pick("dim", -3, 2); r = Softmax(d)(t); want = function::softmax(t, d); break; } case 4: { int64_t d = pick("dim", -3, 2); r = LogSoftmax(d)(t); want = function::logSoftmax(t, d); break; }
    case 5: { int64_t a = pick("start", 0, 2), b = pick("end", 0, 2); sym_assume(a <= b); r = Flatten(a, b)(t); want = function::flatten(t, a, b); break; } default: r = Flatten()(t); want = function::flatten(t, 0, -1); }
  checkT(r, Fs(fp(want), fp(want) + 8), shp(want), "layer applies its operator"); END();
}
HARNESS(dropout_mode) { beginReal(); manualSeed(1); Fs x = symFs("x", 3); auto d = std::make_shared<Dropout>(1.f); Sequential s{std::make_shared<Sequential>(std::initializer_list<MP>{d}), std::make_shared<Relu>()}; bool tr = pick("train", 0, 1); s.eval(); if (tr) s.train(); Tensor r = (*d)(mk(x, {3})); checkT(r, tr ? Fs(3, 0.f) : x, {3}, "dropout follows the mode of the tree"); END(); }
HARNESS(rope) { beginReal(); int64_t off = pick("offset", 0, 2); Fs x = symFs("x", 2); RoPE l(2, 4); Tensor t = mk(x, {1, 1, 1, 2}); Tensor r = pick("call", 0, 1) ? l(t, off) : l.forward(t, off), want = function::ropeApply(t, l.cache(), off); checkT(r, Fs(fp(want), fp(want) + 2), {1, 1, 1, 2}, "rotation with its own table"); END(); }
