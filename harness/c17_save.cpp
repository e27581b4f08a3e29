#include "common.h"
#include "Modules.h"
#include "Serializer.h"
#include <memory>
#include <string>
// a module with any list of named tensors
struct Named : nn::Module {
  std::vector<std::pair<std::string, TensorPtr>> l; std::vector<std::pair<std::string, TensorPtr>> namedParameters_() override { return l; }
  Named& add(const std::string& n, Tensor& t) { l.emplace_back(n, &t); return *this; }
};
static const DType DT[6] = {DType::Float32, DType::Float16, DType::BFloat16, DType::Int32, DType::Int64, DType::Bool};
typedef std::vector<uint8_t> Bytes;
static Bytes symBytes(size_t n) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = sym_u8("byte"); return b; }
static Bytes constBytes(size_t n, uint8_t s) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(s + 3 * i); return b; }
static Tensor raw(const Bytes& b, const Sh& s, DType d, bool rg = false) { Tensor t = Tensor::empty(IntArrayView(s), options::dtype(d).requiresGrad(rg)); CHECK(t.numel() * dtypeSize(d) == b.size(), "setup"); if (!b.empty()) memcpy(t.dataPtr<>(), b.data(), b.size()); return t; }
static void is(const Tensor& t, const Bytes& b, const Sh& s, DType d, const char* m) { checkLayout(t, s, m); CHECK(t.dtype() == d, m); const uint8_t* p = (const uint8_t*)t.dataPtr<>(); bool ok = true; for (size_t i = 0; i < b.size(); i++) CHECK(p[i] == b[i], m); }
static size_t nb(const Sh& s, DType d) { return prod(s) * dtypeSize(d); }
// one tensor: every element type, every shape, every bit pattern, several names
HARNESS(one) {
  begin(); DType d = DT[pick("type", 0, 5)]; Sh s = pickShape("d", 0, 3, 0, 2, 4); const char* nm[] = {"weight", "", "a.b", "0"}; std::string n = nm[pick("name", 0, 3)]; Bytes b = symBytes(nb(s, d)); Tensor t = raw(b, s, d), u = raw(constBytes(b.size(), 7), s, d); Named A, B; A.add(n, t); B.add(n, u);
  CHECK(save(A, vfs_path("m")), "saving succeeds"); CHECK(load(B, vfs_path("m")), "loading succeeds"); is(u, b, s, d, "loaded values are bit-identical"); is(t, b, s, d, "saving leaves the tensor"); END();
}
// larger ranks and sizes
HARNESS(shapes) {
  begin(); Sh s = pickShape("d", 3, 5, 1, 3, 12); DType d = pick("half", 0, 1) ? DType::Float16 : DType::Float32; Bytes b = symBytes(nb(s, d)); Tensor t = raw(b, s, d), u = raw(constBytes(b.size(), 7), s, d); Named A, B; A.add("w", t); B.add("w", u);
  CHECK(save(A, vfs_path("m")), "saving succeeds"); CHECK(load(B, vfs_path("m")), "loading succeeds"); is(u, b, s, d, "loaded values are bit-identical"); END();
}
// three tensors of different types and sizes, in any order on either side, with names that prefix each other
HARNESS(order) {
  begin(); const char* nm[3] = {"w", "w.w", "ww"}; Sh sh[3] = {{3}, {2, 1}, {}}; DType dt[3] = {DType::Bool, DType::Float32, DType::Int64}; int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; int a = (int)pick("orderSaved", 0, 5), c = (int)pick("orderLoaded", 0, 5);
  Bytes b[3]; Tensor t[3], u[3]; for (int i = 0; i < 3; i++) { b[i] = symBytes(nb(sh[i], dt[i])); t[i] = raw(b[i], sh[i], dt[i]); u[i] = raw(constBytes(b[i].size(), 7), sh[i], dt[i]); } Named A, B; for (int i = 0; i < 3; i++) { A.add(nm[P[a][i]], t[P[a][i]]); B.add(nm[P[c][i]], u[P[c][i]]); }
  CHECK(save(A, vfs_path("m")), "saving succeeds"); CHECK(load(B, vfs_path("m")), "loading succeeds"); for (int i = 0; i < 3; i++) { is(u[i], b[i], sh[i], dt[i], "each tensor gets its own values"); is(t[i], b[i], sh[i], dt[i], "saving leaves the tensors"); } END();
}
// two large tensors: offsets beyond one byte
HARNESS(sizes) {
  begin(); int64_t n = pick("n", 0, 2), N[3] = {5, 70, 300}; Bytes b = constBytes(4 * N[n], 1), c = symBytes(8); b[0] = sym_u8("first"); b[b.size() - 1] = sym_u8("last"); Tensor t = raw(b, {N[n]}, DType::Float32), v = raw(c, {2}, DType::Int32), u = raw(constBytes(b.size(), 9), {N[n]}, DType::Float32), w = raw(constBytes(8, 8), {2}, DType::Int32); Named A, B; A.add("x", t).add("y", v); B.add("y", w).add("x", u);
  CHECK(save(A, vfs_path("m")) && load(B, vfs_path("m")), "saved and loaded"); is(u, b, {N[n]}, DType::Float32, "long tensor"); is(w, c, {2}, DType::Int32, "tensor behind it"); END();
}
// tensors that do not match stay as they were, the others are loaded
HARNESS(mismatch) {
  begin(); int64_t k = pick("kind", 0, 6); bool strict = pick("strict", 0, 1); Bytes b = symBytes(8), c = symBytes(8), o = constBytes(8, 5), z = constBytes(8, 90); Tensor t = raw(b, {2}, DType::Float32), g = raw(c, {2}, DType::Float32), w = raw(z, {2}, DType::Float32); Named A, B; A.add("t", t).add("g", g);
  Sh s{2}; DType d = DType::Float32; std::string n = "t";
  if (k == 0) s = {1, 2}; if (k == 1) s = {2, 1}; if (k == 2) d = DType::Int32; if (k == 3) n = "T"; if (k == 4) n = "t2"; if (k == 5) { s = {4}; d = DType::Float16; } if (k == 6) { s = {4}; o = constBytes(16, 5); }
  Tensor u = raw(o, s, d); if (pick("first", 0, 1)) B.add(n, u).add("g", w); else B.add("g", w).add(n, u);
  CHECK(save(A, vfs_path("m")), "saving succeeds"); bool r = load(B, vfs_path("m"), strict); is(u, o, s, d, "a tensor that does not match stays unchanged"); is(w, c, {2}, DType::Float32, "the matching tensor is loaded"); bool nameOnly = k == 3 || k == 4; CHECK(r == (nameOnly && !strict), "the result tells whether everything asked for was loaded"); END();
}
// fewer tensors on one side
HARNESS(subset) {
  begin(); bool strict = pick("strict", 0, 1), less = pick("less", 0, 1); Bytes b = symBytes(4), c = symBytes(4), z = constBytes(4, 3); Tensor t = raw(b, {1}, DType::Float32), g = raw(c, {1}, DType::Int32), u = raw(z, {1}, DType::Float32), w = raw(z, {1}, DType::Int32); Named A, B; A.add("t", t); if (!less) A.add("g", g); B.add("t", u); if (less) B.add("g", w);
  CHECK(save(A, vfs_path("m")), "saving succeeds"); CHECK(load(B, vfs_path("m"), strict) == !strict, "missing or unexpected tensors are an error exactly when strict"); is(u, b, {1}, DType::Float32, "the common tensor is loaded"); is(w, z, {1}, DType::Int32, "the other is unchanged"); END();
}
// an empty model; saving again replaces the file
HARNESS(replace) {
  begin(); Named E, A, B; Tensor big = raw(constBytes(40, 1), {10}, DType::Float32); A.add("w", big).add("v", big); CHECK(save(A, vfs_path("m")), "saving succeeds"); Bytes b = symBytes(4); Tensor t = raw(b, {}, DType::Float32), u = raw(constBytes(4, 2), {}, DType::Float32); Named C; C.add("s", t); B.add("s", u); if (pick("empty", 0, 1)) { CHECK(save(E, vfs_path("m")), "an empty model is saved"); CHECK(load(E, vfs_path("m")), "and loaded"); CHECK(!load(B, vfs_path("m")), "nothing to load"); is(u, constBytes(4, 2), {}, DType::Float32, "unchanged"); } else { CHECK(save(C, vfs_path("m")) && load(B, vfs_path("m")), "replaced"); is(u, b, {}, DType::Float32, "values"); } END();
}
// loading changes only the tensors it is given: clones, views taken before, flags and gradients stay
HARNESS(isolated) {
  begin(); Bytes b = symBytes(8), z = symBytes(8), gr = symBytes(8); Tensor t = raw(b, {2}, DType::Float32), u = raw(z, {2}, DType::Float32, true); u.setGrad(raw(gr, {2}, DType::Float32)); Tensor keep; { NoGradGuard g; keep = u.clone(); } Named A, B; A.add("w", t); B.add("w", u);
  CHECK(save(A, vfs_path("m")) && load(B, vfs_path("m")), "saved and loaded"); is(u, b, {2}, DType::Float32, "loaded"); is(keep, z, {2}, DType::Float32, "an earlier clone keeps its values"); CHECK(u.requiresGrad(), "the flag stays"); is(u.grad(), gr, {2}, DType::Float32, "the gradient stays"); is(t, b, {2}, DType::Float32, "the saved tensor stays"); u.fill_(0.f); is(t, b, {2}, DType::Float32, "no sharing with the saved tensor"); END();
}
// nested modules: names are the paths; same structure loads, whatever the registration order
struct Pair : nn::Module { Named x, y; Pair(bool swap) { if (swap) registerModules({{"q", y}, {"p", x}}); else registerModules({{"p", x}, {"q", y}}); } };
HARNESS(nested) {
  begin(); Bytes b = symBytes(4), c = symBytes(4), z = constBytes(4, 1); Tensor t = raw(b, {1}, DType::Float32), g = raw(c, {1}, DType::Float32), u = raw(z, {1}, DType::Float32), w = raw(z, {1}, DType::Float32); Pair A(false), B(pick("swap", 0, 1)); A.x.add("w", t); A.y.add("w", g); B.x.add("w", u); B.y.add("w", w);
  auto ns = A.namedStates(); CHECK(ns.size() == 2 && ns[0].first == "p.w" && ns[1].first == "q.w" && ns[0].second == &t && ns[1].second == &g, "qualified names"); CHECK(save(A, vfs_path("m")) && load(B, vfs_path("m")), "saved and loaded"); is(u, b, {1}, DType::Float32, "p.w"); is(w, c, {1}, DType::Float32, "q.w"); END();
}
static void fill(Tensor* t, float v) { Tensor r = Tensor::full(t->shape(), v, t->options().noGrad()); memcpy(t->dataPtr<>(), r.dataPtr<>(), t->numel() * dtypeSize(t->dtype())); }
// the library's own modules
HARNESS(modules) {
  begin(); nn::Sequential A{std::make_shared<nn::Linear>(2, 1), std::make_shared<nn::Linear>(1, 1, false), std::make_shared<nn::LayerNorm>(IntArrayView{2}), std::make_shared<nn::Conv2D>(1, 1, 1), std::make_shared<nn::Embedding>(1, 2)}, B{std::make_shared<nn::Linear>(2, 1), std::make_shared<nn::Linear>(1, 1, false), std::make_shared<nn::LayerNorm>(IntArrayView{2}), std::make_shared<nn::Conv2D>(1, 1, 1), std::make_shared<nn::Embedding>(1, 2)};
  auto sa = A.namedStates(), sb = B.namedStates(); CHECK(sa.size() == 8 && sb.size() == 8, "all parameters are listed"); std::vector<Fs> v; for (size_t i = 0; i < 8; i++) { fill(sb[i].second, -7.f); v.push_back(symFs("v", sa[i].second->numel())); memcpy(sa[i].second->dataPtr<>(), v[i].data(), v[i].size() * 4); CHECK(sa[i].first == sb[i].first, "same names"); for (size_t j = 0; j < i; j++) CHECK(sa[i].first != sa[j].first, "distinct names"); }
  CHECK(save(A, vfs_path("m")) && load(B, vfs_path("m")), "saved and loaded"); for (size_t i = 0; i < 8; i++) { const float* p = sb[i].second->dataPtr<float>(); for (size_t j = 0; j < v[i].size(); j++) CHECK(fbits(p[j]) == fbits(v[i][j]), "every parameter"); } END();
}
// a write that fails at any byte is reported
HARNESS(write_failure) {
  begin(); Bytes b = symBytes(8); Tensor t = raw(b, {2}, DType::Float32); Named A; A.add("w", t); CHECK(save(A, vfs_path("full")), "saving succeeds"); int64_t size = vfs_size("full"), n = pick("space", 0, 90); vfs_fail_writes_after(n); bool r = save(A, vfs_path("m")); vfs_fail_writes_after(-1); CHECK(r == (n >= size), "saving reports a write that failed"); if (r) { Tensor u = raw(constBytes(8, 1), {2}, DType::Float32); Named B; B.add("w", u); CHECK(load(B, vfs_path("m")), "loads"); is(u, b, {2}, DType::Float32, "values"); } is(t, b, {2}, DType::Float32, "unchanged"); END();
}
HARNESS(no_file) { begin(); Tensor u = raw(constBytes(4, 1), {1}, DType::Float32); Named B; B.add("w", u); CHECK(!load(B, vfs_path("absent")), "a missing file is reported"); is(u, constBytes(4, 1), {1}, DType::Float32, "unchanged"); END(); }
// long tensors, many tensors, long names: lengths past 8, 12 and 16 bits
HARNESS(wide) {
  begin(); static const int64_t N[] = {1100, 5000, 20000}; int64_t n = N[pick("n", 0, 2)]; DType d = pick("half", 0, 1) ? DType::BFloat16 : DType::Float32; size_t z = dtypeSize(d); Bytes b = constBytes(z * n, 1), c = symBytes(8); for (int64_t i = 0; i < n; i++) b[z * i] = (uint8_t)(i >> 8); for (size_t i : {(size_t)0, z * n / 2, z * n - 1}) b[i] = sym_u8("byte"); Tensor t = raw(b, {n}, d), v = raw(c, {2}, DType::Int32), u = raw(constBytes(z * n, 9), {n}, d), w = raw(constBytes(8, 8), {2}, DType::Int32); Named A, B; A.add("x", t).add("y", v); B.add("y", w).add("x", u);
  CHECK(save(A, vfs_path("m")) && load(B, vfs_path("m")), "saved and loaded"); is(u, b, {n}, d, "long tensor"); is(w, c, {2}, DType::Int32, "tensor behind it"); END();
}
HARNESS(wide_many) {
  begin(); const int K = 40; std::vector<Tensor> t(K), u(K); std::vector<Bytes> b(K); Named A, B; std::vector<std::string> nm; for (int i = 0; i < K; i++) { nm.push_back(std::string(1 + i * 9, (char)('a' + i % 5)) + std::string(1, (char)('A' + i))); b[i] = constBytes(4 * (i % 4), (uint8_t)i); if (i % 4) b[i][0] = sym_u8("byte"); t[i] = raw(b[i], {i % 4}, DType::Float32); u[i] = raw(constBytes(4 * (i % 4), 99), {i % 4}, DType::Float32); } for (int i = 0; i < K; i++) { A.add(nm[i], t[i]); B.add(nm[K - 1 - i], u[K - 1 - i]); }
  CHECK(save(A, vfs_path("m")) && load(B, vfs_path("m")), "saved and loaded"); for (int i = 0; i < K; i++) is(u[i], b[i], {i % 4}, DType::Float32, "each tensor gets its own values"); END();
}
HARNESS(high_rank) {
  begin(); static const Sh S[] = {{1, 2, 1, 3, 1, 2}, {2, 1, 1, 1, 2, 1, 3}, {1, 1, 2, 1, 1, 3, 1, 2}}; Sh s = S[pick("shape", 0, 2)]; Bytes b = symBytes(nb(s, DType::Float32)); Tensor t = raw(b, s, DType::Float32), u = raw(constBytes(b.size(), 7), s, DType::Float32); Named A, B; A.add("w", t); B.add("w", u); CHECK(save(A, vfs_path("m")) && load(B, vfs_path("m")), "saved and loaded"); is(u, b, s, DType::Float32, "loaded values are bit-identical"); END();
}
// tensors without dimensions of every type, between others: what lies behind them is found
HARNESS(scalars) {
  begin(); DType d = DT[pick("type", 0, 5)]; int64_t at = pick("at", 0, 2); Bytes b[3]; Tensor t[3], u[3]; Named A, B; const char* nm[3] = {"a", "b", "c"}; for (int i = 0; i < 3; i++) { bool z = i == at; Sh s = z ? Sh{} : Sh{3}; DType y = z ? d : DType::Float32; b[i] = symBytes(nb(s, y)); t[i] = raw(b[i], s, y); u[i] = raw(constBytes(b[i].size(), 7), s, y); A.add(nm[i], t[i]); B.add(nm[i], u[i]); }
  CHECK(save(A, vfs_path("m")) && load(B, vfs_path("m")), "saved and loaded"); for (int i = 0; i < 3; i++) is(u[i], b[i], i == at ? Sh{} : Sh{3}, i == at ? d : DType::Float32, "each tensor gets its own values"); END();
}
// a tensor of any other shape with as many elements does not match
HARNESS(mismatch_shape) {
  begin(); static const Sh S[] = {{4}, {2, 2}, {4, 1}, {1, 4}, {1, 2, 2}, {2, 1, 2}, {2, 2, 1}, {4, 1, 1}, {1, 1, 4}, {2, 1, 2, 1}, {1, 2, 1, 2}, {1, 1, 1, 1, 4}, {2, 1, 1, 1, 2}}; int64_t i = pick("saved", 0, 12), j = pick("asked", 0, 12); Bytes b = symBytes(16), o = constBytes(16, 5); Tensor t = raw(b, S[i], DType::Float32), u = raw(o, S[j], DType::Float32); Named A, B; A.add("t", t); B.add("t", u);
  CHECK(save(A, vfs_path("m")), "saving succeeds"); CHECK(load(B, vfs_path("m")) == (i == j), "a tensor of another shape is reported"); is(u, i == j ? b : o, S[j], DType::Float32, "a tensor that does not match stays unchanged"); END();
}
