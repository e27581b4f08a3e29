// C30: SmallVector and ArrayView against std::vector
#include "common.h"
#include <memory>
#include <utility>
// an element that owns memory and knows whether it is alive
struct El {
  int64_t* p; El* self; static int64_t live;
  El() : p(new int64_t(0)), self(this) { live++; }
  El(int64_t v) : p(new int64_t(v)), self(this) { live++; }
  El(const El& o) : self(this) { CHECK(o.ok(), "copied from a live element"); p = o.p ? new int64_t(*o.p) : nullptr; live++; }
  El(El&& o) noexcept : self(this) { CHECK(o.ok(), "moved from a live element"); p = o.p; o.p = nullptr; live++; }
  El& operator=(const El& o) { CHECK(ok() && o.ok(), "assigned between live elements"); if (this != &o) { delete p; p = o.p ? new int64_t(*o.p) : nullptr; } return *this; }
  El& operator=(El&& o) noexcept { CHECK(ok() && o.ok(), "assigned between live elements"); if (this != &o) { delete p; p = o.p; o.p = nullptr; } return *this; }
  ~El() { CHECK(ok(), "destroyed once"); delete p; self = nullptr; live--; }
  bool ok() const { return self == this; }
  int64_t get() const { CHECK(ok() && p, "a live element with a value"); return *p; }
  bool operator==(const El& o) const { return get() == o.get(); }
};
int64_t El::live = 0;
static int64_t val(int64_t x) { return x; }
static int64_t val(const El& x) { return x.get(); }
static int64_t any() { return sym_i64("value", INT64_MIN, INT64_MAX); }
template <class V, class T> static void agree(const V& v, const std::vector<T>& m) {
  CHECK(v.size() == m.size() && v.empty() == m.empty(), "same size"); CHECK(v.capacity() >= v.size(), "capacity holds the elements"); CHECK(v.begin() == v.data() && v.end() == v.data() + m.size(), "iteration covers the elements");
  bool same = true; for (size_t i = 0; i < m.size(); i++) same &= val(v[i]) == val(m[i]); CHECK(same, "same elements in the same order"); if (!m.empty()) CHECK(val(v.front()) == val(m.front()) && val(v.back()) == val(m.back()), "first and last element"); int64_t k = 0; for (auto& x : v) { CHECK(val(x) == val(m[k]), "iteration in order"); k++; } auto w = v.view(); CHECK(w.size() == m.size() && (m.empty() || w.data() == v.data()), "the view sees the elements");
}
template <class V, class T> static void make(V& v, std::vector<T>& m, const char* n, int64_t maxN) {
  int64_t k = pick(n, 0, maxN); std::vector<T> init; for (int64_t i = 0; i < k; i++) init.push_back(T(any()));
  switch (pick("constructor", 0, 2)) { case 0: v = V(init); m = init; break; case 1: { v = V((size_t)k); m = std::vector<T>(k); break; } default: { T x(any()); v = V((size_t)k, x); m = std::vector<T>(k, x); } }
}
template <class V, class T> static void step(V& v, std::vector<T>& m, bool few = false) {
  int64_t op = pick("op", 0, 14), n = m.size(); auto idx = [&](const char* nm) { sym_assume(n > 0); return few && n > 1 ? (pick(nm, 0, 1) ? n - 1 : 0) : pick(nm, 0, n - 1); }; auto pos = [&]() { return few && n > 1 ? (pick("pos", 0, 2) * n) / 2 : pick("pos", 0, n); }; auto size = [&]() { return few ? pick("size", 0, 2) * 2 : pick("size", 0, 5); };
  switch (op) {
    case 0: { T x(any()); v.pushBack(x); m.push_back(x); break; }
    case 1: { int64_t i = idx("own"); v.pushBack(v[i]); m.push_back(T(m[i])); break; }
    case 2: { int64_t p = pos(); T x(any()); T* r = v.insert(v.begin() + p, x); CHECK(r == v.begin() + p, "insert returns the position"); m.insert(m.begin() + p, x); break; }
    case 3: { int64_t p = pos(), i = idx("own"); T x(m[i]); T* r = v.insert(v.begin() + p, v[i]); CHECK(r == v.begin() + p, "insert returns the position"); m.insert(m.begin() + p, x); break; }
    case 4: { int64_t k = size(); v.resize(k); m.resize(k); break; }
    case 5: { int64_t k = size(); T x(any()); v.resize(k, x); m.resize(k, x); break; }
    case 6: { int64_t k = size(); v.reserve(k); CHECK((int64_t)v.capacity() >= k, "reserved"); break; }
    case 7: v.clear(); m.clear(); break;
    case 8: { V o; std::vector<T> p; make(o, p, "other size", 4); v = o; m = p; agree(o, p); if (!p.empty()) { T x(any()); o[0] = x; } break; }
    case 9: { V o; std::vector<T> p; make(o, p, "other size", 4); v = std::move(o); m = p; o.clear(); T x(any()); o.pushBack(x); CHECK(o.size() == 1 && val(o[0]) == val(x), "a moved-from vector can be used again"); break; }
    case 10: { V& w = v; v = w; break; }
    case 11: { V o(v); agree(o, m); o.pushBack(T(any())); break; }
    case 12: { V o(std::move(v)); agree(o, m); CHECK(v.empty(), "a moved-from vector is empty"); v = std::move(o); break; }
    case 13: { V o; std::vector<T> p; make(o, p, "other size", 4); std::swap(v, o); std::swap(m, p); agree(o, p); break; }
    default: { int64_t k = size(), i = idx("own"); T x(m[i]); v.resize(k, v[i]); m.resize(k, x); } }
  agree(v, m);
}
HARNESS(int_small) { begin(); SmallVector<int64_t, 2> v; std::vector<int64_t> m; make(v, m, "size", 3); agree(v, m); int64_t n = TIER == 2 ? 2 : 1; for (int64_t i = 0; i < n; i++) step(v, m); END(); }
HARNESS(int_steps) { begin(); SmallVector<int64_t, 2> v; std::vector<int64_t> m; int64_t k = pick("pushes", 0, 3); for (int64_t i = 0; i < k; i++) { int64_t x = any(); v.pushBack(x); m.push_back(x); } for (int64_t i = 0; i < (TIER == 2 ? 3 : 2); i++) step(v, m, true); END(); }
HARNESS(int_default) { begin(); SmallVector<int64_t> v; std::vector<int64_t> m; int64_t k = pick("pushes", 3, 6); for (int64_t i = 0; i < k; i++) { int64_t x = any(); v.pushBack(x); m.push_back(x); agree(v, m); } step(v, m, true); END(); }
HARNESS(long_push) { begin(); SmallVector<int64_t, 1> v; std::vector<int64_t> m; int64_t k = pick("pushes", 0, TIER == 2 ? 70 : 20); for (int64_t i = 0; i < k; i++) { int64_t x = any(); v.pushBack(x); m.push_back(x); } agree(v, m); END(); }
static void owned(int64_t n, int64_t start) {
  int64_t blocks = sym_heap_blocks();
  { SmallVector<El, 2> v; std::vector<El> m; for (int64_t i = 0; i < start; i++) { El x(any()); v.pushBack(x); m.push_back(x); } for (int64_t i = 0; i < n; i++) step(v, m, true); }
  CHECK(El::live == 0, "every element is destroyed exactly once"); CHECK((int64_t)sym_heap_blocks() == blocks || !sym_is_symbolic_run(), "no memory is left behind");
}
HARNESS(owning) { begin(); El::live = 0; owned(1, pick("pushes", 0, 4)); END(); }
HARNESS(owning_two) { begin(); El::live = 0; owned(2, TIER == 2 ? pick("pushes", 0, 3) : 2); END(); }
HARNESS(construct) { begin(); El::live = 0; { switch (pick("form", 0, 3)) { case 0: { SmallVector<int64_t, 2> v{any(), any(), any()}; CHECK(v.size() == 3, "list size"); break; } case 1: { std::vector<El> m; for (int64_t i = 0; i < 3; i++) m.emplace_back(any()); ArrayView<El> w(m); SmallVector<El, 2> v(w); agree(v, m); break; } case 2: { int64_t k = pick("size", 0, 4); SmallVector<El, 2> v((size_t)k); agree(v, std::vector<El>(k)); break; } default: { int64_t k = pick("size", 0, 4); El x(any()); SmallVector<El, 2> v((size_t)k, x); agree(v, std::vector<El>(k, x)); } } } CHECK(El::live == 0, "every element is destroyed exactly once"); END(); }
// ---- views
static std::vector<int64_t> vals(const char* n, int64_t k) { std::vector<int64_t> v; for (int64_t i = 0; i < k; i++) v.push_back(sym_i64(n, INT64_MIN, INT64_MAX)); return v; }
static void sees(const IntArrayView& w, const std::vector<int64_t>& m) { CHECK(w.size() == m.size() && w.empty() == m.empty(), "size of the view"); CHECK((size_t)(w.end() - w.begin()) == m.size(), "iteration over the view"); for (size_t i = 0; i < m.size(); i++) CHECK(w[i] == m[i] && w.data()[i] == m[i], "elements of the view"); if (!m.empty()) CHECK(w.front() == m.front() && w.back() == m.back(), "first and last element"); }
HARNESS(view) { begin(); int64_t k = pick("size", 0, 6); auto m = vals("x", k); switch (pick("from", 0, 2)) { case 0: sees(IntArrayView(m), m); break; case 1: { SmallVector<int64_t> v(m); sees(IntArrayView(v), m); sees(v.view(), m); break; } default: { int64_t a = pick("from", 0, k), b = pick("to", 0, k); sym_assume(a <= b); sees(IntArrayView(m.data() + a, b - a), std::vector<int64_t>(m.begin() + a, m.begin() + b)); } } END(); }
HARNESS(view_list) { begin(); int64_t a = any(), b = any(), c = any(); auto f = [&](IntArrayView w, const std::vector<int64_t>& m) { sees(w, m); }; f({}, {}); f({a}, {a}); f({a, b}, {a, b}); f({a, b, c}, {a, b, c}); END(); }
HARNESS(view_equal) { begin(); int64_t k = pick("size a", 0, 3), l = pick("size b", 0, 3); auto a = vals("a", k), b = vals("b", l); SmallVector<int64_t> v(a), u(b); bool eq = k == l; for (int64_t i = 0; eq && i < k; i++) eq = eq && a[i] == b[i]; CHECK((IntArrayView(a) == IntArrayView(b)) == eq && (IntArrayView(a) != IntArrayView(b)) == !eq, "views compare by elements"); CHECK((v == IntArrayView(b)) == eq && (v != IntArrayView(b)) == !eq, "a vector compares with a view by elements"); END(); }
HARNESS(view_range) { int64_t k = pick("size", 0, 3); uint64_t i = sym_u64("index"); sym_assume(i >= (uint64_t)k); begin(); auto m = vals("x", k); IntArrayView w(m); int64_t how = pick("how", 0, 2); sym_assume(how == 0 || k == 0); sym_reach("end"); sym_trap_policy(1); if (how == 0) (void)*(volatile const int64_t*)&w[i]; else if (how == 1) (void)*(volatile const int64_t*)&w.front(); else (void)*(volatile const int64_t*)&w.back(); CHECK(false, "an element outside the view is refused"); }
HARNESS(wide) {
  begin(); SmallVector<int64_t> v; std::vector<int64_t> m; int64_t k = pick("pushes", 0, 2); static const int64_t N[] = {65, 130, 300}; for (int64_t i = 0; i < N[k]; i++) { int64_t x = any(); v.pushBack(x); m.push_back(x); } agree(v, m);
  int64_t p = pick("pos", 0, 2) * (N[k] / 2), x = any(); v.insert(v.begin() + p, x); m.insert(m.begin() + p, x); agree(v, m); SmallVector<int64_t> c(v); agree(c, m); c.resize(N[k] * 3, x); auto q = m; q.resize(N[k] * 3, x); agree(c, q); agree(v, m); SmallVector<int64_t> w(std::move(c)); agree(w, q); v = w; agree(v, q); v.resize(4); q.resize(4); agree(v, q); v.pushBack(x); q.push_back(x); agree(v, q); END();
}
HARNESS(wide_owning) { begin(); El::live = 0; { SmallVector<El, 4> v; std::vector<El> m; for (int64_t i = 0; i < 70; i++) { int64_t x = any(); v.pushBack(El(x)); m.push_back(El(x)); } agree(v, m); SmallVector<El, 4> w(v); v.insert(v.begin() + 33, v[60]); m.insert(m.begin() + 33, El(m[60])); agree(v, m); v.resize(3); m.resize(3); agree(v, m); w = v; agree(w, m); v.clear(); m.clear(); agree(v, m); } CHECK(El::live == 0, "every element is destroyed exactly once"); END(); }
