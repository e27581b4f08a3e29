#include "common.h"
#include "Tensor/CachedAllocator.h"
#include <memory>
#define ON CachedAllocator::setCacheEnabled(true)
// ---- the underlying allocator: hands out far-apart made-up addresses (never dereferenced by the code) and records them
struct Region { uintptr_t at; int64_t n; bool live; };
static const int64_t MiB = 1 << 20;
struct Base : Allocator {
  static std::vector<Region>& regs() { static std::vector<Region> r; return r; }
  static int64_t limit, used, calls; static bool bad;
  void* allocate(int64_t n) override { calls++; if (n < 0 || used + n > limit) return nullptr; uintptr_t a = 0x600000000000ull + regs().size() * 0x4000000000ull; regs().push_back({a, n, true}); used += n; return (void*)a; }
  void deallocate(void* p) override { for (auto& r : regs()) if (r.at == (uintptr_t)p && r.live) { r.live = false; used -= r.n; return; } bad = true; }
};
int64_t Base::limit = 1ll << 40, Base::used = 0, Base::calls = 0; bool Base::bad = false;
static void reset() { Base::regs().clear(); Base::limit = 1ll << 40; Base::used = 0; Base::calls = 0; Base::bad = false; }
struct Live { uintptr_t at; int64_t n; };
// the block [p, p+n) lies in a live region of the underlying allocator and touches no block still in use
static void judge(uintptr_t p, int64_t n, const std::vector<Live>& live) {
  CHECK(p % 32 == 0, "aligned"); bool in = false; for (auto& r : Base::regs()) if (r.live && p >= r.at && p < r.at + (uintptr_t)r.n) { CHECK(p + n <= r.at + (uintptr_t)r.n, "at least as large as requested"); in = true; break; }
  CHECK(in, "inside memory obtained from the underlying allocator"); for (auto& l : live) CHECK(p + n <= l.at || l.at + l.n <= p, "disjoint from every block in use");
}
static int64_t cls(int64_t c) { static const int64_t t[] = {1, 513, MiB, MiB + 1, 9 * MiB, 10 * MiB, 0, 512, 1025, MiB - 512, 10 * MiB - 1, 20 * MiB, 20 * MiB + 1, 2 * MiB, 3 * MiB}; return t[c]; }
typedef std::unique_ptr<CachedAllocator> A;
static A make() { return std::make_unique<CachedAllocator>(std::make_unique<Base>()); }
static void finish(A& a, std::vector<Live>& live) {
  for (auto& l : live) a->deallocate((void*)l.at); live.clear(); a.reset(); CHECK(!Base::bad, "only what the underlying allocator gave is returned to it, once"); CHECK(Base::used == 0, "every byte is returned to the underlying allocator");
}
static int64_t symSize(int64_t c) { switch (c) { case 0: return sym_i64("bytes", 0, 511); case 1: return sym_i64("bytes", 513, 1024); case 2: return sym_i64("bytes", MiB - 511, MiB); case 3: return sym_i64("bytes", MiB + 1, MiB + 512); case 4: return sym_i64("bytes", 9 * MiB - 511, 9 * MiB); default: return sym_i64("bytes", 10 * MiB - 511, 10 * MiB); } }
static void ops(int len, int nc, bool oom) {
  reset(); if (oom) Base::limit = pick("limit", 0, 2) * 10 * MiB + 4 * MiB; A a = make(); std::vector<Live> live;
  for (int i = 0; i < len; i++) {
    int64_t o = pick("op", 0, nc + (int)live.size() - 1);
    if (o < nc) { int64_t n = symSize(o); void* p = a->allocate(n); if (!oom) CHECK(p != nullptr, "memory is available"); if (p) { judge((uintptr_t)p, n, live); live.push_back({(uintptr_t)p, n}); } }
    else { int k = o - nc; uintptr_t at = live[k].at; int64_t n = live[k].n; a->deallocate((void*)at); live.erase(live.begin() + k); if (i + 1 == len) { int64_t c = Base::calls; void* p = a->allocate(n); CHECK(p && Base::calls == c, "freed memory is reused"); if (p) { judge((uintptr_t)p, n, live); live.push_back({(uintptr_t)p, n}); } } }
  }
  finish(a, live); END();
}
HARNESS(small_ops) { ON; ops(6, 3, false); }
HARNESS(all_ops) { ON; ops(4, 6, false); }
HARNESS(oom_ops) { ON; ops(4, 5, true); }
HARNESS(t_small_ops) { ON; ops(8, 3, false); }
HARNESS(t_all_ops) { ON; ops(5, 6, false); }
HARNESS(t_more_sizes) { ON; ops(4, 15, false); }
HARNESS(t_oom_ops) { ON; ops(5, 5, true); }
// every size: the memory asked from the underlying allocator holds it
HARNESS(any_size) {
  CachedAllocator::setCacheEnabled(true); reset(); int64_t n = sym_i64("bytes", 0, 1ll << 38); A a = make(); void* p = a->allocate(n); CHECK(p != nullptr, "memory is available"); CHECK(Base::regs().size() == 1 && (uintptr_t)p == Base::regs()[0].at && n <= Base::regs()[0].n, "at least as large as requested"); a->deallocate(p);
  int64_t c = Base::calls; p = a->allocate(n); CHECK(Base::calls == c && (uintptr_t)p == Base::regs()[0].at, "freed memory is reused"); std::vector<Live> live{{(uintptr_t)p, n}}; finish(a, live); END();
}
// sizes over every value: each 512-byte step is one path, the size inside the step is symbolic
static int64_t inStep(const char* name, int64_t step) { return step == 0 ? 0 : sym_i64(name, 512 * (step - 1) + 1, 512 * step); }
static void near(int64_t lo, int64_t hi) {
  ON; reset(); int64_t n = inStep("bytes", pick("step", lo, hi)), m = cls(pick("second", 0, 14)); A a = make(); std::vector<Live> live; for (int64_t k : {n, m, n}) { void* p = a->allocate(k); CHECK(p != nullptr, "memory is available"); judge((uintptr_t)p, k, live); live.push_back({(uintptr_t)p, k}); }
  int64_t d = pick("freed", 0, 2), sz = live[d].n; a->deallocate((void*)live[d].at); live.erase(live.begin() + d); int64_t c = Base::calls; void* p = a->allocate(sz); CHECK(p && Base::calls == c, "freed memory is reused"); judge((uintptr_t)p, sz, live); live.push_back({(uintptr_t)p, sz}); finish(a, live); END();
}
static const int64_t K1 = MiB / 512;
HARNESS(steps_small) { near(0, 8); }
HARNESS(steps_1m) { near(K1 - 3, K1 + 3); }
HARNESS(steps_2m) { near(2 * K1 - 2, 2 * K1 + 2); }
HARNESS(steps_10m) { near(10 * K1 - 2, 10 * K1 + 2); }
HARNESS(steps_19m) { near(19 * K1 - 2, 19 * K1 + 2); }
HARNESS(steps_20m) { near(20 * K1 - 2, 20 * K1 + 2); }
HARNESS(t_steps_small) { near(9, 600); }
HARNESS(t_steps_mid) { near(K1 - 300, K1 + 300); }
HARNESS(t_steps_large) { near(19 * K1 - 200, 20 * K1 + 100); }
// neighbours merge: after freeing everything in any order, a region is one free block again
static int perm3[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
HARNESS(merge) {
  CachedAllocator::setCacheEnabled(true); reset(); bool large = pick("large", 0, 1); int64_t n[3]; for (auto& x : n) x = large ? (pick("size", 1, 2) == 1 ? 2 * MiB : 3 * MiB + 5) : (pick("size", 1, 2) == 1 ? 100 : 200000); A a = make(); std::vector<Live> live; uintptr_t p[3]; for (int i = 0; i < 3; i++) { p[i] = (uintptr_t)a->allocate(n[i]); judge(p[i], n[i], live); live.push_back({p[i], n[i]}); }
  CHECK(Base::calls == 1, "small blocks share one region"); int64_t o = pick("order", 0, 5); for (int k : perm3[o]) a->deallocate((void*)p[k]); live.clear(); std::vector<int64_t> again; if (large) again = {20 * MiB}; else again = {MiB, MiB};
  for (int64_t k : again) { void* q = a->allocate(k); judge((uintptr_t)q, k, live); live.push_back({(uintptr_t)q, k}); } CHECK(Base::calls == 1, "neighbouring free blocks are merged"); finish(a, live); END();
}
HARNESS(merge_partial) {  // freeing two neighbours makes room for both
  CachedAllocator::setCacheEnabled(true); reset(); int64_t s[4]; for (auto& x : s) x = pick("size", 1, 2) * 256 * 1024; A a = make(); std::vector<Live> live; for (int i = 0; i < 4; i++) { void* q = a->allocate(s[i]); judge((uintptr_t)q, s[i], live); live.push_back({(uintptr_t)q, s[i]}); }
  CHECK(Base::calls == 1, "one region"); int64_t tail = 2 * MiB - s[0] - s[1] - s[2] - s[3]; if (tail) { void* q = a->allocate(tail); CHECK(Base::calls == 1, "the rest of the region is used"); judge((uintptr_t)q, tail, live); live.push_back({(uintptr_t)q, tail}); } int k = pick("first", 0, 2), rev = pick("reversed", 0, 1); a->deallocate((void*)live[k + rev].at); a->deallocate((void*)live[k + 1 - rev].at); live.erase(live.begin() + k, live.begin() + k + 2);
  int64_t both = s[k] + s[k + 1]; void* q = a->allocate(both); CHECK(Base::calls == 1, "neighbouring free blocks are merged"); judge((uintptr_t)q, both, live); live.push_back({(uintptr_t)q, both}); finish(a, live); END();
}
// when the underlying allocator is exhausted, cached free memory is given back before giving up
HARNESS(exhausted) {
  CachedAllocator::setCacheEnabled(true); reset(); Base::limit = 24 * MiB; A a = make(); std::vector<Live> live; void* p = a->allocate(cls(pick("first", 3, 5))); CHECK(p != nullptr, "memory is available"); bool hold = pick("hold", 0, 1); if (!hold) a->deallocate(p); else live.push_back({(uintptr_t)p, MiB + 1}); void* q = a->allocate(22 * MiB); if (hold) CHECK(q == nullptr, "no memory is left"); else CHECK(q != nullptr, "cached memory is released and the request retried"); if (q) { judge((uintptr_t)q, 22 * MiB, live); live.push_back({(uintptr_t)q, 22 * MiB}); } finish(a, live); END();
}
HARNESS(disabled) { CachedAllocator::setCacheEnabled(true); reset(); CachedAllocator::setCacheEnabled(false); { A a = make(); int64_t n = sym_i64("bytes", 0, 1 << 30); void* p = a->allocate(n); CHECK(p && Base::regs().size() == 1 && Base::regs()[0].n == n, "passed on"); a->deallocate(p); CHECK(Base::used == 0 && !Base::bad, "passed on"); } CachedAllocator::setCacheEnabled(true); END(); }
HARNESS(unknown_pointer) { CachedAllocator::setCacheEnabled(true); reset(); A a = make(); void* p = a->allocate(100); a->deallocate((char*)p + 32); a->deallocate(nullptr); std::vector<Live> live{{(uintptr_t)p, 100}}; void* q = a->allocate(100); judge((uintptr_t)q, 100, live); live.push_back({(uintptr_t)q, 100}); finish(a, live); END(); }
HARNESS(per_device) { CachedAllocator::setCacheEnabled(true); Options o; Allocator* a = getAllocator(o); CHECK(a != nullptr && a == getAllocator(Options()), "one allocator for the CPU"); int64_t n = pick("bytes", 0, 2) * 500 + 1; char* p = (char*)a->allocate(n); CHECK((uintptr_t)p % 32 == 0, "aligned"); for (int64_t i = 0; i < n; i += 100) p[i] = (char)i; p[n - 1] = 7; a->deallocate(p); END(); }
