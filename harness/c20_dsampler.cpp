#include "common.h"
#include <numeric>
#include <optional>
#include <random>
#include "Distributed/DistributedSampler.h"
using tinytorch::distributed::DistributedSampler;
typedef std::vector<size_t> Ix;
struct Cfg { int64_t n, w; bool drop, shuffle; };
static int64_t per(const Cfg& c) { return c.drop ? c.n / c.w : c.n / c.w + (c.n % c.w != 0); }
// the lists of all ranks together
static std::vector<Ix> ranks(const Cfg& c, uint64_t seed, uint64_t epoch, bool setTwice) {
  std::vector<Ix> r; for (int64_t k = 0; k < c.w; k++) { DistributedSampler s(c.n, (size_t)c.w, (size_t)k, c.shuffle, seed, c.drop); if (setTwice) s.setEpoch(epoch + 1); if (epoch || setTwice) s.setEpoch(epoch); r.push_back(s.indices()); CHECK((int64_t)s.size() == per(c) && (int64_t)r.back().size() == per(c), "all ranks receive equally many samples"); } return r;
}
static void partition(const Cfg& c, const std::vector<Ix>& r) {
  int64_t m = per(c), tot = m * c.w; std::vector<size_t> all; for (auto& v : r) for (auto x : v) { CHECK(x < (size_t)c.n, "indices are in range"); all.push_back(x); }
  // every index occurs floor or ceil of total/n times: each once, plus the padding; never more than once when dropping
  for (int64_t i = 0; i < c.n; i++) { int64_t k = 0; for (auto x : all) k += x == (size_t)i; if (c.drop) CHECK(k <= 1, "no sample twice"); else { CHECK(k >= 1, "every sample is covered"); CHECK(k >= tot / c.n && k <= tot / c.n + (tot % c.n != 0), "padding repeats samples evenly"); } }
}
HARNESS(ordered) { begin(); Cfg c{pick("samples", 1, TIER == 2 ? 13 : 9), pick("ranks", 1, TIER == 2 ? 6 : 5), (bool)pick("dropLast", 0, 1), false}; auto r = ranks(c, sym_u64("seed"), pick("epoch", 0, 1), pick("again", 0, 1)); partition(c, r); size_t k = 0; for (auto& v : r) for (auto x : v) { CHECK(x == k % c.n, "without shuffling the ranks take consecutive samples"); k++; } END(); }
// the shuffle of the real engine, for several seeds and epochs: ranks agree on one permutation
HARNESS(shuffled) { begin(); Cfg c{pick("samples", 1, 7), pick("ranks", 1, 4), (bool)pick("dropLast", 0, 1), true}; uint64_t seed = pick("seed", 0, 2), e = pick("epoch", 0, 2); partition(c, ranks(c, seed, e, pick("again", 0, 1))); END(); }
// a fresh order in every epoch, the same order for the same seed and epoch
HARNESS(epochs) { begin(); Cfg c{8, 2, false, true}; uint64_t seed = pick("seed", 1, 4); auto a = ranks(c, seed, 0, false), b = ranks(c, seed, 1, false), d = ranks(c, seed, 0, true); CHECK(a == d, "the order depends on seed and epoch only"); CHECK(a != b, "another epoch gives another order"); auto e = ranks(c, seed + 1, 0, false); CHECK(e != a, "another seed gives another order"); END(); }
// every outcome of the engine: one rank's view is consistent (two ranks drawing the same stream)
HARNESS(any_shuffle) {
  begin(); Cfg c{pick("samples", 1, 3), 1, (bool)pick("dropLast", 0, 1), true}; rng_havoc((int)c.n + 2); auto r = ranks(c, sym_u64("seed"), 0, false); partition(c, r); END();
}
// parts of one rank never overlap its own when nothing is padded
HARNESS(large) { begin(); int64_t n = pick("big", 0, 1) ? 16777217 : 33; DistributedSampler s(n, (size_t)1, (size_t)0, false, 0, pick("dropLast", 0, 1)); CHECK((int64_t)s.size() == n, "counts are exact"); END(); }
