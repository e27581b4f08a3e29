// The real FileStore, executed on a model of the POSIX file calls it makes (rt/cxxrt.cpp).  Every call is a point at
// which another process may run one whole operation, unless that operation would have to wait for a lock.
#include "common.h"
#include <dirent.h>
#include <fcntl.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>
#include <stdio.h>
#include <algorithm>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <thread>
#include "Distributed/FileStore.h"
static std::function<void()>* other; static bool nested;
static void sp() {
  if (!other || nested) return;
  if (!pick("switch", 0, 1)) return;
  auto f = other; other = nullptr; nested = true; vfs_process(1); (*f)(); vfs_process(0); nested = false;
}
#define open(...) (sp(), ::open(__VA_ARGS__))
#define close(x) (sp(), ::close(x))
#define fcntl(...) (sp(), ::fcntl(__VA_ARGS__))
#define flock(fd, op) (sp(), ::flock(fd, op))
#define mkdir(...) (sp(), ::mkdir(__VA_ARGS__))
#define access(...) (sp(), ::access(__VA_ARGS__))
#define unlink(x) (sp(), ::unlink(x))
#define rename(a, b) (sp(), ::rename(a, b))
#define fopen(...) (sp(), ::fopen(__VA_ARGS__))
#define fread(...) (sp(), ::fread(__VA_ARGS__))
#define fwrite(...) (sp(), ::fwrite(__VA_ARGS__))
static int mclose(FILE* f) { sp(); return ::fclose(f); }
#define fclose mclose
#define opendir(...) (sp(), ::opendir(__VA_ARGS__))
#define readdir(...) (sp(), ::readdir(__VA_ARGS__))
#include "Distributed/FileStore.cpp"
#undef open
#undef close
#undef access
using tinytorch::distributed::FileStore;
using tinytorch::distributed::Store;
typedef std::vector<uint8_t> By;
static std::string dir() { return vfs_path("store"); }
static std::string bytes(const char* n, int64_t k) { std::string s; for (int64_t i = 0; i < k; i++) s.push_back((char)sym_u8(n)); return s; }
static By by(const std::string& s) { return By(s.begin(), s.end()); }
static const char* KEY[3] = {"a", "key.1", "b"};
static void same(const By& g, const std::string& w, const char* m) { CHECK(g.size() == w.size(), m); for (size_t i = 0; i < g.size(); i++) CHECK(g[i] == (uint8_t)w[i], m); }
static void whole(Store& s, const std::map<std::string, std::string>& m) {
  for (auto k : KEY) { bool has = m.count(k); CHECK(s.check({k}) == has, "check tells which keys exist"); if (has) same(s.get(k), m.at(k), "a get returns the bytes of the last set"); }
  CHECK(s.getNumKeys() == (int64_t)m.size(), "the number of keys");
}
// any sequence of operations by two store objects on one directory, against one map
HARNESS(map_ops) {
  begin(); FileStore s1(dir()), s2(dir()); std::map<std::string, std::string> m;
  int n = TIER == 2 ? 4 : 3;
  int flip = pick("who", 0, 1);
  for (int i = 0; i < n; i++) {
    FileStore& s = (i + flip) % 2 ? s2 : s1; std::string k = KEY[pick("key", 0, 1)];
    switch (pick("op", 0, 5)) {
      case 0: { std::string v = bytes("v", pick("len", 0, 2)); s.set(k, by(v)); m[k] = v; break; }
      case 1: static_cast<Store&>(s).set(k, std::string("4")); m[k] = "4"; break;
      case 2: { bool had = m.count(k); CHECK(s.deleteKey(k) == had, "delete tells whether the key existed"); m.erase(k); break; }
      case 3: { if (!m.count(k)) sym_assume(false); std::string w = m[k]; same(s.get(k), w, "a get returns the bytes of the last set"); std::string g = s.getString(k); same(by(g), w, "the text form of get"); break; }
      case 4: { int64_t cur = 0; if (m.count(k)) { if (m[k] == "4") cur = 4; else if (m[k] == "-3") cur = -3; else if (m[k] == "1") cur = 1; else sym_assume(false); } CHECK(s.add(k, -3) == cur - 3, "add returns the running sum"); m[k] = std::to_string(cur - 3); break; }
      default: { if (!m.count(k)) sym_assume(false); s.wait({k}); std::vector<std::string> ks = {KEY[0], KEY[1]}; CHECK(s.check(ks) == (m.count(KEY[0]) && m.count(KEY[1])), "check needs every key"); }
    }
  }
  whole(s1, m); whole(s2, m); END();
}
// any bytes come back
HARNESS(bytes_back) { begin(); FileStore s1(dir()), s2(dir()); std::string v = bytes("v", pick("len", 0, 6)), w = bytes("w", pick("len", 0, 3)); s1.set("a", by(v)); s2.set("key.1", by(w)); same(s2.get("a"), v, "bytes come back"); same(s1.get("key.1"), w, "bytes come back"); s2.set("a", by(w)); same(s1.get("a"), w, "the last set wins"); whole(s1, {{"a", w}, {"key.1", w}}); END(); }
HARNESS(sums) {
  begin(); FileStore s1(dir()), s2(dir()); int64_t x = sym_i64("x", TIER == 2 ? -120 : -12, TIER == 2 ? 120 : 12), y = sym_i64("y", -2, 2);
  CHECK(s1.add("a", x) == x, "a fresh counter starts at zero"); CHECK(s2.add("a", y) == x + y, "add returns the running sum"); CHECK(s1.add("a", 0) == x + y, "add returns the running sum"); END();
}
HARNESS(sums_large) {
  begin(); static const int64_t L[] = {INT64_MAX, INT64_MIN, INT64_MAX - 1, 1, -1, 0, 1000000007, -4611686018427387904LL}; FileStore s(dir());
  int64_t x = L[pick("x", 0, 7)], y = L[pick("y", 0, 7)], r = 0; if (__builtin_add_overflow(x, y, &r)) { END(); return; }
  CHECK(s.add("a", x) == x, "a fresh counter starts at zero"); CHECK(s.add("a", y) == r, "add returns the running sum"); CHECK(s.getString("a") == std::to_string(r), "the counter reads as decimal text"); END();
}
// a store opened on a directory of another store object's making, or on none
HARNESS(reopen) { begin(); std::string v = bytes("v", 3); { FileStore s(dir()); s.set("a", by(v)); s.add("b", 5); } FileStore t(dir()); whole(t, {{"a", v}, {"b", "5"}}); CHECK(t.deleteKey("a"), "deleted"); CHECK(!t.deleteKey("a"), "delete tells whether the key existed"); CHECK(!t.check({"a"}), "a deleted key is gone"); whole(t, {{"b", "5"}}); END(); }

// ---- two processes ----
static Store* A; static Store* B;
static void two() { A = new FileStore(dir()); B = new FileStore(dir()); }
static void finish(std::function<void()>& f) { if (other) { other = nullptr; nested = true; vfs_process(1); f(); vfs_process(0); nested = false; } }
static void inB(std::function<void()>& f) { other = &f; }
HARNESS(race_add) {
  begin(); two(); int64_t base = pick("base", 0, 2); if (base) A->add("a", base == 1 ? 10 : -1); base = base == 0 ? 0 : base == 1 ? 10 : -1; int64_t rb = 0;
  std::function<void()> f = [&] { rb = B->add("a", 5); }; inB(f);
  int64_t ra = A->add("a", 2); finish(f);
  CHECK((ra == base + 2 && rb == base + 7) || (rb == base + 5 && ra == base + 7), "concurrent adds return the running sum in some order"); CHECK(A->add("a", 0) == base + 7, "no add is lost"); END();
}
HARNESS(race_set_get) { // the reader waits for the key
  begin(); two(); std::string v = bytes("v", 2), old = bytes("old", 2); bool had = pick("had", 0, 1); if (had) A->set("a", by(old)); By g; bool ran = false;
  if (pick("reader", 0, 1)) { // the setter runs within the reader
    static std::function<void()> f; f = [&] { B->set("a", by(v)); }; inB(f);
    vfs_on_sleep([](int p) -> int64_t { sym_assume(p == 0); if (other) { auto q = other; other = nullptr; nested = true; vfs_process(1); (*q)(); vfs_process(0); nested = false; } return 10000000; });
    g = A->get("a"); bool before = other != nullptr; finish(f); CHECK(!before || had, "a get waits for the key"); if (before) same(g, old, "a get returns the bytes of a whole set"); else ran = true;
  } else {
    vfs_on_sleep([](int p) -> int64_t { sym_assume(p == 0); return 10000000; });
    std::function<void()> f = [&] { g = B->get("a"); }; inB(f); A->set("a", by(v)); bool late = other != nullptr; finish(f); if (late) same(g, v, "a get after a set returns its bytes"); else ran = true;
  }
  if (ran) { CHECK(g.size() == 2, "a get returns the bytes of a whole set"); bool isV = g[0] == (uint8_t)v[0] && g[1] == (uint8_t)v[1], isO = had && g[0] == (uint8_t)old[0] && g[1] == (uint8_t)old[1]; CHECK(isV || isO, "a get returns the bytes of a whole set"); }
  same(A->get("a"), v, "the last set wins"); END();
}
HARNESS(race_set_set) {
  begin(); two(); std::string v = bytes("v", pick("la", 0, 2)), w = bytes("w", pick("lb", 0, 2)); bool isB = false;
  std::function<void()> f = [&] { B->set("a", by(w)); }; inB(f); A->set("a", by(v)); isB = other != nullptr; finish(f);
  By g = A->get("a"); auto eq = [&](const std::string& s) { if (g.size() != s.size()) return false; bool e = true; for (size_t i = 0; i < s.size(); i++) e &= g[i] == (uint8_t)s[i]; return e; };
  if (isB) CHECK(eq(w), "the last set wins"); else CHECK(eq(v) || eq(w), "concurrent sets leave the bytes of one of them"); END();
}
HARNESS(race_delete) { // delete against get, set, add and check
  begin(); two(); A->set("a", std::vector<uint8_t>{'4'}); bool d = false; int op = pick("op", 0, 3); static int64_t slept; slept = 0;
  vfs_on_sleep([](int p) -> int64_t { slept++; return 200000000000LL; });
  std::function<void()> f = [&] { d = B->deleteKey("a"); }; inB(f); bool after = false;
  if (op == 0) { By g = A->get("a"); after = other != nullptr; finish(f); if (g.empty()) CHECK(slept >= 2, "a get returns nothing only after its timeout"); else CHECK(g.size() == 1 && g[0] == '4', "a get returns the bytes of a whole set"); CHECK(!A->check({"a"}), "a deleted key is gone"); CHECK(A->getNumKeys() == 0, "a deleted key is gone"); }
  if (op == 1) { A->set("a", std::vector<uint8_t>{'7', '8'}); after = other != nullptr; finish(f); if (after) CHECK(!A->check({"a"}), "a deleted key is gone"); else if (A->check({"a"})) same(A->get("a"), "78", "a get returns the bytes of a whole set"); }
  if (op == 2) { int64_t r = A->add("a", 2); after = other != nullptr; finish(f); CHECK(r == 6 || (!after && r == 2), "add returns the running sum"); if (after) CHECK(!A->check({"a"}), "a deleted key is gone"); else if (r == 2) same(A->get("a"), "2", "add stores the running sum"); else CHECK(!A->check({"a"}), "a deleted key is gone"); }
  if (op == 3) { bool c = A->check({"a"}); after = other != nullptr; finish(f); CHECK(c || !after, "check tells which keys exist"); }
  CHECK(d, "delete tells whether the key existed"); END();
}
// waiting
HARNESS(waits) {
  begin(); two(); static int at, n; static std::string* val; at = pick("at", 1, 3); n = 0; std::string v = bytes("v", 1); val = &v;
  vfs_on_sleep([](int p) -> int64_t { if (++n == at) { vfs_process(1); B->set("a", by(*val)); vfs_process(0); } return 10000000; });
  bool both = pick("wait", 0, 1); if (both) { A->wait({"a"}); CHECK(n == at, "wait returns once the key exists"); } By g = A->get("a"); CHECK(n == at, "get returns once the key exists"); same(g, v, "a get waits for the set"); END();
}
HARNESS(waits_all) {
  begin(); two(); static int n; n = 0;
  vfs_on_sleep([](int p) -> int64_t { n++; vfs_process(1); if (n == 1) B->set("b", std::string("1")); if (n == 2) B->set("a", std::string("2")); if (n == 3) B->set("key.1", std::string("3")); vfs_process(0); return 10000000; });
  A->wait({"a", "key.1", "b"}); CHECK(n == 3, "wait returns when every key exists"); END();
}
HARNESS(timeouts) { // five minutes, however time passes
  begin(); two(); static int64_t total; total = 0;
  vfs_on_sleep([](int p) -> int64_t { int64_t d = sym_i64("ns", 100000000000LL, 400000000000LL); total += d; return d; });
  if (pick("wait", 0, 1)) A->wait({"a"}); else { By g = A->get("a"); CHECK(g.empty(), "a get that times out returns nothing"); }
  CHECK(total > 300000000000LL, "no timeout before its time"); CHECK(A->getNumKeys() == 0, "waiting creates no key"); END();
}
// every name a file can have is a key of its own
HARNESS(keys) {
  begin(); static const std::string K[] = {"a", ".a", "..a", "a.", "A", "a b", "a.lock", ".lock", "key%2F", "a.tmp", "-1", "\xc3\xa9", std::string(120, 'k'), "*"}; const int N = 14; int i = (int)pick("first", 0, N - 1), j = (int)pick("second", 0, N - 1); sym_assume(i != j); FileStore s(dir()), t(dir()); std::string v = bytes("v", 2), w = bytes("w", 1);
  s.set(K[i], by(v)); CHECK(t.check({K[i]}) && !t.check({K[j]}), "only the key that was set exists"); t.set(K[j], by(w)); same(t.get(K[i]), v, "bytes come back"); same(s.get(K[j]), w, "bytes come back"); CHECK(s.getNumKeys() == 2, "the number of keys"); CHECK(s.check({K[i], K[j]}), "both exist");
  CHECK(t.deleteKey(K[i]), "deleted"); CHECK(!s.check({K[i]}) && s.check({K[j]}) && s.getNumKeys() == 1, "the other key stays"); CHECK(!s.deleteKey(K[i]), "a deleted key is gone"); CHECK(s.add(K[i], 7) == 7 && t.add(K[i], 2) == 9, "sums"); same(s.get(K[j]), w, "the other key keeps its bytes"); END();
}
