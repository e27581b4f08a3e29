// The real TCPStore (client, server and all of its threads) over modelled threads, locks, clock and sockets.
#include "coop.h"
#include "Distributed/TCPStore.h"
#include "Utils/Logger.h"
#include "Utils/Macros.h"
#define thread hthread
#define mutex hmutex
#define condition_variable hcv
#define steady_clock hclock
#define sleep_for hsleep
#define socket(a, b, c) net::socket_(a, b, c)
#define close net::close_
#define bind(a, b, c) net::bind_(a, b, c)
#define listen(a, b) net::listen_(a, b)
namespace tinytorch::distributed { namespace tcpmodel {} }
static int hconnect_(int fd, sockaddr* a, socklen_t n) { return net::connect_(fd, a, n); }
#define connect hconnect_
#define accept net::accept_
#define send net::send_
#define recv net::recv_
#define setsockopt net::setsockopt_
#define getsockopt net::getsockopt_
#define getaddrinfo net::getaddrinfo_
#define freeaddrinfo(x) (void)(x)
#define shutdown net::shutdown_
#define signal(a, b) (void)0
static long long yieldStoll(const std::string& s) { co::point(); return std::stoll(s); }
namespace std { static long long hstoll(const std::string& s) { return ::yieldStoll(s); } }
#define stoll hstoll
#include "Distributed/TCPStore.cpp"
#undef thread
#undef mutex
#undef send
#undef recv
#undef close
#undef connect
using tinytorch::distributed::TCPStore; using tinytorch::distributed::Store;
typedef std::vector<uint8_t> By; typedef std::chrono::milliseconds Ms;
typedef std::unique_ptr<TCPStore> SP;
static const int LATE = TIER == 2 ? 2 : 1;
static SP server(int64_t ms = 1000, int workers = -1, bool wait = false) { return std::make_unique<TCPStore>("localhost", (uint16_t)29500, true, wait, workers, Ms(ms)); }
static SP client(int64_t ms = 1000) { return std::make_unique<TCPStore>("localhost", (uint16_t)29500, false, false, -1, Ms(ms)); }
static By bytes(int64_t n) { By b; for (int64_t i = 0; i < n; i++) b.push_back(sym_u8("byte")); return b; }
static const char* KEY[2] = {"a", "key/2"};
static std::string dec(int64_t v) { return std::to_string(v); }
static By by(const std::string& s) { return By(s.begin(), s.end()); }
static void same(const By& g, const By& w, const char* m) { CHECK(g.size() == w.size(), m); for (size_t i = 0; i < w.size(); i++) CHECK(g[i] == w[i], m); }
// one client and the serving store, any operations, against a map
HARNESS(map_ops) {
  begin(); co::quiet = true; net::chunk = (size_t)pick("chunk", 0, 1) * 3; SP s = server(), c = client(); std::vector<std::pair<std::string, By>> m;
  auto find = [&](const std::string& k) { size_t i = 0; while (i < m.size() && m[i].first != k) i++; return i; };
  auto full = [&](Store& t) { for (auto k : KEY) { size_t i = find(k); CHECK(t.check({k}) == (i < m.size()), "check tells which keys exist"); if (i < m.size()) same(t.get(k), m[i].second, "a get returns the bytes of the last set"); } CHECK(t.getNumKeys() == (int64_t)m.size(), "the number of keys"); };
  int n = TIER == 2 ? 3 : 2; By num = by("7");
  for (int i = 0; i < n; i++) {
    Store& t = pick("who", 0, 1) ? *s : *c; std::string k = KEY[pick("key", 0, 1)]; size_t at = find(k);
    switch (pick("op", 0, 3)) {
      case 0: { By v = bytes(pick("len", 0, 2)); t.set(k, v); if (at == m.size()) m.push_back({k, v}); else m[at].second = v; break; }
      case 1: { if (at == m.size()) { CHECK(t.add(k, 5) == 5, "add to a missing key starts from zero"); m.push_back({k, by("5")}); } else if (m[at].second.size() == 1) { sym_assume(m[at].second[0] == '7'); m[at].second = num; CHECK(t.add(k, -9) == -2, "add returns the sum"); m[at].second = by("-2"); } else sym_assume(false); break; }
      case 2: { CHECK(t.deleteKey(k) == (at < m.size()), "delete tells whether the key was there"); if (at < m.size()) m.erase(m.begin() + at); break; }
      default: { bool have = !m.empty(); CHECK(t.check({KEY[0], KEY[1]}) == (m.size() == 2), "check asks for all keys"); if (have) t.wait({m[0].first}); break; }
    }
    full(t);
  }
  full(*c); c.reset(); full(*s); s.reset(); END();
}
// a transfer that is interrupted or has to be repeated, at any point, and short transfers
HARNESS(disturbed) {
  begin(); co::quiet = true; SP s = server(), c = client(); net::chunk = (size_t)pick("chunk", 0, 2); c->set("a", by("12")); int op = (int)pick("op", 0, 6); net::disturbance = pick("error", 0, 1) ? EINTR : EAGAIN; net::disturb = pick("at", 0, net::chunk ? 30 : 16);
  switch (op) {
    case 0: c->set("b", by("345")); break;
    case 1: same(c->get("a"), by("12"), "get"); break;
    case 2: CHECK(c->add("a", 30) == 42, "add"); break;
    case 3: CHECK(c->check({"a", "a"}) && !c->check({"a", "z"}), "check"); break;
    case 4: c->wait({"a"}); break;
    case 5: CHECK(c->deleteKey("a"), "delete"); break;
    default: CHECK(c->getNumKeys() == 1, "number of keys");
  }
  net::disturb = -1; CHECK(s->check({"a"}) == (op != 5) && s->check({"b"}) == (op == 0) && s->getNumKeys() == (op == 5 ? 0 : op == 0 ? 2 : 1), "the keys afterwards"); if (op == 0) same(s->get("b"), by("345"), "set"); if (op != 5) same(c->get("a"), by(op == 2 ? "42" : "12"), "the value afterwards"); END();
}
HARNESS(sums) { begin(); co::quiet = true; SP s = server(); static const int64_t E[] = {0, 1, -1, 9, 10, 4294967296ll, INT64_MAX, INT64_MIN}; int64_t x = E[pick("x", 0, 7)], y = E[pick("y", 0, 7)], z; sym_assume(!__builtin_add_overflow(x, y, &z)); CHECK(s->add("n", x) == x, "first add"); CHECK(s->add("n", y) == z, "running sum"); same(s->get("n"), by(dec(z)), "the sum is stored as text"); END(); }
// ---- operations of two clients at once: some order of the operations, respecting real time, explains all results
struct Op { int kind; std::string key; By val; int64_t delta = 0; bool ok = false; By got; int64_t num = 0; int start = 0, end = 0; };
static int tick;
static void perform(Store& s, Op& o) {
  o.start = ++tick;
  switch (o.kind) { case 0: s.set(o.key, o.val); break; case 1: o.num = s.add(o.key, o.delta); break; case 2: o.ok = s.deleteKey(o.key); break; case 3: o.ok = s.check({o.key}); break; case 4: o.got = s.get(o.key); break; default: o.num = s.getNumKeys(); }
  o.end = ++tick;
}
typedef std::vector<std::pair<std::string, By>> Map;
static bool equal(const By& a, const By& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i] != b[i]) return false; return true; }
static bool replayOp(Map& m, const Op& o) {
  size_t i = 0; while (i < m.size() && m[i].first != o.key) i++; bool has = i < m.size();
  switch (o.kind) {
    case 0: if (has) m[i].second = o.val; else m.push_back({o.key, o.val}); return true;
    case 1: { int64_t v = o.delta + (has ? atoll(std::string(m[i].second.begin(), m[i].second.end()).c_str()) : 0); if (has) m[i].second = by(dec(v)); else m.push_back({o.key, by(dec(v))}); return o.num == v; }
    case 2: if (has) m.erase(m.begin() + i); return o.ok == has;
    case 3: return o.ok == has;
    case 4: return has && equal(o.got, m[i].second);
    default: return o.num == (int64_t)m.size();
  }
}
static bool linear(std::vector<Op*> left, const Map& m, const std::function<bool(const Map&)>& fin) {
  if (left.empty()) return fin(m);
  for (size_t i = 0; i < left.size(); i++) {
    bool first = true; for (size_t j = 0; j < left.size(); j++) if (left[j]->end < left[i]->start) first = false;
    if (!first) continue;
    Map n = m; if (!replayOp(n, *left[i])) continue;
    std::vector<Op*> r = left; r.erase(r.begin() + i); if (linear(r, n, fin)) return true;
  }
  return false;
}
static Op anyOp(const char* nm, bool seeded) { Op o; o.kind = (int)pick(nm, 0, seeded ? 5 : 3); if (o.kind == 5 && !seeded) o.kind = 0; o.key = "k"; o.val = by("3"); o.delta = 4; return o; }
static void histories(int nb, int budget) {
  SP s = server(), a = client(), b = client(); bool seeded = pick("seeded", 0, 1); Map m0; if (seeded) { s->set("k", by("1")); m0.push_back({"k", by("1")}); }
  std::vector<Op> x(1, anyOp("a", seeded)), y; for (int i = 0; i < nb; i++) y.push_back(anyOp("b", seeded)); for (auto& o : y) { if (o.kind == 0) o.val = by("8"); o.delta = 20; }
  for (auto& o : x) sym_assume(o.kind != 4 || (y[0].kind != 2 && (nb < 2 || y[1].kind != 2))); for (auto& o : y) sym_assume(o.kind != 4 || x[0].kind != 2); if (nb == 2) sym_assume(y[0].kind != 2 || y[1].kind != 4);
  co::budget = budget; bool da = false, db = false;
  co::spawn([&] { for (auto& o : x) perform(*a, o); da = true; }); co::spawn([&] { for (auto& o : y) perform(*b, o); db = true; });
  co::block([&] { return da && db; }); co::budget = 0;
  Op fin; fin.key = "k"; std::vector<Op*> l; for (auto& o : x) l.push_back(&o); for (auto& o : y) l.push_back(&o);
  bool has = s->check({"k"}); By last; if (has) last = s->get("k"); int64_t n = s->getNumKeys();
  CHECK(linear(l, m0, [&](const Map& m) { return m.size() == (has ? 1u : 0u) && n == (int64_t)m.size() && (!has || equal(m[0].second, last)); }), "some order of the operations explains all of their results");
}
HARNESS(two_clients) { begin(); histories(1, TIER == 2 ? 2 : 1); END(); }
HARNESS(t_two_then_one) { begin(); histories(2, 1); END(); }
// ---- blocking requests
static int64_t ms() { return co::now / 1000000; }
// the waiter's keys appear one after the other, possibly vanishing in between: it is released as soon as all exist
HARNESS(waits) {
  begin(); SP s = server(1000), a = client(), b = client(); int form = (int)pick("form", 0, 2); int64_t t0 = ms();
  co::budget = LATE; bool da = false; int64_t at = -1; By got; bool ok = false;
  co::spawn([&] { if (form == 0) got = a->get("a"); else ok = a->client_->wait(form == 1 ? std::vector<std::string>{"a"} : std::vector<std::string>{"a", "b"}); at = ms(); da = true; });
  bool add = pick("by add", 0, 1); auto put = [&](const char* k) { if (add) b->add(k, 5); else b->set(k, by("5")); };
  int plan = (int)pick("plan", 0, 3);
  if (plan >= 1) std::this_thread::hsleep(Ms(10));
  if (form == 2) { if (plan == 3) { put("a"); b->deleteKey("a"); put("b"); std::this_thread::hsleep(Ms(10)); } else { put("b"); if (plan == 2) std::this_thread::hsleep(Ms(10)); } CHECK(!da, "a wait does not return before all keys exist"); }
  else if (plan == 3) { put("b"); std::this_thread::hsleep(Ms(10)); CHECK(!da, "a request is not answered before its key exists"); }
  put("a"); int64_t t1 = ms(); co::budget = 0; co::block([&] { return da; });
  CHECK(at - t1 <= 1 && at - t0 < 900, "a blocked request is answered when its keys exist"); if (form == 0) same(got, by("5"), "a blocked get returns the value"); else CHECK(ok, "the wait succeeds");
  CHECK(a->check({"a"}) && a->getNumKeys() == (form == 2 || plan == 3 ? 2 : 1), "the waiting client goes on afterwards"); END();
}
// several keys that arrive in any order, some before the wait begins
HARNESS(waits_any_order) {
  begin(); SP s = server(1000), a = client(), b = client(); static const int P[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; static const char* k[3] = {"a", "b", "c"}; const int* p = P[pick("order", 0, 5)]; int before = (int)pick("before", 0, 2); bool slow = pick("slow", 0, 1);
  for (int i = 0; i < before; i++) b->set(k[p[i]], by("1")); bool da = false, ok = false; int64_t at = -1; co::spawn([&] { ok = a->client_->wait({"a", "b", "c"}); at = ms(); da = true; }); std::this_thread::hsleep(Ms(10));
  for (int i = before; i < 3; i++) { CHECK(!da, "a wait does not return before all keys exist"); b->set(k[p[i]], by("1")); if (i < 2 && slow) std::this_thread::hsleep(Ms(10)); }
  int64_t t1 = ms(); co::block([&] { return da; }); CHECK(ok && at - t1 <= 1, "a blocked request is answered when its keys exist"); END();
}
// several clients wait for the same key
HARNESS(waits_shared) {
  begin(); SP s = server(1000), a = client(), b = client(), c = client(); bool same2 = pick("get", 0, 1); bool da = false, db = false, oa = false, ob = false; int64_t at = -1, bt = -1;
  co::spawn([&] { oa = a->client_->wait({"x"}); at = ms(); da = true; }); co::spawn([&] { if (same2) ob = b->get("x") == by("5"); else ob = b->client_->wait({"y", "x"}); bt = ms(); db = true; }); std::this_thread::hsleep(Ms(10)); if (!same2) c->set("y", by("1")); std::this_thread::hsleep(Ms(10)); CHECK(!da && !db, "a wait does not return before its keys exist");
  c->set("x", by("5")); int64_t t1 = ms(); co::block([&] { return da && db; }); CHECK(oa && ob && at - t1 <= 1 && bt - t1 <= 1, "every client waiting for the key is answered"); END();
}
// a key that vanishes again before the waiter has looked does not end later waits
HARNESS(waits_vanishing) {
  begin(); SP s = server(1000), a = client(), b = client(); bool get = pick("get", 0, 1); bool da = false; int64_t at = -1; By got; bool ok = false;
  co::spawn([&] { if (get) got = a->get("a"); else ok = a->client_->wait({"a"}); at = ms(); da = true; });
  std::this_thread::hsleep(Ms(10)); co::budget = LATE; b->set("a", by("1")); b->deleteKey("a"); co::budget = 0; std::this_thread::hsleep(Ms(10));
  if (!da) { b->set("a", by("2")); int64_t t1 = ms(); co::block([&] { return da; }); CHECK(at - t1 <= 1, "a blocked request is answered when its key exists again"); if (get) same(got, by("2"), "it returns the value set last"); else CHECK(ok, "the wait succeeds"); }
  else if (get) same(got, by("1"), "it returns the value"); else CHECK(ok, "the wait succeeds");
  END();
}
// nothing sets the key: the request ends at the timeout and the client goes on working
HARNESS(timeouts) {
  begin(); int64_t limit = pick("limit", 1, 2) * 100; SP s = server(limit), a = client(); int form = (int)pick("form", 0, 2); if (form == 2) s->set("a", by("1")); int64_t t0 = ms(); bool ok = true; By got;
  co::budget = LATE; bool da = false; co::spawn([&] { if (form == 0) got = a->get("a"); else ok = a->client_->wait(form == 1 ? std::vector<std::string>{"a"} : std::vector<std::string>{"a", "b"}); da = true; }); co::block([&] { return da; }); co::budget = 0;
  CHECK(ms() - t0 >= limit && ms() - t0 <= limit + 5, "a request whose keys never exist ends at the timeout"); if (form == 0) CHECK(got.empty(), "a get that timed out returns nothing"); else CHECK(!ok, "a wait that timed out fails");
  a->set("c", by("3")); same(s->get("c"), by("3"), "the client goes on afterwards"); CHECK(a->getNumKeys() == (form == 2 ? 2 : 1), "the number of keys afterwards"); END();
}
// no timeout: it waits as long as it takes
HARNESS(no_timeout) {
  begin(); SP s = server(0), a = client(), b = client(); bool get = pick("get", 0, 1), da = false; By got; bool ok = false;
  co::spawn([&] { if (get) got = a->get("a"); else ok = a->client_->wait({"a"}); da = true; }); std::this_thread::hsleep(Ms(5000)); CHECK(!da, "a request without timeout goes on waiting"); co::budget = LATE; b->set("a", by("1")); co::budget = 0; int64_t t = ms(); co::block([&] { return da; });
  CHECK(ms() - t <= 1, "answered when the key exists"); if (get) same(got, by("1"), "value"); else CHECK(ok, "the wait succeeds"); END();
}
// idle clients keep their connection, and later ones are accepted
HARNESS(idle) {
  begin(); SP s = server(100), a = client(), b; co::quiet = true; std::this_thread::hsleep(Ms(pick("long", 0, 1) ? 40000 : 2500)); co::quiet = false; a->set("a", by("1")); b = client(); CHECK(b->add("a", 2) == 3 && a->add("a", 1) == 4 && s->add("a", 1) == 5, "clients are served after a long time without requests"); END();
}
// many clients, one after the other: each of them is served
HARNESS(many_clients) {
  begin(); co::quiet = true; SP s = server(100); int n = 132; for (int i = 0; i < n; i++) { SP a = client(); CHECK(a->add("n", 1) == i + 1, "every client is served"); a.reset(); if (i % 8 == 0) std::this_thread::hsleep(Ms(10)); } CHECK(s->add("n", 1) == n + 1, "count"); END();
}
// a failed start leaves nothing behind
HARNESS(second_server) {
  begin(); SP s = server(100), a = client(); { SP t = server(100); } std::this_thread::hsleep(Ms(10)); a->set("a", by("1")); same(s->get("a"), by("1"), "the first server goes on"); END();
}
// nobody listens: the client fails within its time limit
HARNESS(no_server) {
  begin(); int64_t t0 = ms(); SP a = client(300); CHECK(ms() - t0 <= 20000, "connecting ends"); CHECK(!a->check({"k"}), "no answer without a server"); CHECK(a->get("k").empty(), "no value without a server"); a->set("k", by("1")); END();
}
HARNESS(workers) {
  begin(); int n = (int)pick("expected", 1, 3), come = (int)pick("come", 0, 2); co::budget = LATE; std::vector<SP> c; bool up = false, done = false; SP s; int64_t t0 = ms(), t1 = -1;
  co::spawn([&] { s = server(200, n, true); t1 = ms(); done = true; });
  for (int i = 0; i < come; i++) { std::this_thread::hsleep(Ms(20)); CHECK(i + 1 >= n || !done, "the server waits for all workers"); c.push_back(client()); }
  co::block([&] { return done; }); co::budget = 0; up = come + 1 >= n;
  CHECK(up ? t1 - t0 < 100 : t1 - t0 >= 200 && t1 - t0 < 230, "it goes on when all workers are there, or at the timeout"); CHECK(s->server_->getRegisteredWorkers() == come + 1, "the number of workers");
  if (come) { c.pop_back(); std::this_thread::hsleep(Ms(10)); CHECK(s->server_->getRegisteredWorkers() == come, "a worker that leaves is no longer counted"); } END();
}
// ---- broken and malformed clients
static int raw() { int fd = net::socket_(0, 0, 0); sockaddr_in sa{}; sa.sin_port = htons(29500); CHECK(net::connect_(fd, (sockaddr*)&sa, sizeof sa) == 0, "connects"); return fd; }
static void after(TCPStore& s, int64_t keys) { SP c = client(); c->set("x", by("42")); same(c->get("x"), by("42"), "the server serves other clients"); same(s.get("x"), by("42"), "the server serves its own client"); CHECK(s.getNumKeys() == keys + 1, "a broken message stores nothing"); }
// sizes up to 13 and from 4096 (the block the server reads at once) to the largest
static void someSize(uint64_t s) { sym_assume(s < 14 || s >= 4096); }
// every command byte with every 64-bit size field, followed by up to 12 bytes and the end of the connection
HARNESS(malformed) {
  begin(); co::quiet = true; SP s = server(100); uint8_t cmd = (uint8_t)pick("command", 0, 12); uint64_t size = sym_u64("size"); static const int REST[] = {0, 2, 8, 9, 12}; int64_t rest = REST[pick("bytes", 0, TIER == 2 ? 4 : 2)]; someSize(size); By tail = bytes(rest < 1 ? rest : 1); tail.resize(rest, 0); if (rest) sym_assume(tail[0] < 4 || tail[0] == 200);
  int fd = raw(); std::string msg; msg.push_back((char)cmd); msg.append((const char*)&size, 8); for (auto b : tail) msg.push_back((char)b);
  int form = (int)pick("form", 0, 1);
  // a whole message is a legitimate one
  if (cmd == 0) sym_assume(form == 0 && size > (uint64_t)rest); else if (cmd == 2) sym_assume(rest < 8 || size > (uint64_t)(rest - 8)); else if (cmd >= 6 && cmd <= 8) sym_assume((size & 255) > 8);
  net::send_(fd, msg.data(), msg.size(), 0); if (form == 0) { net::close_(fd); std::this_thread::hsleep(Ms(10)); } else std::this_thread::hsleep(Ms(10));
  after(*s, 0); END();
}
HARNESS(malformed_set) {
  begin(); co::quiet = true; SP s = server(100); uint64_t size = sym_u64("size"); someSize(size); int64_t rest = pick("bytes", 0, 3); sym_assume(size > (uint64_t)rest); By tail = bytes(rest); uint64_t one = 1;
  int fd = raw(); std::string msg; msg.push_back(0); msg.append((const char*)&one, 8); msg += "k"; msg.append((const char*)&size, 8); for (auto b : tail) msg.push_back((char)b);
  net::send_(fd, msg.data(), msg.size(), 0); net::close_(fd); std::this_thread::hsleep(Ms(10)); after(*s, 0); END();
}
HARNESS(malformed_keys) {
  begin(); co::quiet = true; SP s = server(100); s->set("k", by("1")); uint64_t n = sym_u64("count"), size = sym_u64("size"), one = 1; someSize(size); int64_t rest = pick("bytes", 0, 2); sym_assume(n > 2 || size > 2); 
  int fd = raw(); std::string msg; msg.push_back(pick("wait", 0, 1) ? 4 : 3); msg.append((const char*)&n, 8); msg.append((const char*)&one, 8); msg += "k"; msg.append((const char*)&size, 8); for (auto b : bytes(rest)) msg.push_back((char)b);
  net::send_(fd, msg.data(), msg.size(), 0); net::close_(fd); std::this_thread::hsleep(Ms(200)); after(*s, 1); END();
}
// add to a value that is no number is refused without harm to the others
HARNESS(add_text) {
  begin(); co::quiet = true; SP s = server(100), c = client(); By v = bytes(pick("len", 1, 2)); for (auto b : v) sym_assume(b < '0' || b > '9'); c->set("k", v); c->add("k", 1); same(s->get("k"), v, "the value is kept"); after(*s, 1); END();
}
// a connection that breaks while its request is blocked: nobody else receives its answer
HARNESS(broken_connection) {
  begin(); SP s = server(700), b; int fd = raw(); bool wait = pick("wait", 0, 1); uint64_t one = 1; std::string msg; msg.push_back(wait ? 4 : 1); if (wait) msg.append((const char*)&one, 8); msg.append((const char*)&one, 8); msg += "k";
  net::send_(fd, msg.data(), msg.size(), 0); std::this_thread::hsleep(Ms(10)); net::hang(net::of(fd), pick("reset", 0, 1)); net::fds[fd] = nullptr; co::budget = LATE; std::this_thread::hsleep(Ms(600));
  SP c = client(), d = client(); std::this_thread::hsleep(Ms(300)); co::budget = 0; c->set("x", by("42")); CHECK(c->check({"x"}) && !c->check({"y"}) && d->check({"x"}), "answers belong to their own request"); same(d->get("x"), by("42"), "value"); CHECK(d->getNumKeys() == 1, "number of keys"); END();
}
// the server goes away while clients are idle or blocked: requests end, and no thread touches what is gone
HARNESS(server_ends) {
  begin(); SP s = server(1000), a = client(), b = client(); int form = (int)pick("form", 0, 3); bool da = form == 3; if (form == 1) s->set("k", by("1"));
  if (form < 3) co::spawn([&] { if (form == 0) a->get("k2"); else if (form == 1) a->get("k"); else a->wait({"k2"}); da = true; }); if (pick("later", 0, 1)) std::this_thread::hsleep(Ms(10));
  co::budget = LATE; s.reset(); co::budget = 0; co::block([&] { return da; }); std::this_thread::hsleep(Ms(1500)); CHECK(!b->check({"k"}) , "a client without server gets no answer"); a.reset(); b.reset(); std::this_thread::hsleep(Ms(3000)); END();
}
