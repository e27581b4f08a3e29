// Cooperative threads for harnesses: the library's thread, mutex, condition-variable, clock and socket uses are renamed to
// these stand-ins when its source is included.  At each of them the solver's choice decides who runs next, so every
// interleaving at those points with at most `budget` deviations from a round robin of threads that run until they block is explored.
#pragma once
#include "common.h"
#include <arpa/inet.h>
#include <errno.h>
#include <netdb.h>
#include <netinet/in.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <csignal>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
namespace co {
struct Th { std::function<void()> body; std::function<bool()> ready; int64_t deadline = -1; bool waits = false, done = false; };
static std::vector<Th*>& all() { static std::vector<Th*> v(1, new Th); return v; }
static int cur, budget, idle; static int64_t now = 1000000000; static bool quiet;
static bool runnable(Th* t) { return !t->done && (!t->waits || (t->ready && t->ready()) || (t->deadline >= 0 && now >= t->deadline)); }
static void go(int i) { if (i == cur) return; cur = i; thr_switch(i); }
// the others that could run, in the order of a round robin after the running one
static std::vector<int> others() { std::vector<int> c; int n = (int)all().size(); for (int k = 1; k <= n; k++) { int i = (cur + k) % n; if ((k < n || all()[i]->waits) && runnable(all()[i])) c.push_back(i); } return c; }
// the running thread cannot go on: the next one does, or another one at the price of one unit of the budget
static void other() {
  for (;;) {
    std::vector<int> c = others();
    if (!c.empty()) { idle = 0; int64_t k = c.size() == 1 || quiet || budget <= 0 ? 0 : pick("run", 0, (int64_t)c.size() - 1); if (k) budget--; go(c[k]); return; }
    int64_t m = -1; for (auto t : all()) if (!t->done && t->waits && t->deadline >= 0 && (m < 0 || t->deadline < m)) m = t->deadline;
    CHECK(m >= 0 && ++idle < 300 && m < 200000000000, "no thread can ever go on"); now = m;
  }
}
// a thread that could go on may be preempted here
static void point() {
  if (budget <= 0 || quiet) return;
  std::vector<int> c = others(); if (c.empty()) return;
  int64_t k = pick("preempt", 0, (int64_t)c.size()); if (k == 0) return;
  budget--; go(c[k - 1]);
}
// wait until ready() or until the deadline; false when the deadline came first
template <class F> static bool block(F ready, int64_t deadline = -1) {
  Th* t = all()[cur];
  while (!ready()) {
    if (deadline >= 0 && now >= deadline) return false;
    t->waits = true; t->ready = ready; t->deadline = deadline; other(); t->waits = false; t->ready = nullptr;
  }
  return true;
}
static void entry(void* p) { Th* t = (Th*)p; t->body(); t->body = nullptr; t->done = true; other(); }
static int spawn(std::function<void()> f) { Th* t = new Th; t->body = std::move(f); all().push_back(t); int id = thr_new(entry, t); point(); return id; }
static void join(int id) { Th* t = all()[id]; block([t] { return t->done; }); }
}
namespace std {
class hmutex { public: bool held = false; void lock() { co::point(); co::block([this] { return !held; }); held = true; } bool try_lock() { co::point(); if (held) return false; held = true; return true; } void unlock() { CHECK(held, "a mutex is unlocked only while locked"); held = false; } ~hmutex() { CHECK(!held, "a mutex is not destroyed while locked"); } };
class hcv {
  std::vector<bool*> w;
 public:
  ~hcv() { for (auto p : w) CHECK(*p, "a condition variable is not destroyed while waited on"); }
  void notify_all() noexcept { for (auto p : w) *p = true; w.clear(); co::point(); }
  void notify_one() noexcept { if (!w.empty()) { *w[0] = true; w.erase(w.begin()); } co::point(); }
  template <class L> bool sleep(L& l, int64_t dl) { bool* f = new bool(false); w.push_back(f); l.unlock(); bool r = co::block([f] { return *f; }, dl); if (!r) w.erase(std::remove(w.begin(), w.end(), f), w.end()); delete f; l.lock(); return r; }
  template <class L> void wait(L& l) { sleep(l, -1); }
  template <class L, class P> void wait(L& l, P p) { while (!p()) sleep(l, -1); }
  template <class L, class C, class D> cv_status wait_until(L& l, const chrono::time_point<C, D>& t) { return sleep(l, chrono::duration_cast<chrono::nanoseconds>(t.time_since_epoch()).count()) ? cv_status::no_timeout : cv_status::timeout; }
  template <class L, class C, class D, class P> bool wait_until(L& l, const chrono::time_point<C, D>& t, P p) { while (!p()) if (wait_until(l, t) == cv_status::timeout) return p(); return true; }
  template <class L, class R, class D> cv_status wait_for(L& l, const chrono::duration<R, D>& d) { return sleep(l, co::now + chrono::duration_cast<chrono::nanoseconds>(d).count()) ? cv_status::no_timeout : cv_status::timeout; }
  template <class L, class R, class D, class P> bool wait_for(L& l, const chrono::duration<R, D>& d, P p) { int64_t e = co::now + chrono::duration_cast<chrono::nanoseconds>(d).count(); while (!p()) if (!sleep(l, e)) return p(); return true; }
};
class hthread {
  int id = -1;
 public:
  hthread() noexcept {}
  template <class F, class... A, class = enable_if_t<!is_same_v<decay_t<F>, hthread>>> explicit hthread(F&& f, A&&... a) { auto t = make_shared<tuple<decay_t<A>...>>(std::forward<A>(a)...); decay_t<F> g(std::forward<F>(f)); id = co::spawn([g, t]() mutable { std::apply([&](auto&... x) { std::invoke(g, x...); }, *t); }); }
  hthread(hthread&& o) noexcept : id(o.id) { o.id = -1; }
  hthread& operator=(hthread&& o) noexcept { CHECK(id < 0, "a running thread is not overwritten"); id = o.id; o.id = -1; return *this; }
  ~hthread() { CHECK(id < 0, "a running thread's handle is not destroyed"); }
  bool joinable() const noexcept { return id >= 0; }
  void join() { CHECK(id >= 0, "a thread is joined once"); co::join(id); id = -1; }
  void detach() { CHECK(id >= 0, "a thread that was never started is not detached"); id = -1; }
  int get_id() const noexcept { return id; }
};
namespace this_thread { template <class R, class P> void hsleep(const chrono::duration<R, P>& d) { co::block([] { return false; }, co::now + chrono::duration_cast<chrono::nanoseconds>(d).count()); } inline int hget_id() { return co::cur; } }
namespace chrono { struct hclock { typedef nanoseconds duration; typedef duration::rep rep; typedef duration::period period; typedef chrono::time_point<hclock> time_point; static constexpr bool is_steady = true; static time_point now() noexcept { return time_point(duration(co::now)); } }; }
}
// ---- sockets: descriptors are reused lowest first, as POSIX says
namespace net {
struct So { std::string in; size_t at = 0; So* peer = nullptr; bool listening = false, closed = false, eof = false, shut = false; int err = 0, port = 0; int64_t rcv = -1; std::vector<So*> backlog; };
static int64_t limit(So* s) { return s->rcv < 0 ? -1 : co::now + s->rcv; }
static So* fds[64]; static size_t chunk; static int64_t disturb = -1; static int disturbance;
// the given transfer from now fails once, without having moved anything
static bool disturbed() { if (disturb < 0 || disturb-- > 0) return false; errno = disturbance; return true; }
static So* of(int fd) { return fd >= 0 && fd < 64 ? fds[fd] : nullptr; }
static int put(So* s) { for (int i = 5; i < 64; i++) if (!fds[i]) { fds[i] = s; return i; } return -1; }
static So* listener(int port) { for (auto s : fds) if (s && s->listening && s->port == port && !s->shut) return s; return nullptr; }
static void hang(So* s, bool reset) { if (s->closed) return; s->closed = true; if (s->peer) { s->peer->eof = true; if (reset || s->at < s->in.size()) s->peer->err = ECONNRESET; } for (auto b : s->backlog) b->peer->eof = true; }
static int socket_(int, int, int) { return put(new So); }
static int close_(int fd) { co::point(); So* s = of(fd); if (!s) { errno = EBADF; return -1; } fds[fd] = nullptr; hang(s, false); return 0; }
static int bind_(int fd, const sockaddr* a, socklen_t) { So* s = of(fd); int p = ntohs(((const sockaddr_in*)a)->sin_port); for (auto q : fds) if (q && q->listening && q->port == p) { errno = EADDRINUSE; return -1; } s->port = p; return 0; }
static int listen_(int fd, int) { of(fd)->listening = true; return 0; }
static int connect_(int fd, const sockaddr* a, socklen_t) { co::point(); So *s = of(fd), *l = listener(ntohs(((const sockaddr_in*)a)->sin_port)); if (!s || !l) { errno = ECONNREFUSED; return -1; } So* o = new So; o->peer = s; s->peer = o; l->backlog.push_back(o); return 0; }
static int accept_(int fd, sockaddr*, socklen_t*) { co::point(); So* s = of(fd); if (!s) { errno = EBADF; return -1; } if (!co::block([s] { return !s->backlog.empty() || s->shut; }, limit(s))) { errno = EAGAIN; return -1; } if (s->shut) { errno = EINVAL; return -1; } So* c = s->backlog[0]; s->backlog.erase(s->backlog.begin()); return put(c); }
static ssize_t send_(int fd, const void* p, size_t n, int) {
  co::point(); So* s = of(fd); if (!s) { errno = EBADF; return -1; } if (disturbed()) return -1;
  if (s->err) { int e = s->err; s->err = 0; errno = e; return -1; }
  if (s->shut || !s->peer) { errno = EPIPE; return -1; } if (n == 0) return 0;
  if (s->peer->closed) { s->err = EPIPE; return (ssize_t)n; }
  if (chunk && n > chunk) n = chunk;
  s->peer->in.append((const char*)p, n); return (ssize_t)n;
}
static ssize_t recv_(int fd, void* p, size_t n, int) {
  co::point(); So* s = of(fd); if (!s) { errno = EBADF; return -1; } if (n == 0) return 0; if (disturbed()) return -1;
  if (!co::block([s] { return s->at < s->in.size() || s->eof || s->err || s->shut; }, limit(s))) { errno = EAGAIN; return -1; }
  if (s->err) { int e = s->err; s->err = 0; errno = e; return -1; }
  size_t k = s->in.size() - s->at; if (k == 0) return 0; if (k > n) k = n; if (chunk && k > chunk) k = chunk;
  memcpy(p, s->in.data() + s->at, k); s->at += k; return (ssize_t)k;
}
static int shutdown_(int fd, int) { co::point(); So* s = of(fd); if (!s) { errno = EBADF; return -1; } s->shut = true; if (s->peer) s->peer->eof = true; return 0; }
static int setsockopt_(int fd, int, int o, const void* v, socklen_t) { So* s = of(fd); if (!s) { errno = EBADF; return -1; } if (o == SO_RCVTIMEO) { const timeval* t = (const timeval*)v; int64_t n = (int64_t)t->tv_sec * 1000000000 + (int64_t)t->tv_usec * 1000; s->rcv = n ? n : -1; } return 0; }
static int getsockopt_(int fd, int, int, void* v, socklen_t*) { So* s = of(fd); if (!s) { errno = EBADF; return -1; } *(int*)v = s->err; s->err = 0; return 0; }
static int getaddrinfo_(const char*, const char*, const addrinfo*, addrinfo** r) { static sockaddr_in sa; static addrinfo ai; memset(&sa, 0, sizeof sa); memset(&ai, 0, sizeof ai); sa.sin_family = AF_INET; ai.ai_addr = (sockaddr*)&sa; *r = &ai; return 0; }
}
