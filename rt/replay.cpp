// Native side of the harness interface: feeds a recorded assignment to the harness run against the real code.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <csignal>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <dlfcn.h>
#include <random>
#include <chrono>
#include <time.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <pthread.h>
#include <semaphore.h>
struct In { std::string name; int w, real; uint64_t v; };
static std::vector<In> ins; static size_t pos; static int trapOk, realMode, havoc; static uint64_t draws; static std::string dir;
static void done(int rc, const char* what) { fflush(stdout); fprintf(stderr, "REPLAY-%s: %s\n", rc == 0 ? "OK" : rc == 10 ? "VIOLATION" : "DIVERGED", what); fflush(stderr); _exit(rc); }
static uint64_t next(const char* nm, int w) {
  std::string ns(nm); for (auto& ch : ns) if (ch == ' ') ch = '_'; const char* n = ns.c_str();
  while (pos < ins.size() && ins[pos].name == "random_device" && strcmp(n, "random_device")) pos++;
  if (pos >= ins.size()) { if (getenv("REPLAY_STRICT")) done(3, "inputs exhausted"); return 0; }
  In& i = ins[pos++];
  if (i.name != ns) { fprintf(stderr, "wanted %s got %s\n", n, i.name.c_str()); done(3, "input order differs"); }
  (void)w;
  return i.v;
}
extern "C" {
int64_t sym_i64(const char* n, int64_t lo, int64_t hi) { if (lo == hi) return lo; int64_t v = (int64_t)next(n, 64); if (v < lo) v = lo; if (v > hi) v = hi; return v; }
int32_t sym_i32(const char* n, int32_t lo, int32_t hi) { if (lo == hi) return lo; int32_t v = (int32_t)next(n, 32); if (v < lo) v = lo; if (v > hi) v = hi; return v; }
uint8_t sym_u8(const char* n) { return (uint8_t)next(n, 8); }
uint16_t sym_u16(const char* n) { return (uint16_t)next(n, 16); }
uint32_t sym_u32(const char* n) { return (uint32_t)next(n, 32); }
uint64_t sym_u64(const char* n) { return next(n, 64); }
float sym_f32(const char* n) { uint32_t u = (uint32_t)next(n, 32); float f; memcpy(&f, &u, 4); return f; }
double sym_f64(const char* n) { uint64_t u = next(n, 64); double f; memcpy(&f, &u, 8); return f; }
float sym_f32_range(const char* n, float, float) { return sym_f32(n); }
int64_t sym_concretize(int64_t v) { return v; }
void sym_assume(bool c) { if (!c) done(4, "assumption not satisfied"); }
void sym_assert_(bool c, const char* m) { if (!c) done(10, m); }
void sym_assert_eq_f32(float a, float b, const char* m) {
  if (std::isnan(a) || std::isnan(b)) { if (std::isnan(a) != std::isnan(b)) done(10, m); return; }
  if (!realMode) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); if (x != y) { fprintf(stderr, "%.9g != %.9g\n", a, b); done(10, m); } return; }
  if (std::isinf(a) || std::isinf(b)) { if (a != b) done(10, m); return; }
  if (fabs((double)a - b) > 1e-3 * (1 + fabs((double)b))) { fprintf(stderr, "%.9g != %.9g\n", a, b); done(10, m); }
}
void sym_assert_eq_f64(double a, double b, const char* m) {
  if (std::isnan(a) || std::isnan(b)) { if (std::isnan(a) != std::isnan(b)) done(10, m); return; }
  if (!realMode) { if (memcmp(&a, &b, 8)) done(10, m); return; }
  if (std::isinf(a) || std::isinf(b)) { if (a != b) done(10, m); return; }
  if (fabs(a - b) > 1e-3 * (1 + fabs(b))) done(10, m);
}
void sym_trap_policy(int p) { trapOk = p; }
void sym_reach(const char*) {}
void sym_real_mode() { realMode = 1; }
int sym_is_symbolic_run() { return 0; }
uint64_t sym_heap_blocks() { return 0; }
void sym_debug_i64(const char* n, int64_t v) { fprintf(stderr, "[dbg] %s=%lld\n", n, (long long)v); }
void sym_debug_f32(const char* n, float v) { fprintf(stderr, "[dbg] %s=%g\n", n, v); }
bool sym_fork(bool c) { return c; }
uint32_t sym_ite32(bool c, uint32_t a, uint32_t b) { return c ? a : b; }
uint64_t sym_ite64(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
const char* vfs_path(const char* n) { static std::string keep[8]; static int k; std::string& s = keep[k++ & 7]; s = dir + "/" + n; return s.c_str(); }
static int64_t limit = -1;
void vfs_put(const char* n, const void* d, size_t sz) { FILE* f = fopen(vfs_path(n), "wb"); if (f) { fwrite(d, 1, sz, f); fclose(f); } }
int64_t vfs_size(const char* n) { FILE* f = fopen(vfs_path(n), "rb"); if (!f) return -1; fseek(f, 0, SEEK_END); long r = ftell(f); fclose(f); return r; }
void vfs_get(const char* n, void* o, size_t sz) { FILE* f = fopen(vfs_path(n), "rb"); if (f) { if (fread(o, 1, sz, f) != sz) {} fclose(f); } }
void vfs_fail_writes_after(int64_t b) { limit = b; signal(SIGXFSZ, SIG_IGN); struct rlimit r; getrlimit(RLIMIT_FSIZE, &r); r.rlim_cur = b < 0 ? r.rlim_max : (rlim_t)b; setrlimit(RLIMIT_FSIZE, &r); }
void* replay_mmap(void*, size_t n, int, int, int fd, off_t at) { struct stat st; if (n == 0 || fstat(fd, &st) < 0) return MAP_FAILED; size_t got = 0; char* p = (char*)malloc(n); if (!p) return MAP_FAILED; while (got < n) { ssize_t k = pread(fd, p + got, n - got, at + got); if (k <= 0) break; got += k; } return p; }
int replay_munmap(void* p, size_t) { free(p); return 0; }
static int vproc; static int64_t (*vsleep)(int); static int64_t vnow = 1000000000;
void vfs_process(int p) { vproc = p; }
void vfs_on_sleep(int64_t (*f)(int)) { vsleep = f; }
int nanosleep(const struct timespec*, struct timespec*) { if (vsleep) vnow += vsleep(vproc); return 0; }
void rng_havoc(int on) { havoc = on; draws = 0; }
uint64_t rng_draws() { return draws; }
// each cooperative thread is a real one that waits for its turn
struct Coop { sem_t s; void (*f)(void*); void* a; }; static Coop coop[1200]; static int coopN = 1, coopCur;
static void* coopRun(void* p) { Coop* c = (Coop*)p; sem_wait(&c->s); c->f(c->a); done(3, "a thread's function returned"); return 0; }
int thr_new(void (*f)(void*), void* a) { int i = coopN++; coop[i].f = f; coop[i].a = a; sem_init(&coop[i].s, 0, 0); pthread_t t; if (pthread_create(&t, 0, coopRun, &coop[i])) done(3, "no thread"); return i; }
void thr_switch(int id) { if (id == coopCur) return; static bool first = true; if (first) { first = false; sem_init(&coop[0].s, 0, 0); } int was = coopCur; coopCur = id; sem_post(&coop[id].s); sem_wait(&coop[was].s); }
unsigned long symx_lcg(unsigned long* s) {
  draws++;
  if (havoc) { unsigned long v = next("rng", 64); if (v < 1) v = 1; if (v > 2147483646) v = 2147483646; *s = v; return v; }
  *s = (*s * 16807UL) % 2147483647UL; return *s;
}
}
static unsigned rdnext() { return (unsigned)next("random_device", 32); }
static bool g_started = false;
extern "C" void* aligned_alloc(size_t al, size_t n) { void* p = nullptr; return posix_memalign(&p, al < sizeof(void*) ? sizeof(void*) : al, n) == 0 ? p : nullptr; }
unsigned int std::random_device::_M_getval() { return g_started ? (unsigned)::rdnext() : 12345u; }
static void onTrap(int) { if (trapOk) _exit(0); const char m[] = "REPLAY-VIOLATION: assertion trap (int3)\n"; if (write(2, m, sizeof m - 1)) {} _exit(10); }
static void onFatal(int s) { char m[] = "REPLAY-VIOLATION: fatal signal  \n"; m[31] = '0' + s % 10; m[30] = '0' + s / 10; if (write(2, m, sizeof m - 1)) {} _exit(10); }
int main(int argc, char** argv) {
  if (argc < 4) return 2;
  dir = argv[3];
  std::ifstream f(argv[2]); std::string line;
  while (std::getline(f, line)) { std::istringstream is(line); In i; std::string hex; is >> i.name >> i.w >> i.real >> hex; if (i.name.empty()) continue; i.v = strtoull(hex.c_str(), nullptr, 16); ins.push_back(i); }
  signal(SIGTRAP, onTrap); signal(SIGABRT, onFatal); signal(SIGFPE, onFatal);
  signal(SIGSEGV, onFatal); signal(SIGBUS, onFatal); signal(SIGILL, onFatal);
  void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
  if (!h) { fprintf(stderr, "no harness %s\n", argv[1]); return 2; }
  alarm(60);
  g_started = true;
  h();
  done(0, "property held");
}

namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(::vnow)); } } } }
