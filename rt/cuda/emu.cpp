#include "cuhalf.h"
#include "sym.h"
#include <deque>
#include <memory>
#include <string>
#include <vector>
#include "Utils/BFloat16.h"
#include "Utils/Half.h"
uint3 threadIdx, blockIdx; dim3 blockDim, gridDim;
float cuemu_h2f(unsigned short x) { return (float)tinytorch::Half(x, tinytorch::Half::from_bits()); }
unsigned short cuemu_f2h(float f) { return tinytorch::Half(f).x; }
float cuemu_b2f(unsigned short x) { uint32_t u = (uint32_t)x << 16; float f; memcpy(&f, &u, 4); return f; }
unsigned short cuemu_f2b(float f) { return tinytorch::BFloat16(f).x; }
namespace cuemu {
bool lazy, backward, busy; int device, devices = 2, maxThreads = 1024;
struct Event { Stream* s = nullptr; size_t upTo = 0; };
struct Stream { int dev = 0; size_t base = 0; bool draining = false, dropped = false; std::deque<std::function<void()>> q; };
static std::vector<Stream*>& streams() { static std::vector<Stream*> v; return v; }
static std::vector<std::pair<char*, size_t>>& pinned() { static std::vector<std::pair<char*, size_t>> v; return v; }
void bad(const char* m) { CHECK(false, m); }
static void drainTo(Stream* s, size_t upTo) { while (s->base < upTo && !s->q.empty()) { auto f = std::move(s->q.front()); s->q.pop_front(); s->base++; f(); } }
void drain(Stream* s) { if (!s) { drainAll(); return; } drainTo(s, s->base + s->q.size()); }
void drainAll() { size_t n = streams().size(); for (size_t i = 0; i < n; i++) drain(streams()[backward ? n - 1 - i : i]); }
void enqueue(Stream* s, std::function<void()> f) { if (!s) { drainAll(); f(); return; } CHECK(!s->dropped, "work is not put on a destroyed stream"); if (!lazy) { drain(s); s->base++; f(); return; } s->q.push_back(std::move(f)); }
void* dmalloc(size_t n) { return malloc(n ? n : 1); }
void dfree(void* p) { drainAll(); free(p); }
void* hmalloc(size_t n) { char* p = (char*)malloc(n ? n : 1); pinned().push_back({p, n}); return p; }
void hfree(void* p) { drainAll(); auto& v = pinned(); for (size_t i = 0; i < v.size(); i++) if (v[i].first == p) { v.erase(v.begin() + i); break; } free(p); }
static bool isPinned(const void* p) { for (auto& x : pinned()) if ((const char*)p >= x.first && (const char*)p < x.first + x.second) return true; return false; }
void copy(void* d, const void* s, size_t n, int kind, Stream* st) {
  if (kind == cudaMemcpyHostToDevice && !isPinned(s)) { auto keep = std::make_shared<std::vector<char>>((const char*)s, (const char*)s + n); enqueue(st, [=] { memcpy(d, keep->data(), n); }); return; }
  enqueue(st, [=] { memcpy(d, s, n); });
  if (kind == cudaMemcpyDeviceToHost && !isPinned(d)) drain(st);
}
Stream* newStream() { auto s = new Stream; s->dev = device; streams().push_back(s); return s; }
void dropStream(Stream* s) { drain(s); s->dropped = true; }
Event* newEvent() { return new Event; }
void dropEvent(Event* e) { delete e; }
void record(Event* e, Stream* s) { e->s = s; e->upTo = s ? s->base + s->q.size() : 0; if (!s) drainAll(); }
void wait(Stream* s, Event* e) { Stream* o = e->s; size_t n = e->upTo; if (o) enqueue(s, [=] { drainTo(o, n); }); }
bool query(Event* e) { if (!e->s || e->s->base >= e->upTo) return true; if (busy) return false; drainTo(e->s, e->upTo); return true; }
// ---- a block's threads: each one that reaches a barrier waits on a stack of its own
enum { READY, SYNC, WARP, DONE };
struct Lane { uint3 tid; int state, co; };
struct Worker { int id; int lane; };
static std::vector<Lane> lanes; static std::vector<Worker*> idle; static std::vector<Worker*> workers; static int cur = -1; static const std::function<void()>* body; static Worker* curWorker;
static void work(void* a) { Worker* w = (Worker*)a; for (;;) { (*body)(); lanes[cur].state = DONE; idle.push_back(w); thr_switch(0); } }
static void resume(int i) {
  Lane& l = lanes[i]; cur = i; threadIdx = l.tid;
  if (l.co < 0) { Worker* w; if (idle.empty()) { w = new Worker; w->id = thr_new(work, w); workers.push_back(w); } else { w = idle.back(); idle.pop_back(); } l.co = w->id; }
  thr_switch(l.co);
}
void syncThreads() { lanes[cur].state = SYNC; thr_switch(0); }
void warpBarrier() { lanes[cur].state = WARP; thr_switch(0); }
int lane() { return cur; }
bool inBlock(int i) { return i < (int)lanes.size(); }
void config(dim3 g, dim3 b) {
  CHECK(b.x >= 1 && b.y >= 1 && b.z >= 1 && b.x <= 1024 && b.y <= 1024 && b.z <= 64 && (uint64_t)b.x * b.y * b.z <= (uint64_t)maxThreads, "a kernel is launched with a block the device can run");
  CHECK(g.x >= 1 && g.y >= 1 && g.z >= 1 && g.x <= 2147483647u && g.y <= 65535 && g.z <= 65535, "a kernel is launched with a grid the device can run");
}
static void block() {
  int n = (int)(blockDim.x * blockDim.y * blockDim.z); lanes.resize(n);
  for (int i = 0; i < n; i++) { lanes[i].tid = {i % blockDim.x, i / blockDim.x % blockDim.y, i / (blockDim.x * blockDim.y)}; lanes[i].state = READY; lanes[i].co = -1; }
  // warp by warp, each one as far as it can go before the next, so that a missing barrier shows
  int warps = (n + 31) / 32;
  for (;;) {
    for (int k = 0; k < warps; k++) {
      int w = (backward ? warps - 1 - k : k) * 32, e = std::min(n, w + 32);
      for (;;) {
        for (int i = 0; i < e - w; i++) { int t = backward ? e - 1 - i : w + i; if (lanes[t].state == READY) resume(t); }
        bool atWarp = false, atSync = false; for (int i = w; i < e; i++) { if (lanes[i].state == WARP) atWarp = true; if (lanes[i].state == SYNC) atSync = true; }
        if (!atWarp) break;
        CHECK(!atSync, "the threads of a warp meet at the same barrier"); if (atSync) return;
        for (int i = w; i < e; i++) if (lanes[i].state == WARP) lanes[i].state = READY;
      }
    }
    bool all = true; for (auto& l : lanes) if (l.state == SYNC) { all = false; l.state = READY; }
    if (all) return;
  }
}
void run(dim3 g, dim3 b, const std::function<void()>& f) {
  gridDim = g; blockDim = b; body = &f; uint64_t n = (uint64_t)g.x * g.y * g.z;
  for (uint64_t k = 0; k < n; k++) { uint64_t i = backward ? n - 1 - k : k; blockIdx = {(unsigned)(i % g.x), (unsigned)(i / g.x % g.y), (unsigned)(i / ((uint64_t)g.x * g.y))}; block(); }
}
struct Draw { uint64_t a, b, c; float v; }; static std::vector<Draw> uni, nor;
static float draw(std::vector<Draw>& t, uint64_t a, uint64_t b, uint64_t c, float lo, float hi, const char* nm) { for (auto& d : t) if (d.a == a && d.b == b && d.c == c) return d.v; float v = sym_f32_range(nm, lo, hi); t.push_back({a, b, c, v}); return v; }
float uniform(uint64_t s, uint64_t b, uint64_t o) { return draw(uni, s, b, o, 1.1641532e-10f, 1.f, "uniform"); }
float normal(uint64_t s, uint64_t b, uint64_t o) { return draw(nor, s, b, o, -6.66f, 6.66f, "normal"); }
}
