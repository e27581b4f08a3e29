// A device made of ordinary memory: kernels run thread by thread on the host, so that their source can be executed symbolically.
#pragma once
#include <algorithm>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
#define __shared__ static
#define __restrict__ __restrict
#define __launch_bounds__(...)
struct dim3 { unsigned x, y, z; constexpr dim3(unsigned a = 1, unsigned b = 1, unsigned c = 1) : x(a), y(b), z(c) {} };
struct uint3 { unsigned x, y, z; };
struct float2 { float x, y; }; struct float3 { float x, y, z; }; struct alignas(16) float4 { float x, y, z, w; };
extern uint3 threadIdx, blockIdx; extern dim3 blockDim, gridDim;
constexpr int warpSize = 32;
enum cudaError_t { cudaSuccess = 0, cudaErrorNotReady = 600 };
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };
enum { cudaEventDefault = 0, cudaEventDisableTiming = 2, cudaHostAllocDefault = 0 };
struct cudaDeviceProp { int major, minor, maxThreadsPerBlock; size_t sharedMemPerBlock; };
namespace cuemu {
struct Stream; struct Event;
extern bool lazy;      // work on a stream is done as late as its synchronisation allows
extern bool backward;  // blocks and threads run in descending order
extern int device, devices, maxThreads; extern bool busy;
void run(dim3 g, dim3 b, const std::function<void()>& f);
void enqueue(Stream* s, std::function<void()> f);
void* dmalloc(size_t n); void dfree(void* p); void* hmalloc(size_t n); void hfree(void* p);
void copy(void* d, const void* s, size_t n, int kind, Stream* st);
void drain(Stream* s); void drainAll();
Stream* newStream(); void dropStream(Stream*);
Event* newEvent(); void dropEvent(Event*); void record(Event*, Stream*); void wait(Stream*, Event*); bool query(Event*);
void syncThreads(); void warpBarrier(); int lane(); bool inBlock(int);
void config(dim3 g, dim3 b);
float uniform(uint64_t seed, uint64_t sub, uint64_t off); float normal(uint64_t seed, uint64_t sub, uint64_t off);
struct Cfg { dim3 g, b; size_t shm; Stream* s; Cfg(dim3 g, dim3 b, size_t m = 0, Stream* s = nullptr) : g(g), b(b), shm(m), s(s) {} };
template <class F, class... A> void launch(const Cfg& c, F f, A... a) { config(c.g, c.b); dim3 g = c.g, b = c.b; enqueue(c.s, [=] { run(g, b, [=] { f(a...); }); }); }
void bad(const char* m);
}
typedef cuemu::Stream* cudaStream_t; typedef cuemu::Event* cudaEvent_t;
inline const char* cudaGetErrorString(cudaError_t) { return ""; }
inline cudaError_t cudaGetLastError() { return cudaSuccess; }
inline cudaError_t cudaGetDeviceCount(int* n) { *n = cuemu::devices; return cudaSuccess; }
inline cudaError_t cudaGetDevice(int* d) { *d = cuemu::device; return cudaSuccess; }
inline cudaError_t cudaSetDevice(int d) { cuemu::device = d; return cudaSuccess; }
inline cudaError_t cudaGetDeviceProperties(cudaDeviceProp* p, int) { p->major = 7; p->minor = 0; p->maxThreadsPerBlock = cuemu::maxThreads; p->sharedMemPerBlock = 49152; return cudaSuccess; }
inline cudaError_t cudaMalloc(void** p, size_t n) { *p = cuemu::dmalloc(n); return cudaSuccess; }
template <class T> cudaError_t cudaMalloc(T** p, size_t n) { *p = (T*)cuemu::dmalloc(n); return cudaSuccess; }
inline cudaError_t cudaFree(void* p) { cuemu::dfree(p); return cudaSuccess; }
inline cudaError_t cudaHostAlloc(void** p, size_t n, unsigned) { *p = cuemu::hmalloc(n); return cudaSuccess; }
inline cudaError_t cudaFreeHost(void* p) { cuemu::hfree(p); return cudaSuccess; }
inline cudaError_t cudaMemcpyAsync(void* d, const void* s, size_t n, cudaMemcpyKind k, cudaStream_t st = nullptr) { cuemu::copy(d, s, n, k, st); return cudaSuccess; }
inline cudaError_t cudaMemcpy(void* d, const void* s, size_t n, cudaMemcpyKind k) { cuemu::drainAll(); cuemu::copy(d, s, n, k, nullptr); cuemu::drainAll(); return cudaSuccess; }
inline cudaError_t cudaMemsetAsync(void* d, int v, size_t n, cudaStream_t st = nullptr) { cuemu::enqueue(st, [=] { memset(d, v, n); }); return cudaSuccess; }
inline cudaError_t cudaDeviceSynchronize() { cuemu::drainAll(); return cudaSuccess; }
inline cudaError_t cudaStreamCreate(cudaStream_t* s) { *s = cuemu::newStream(); return cudaSuccess; }
inline cudaError_t cudaStreamDestroy(cudaStream_t s) { cuemu::dropStream(s); return cudaSuccess; }
inline cudaError_t cudaStreamSynchronize(cudaStream_t s) { cuemu::drain(s); return cudaSuccess; }
inline cudaError_t cudaStreamWaitEvent(cudaStream_t s, cudaEvent_t e, unsigned = 0) { cuemu::wait(s, e); return cudaSuccess; }
inline cudaError_t cudaEventCreateWithFlags(cudaEvent_t* e, unsigned) { *e = cuemu::newEvent(); return cudaSuccess; }
inline cudaError_t cudaEventDestroy(cudaEvent_t e) { cuemu::dropEvent(e); return cudaSuccess; }
inline cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t s) { cuemu::record(e, s); return cudaSuccess; }
inline cudaError_t cudaEventQuery(cudaEvent_t e) { return cuemu::query(e) ? cudaSuccess : cudaErrorNotReady; }
inline cudaError_t cudaEventSynchronize(cudaEvent_t e) { cuemu::drainAll(); return cudaSuccess; }
inline void __syncthreads() { cuemu::syncThreads(); }
inline void __syncwarp(unsigned = ~0u) { cuemu::warpBarrier(); }
namespace cuemu { template <class T> T shfl(T v, int from) { static T slot[1024]; int l = lane(); slot[l] = v; warpBarrier(); T r = from / 32 == l / 32 && from >= 0 && inBlock(from) ? slot[from] : v; warpBarrier(); return r; } }
template <class T> T __shfl_down_sync(unsigned, T v, unsigned o, int = 32) { return cuemu::shfl(v, cuemu::lane() + (int)o); }
template <class T> T __shfl_up_sync(unsigned, T v, unsigned o, int = 32) { return cuemu::shfl(v, cuemu::lane() - (int)o); }
template <class T> T __shfl_xor_sync(unsigned, T v, int o, int = 32) { return cuemu::shfl(v, cuemu::lane() ^ o); }
template <class T> T __shfl_sync(unsigned, T v, int from, int = 32) { return cuemu::shfl(v, cuemu::lane() / 32 * 32 + (from & 31)); }
template <class T> T atomicAdd(T* p, T v) { T o = *p; *p = o + v; return o; }
inline float rsqrtf(float x) { return 1.f / sqrtf(x); }
inline float __expf(float x) { return expf(x); }
inline float __logf(float x) { return logf(x); }
inline float __fdividef(float a, float b) { return a / b; }
using std::max; using std::min; using std::isnan; using std::isinf;
