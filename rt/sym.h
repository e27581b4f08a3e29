// Harness interface.  The same harness source is executed symbolically by symx and, natively, to replay a counterexample.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
extern "C" {
int64_t sym_i64(const char* name, int64_t lo, int64_t hi);
int32_t sym_i32(const char* name, int32_t lo, int32_t hi);
uint8_t sym_u8(const char* name);
uint16_t sym_u16(const char* name);
uint32_t sym_u32(const char* name);
uint64_t sym_u64(const char* name);
float sym_f32(const char* name);
double sym_f64(const char* name);
float sym_f32_range(const char* name, float lo, float hi);
int64_t sym_concretize(int64_t v);
void sym_assume(bool c);
void sym_assert_(bool c, const char* msg);
void sym_assert_eq_f32(float a, float b, const char* msg);
void sym_assert_eq_f64(double a, double b, const char* msg);
void sym_trap_policy(int allowed);
void sym_reach(const char* tag);
void sym_real_mode();
int sym_is_symbolic_run();
uint64_t sym_heap_blocks();
void sym_debug_i64(const char* n, int64_t v);
void sym_debug_f32(const char* n, float v);
bool sym_fork(bool c);
uint32_t sym_ite32(bool c, uint32_t a, uint32_t b);
uint64_t sym_ite64(bool c, uint64_t a, uint64_t b);
// model file system (a scratch directory natively)
const char* vfs_path(const char* name);
void vfs_put(const char* name, const void* data, size_t n);
int64_t vfs_size(const char* name);
void vfs_get(const char* name, void* out, size_t n);
void vfs_fail_writes_after(int64_t bytes);
// the process whose calls follow; fn is asked, when code sleeps, by how many nanoseconds time moves on
void vfs_process(int p);
void vfs_on_sleep(int64_t (*fn)(int proc));
// engine outputs: 0 = the real linear congruential engine, 1 = arbitrary values in its range, n > 1: at most n of them
void rng_havoc(int on);
uint64_t rng_draws();
// cooperative threads: a thread runs only when switched to (0 is the harness itself); its function must not return
int thr_new(void (*fn)(void*), void* arg);
void thr_switch(int id);
}
#define SYM_STR2(x) #x
#define SYM_STR(x) SYM_STR2(x)
#define CHECK(c, msg) sym_assert_((c), msg)
#define CHECKF(a, b, msg) sym_assert_eq_f32((a), (b), msg)
#define HARNESS(n) extern "C" __attribute__((noinline, used)) void harness_##n()
