#pragma once
#include "../cuemu.h"
#include <iterator>
#include <tuple>
#include <vector>
namespace thrust {
template <class T> struct device_ptr {
  typedef T value_type; typedef T& reference; T* p; device_ptr() : p(nullptr) {} explicit device_ptr(T* q) : p(q) {}
  T& operator*() const { return *p; } T& operator[](int64_t i) const { return p[i]; } device_ptr operator+(int64_t i) const { return device_ptr(p + i); } int64_t operator-(device_ptr o) const { return p - o.p; } T* get() const { return p; } };
template <class T> device_ptr<T> device_pointer_cast(T* p) { return device_ptr<T>(p); }
template <class T> T* raw_pointer_cast(device_ptr<T> p) { return p.p; }
template <class T> struct counting_iterator { T v; counting_iterator(T x = T()) : v(x) {} T operator*() const { return v; } T operator[](int64_t i) const { return v + (T)i; } counting_iterator operator+(int64_t i) const { return counting_iterator(v + (T)i); } int64_t operator-(counting_iterator o) const { return v - o.v; } };
template <class T> counting_iterator<T> make_counting_iterator(T v) { return counting_iterator<T>(v); }
template <class I, class F> struct transform_iterator { I i; F f; decltype(auto) operator*() const { return f(*i); } decltype(auto) operator[](int64_t k) const { return f(i[k]); } transform_iterator operator+(int64_t k) const { return {i + k, f}; } int64_t operator-(const transform_iterator& o) const { return i - o.i; } };
template <class I, class F> transform_iterator<I, F> make_transform_iterator(I i, F f) { return {i, f}; }
template <class E, class I> struct permutation_iterator { E e; I i; auto& operator[](int64_t k) const { return e[i[k]]; } auto& operator*() const { return e[*i]; } permutation_iterator operator+(int64_t k) const { return {e, i + k}; } int64_t operator-(const permutation_iterator& o) const { return i - o.i; } };
template <class E, class I> permutation_iterator<E, I> make_permutation_iterator(E e, I i) { return {e, i}; }
template <class T = void> struct greater { template <class A, class B> bool operator()(const A& a, const B& b) const { return (T)a > (T)b; } };
template <class T = void> struct less { template <class A, class B> bool operator()(const A& a, const B& b) const { return (T)a < (T)b; } };
template <class T = void> struct plus { T operator()(const T& a, const T& b) const { return a + b; } };
namespace cuda { struct Policy { cudaStream_t s; }; struct Par { Policy on(cudaStream_t s) const { return {s}; } }; static const Par par; static const Par par_nosync; }
inline void sync_(const cuda::Policy& p) { cuemu::drain(p.s); }
template <class I, class O> O copy(cuda::Policy p, I a, I b, O o) { sync_(p); int64_t n = b - a; for (int64_t i = 0; i < n; i++) o[i] = a[i]; return o + n; }
template <class I, class V> void sequence(cuda::Policy p, I a, I b, V v) { sync_(p); int64_t n = b - a; for (int64_t i = 0; i < n; i++) a[i] = v + i; }
template <class I, class V> void fill(cuda::Policy p, I a, I b, V v) { sync_(p); int64_t n = b - a; for (int64_t i = 0; i < n; i++) a[i] = v; }
// insertion sort; equal keys keep their order when stable, and are turned around when not
template <class K, class V, class C> void sort_(K k, int64_t n, V v, C c, bool stable) {
  for (int64_t i = 1; i < n; i++) for (int64_t j = i; j > 0 && (stable ? c(k[j], k[j - 1]) : !c(k[j - 1], k[j])); j--) { auto t = k[j]; k[j] = k[j - 1]; k[j - 1] = t; auto u = v[j]; v[j] = v[j - 1]; v[j - 1] = u; }
}
template <class K, class V, class C> void sort_by_key(cuda::Policy p, K a, K b, V v, C c) { sync_(p); sort_(a, b - a, v, c, false); }
template <class K, class V, class C> void stable_sort_by_key(cuda::Policy p, K a, K b, V v, C c) { sync_(p); sort_(a, b - a, v, c, true); }
template <class I, class O> O inclusive_scan(cuda::Policy p, I a, I b, O o) { sync_(p); int64_t n = b - a; if (n > 0) { auto s = a[0]; o[0] = s; for (int64_t i = 1; i < n; i++) { s = s + a[i]; o[i] = s; } } return o + n; }
template <class I, class O, class F> O transform(cuda::Policy p, I a, I b, O o, F f) { sync_(p); int64_t n = b - a; for (int64_t i = 0; i < n; i++) o[i] = f(a[i]); return o + n; }
template <class I, class N, class F> I for_each_n(cuda::Policy p, I a, N n, F f) { sync_(p); for (int64_t i = 0; i < (int64_t)n; i++) f(a[i]); return a + n; }
template <class I, class J, class T> T inner_product(cuda::Policy p, I a, I b, J c, T s) { sync_(p); int64_t n = b - a; for (int64_t i = 0; i < n; i++) s = s + a[i] * c[i]; return s; }
template <class T> struct device_vector : std::vector<T> { using std::vector<T>::vector; };
}
