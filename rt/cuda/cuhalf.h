#pragma once
#include "cuemu.h"
float cuemu_h2f(unsigned short); unsigned short cuemu_f2h(float); float cuemu_b2f(unsigned short); unsigned short cuemu_f2b(float);
#include <limits>
#include <type_traits>
#define CUEMU_HALF(N, TO, FROM) \
  struct alignas(2) N { \
    unsigned short x; N() = default; \
    template <class T, class = std::enable_if_t<std::is_convertible_v<T, float> && !std::is_same_v<T, N>>> N(T v) : x(FROM((float)v)) {} \
    operator float() const { return TO(x); } \
    N& operator+=(float o) { x = FROM(TO(x) + o); return *this; } N& operator-=(float o) { x = FROM(TO(x) - o); return *this; } \
    N& operator*=(float o) { x = FROM(TO(x) * o); return *this; } N& operator/=(float o) { x = FROM(TO(x) / o); return *this; } }; \
  inline N operator+(N a, N b) { return N((float)a + (float)b); } inline N operator-(N a, N b) { return N((float)a - (float)b); } \
  inline N operator*(N a, N b) { return N((float)a * (float)b); } inline N operator/(N a, N b) { return N((float)a / (float)b); } inline N operator-(N a) { return N(-(float)a); }
CUEMU_HALF(__half, cuemu_h2f, cuemu_f2h)
CUEMU_HALF(__nv_bfloat16, cuemu_b2f, cuemu_f2b)
