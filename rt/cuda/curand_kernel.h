#pragma once
#include "cuemu.h"
enum curandStatus_t { CURAND_STATUS_SUCCESS, CURAND_STATUS_VERSION_MISMATCH = 100, CURAND_STATUS_NOT_INITIALIZED, CURAND_STATUS_ALLOCATION_FAILED, CURAND_STATUS_TYPE_ERROR, CURAND_STATUS_OUT_OF_RANGE, CURAND_STATUS_LENGTH_NOT_MULTIPLE, CURAND_STATUS_DOUBLE_PRECISION_REQUIRED, CURAND_STATUS_LAUNCH_FAILURE, CURAND_STATUS_PREEXISTING_FAILURE, CURAND_STATUS_INITIALIZATION_FAILED, CURAND_STATUS_ARCH_MISMATCH, CURAND_STATUS_INTERNAL_ERROR };
struct curandState { uint64_t seed, sub, off; };
typedef curandState curandStatePhilox4_32_10_t; typedef curandState curandState_t; typedef curandState curandStateXORWOW_t;
inline void curand_init(uint64_t seed, uint64_t sub, uint64_t off, curandState* s) { s->seed = seed; s->sub = sub; s->off = off; }
inline float curand_uniform(curandState* s) { return cuemu::uniform(s->seed, s->sub, s->off++); }
inline float curand_normal(curandState* s) { return cuemu::normal(s->seed, s->sub, s->off++); }
inline float4 curand_uniform4(curandState* s) { float4 r; r.x = curand_uniform(s); r.y = curand_uniform(s); r.z = curand_uniform(s); r.w = curand_uniform(s); return r; }
inline float4 curand_normal4(curandState* s) { float4 r; r.x = curand_normal(s); r.y = curand_normal(s); r.z = curand_normal(s); r.w = curand_normal(s); return r; }
