// Forced include for every translation unit: gives the random engine's step an out-of-line definition so that a
// harness can replace its outputs by arbitrary values of the engine's range (see rng_havoc in sym.h).
#pragma once
#ifdef __cplusplus
#include <random>
extern "C" unsigned long symx_lcg(unsigned long* state);
namespace std {
template <> inline linear_congruential_engine<uint_fast32_t, 16807UL, 0UL, 2147483647UL>::result_type
linear_congruential_engine<uint_fast32_t, 16807UL, 0UL, 2147483647UL>::operator()() { return symx_lcg(&_M_x); }
}
#endif
