// Intrinsics of the static analyser (nsa/): they have no definition, the abstract
// interpreter gives them their meaning. Nothing here is ever executed.
#pragma once
#include <cstdint>
#include <cstddef>

extern "C" {
double sa_real(const char* name);             // arbitrary real number
float sa_realf(const char* name);
int sa_int(const char* name);                 // arbitrary integer
long sa_long(const char* name);
unsigned long sa_size(const char* name);      // arbitrary size, 0 <= n <= 2^47
unsigned sa_uint(const char* name);           // 0 <= n < 2^31
std::uint8_t sa_bits8(const char* name);      // arbitrary bit patterns
std::uint16_t sa_bits16(const char* name);
std::uint32_t sa_bits32(const char* name);
std::uint64_t sa_bits64(const char* name);
bool sa_bool(const char* name);               // arbitrary (same name: same value)
bool sa_fresh_bool(const char* name);         // arbitrary, different on every call
long sa_opaque(const char* name);
void sa_assume(bool);                         // precondition
void sa_expect(bool, const char* label);      // obligation
void sa_eq_f(double got, double expected, const char* label);
void sa_eq_i(long got, long expected, const char* label);
void sa_same(const void* got, const void* expected, const char* label);
bool sa_is_undef_f(double);
bool sa_is_undef_i(long);
void sa_precise(int on);
void sa_stop();
void sa_divisors(int on);                     // report divisions whose divisor may be zero
void sa_domains(int on);                       // report sqrt, acos, asin outside of their domain
void sa_square(double symbol, double square); // assumption symbol * symbol == square
void sa_fail(const char* label);
void sa_reach(const char* label);
long sa_live_heap();
void* sa_buffer(const char* name, unsigned long n, unsigned long elemSize, int kind);
void* sa_heap(unsigned long size);
}

template<typename T> T sa_sym(const char* name);
template<> inline double sa_sym<double>(const char* n) { return sa_real(n); }
template<> inline float sa_sym<float>(const char* n) { return sa_realf(n); }
template<> inline long double sa_sym<long double>(const char* n) { return sa_real(n); }
template<> inline int sa_sym<int>(const char* n) { return sa_int(n); }
template<> inline long sa_sym<long>(const char* n) { return sa_long(n); }
template<> inline unsigned sa_sym<unsigned>(const char* n) { return sa_uint(n); }

inline void sa_eq(double a, double b, const char* l) { sa_eq_f(a, b, l); }
inline void sa_eq(float a, float b, const char* l) { sa_eq_f(a, b, l); }
inline void sa_eq(double a, float b, const char* l) { sa_eq_f(a, b, l); }
inline void sa_eq(float a, double b, const char* l) { sa_eq_f(a, b, l); }
inline void sa_eq(long double a, long double b, const char* l) { sa_eq_f((double) a, (double) b, l); }
inline void sa_eq(int a, int b, const char* l) { sa_eq_i(a, b, l); }
inline void sa_eq(long a, long b, const char* l) { sa_eq_i(a, b, l); }
inline void sa_eq(unsigned a, unsigned b, const char* l) { sa_eq_i((long) a, (long) b, l); }
inline void sa_eq(unsigned long a, unsigned long b, const char* l) { sa_eq_i((long) a, (long) b, l); }
inline void sa_eq(bool a, bool b, const char* l) { sa_expect(a == b, l); }

#define OB(name) extern "C" void ob_##name()

#include "libmodels.hpp"
