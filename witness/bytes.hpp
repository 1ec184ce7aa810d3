#pragma once
#include "sa.hpp"
struct Overrun {};
#define NYTL_BYTES_ASSERT(x) do { if(!(x)) throw Overrun {}; } while(0)
#include <nytl/bytes.hpp>
#include <nytl/vec.hpp>
#include <nytl/vec3.hpp>
#include <vector>
#include <array>

using std::byte;
struct Pod { int a; float b; double c; };
static_assert(sizeof(Pod) == 16);
inline bool operator==(const Pod& x, const Pod& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }

// a region of n arbitrary bytes
struct Raw { std::size_t n; byte* p; };
inline Raw raw(const char* name, const char* size) {
	auto n = sa_size(size);
	return {n, (byte*) sa_buffer(name, n, 1, 0)};
}
// whole contents are still those of the beginning
inline void untouched(const Raw& r, const Raw& pristine, const char* l) {
	auto k = sa_size("any position");
	if(k < r.n) sa_eq((int) r.p[k], (int) pristine.p[k], l);
}
