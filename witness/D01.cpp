// sa: min=200
// the bytes of a value are its components, in order, and nothing else
#include <nytl/simplex.hpp>
#include <nytl/rect.hpp>
#include <nytl/flags.hpp>
#include "quat.hpp"
#include <cstring>

template<typename T, unsigned N, typename V> void raw(const V& v, const T (&want)[N], const char* l) {
	auto* p = reinterpret_cast<const T*>(&v);
	for(unsigned i = 0; i < N; ++i) sa_eq(p[i], want[i], l);
	V w;
	std::memcpy(&w, &v, sizeof(v));
	auto* c = reinterpret_cast<const T*>(&w);
	for(unsigned i = 0; i < N; ++i) sa_eq(c[i], want[i], "copied as bytes");
	V x = v, y {};
	y = x;
	auto* d = reinterpret_cast<const T*>(&y);
	for(unsigned i = 0; i < N; ++i) sa_eq(d[i], want[i], "copied and assigned");
}
template<typename T, unsigned N, typename V> void zeros(const V& v, const char* l) {
	static_assert(sizeof(V) == N * sizeof(T));
	auto* p = reinterpret_cast<const T*>(&v);
	for(unsigned i = 0; i < N; ++i) sa_eq(p[i], T(0), l);
}
#define S(n) sa_sym<T>(n)
template<typename T> void vectors() {
	T a = S("a"), b = S("b"), c = S("c"), d = S("d"), e = S("e");
	raw<T, 1>(nytl::Vec<1, T>{a}, {a}, "one component");
	raw<T, 2>(nytl::Vec<2, T>{a, b}, {a, b}, "two components");
	raw<T, 3>(nytl::Vec<3, T>{a, b, c}, {a, b, c}, "three components");
	raw<T, 4>(nytl::Vec<4, T>{a, b, c, d}, {a, b, c, d}, "four components");
	raw<T, 5>(nytl::Vec<5, T>{a, b, c, d, e}, {a, b, c, d, e}, "five components");
	zeros<T, 1>(nytl::Vec<1, T>{}, "empty braces give zeros"); zeros<T, 2>(nytl::Vec<2, T>{}, "empty braces give zeros");
	zeros<T, 3>(nytl::Vec<3, T>{}, "empty braces give zeros"); zeros<T, 4>(nytl::Vec<4, T>{}, "empty braces give zeros");
	zeros<T, 5>(nytl::Vec<5, T>{}, "empty braces give zeros");
}
template<typename T> void matrices() {
	T a = S("a"), b = S("b"), c = S("c"), d = S("d"), e = S("e"), f = S("f"), g = S("g"), h = S("h"), i = S("i");
	raw<T, 4>(nytl::Mat<2, 2, T>{a, b, c, d}, {a, b, c, d}, "2x2, row by row");
	raw<T, 6>(nytl::Mat<2, 3, T>{a, b, c, d, e, f}, {a, b, c, d, e, f}, "2x3, row by row");
	raw<T, 6>(nytl::Mat<3, 2, T>{a, b, c, d, e, f}, {a, b, c, d, e, f}, "3x2, row by row");
	raw<T, 9>(nytl::Mat<3, 3, T>{a, b, c, d, e, f, g, h, i}, {a, b, c, d, e, f, g, h, i}, "3x3, row by row");
	auto m = MSYM(4, 4, T, "m");
	auto* p = reinterpret_cast<const T*>(&m);
	for(unsigned r = 0; r < 4; ++r) for(unsigned s = 0; s < 4; ++s) {
		sa_eq(p[4 * r + s], m[r][s], "row by row");
		sa_same(p + 4 * r + s, &m[r][s], "row by row");
	}
	zeros<T, 4>(nytl::Mat<2, 2, T>{}, "empty braces give zeros"); zeros<T, 9>(nytl::Mat<3, 3, T>{}, "empty braces give zeros");
	zeros<T, 16>(nytl::Mat<4, 4, T>{}, "empty braces give zeros"); zeros<T, 6>(nytl::Mat<2, 3, T>{}, "empty braces give zeros");
}
template<typename T> void shapes() {
	T a = S("a"), b = S("b"), c = S("c"), d = S("d"), e = S("e"), f = S("f");
	raw<T, 4>(nytl::Rect<2, T>{{a, b}, {c, d}}, {a, b, c, d}, "position, then size");
	raw<T, 6>(nytl::Rect<3, T>{{a, b, c}, {d, e, f}}, {a, b, c, d, e, f}, "position, then size");
	nytl::Simplex<2, T, 2> t {};
	zeros<T, 6>(t, "a simplex starts with zeros");
	t.points()[0] = {a, b}; t.points()[1] = {c, d}; t.points()[2] = {e, f};
	raw<T, 6>(t, {a, b, c, d, e, f}, "point by point");
	nytl::Simplex<3, T, 1> l;
	zeros<T, 6>(l, "a simplex starts with zeros");
	zeros<T, 4>(nytl::Rect<2, T>{}, "empty braces give zeros"); zeros<T, 6>(nytl::Rect<3, T>{}, "empty braces give zeros");
}
OB(vectors_d) { vectors<double>(); }
OB(vectors_f) { vectors<float>(); }
OB(vectors_i) { vectors<int>(); }
OB(matrices_d) { matrices<double>(); }
OB(matrices_f) { matrices<float>(); }
OB(matrices_i) { matrices<int>(); }
OB(shapes_d) { shapes<double>(); }
OB(shapes_f) { shapes<float>(); }
OB(shapes_i) { shapes<int>(); }
OB(quaternion) {
	auto a = sa_real("a"), b = sa_real("b"), c = sa_real("c"), d = sa_real("d");
	raw<double, 4>(nytl::Quaternion{a, b, c, d}, {a, b, c, d}, "x, y, z, w");
	raw<double, 4>(nytl::Quaternion{}, {0.0, 0.0, 0.0, 1.0}, "empty braces give the identity");
	nytl::Quaternion q;
	raw<double, 4>(q, {0.0, 0.0, 0.0, 1.0}, "the default is the identity");
}
enum class E : unsigned { a = 1, b = 2, c = 4 };
OB(flags) {
	raw<unsigned, 1>(nytl::Flags<E>(E::b), {2u}, "the bits");
	raw<unsigned, 1>(nytl::Flags<E>{}, {0u}, "no bits");
	nytl::Flags<E> f;
	raw<unsigned, 1>(f, {0u}, "no bits");
}
