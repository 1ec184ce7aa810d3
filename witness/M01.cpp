// sa: min=150
#include <nytl/mat.hpp>
#include "num.hpp"

template<unsigned R, unsigned C, typename T> void elementwise() {
	const auto a = MSYM(R, C, T, "a"), b = MSYM(R, C, T, "b");
	auto f = sa_sym<T>("f");
	auto s = a + b, d = a - b, n = -a;
	auto m = f * a;
	auto x = a; auto* px = &(x += b);
	auto y = a; auto* py = &(y -= b);
	auto z = a; auto* pz = &(z *= f);
	sa_same(px, &x, "+= returns its left operand");
	sa_same(py, &y, "-= returns its left operand");
	sa_same(pz, &z, "*= returns its left operand");
	for(unsigned i = 0; i < R; ++i) for(unsigned j = 0; j < C; ++j) {
		sa_eq(s[i][j], T(a[i][j] + b[i][j]), "a + b");
		sa_eq(d[i][j], T(a[i][j] - b[i][j]), "a - b");
		sa_eq(n[i][j], T(-a[i][j]), "-a");
		sa_eq(m[i][j], T(f * a[i][j]), "f * a");
		sa_eq(x[i][j], T(a[i][j] + b[i][j]), "a += b");
		sa_eq(y[i][j], T(a[i][j] - b[i][j]), "a -= b");
		sa_eq(z[i][j], T(f * a[i][j]), "a *= f");
	}
	auto w = a; w += w; auto v = a; v -= v;
	for(unsigned i = 0; i < R; ++i) for(unsigned j = 0; j < C; ++j) {
		sa_eq(w[i][j], T(2 * a[i][j]), "a += a");
		sa_eq(v[i][j], T(0), "a -= a");
	}
	for(unsigned k = 0; k < R; ++k) for(unsigned l = 0; l < C; ++l) {
		auto q = a; q *= q[k][l];
		for(unsigned i = 0; i < R; ++i) for(unsigned j = 0; j < C; ++j)
			sa_eq(q[i][j], T(a[k][l] * a[i][j]), "a *= a[k][l] scales by the old value");
	}
}
template<unsigned R, unsigned C, typename T> void compare() {
	const auto a = MSYM(R, C, T, "a"), b = MSYM(R, C, T, "b");
	bool all = true;
	for(unsigned i = 0; i < R; ++i) for(unsigned j = 0; j < C; ++j) all = all && a[i][j] == b[i][j];
	sa_eq(a == b, all, "== iff all elements are equal");
	sa_eq(a != b, !all, "!= iff some element differs");
}
template<unsigned R, unsigned M, unsigned C, typename T> void product() {
	const auto a = MSYM(R, M, T, "a"); const auto b = MSYM(M, C, T, "b");
	const auto v = VSYM(M, T, "v");
	auto p = a * b;
	static_assert(std::is_same_v<decltype(p), nytl::Mat<R, C, T>>);
	for(unsigned i = 0; i < R; ++i) for(unsigned j = 0; j < C; ++j) {
		T e = 0;
		for(unsigned k = 0; k < M; ++k) e += a[i][k] * b[k][j];
		sa_eq(p[i][j], e, "(a * b)[i][j] is row i times column j");
	}
	auto w = a * v;
	static_assert(std::is_same_v<decltype(w), nytl::Vec<R, T>>);
	for(unsigned i = 0; i < R; ++i) {
		T e = 0;
		for(unsigned k = 0; k < M; ++k) e += a[i][k] * v[k];
		sa_eq(w[i], e, "(a * v)[i] is row i times v");
	}
}
template<unsigned D, typename T> void square() {
	const auto a = MSYM(D, D, T, "a"), b = MSYM(D, D, T, "b");
	auto x = a; auto* px = &(x *= b);
	sa_same(px, &x, "*= returns its left operand");
	auto y = a; y *= y;
	for(unsigned i = 0; i < D; ++i) for(unsigned j = 0; j < D; ++j) {
		T e = 0, q = 0;
		for(unsigned k = 0; k < D; ++k) { e += a[i][k] * b[k][j]; q += a[i][k] * a[k][j]; }
		sa_eq(x[i][j], e, "a *= b is a * b");
		sa_eq(y[i][j], q, "a *= a is a * a");
	}
}
template<unsigned D> void mixed() {
	const auto a = MSYM(D, D, int, "a"); const auto b = MSYM(D, D, double, "b"); const auto v = VSYM(D, double, "v");
	auto p = a * b; auto s = a + b; auto d = a - b; auto m = 0.5 * a; auto w = a * v;
	static_assert(std::is_same_v<decltype(p), nytl::Mat<D, D, double>>);
	auto x = b; x += a; auto y = b; y -= a; auto z = b; z *= a;
	bool all = true;
	for(unsigned i = 0; i < D; ++i) {
		double ev = 0;
		for(unsigned j = 0; j < D; ++j) {
			double e = 0, e2 = 0;
			for(unsigned k = 0; k < D; ++k) { e += a[i][k] * b[k][j]; e2 += b[i][k] * a[k][j]; }
			ev += a[i][j] * v[j];
			sa_eq(p[i][j], e, "mixed product"); sa_eq(z[i][j], e2, "mixed *=");
			sa_eq(s[i][j], a[i][j] + b[i][j], "mixed sum"); sa_eq(d[i][j], a[i][j] - b[i][j], "mixed difference");
			sa_eq(m[i][j], 0.5 * a[i][j], "mixed scale");
			sa_eq(x[i][j], a[i][j] + b[i][j], "mixed +="); sa_eq(y[i][j], b[i][j] - a[i][j], "mixed -=");
		}
		sa_eq(w[i], ev, "mixed mat * vec");
	}
}
OB(elementwise_22) { elementwise<2, 2, double>(); }
OB(elementwise_23) { elementwise<2, 3, double>(); }
OB(elementwise_32) { elementwise<3, 2, double>(); }
OB(elementwise_33) { elementwise<3, 3, float>(); }
OB(elementwise_44) { elementwise<4, 4, double>(); }
OB(elementwise_23i) { elementwise<2, 3, int>(); }
OB(elementwise_14) { elementwise<1, 4, double>(); }
OB(compare_22) { compare<2, 2, double>(); }
OB(compare_23) { compare<2, 3, double>(); }
OB(compare_32i) { compare<3, 2, int>(); }
OB(compare_33) { compare<3, 3, double>(); }
OB(product_222) { product<2, 2, 2, double>(); }
OB(product_333) { product<3, 3, 3, double>(); }
OB(product_444) { product<4, 4, 4, double>(); }
OB(product_234) { product<2, 3, 4, double>(); }
OB(product_423) { product<4, 2, 3, double>(); }
OB(product_313) { product<3, 1, 3, double>(); }
OB(product_131) { product<1, 3, 1, float>(); }
OB(product_232i) { product<2, 3, 2, int>(); }
OB(square_2) { square<2, double>(); }
OB(square_3) { square<3, double>(); }
OB(square_4) { square<4, double>(); }
OB(square_2i) { square<2, int>(); }
OB(mixed_2) { mixed<2>(); }
OB(mixed_3) { mixed<3>(); }
// more shapes and value types
OB(elementwise_11) { elementwise<1, 1, double>(); }
OB(elementwise_22f) { elementwise<2, 2, float>(); }
OB(elementwise_33d) { elementwise<3, 3, double>(); }
OB(elementwise_44f) { elementwise<4, 4, float>(); }
OB(elementwise_33i) { elementwise<3, 3, int>(); }
OB(elementwise_44i) { elementwise<4, 4, int>(); }
OB(elementwise_41) { elementwise<4, 1, double>(); }
OB(elementwise_24) { elementwise<2, 4, double>(); }
OB(elementwise_34) { elementwise<3, 4, float>(); }
OB(elementwise_43) { elementwise<4, 3, double>(); }
OB(elementwise_55) { elementwise<5, 5, double>(); }
OB(elementwise_58) { elementwise<5, 8, double>(); }
OB(compare_11) { compare<1, 1, double>(); }
OB(compare_44) { compare<4, 4, double>(); }
OB(compare_44f) { compare<4, 4, float>(); }
OB(compare_33i) { compare<3, 3, int>(); }
OB(compare_14) { compare<1, 4, double>(); }
OB(compare_41) { compare<4, 1, double>(); }
OB(compare_34) { compare<3, 4, double>(); }
OB(product_111) { product<1, 1, 1, double>(); }
OB(product_333f) { product<3, 3, 3, float>(); }
OB(product_444f) { product<4, 4, 4, float>(); }
OB(product_444i) { product<4, 4, 4, int>(); }
OB(product_343) { product<3, 4, 3, double>(); }
OB(product_434) { product<4, 3, 4, double>(); }
OB(product_441) { product<4, 4, 1, double>(); }
OB(product_144) { product<1, 4, 4, double>(); }
OB(product_525) { product<5, 2, 5, double>(); }
OB(product_555) { product<5, 5, 5, double>(); }
OB(square_1) { square<1, double>(); }
OB(square_5) { square<5, double>(); }
OB(square_3i) { square<3, int>(); }
OB(square_3f) { square<3, float>(); }
OB(square_4f) { square<4, float>(); }
OB(mixed_1) { mixed<1>(); }
OB(mixed_4) { mixed<4>(); }
// the result of an assignment form is converted to the value type of its left operand at the end
template<unsigned D> void rounding() {
	const auto a = MSYM(D, D, int, "a"); const auto b = MSYM(D, D, double, "b");
	auto f = sa_real("f");
	auto x = a; x += b; auto y = a; y -= b; auto z = a; z *= b; auto w = a; w *= f;
	for(unsigned i = 0; i < D; ++i) for(unsigned j = 0; j < D; ++j) {
		double e = 0;
		for(unsigned k = 0; k < D; ++k) e += a[i][k] * b[k][j];
		sa_eq(x[i][j], (int) (a[i][j] + b[i][j]), "integer += real"); sa_eq(y[i][j], (int) (a[i][j] - b[i][j]), "integer -= real");
		sa_eq(w[i][j], (int) (a[i][j] * f), "integer *= real factor");
		sa_eq(z[i][j], (int) e, "integer *= real matrix");
	}
}
OB(rounding_1) { rounding<1>(); }
OB(rounding_2) { rounding<2>(); }
OB(rounding_3) { rounding<3>(); }
OB(elementwise_93) { elementwise<9, 3, double>(); }
OB(elementwise_39) { elementwise<3, 9, double>(); }
OB(product_929) { product<9, 2, 9, double>(); }
OB(product_292) { product<2, 9, 2, double>(); }
OB(elementwise_33ld) { elementwise<3, 3, long double>(); }
OB(product_232ld) { product<2, 3, 2, long double>(); }
OB(square_2ld) { square<2, long double>(); }
