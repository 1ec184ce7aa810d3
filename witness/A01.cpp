// sa: min=30
#include "num.hpp"
#include <nytl/approx.hpp>
#include <nytl/approxVec.hpp>

static bool near(double a, double b, double eps) {
	auto aa = a < 0 ? -a : a, ab = b < 0 ? -b : b;
	auto m = aa < ab ? ab : aa;
	auto d = a - b; if(d < 0) d = -d;
	return d < eps * (1 + m);
}
template<typename X = double, typename V = double> void scalar() {
	auto x = sa_sym<X>("x"); auto v = sa_sym<V>("v"); auto e = sa_real("e");
	auto a = nytl::approx(v, e);
	bool n = near(x, v, e);
	sa_eq(x == a, n, "x == approx(v, e): the distance is below the scaled epsilon");
	sa_eq(a == x, n, "== is symmetric");
	sa_eq(x != a, !n, "!= is the negation");
	sa_eq(a != x, !n, "!= is the negation");
}
OB(scalard) { scalar(); }
// the value is compared as it is, also with approximate values of less precision
OB(scalarf) { scalar<float, float>(); }
OB(scalarfd) { scalar<float, double>(); }
OB(scalardf) { sa_precise(1); scalar<double, float>(); }
OB(scalaridf) { scalar<int, float>(); }
OB(scalarid) { scalar<int, double>(); }
OB(self) {
	auto x = sa_real("x"), e = sa_real("e");
	sa_assume(e > 0);
	sa_expect(x == nytl::approx(x, e), "a value approximates itself");
	sa_expect(x == nytl::approx(x), "a value approximates itself with the default epsilon");
	auto a = nytl::approx(x);
	sa_eq(a.epsilon, nytl::defaultApproxEpsilon, "default epsilon");
	sa_expect(nytl::defaultApproxEpsilon > 0 && nytl::defaultApproxEpsilon < 1e-4, "default epsilon is small");
}
OB(complex) {
	std::complex<double> x(sa_real("xr"), sa_real("xi")), v(sa_real("vr"), sa_real("vi"));
	auto e = sa_real("e");
	auto a = nytl::approx(v, e);
	bool n = near(x.real(), v.real(), e) && near(x.imag(), v.imag(), e);
	sa_eq(x == a, n, "complex: both parts are compared");
	sa_eq(a == x, n, "== is symmetric");
	sa_eq(x != a, !n, "!= is the negation");
	sa_eq(a != x, !n, "!= is the negation");
}
template<std::size_t D, typename X = double, typename V = double> void vec() {
	const auto x = VSYM(D, X, "x"); const auto v = VSYM(D, V, "v");
	auto e = sa_real("e");
	auto a = nytl::approx(v, e);
	bool n = true;
	for(std::size_t i = 0; i < D; ++i) n = n && near(x[i], v[i], e);
	sa_eq(x == a, n, "vector: every component is compared");
	sa_eq(a == x, n, "== is symmetric");
	sa_eq(x != a, !n, "!= is the negation");
	sa_eq(a != x, !n, "!= is the negation");
}
OB(vec1) { vec<1>(); }
OB(vec2) { vec<2>(); }
OB(vec3) { vec<3>(); }
OB(vec2f) { vec<2, float, float>(); }
OB(vec2df) { sa_precise(1); vec<2, double, float>(); }
OB(vecsize) {
	const auto x = VSYM(2, double, "x");
	const auto v = VSYM(3, double, "v");
	sa_expect(!(x == nytl::approx(v, 1.0)), "vectors of different dimension are never approximately equal");
	sa_expect(x != nytl::approx(v, 1.0), "vectors of different dimension are never approximately equal");
}
template<std::size_t R, std::size_t C, typename X = double, typename V = double> void mat() {
	const auto x = MSYM(R, C, X, "x"); const auto v = MSYM(R, C, V, "v");
	auto e = sa_real("e");
	auto a = nytl::approx(v, e);
	bool n = true;
	for(std::size_t i = 0; i < R; ++i) for(std::size_t j = 0; j < C; ++j) n = n && near(x[i][j], v[i][j], e);
	sa_eq(x == a, n, "matrix: every component is compared");
	sa_eq(a == x, n, "== is symmetric");
	sa_eq(x != a, !n, "!= is the negation");
	sa_eq(a != x, !n, "!= is the negation");
}
OB(mat11f) { mat<1, 1, float, float>(); }
OB(mat11df) { sa_precise(1); mat<1, 1, double, float>(); }
OB(mat11) { mat<1, 1>(); }
OB(mat12) { mat<1, 2>(); }
OB(mat21) { mat<2, 1>(); }
// larger ones: every single component decides
template<std::size_t D> void component() {
	auto e = sa_real("e");
	sa_assume(e > 0);
	for(std::size_t k = 0; k < D; ++k) {
		nytl::Vec<D, double> x {}; auto v = x;
		x[k] = sa_real("x"); v[k] = sa_real("y");
		auto a = nytl::approx(v, e);
		bool n = near(x[k], v[k], e);
		sa_eq(x == a, n, "vector: every component is compared"); sa_eq(a == x, n, "== is symmetric");
		sa_eq(x != a, !n, "!= is the negation"); sa_eq(a != x, !n, "!= is the negation");
	}
}
template<std::size_t R, std::size_t C> void element() {
	auto e = sa_real("e");
	sa_assume(e > 0);
	for(std::size_t i = 0; i < R; ++i) for(std::size_t j = 0; j < C; ++j) {
		nytl::Mat<R, C, double> x {}; auto v = x;
		x[i][j] = sa_real("x"); v[i][j] = sa_real("y");
		auto a = nytl::approx(v, e);
		bool n = near(x[i][j], v[i][j], e);
		sa_eq(x == a, n, "matrix: every component is compared"); sa_eq(a == x, n, "== is symmetric");
		sa_eq(x != a, !n, "!= is the negation"); sa_eq(a != x, !n, "!= is the negation");
	}
}
OB(component4) { component<4>(); }
OB(component5) { component<5>(); }
OB(component8) { component<8>(); }
OB(element22) { element<2, 2>(); }
OB(element33) { element<3, 3>(); }
OB(element44) { element<4, 4>(); }
OB(element23) { element<2, 3>(); }
OB(element42) { element<4, 2>(); }
OB(component17) { component<17>(); }
