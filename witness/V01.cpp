// sa: min=300
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include "num.hpp"

template<unsigned D, typename T> void arith() {
	const auto a = VSYM(D, T, "a"), b = VSYM(D, T, "b");
	auto f = sa_sym<T>("f");
	auto s = a + b, d = a - b;
	auto n = -a, p = +a;
	auto m = f * a;
	for(unsigned i = 0; i < D; ++i) {
		sa_eq(s[i], T(a[i] + b[i]), "(a + b)[i] == a[i] + b[i]");
		sa_eq(d[i], T(a[i] - b[i]), "(a - b)[i] == a[i] - b[i]");
		sa_eq(n[i], T(-a[i]), "(-a)[i] == -a[i]");
		sa_eq(p[i], a[i], "(+a)[i] == a[i]");
		sa_eq(m[i], T(f * a[i]), "(f * a)[i] == f * a[i]");
	}
	auto x = a;
	auto* r = &(x += b);
	sa_same(r, &x, "+= returns its left operand");
	for(unsigned i = 0; i < D; ++i) sa_eq(x[i], T(a[i] + b[i]), "a += b");
	x = a; r = &(x -= b);
	sa_same(r, &x, "-= returns its left operand");
	for(unsigned i = 0; i < D; ++i) sa_eq(x[i], T(a[i] - b[i]), "a -= b");
	x = a; r = &(x *= f);
	sa_same(r, &x, "*= returns its left operand");
	for(unsigned i = 0; i < D; ++i) sa_eq(x[i], T(a[i] * f), "a *= f");
	const auto a2 = VSYM(D, T, "a"), b2 = VSYM(D, T, "b");
	for(unsigned i = 0; i < D; ++i) {
		sa_eq(a[i], a2[i], "operands are unchanged");
		sa_eq(b[i], b2[i], "operands are unchanged");
	}
}
template<unsigned D, typename T> void compare() {
	const auto a = VSYM(D, T, "a"), b = VSYM(D, T, "b");
	bool all = true;
	for(unsigned i = 0; i < D; ++i) all = all && a[i] == b[i];
	sa_eq(a == b, all, "a == b iff all components are equal");
	sa_eq(a != b, !all, "a != b iff some component differs");
	sa_expect(a == a, "a == a");
}
// operands of different value types
template<unsigned D> void mixed() {
	const auto a = VSYM(D, int, "a"); const auto b = VSYM(D, double, "b");
	auto s = a + b, d = a - b; auto s2 = b + a;
	auto m = 0.5 * a;
	auto x = b; x += a; auto y = b; y -= a; auto z = b; z *= a[0];
	static_assert(std::is_same_v<decltype(s), nytl::Vec<D, double>>);
	static_assert(std::is_same_v<decltype(m), nytl::Vec<D, double>>);
	for(unsigned i = 0; i < D; ++i) {
		sa_eq(s[i], a[i] + b[i], "mixed a + b");
		sa_eq(s2[i], a[i] + b[i], "mixed b + a");
		sa_eq(d[i], a[i] - b[i], "mixed a - b");
		sa_eq(m[i], 0.5 * a[i], "mixed f * a is computed in the common type");
		sa_eq(x[i], b[i] + a[i], "mixed a += b");
		sa_eq(y[i], b[i] - a[i], "mixed a -= b");
		sa_eq(z[i], b[i] * a[0], "mixed a *= f");
	}
	bool all = true;
	for(unsigned i = 0; i < D; ++i) all = all && a[i] == b[i];
	sa_eq(a == b, all, "mixed ==");
}
OB(arith_1d) { arith<1, double>(); }
OB(arith_2d) { arith<2, double>(); }
OB(arith_3d) { arith<3, double>(); }
OB(arith_4d) { arith<4, double>(); }
OB(arith_5d) { arith<5, double>(); }
OB(arith_2f) { arith<2, float>(); }
OB(arith_3f) { arith<3, float>(); }
OB(arith_2i) { arith<2, int>(); }
OB(arith_3i) { arith<3, int>(); }
OB(arith_4i) { arith<4, int>(); }
OB(compare_2d) { compare<2, double>(); }
OB(compare_3d) { compare<3, double>(); }
OB(compare_4d) { compare<4, double>(); }
OB(compare_2i) { compare<2, int>(); }
OB(compare_3i) { compare<3, int>(); }
OB(compare_4i) { compare<4, int>(); }
OB(mixed_2) { mixed<2>(); }
OB(mixed_3) { mixed<3>(); }
OB(mixed_4) { mixed<4>(); }
// the operands of an assignment may be the same object
template<unsigned D> void alias() {
	const auto a = VSYM(D, double, "a");
	auto x = a; x += x; auto y = a; y -= y;
	for(unsigned i = 0; i < D; ++i) {
		sa_eq(x[i], 2 * a[i], "a += a");
		sa_eq(y[i], 0.0, "a -= a");
	}
	for(unsigned k = 0; k < D; ++k) {
		auto z = a; z *= z[k];
		for(unsigned i = 0; i < D; ++i) sa_eq(z[i], a[i] * a[k], "a *= a[k] scales by the old value");
	}
}
OB(alias_2) { alias<2>(); }
OB(alias_3) { alias<3>(); }
OB(alias_4) { alias<4>(); }
// every other number of components and value type
OB(arith_1i) { arith<1, int>(); }
OB(arith_5i) { arith<5, int>(); }
OB(arith_6d) { arith<6, double>(); }
OB(arith_7d) { arith<7, double>(); }
OB(arith_8d) { arith<8, double>(); }
OB(arith_8i) { arith<8, int>(); }
OB(arith_1f) { arith<1, float>(); }
OB(arith_4f) { arith<4, float>(); }
OB(arith_5f) { arith<5, float>(); }
OB(arith_2u) { arith<2, unsigned>(); }
OB(arith_3u) { arith<3, unsigned>(); }
OB(arith_4u) { arith<4, unsigned>(); }
OB(arith_2l) { arith<2, long>(); }
OB(arith_3l) { arith<3, long>(); }
OB(arith_4l) { arith<4, long>(); }
OB(compare_1d) { compare<1, double>(); }
OB(compare_5d) { compare<5, double>(); }
OB(compare_6d) { compare<6, double>(); }
OB(compare_2f) { compare<2, float>(); }
OB(compare_3f) { compare<3, float>(); }
OB(compare_4f) { compare<4, float>(); }
OB(compare_1i) { compare<1, int>(); }
OB(compare_5i) { compare<5, int>(); }
OB(compare_3u) { compare<3, unsigned>(); }
OB(compare_3l) { compare<3, long>(); }
OB(mixed_1) { mixed<1>(); }
OB(mixed_5) { mixed<5>(); }
OB(mixed_6) { mixed<6>(); }
OB(alias_1) { alias<1>(); }
OB(alias_5) { alias<5>(); }
OB(alias_6) { alias<6>(); }
// the result of an assignment form is converted to the value type of its left operand at the end
template<unsigned D> void rounding() {
	const auto a = VSYM(D, int, "a"); const auto b = VSYM(D, double, "b");
	auto f = sa_real("f");
	auto x = a; x += b; auto y = a; y -= b; auto w = a; w *= f;
	for(unsigned i = 0; i < D; ++i) {
		sa_eq(x[i], (int) (a[i] + b[i]), "integer += real"); sa_eq(y[i], (int) (a[i] - b[i]), "integer -= real");
		sa_eq(w[i], (int) (a[i] * f), "integer *= real factor");
	}
}
OB(rounding_2) { rounding<2>(); }
OB(rounding_3) { rounding<3>(); }
// many components
OB(arith_17d) { arith<17, double>(); }
OB(compare_9d) { compare<9, double>(); }
OB(compare_17i) { compare<17, int>(); }
OB(mixed_17) { mixed<17>(); }
OB(alias_17) { alias<17>(); }
OB(arith_11d) { arith<11, double>(); }
OB(arith_18i) { arith<18, int>(); }
OB(compare_18i) { compare<18, int>(); }
OB(arith_3ld) { arith<3, long double>(); }
OB(compare_2ld) { compare<2, long double>(); }
