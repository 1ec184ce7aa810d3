// sa: min=200
#include <nytl/vecOps.hpp>
#include "num.hpp"
#include <cmath>
namespace cw = nytl::vec::cw;

template<unsigned D, typename T> void minmax() {
	const auto a = VSYM(D, T, "a"), b = VSYM(D, T, "b");
	auto s = sa_sym<T>("s");
	auto mx = cw::max(a, b), mn = cw::min(a, b);
	for(unsigned i = 0; i < D; ++i) {
		sa_eq(mx[i], b[i] > a[i] ? b[i] : a[i], "component-wise maximum");
		sa_eq(mn[i], b[i] < a[i] ? b[i] : a[i], "component-wise minimum");
	}
	(void) s;
}
template<unsigned D, typename T> void minmaxScalar() {
	const auto a = VSYM(D, T, "a");
	auto s = sa_sym<T>("s");
	auto mxs = cw::max(a, s), mns = cw::min(a, s);
	for(unsigned i = 0; i < D; ++i) {
		sa_eq(mxs[i], s > a[i] ? s : a[i], "component-wise maximum with a scalar");
		sa_eq(mns[i], s < a[i] ? s : a[i], "component-wise minimum with a scalar");
	}
}
template<unsigned D> void products() {
	const auto a = VSYM(D, double, "a"), b = VSYM(D, double, "b");
	auto m = cw::multiply(a, b), q = cw::divide(a, b);
	for(unsigned i = 0; i < D; ++i) {
		sa_eq(m[i], a[i] * b[i], "component-wise product");
		sa_eq(q[i], a[i] / b[i], "component-wise quotient");
	}
	const auto k = VSYM(D, int, "k");
	auto m2 = cw::multiply(k, b), q2 = cw::divide(k, b);
	for(unsigned i = 0; i < D; ++i) {
		sa_eq(m2[i], k[i] * b[i], "mixed component-wise product");
		sa_eq(q2[i], k[i] / b[i], "mixed component-wise quotient");
	}
}
template<unsigned D> void cwops() {
	using namespace cw::operators;
	const auto a = VSYM(D, double, "a"), b = VSYM(D, double, "b");
	auto s = sa_real("s");
	auto m = a * b; auto q = a / b;
	auto ps = a + s; auto sp = s + a; auto ms = a - s; auto sm = s - a;
	auto x = a; auto* px = &(x *= b); auto y = a; auto* py = &(y /= b);
	sa_same(px, &x, "*= returns its left operand"); sa_same(py, &y, "/= returns its left operand");
	for(unsigned i = 0; i < D; ++i) {
		sa_eq(m[i], a[i] * b[i], "vec * vec"); sa_eq(q[i], a[i] / b[i], "vec / vec");
		sa_eq(ps[i], a[i] + s, "vec + scalar"); sa_eq(sp[i], s + a[i], "scalar + vec");
		sa_eq(ms[i], a[i] - s, "vec - scalar"); sa_eq(sm[i], s - a[i], "scalar - vec");
		sa_eq(x[i], a[i] * b[i], "vec *= vec"); sa_eq(y[i], a[i] / b[i], "vec /= vec");
	}
}
template<unsigned D> void scalarops() {
	using namespace nytl::vec::operators;
	const auto a = VSYM(D, double, "a");
	auto s = sa_real("s");
	auto m = a * s; auto q = a / s; auto r = s / a;
	for(unsigned i = 0; i < D; ++i) {
		sa_eq(m[i], a[i] * s, "vec * scalar"); sa_eq(q[i], a[i] / s, "vec / scalar");
		sa_eq(r[i], s / a[i], "scalar / vec");
	}
}
#define FUNC(f) template<unsigned D, typename T = double> void do_##f() { \
	const auto a = VSYM(D, T, "a"); \
	auto r = cw::f(a); auto x = a; cw::ip::f(x); \
	for(unsigned i = 0; i < D; ++i) { \
		sa_eq(r[i], std::f(a[i]), #f " of every component"); \
		sa_eq(x[i], std::f(a[i]), "in place " #f " of every component"); } } \
	OB(func_##f##_1) { do_##f<1>(); } \
	OB(func_##f##_4) { do_##f<4>(); } \
	OB(func_##f##_5) { do_##f<5>(); } \
	OB(func_##f##_2f) { do_##f<2, float>(); } \
	OB(func_##f##_3f) { do_##f<3, float>(); } \
	OB(func_##f##_4f) { do_##f<4, float>(); } \
	OB(func_##f##_2) { do_##f<2>(); } \
	OB(func_##f##_3) { do_##f<3>(); }
FUNC(abs) FUNC(sin) FUNC(cos) FUNC(tan) FUNC(asin) FUNC(acos) FUNC(atan)
FUNC(sqrt) FUNC(log) FUNC(exp) FUNC(exp2) FUNC(floor) FUNC(ceil)
OB(func_abs_2i) { do_abs<2, int>(); }
OB(func_abs_3i) { do_abs<3, int>(); }
OB(func_abs_4l) { do_abs<4, long>(); }

template<unsigned D> void dopow() {
	const auto a = VSYM(D, double, "a"), b = VSYM(D, double, "b");
	auto e = sa_real("e");
	auto p = cw::pow(a, e); auto v = cw::pow(a, b);
	auto x = a; cw::ip::pow(x, e); auto y = a; cw::ip::pow(y, b);
	for(unsigned i = 0; i < D; ++i) {
		sa_eq(p[i], std::pow(a[i], e), "pow with a scalar exponent");
		sa_eq(v[i], std::pow(a[i], b[i]), "pow with component-wise exponents");
		sa_eq(x[i], std::pow(a[i], e), "in place pow"); sa_eq(y[i], std::pow(a[i], b[i]), "in place pow");
	}
}
template<typename T> T clampRef(T v, T lo, T hi) { return v < lo ? lo : hi < v ? hi : v; }
template<unsigned D> void doclamp() {
	const auto a = VSYM(D, double, "a");
	auto lo = sa_real("lo"), hi = sa_real("hi");
	sa_assume(lo <= hi);
	auto p = cw::clamp(a, lo, hi); auto x = a; cw::ip::clamp(x, lo, hi);
	for(unsigned i = 0; i < D; ++i) {
		sa_eq(p[i], clampRef(a[i], lo, hi), "clamp to scalar bounds");
		sa_eq(x[i], clampRef(a[i], lo, hi), "in place clamp to scalar bounds");
	}
}
template<unsigned D> void doclampv() {
	const auto a = VSYM(D, double, "a"), lo = VSYM(D, double, "lo"), hi = VSYM(D, double, "hi");
	for(unsigned i = 0; i < D; ++i) sa_assume(lo[i] <= hi[i]);
	auto q = cw::clamp(a, lo, hi); auto y = a; cw::ip::clamp(y, lo, hi);
	for(unsigned i = 0; i < D; ++i) {
		sa_eq(q[i], clampRef(a[i], lo[i], hi[i]), "clamp to component-wise bounds");
		sa_eq(y[i], clampRef(a[i], lo[i], hi[i]), "in place clamp to component-wise bounds");
	}
}
OB(minmax_2) { minmax<2, double>(); }
OB(minmax_3) { minmax<3, double>(); }
OB(minmax_4) { minmax<4, double>(); }
OB(minmax_2i) { minmax<2, int>(); }
OB(minmax_s2) { minmaxScalar<2, double>(); }
OB(minmax_s3) { minmaxScalar<3, int>(); }
OB(products_2) { products<2>(); }
OB(products_3) { products<3>(); }
OB(products_4) { products<4>(); }
OB(cwops_2) { cwops<2>(); }
OB(cwops_3) { cwops<3>(); }
OB(cwops_4) { cwops<4>(); }
OB(scalarops_2) { scalarops<2>(); }
OB(scalarops_3) { scalarops<3>(); }
OB(scalarops_4) { scalarops<4>(); }
OB(pow_2) { dopow<2>(); }
OB(pow_3) { dopow<3>(); }
OB(clamp_2) { doclamp<2>(); }
OB(clamp_3) { doclamp<3>(); }
OB(clampv_2) { doclampv<2>(); }
OB(clampv_3) { doclampv<3>(); }
OB(minmax_1) { minmax<1, double>(); }
OB(minmax_5) { minmax<5, double>(); }
OB(minmax_6) { minmax<6, double>(); }
OB(minmax_3f) { minmax<3, float>(); }
OB(minmax_3i) { minmax<3, int>(); }
OB(minmax_4i) { minmax<4, int>(); }
OB(minmax_3u) { minmax<3, unsigned>(); }
OB(minmax_s1) { minmaxScalar<1, double>(); }
OB(minmax_s4) { minmaxScalar<4, double>(); }
OB(minmax_s5) { minmaxScalar<5, double>(); }
OB(minmax_s2f) { minmaxScalar<2, float>(); }
OB(products_1) { products<1>(); }
OB(products_5) { products<5>(); }
OB(products_6) { products<6>(); }
OB(cwops_1) { cwops<1>(); }
OB(cwops_5) { cwops<5>(); }
OB(cwops_6) { cwops<6>(); }
OB(scalarops_1) { scalarops<1>(); }
OB(scalarops_5) { scalarops<5>(); }
OB(scalarops_6) { scalarops<6>(); }
OB(pow_1) { dopow<1>(); }
OB(pow_4) { dopow<4>(); }
OB(pow_5) { dopow<5>(); }
OB(clamp_1) { doclamp<1>(); }
OB(clamp_4) { doclamp<4>(); }
OB(clamp_5) { doclamp<5>(); }
OB(clampv_1) { doclampv<1>(); }
OB(clampv_4) { doclampv<4>(); }
// many components
OB(products_17) { products<17>(); }
OB(cwops_17) { cwops<17>(); }
OB(scalarops_17) { scalarops<17>(); }
OB(products_18) { products<18>(); }
OB(cwops_11) { cwops<11>(); }
OB(minmax_3ld) { minmax<3, long double>(); }
OB(minmax_s2ld) { minmaxScalar<2, long double>(); }
