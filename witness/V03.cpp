// sa: min=60
#include <nytl/vecOps.hpp>
#include "num.hpp"
#include <cmath>

template<unsigned D, typename T> void reductions() {
	const auto a = VSYM(D, T, "a"), b = VSYM(D, T, "b");
	T s = 0, p = 1, d = 0, aa = 0, bb = 0, dd = 0;
	for(unsigned i = 0; i < D; ++i) {
		s += a[i]; p *= a[i]; d += a[i] * b[i]; aa += a[i] * a[i]; bb += b[i] * b[i];
		dd += (a[i] - b[i]) * (a[i] - b[i]);
	}
	sa_eq(nytl::sum(a), s, "sum");
	sa_eq(nytl::multiply(a), p, "multiply");
	sa_eq(nytl::dot(a, b), d, "dot");
	sa_eq(nytl::dot(b, a), d, "dot is symmetric");
	sa_eq(nytl::length(a), std::sqrt(aa), "length is the euclidean norm");
	sa_eq(nytl::distance(a, b), std::sqrt(dd), "distance");
	sa_eq(nytl::distance(b, a), std::sqrt(dd), "distance is symmetric");
	sa_eq(nytl::distance(a, a), T(0), "distance to itself");
	auto n = nytl::normalized(a);
	for(unsigned i = 0; i < D; ++i) sa_eq(n[i], a[i] / std::sqrt(aa), "normalized divides by the length");
	sa_eq(nytl::dot(n, n), T(1), "normalized has length one");
	auto m = a; nytl::normalize(m);
	for(unsigned i = 0; i < D; ++i) sa_eq(m[i], a[i] / std::sqrt(aa), "normalize");
	auto r = nytl::mirror(a, b);
	for(unsigned i = 0; i < D; ++i) sa_eq(r[i], 2 * a[i] - b[i], "mirror");
}
template<unsigned D, typename T> void ints() {
	const auto a = VSYM(D, T, "a"), b = VSYM(D, T, "b");
	T s = 0, p = 1, d = 0;
	for(unsigned i = 0; i < D; ++i) { s += a[i]; p *= a[i]; d += a[i] * b[i]; }
	sa_eq(nytl::sum(a), s, "sum");
	sa_eq(nytl::multiply(a), p, "multiply");
	sa_eq(nytl::dot(a, b), d, "dot");
	auto r = nytl::mirror(a, b);
	for(unsigned i = 0; i < D; ++i) sa_eq(r[i], 2 * a[i] - b[i], "mirror");
}
template<unsigned D> void mixed() {
	const auto a = VSYM(D, int, "a"); const auto b = VSYM(D, double, "b");
	double d = 0, dd = 0;
	for(unsigned i = 0; i < D; ++i) { d += a[i] * b[i]; dd += (a[i] - b[i]) * (a[i] - b[i]); }
	sa_eq(nytl::dot(a, b), d, "mixed dot is computed in the common type");
	sa_eq(nytl::dot(b, a), d, "mixed dot is computed in the common type");
	sa_eq(nytl::distance(a, b), std::sqrt(dd), "mixed distance");
}
// angle: cos(angle) * |a| * |b| == dot on the range where the cosine is in [-1, 1]
template<unsigned D> void angles() {
	const auto a = VSYM(D, double, "a"), b = VSYM(D, double, "b");
	auto l = nytl::length(a) * nytl::length(b);
	double d = nytl::dot(a, b);
	auto v = d / l;
	auto r = nytl::angle(a, b);
	if(v < -1.0) sa_eq(r, std::acos(-1.0), "angle clamps rounding errors at -1");
	else if(v > 1.0) sa_eq(r, std::acos(1.0), "angle clamps rounding errors at 1");
	else sa_eq(r, std::acos(v), "angle is acos(dot / (|a| |b|))");
	auto rn = nytl::angleNormed(a, b);
	if(d < -1.0) sa_eq(rn, std::acos(-1.0), "angleNormed clamps at -1");
	else if(d > 1.0) sa_eq(rn, std::acos(1.0), "angleNormed clamps at 1");
	else sa_eq(rn, std::acos(d), "angleNormed is acos(dot)");
}
OB(reductions_2) { reductions<2, double>(); }
OB(reductions_3) { reductions<3, double>(); }
OB(reductions_4) { reductions<4, double>(); }
OB(reductions_5) { reductions<5, double>(); }
OB(reductions_2f) { reductions<2, float>(); }
OB(reductions_3f) { reductions<3, float>(); }
OB(ints_2) { ints<2, int>(); }
OB(ints_3) { ints<3, int>(); }
OB(ints_4) { ints<4, int>(); }
OB(mixed_2) { mixed<2>(); }
OB(mixed_3) { mixed<3>(); }
OB(mixed_4) { mixed<4>(); }
OB(angle_2) { angles<2>(); }
OB(angle_3) { angles<3>(); }
OB(cross3) {
	const auto a = VSYM(3, double, "a"), b = VSYM(3, double, "b");
	auto c = nytl::cross(a, b);
	sa_eq(c[0], a[1] * b[2] - a[2] * b[1], "cross x");
	sa_eq(c[1], a[2] * b[0] - a[0] * b[2], "cross y");
	sa_eq(c[2], a[0] * b[1] - a[1] * b[0], "cross z");
	sa_eq(nytl::dot(c, a), 0.0, "cross is orthogonal to its first operand");
	sa_eq(nytl::dot(c, b), 0.0, "cross is orthogonal to its second operand");
	auto d = nytl::cross(b, a);
	for(unsigned i = 0; i < 3; ++i) sa_eq(d[i], -c[i], "cross is antisymmetric");
	auto dd = nytl::dot(a, b);
	sa_eq(nytl::dot(c, c), nytl::dot(a, a) * nytl::dot(b, b) - dd * dd, "Lagrange identity");
}
OB(cross3_mixed) {
	const auto a = VSYM(3, int, "a"); const auto b = VSYM(3, double, "b");
	auto c = nytl::cross(a, b);
	sa_eq(c[0], a[1] * b[2] - a[2] * b[1], "cross x");
	sa_eq(c[1], a[2] * b[0] - a[0] * b[2], "cross y");
	sa_eq(c[2], a[0] * b[1] - a[1] * b[0], "cross z");
}
OB(cross2) {
	const auto a = VSYM(2, double, "a"), b = VSYM(2, double, "b");
	sa_eq(nytl::cross(a, b), a[0] * b[1] - a[1] * b[0], "2d cross");
	sa_eq(nytl::cross(a, a), 0.0, "2d cross with itself");
}
OB(normals) {
	const auto a = VSYM(2, double, "a");
	auto l = nytl::rho::lnormal(a), r = nytl::rho::rnormal(a);
	auto ll = nytl::lho::lnormal(a), lr = nytl::lho::rnormal(a);
	sa_eq(nytl::dot(l, a), 0.0, "normal is orthogonal");
	sa_eq(nytl::dot(ll, a), 0.0, "normal is orthogonal");
	sa_eq(nytl::cross(a, l), nytl::dot(a, a), "right-handed left normal");
	sa_eq(nytl::cross(a, r), -nytl::dot(a, a), "right-handed right normal");
	sa_eq(nytl::cross(a, ll), -nytl::dot(a, a), "left-handed left normal");
	sa_eq(nytl::cross(a, lr), nytl::dot(a, a), "left-handed right normal");
}
OB(reductions_1) { reductions<1, double>(); }
OB(reductions_6) { reductions<6, double>(); }
OB(reductions_7) { reductions<7, double>(); }
OB(reductions_8) { reductions<8, double>(); }
OB(reductions_4f) { reductions<4, float>(); }
OB(reductions_5f) { reductions<5, float>(); }
OB(ints_1) { ints<1, int>(); }
OB(ints_5) { ints<5, int>(); }
OB(ints_8) { ints<8, int>(); }
OB(ints_3u) { ints<3, unsigned>(); }
OB(ints_3l) { ints<3, long>(); }
OB(ints_4l) { ints<4, long>(); }
OB(mixed_1) { mixed<1>(); }
OB(mixed_5) { mixed<5>(); }
OB(mixed_6) { mixed<6>(); }
OB(angle_1) { angles<1>(); }
OB(angle_4) { angles<4>(); }
OB(angle_5) { angles<5>(); }
// many components
OB(reductions_9) { reductions<9, double>(); }
OB(reductions_17) { reductions<17, double>(); }
OB(ints_17) { ints<17, int>(); }
OB(mixed_17) { mixed<17>(); }
OB(reductions_11) { reductions<11, double>(); }
OB(reductions_18) { reductions<18, double>(); }
OB(reductions_3ld) { reductions<3, long double>(); }
OB(reductions_4ld) { reductions<4, long double>(); }
