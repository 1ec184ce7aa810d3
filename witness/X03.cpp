// sa: min=60
#include "num.hpp"
#include <nytl/transform.hpp>
#include <cmath>

template<std::size_t D, typename P> static void eqM(const nytl::Mat<D, D, P>& m, const double (&e)[3][3], std::size_t n, const char* l) {
	for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < D; ++j)
		sa_eq(m[i][j], i < n && j < n ? e[i < 3 ? i : 0][j < 3 ? j : 0] : (i == j ? 1.0 : 0.0), l);
}
template<std::size_t D, typename P = double> void rot2() {
	auto h = sa_sym<P>("h");
	const double e[3][3] = {{std::cos(h), -std::sin(h), 0}, {std::sin(h), std::cos(h), 0}, {0, 0, 1}};
	eqM(nytl::rotateMat<D, P>(h), e, 2, "rotateMat: counter-clockwise rotation");
}
OB(rot2_2) { rot2<2>(); }
OB(rot2_3) { rot2<3>(); }
OB(rot2_4) { rot2<4>(); }
// Rodrigues
struct RM { double m[3][3]; };
static RM rodrigues(const nytl::Vec3d& x, double c, double s) {
	RM r {};
	const double k[3][3] = {{0, -x[2], x[1]}, {x[2], 0, -x[0]}, {-x[1], x[0], 0}};
	for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j)
		r.m[i][j] = (i == j ? c : 0.0) + s * k[i][j] + (1 - c) * x[i] * x[j];
	return r;
}
template<std::size_t D, typename P = double> void rot3() {
	auto h = sa_sym<P>("h");
	auto x = VSYM(3, P, "x");
	sa_square(x[2], 1 - x[0] * x[0] - x[1] * x[1]);
	auto e = rodrigues(nytl::Vec3d(x), std::cos(h), std::sin(h));
	eqM(nytl::rotateMat<D, P>(x, h), e.m, 3, "rotateMat: rotation around the axis");
}
OB(rot3_3) { rot3<3>(); }
OB(rot3_4) { rot3<4>(); }
OB(rotvec) {
	auto h = sa_real("h");
	auto x = VSYM(3, double, "x"), v = VSYM(3, double, "v");
	sa_square(x[2], 1 - x[0] * x[0] - x[1] * x[1]);
	auto e = rodrigues(x, std::cos(h), std::sin(h));
	auto r = nytl::rotate(v, x, h);
	for(int i = 0; i < 3; ++i) sa_eq(r[i], e.m[i][0] * v[0] + e.m[i][1] * v[1] + e.m[i][2] * v[2], "rotate: rotation of the vector around the axis");
}
OB(quatagree) {
	// the matrix of an axis-angle quaternion is the rotation matrix of axis and angle
	auto h = sa_real("h");
	auto x = VSYM(3, double, "x");
	sa_square(x[2], 1 - x[0] * x[0] - x[1] * x[1]);
	auto m = nytl::toMat<3, double>(nytl::Quaternion::axisAngle(x[0], x[1], x[2], 2 * h));
	auto r = nytl::rotateMat<3, double>(x, 2 * h);
	for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) sa_eq(m[i][j], r[i][j], "axisAngle and rotateMat describe the same rotation");
}
OB(orient2) {
	auto a = VSYM(2, double, "a"), b = VSYM(2, double, "b");
	sa_square(a[1], 1 - a[0] * a[0]); sa_square(b[1], 1 - b[0] * b[0]);
	auto m = nytl::orientMat<2, double>(a, b);
	for(int i = 0; i < 2; ++i) sa_eq(m[i][0] * a[0] + m[i][1] * a[1], b[i], "orientMat maps from to to");
	sa_eq(m[0][0] * m[1][1] - m[0][1] * m[1][0], 1.0, "orientMat is a rotation");
	for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j)
		sa_eq(m[0][i] * m[0][j] + m[1][i] * m[1][j], i == j ? 1.0 : 0.0, "orientMat is a rotation");
}
template<std::size_t D> void orient3() {
	auto a = VSYM(3, double, "a"), b = VSYM(3, double, "b");
	sa_square(a[2], 1 - a[0] * a[0] - a[1] * a[1]); sa_square(b[2], 1 - b[0] * b[0] - b[1] * b[1]);
	auto c = a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
	sa_assume(1.0 + c != 0.0);
	auto m = nytl::orientMat<D, double>(a, b);
	for(int i = 0; i < 3; ++i) sa_eq(m[i][0] * a[0] + m[i][1] * a[1] + m[i][2] * a[2], b[i], "orientMat maps from to to");
	for(int i = 0; i < 3; ++i) for(int j = i; j < 3; ++j)
		sa_eq(m[0][i] * m[0][j] + m[1][i] * m[1][j] + m[2][i] * m[2][j], i == j ? 1.0 : 0.0, "orientMat is a rotation");
	// trace of a rotation: 1 + 2 cos(angle)
	sa_eq(m[0][0] + m[1][1] + m[2][2], 1 + 2 * c, "orientMat rotates by the angle between the vectors");
	for(std::size_t i = 3; i < D; ++i) for(std::size_t j = 0; j < D; ++j) { sa_eq(m[i][j], i == j ? 1.0 : 0.0, "expanded as identity"); sa_eq(m[j][i], i == j ? 1.0 : 0.0, "expanded as identity"); }
}
OB(orient3_3) { orient3<3>(); }
OB(orient3_4) { orient3<4>(); }
OB(base) {
	auto d = VSYM(3, double, "d");
	sa_square(d[0], 1 - d[2] * d[2] - d[1] * d[1]);
	sa_assume(d[2] > -0.999);
	auto b = nytl::base(d);
	sa_eq(b[0][0] * d[0] + b[0][1] * d[1] + b[0][2] * d[2], 0.0, "base: orthogonal to the direction");
	sa_eq(b[1][0] * d[0] + b[1][1] * d[1] + b[1][2] * d[2], 0.0, "base: orthogonal to the direction");
	sa_eq(b[1][0] * b[0][0] + b[1][1] * b[0][1] + b[1][2] * b[0][2], 0.0, "base: orthogonal to each other");
	for(int k = 0; k < 2; ++k) sa_eq(b[k][0] * b[k][0] + b[k][1] * b[k][1] + b[k][2] * b[k][2], 1.0, "base: unit vectors");
}
OB(base_singular) {
	sa_divisors(1);
	auto b = nytl::base(nytl::Vec3d{0.0, 0.0, -1.0});
	sa_eq(b[0][2], 0.0, "base: orthogonal to the direction"); sa_eq(b[1][2], 0.0, "base: orthogonal to the direction");
	sa_eq(b[1][0] * b[0][0] + b[1][1] * b[0][1], 0.0, "base: orthogonal to each other");
	for(int k = 0; k < 2; ++k) sa_eq(b[k][0] * b[k][0] + b[k][1] * b[k][1] + b[k][2] * b[k][2], 1.0, "base: unit vectors");
}
OB(base_defined) {
	sa_divisors(1);
	auto b = nytl::base(VSYM(3, double, "d"));
	(void) b;
	sa_reach("base never divides by zero");
}
OB(rot2_5) { rot2<5>(); }
OB(rot2_2f) { rot2<2, float>(); }
OB(rot2_3f) { rot2<3, float>(); }
OB(rot2_4f) { rot2<4, float>(); }
OB(rot3_5) { rot3<5>(); }
OB(rot3_3f) { rot3<3, float>(); }
OB(rot3_4f) { rot3<4, float>(); }
OB(rotvecf) {
	auto h = sa_realf("h");
	auto x = VSYM(3, float, "x"), v = VSYM(3, float, "v");
	sa_square(x[2], 1 - x[0] * x[0] - x[1] * x[1]);
	auto e = rodrigues(nytl::Vec3d(x), std::cos(h), std::sin(h));
	auto r = nytl::rotate(v, x, h);
	for(int i = 0; i < 3; ++i) sa_eq(r[i], e.m[i][0] * v[0] + e.m[i][1] * v[1] + e.m[i][2] * v[2], "rotate: rotation of the vector around the axis");
}
// the special axes, also as rotation in the plane
template<typename P> void axes() {
	auto h = sa_sym<P>("h");
	for(int k = 0; k < 3; ++k) {
		nytl::Vec3<P> x {}; x[k] = 1;
		auto e = rodrigues(nytl::Vec3d(x), std::cos(h), std::sin(h));
		eqM(nytl::rotateMat<3, P>(x, h), e.m, 3, "rotateMat: rotation around a coordinate axis");
		eqM(nytl::rotateMat<4, P>(x, h), e.m, 3, "rotateMat: rotation around a coordinate axis");
	}
}
OB(axes) { axes<double>(); }
OB(axesf) { axes<float>(); }
