// sa: min=60
#include "num.hpp"
#include <nytl/transform.hpp>
#include <cmath>

template<typename P> static double at3(const nytl::Mat<4, 4, P>& m, int i, const nytl::Vec3<P>& p) { return m[i][0] * p[0] + m[i][1] * p[1] + m[i][2] * p[2] + m[i][3]; }

template<typename P> void lookAtQuat() {
	const nytl::Quaternion q {sa_real("qx"), sa_real("qy"), sa_real("qz"), sa_real("qw")};
	sa_square(q.w, 1 - q.x * q.x - q.y * q.y - q.z * q.z);
	auto pos = VSYM(3, P, "p");
	auto m = nytl::lookAt<4, P>(q, pos);
	for(int i = 0; i < 3; ++i) sa_eq(at3(m, i, pos), 0.0, "lookAt: the position is mapped to the origin");
	for(int k = 0; k < 3; ++k) {
		auto e = nytl::apply(q, nytl::Vec3d{k == 0 ? 1.0 : 0.0, k == 1 ? 1.0 : 0.0, k == 2 ? 1.0 : 0.0});
		for(int i = 0; i < 3; ++i) sa_eq(m[i][0] * e[0] + m[i][1] * e[1] + m[i][2] * e[2], i == k ? 1.0 : 0.0, "lookAt: the orientation is mapped to the axes");
	}
	for(int j = 0; j < 4; ++j) sa_eq(m[3][j], j == 3 ? 1.0 : 0.0, "lookAt is affine");
}
OB(lookAtQuatd) { lookAtQuat<double>(); }
OB(lookAtQuatf) { lookAtQuat<float>(); }
struct Frame { nytl::Vec3d z = VSYM(3, double, "z"), up = VSYM(3, double, "u"); double cross2;
	Frame() {
		sa_square(z[2], 1 - z[0] * z[0] - z[1] * z[1]);
		double c[3] = {up[1] * z[2] - up[2] * z[1], up[2] * z[0] - up[0] * z[2], up[0] * z[1] - up[1] * z[0]};
		cross2 = c[0] * c[0] + c[1] * c[1] + c[2] * c[2];
		sa_assume(std::sqrt(cross2) != 0.0);
	}
};
template<std::size_t D, typename P> static void frame(const Frame& f, const nytl::Mat<D, D, P>& m) {
	for(int i = 0; i < 3; ++i) for(int j = i; j < 3; ++j)
		sa_eq(m[i][0] * m[j][0] + m[i][1] * m[j][1] + m[i][2] * m[j][2], i == j ? 1.0 : 0.0, "lookAt: orthonormal");
	for(int i = 0; i < 3; ++i) sa_eq(m[i][0] * f.z[0] + m[i][1] * f.z[1] + m[i][2] * f.z[2], i == 2 ? 1.0 : 0.0, "lookAt: z is mapped to the z axis");
	sa_eq(m[0][0] * f.up[0] + m[0][1] * f.up[1] + m[0][2] * f.up[2], 0.0, "lookAt: up has no x component");
	// positive y component: up . y = |up x z|
	auto y = m[1][0] * f.up[0] + m[1][1] * f.up[1] + m[1][2] * f.up[2];
	sa_eq(y, std::sqrt(f.cross2), "lookAt: up has a positive y component");
	// right-handed rows
	sa_eq(m[0][1] * m[1][2] - m[0][2] * m[1][1], m[2][0], "lookAt: no mirroring");
	sa_eq(m[0][2] * m[1][0] - m[0][0] * m[1][2], m[2][1], "lookAt: no mirroring");
	sa_eq(m[0][0] * m[1][1] - m[0][1] * m[1][0], m[2][2], "lookAt: no mirroring");
}
OB(lookAtVec) {
	Frame f;
	auto pos = VSYM(3, double, "p");
	auto m = nytl::lookAt(pos, f.z, f.up);
	frame(f, m);
	for(int i = 0; i < 3; ++i) sa_eq(at3(m, i, pos), 0.0, "lookAt: the position is mapped to the origin");
	for(int j = 0; j < 4; ++j) sa_eq(m[3][j], j == 3 ? 1.0 : 0.0, "lookAt is affine");
}
OB(lookAt3) { Frame f; frame(f, nytl::lookAt<3, double>(f.z, f.up)); }
OB(lookAt4) {
	Frame f;
	auto m = nytl::lookAt<4, double>(f.z, f.up);
	frame(f, m);
	for(int i = 0; i < 4; ++i) { sa_eq(m[3][i], i == 3 ? 1.0 : 0.0, "without translation"); sa_eq(m[i][3], i == 3 ? 1.0 : 0.0, "without translation"); }
}
template<std::size_t D, std::size_t R> void scaleTrans() {
	auto s = VSYM(R, double, "s");
	auto m = nytl::scaleMat<D, double>(s);
	auto t = nytl::translateMat<D, double>(s);
	for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < D; ++j) {
		sa_eq(m[i][j], i == j ? (i < R ? s[i < R ? i : 0] : 1.0) : 0.0, "scaleMat: factors on the diagonal");
		if(R < D) sa_eq(t[i][j], j == D - 1 && i < R && i < D - 1 ? s[i < R ? i : 0] : (i == j ? 1.0 : 0.0), "translateMat: offsets in the last column");
	}
}
OB(st43) { scaleTrans<4, 3>(); }
OB(st42) { scaleTrans<4, 2>(); }
OB(st32) { scaleTrans<3, 2>(); }
OB(expand) {
	auto a = MSYM(2, 2, double, "a");
	auto m = nytl::expandIdentity<4, double>(a);
	for(std::size_t i = 0; i < 4; ++i) for(std::size_t j = 0; j < 4; ++j)
		sa_eq(m[i][j], i < 2 && j < 2 ? a[i < 2 ? i : 0][j < 2 ? j : 0] : (i == j ? 1.0 : 0.0), "expandIdentity: the matrix in the corner of an identity");
}
OB(multPos) {
	auto m = MSYM(4, 4, double, "m");
	auto v = VSYM(3, double, "v");
	auto w = m[3][0] * v[0] + m[3][1] * v[1] + m[3][2] * v[2] + m[3][3];
	sa_assume(w != 0.0);
	auto r = nytl::multPos(m, v);
	for(int i = 0; i < 3; ++i) sa_eq(r[i] * w, at3(m, i, v), "multPos: homogeneous coordinates");
}
template<std::size_t D, typename F> void pre(F f, const nytl::Mat<D, D, double>& t, const char* l) {
	const auto m = MSYM(D, D, double, "m");
	auto r = m;
	f(r);
	for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < D; ++j) {
		double e = 0;
		for(std::size_t k = 0; k < D; ++k) e += t[i][k] * m[k][j];
		sa_eq(r[i][j], e, l);
	}
}
OB(pretranslate) { auto t = VSYM(3, double, "t"); pre<4>([&](auto& m) { nytl::translate(m, t); }, nytl::translateMat<4, double>(t), "translate is applied after the matrix"); }
OB(prescale) { auto t = VSYM(3, double, "t"); pre<4>([&](auto& m) { nytl::scale(m, t); }, nytl::scaleMat<4, double>(t), "scale is applied after the matrix"); }
OB(prerotate) { auto t = VSYM(3, double, "t"); auto a = sa_real("a"); pre<4>([&](auto& m) { nytl::rotate(m, t, a); }, nytl::rotateMat<4, double>(t, a), "rotate is applied after the matrix"); }
OB(prerotate2) { auto a = sa_real("a"); pre<3>([&](auto& m) { nytl::rotate(m, a); }, nytl::rotateMat<3, double>(a), "rotate is applied after the matrix"); }
template<std::size_t A, std::size_t D> nytl::Mat<D, D, double> flipM() { nytl::Mat<D, D, double> r {}; for(std::size_t i = 0; i < D; ++i) r[i][i] = i == A ? -1.0 : 1.0; return r; }
OB(flip0) { pre<4>([&](auto& m) { nytl::flipAxis<0>(m); }, flipM<0, 4>(), "flipAxis negates the row"); }
OB(flip3) { pre<4>([&](auto& m) { nytl::flipAxis<3>(m); }, flipM<3, 4>(), "flipAxis negates the row"); }
OB(flipY) { pre<4>([&](auto& m) { nytl::flipY(m); }, flipM<1, 4>(), "flipY negates the second row"); }
OB(flipZ) { pre<4>([&](auto& m) { nytl::flipZ(m); }, flipM<2, 4>(), "flipZ negates the third row"); }
OB(flippedY) { pre<4>([&](auto& m) { m = nytl::flippedY(m); }, flipM<1, 4>(), "flippedY negates the second row"); }
OB(flippedZ) { pre<3>([&](auto& m) { m = nytl::flippedZ(m); }, flipM<2, 3>(), "flippedZ negates the third row"); }
OB(st33) { scaleTrans<3, 3>(); }
OB(st22) { scaleTrans<2, 2>(); }
OB(st44) { scaleTrans<4, 4>(); }
OB(st21) { scaleTrans<2, 1>(); }
OB(st54) { scaleTrans<5, 4>(); }
template<std::size_t D, std::size_t O, typename T = double> void expandTo() {
	auto a = MSYM(O, O, T, "a");
	auto m = nytl::expandIdentity<D, double>(a);
	for(std::size_t i = 0; i < D; ++i) for(std::size_t j = 0; j < D; ++j)
		sa_eq(m[i][j], i < O && j < O ? (double) a[i < O ? i : 0][j < O ? j : 0] : (i == j ? 1.0 : 0.0), "expandIdentity: the matrix in the corner of an identity");
}
OB(expand43) { expandTo<4, 3>(); }
OB(expand32) { expandTo<3, 2>(); }
OB(expand41) { expandTo<4, 1>(); }
OB(expand44) { expandTo<4, 4>(); }
OB(expand54) { expandTo<5, 4>(); }
OB(expandf) { expandTo<4, 3, float>(); }
// in place forms of other sizes
OB(pretranslate3) { auto t = VSYM(2, double, "t"); pre<3>([&](auto& m) { nytl::translate(m, t); }, nytl::translateMat<3, double>(t), "translate is applied after the matrix"); }
OB(pretranslate42) { auto t = VSYM(2, double, "t"); pre<4>([&](auto& m) { nytl::translate(m, t); }, nytl::translateMat<4, double>(t), "translate is applied after the matrix"); }
OB(prescale3) { auto t = VSYM(3, double, "t"); pre<3>([&](auto& m) { nytl::scale(m, t); }, nytl::scaleMat<3, double>(t), "scale is applied after the matrix"); }
OB(prescale2) { auto t = VSYM(2, double, "t"); pre<2>([&](auto& m) { nytl::scale(m, t); }, nytl::scaleMat<2, double>(t), "scale is applied after the matrix"); }
OB(prescale42) { auto t = VSYM(2, double, "t"); pre<4>([&](auto& m) { nytl::scale(m, t); }, nytl::scaleMat<4, double>(t), "scale is applied after the matrix"); }
OB(prerotate33) { auto t = VSYM(3, double, "t"); auto a = sa_real("a"); pre<3>([&](auto& m) { nytl::rotate(m, t, a); }, nytl::rotateMat<3, double>(t, a), "rotate is applied after the matrix"); }
OB(prerotate22) { auto a = sa_real("a"); pre<2>([&](auto& m) { nytl::rotate(m, a); }, nytl::rotateMat<2, double>(a), "rotate is applied after the matrix"); }
OB(prerotate24) { auto a = sa_real("a"); pre<4>([&](auto& m) { nytl::rotate(m, a); }, nytl::rotateMat<4, double>(a), "rotate is applied after the matrix"); }
OB(flip1_3) { pre<3>([&](auto& m) { nytl::flipAxis<1>(m); }, flipM<1, 3>(), "flipAxis negates the row"); }
OB(flip0_2) { pre<2>([&](auto& m) { nytl::flipAxis<0>(m); }, flipM<0, 2>(), "flipAxis negates the row"); }
OB(flipY3) { pre<3>([&](auto& m) { nytl::flipY(m); }, flipM<1, 3>(), "flipY negates the second row"); }
OB(flipY2) { pre<2>([&](auto& m) { nytl::flipY(m); }, flipM<1, 2>(), "flipY negates the second row"); }
OB(flipZ3) { pre<3>([&](auto& m) { nytl::flipZ(m); }, flipM<2, 3>(), "flipZ negates the third row"); }
OB(flippedAxis2) { pre<4>([&](auto& m) { m = nytl::flippedAxis<2>(m); }, flipM<2, 4>(), "flippedAxis negates the row"); }
OB(flippedAxis0) { pre<3>([&](auto& m) { m = nytl::flippedAxis<0>(m); }, flipM<0, 3>(), "flippedAxis negates the row"); }
OB(flippedY3) { pre<3>([&](auto& m) { m = nytl::flippedY(m); }, flipM<1, 3>(), "flippedY negates the second row"); }
OB(flippedZ4) { pre<4>([&](auto& m) { m = nytl::flippedZ(m); }, flipM<2, 4>(), "flippedZ negates the third row"); }
OB(unchanged) {
	// the operands of the forms that return their result stay as they are
	const auto m = MSYM(4, 4, double, "m");
	(void) nytl::flippedY(m); (void) nytl::flippedZ(m); (void) nytl::flippedAxis<1>(m);
	const auto n = MSYM(4, 4, double, "m");
	for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) sa_eq(m[i][j], n[i][j], "operands are unchanged");
}
OB(lookAtVecf) {
	Frame f;
	auto pos = VSYM(3, float, "p");
	auto m = nytl::lookAt(pos, nytl::Vec3f(f.z), nytl::Vec3f(f.up));
	frame(f, m);
	for(int i = 0; i < 3; ++i) sa_eq(at3(m, i, pos), 0.0, "lookAt: the position is mapped to the origin");
	for(int j = 0; j < 4; ++j) sa_eq(m[3][j], j == 3 ? 1.0 : 0.0, "lookAt is affine");
}
OB(lookAt3f) { Frame f; frame(f, nytl::lookAt<3, float>(nytl::Vec3f(f.z), nytl::Vec3f(f.up))); }
OB(lookAt4f) { Frame f; frame(f, nytl::lookAt<4, float>(nytl::Vec3f(f.z), nytl::Vec3f(f.up))); }
