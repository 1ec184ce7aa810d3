// sa: min=90
#include "quat.hpp"
#include <cmath>

using RS = nytl::RotationSequence;
struct M { double m[3][3]; };
static M rot(int axis, double angle) {
	auto c = std::cos(angle), s = std::sin(angle);
	M r {};
	int i = (axis + 1) % 3, j = (axis + 2) % 3;
	r.m[axis][axis] = 1; r.m[i][i] = c; r.m[j][j] = c; r.m[i][j] = -s; r.m[j][i] = s;
	return r;
}
static M mul(const M& a, const M& b) {
	M r {};
	for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) for(int k = 0; k < 3; ++k) r.m[i][j] += a.m[i][k] * b.m[k][j];
	return r;
}
// the rotation matrix of q
static M of(const nytl::Quaternion& q) {
	M m {};
	for(int c = 0; c < 3; ++c) {
		auto col = sandwich(q, {c == 0 ? 1.0 : 0.0, c == 1 ? 1.0 : 0.0, c == 2 ? 1.0 : 0.0});
		for(int r = 0; r < 3; ++r) m.m[r][c] = col[r];
	}
	return m;
}
template<RS seq> void check(int a, int b, int c) {
	const auto q = QSYM("q");
	unit(q);
	auto m = of(q);
	// the entries of a rotation matrix lie in [-1, 1]
	sa_assume(m.m[a][c] <= 1.0);
	sa_assume(m.m[a][c] >= -1.0);
	if(a == c) {
		// classic sequences: the middle rotation must not (nearly) vanish
		sa_assume(std::acos(m.m[a][a]) >= 0.01);
		sa_assume(m.m[a][a] < 1.0);
	} else {
		sa_assume(m.m[a][c] < 1.0);
	}
	sa_assume(1.0 - m.m[a][c] * m.m[a][c] > 0.0);
	auto res = nytl::eulerAngles(q, seq);
	auto p = mul(mul(rot(a, res[0]), rot(b, res[1])), rot(c, res[2]));
	for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j)
		sa_eq(p.m[i][j], m.m[i][j], "the rotations by the three angles compose to the quaternion");
}
OB(xyz) { check<RS::xyz>(0, 1, 2); }
OB(xzy) { check<RS::xzy>(0, 2, 1); }
OB(yxz) { check<RS::yxz>(1, 0, 2); }
OB(yzx) { check<RS::yzx>(1, 2, 0); }
OB(zxy) { check<RS::zxy>(2, 0, 1); }
OB(zyx) { check<RS::zyx>(2, 1, 0); }
OB(xyx) { check<RS::xyx>(0, 1, 0); }
OB(xzx) { check<RS::xzx>(0, 2, 0); }
OB(yxy) { check<RS::yxy>(1, 0, 1); }
OB(yzy) { check<RS::yzy>(1, 2, 1); }
OB(zxz) { check<RS::zxz>(2, 0, 2); }
OB(zyz) { check<RS::zyz>(2, 1, 2); }
// classic sequences whose middle rotation vanishes: only the sum of the other two is determined
template<RS seq> void flat(int a, int b) {
	const auto h = sa_real("h");
	const auto s = std::sin(h);
	auto q = nytl::Quaternion{a == 0 ? s : 0.0, a == 1 ? s : 0.0, a == 2 ? s : 0.0, std::cos(h)};
	auto m = of(q);
	auto res = nytl::eulerAngles(q, seq);
	auto p = mul(mul(rot(a, res[0]), rot(b, res[1])), rot(a, res[2]));
	for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j)
		sa_eq(p.m[i][j], m.m[i][j], "the rotation around a single axis is reproduced");
}
OB(flat_xyx) { flat<RS::xyx>(0, 1); }
OB(flat_xzx) { flat<RS::xzx>(0, 2); }
OB(flat_yxy) { flat<RS::yxy>(1, 0); }
OB(flat_yzy) { flat<RS::yzy>(1, 2); }
OB(flat_zxz) { flat<RS::zxz>(2, 0); }
OB(flat_zyz) { flat<RS::zyz>(2, 1); }
