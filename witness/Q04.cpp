// sa: min=30
#include "quat.hpp"
#include <cmath>

static double dotq(const nytl::Quaternion& a, const nytl::Quaternion& b) { return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w; }

OB(path) {
	const auto a = QSYM("a"), b = QSYM("b");
	unit(a); unit(b);
	auto t = sa_real("t");
	auto d = dotq(a, b);
	auto c = d < 0.0 ? -d : d;
	sa_assume(c < 0.99);
	auto r = nytl::slerp(a, b, t);
	sa_eq(dotq(r, a), std::cos(t * std::acos(c)), "the angle to the first quaternion grows linearly along the shorter way");
	sa_eq(dotq(r, r), 1.0, "the result is a unit quaternion");
	// it stays in the plane of the two: r = s0 a + s1 b, s1 from the dot products
	auto s = d < 0.0 ? -1.0 : 1.0;
	auto s1 = std::sin(t * std::acos(c)) / std::sin(std::acos(c)) * s;
	auto s0 = dotq(r, a) - s1 * d;
	eqQ(r, s0 * a + s1 * b, "the result is in the plane of both");
}
OB(ends) {
	const auto a = QSYM("a"), b = QSYM("b");
	unit(a); unit(b);
	auto d = dotq(a, b);
	auto c = d < 0.0 ? -d : d;
	sa_assume(c < 0.99);
	eqQ(nytl::slerp(a, b, 0.0), a, "slerp with 0 is the first quaternion");
	auto e = nytl::slerp(a, b, 1.0);
	if(d < 0) eqQ(e, -1.0 * b, "slerp with 1 is the second orientation"); else eqQ(e, b, "slerp with 1 is the second orientation");
}
// nearly equal inputs: normalised linear interpolation
OB(close) {
	const auto a = QSYM("a"), b = QSYM("b");
	auto t = sa_real("t");
	auto d = dotq(a, b);
	auto c = d < 0.0 ? -d : d;
	sa_assume(c > 0.99999);
	auto r = nytl::slerp(a, b, t);
	auto s = d < 0.0 ? -1.0 : 1.0;
	nytl::Quaternion l {a.x + t * (s * b.x - a.x), a.y + t * (s * b.y - a.y), a.z + t * (s * b.z - a.z), a.w + t * (s * b.w - a.w)};
	// r is a positive multiple of l
	double p[4] = {r.x, r.y, r.z, r.w}, q[4] = {l.x, l.y, l.z, l.w};
	auto n = std::sqrt(l.w * l.w + l.x * l.x + l.y * l.y + l.z * l.z);
	sa_assume(n > 0.0);
	for(int i = 0; i < 4; ++i) sa_eq(p[i] * n, q[i], "nearly equal inputs are interpolated linearly and normalised");
}
