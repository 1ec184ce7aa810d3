// sa: min=16
#include "quat.hpp"
#include <cmath>

OB(axisAngle) {
	auto h = sa_real("h");
	double ax = sa_real("ax"), ay = sa_real("ay"), az = sa_real("az");
	auto q = nytl::Quaternion::axisAngle(ax, ay, az, 2 * h);
	sa_eq(q.x, ax * std::sin(h), "axisAngle: axis times sin(angle / 2)");
	sa_eq(q.y, ay * std::sin(h), "axisAngle: axis times sin(angle / 2)");
	sa_eq(q.z, az * std::sin(h), "axisAngle: axis times sin(angle / 2)");
	sa_eq(q.w, std::cos(h), "axisAngle: cos(angle / 2)");
}
OB(rotates) {
	// Rodrigues for a unit axis
	auto h = sa_real("h");
	double ax = sa_real("ax"), ay = sa_real("ay"), az = sa_real("az");
	sa_square(az, 1.0 - ax * ax - ay * ay);
	auto q = nytl::Quaternion::axisAngle(ax, ay, az, 2 * h);
	sa_eq(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w, 1.0, "a unit axis gives a unit quaternion");
	const auto v = VSYM(3, double, "v");
	auto r = nytl::apply(q, v);
	auto c = std::cos(2 * h), s = std::sin(2 * h), d = (ax * v[0] + ay * v[1] + az * v[2]) * (1 - c);
	sa_eq(r[0], c * v[0] + s * (ay * v[2] - az * v[1]) + d * ax, "rotation by the angle around the axis");
	sa_eq(r[1], c * v[1] + s * (az * v[0] - ax * v[2]) + d * ay, "rotation by the angle around the axis");
	sa_eq(r[2], c * v[2] + s * (ax * v[1] - ay * v[0]) + d * az, "rotation by the angle around the axis");
}
OB(axisVec) {
	auto h = sa_real("h");
	const auto v = VSYM(3, float, "v");
	auto q = nytl::Quaternion::axisAngle(v, 2 * h);
	sa_eq(q.x, v[0] * std::sin(h), "axisAngle with a vector"); sa_eq(q.y, v[1] * std::sin(h), "axisAngle with a vector");
	sa_eq(q.z, v[2] * std::sin(h), "axisAngle with a vector"); sa_eq(q.w, std::cos(h), "axisAngle with a vector");
}
OB(yxz) {
	auto y = sa_real("y"), p = sa_real("p"), r = sa_real("r");
	auto q = nytl::Quaternion::yxz(2 * y, 2 * p, 2 * r);
	nytl::Quaternion qy {0, std::sin(y), 0, std::cos(y)}, qp {std::sin(p), 0, 0, std::cos(p)}, qr {0, 0, std::sin(r), std::cos(r)};
	eqQ(q, ham(ham(qy, qp), qr), "yxz(yaw, pitch, roll) = rotY(yaw) * rotX(pitch) * rotZ(roll)");
}
