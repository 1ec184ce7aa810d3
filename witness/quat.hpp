#pragma once
#include "num.hpp"
#include <nytl/quaternion.hpp>
#define QSYM(n) nytl::Quaternion{sa_real(n "x"), sa_real(n "y"), sa_real(n "z"), sa_real(n "w")}
inline void unit(const nytl::Quaternion& q) { sa_square(q.w, 1.0 - q.x * q.x - q.y * q.y - q.z * q.z); }
inline void eqQ(const nytl::Quaternion& a, const nytl::Quaternion& b, const char* l) {
	sa_eq(a.x, b.x, l); sa_eq(a.y, b.y, l); sa_eq(a.z, b.z, l); sa_eq(a.w, b.w, l);
}
// hamilton product, from i*i = j*j = k*k = i*j*k = -1
inline nytl::Quaternion ham(const nytl::Quaternion& a, const nytl::Quaternion& b) {
	return {a.w * b.x + b.w * a.x + (a.y * b.z - a.z * b.y),
		a.w * b.y + b.w * a.y + (a.z * b.x - a.x * b.z),
		a.w * b.z + b.w * a.z + (a.x * b.y - a.y * b.x),
		a.w * b.w - (a.x * b.x + a.y * b.y + a.z * b.z)};
}
// q v q*
inline nytl::Vec3d sandwich(const nytl::Quaternion& q, const nytl::Vec3d& v) {
	auto r = ham(ham(q, {v[0], v[1], v[2], 0.0}), {-q.x, -q.y, -q.z, q.w});
	return {r.x, r.y, r.z};
}
