// sa: min=30
// Values are arbitrary: nothing is assumed about the length of vectors or quaternions or the
// orthogonality of matrices, since rounding breaks such relations.
#define NDEBUG
#include <nytl/vecOps.hpp>
#include "quat.hpp"
#include <cmath>
using RS = nytl::RotationSequence;

template<unsigned D, typename T> void vecs() {
	const auto a = VSYM(D, T, "a"), b = VSYM(D, T, "b");
	sa_domains(1);
	auto l = nytl::length(a), d = nytl::distance(a, b);
	auto n = nytl::normalized(a);
	auto m = a; nytl::normalize(m);
	auto r = nytl::angle(a, b), rn = nytl::angleNormed(a, b);
	sa_domains(0);
	sa_eq(l * l, nytl::dot(a, a), "computed");
	sa_eq(d * d, nytl::dot(a - b, a - b), "computed");
	sa_eq(n[0], m[0], "computed");
	sa_expect(r == r, "computed");
	sa_expect(rn == rn, "computed");
}
OB(vec2) { vecs<2, double>(); }
OB(vec3) { vecs<3, double>(); }
OB(vec3f) { vecs<3, float>(); }
OB(vec4) { vecs<4, double>(); }
OB(vec5) { vecs<5, double>(); }

OB(quat) {
	const auto q = QSYM("q");
	sa_domains(1);
	sa_divisors(1);
	auto n = nytl::norm(q);
	auto u = nytl::normalized(q);
	sa_domains(0);
	sa_divisors(0);
	sa_expect(n == n, "computed");
	sa_expect(u.x == u.x, "computed");
}
OB(fromMat) {
	const auto m = MSYM(3, 3, double, "m");
	sa_domains(1);
	sa_divisors(1);
	auto q = nytl::Quaternion::fromMat(m);
	sa_domains(0);
	sa_divisors(0);
	sa_expect(q.w == q.w, "computed");
}
OB(slerp) {
	const auto a = QSYM("a"), b = QSYM("b");
	const auto t = sa_real("t");
	sa_domains(2);
	auto q = nytl::slerp(a, b, t);
	sa_domains(0);
	sa_expect(q.w == q.w, "computed");
}
template<RS seq> void euler() {
	const auto q = QSYM("q");
	sa_domains(1);
	auto r = nytl::eulerAngles(q, seq);
	sa_domains(0);
	sa_expect(r[1] == r[1], "computed");
}
OB(euler_xyz) { euler<RS::xyz>(); }
OB(euler_xzy) { euler<RS::xzy>(); }
OB(euler_yxz) { euler<RS::yxz>(); }
OB(euler_yzx) { euler<RS::yzx>(); }
OB(euler_zxy) { euler<RS::zxy>(); }
OB(euler_zyx) { euler<RS::zyx>(); }
OB(euler_xyx) { euler<RS::xyx>(); }
OB(euler_xzx) { euler<RS::xzx>(); }
OB(euler_yxy) { euler<RS::yxy>(); }
OB(euler_yzy) { euler<RS::yzy>(); }
OB(euler_zxz) { euler<RS::zxz>(); }
OB(euler_zyz) { euler<RS::zyz>(); }
OB(vec17) { vecs<17, double>(); }
