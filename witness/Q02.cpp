// sa: min=60
#include "quat.hpp"

OB(apply) {
	const auto q = QSYM("q");
	unit(q);
	const auto v = VSYM(3, double, "v");
	auto r = nytl::apply(q, v);
	auto e = sandwich(q, v);
	for(int i = 0; i < 3; ++i) sa_eq(r[i], e[i], "apply is q v q* for unit quaternions");
	double l = 0, m = 0;
	for(int i = 0; i < 3; ++i) { l += r[i] * r[i]; m += v[i] * v[i]; }
	sa_eq(l, m, "rotations preserve the length");
}
OB(applyf) {
	const auto q = QSYM("q");
	unit(q);
	const auto v = VSYM(3, float, "v");
	auto r = nytl::apply(q, v);
	auto e = sandwich(q, nytl::Vec3d(v));
	for(int i = 0; i < 3; ++i) sa_eq(r[i], e[i], "apply is q v q* for unit quaternions");
}
OB(compose) {
	const auto p = QSYM("p"), q = QSYM("q");
	unit(q); unit(p);
	const auto v = VSYM(3, double, "v");
	auto a = nytl::apply(p * q, v), b = nytl::apply(p, nytl::apply(q, v));
	for(int i = 0; i < 3; ++i) sa_eq(a[i], b[i], "apply(p q, v) = apply(p, apply(q, v))");
}
OB(inverse) {
	const auto q = QSYM("q");
	unit(q);
	const auto v = VSYM(3, double, "v");
	auto b = nytl::apply(nytl::conjugated(q), nytl::apply(q, v));
	for(int i = 0; i < 3; ++i) sa_eq(b[i], v[i], "the conjugate reverses the rotation");
}
template<std::size_t N, typename T> void mat() {
	const auto q = QSYM("q");
	unit(q);
	auto m = nytl::toMat<N, T>(q);
	for(std::size_t c = 0; c < N; ++c) {
		nytl::Vec3d e {c == 0 ? 1.0 : 0.0, c == 1 ? 1.0 : 0.0, c == 2 ? 1.0 : 0.0};
		auto col = sandwich(q, e);
		for(std::size_t r = 0; r < N; ++r)
			sa_eq((double) m[r][c], c < 3 && r < 3 ? col[r] : (r == c ? 1.0 : 0.0), "column i of toMat is the rotated i-th base vector");
	}
}
OB(toMat3) { mat<3, double>(); }
OB(toMat4) { mat<4, double>(); }
OB(toMat3f) { mat<3, float>(); }
template<typename P> void fromMat() {
	const auto q = QSYM("q");
	unit(q);
	nytl::Mat3<P> m {};
	for(std::size_t c = 0; c < 3; ++c) {
		nytl::Vec3d e {c == 0 ? 1.0 : 0.0, c == 1 ? 1.0 : 0.0, c == 2 ? 1.0 : 0.0};
		auto col = sandwich(q, e);
		for(std::size_t r = 0; r < 3; ++r) m[r][c] = col[r];
	}
	sa_divisors(1);
	auto p = nytl::Quaternion::fromMat(m);
	sa_divisors(0);
	// p is q or -q
	double a[4] = {q.x, q.y, q.z, q.w}, b[4] = {p.x, p.y, p.z, p.w};
	for(int i = 0; i < 4; ++i) for(int j = i; j < 4; ++j)
		sa_eq(b[i] * b[j], a[i] * a[j], "fromMat(toMat(q)) is q or -q");
}
OB(fromMat) { fromMat<double>(); }
OB(fromMatf) { fromMat<float>(); }
OB(toMat4f) { mat<4, float>(); }
OB(toMat5) { mat<5, double>(); }
