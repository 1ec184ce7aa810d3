// sa: min=60
#include "quat.hpp"

OB(product) {
	const auto a = QSYM("a"), b = QSYM("b"), c = QSYM("c");
	eqQ(a * b, ham(a, b), "hamilton product");
	auto d = a; d *= b;
	eqQ(d, ham(a, b), "*= is the hamilton product");
	auto e = a; e *= e;
	eqQ(e, ham(a, a), "*= with itself");
	eqQ((a * b) * c, a * (b * c), "multiplication is associative");
	nytl::Quaternion one {};
	eqQ(one * a, a, "the default quaternion is the identity");
	eqQ(a * one, a, "the default quaternion is the identity");
	sa_eq(one.w, 1.0, "default: no rotation"); sa_eq(one.x, 0.0, "default: no rotation");
}
OB(linear) {
	const auto a = QSYM("a"), b = QSYM("b");
	auto s = sa_real("s");
	auto p = a + b, m = a - b, t = s * a;
	sa_eq(p.x, a.x + b.x, "+"); sa_eq(p.y, a.y + b.y, "+"); sa_eq(p.z, a.z + b.z, "+"); sa_eq(p.w, a.w + b.w, "+");
	sa_eq(m.x, a.x - b.x, "-"); sa_eq(m.y, a.y - b.y, "-"); sa_eq(m.z, a.z - b.z, "-"); sa_eq(m.w, a.w - b.w, "-");
	sa_eq(t.x, a.x * s, "scalar *"); sa_eq(t.y, a.y * s, "scalar *"); sa_eq(t.z, a.z * s, "scalar *"); sa_eq(t.w, a.w * s, "scalar *");
	sa_eq(nytl::dot(a, b), a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w, "dot");
}
OB(conjugate) {
	const auto a = QSYM("a"), b = QSYM("b");
	auto c = nytl::conjugated(a);
	sa_eq(c.x, -a.x, "conjugated"); sa_eq(c.y, -a.y, "conjugated"); sa_eq(c.z, -a.z, "conjugated"); sa_eq(c.w, a.w, "conjugated");
	eqQ(nytl::conjugated(a * b), nytl::conjugated(b) * nytl::conjugated(a), "conj(a b) = conj(b) conj(a)");
	auto n = a * c;
	auto nn = nytl::norm(a);
	sa_eq(n.w, nn * nn, "q * conj(q) is the squared norm"); sa_eq(n.x, 0.0, "q * conj(q) is real");
	sa_eq(n.y, 0.0, "q * conj(q) is real"); sa_eq(n.z, 0.0, "q * conj(q) is real");
	sa_expect(nn >= 0.0, "norm is not negative");
}
OB(normalized) {
	const auto a = QSYM("a");
	auto n = nytl::norm(a);
	auto q = nytl::normalized(a);
	if(n > 0.0) {
		eqQ(n * q, a, "normalized: same direction");
		sa_eq(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w, 1.0, "normalized: unit norm");
	}
}
OB(normalized_zero) {
	sa_divisors(1);
	auto q = nytl::normalized({0.0, 0.0, 0.0, 0.0});
	eqQ(q, {0.0, 0.0, 0.0, 1.0}, "normalizing zero gives the identity");
}
OB(normalized_defined) {
	sa_divisors(1);
	auto q = nytl::normalized(QSYM("a"));
	(void) q;
	sa_reach("normalized never divides by zero");
}
OB(compare) {
	const auto a = QSYM("a"), b = QSYM("b");
	bool e = a.x == b.x && a.y == b.y && a.z == b.z && a.w == b.w;
	sa_eq(a == b, e, "==: all parts are equal");
	sa_eq(a != b, !e, "!= is the negation of ==");
}
