// sa: min=60
#include "num.hpp"
#include <nytl/transform.hpp>
#include <cmath>

struct P4 { double v[4]; };
template<typename P> static P4 mul(const nytl::Mat<4, 4, P>& m, double x, double y, double z) {
	P4 r {};
	double p[4] = {x, y, z, 1.0};
	for(int i = 0; i < 4; ++i) for(int k = 0; k < 4; ++k) r.v[i] += m[i][k] * p[k];
	return r;
}
// the homogeneous point r is (x, y, z): no division, so that no corner is excluded by accident
static void at(const P4& r, double x, double y, double z, const char* l) {
	sa_eq(r.v[0], x * r.v[3], l); sa_eq(r.v[1], y * r.v[3], l); sa_eq(r.v[2], z * r.v[3], l);
	sa_expect(r.v[3] != 0.0, "corner is mapped to a finite point");
}
template<typename P> struct Box {
	P l = sa_sym<P>("left"), r = sa_sym<P>("right"), b = sa_sym<P>("bot"), t = sa_sym<P>("top"), n = sa_sym<P>("near"), f = sa_sym<P>("far");
	Box() { sa_assume(l != r); sa_assume(b != t); }
};
template<typename P> void orthoC() {
	Box<P> k;
	sa_assume(k.n != k.f);
	auto m = nytl::ortho(k.l, k.r, k.b, k.t, k.n, k.f);
	for(int c = 0; c < 8; ++c) {
		auto p = mul(m, c & 1 ? k.r : k.l, c & 2 ? k.t : k.b, c & 4 ? k.f : k.n);
		at(p, c & 1 ? 1.0 : -1.0, c & 2 ? 1.0 : -1.0, c & 4 ? 1.0 : 0.0, "ortho: corners of the box are mapped to the corners of the clip cube");
		sa_eq(p.v[3], 1.0, "ortho is affine");
	}
}
OB(ortho) { orthoC<double>(); }
OB(orthof) { orthoC<float>(); }

template<typename P> void order(const Box<P>& k, bool pos) {
	if(pos) { sa_assume(k.n > 0); sa_assume(k.f > k.n); } else { sa_assume(k.n < 0); sa_assume(k.f < k.n); }
}
// a corner of the far face lies on the ray through the corner of the near face
template<typename P, typename F> void frustumC(F make, bool rev, bool pos) {
	Box<P> k;
	order(k, pos);
	auto m = make(k.l, k.r, k.b, k.t, k.n, k.f);
	for(int c = 0; c < 4; ++c) {
		double x = c & 1 ? k.r : k.l, y = c & 2 ? k.t : k.b, ex = c & 1 ? 1.0 : -1.0, ey = c & 2 ? 1.0 : -1.0;
		at(mul(m, x, y, k.n), ex, ey, rev ? 1.0 : 0.0, "frustum: near corners");
		at(mul(m, x * k.f / k.n, y * k.f / k.n, k.f), ex, ey, rev ? 0.0 : 1.0, "frustum: far corners");
	}
}
template<typename P> auto fr() { return [](P l, P r, P b, P t, P n, P f) { return nytl::frustum(l, r, b, t, n, f); }; }
template<typename P> auto frr() { return [](P l, P r, P b, P t, P n, P f) { return nytl::frustumRev(l, r, b, t, n, f); }; }
OB(frustum_pos) { frustumC<double>(fr<double>(), false, true); }
OB(frustum_neg) { frustumC<double>(fr<double>(), false, false); }
OB(frustumf) { frustumC<float>(fr<float>(), false, true); }
OB(frustumRev_pos) { frustumC<double>(frr<double>(), true, true); }
OB(frustumRev_neg) { frustumC<double>(frr<double>(), true, false); }
template<typename P> void inf(bool pos) {
	Box<P> k;
	if(pos) sa_assume(k.n > 0); else sa_assume(k.n < 0);
	auto m = nytl::frustumRevInf(k.l, k.r, k.b, k.t, k.n);
	auto z = sa_real("z");
	if(pos) sa_assume(z >= k.n); else sa_assume(z <= k.n);
	for(int c = 0; c < 4; ++c) {
		double x = c & 1 ? k.r : k.l, y = c & 2 ? k.t : k.b, ex = c & 1 ? 1.0 : -1.0, ey = c & 2 ? 1.0 : -1.0;
		at(mul(m, x, y, k.n), ex, ey, 1.0, "frustumRevInf: near corners");
		auto p = mul(m, x * z / k.n, y * z / k.n, z);
		sa_eq(p.v[0], ex * p.v[3], "frustumRevInf: sides"); sa_eq(p.v[1], ey * p.v[3], "frustumRevInf: sides");
		sa_eq(p.v[2] * z, k.n * p.v[3], "frustumRevInf: depth is near / z, 0 at infinity");
	}
}
OB(inf_pos) { inf<double>(true); }
OB(inf_neg) { inf<double>(false); }

// half the field of view is h: tan(h) = s / c
template<typename P> void persp(bool pos, int kind) {
	auto h = sa_sym<P>("h"), a = sa_sym<P>("aspect"), n = sa_sym<P>("near"), f = sa_sym<P>("far");
	sa_assume(a > 0); sa_assume(n != f);
	sa_assume(std::sin(h) > 0); sa_assume(std::cos(h) > 0);
	if(pos) { sa_assume(n > 0); sa_assume(f > 0); } else { sa_assume(n < 0); sa_assume(f < 0); }
	auto m = kind == 0 ? nytl::perspective(2 * h, a, n, f) : kind == 1 ? nytl::perspectiveRev(2 * h, a, n, f) : nytl::perspectiveRevInf(2 * h, a, n);
	double t = std::sin(h) / std::cos(h);
	for(int c = 0; c < 4; ++c) {
		double ex = c & 1 ? 1.0 : -1.0, ey = c & 2 ? 1.0 : -1.0;
		double an = pos ? n : -n, af = pos ? f : -f;
		auto p = mul(m, ex * a * t * an, ey * t * an, n);
		at(p, ex, ey, kind == 0 ? 0.0 : 1.0, "perspective: near corners of the field of view");
		sa_expect(p.v[3] > 0.0, "perspective: w is positive in front of the viewer");
		auto q = mul(m, ex * a * t * af, ey * t * af, f);
		if(kind < 2) at(q, ex, ey, kind == 0 ? 1.0 : 0.0, "perspective: far corners of the field of view");
		else {
			sa_eq(q.v[0], ex * q.v[3], "perspective: sides"); sa_eq(q.v[1], ey * q.v[3], "perspective: sides");
			sa_eq(q.v[2] * f, n * q.v[3], "perspectiveRevInf: depth is near / z, 0 at infinity");
		}
	}
}
OB(perspective_pos) { persp<double>(true, 0); }
OB(perspective_neg) { persp<double>(false, 0); }
OB(perspectivef) { persp<float>(false, 0); }
OB(perspectiveRev_pos) { persp<double>(true, 1); }
OB(perspectiveRev_neg) { persp<double>(false, 1); }
OB(perspectiveRevInf_pos) { persp<double>(true, 2); }
OB(perspectiveRevInf_neg) { persp<double>(false, 2); }
OB(frustumf_neg) { frustumC<float>(fr<float>(), false, false); }
OB(frustumRevf) { frustumC<float>(frr<float>(), true, true); }
OB(frustumRevf_neg) { frustumC<float>(frr<float>(), true, false); }
OB(inff) { inf<float>(true); }
OB(inff_neg) { inf<float>(false); }
OB(perspectivef_pos) { persp<float>(true, 0); }
OB(perspectiveRevf) { persp<float>(true, 1); }
OB(perspectiveRevf_neg) { persp<float>(false, 1); }
OB(perspectiveRevInff) { persp<float>(true, 2); }
OB(perspectiveRevInff_neg) { persp<float>(false, 2); }
