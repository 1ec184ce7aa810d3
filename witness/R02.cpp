// sa: min=30
#include "rect.hpp"

template<std::size_t D, typename T, typename T2> void two() {
	const auto a = RSYM(D, T, "ap", "as");
	const auto b = RSYM(D, T2, "bp", "bs");
	nonneg(a); nonneg(b);
	bool closed = true, open = true;
	for(std::size_t i = 0; i < D; ++i) {
		closed = closed && a.position[i] <= b.position[i] + b.size[i] && b.position[i] <= a.position[i] + a.size[i];
		open = open && a.position[i] < b.position[i] + b.size[i] && b.position[i] < a.position[i] + a.size[i];
	}
	sa_eq(nytl::intersects(a, b), closed, "intersects: the closed rects share a point");
	sa_eq(nytl::intersectsReal(a, b), open, "intersectsReal: not only the outlines meet");
	sa_eq(nytl::intersects(b, a), closed, "intersects is symmetric");
	sa_eq(nytl::intersectsReal(b, a), open, "intersectsReal is symmetric");
}
OB(d1) { two<1, double, double>(); }
OB(d2) { two<2, double, double>(); }
OB(d3) { two<3, double, double>(); }
OB(d4) { two<4, double, double>(); }
OB(i2) { two<2, int, int>(); }
OB(f2) { two<2, float, float>(); }
OB(mixed) { two<2, int, double>(); }
// consistency with point containment
OB(shared_point) {
	const auto a = RSYM(2, double, "ap", "as");
	const auto b = RSYM(2, double, "bp", "bs");
	const auto x = VSYM(2, double, "x");
	sa_assume(nytl::contains(a, x)); sa_assume(nytl::contains(b, x));
	sa_expect(nytl::intersects(a, b), "rects with a common point intersect");
}
OB(i1) { two<1, int, int>(); }
OB(i3) { two<3, int, int>(); }
OB(f3) { two<3, float, float>(); }
OB(l2) { two<2, long, long>(); }
OB(u2) { two<2, unsigned, unsigned>(); }
OB(d5) { two<5, double, double>(); }
OB(mixed3) { two<3, double, int>(); }
OB(mixed4) { two<2, float, double>(); }
OB(d6) { two<6, double, double>(); }
OB(u1) { two<1, unsigned, unsigned>(); }
OB(u3) { two<3, unsigned, unsigned>(); }
OB(ld2) { two<2, long double, long double>(); }
