// sa: min=30
#include "rect.hpp"

template<std::size_t D, typename T> void inter() {
	const auto a = RSYM(D, T, "ap", "as");
	const auto b = RSYM(D, T, "bp", "bs");
	nonneg(a); nonneg(b);
	const auto r = nytl::intersection(a, b);
	bool meet = true;
	for(std::size_t i = 0; i < D; ++i)
		meet = meet && a.position[i] <= b.position[i] + b.size[i] && b.position[i] <= a.position[i] + a.size[i];
	for(std::size_t i = 0; i < D; ++i) {
		if(!meet) {
			sa_eq(r.position[i], T(0), "disjoint rects: empty result");
			sa_eq(r.size[i], T(0), "disjoint rects: empty result");
			continue;
		}
		auto ae = a.position[i] + a.size[i], be = b.position[i] + b.size[i];
		sa_eq(r.position[i], a.position[i] > b.position[i] ? a.position[i] : b.position[i], "begin of the common area");
		sa_eq(r.position[i] + r.size[i], ae < be ? ae : be, "end of the common area");
	}
}
OB(d1) { inter<1, double>(); }
OB(d2) { inter<2, double>(); }
OB(d3) { inter<3, double>(); }
OB(i2) { inter<2, int>(); }
OB(f2) { inter<2, float>(); }
template<std::size_t D> void points() {
	const auto a = RSYM(D, double, "ap", "as");
	const auto b = RSYM(D, double, "bp", "bs");
	const auto x = VSYM(D, double, "x");
	positive(a); positive(b);
	sa_assume(nytl::intersectsReal(a, b));
	auto r = nytl::intersection(a, b);
	sa_eq(nytl::contains(r, x), nytl::contains(a, x) && nytl::contains(b, x), "a point is in the intersection iff it is in both");
	sa_eq(nytl::containsReal(r, x), nytl::containsReal(a, x) && nytl::containsReal(b, x), "a point is inside the intersection iff it is inside both");
}
OB(points1) { points<1>(); }
OB(points2) { points<2>(); }
OB(d4) { inter<4, double>(); }
OB(i1) { inter<1, int>(); }
OB(i3) { inter<3, int>(); }
OB(f3) { inter<3, float>(); }
OB(l2) { inter<2, long>(); }
OB(points3) { points<3>(); }
OB(u1) { inter<1, unsigned>(); }
OB(u2) { inter<2, unsigned>(); }
OB(u3) { inter<3, unsigned>(); }
OB(ld2) { inter<2, long double>(); }
