// sa: min=30
#include "rect.hpp"

template<std::size_t D, typename T, typename TP> void in() {
	const auto r = RSYM(D, T, "p", "s");
	const auto x = VSYM(D, TP, "x");
	bool closed = true, open = true;
	for(std::size_t i = 0; i < D; ++i) {
		closed = closed && x[i] >= r.position[i] && x[i] <= r.position[i] + r.size[i];
		open = open && x[i] > r.position[i] && x[i] < r.position[i] + r.size[i];
	}
	sa_eq(nytl::contains(r, x), closed, "contains: the point lies in the closed rect in every dimension");
	sa_eq(nytl::containsReal(r, x), open, "containsReal: the point lies strictly inside in every dimension");
}
OB(d1) { in<1, double, double>(); }
OB(d2) { in<2, double, double>(); }
OB(d3) { in<3, double, double>(); }
OB(d4) { in<4, double, double>(); }
OB(i2) { in<2, int, int>(); }
OB(i3) { in<3, int, int>(); }
OB(f2) { in<2, float, float>(); }
OB(mixed) { in<2, int, double>(); }
OB(mixed2) { in<2, double, int>(); }
OB(i1) { in<1, int, int>(); }
OB(i4) { in<4, int, int>(); }
OB(f3) { in<3, float, float>(); }
OB(l2) { in<2, long, long>(); }
OB(u2) { in<2, unsigned, unsigned>(); }
OB(u3) { in<3, unsigned, unsigned>(); }
OB(d5) { in<5, double, double>(); }
OB(mixed3) { in<3, int, float>(); }
OB(mixed4) { in<2, float, double>(); }
OB(d9) { in<9, double, double>(); }
OB(u1) { in<1, unsigned, unsigned>(); }
OB(u4) { in<4, unsigned, unsigned>(); }
OB(f9) { in<9, float, float>(); }
OB(ld2) { in<2, long double, long double>(); }
