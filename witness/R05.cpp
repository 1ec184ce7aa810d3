// sa: min=60
#include "rect.hpp"
#include <nytl/simplex.hpp>

template<std::size_t D, typename T> void basics() {
	const auto r = RSYM(D, T, "p", "s");
	const auto q = RSYM(D, T, "q", "t");
	T v(1);
	bool eq = true;
	for(std::size_t i = 0; i < D; ++i) {
		v *= r.size[i];
		eq = eq && r.position[i] == q.position[i] && r.size[i] == q.size[i];
	}
	sa_eq(nytl::size(r), v, "size: product of the extents");
	auto c = nytl::center(r);
	for(std::size_t i = 0; i < D; ++i) sa_eq(2 * (c[i] - r.position[i]), r.size[i] * 1.0, "center: half way in every dimension");
	sa_eq(r == q, eq, "==: position and size equal");
	sa_eq(r != q, !eq, "!=: position or size differ");
}
OB(d1) { basics<1, double>(); }
OB(d2) { basics<2, double>(); }
OB(d3) { basics<3, double>(); }
OB(i2) { basics<2, int>(); }
template<std::size_t D, std::size_t E, typename T, typename U> void conv() {
	const auto r = RSYM(D, T, "p", "s");
	auto c = static_cast<nytl::Rect<E, U>>(r);
	for(std::size_t i = 0; i < E; ++i) {
		sa_eq(c.position[i], i < D ? static_cast<U>(r.position[i < D ? i : 0]) : U(0), "conversion keeps the position, new dimensions are 0");
		sa_eq(c.size[i], i < D ? static_cast<U>(r.size[i < D ? i : 0]) : U(0), "conversion keeps the size, new dimensions are 0");
	}
}
OB(conv23) { conv<2, 3, double, double>(); }
OB(conv32) { conv<3, 2, double, double>(); }
OB(convid) { conv<2, 2, int, double>(); }
OB(conv42) { conv<4, 2, int, double>(); }
OB(conv24) { conv<2, 4, int, double>(); }

template<std::size_t D, std::size_t E, std::size_t A, typename T, typename U> void simplex() {
	nytl::Simplex<D, T, A> s {};
	static_assert(s.pointCount == A + 1);
	static const char* n[][4] = {{"a0", "a1", "a2", "a3"}, {"b0", "b1", "b2", "b3"}, {"c0", "c1", "c2", "c3"}, {"d0", "d1", "d2", "d3"}};
	for(std::size_t k = 0; k <= A; ++k) for(std::size_t i = 0; i < D; ++i) {
		sa_eq(s.points()[k][i], T(0), "points are zero initially");
		s.points()[k][i] = sa_sym<T>(n[k][i]);
	}
	const auto& cs = s;
	auto c = static_cast<nytl::Simplex<E, U, A>>(cs);
	for(std::size_t k = 0; k <= A; ++k) {
		for(std::size_t i = 0; i < D; ++i) {
			sa_eq(cs.points()[k][i], sa_sym<T>(n[k][i]), "points() references the points of the simplex");
			sa_eq(s.points_[k][i], sa_sym<T>(n[k][i]), "points() references the points of the simplex");
		}
		for(std::size_t i = 0; i < E; ++i)
			sa_eq(c.points()[k][i], i < D ? static_cast<U>(sa_sym<T>(n[k][i < D ? i : 0])) : U(0), "conversion: every point is converted");
	}
}
OB(simplex_322) { simplex<3, 2, 2, double, double>(); }
OB(simplex_233) { simplex<2, 3, 2, double, double>(); }
OB(simplex_331) { simplex<3, 3, 1, int, double>(); }
OB(simplex_333) { simplex<3, 3, 3, double, float>(); }
