// sa: min=60
#include "rect.hpp"

template<std::size_t D, typename T> void same(const nytl::Rect<D, T>& r, const nytl::Rect<D, T>& s, const char* l) {
	for(std::size_t i = 0; i < D; ++i) { sa_eq(r.position[i], s.position[i], l); sa_eq(r.size[i], s.size[i], l); }
}
template<std::size_t D, typename T> void diff() {
	const auto a = RSYM(D, T, "ap", "as");
	const auto b = RSYM(D, T, "bp", "bs");
	positive(a); positive(b);
	auto res = nytl::difference(a, b);
	bool meet = true;
	for(std::size_t i = 0; i < D; ++i)
		meet = meet && a.position[i] < b.position[i] + b.size[i] && b.position[i] < a.position[i] + a.size[i];
	if(!meet) {
		sa_expect(res.size() == 1u, "rects that do not overlap: only the first rect");
		same(res[0], a, "rects that do not overlap: only the first rect");
		return;
	}
	T volume(0);
	for(std::size_t k = 0; k < res.size(); ++k) {
		T v(1);
		for(std::size_t i = 0; i < D; ++i) {
			const auto& p = res[k];
			sa_expect(p.size[i] > T(0), "no empty parts");
			sa_expect(p.position[i] >= a.position[i], "parts lie in the first rect");
			sa_expect(p.position[i] + p.size[i] <= a.position[i] + a.size[i], "parts lie in the first rect");
			v *= p.size[i];
		}
		volume += v;
		sa_expect(!nytl::intersectsReal(res[k], b), "parts do not overlap the second rect");
		for(std::size_t j = 0; j < k; ++j)
			sa_expect(!nytl::intersectsReal(res[k], res[j]), "parts do not overlap each other");
	}
	// non-overlapping parts of a outside of b cover everything iff the areas add up
	auto inter = nytl::intersection(a, b);
	T whole(1), cut(1);
	for(std::size_t i = 0; i < D; ++i) { whole *= a.size[i]; cut *= inter.size[i]; }
	sa_eq(volume, whole - cut, "the parts cover the rest of the first rect");
}
OB(d1) { diff<1, double>(); }
OB(d2) { diff<2, double>(); }
OB(d3) { diff<3, double>(); }
OB(i2) { diff<2, int>(); }
template<std::size_t D> void pts() {
	const auto a = RSYM(D, double, "ap", "as");
	const auto b = RSYM(D, double, "bp", "bs");
	const auto x = VSYM(D, double, "x");
	positive(a); positive(b);
	sa_assume(nytl::containsReal(a, x));
	auto res = nytl::difference(a, b);
	unsigned open = 0, closed = 0;
	for(auto& p : res) { if(nytl::containsReal(p, x)) ++open; if(nytl::contains(p, x)) ++closed; }
	if(nytl::containsReal(b, x)) sa_eq(open, 0u, "points of the second rect are in no part");
	else sa_expect(closed > 0u, "every other point of the first rect is in a part");
	sa_expect(open <= 1u, "a point is inside of at most one part");
}
OB(points1) { pts<1>(); }
OB(points2) { pts<2>(); }
OB(self) {
	const auto a = RSYM(2, double, "ap", "as");
	positive(a);
	sa_expect(nytl::difference(a, a).empty(), "a - a is empty");
}
OB(i1) { diff<1, int>(); }
OB(i3) { diff<3, int>(); }
OB(f2) { diff<2, float>(); }
OB(l2) { diff<2, long>(); }
OB(points3) { pts<3>(); }
OB(d4) { diff<4, double>(); }
OB(self1) {
	const auto a = RSYM(1, double, "ap", "as");
	positive(a);
	sa_expect(nytl::difference(a, a).empty(), "a - a is empty");
}
OB(self3) {
	const auto a = RSYM(3, double, "ap", "as");
	positive(a);
	sa_expect(nytl::difference(a, a).empty(), "a - a is empty");
}
OB(u1) { diff<1, unsigned>(); }
OB(u2) { diff<2, unsigned>(); }
OB(ld2) { diff<2, long double>(); }
