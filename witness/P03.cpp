// sa: min=100
#include "sa.hpp"
#include <nytl/span.hpp>

// equality and order of an element are what its operators say, not the bytes it has
struct Key { int v, tag; };
inline bool operator==(const Key& a, const Key& b) { return a.v == b.v; }
inline bool operator<(const Key& a, const Key& b) { return a.v < b.v; }
inline void init(int& x, const char* n) { x = sa_int(n); }
inline void init(unsigned& x, const char* n) { x = sa_uint(n); }
inline void init(double& x, const char* n) { x = sa_real(n); }
inline void init(Key& x, const char* n) { x = {sa_int(n), n[0] == 'a'}; }

template<typename T> int cmp(const T* a, std::size_t n, const T* b, std::size_t m) {
	for(std::size_t i = 0; i < n && i < m; ++i) {
		if(a[i] < b[i]) return -1;
		if(b[i] < a[i]) return 1;
	}
	return n < m ? -1 : n > m ? 1 : 0;
}
template<std::size_t N, std::size_t M, typename T = int> void compare() {
#define T10(x) x "0", x "1", x "2", x "3", x "4", x "5", x "6", x "7", x "8", x "9"
	static const char* na[] = {T10("a"), T10("a1"), T10("a2"), T10("a3")};
	static const char* nb[] = {T10("b"), T10("b1"), T10("b2"), T10("b3")};
	T a[N + 1] {}, b[M + 1] {};
	for(std::size_t i = 0; i < N; ++i) init(a[i], na[i]);
	for(std::size_t i = 0; i < M; ++i) init(b[i], nb[i]);
	nytl::span<T> x(a, N), y(b, M);
	auto c = cmp(a, N, b, M);
	sa_eq(x == y, c == 0, "==: same size and equal elements");
	sa_eq(x != y, c != 0, "!= is the negation of ==");
	sa_eq(x < y, c < 0, "<: lexicographical order");
	sa_eq(x <= y, c <= 0, "<=: lexicographical order");
	sa_eq(x > y, c > 0, ">: lexicographical order");
	sa_eq(x >= y, c >= 0, ">=: lexicographical order");
	if constexpr(N > 0 && M > 0) {
		nytl::span<T, N> fx(a, N); nytl::span<T, M> fy(b, M);
		sa_eq(fx == fy, c == 0, "== of fixed size spans");
		sa_eq(fx == y, c == 0, "== of fixed and dynamic spans");
		if constexpr(N == M) sa_eq(fx < fy, c < 0, "< of fixed size spans");
	}
}
// a span equals itself, and the parts of one range are compared like any others
template<typename T> void own() {
	T a[3]; init(a[0], "a0"); init(a[1], "a1"); init(a[2], "a2");
	nytl::span<T> x(a, 3), l(a, 2), r(a + 1, 2);
	sa_expect(x == x, "a span equals itself"); sa_expect(!(x < x), "a span is not before itself");
	auto c = cmp(a, 2, a + 1, 2);
	sa_eq(l == r, c == 0, "==: overlapping parts"); sa_eq(l < r, c < 0, "<: overlapping parts");
	sa_expect(!(l == x) && l < x && !(x < l), "a part that begins a span is before it");
}
OB(own_i) { own<int>(); }
OB(own_d) { own<double>(); }
OB(own_k) { own<Key>(); }
OB(c00) { compare<0, 0>(); }
OB(c01) { compare<0, 1>(); }
OB(c10) { compare<1, 0>(); }
OB(c11) { compare<1, 1>(); }
OB(c12) { compare<1, 2>(); }
OB(c21) { compare<2, 1>(); }
OB(c22) { compare<2, 2>(); }
OB(c23) { compare<2, 3>(); }
OB(c32) { compare<3, 2>(); }
OB(c33) { compare<3, 3>(); }
OB(c04) { compare<0, 4>(); }
OB(c40) { compare<4, 0>(); }
OB(c34) { compare<3, 4>(); }
OB(c43) { compare<4, 3>(); }
OB(c44) { compare<4, 4>(); }
OB(c14) { compare<1, 4>(); }
OB(c55) { compare<5, 5>(); }
OB(d11) { compare<1, 1, double>(); }
OB(d12) { compare<1, 2, double>(); }
OB(d21) { compare<2, 1, double>(); }
OB(d22) { compare<2, 2, double>(); }
OB(d33) { compare<3, 3, double>(); }
OB(u22) { compare<2, 2, unsigned>(); }
OB(u23) { compare<2, 3, unsigned>(); }
OB(k11) { compare<1, 1, Key>(); }
OB(k12) { compare<1, 2, Key>(); }
OB(k21) { compare<2, 1, Key>(); }
OB(k22) { compare<2, 2, Key>(); }
OB(k33) { compare<3, 3, Key>(); }
// many elements
OB(c99) { compare<9, 9>(); }
OB(c1717) { compare<17, 17>(); }
OB(c4040) { compare<40, 40>(); }
OB(c4039) { compare<40, 39>(); }
OB(d99) { compare<9, 9, double>(); }
OB(u1718) { compare<17, 18, unsigned>(); }
OB(k1717) { compare<17, 17, Key>(); }
