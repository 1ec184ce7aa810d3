// sa: min=100
#include <nytl/matOps.hpp>
#include "num.hpp"

template<unsigned R, unsigned C> void cols() {
	const auto a = MSYM(R, C, double, "a");
	const auto v = VSYM(R, double, "v");
	for(unsigned n = 0; n < C; ++n) {
		auto c = nytl::col(a, n);
		for(unsigned i = 0; i < R; ++i) sa_eq(c[i], a[i][n], "col returns the nth column");
		auto b = a; nytl::col(b, n, v);
		for(unsigned i = 0; i < R; ++i) for(unsigned j = 0; j < C; ++j)
			sa_eq(b[i][j], j == n ? v[i] : a[i][j], "col sets only the nth column");
		for(unsigned k = 0; k < C; ++k) {
			auto s = a; nytl::swapCol(s, n, k);
			for(unsigned i = 0; i < R; ++i) for(unsigned j = 0; j < C; ++j)
				sa_eq(s[i][j], a[i][j == n ? k : j == k ? n : j], "swapCol swaps exactly two columns");
		}
	}
	for(unsigned n = 0; n < R; ++n) for(unsigned k = 0; k < R; ++k) {
		auto s = a; nytl::swapRow(s, n, k);
		for(unsigned i = 0; i < R; ++i) for(unsigned j = 0; j < C; ++j)
			sa_eq(s[i][j], a[i == n ? k : i == k ? n : i][j], "swapRow swaps exactly two rows");
	}
	auto t = nytl::transpose(a);
	static_assert(std::is_same_v<decltype(t), nytl::Mat<C, R, double>>);
	for(unsigned i = 0; i < R; ++i) for(unsigned j = 0; j < C; ++j) sa_eq(t[j][i], a[i][j], "transpose");
	auto o = a; nytl::one(o);
	for(unsigned i = 0; i < R; ++i) for(unsigned j = 0; j < C; ++j) sa_eq(o[i][j], 1.0, "one sets every element");
}
template<unsigned D> void square() {
	const auto a = MSYM(D, D, double, "a");
	const auto v = VSYM(D, double, "v");
	double tr = 0, md = 1;
	for(unsigned i = 0; i < D; ++i) { tr += a[i][i]; md *= a[i][i]; }
	sa_eq(nytl::trace(a), tr, "trace"); sa_eq(nytl::multiplyDiagonal(a), md, "multiplyDiagonal");
	auto id = nytl::identity<D, double>();
	auto b = a; nytl::identity(b);
	for(unsigned i = 0; i < D; ++i) for(unsigned j = 0; j < D; ++j) {
		sa_eq(id[i][j], i == j ? 1.0 : 0.0, "identity<D, T>()");
		sa_eq(b[i][j], i == j ? 1.0 : 0.0, "identity(mat)");
	}
	auto l = id * a, r = a * id; auto w = id * v;
	for(unsigned i = 0; i < D; ++i) {
		sa_eq(w[i], v[i], "identity is neutral for vectors");
		for(unsigned j = 0; j < D; ++j) {
			sa_eq(l[i][j], a[i][j], "identity is left neutral"); sa_eq(r[i][j], a[i][j], "identity is right neutral");
		}
	}
	// the new column may be a row of the matrix itself
	for(unsigned n = 0; n < D; ++n) for(unsigned k = 0; k < D; ++k) {
		auto c = a; nytl::col(c, n, c[k]);
		for(unsigned i = 0; i < D; ++i) sa_eq(c[i][n], a[k][i], "col with a row of the same matrix");
	}
}
template<unsigned D> void symm() {
	const auto a = MSYM(D, D, double, "a");
	bool sym = true;
	for(unsigned i = 0; i < D; ++i) for(unsigned j = i + 1; j < D; ++j) sym = sym && a[i][j] == a[j][i];
	sa_eq(nytl::symmetric(a), sym, "symmetric iff a == transpose(a)");
}
OB(cols_22) { cols<2, 2>(); }
OB(cols_23) { cols<2, 3>(); }
OB(cols_32) { cols<3, 2>(); }
OB(cols_33) { cols<3, 3>(); }
OB(cols_43) { cols<4, 3>(); }
OB(square_2) { square<2>(); }
OB(square_3) { square<3>(); }
OB(square_4) { square<4>(); }
OB(symm_2) { symm<2>(); }
OB(symm_3) { symm<3>(); }
OB(symm_4) { symm<4>(); }
OB(cols_14) { cols<1, 4>(); }
OB(cols_41) { cols<4, 1>(); }
OB(cols_34) { cols<3, 4>(); }
OB(cols_24) { cols<2, 4>(); }
OB(cols_42) { cols<4, 2>(); }
OB(cols_44) { cols<4, 4>(); }
OB(cols_55) { cols<5, 5>(); }
OB(square_1) { square<1>(); }
OB(square_5) { square<5>(); }
OB(symm_1) { symm<1>(); }
OB(symm_5) { symm<5>(); }
OB(cols_93) { cols<9, 3>(); }
OB(cols_39) { cols<3, 9>(); }
OB(square_9) { square<9>(); }
