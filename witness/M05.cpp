// sa: min=60
#include <nytl/matOps.hpp>
#include "num.hpp"

// Leibniz/Laplace expansion along the first row
template<unsigned D> struct Det { static double of(const nytl::Mat<D, D, double>& a) {
	double r = 0;
	for(unsigned k = 0; k < D; ++k) {
		nytl::Mat<D - 1, D - 1, double> m {};
		for(unsigned i = 1; i < D; ++i) for(unsigned j = 0, c = 0; j < D; ++j) if(j != k) m.rows_[i - 1][c++] = a.rows_[i][j];
		auto t = a.rows_[0][k] * Det<D - 1>::of(m);
		r = k % 2 ? r - t : r + t;
	}
	return r;
} };
template<> struct Det<1> { static double of(const nytl::Mat<1, 1, double>& a) { return a.rows_[0][0]; } };

template<unsigned D> void decomp(const nytl::Mat<D, D, double>& a) {
	auto lu = nytl::luDecomp(a);
	// P is a permutation, sign its parity
	unsigned idx[D] {};
	for(unsigned i = 0; i < D; ++i) {
		unsigned n = 0;
		for(unsigned j = 0; j < D; ++j) if(lu.perm[i][j]) { idx[i] = j; ++n; }
		sa_eq(n, 1u, "permutation matrix has one entry per row");
	}
	int inv = 0;
	for(unsigned i = 0; i < D; ++i) for(unsigned j = i + 1; j < D; ++j) {
		sa_expect(idx[i] != idx[j], "permutation matrix has one entry per column");
		if(idx[i] > idx[j]) ++inv;
	}
	sa_eq(lu.sign, inv % 2 ? -1 : 1, "sign is the parity of the permutation");
	for(unsigned i = 0; i < D; ++i) for(unsigned j = 0; j < D; ++j) {
		double e = 0;
		for(unsigned k = 0; k < D; ++k) e += lu.lower[i][k] * lu.upper[k][j];
		sa_eq(e, a[idx[i]][j], "L * U == P * A");
		if(i == j) sa_eq(lu.lower[i][j], 1.0, "lower matrix has a unit diagonal");
		if(i < j) sa_eq(lu.lower[i][j], 0.0, "lower matrix is lower triangular");
		if(i > j) sa_eq(lu.upper[i][j], 0.0, "upper matrix is upper triangular");
	}
}
template<unsigned D> void det() {
	const auto a = MSYM(D, D, double, "a");
	auto e = Det<D>::of(a);
	sa_eq(nytl::determinant(a), e, "determinant(mat)");
}
template<unsigned D> void detLu() {
	const auto a = MSYM(D, D, double, "a");
	auto e = Det<D>::of(a);
	sa_eq(nytl::determinant(nytl::luDecomp(a)), e, "determinant(decomposition)");
}
template<unsigned D> void invert() {
	const auto a = MSYM(D, D, double, "a");
	auto e = Det<D>::of(a);
	sa_eq(nytl::invertible(a), e != 0.0, "invertible iff the determinant is not zero");
}
OB(decomp_1) { decomp<1>(MSYM(1, 1, double, "a")); }
OB(decomp_2) { decomp<2>(MSYM(2, 2, double, "a")); }
OB(decomp_3) { decomp<3>(MSYM(3, 3, double, "a")); }
OB(decomp_4) { decomp<4>(MSYM(4, 4, double, "a")); }
OB(det_4) { det<4>(); }
OB(detlu_4) { detLu<4>(); }
OB(invertible_4) { invert<4>(); }
OB(det_1) { det<1>(); }
OB(det_2) { det<2>(); }
OB(det_3) { det<3>(); }
OB(detlu_2) { detLu<2>(); }
OB(detlu_3) { detLu<3>(); }
OB(invertible_2) { invert<2>(); }
OB(invertible_3) { invert<3>(); }
// integer matrices are decomposed with floating point numbers
template<unsigned D> void integers() {
	const auto a = MSYM(D, D, int, "a");
	nytl::Mat<D, D, double> d {};
	for(unsigned i = 0; i < D; ++i) for(unsigned j = 0; j < D; ++j) d.rows_[i][j] = a.rows_[i][j];
	auto e = Det<D>::of(d);
	sa_eq((double) nytl::determinant(a), e, "determinant of an integer matrix");
	sa_eq(nytl::invertible(a), e != 0.0, "invertible iff the determinant is not zero");
}
OB(integers_2) { integers<2>(); }
OB(integers_3) { integers<3>(); }
// larger matrices: fixed numbers, some elements arbitrary
template<unsigned D> nytl::Mat<D, D, double> keep(nytl::Mat<D, D, double> a, const char* pat) {
	for(unsigned i = 0; i < D; ++i) for(unsigned j = 0; j < D; ++j, ++pat) {
		if(*pat == '.') a[i][j] = 0.0;
		else if(*pat >= '0' && *pat <= '9') a[i][j] = *pat - '0';
		else if(*pat >= 'A' && *pat <= 'J') a[i][j] = 'A' - *pat;
	}
	return a;
}
template<unsigned D> void large(const nytl::Mat<D, D, double>& a) {
	decomp<D>(a);
	const auto e = Det<D>::of(a);
	sa_eq(nytl::determinant(a), e, "determinant(mat)");
	sa_eq(nytl::determinant(nytl::luDecomp(a)), e, "determinant(decomposition)");
	sa_eq(nytl::invertible(a), e != 0.0, "invertible iff the determinant is not zero");
}
#define LARGE(D, name, pat) OB(large_##D##_##name) { large<D>(keep<D>(MSYM(D, D, double, "a"), pat)); }
LARGE(5, cycle, "..x.." "....x" "x...." "...x." ".x...")
LARGE(5, numbers, "2.1x3" "B41.7" "3C521" "1.2F4" ".31B5")
LARGE(5, singular, "21.13" "..x.1" "42.26" "1.312" "5C1.2")
LARGE(6, mixed, ".1...." "1....2" "..3x.." "...1.." "..B.4." ".....2")
LARGE(6, rev, ".....x" "....2." "...x.1" "..2..." ".x...." "1.....")
OB(decomp_7) { decomp<7>(keep<7>(MSYM(7, 7, double, "a"), ".2....." "..3...." "...x..." "....1.." ".....2." "......B" "1......")); }
