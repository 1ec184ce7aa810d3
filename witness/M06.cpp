// sa: min=30
#include <nytl/matOps.hpp>
#include "num.hpp"

static double det2(const nytl::Mat<2, 2, double>& a) { return a[0][0] * a[1][1] - a[0][1] * a[1][0]; }
static double det3(const nytl::Mat<3, 3, double>& a) {
	return a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
		+ a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]);
}
static double det(const nytl::Mat<2, 2, double>& a) { return det2(a); }
static double det(const nytl::Mat<3, 3, double>& a) { return det3(a); }

template<unsigned D> void solve() {
	const auto a = MSYM(D, D, double, "a");
	const auto b = VSYM(D, double, "b");
	sa_assume(det(a) != 0.0);
	auto lu = nytl::luDecomp(a);
	auto x = nytl::luEvaluate(lu, b);
	for(unsigned i = 0; i < D; ++i) {
		double e = 0;
		for(unsigned k = 0; k < D; ++k) e += a[i][k] * x[k];
		sa_eq(e, b[i], "luEvaluate(decomposition, b) solves A x = b");
	}
}
// triangular solve for arbitrary (non-singular) factors, not only those of a decomposition
template<unsigned D> void triangular() {
	auto l = MSYM(D, D, double, "l"), u = MSYM(D, D, double, "u");
	const auto b = VSYM(D, double, "b");
	for(unsigned i = 0; i < D; ++i) for(unsigned j = 0; j < D; ++j) {
		if(i < j) l[i][j] = 0.0;
		if(i > j) u[i][j] = 0.0;
	}
	auto x = nytl::luEvaluate(l, u, b);
	for(unsigned i = 0; i < D; ++i) {
		double e = 0;
		for(unsigned k = 0; k < D; ++k) for(unsigned m = 0; m < D; ++m) e += l[i][k] * u[k][m] * x[m];
		sa_eq(e, b[i], "luEvaluate(l, u, b) solves L U x = b");
	}
}
template<unsigned D> void inv() {
	const auto a = MSYM(D, D, double, "a");
	sa_assume(det(a) != 0.0);
	auto r = nytl::inverse(a);
	for(unsigned i = 0; i < D; ++i) for(unsigned j = 0; j < D; ++j) {
		double e = 0, f = 0;
		for(unsigned k = 0; k < D; ++k) { e += a[i][k] * r[k][j]; f += r[i][k] * a[k][j]; }
		sa_eq(e, i == j ? 1.0 : 0.0, "A * inverse(A) is the identity");
		sa_eq(f, i == j ? 1.0 : 0.0, "inverse(A) * A is the identity");
	}
}
template<unsigned D> void invLu() {
	const auto a = MSYM(D, D, double, "a");
	sa_assume(det(a) != 0.0);
	auto r = nytl::inverse(nytl::luDecomp(a));
	for(unsigned i = 0; i < D; ++i) for(unsigned j = 0; j < D; ++j) {
		double e = 0;
		for(unsigned k = 0; k < D; ++k) e += a[i][k] * r[k][j];
		sa_eq(e, i == j ? 1.0 : 0.0, "A * inverse(decomposition of A) is the identity");
	}
}
OB(solve_2) { solve<2>(); }
OB(solve_3) { solve<3>(); }
OB(triangular_2) { triangular<2>(); }
OB(triangular_3) { triangular<3>(); }
OB(triangular_4) { triangular<4>(); }
OB(inverse_2) { inv<2>(); }
OB(inverse_3) { inv<3>(); }
OB(inverselu_2) { invLu<2>(); }
OB(inverselu_3) { invLu<3>(); }

// four and five equations: fixed sparsity patterns keep the partition count small, values stay arbitrary
template<unsigned D> double detn(const nytl::Mat<D, D, double>& a) {
	if constexpr(D == 1) return a[0][0];
	else {
		double r = 0, s = 1;
		for(unsigned c = 0; c < D; ++c, s = -s) {
			nytl::Mat<D - 1, D - 1, double> m {};
			for(unsigned i = 1; i < D; ++i) for(unsigned j = 0, k = 0; j < D; ++j) if(j != c) m[i - 1][k++] = a[i][j];
			r += s * a[0][c] * detn<D - 1>(m);
		}
		return r;
	}
}
template<unsigned D> void large(nytl::Mat<D, D, double> a) {
	sa_assume(detn<D>(a) != 0.0);
	const auto b = VSYM(D, double, "b");
	const auto c = a;
	auto lu = nytl::luDecomp(c);
	auto x = nytl::luEvaluate(lu, b);
	auto r = nytl::inverse(c), t = nytl::inverse(lu);
	for(unsigned i = 0; i < D; ++i) {
		double e = 0;
		for(unsigned k = 0; k < D; ++k) e += a[i][k] * x[k];
		sa_eq(e, b[i], "luEvaluate(decomposition, b) solves A x = b");
		for(unsigned j = 0; j < D; ++j) {
			double f = 0, g = 0, h = 0;
			for(unsigned k = 0; k < D; ++k) { f += a[i][k] * r[k][j]; g += r[i][k] * a[k][j]; h += a[i][k] * t[k][j]; }
			sa_eq(f, i == j ? 1.0 : 0.0, "A * inverse(A) is the identity");
			sa_eq(g, i == j ? 1.0 : 0.0, "inverse(A) * A is the identity");
			sa_eq(h, i == j ? 1.0 : 0.0, "A * inverse(decomposition of A) is the identity");
		}
	}
}
template<unsigned D> nytl::Mat<D, D, double> keep(nytl::Mat<D, D, double> a, const char* pat) {
	for(unsigned i = 0; i < D; ++i) for(unsigned j = 0; j < D; ++j, ++pat) {
		if(*pat == '.') a[i][j] = 0.0;
		else if(*pat >= '0' && *pat <= '9') a[i][j] = *pat - '0';
		else if(*pat >= 'A' && *pat <= 'J') a[i][j] = 'A' - *pat;
	}
	return a;
}
#define LARGE(D, name, pat) OB(large_##D##_##name) { large<D>(keep<D>(MSYM(D, D, double, "a"), pat)); }
LARGE(4, tri, "xx.." ".xx." "..xx" "...x")
LARGE(4, rev, "...x" "..xx" ".xx." "xx..")
LARGE(4, blocks, "x.x." ".x.x" "x.x." ".x.x")
LARGE(4, cycle, ".x.." "..x." "...x" "x...")
LARGE(4, numbers, "12D4" "5F71" "3x12" "2C18")
LARGE(4, numbers2, ".32x" "1E.2" "4.53" "21I6")
LARGE(5, cycle, "..x.." "....x" "x...." "...x." ".x...")
LARGE(5, numbers, "2.1x3" "B41.7" "3C521" "1.2F4" ".31B5")
template<unsigned D> void solveAny() {
	const auto a = MSYM(D, D, double, "a");
	const auto b = VSYM(D, double, "b");
	sa_assume(detn<D>(a) != 0.0);
	auto x = nytl::luEvaluate(nytl::luDecomp(a), b);
	for(unsigned i = 0; i < D; ++i) {
		double e = 0;
		for(unsigned k = 0; k < D; ++k) e += a[i][k] * x[k];
		sa_eq(e, b[i], "luEvaluate(decomposition, b) solves A x = b");
	}
}
OB(solve_4) { solveAny<4>(); }
template<unsigned D> void invAny() {
	const auto a = MSYM(D, D, double, "a");
	sa_assume(detn<D>(a) != 0.0);
	auto r = nytl::inverse(a);
	for(unsigned i = 0; i < D; ++i) for(unsigned j = 0; j < D; ++j) {
		double e = 0;
		for(unsigned k = 0; k < D; ++k) e += a[i][k] * r[k][j];
		sa_eq(e, i == j ? 1.0 : 0.0, "A * inverse(A) is the identity");
	}
}
OB(inverse_4) { invAny<4>(); }
