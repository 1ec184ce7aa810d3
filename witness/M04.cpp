// sa: min=100
#include <nytl/matOps.hpp>
#include "num.hpp"

// determinant of the 3x3 matrix of columns p, q, r of a
template<std::size_t C> double det3(const nytl::Mat<3, C, double>& a, unsigned p, unsigned q, unsigned r) {
	auto m = [&](unsigned i, unsigned j) { return a.rows_[i][j]; };
	return m(0, p) * (m(1, q) * m(2, r) - m(1, r) * m(2, q)) - m(0, q) * (m(1, p) * m(2, r) - m(1, r) * m(2, p))
		+ m(0, r) * (m(1, p) * m(2, q) - m(1, q) * m(2, p));
}
// shape of a row echelon form: returns the rank
template<std::size_t R, std::size_t C> unsigned shape(const nytl::Mat<R, C, double>& e, bool reduced) {
	unsigned rank = 0;
	unsigned next = 0;
	bool zero = false;
	for(unsigned r = 0; r < R; ++r) {
		unsigned c = 0;
		while(c < C && e.rows_[r][c] == 0.0) ++c;
		if(c == C) { zero = true; continue; }
		sa_expect(!zero, "rows of zeros are at the bottom");
		sa_expect(c >= next, "leading elements move to the right");
		sa_eq(e.rows_[r][c], 1.0, "leading elements are 1");
		for(unsigned k = 0; k < R; ++k)
			if(k > r || (reduced && k != r)) sa_eq(e.rows_[k][c], 0.0, "the other elements of a leading column are 0");
		next = c + 1;
		++rank;
	}
	return rank;
}
template<std::size_t R, std::size_t C> void ref(bool reduced) {
	const auto a = MSYM(R, C, double, "a");
	auto e = a;
	if(reduced) nytl::reducedRowEcholon(e); else nytl::rowEcholon(e);
	auto rank = shape(e, reduced);
	// row spaces agree: every kernel vector of a is one of e; and the rank is that of a
	if constexpr(C == 2) {
		if constexpr(R == 2) {
			auto d = a[0][0] * a[1][1] - a[0][1] * a[1][0];
			sa_eq(rank == 2, d != 0.0, "rank is preserved");
		}
		bool any = false;
		for(unsigned r = 0; r < R; ++r) for(unsigned c = 0; c < C; ++c) any = any || a[r][c] != 0.0;
		sa_eq(rank > 0, any, "only the zero matrix has rank 0");
		if(rank == 1) for(unsigned r = 0; r < R; ++r)
			sa_eq(e[0][0] * a[r][1] - e[0][1] * a[r][0], 0.0, "row space is preserved");
	}
	if constexpr(C == 3 && R == 2) {
		double k[3] = {a[0][1] * a[1][2] - a[0][2] * a[1][1], a[0][2] * a[1][0] - a[0][0] * a[1][2], a[0][0] * a[1][1] - a[0][1] * a[1][0]};
		sa_eq(rank == 2, k[0] != 0.0 || k[1] != 0.0 || k[2] != 0.0, "rank is preserved");
		for(unsigned r = 0; r < R; ++r)
			sa_eq(e[r][0] * k[0] + e[r][1] * k[1] + e[r][2] * k[2], 0.0, "solutions are preserved");
		if(rank == 1) for(unsigned r = 0; r < R; ++r) for(unsigned i = 0; i < 3; ++i) for(unsigned j = i + 1; j < 3; ++j)
			sa_eq(e[0][i] * a[r][j] - e[0][j] * a[r][i], 0.0, "row space is preserved");
	}
}
OB(ref_22) { ref<2, 2>(false); }
OB(rref_22) { ref<2, 2>(true); }
OB(ref_23) { ref<2, 3>(false); }
OB(rref_23) { ref<2, 3>(true); }
OB(ref_32) { ref<3, 2>(false); }
OB(rref_32) { ref<3, 2>(true); }
OB(pivot) {
	const auto a = MSYM(3, 3, double, "a");
	for(unsigned row = 0; row < 2; ++row) {
		auto b = a;
		auto v = nytl::pivot(b, row, 1, true);
		sa_eq(v, b[row][1], "pivot returns the new value at the position");
		for(unsigned r = row; r < 3; ++r)
			sa_expect(std::abs(b[r][1]) <= std::abs(v), "pivot is the largest candidate");
		if(row == 1) for(unsigned c = 0; c < 3; ++c) sa_eq(b[0][c], a[0][c], "rows above are not considered");
		// still the same rows
		auto s = 0.0, t = 0.0;
		for(unsigned r = 0; r < 3; ++r) for(unsigned c = 0; c < 3; ++c) { s += b[r][c] * (c + 1); t += a[r][c] * (c + 1); }
		sa_eq(s, t, "rows are only exchanged");
		for(unsigned r = 0; r < 3; ++r) {
			bool found = false;
			for(unsigned k = 0; k < 3; ++k)
				if(b[r][0] == a[k][0] && b[r][1] == a[k][1] && b[r][2] == a[k][2]) { found = true; break; }
			sa_expect(found, "rows are only exchanged");
		}
	}
}
OB(pivotall) {
	const auto a = MSYM(2, 2, double, "a");
	auto b = a;
	auto v = nytl::pivot(b, 1, 0);
	sa_eq(v, b[1][0], "pivot returns the new value at the position");
	for(unsigned r = 0; r < 2; ++r) sa_expect(std::abs(b[r][0]) <= std::abs(v), "pivot is the largest candidate");
}
// three equations: fixed sparsity patterns keep the partition count small, values stay arbitrary
template<std::size_t C> void three(nytl::Mat<3, C, double> a, bool reduced) {
	auto e = a;
	if(reduced) nytl::reducedRowEcholon(e); else nytl::rowEcholon(e);
	auto rank = shape(e, reduced);
	if constexpr(C == 3) sa_eq(rank == 3, det3(a, 0, 1, 2) != 0.0, "rank is preserved");
	if constexpr(C == 4) {
		double k[4] = {det3(a, 1, 2, 3), -det3(a, 0, 2, 3), det3(a, 0, 1, 3), -det3(a, 0, 1, 2)};
		for(unsigned r = 0; r < 3; ++r)
			sa_eq(e[r][0] * k[0] + e[r][1] * k[1] + e[r][2] * k[2] + e[r][3] * k[3], 0.0, "solutions are preserved");
	}
}
OB(three_rref_tri) {
	auto a = MSYM(3, 4, double, "a");
	a[1][0] = 0; a[2][0] = 0; a[2][1] = 0;
	three<4>(a, true);
}
OB(three_ref_anti) {
	auto a = MSYM(3, 4, double, "a");
	a[0][0] = 0; a[0][1] = 0; a[1][0] = 0;
	three<4>(a, false);
}
OB(three_rref_zerorow) {
	auto a = MSYM(3, 3, double, "a");
	a[0] = {0, 0, 0}; a[1][0] = 0;
	three<3>(a, true);
}
OB(three_rref_mid) {
	auto a = MSYM(3, 3, double, "a");
	a[1] = {0, 0, 0}; a[0][1] = 0;
	three<3>(a, true);
}
OB(three_ref_dep) {
	auto a = MSYM(3, 3, double, "a");
	a[2] = a[0]; a[0][2] = 0; a[1][1] = 0; a[2][2] = 0;
	three<3>(a, false);
}
template<std::size_t R, std::size_t C, typename T> void copies() {
	const auto a = MSYM(R, C, T, "a");
	const auto b = a;
	auto e = nytl::rowEcholonCopy(a); auto f = static_cast<nytl::Mat<R, C, double>>(b); nytl::rowEcholon(f);
	static_assert(std::is_same_v<decltype(e), nytl::Mat<R, C, double>>);
	for(unsigned r = 0; r < R; ++r) for(unsigned c = 0; c < C; ++c) {
		sa_eq(e[r][c], f[r][c], "rowEcholonCopy"); sa_eq(a[r][c], b[r][c], "the copy version does not change its operand");
	}
}
template<std::size_t R, std::size_t C, typename T> void copiesr() {
	const auto a = MSYM(R, C, T, "a");
	const auto b = a;
	auto e = nytl::reducedRowEcholonCopy(a); auto f = static_cast<nytl::Mat<R, C, double>>(b); nytl::reducedRowEcholon(f);
	static_assert(std::is_same_v<decltype(e), nytl::Mat<R, C, double>>);
	for(unsigned r = 0; r < R; ++r) for(unsigned c = 0; c < C; ++c) {
		sa_eq(e[r][c], f[r][c], "reducedRowEcholonCopy"); sa_eq(a[r][c], b[r][c], "the copy version does not change its operand");
	}
}
OB(copies) { copies<2, 2, double>(); }
OB(copiesr) { copiesr<2, 2, double>(); }
OB(copies_23) { copies<2, 3, double>(); }
OB(copiesr_23) { copiesr<2, 3, double>(); }
OB(copies_32) { copies<3, 2, double>(); }
OB(copiesr_32) { copiesr<3, 2, double>(); }
OB(three_ref) { three<3>(MSYM(3, 3, double, "a"), false); }
OB(three_rref) { three<3>(MSYM(3, 3, double, "a"), true); }
// more equations and unknowns: fixed numbers, one element arbitrary
template<std::size_t R, std::size_t C> void large(const char* pat, unsigned least, unsigned most) {
	nytl::Mat<R, C, double> a {};
	const auto x = sa_sym<double>("x");
	for(unsigned i = 0; i < R; ++i) for(unsigned j = 0; j < C; ++j, ++pat)
		a[i][j] = *pat == 'x' ? x : *pat >= '0' && *pat <= '9' ? *pat - '0' : *pat >= 'A' && *pat <= 'J' ? 'A' - *pat : 0;
	for(int reduced = 0; reduced < 2; ++reduced) {
		auto e = a;
		if(reduced) nytl::reducedRowEcholon(e); else nytl::rowEcholon(e);
		auto rank = shape(e, reduced);
		sa_expect(rank >= least && rank <= most, "rank is preserved");
		for(unsigned r = 0; r < R; ++r) {
			auto v = a[r];
			for(unsigned k = 0; k < rank; ++k) {
				unsigned c = 0;
				while(c < C && e[k][c] == 0.0) ++c;
				if(c == C) break;
				const auto f = v[c];
				for(unsigned j = 0; j < C; ++j) v[j] -= f * e[k][j];
			}
			for(unsigned j = 0; j < C; ++j) sa_eq(v[j], 0.0, "row space is preserved");
		}
	}
}
OB(large_45) { large<4, 5>("12.41" "24.82" ".x130" "B1C21", 3, 3); }
OB(large_46) { large<4, 6>("..2x31" "..4152" ".....3" ".12B41", 4, 4); }
OB(large_55) { large<5, 5>("21.13" "..x.1" "42.26" "1.312" "5C1.2", 4, 4); }
OB(large_64) { large<6, 4>("1234" "2468" "x1.2" "1357" ".B.1" "3.1F", 4, 4); }
OB(large_66) { large<6, 6>(".1...." "1....2" "..3x.." "...1.." "..B.4." ".....2", 6, 6); }
OB(large_26) { large<2, 6>("....x1" ".....2", 1, 2); }
OB(large_62) { large<6, 2>(".1" ".2" ".x" "3." "1E" "..", 2, 2); }
// integer matrices are brought into the form with floating point numbers
OB(copies_int) { copies<2, 2, int>(); }
OB(copiesr_int) { copiesr<2, 3, int>(); }
