// symbolic vectors / matrices for the numeric witnesses
#pragma once
#include "sa.hpp"
#include <nytl/vec.hpp>
#include <nytl/mat.hpp>

namespace {
struct NameBuf { char b[32]; };
// "<base><i>" / "<base><i><j>": built at compile time, the analyser reads constant strings only
#define VN(base) base "0", base "1", base "2", base "3", base "4", base "5", base "6", base "7", base "8", \
	base "9", base "10", base "11", base "12", base "13", base "14", base "15", base "16", base "17"
#define MN(base) {VN(base "0")}, {VN(base "1")}, {VN(base "2")}, {VN(base "3")}, {VN(base "4")}, \
	{VN(base "5")}, {VN(base "6")}, {VN(base "7")}, {VN(base "8")}
}
#define VSYM(D, T, base) [] { static constexpr const char* n[] = {VN(base)}; nytl::Vec<D, T> r {}; \
	for(unsigned i = 0; i < D; ++i) r[i] = sa_sym<T>(n[i]); return r; }()
#define MSYM(R, C, T, base) [] { static constexpr const char* n[9][18] = {MN(base)}; nytl::Mat<R, C, T> r {}; \
	for(unsigned i = 0; i < R; ++i) for(unsigned j = 0; j < C; ++j) r.rows_[i][j] = sa_sym<T>(n[i][j]); return r; }()
