#pragma once
#include "num.hpp"
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>
#define RSYM(D, T, p, s) nytl::Rect<D, T>{VSYM(D, T, p), VSYM(D, T, s)}
// rects of positive size
template<std::size_t D, typename T> void positive(const nytl::Rect<D, T>& r) {
	for(std::size_t i = 0; i < D; ++i) sa_assume(r.size[i] > T(0));
}
template<std::size_t D, typename T> void nonneg(const nytl::Rect<D, T>& r) {
	for(std::size_t i = 0; i < D; ++i) sa_assume(r.size[i] >= T(0));
}
