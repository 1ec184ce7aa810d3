// sa: min=60
// number types with an algebra of their own: the type of every result is the type of the component expression
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>
#include <complex>
#include <type_traits>

// a physical quantity: the unit is part of the type, only quantities of the same unit can be added
template<int U> struct Q { double v; };
template<int U> constexpr Q<U> operator+(Q<U> a, Q<U> b) { return {a.v + b.v}; }
template<int U> constexpr Q<U> operator-(Q<U> a, Q<U> b) { return {a.v - b.v}; }
template<int U> constexpr Q<U> operator-(Q<U> a) { return {-a.v}; }
template<int U> constexpr Q<U>& operator+=(Q<U>& a, Q<U> b) { a.v += b.v; return a; }
template<int U> constexpr Q<U>& operator-=(Q<U>& a, Q<U> b) { a.v -= b.v; return a; }
template<int A, int B> constexpr Q<A + B> operator*(Q<A> a, Q<B> b) { return {a.v * b.v}; }
template<int A, int B> constexpr Q<A - B> operator/(Q<A> a, Q<B> b) { return {a.v / b.v}; }
template<int U> constexpr Q<U>& operator*=(Q<U>& a, double f) { a.v *= f; return a; }
template<int U> constexpr Q<U> operator*(double f, Q<U> a) { return {f * a.v}; }
template<int U> constexpr bool operator==(Q<U> a, Q<U> b) { return a.v == b.v; }
template<int U> constexpr bool operator!=(Q<U> a, Q<U> b) { return a.v != b.v; }
template<int U> constexpr bool operator<(Q<U> a, Q<U> b) { return a.v < b.v; }
template<int U> constexpr bool operator>(Q<U> a, Q<U> b) { return a.v > b.v; }
// an affine type: the difference of two points is no point, points cannot be added
struct P { double v; };
constexpr Q<1> operator-(P a, P b) { return {a.v - b.v}; }
constexpr P operator+(P a, Q<1> b) { return {a.v + b.v}; }
constexpr P operator-(P a, Q<1> b) { return {a.v - b.v}; }
constexpr P& operator+=(P& a, Q<1> b) { a.v += b.v; return a; }
constexpr P& operator-=(P& a, Q<1> b) { a.v -= b.v; return a; }

template<std::size_t D, typename T> using V = nytl::Vec<D, T>;
template<std::size_t R, std::size_t C, typename T> using M = nytl::Mat<R, C, T>;
template<typename A, typename B> constexpr bool is = std::is_same_v<A, B>;
#define T(...) std::decay_t<decltype(__VA_ARGS__)>
template<typename X> X x(); // a value of the type

template<std::size_t D> constexpr bool vectors() {
	using A = V<D, Q<1>>; using B = V<D, Q<2>>; using S = V<D, P>; using Dbl = V<D, double>;
	static_assert(is<T(x<A>() + x<A>()), A> && is<T(x<A>() - x<A>()), A> && is<T(-x<A>()), A> && is<T(+x<A>()), A>);
	static_assert(is<T(x<S>() - x<S>()), A>);
	static_assert(is<T(x<S>() + x<A>()), S>);
	static_assert(is<T(x<S>() - x<A>()), S>);
	static_assert(is<decltype(x<S&>() += x<A>()), S&> && is<decltype(x<S&>() -= x<A>()), S&> && is<decltype(x<A&>() *= 2.0), A&>);
	static_assert(is<T(x<Q<2>>() * x<A>()), V<D, Q<3>>>);
	static_assert(is<T(2.0 * x<A>()), A>);
	static_assert(is<T(nytl::dot(x<A>(), x<B>())), Q<3>>);
	static_assert(is<T(nytl::sum(x<B>())), Q<2>>);
	static_assert(is<T(nytl::mirror(x<S>(), x<S>())), S>);
	static_assert(is<T(nytl::vec::cw::multiply(x<A>(), x<B>())), V<D, Q<3>>>);
	static_assert(is<T(nytl::vec::cw::divide(x<A>(), x<B>())), V<D, Q<-1>>>);
	static_assert(is<T(nytl::vec::cw::max(x<A>(), x<A>())), A> && is<T(nytl::vec::cw::min(x<A>(), x<Q<1>>())), A>);
	// builtin types: the usual arithmetic conversions of the components
	static_assert(is<T(x<V<D, int>>() + x<Dbl>()), Dbl> && is<T(x<V<D, int>>() - x<V<D, long>>()), V<D, long>> && is<T(x<V<D, float>>() + x<V<D, int>>()), V<D, float>>);
	static_assert(is<T(2.0 * x<V<D, float>>()), Dbl> && is<T(2.f * x<V<D, int>>()), V<D, float>> && is<T(2 * x<Dbl>()), Dbl>);
	static_assert(is<T(nytl::dot(x<V<D, float>>(), x<Dbl>())), double> && is<T(nytl::dot(x<V<D, int>>(), x<V<D, long>>())), long>);
	static_assert(is<T(nytl::sum(x<V<D, short>>())), int> && is<T(nytl::multiply(x<V<D, unsigned char>>())), int>);
	static_assert(is<T(nytl::length(x<V<D, float>>())), float> && is<T(nytl::length(x<Dbl>())), double> && is<T(nytl::length(x<V<D, int>>())), double>);
	static_assert(is<T(nytl::distance(x<V<D, float>>(), x<Dbl>())), double> && is<T(nytl::angle(x<V<D, float>>(), x<Dbl>())), double>);
	static_assert(is<T(nytl::vec::cw::multiply(x<V<D, int>>(), x<V<D, float>>())), V<D, float>>);
	static_assert(is<T(x<V<D, std::complex<double>>>() + x<V<D, std::complex<double>>>()), V<D, std::complex<double>>>);
	return true;
}
static_assert(vectors<2>());
static_assert(vectors<3>());
static_assert(vectors<4>());
static_assert(is<T(nytl::cross(x<V<3, Q<1>>>(), x<V<3, Q<2>>>())), V<3, Q<3>>> && is<T(nytl::cross(x<V<2, Q<1>>>(), x<V<2, Q<2>>>())), Q<3>>);
static_assert(is<T(nytl::cross(x<V<3, float>>(), x<V<3, double>>())), V<3, double>>);
namespace vops { using namespace nytl::vec::operators;
	static_assert(is<T(x<V<3, Q<1>>>() * x<Q<2>>()), V<3, Q<3>>> && is<T(x<V<3, Q<1>>>() / x<Q<2>>()), V<3, Q<-1>>> && is<T(x<Q<1>>() / x<V<3, Q<2>>>()), V<3, Q<-1>>>);
	static_assert(is<T(x<V<3, int>>() / 2.0), V<3, double>> && is<T(1.f / x<V<3, int>>()), V<3, float>> && is<T(x<V<3, float>>() * 2.0), V<3, double>>);
}
namespace cwops { using namespace nytl::vec::cw::operators;
	static_assert(is<T(x<V<3, P>>() + x<Q<1>>()), V<3, P>> && is<T(x<V<3, P>>() - x<Q<1>>()), V<3, P>> && is<T(x<V<3, P>>() - x<P>()), V<3, Q<1>>> && is<T(x<P>() - x<V<3, P>>()), V<3, Q<1>>>);
	static_assert(is<T(x<V<3, Q<1>>>() * x<V<3, Q<2>>>()), V<3, Q<3>>> && is<T(x<V<3, Q<1>>>() / x<V<3, Q<2>>>()), V<3, Q<-1>>>);
	static_assert(is<T(x<V<3, int>>() + 2.0), V<3, double>> && is<T(2.0 - x<V<3, int>>()), V<3, double>>);
}
template<std::size_t R, std::size_t C> constexpr bool matrices() {
	using A = M<R, C, Q<1>>; using S = M<R, C, P>;
	static_assert(is<T(x<A>() + x<A>()), A> && is<T(x<A>() - x<A>()), A> && is<T(-x<A>()), A>);
	static_assert(is<T(x<S>() - x<S>()), A>);
	static_assert(is<T(x<S>() + x<A>()), S> && is<T(x<S>() - x<A>()), S>);
	static_assert(is<T(x<Q<2>>() * x<A>()), M<R, C, Q<3>>> && is<T(2.0 * x<A>()), A>);
	static_assert(is<T(x<A>() * x<M<C, 2, Q<2>>>()), M<R, 2, Q<3>>>);
	static_assert(is<T(x<A>() * x<V<C, Q<2>>>()), V<R, Q<3>>>);
	static_assert(is<T(nytl::transpose(x<A>())), M<C, R, Q<1>>> && is<T(nytl::col(x<A>(), 0)), V<R, Q<1>>>);
	static_assert(is<decltype(x<A&>() += x<A>()), A&> && is<decltype(x<S&>() -= x<A>()), S&> && is<decltype(x<A&>() *= 2.0), A&>);
	static_assert(is<T(x<M<R, C, int>>() + x<M<R, C, double>>()), M<R, C, double>> && is<T(x<M<R, C, long>>() - x<M<R, C, int>>()), M<R, C, long>>);
	static_assert(is<T(x<M<R, C, float>>() * x<M<C, R, double>>()), M<R, R, double>> && is<T(x<M<R, C, int>>() * x<V<C, float>>()), V<R, float>> && is<T(2.0 * x<M<R, C, float>>()), M<R, C, double>>);
	return true;
}
static_assert(matrices<2, 2>());
static_assert(matrices<2, 3>());
static_assert(matrices<3, 2>());
static_assert(matrices<4, 4>());
static_assert(is<T(nytl::trace(x<M<3, 3, Q<1>>>())), Q<1>> && is<T(nytl::determinant(x<M<3, 3, double>>())), double> && is<T(nytl::inverse(x<M<3, 3, int>>())), M<3, 3, double>>);
// only what an operation needs is asked of the number type
struct OnlyAdd { int v; }; constexpr OnlyAdd operator+(OnlyAdd a, OnlyAdd b) { return {a.v + b.v}; }
static_assert((V<2, OnlyAdd> {{1}, {2}} + V<2, OnlyAdd> {{3}, {4}}).y.v == 6);
static_assert((V<4, OnlyAdd> {{{{1}, {2}, {3}, {4}}}} + V<4, OnlyAdd> {{{{1}, {2}, {3}, {4}}}})[3].v == 8);
// and the values come out right
static_assert((V<2, P> {{5}, {6}} - V<2, P> {{1}, {8}}).y.v == -2 && (V<3, P> {{5}, {6}, {7}} + V<3, Q<1>> {{1}, {8}, {2}}).z.v == 9);
static_assert((Q<2> {3} * V<2, Q<1>> {{1}, {8}}).y.v == 24 && nytl::dot(V<2, Q<1>> {{1}, {8}}, V<2, Q<2>> {{3}, {2}}).v == 19);
