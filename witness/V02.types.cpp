// sa: min=16
#include <nytl/vec.hpp>
#include <nytl/mat.hpp>
#include <type_traits>

template<typename F, typename T> constexpr bool conv = std::is_convertible_v<F, T>;
template<typename F, typename T> constexpr bool constr = std::is_constructible_v<T, F>;
template<std::size_t D, typename T> using V = nytl::Vec<D, T>;
// a conversion that drops components, adds some or changes the value type has to be asked for
template<std::size_t A, std::size_t B, typename TA, typename TB> constexpr bool asked = constr<V<A, TA>, V<B, TB>> && !conv<V<A, TA>, V<B, TB>> &&
	constr<const V<A, TA>&, V<B, TB>> && !conv<const V<A, TA>&, V<B, TB>>;
static_assert(asked<2, 3, int, int> && asked<2, 4, int, int> && asked<2, 2, int, float>);
static_assert(asked<3, 2, int, int> && asked<3, 4, int, int> && asked<3, 3, double, float>);
static_assert(asked<4, 2, int, int> && asked<4, 3, int, int> && asked<4, 4, double, int> && asked<4, 5, float, float>);
// vectors are plain values: no padding, contiguous
static_assert(sizeof(V<2, float>) == 2 * sizeof(float) && sizeof(V<3, double>) == 3 * sizeof(double) && sizeof(V<4, char>) == 4 && sizeof(V<5, int>) == 5 * sizeof(int));
static_assert(std::is_trivially_copyable_v<V<2, int>> && std::is_trivially_copyable_v<V<3, int>> && std::is_trivially_copyable_v<V<4, int>>);
static_assert(std::is_standard_layout_v<V<2, int>> && std::is_standard_layout_v<V<3, int>> && std::is_standard_layout_v<V<4, int>>);
static_assert(std::is_aggregate_v<V<2, int>> && std::is_aggregate_v<V<3, int>> && std::is_aggregate_v<V<4, int>>);
// constness of the vector is the constness of its components
template<typename T> T x();
template<std::size_t D> constexpr bool access() {
	using A = V<D, int>; using C = const A;
	static_assert(std::is_same_v<decltype(x<A&>()[0]), int&> && std::is_same_v<decltype(x<C&>()[0]), const int&>);
	static_assert(std::is_same_v<decltype(x<A&>().at(0)), int&> && std::is_same_v<decltype(x<C&>().at(0)), const int&>);
	static_assert(std::is_same_v<decltype(x<A&>().front()), int&> && std::is_same_v<decltype(x<C&>().front()), const int&>);
	static_assert(std::is_same_v<decltype(x<A&>().back()), int&> && std::is_same_v<decltype(x<C&>().back()), const int&>);
	static_assert(std::is_same_v<decltype(x<A&>().data()), int*> && std::is_same_v<decltype(x<C&>().data()), const int*>);
	static_assert(std::is_same_v<decltype(*x<A&>().begin()), int&> && std::is_same_v<decltype(*x<C&>().begin()), const int&>);
	static_assert(std::is_same_v<decltype(*x<A&>().end()), int&> && std::is_same_v<decltype(*x<C&>().end()), const int&>);
	return true;
}
static_assert(access<2>());
static_assert(access<3>());
static_assert(access<4>());
static_assert(std::is_same_v<std::decay_t<decltype(nytl::Vec {1, 2, 3})>, V<3, int>> && std::is_same_v<std::decay_t<decltype(nytl::Vec {1, 2.0})>, V<2, double>> && std::is_same_v<std::decay_t<decltype(nytl::Vec {1.f, 2, 3, 4})>, V<4, float>>);
