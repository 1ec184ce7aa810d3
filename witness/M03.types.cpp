// sa: min=12
#include <nytl/mat.hpp>
#include <type_traits>

template<typename F, typename T> constexpr bool conv = std::is_convertible_v<F, T>;
template<typename F, typename T> constexpr bool constr = std::is_constructible_v<T, F>;
template<std::size_t R, std::size_t C, typename T> using M = nytl::Mat<R, C, T>;
template<typename A, typename B> constexpr bool asked = constr<A, B> && !conv<A, B> && constr<const A&, B> && !conv<const A&, B>;
// a conversion that changes the shape or the value type has to be asked for
static_assert(asked<M<3, 3, int>, M<4, 4, int>> && asked<M<4, 4, int>, M<3, 3, int>> && asked<M<2, 3, int>, M<3, 2, int>>);
static_assert(asked<M<2, 2, int>, M<2, 2, double>> && asked<M<2, 2, double>, M<2, 2, float>>);
// row-major without gaps
static_assert(sizeof(M<4, 4, float>) == 64 && sizeof(M<2, 3, double>) == 48 && sizeof(M<3, 3, char>) == 9);
static_assert(std::is_trivially_copyable_v<M<4, 4, float>> && std::is_standard_layout_v<M<4, 4, float>>);
// constness of the matrix is the constness of its elements
template<typename T> T x();
using A = M<2, 3, int>; using C = const A;
static_assert(std::is_same_v<decltype(x<A&>()[0]), nytl::Vec<3, int>&> && std::is_same_v<decltype(x<C&>()[0]), const nytl::Vec<3, int>&>);
static_assert(std::is_same_v<decltype(x<A&>()[0][0]), int&> && std::is_same_v<decltype(x<C&>()[0][0]), const int&>);
static_assert(std::is_same_v<decltype(x<A&>().at(0)), nytl::Vec<3, int>&> && std::is_same_v<decltype(x<C&>().at(0)), const nytl::Vec<3, int>&>);
static_assert(std::is_same_v<decltype(x<A&>().at(0, 0)), int&> && std::is_same_v<decltype(x<C&>().at(0, 0)), const int&>);
