// sa: min=12
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>
#include <nytl/simplex.hpp>
#include <nytl/vec.hpp>
#include <type_traits>

template<typename F, typename T> constexpr bool conv = std::is_convertible_v<F, T>;
template<typename F, typename T> constexpr bool constr = std::is_constructible_v<T, F>;
template<std::size_t D, typename T> using R = nytl::Rect<D, T>;
template<std::size_t D, typename T, std::size_t A> using S = nytl::Simplex<D, T, A>;

// conversions that drop dimensions or precision have to be asked for
static_assert(constr<R<2, float>, R<2, int>> && !conv<R<2, float>, R<2, int>>);
static_assert(constr<R<3, int>, R<2, int>> && !conv<R<3, int>, R<2, int>>);
static_assert(constr<R<2, int>, R<3, double>> && !conv<R<2, int>, R<3, double>>);
static_assert(constr<const R<2, double>&, R<2, float>> && !conv<const R<2, double>&, R<2, float>>);
static_assert(constr<S<2, float, 2>, S<2, int, 2>> && !conv<S<2, float, 2>, S<2, int, 2>>);
static_assert(constr<S<3, int, 1>, S<2, int, 1>> && !conv<S<3, int, 1>, S<2, int, 1>>);
static_assert(constr<S<2, int, 2>, S<3, double, 2>> && !conv<S<2, int, 2>, S<3, double, 2>>);
// the number of corners of a simplex never changes
static_assert(!constr<S<2, int, 2>, S<2, int, 1>> && !constr<S<3, int, 1>, S<3, int, 2>>);
// the parts of a rect have its dimension and value type
static_assert(std::is_same_v<decltype(R<3, float>::position), nytl::Vec<3, float>> && std::is_same_v<decltype(R<3, float>::size), nytl::Vec<3, float>>);
static_assert(std::is_same_v<decltype(nytl::Rect{nytl::Vec<2, int>{}, nytl::Vec<2, int>{}}), R<2, int>>);
static_assert(std::is_same_v<decltype(nytl::size(R<2, int>{})), int> && std::is_same_v<decltype(nytl::size(R<2, double>{})), double>);
static_assert(std::is_same_v<decltype(nytl::center(R<2, double>{})), nytl::Vec<2, double>>);
static_assert(sizeof(R<2, float>) == 4 * sizeof(float) && std::is_trivially_copyable_v<R<2, float>> && std::is_trivially_copyable_v<S<2, float, 2>>);
