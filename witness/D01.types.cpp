// sa: min=20
#include <nytl/vec.hpp>
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <nytl/rect.hpp>
#include <nytl/simplex.hpp>
#include <nytl/quaternion.hpp>
#include <nytl/flags.hpp>
#include <nytl/connection.hpp>
#include <cstdint>
#include <complex>
#include <type_traits>

enum class E8 : std::uint8_t { a = 1, b = 2 };
enum class E64 : std::uint64_t { a = 1, b = 2 };
// N components of type T and nothing else: may be copied as bytes, needs no more alignment than its components,
// and nothing but constructing one with unknown components needs code
template<typename V, typename T, std::size_t N> constexpr bool plain = sizeof(V) == N * sizeof(T) && alignof(V) == alignof(T) &&
	std::is_trivially_copyable_v<V> && std::is_standard_layout_v<V> && std::is_trivially_destructible_v<V> &&
	std::is_trivially_copy_constructible_v<V> && std::is_trivially_copy_assignable_v<V> && std::is_trivially_move_constructible_v<V> && std::is_trivially_move_assignable_v<V> &&
	std::is_nothrow_default_constructible_v<V> && std::is_nothrow_copy_constructible_v<V> && std::is_nothrow_copy_assignable_v<V> && !std::is_polymorphic_v<V> && !std::is_final_v<V>;
template<std::size_t D, typename T> constexpr bool vec = plain<nytl::Vec<D, T>, T, D> && std::is_aggregate_v<nytl::Vec<D, T>>;
template<typename T> constexpr bool vecs = vec<1, T> && vec<2, T> && vec<3, T> && vec<4, T> && vec<5, T> && vec<8, T> && vec<16, T>;
static_assert(vecs<float> && vecs<double> && vecs<long double>);
static_assert(vecs<int> && vecs<unsigned> && vecs<std::int8_t> && vecs<std::uint8_t> && vecs<std::int16_t> && vecs<std::int64_t> && vecs<std::uint64_t> && vecs<bool>);
static_assert(sizeof(nytl::Vec<3, std::complex<float>>) == 24 && std::is_trivially_copyable_v<nytl::Vec<3, std::complex<float>>>);
static_assert(vec<3, int*> && vec<3, E8>);

template<std::size_t R, std::size_t C, typename T> constexpr bool mat = plain<nytl::Mat<R, C, T>, T, R * C> && std::is_aggregate_v<nytl::Mat<R, C, T>>;
template<typename T> constexpr bool mats = mat<1, 1, T> && mat<2, 2, T> && mat<3, 3, T> && mat<4, 4, T> && mat<2, 3, T> && mat<3, 2, T> && mat<3, 4, T> && mat<4, 3, T> && mat<4, 2, T> && mat<1, 5, T> && mat<6, 1, T>;
static_assert(mats<float> && mats<double> && mats<int> && mats<std::uint8_t> && mats<long double>);

template<std::size_t D, typename T> constexpr bool rect = plain<nytl::Rect<D, T>, T, 2 * D> && std::is_aggregate_v<nytl::Rect<D, T>>;
static_assert(rect<1, float> && rect<2, float> && rect<3, float> && rect<4, float> && rect<2, double> && rect<3, double> && rect<2, int> && rect<2, unsigned> && rect<3, std::uint8_t>);

template<std::size_t D, typename T, std::size_t A> constexpr bool simplex = plain<nytl::Simplex<D, T, A>, T, D * (A + 1)>;
static_assert(simplex<2, float, 1> && simplex<2, double, 2> && simplex<3, float, 1> && simplex<3, double, 2> && simplex<3, float, 3> && simplex<4, int, 2>);

static_assert(plain<nytl::Quaternion, double, 4> && std::is_aggregate_v<nytl::Quaternion>);

static_assert(plain<nytl::Flags<E8>, std::uint8_t, 1> && plain<nytl::Flags<E64>, std::uint64_t, 1> && plain<nytl::Flags<E8, std::uint32_t>, std::uint32_t, 1>);

static_assert(plain<nytl::ConnectionID, std::int64_t, 1> && std::is_trivially_copyable_v<nytl::Connection>);
static_assert(std::is_trivially_copyable_v<nytl::LUDecomposition<3, double>> && std::is_standard_layout_v<nytl::LUDecomposition<3, double>>);

// members can be bound and copied as a whole
static_assert(std::is_same_v<decltype(nytl::Vec<2, float>::x), float> && std::is_same_v<decltype(nytl::Vec<3, double>::z), double>);
static_assert(std::is_same_v<decltype(nytl::Quaternion::x), double> && std::is_same_v<decltype(nytl::Quaternion::w), double>);
static_assert(std::is_same_v<decltype(nytl::Rect<2, int>::position), nytl::Vec<2, int>> && std::is_same_v<decltype(nytl::Rect<2, int>::size), nytl::Vec<2, int>>);
static_assert(offsetof(nytl::Quaternion, x) == 0 && offsetof(nytl::Quaternion, y) == 8 && offsetof(nytl::Quaternion, z) == 16 && offsetof(nytl::Quaternion, w) == 24);
using R3 = nytl::Rect<3, float>;
static_assert(offsetof(R3, position) == 0 && offsetof(R3, size) == 12);

// initialised by their components in order, everywhere also in constant expressions; missing ones are zero
constexpr nytl::Vec<2, int> v2 {1, 2};
constexpr nytl::Vec<3, int> v3 {1, 2, 3};
constexpr nytl::Vec<4, int> v4 {1, 2, 3, 4};
constexpr nytl::Vec<5, int> v5 {1, 2, 3, 4, 5};
static_assert(v2.x == 1 && v2.y == 2 && v3.x == 1 && v3.y == 2 && v3.z == 3 && v4[0] == 1 && v4[1] == 2 && v4[2] == 3 && v4[3] == 4 && v5[0] == 1 && v5[4] == 5);
constexpr nytl::Vec<3, int> p3 {1};
constexpr nytl::Vec<4, int> p4 {1, 2};
static_assert(p3[0] == 1 && p3[1] == 0 && p3[2] == 0 && p4[1] == 2 && p4[2] == 0 && p4[3] == 0);
constexpr nytl::Mat<2, 3, int> m {1, 2, 3, 4, 5, 6};
static_assert(m[0][0] == 1 && m[0][1] == 2 && m[0][2] == 3 && m[1][0] == 4 && m[1][1] == 5 && m[1][2] == 6);
constexpr nytl::Quaternion q {1.0, 2.0, 3.0, 4.0}, qi {};
static_assert(q.x == 1.0 && q.y == 2.0 && q.z == 3.0 && q.w == 4.0 && qi.x == 0.0 && qi.y == 0.0 && qi.z == 0.0 && qi.w == 1.0);
constexpr nytl::Rect<2, int> r {{1, 2}, {3, 4}};
static_assert(r.position[0] == 1 && r.position[1] == 2 && r.size[0] == 3 && r.size[1] == 4);
constexpr nytl::Flags<E8> f {};
static_assert(f.value() == 0);
