// sa: min=90
// everything below is computed by the compiler: an operation that stops being a constant expression, or reaches
// undefined behaviour on the way (which constant evaluation refuses), does not compile
#include <cstdint>
#include <array>
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>
#include <nytl/simplex.hpp>
#include <nytl/flags.hpp>
#include <nytl/span.hpp>
#include <nytl/math.hpp>
#include <nytl/stringParam.hpp>
#include <nytl/functionTraits.hpp>
#include <nytl/tmpUtil.hpp>

template<std::size_t D, typename T> using V = nytl::Vec<D, T>;
template<std::size_t R, std::size_t C, typename T> using M = nytl::Mat<R, C, T>;
// std::array has no constexpr comparison in C++17: compare the components
template<std::size_t D, typename A, typename B> constexpr bool same(const V<D, A>& a, const V<D, B>& b) {
	for(std::size_t i = 0; i < D; ++i) if(!(a[i] == b[i])) return false;
	return true;
}
template<std::size_t R, std::size_t C, typename A, typename B> constexpr bool same(const M<R, C, A>& a, const M<R, C, B>& b) {
	for(std::size_t i = 0; i < R; ++i) if(!same(a[i], b[i])) return false;
	return true;
}
template<typename V, typename F> constexpr V with(V v, F f) { f(v); return v; }

// vectors of every kind: named members for 2 and 3 components, plain arrays above
template<std::size_t D> constexpr V<D, int> iota(int k, int s = 1) { V<D, int> r {}; for(std::size_t i = 0; i < D; ++i) r[i] = k + s * int(i); return r; }
template<std::size_t D> constexpr bool vectors() {
	constexpr auto a = iota<D>(1), b = iota<D>(10, -2);
	static_assert(same(a + b, iota<D>(11, -1)));
	static_assert(same(b - a, iota<D>(9, -3)));
	static_assert(same(-a, iota<D>(-1, -1)));
	static_assert(same(+a, a));
	static_assert(same(3 * a, iota<D>(3, 3)));
	static_assert(same(with(a, [&](auto& v) { v += b; }), a + b));
	static_assert(same(with(a, [&](auto& v) { v -= b; }), a - b));
	static_assert(same(with(a, [&](auto& v) { v *= 4; }), 4 * a));
	static_assert(same(with(a, [&](auto& v) { v *= v[1]; }), 2 * a));
	static_assert(a == a && !(a == b) && a != b && !(a != a));
	static_assert(same(static_cast<V<D, int>>(static_cast<V<D + 1, int>>(a)), a));
	static_assert(same(static_cast<V<D, long>>(a), a) && static_cast<V<D + 1, int>>(a)[D] == 0);
	static_assert(nytl::sum(a) == int(D * (D + 1) / 2) && nytl::multiply(a) == int(nytl::factorial(D)));
	static_assert(nytl::dot(a, a) == int(D * (D + 1) * (2 * D + 1) / 6));
	static_assert(same(nytl::mirror(a, b), 2 * a - b));
	static_assert(same(nytl::vec::cw::max(a, b) + nytl::vec::cw::min(a, b), a + b));
	static_assert(same(nytl::vec::cw::max(a, 2) + nytl::vec::cw::min(a, 2), a + iota<D>(2, 0)));
	static_assert(same(nytl::vec::cw::multiply(a, iota<D>(2, 0)), 2 * a));
	static_assert(same(nytl::vec::cw::divide(2 * a, a), iota<D>(2, 0)));
	static_assert(same(nytl::vec::cw::clamp(a, 1, 2), nytl::vec::cw::min(a, 2)));
	static_assert(same(nytl::vec::cw::clamp(a, a, b + iota<D>(100, 0)), a));
	static_assert(a.size() == D && a[0] == 1 && a[D - 1] == int(D) && a.at(D - 1) == int(D) && a.front() == 1 && a.back() == int(D) && *a.data() == 1);
	static_assert(*a.begin() == 1 && *(a.end() - 1) == int(D));
	return true;
}
static_assert(vectors<2>());
static_assert(vectors<3>());
static_assert(vectors<4>());
static_assert(vectors<5>());
static_assert(V<2, int> {1, 2}.x == 1 && V<2, int> {1, 2}.y == 2 && V<3, int> {1, 2, 3}.z == 3);
static_assert(same(nytl::cross(V<3, int> {1, 2, 3}, V<3, int> {4, 5, 6}), V<3, int> {-3, 6, -3}));
static_assert(nytl::cross(V<2, int> {1, 2}, V<2, int> {3, 4}) == -2);
namespace vops {
	using namespace nytl::vec::operators;
	static_assert(same(V<3, int> {1, 2, 3} * 2, V<3, int> {2, 4, 6}));
	static_assert(same(V<3, int> {2, 4, 6} / 2, V<3, int> {1, 2, 3}));
	static_assert(same(12 / V<3, int> {2, 4, 6}, V<3, int> {6, 3, 2}));
}
namespace cwops {
	using namespace nytl::vec::cw::operators;
	static_assert(same(V<3, int> {1, 2, 3} * V<3, int> {4, 5, 6}, V<3, int> {4, 10, 18}));
	static_assert(same(V<3, int> {4, 6, 9} / V<3, int> {2, 3, 3}, V<3, int> {2, 2, 3}));
	static_assert(same(with(V<3, int> {1, 2, 3}, [](auto& v) { v *= V<3, int> {4, 5, 6}; }), V<3, int> {4, 10, 18}));
	static_assert(same(with(V<3, int> {4, 6, 9}, [](auto& v) { v /= V<3, int> {2, 3, 3}; }), V<3, int> {2, 2, 3}));
	static_assert(same(V<3, int> {1, 2, 3} + 2, V<3, int> {3, 4, 5}));
	static_assert(same(2 + V<3, int> {1, 2, 3}, V<3, int> {3, 4, 5}));
	static_assert(same(V<3, int> {1, 2, 3} - 2, V<3, int> {-1, 0, 1}));
	static_assert(same(2 - V<3, int> {1, 2, 3}, V<3, int> {1, 0, -1}));
	static_assert(same(V<4, int> {1, 2, 3, 4} + 2, V<4, int> {3, 4, 5, 6}) && same(2 - V<4, int> {1, 2, 3, 4}, V<4, int> {1, 0, -1, -2}));
}
// matrices
constexpr M<2, 3, int> a23 {{{{1, 2, 3}, {4, 5, 6}}}};
constexpr M<3, 2, int> a32 {{{{1, 2}, {3, 4}, {5, 6}}}};
constexpr M<2, 2, int> a22 {{{{1, 2}, {3, 4}}}};
static_assert(same(a23 * a32, M<2, 2, int> {{{{22, 28}, {49, 64}}}}));
static_assert(same(a23 * V<3, int> {1, 0, 2}, V<2, int> {7, 16}));
static_assert(same(with(a22, [](auto& m) { m *= a22; }), M<2, 2, int> {{{{7, 10}, {15, 22}}}}));
static_assert(same(with(a22, [](auto& m) { m *= m; }), a22 * a22));
static_assert(same(2 * a23, a23 + a23));
static_assert(same(with(a23, [](auto& m) { m *= 3; }), 3 * a23));
static_assert(same(with(a23, [](auto& m) { m += a23; }), 2 * a23) && same(with(a23, [](auto& m) { m -= a23; }), M<2, 3, int> {}));
static_assert(same(a23 - a23, M<2, 3, int> {}) && same(-a23, -1 * a23));
static_assert(a23 == a23 && a23 != 2 * a23);
static_assert(a23.rows() == 2 && a23.cols() == 3 && a23[1][2] == 6 && a23.at(1)[0] == 4 && a23.at(1, 2) == 6);
static_assert(same(static_cast<M<2, 2, int>>(a23), M<2, 2, int> {{{{1, 2}, {4, 5}}}}) && same(static_cast<M<3, 3, long>>(a22), M<3, 3, int> {{{{1, 2, 0}, {3, 4, 0}, {0, 0, 0}}}}));
static_assert(same(nytl::transpose(a23), M<3, 2, int> {{{{1, 4}, {2, 5}, {3, 6}}}}));
static_assert(same(nytl::identity<2, int>(), M<2, 2, int> {{{{1, 0}, {0, 1}}}}) && same(with(a22, [](auto& m) { nytl::identity(m); }), nytl::identity<2, int>()));
static_assert(same(with(a23, [](auto& m) { nytl::one(m); }), M<2, 3, int> {{{{1, 1, 1}, {1, 1, 1}}}}));
static_assert(nytl::trace(a22) == 5 && nytl::multiplyDiagonal(a22) == 4);
static_assert(same(nytl::col(a23, 1), V<2, int> {2, 5}) && same(with(a23, [](auto& m) { nytl::col(m, 1, V<2, int> {8, 9}); }), M<2, 3, int> {{{{1, 8, 3}, {4, 9, 6}}}}));
static_assert(nytl::symmetric(M<2, 2, int> {{{{1, 2}, {2, 1}}}}) && !nytl::symmetric(a22));
// rects and simplices
using R2 = nytl::Rect<2, int>;
constexpr R2 r1 {{0, 0}, {4, 4}}, r2 {{2, 1}, {4, 2}}, r3 {{4, 0}, {2, 2}};
static_assert(nytl::size(r2) == 8 && same(nytl::center(r1), V<2, int> {2, 2}));
static_assert(nytl::contains(r1, V<2, int> {4, 4}) && !nytl::containsReal(r1, V<2, int> {4, 4}) && nytl::containsReal(r1, V<2, int> {3, 1}));
static_assert(nytl::intersects(r1, r3) && !nytl::intersectsReal(r1, r3) && nytl::intersectsReal(r1, r2));
static_assert(same(nytl::intersection(r1, r2).position, V<2, int> {2, 1}) && same(nytl::intersection(r1, r2).size, V<2, int> {2, 2}));
constexpr nytl::Simplex<2, int, 1> line {{{{1, 2}, {3, 4}}}};
static_assert(same(static_cast<nytl::Simplex<3, long, 1>>(line).points()[1], V<3, long> {3, 4, 0}));
// flags
enum class Bit : unsigned { a = 1, b = 2, c = 4 };
NYTL_FLAG_OPS(Bit)
using F = nytl::Flags<Bit>;
static_assert((Bit::a | Bit::c).value() == 5 && ((Bit::a | Bit::c) & Bit::c).value() == 4 && (Bit::a ^ Bit::a).value() == 0 && (~Bit::a & F(Bit::a)) == F {});
static_assert(with(F(Bit::a), [](F& f) { f |= Bit::b; f ^= Bit::a; f &= Bit::b; }) == F(Bit::b) && F(Bit::a) != F(Bit::b) && unsigned(F(Bit::c)) == 4u);
static_assert(F(nytl::invertFlags, Bit::b).value() == ~2u);
// spans over static storage
constexpr int arr[] = {1, 2, 3, 4};
constexpr std::array<int, 3> sarr {5, 6, 7};
constexpr nytl::span<const int> dyn(arr);
constexpr nytl::span<const int, 4> fix(arr);
static_assert(dyn.size() == 4 && fix.size() == 4 && dyn[2] == 3 && fix[3] == 4 && dyn(1) == 2 && fix.front() == 1 && dyn.back() == 4 && dyn.data() == arr && !dyn.empty());
static_assert(dyn.first(2).size() == 2 && dyn.last(1)[0] == 4 && dyn.subspan(1).size() == 3 && dyn.subspan(1, 2)[1] == 3);
static_assert(fix.first<2>()[1] == 2 && fix.last<2>()[0] == 3 && fix.subspan<1, 2>()[1] == 3 && fix.subspan<1>().size() == 3);
static_assert(nytl::span<const int>(sarr)[1] == 6 && nytl::span<const int, 3>(sarr).size_bytes() == 12 && nytl::span<const int>(fix).size() == 4);
static_assert(nytl::span<const int>().size() == 0 && nytl::span<const int>().empty() && nytl::span<const int>(arr + 1, arr + 3).size() == 2);
static_assert(*dyn.begin() == 1 && dyn.end() - dyn.begin() == 4 && *dyn.rbegin() == 4 && *dyn.cbegin() == 1);
static_assert(nytl::make_span(arr).size() == 4);
// utilities
static_assert(nytl::factorial(10) == 3628800ul && nytl::mix(2.0, 4.0, 0.5) == 3.0 && nytl::smoothstep(0.0, 2.0, 1.0) == 0.5);
static_assert(nytl::degrees(nytl::radians(90.0)) == 90.0);
static_assert(nytl::templatize<int>(7) == 7);
constexpr nytl::StringParam empty;
static_assert(empty.size() == 0 && nytl::StringParam("abc").size() == 3);
