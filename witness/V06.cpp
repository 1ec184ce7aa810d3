// sa: min=150
// no value is rounded on the way from the components to the result
#include "num.hpp"
#include <nytl/vecOps.hpp>
#include <nytl/matOps.hpp>
#include <nytl/approxVec.hpp>
#include <nytl/math.hpp>
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>

template<int Mode, typename F> void keeps(F f, const char* l) {
	sa_precise(Mode);
	f();
	sa_precise(0);
	sa_reach(l);
}
// every partition evaluates one of the expressions
#define D1(...) do { if(sa_fresh_bool("this one")) { keeps<1>([&] { return __VA_ARGS__; }, #__VA_ARGS__); return; } } while(0)
#define L1(...) do { if(sa_fresh_bool("this one")) { keeps<2>([&] { return __VA_ARGS__; }, #__VA_ARGS__); return; } } while(0)

namespace cw = nytl::vec::cw;
namespace ip = nytl::vec::cw::ip;


// T: the type with the larger precision, O: the same or one with a smaller precision
template<unsigned D, typename T, typename O> void vecs() {
	const auto a = VSYM(D, T, "a");
	const auto b = VSYM(D, O, "b");
	const auto s = sa_sym<T>("s");
	D1(a + b); D1(b + a); D1(a - b); D1(b - a); D1(-a); D1(s * a); D1(s * b);
	D1(a == b); D1(b == a); D1(a != b);
	D1(nytl::sum(a)); D1(nytl::multiply(a)); D1(nytl::dot(a, b)); D1(nytl::dot(b, a));
	D1(nytl::length(a)); D1(nytl::distance(a, b)); D1(nytl::distance(b, a)); D1(nytl::angle(a, b)); D1(nytl::angleNormed(a, b));
	D1(nytl::normalized(a)); D1(nytl::mirror(a, a));
	auto c = a; D1(c += b); D1(c -= b); D1(c *= s); D1(nytl::normalize(c));
	D1(cw::max(a, a)); D1(cw::min(a, a)); D1(cw::max(a, s)); D1(cw::min(a, s)); D1(cw::multiply(a, b)); D1(cw::divide(a, b));
	D1(cw::multiply(b, a)); D1(cw::divide(b, a)); D1(cw::abs(a)); D1(cw::sqrt(a)); D1(cw::clamp(a, s, s)); D1(cw::clamp(a, a, a));
	D1(cw::pow(a, s)); D1(cw::pow(a, b));
	D1(cw::sin(a)); D1(cw::exp(a)); D1(cw::log(a)); D1(cw::floor(a)); D1(cw::ceil(a)); D1(cw::acos(a)); D1(cw::asin(a)); D1(cw::atan(a)); D1(cw::tan(a)); D1(cw::cos(a));
	D1(nytl::Vec<D, T>(a)); D1(nytl::Vec<D, T>(b));
}
OB(vec2) { vecs<2, double, double>(); }
OB(vec3) { vecs<3, double, double>(); }
OB(vec4) { vecs<4, double, double>(); }
OB(vec2f) { vecs<2, double, float>(); }
OB(vec3f) { vecs<3, double, float>(); }
OB(vec4f) { vecs<4, double, float>(); }
OB(cross) {
	D1(nytl::cross(VSYM(3, double, "a"), VSYM(3, float, "b"))); D1(nytl::cross(VSYM(3, float, "a"), VSYM(3, double, "b")));
	D1(nytl::cross(VSYM(2, double, "a"), VSYM(2, float, "b"))); D1(nytl::cross(VSYM(2, float, "a"), VSYM(2, double, "b")));
}
OB(division) {
	const auto a = VSYM(3, double, "a"), b = VSYM(3, double, "b"); const auto s = sa_real("s");
	{ using namespace nytl::vec::operators; D1(a / s); D1(s / a); D1(a * s); }
	{ using namespace nytl::vec::cw::operators; D1(a + s); D1(s + a); D1(a - s); D1(s - a); D1(a * b); D1(a / b); }
}
template<unsigned D> void longs() {
	const auto a = VSYM(D, long, "a");
	const auto b = VSYM(D, int, "b");
	const auto s = sa_sym<long>("s");
	L1(a + b); L1(b + a); L1(a - b); L1(b - a); L1(-a); L1(s * a); L1(s * b);
	L1(a == b); L1(b == a); L1(a != b);
	L1(nytl::sum(a)); L1(nytl::multiply(a)); L1(nytl::dot(a, b)); L1(nytl::dot(b, a));
	auto c = a; L1(c += b); L1(c -= b); L1(c *= s);
	L1(cw::max(a, a)); L1(cw::min(a, a)); L1(cw::max(a, s)); L1(cw::min(a, s)); L1(cw::multiply(a, b)); L1(cw::multiply(b, a));
	L1(cw::clamp(a, s, s)); L1(cw::clamp(a, a, a));
}
OB(long2) { longs<2>(); }
OB(long3) { longs<3>(); }
OB(long4) { longs<4>(); }
template<typename T, typename O> void mats() {
	const auto a = MSYM(3, 3, T, "a");
	const auto b = MSYM(3, 3, O, "b");
	const auto v = VSYM(3, O, "v");
	const auto w = VSYM(3, T, "v");
	const auto s = sa_sym<T>("s");
	D1(a * b); D1(b * a); D1(a * v); D1(b * w); D1(s * a); D1(a + b); D1(b + a); D1(a - b); D1(b - a); D1(-a); D1(a == b); D1(a != b);
	auto c = a;
	D1(c *= b); D1(c *= s); D1(c += b); D1(c -= b);
	D1(nytl::trace(a)); D1(nytl::multiplyDiagonal(a)); D1(nytl::transpose(a)); D1(nytl::col(a, 1)); D1(nytl::symmetric(a));
	D1(nytl::Mat<4, 4, T>(a)); D1(nytl::Mat<4, 4, T>(b));
}
OB(mat) { mats<double, double>(); }
OB(matf) { mats<double, float>(); }
OB(mat4) {
	const auto a = MSYM(4, 4, double, "a"), b = MSYM(4, 4, double, "b");
	D1(a * b); D1(a * VSYM(4, double, "v")); D1(a + b); D1(nytl::transpose(a));
}
OB(solve) {
	const auto a = MSYM(2, 2, double, "a");
	D1(nytl::luDecomp(a)); D1(nytl::determinant(a)); D1(nytl::invertible(a)); D1(nytl::inverse(a));
	D1(nytl::rowEcholonCopy(a)); D1(nytl::reducedRowEcholonCopy(a));
	D1(nytl::luEvaluate(nytl::luDecomp(a), VSYM(2, double, "v")));
}
OB(integers) {
	D1(nytl::determinant(MSYM(2, 2, int, "a"))); D1(nytl::invertible(MSYM(2, 2, int, "a"))); D1(nytl::inverse(MSYM(2, 2, int, "a")));
	D1(nytl::rowEcholonCopy(MSYM(2, 2, int, "a"))); D1(nytl::reducedRowEcholonCopy(MSYM(2, 2, int, "a")));
	D1(nytl::length(VSYM(3, int, "a"))); D1(nytl::distance(VSYM(3, int, "a"), VSYM(3, int, "b"))); D1(nytl::angle(VSYM(3, int, "a"), VSYM(3, int, "b")));
}
OB(numbers) {
	auto x = sa_real("x"), y = sa_real("y"), z = sa_real("z");
	D1(nytl::degrees(x)); D1(nytl::radians(x)); D1(nytl::mix(x, y, z));
	sa_assume(x < y);
	D1(nytl::smoothstep(x, y, z));
	L1(nytl::pair(sa_uint("a"), sa_uint("b")));
}
OB(compare) {
	auto x = sa_real("x"), y = sa_real("y");
	D1(x == nytl::approx(y)); D1(nytl::approx(y) == x); D1(x != nytl::approx(y)); D1(nytl::approx(y) != x); D1(x == nytl::approx(y, sa_real("e")));
	const auto a = VSYM(2, double, "a"), b = VSYM(2, double, "b");
	D1(a == nytl::approx(b)); D1(nytl::approx(a) == b); D1(a != nytl::approx(b));
}
OB(rects) {
	const nytl::Rect<2, double> r {VSYM(2, double, "a"), VSYM(2, double, "b")}, q {VSYM(2, double, "c"), VSYM(2, double, "d")};
	for(auto i = 0u; i < 2; ++i) { sa_assume(r.size[i] > 0); sa_assume(q.size[i] > 0); }
	D1(nytl::contains(r, VSYM(2, double, "p"))); D1(nytl::containsReal(r, VSYM(2, double, "p"))); D1(nytl::intersects(r, q)); D1(nytl::intersectsReal(r, q));
	D1(nytl::intersection(r, q)); D1(nytl::size(r)); D1(nytl::center(r)); D1(r == q);
}
OB(rectlongs) {
	const nytl::Rect<2, long> r {VSYM(2, long, "a"), VSYM(2, long, "b")}, q {VSYM(2, long, "c"), VSYM(2, long, "d")};
	for(auto i = 0u; i < 2; ++i) { sa_assume(r.size[i] > 0); sa_assume(q.size[i] > 0); }
	L1(nytl::contains(r, VSYM(2, long, "p"))); L1(nytl::containsReal(r, VSYM(2, long, "p"))); L1(nytl::intersects(r, q)); L1(nytl::intersectsReal(r, q));
	L1(nytl::intersection(r, q)); L1(nytl::size(r)); L1(r == q);
}
// more precise than double
OB(vec2l) { vecs<2, long double, double>(); }
OB(vec3l) { vecs<3, long double, float>(); }
OB(vec4l) { vecs<4, long double, long double>(); }
OB(matl) { mats<long double, double>(); }
OB(numbersl) {
	auto x = sa_sym<long double>("x"), y = sa_sym<long double>("y"), z = sa_sym<long double>("z");
	D1(nytl::mix(x, y, z)); D1(nytl::degrees(x)); D1(nytl::radians(x));
	sa_assume(x < y);
	D1(nytl::smoothstep(x, y, z));
}
OB(rectl) {
	using LD = long double;
	const nytl::Rect<2, LD> r {VSYM(2, LD, "a"), VSYM(2, LD, "b")}, q {VSYM(2, LD, "c"), VSYM(2, LD, "d")};
	for(auto i = 0u; i < 2; ++i) { sa_assume(r.size[i] > 0); sa_assume(q.size[i] > 0); }
	D1(nytl::contains(r, VSYM(2, LD, "p"))); D1(nytl::containsReal(r, VSYM(2, LD, "p"))); D1(nytl::intersects(r, q)); D1(nytl::intersectsReal(r, q));
	D1(nytl::intersection(r, q)); D1(nytl::size(r)); D1(nytl::center(r)); D1(r == q);
}
