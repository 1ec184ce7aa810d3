// sa: min=6
#include <nytl/math.hpp>
#include <type_traits>

using namespace nytl::constants;
constexpr bool near(double a, double b, double eps) { return (a < b ? b - a : a - b) < eps; }
// the constants are the numbers they are named after
static_assert(near(pi, 3.14159265358979323846, 1e-10));
static_assert(near(e, 2.71828182845904523536, 1e-10));
static_assert(near(degree * 180.0, 3.14159265358979323846, 1e-10));
static_assert(near(nytl::radians(180.0), 3.14159265358979323846, 1e-10) && near(nytl::degrees(3.14159265358979323846), 180.0, 1e-8));
// usable in constant expressions, and none of them computes in a narrower type than its operands
static_assert(nytl::factorial(0) == 1 && nytl::factorial(5) == 120 && nytl::factorial(20) == 2432902008176640000ul);
static_assert(std::is_same_v<decltype(nytl::factorial(3u)), unsigned long>);
static_assert(nytl::mix(1.0, 3.0, 0.25) == 1.5 && nytl::smoothstep(0.0, 1.0, 0.5) == 0.5 && nytl::smoothstep(0.0, 1.0, 0.25) == 0.15625);
