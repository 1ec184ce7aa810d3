// sa: min=15
#include <nytl/tmpUtil.hpp>
#include <type_traits>
#include <string>
#include <vector>

template<typename A, typename B> constexpr bool same = std::is_same_v<A, B>;
struct Has { void foo(int); int bar; using type = int; };
struct HasNot { };
template<typename T> using Foo = decltype(std::declval<T>().foo(1));
template<typename T> using Bar = decltype(std::declval<T>().bar);
template<typename T> using Type = typename T::type;
template<typename A, typename B> using Add = decltype(std::declval<A>() + std::declval<B>());
template<typename A, typename B> using Assign = decltype(std::declval<A>() = std::declval<B>());
class Private { void foo(int); };
struct Other { void foo(int); }; struct Ambiguous : Has, Other {};
template<typename... T> struct TupleT {};
template<typename... T> using Tuple = TupleT<T...>;
template<typename... T> using Common = std::common_type_t<T...>;

static_assert(nytl::validExpression<Foo, Has> && !nytl::validExpression<Foo, HasNot> && !nytl::validExpression<Foo, int>);
static_assert(nytl::validExpression<Foo, Has&> && !nytl::validExpression<Foo, const Has&>);
static_assert(nytl::validExpression<Bar, Has> && !nytl::validExpression<Bar, HasNot>);
static_assert(nytl::validExpression<Type, Has> && !nytl::validExpression<Type, HasNot> && !nytl::validExpression<Type, void>);
static_assert(nytl::validExpression<Add, int, double> && nytl::validExpression<Add, std::string, const char*>);
static_assert(!nytl::validExpression<Add, std::string, int*> && !nytl::validExpression<Add, Has, int>);
static_assert(nytl::validExpression<Assign, int&, double> && !nytl::validExpression<Assign, const int&, double>);
static_assert(nytl::validExpression<Common, int, float, double> && !nytl::validExpression<Common, int, std::string>);
static_assert(!nytl::validExpression<Common> && nytl::validExpression<Tuple> && nytl::validExpression<Tuple, void, int>);
static_assert(nytl::validExpression<Foo, const volatile void> == false && !nytl::validExpression<Add, void, void>);
static_assert(!nytl::validExpression<Foo, Private> && !nytl::validExpression<Foo, Ambiguous>);
static_assert(same<nytl::LastType<int&>, int&> && same<nytl::LastType<int, const int&&>, const int&&> && same<nytl::LastType<int[3], int[]>, int[]>);
static_assert(same<nytl::LastType<int, int(char)>, int(char)> && same<nytl::LastType<int, int, void>, void>);
static_assert(same<nytl::LastType<int>, int> && same<nytl::LastType<int, char, double&>, double&>);
static_assert(same<nytl::LastType<void, const std::string>, const std::string>);
static_assert(same<nytl::Variadic<int, std::string>, int> && same<nytl::Variadic<const double&, void>, const double&>);
static_assert(nytl::templatize<int>(5) == 5);
static_assert(same<decltype(nytl::templatize<void>(std::declval<int&>())), int&>);
static_assert(same<decltype(nytl::templatize<void>(std::declval<const int&>())), const int&>);
static_assert(same<decltype(nytl::templatize<void>(std::declval<std::string>())), std::string&&>);
static_assert(std::is_empty_v<nytl::DeriveDummy<int, void>>);
struct D : nytl::DeriveDummy<std::enable_if_t<true>> {};
template<typename T> using Cond = nytl::DeriveDummy<std::enable_if_t<std::is_integral_v<T>>>;
static_assert(nytl::validExpression<Cond, int> && !nytl::validExpression<Cond, double>);
template<typename... Args> std::size_t count(Args&&... args) {
	std::size_t n = 0; (void) nytl::Expand {0, ((void) args, int(++n))...}; nytl::unused(args...); return n; }
template std::size_t count(int&&, const char&, std::string&);
//@fail derive_dummy an invalid base parameter is accepted
template<bool B> struct X : nytl::DeriveDummy<std::enable_if_t<B>> {};
X<false> x;
//@end

// unused takes every kind of value
struct NoCopy { NoCopy() = default; NoCopy(const NoCopy&) = delete; };
static_assert(std::is_void_v<decltype(nytl::unused())> && std::is_void_v<decltype(nytl::unused(1, NoCopy {}, std::declval<NoCopy&>(), std::declval<const NoCopy&>()))>);
