// sa: min=40
#include <nytl/functionTraits.hpp>
#include <functional>
#include <string>
#include <type_traits>

template<typename A, typename B> constexpr bool same = std::is_same_v<A, B>;
template<typename F> using Tr = nytl::FunctionTraits<F>;
template<typename F, typename Sig, typename Ret, typename... Args> constexpr bool is() {
	return same<typename Tr<F>::Signature, Sig> && same<typename Tr<F>::ReturnType, Ret> &&
		same<typename Tr<F>::ArgTuple, std::tuple<Args...>> && Tr<F>::NumArgs == sizeof...(Args);
}
struct C {
	int m(double, char); int mc(double) const; void mn(int&) noexcept; float mcn() const noexcept;
};
struct Functor { int operator()(const std::string&, int) const; };
struct Mutable { void operator()(int&&); };
struct Quiet { void operator()(int) noexcept; };
struct ConstQuiet { long operator()() const noexcept; };
struct None { int x; };
auto lambda = [](int, float&) -> double { return 0.; };
auto mutableLambda = [](int) mutable {};
auto quietLambda = [](int) noexcept {};

// signatures and their qualified forms
static_assert(is<void(), void(), void>());
static_assert(is<int(double, char), int(double, char), int, double, char>());
static_assert(is<int(double) const, int(double) const, int, double>());
static_assert(is<int&(const double&, char&&), int&(const double&, char&&), int&, const double&, char&&>());
static_assert(is<int(double) noexcept, int(double), int, double>());
static_assert(is<int(double) const noexcept, int(double) const, int, double>());
// pointers
static_assert(is<int(*)(double, char), int(double, char) const, int, double, char>());
static_assert(is<void(*)(int&) noexcept, void(int&) const, void, int&>());
// member functions
static_assert(is<decltype(&C::m), int(double, char), int, double, char>() && same<Tr<decltype(&C::m)>::Class, C>);
static_assert(is<decltype(&C::mc), int(double) const, int, double>() && same<Tr<decltype(&C::mc)>::Class, const C>);
static_assert(is<decltype(&C::mn), void(int&), void, int&>() && same<Tr<decltype(&C::mn)>::Class, C>);
static_assert(is<decltype(&C::mcn), float() const, float>() && same<Tr<decltype(&C::mcn)>::Class, const C>);
// functors and lambdas
static_assert(is<Functor, int(const std::string&, int) const, int, const std::string&, int>());
static_assert(is<Mutable, void(int&&), void, int&&>());
static_assert(is<Quiet, void(int), void, int>());
static_assert(is<ConstQuiet, long() const, long>());
static_assert(is<decltype(lambda), double(int, float&) const, double, int, float&>());
static_assert(is<decltype(mutableLambda), void(int), void, int>());
static_assert(is<decltype(quietLambda), void(int) const, void, int>());
static_assert(is<std::function<int(char)>, int(char) const, int, char>());
// references do not matter
static_assert(is<Functor&, int(const std::string&, int) const, int, const std::string&, int>());
static_assert(is<Functor&&, int(const std::string&, int) const, int, const std::string&, int>());
static_assert(is<int(&)(double), int(double), int, double>());
// single arguments
static_assert(same<Tr<Functor>::ArgType<0>, const std::string&> && same<Tr<Functor>::ArgType<1>, int>);
static_assert(same<Tr<void(int, char, double&)>::ArgType<2>, double&>);
static_assert(Tr<Functor>::IsConst && !Tr<Mutable>::IsConst && !Tr<void()>::IsConst && Tr<void() const>::IsConst);
static_assert(Tr<decltype(&C::mc)>::IsConst && !Tr<decltype(&C::m)>::IsConst);
// callability
static_assert(nytl::isCallable<void()> && nytl::isCallable<int(double, char)> && nytl::isCallable<int(*)(double)>);
static_assert(nytl::isCallable<int(&)(double)> && nytl::isCallable<decltype(&C::m)> && nytl::isCallable<decltype(&C::mc)>);
static_assert(nytl::isCallable<decltype(&C::mn)> && nytl::isCallable<decltype(&C::mcn)>);
static_assert(nytl::isCallable<void() noexcept> && nytl::isCallable<void(*)() noexcept> && nytl::isCallable<void(&)() noexcept>);
static_assert(nytl::isCallable<Functor> && nytl::isCallable<Mutable> && nytl::isCallable<Quiet> && nytl::isCallable<ConstQuiet>);
static_assert(nytl::isCallable<decltype(lambda)> && nytl::isCallable<decltype(mutableLambda)> && nytl::isCallable<std::function<void()>>);
static_assert(!nytl::isCallable<int> && !nytl::isCallable<None> && !nytl::isCallable<int*> && !nytl::isCallable<std::string> && !nytl::isCallable<double>);
