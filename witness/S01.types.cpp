// sa: min=10
#include <nytl/scope.hpp>
#include <type_traits>
struct F { void operator()() {} };
struct Moved { Moved() = default; Moved(Moved&&) = default; void operator()() {} };
using G = nytl::ScopeGuard<F>;
using S = nytl::SuccessGuard<F>;
using E = nytl::ExceptionGuard<F>;
template<typename T> constexpr bool pinned = !std::is_copy_constructible_v<T> && !std::is_move_constructible_v<T> &&
	!std::is_copy_assignable_v<T> && !std::is_move_assignable_v<T>;
static_assert(pinned<G>);
static_assert(pinned<S>);
static_assert(pinned<E>);
static_assert(pinned<nytl::ScopeGuard<F&>>);
static_assert(std::is_nothrow_destructible_v<G>);
static_assert(std::is_nothrow_destructible_v<S>);
static_assert(std::is_nothrow_destructible_v<E>);
//@pass movable function that is only movable
void t() { nytl::ScopeGuard g(Moved {}); }
//@end
//@fail never a guard that runs in no case
nytl::ScopeGuard<F, false, false> g(F {});
//@end
