// sa: min=15
// What the library promises in its declarations: these expressions cannot throw.
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <nytl/connection.hpp>
#include <nytl/scope.hpp>
#include <nytl/flags.hpp>
#include <nytl/simplex.hpp>
#include <nytl/span.hpp>
#include <nytl/clone.hpp>
#include <nytl/nonCopyable.hpp>
#include <type_traits>
#include <array>
#define N(...) static_assert(noexcept(__VA_ARGS__), "may throw: " #__VA_ARGS__)
template<typename T> T& lv() noexcept;

template<typename C, typename Id> void callbacks() {
	N(lv<C>().clear()); N(lv<C>().disconnect(lv<const Id>()));
	static_assert(std::is_nothrow_destructible_v<C>);
	using K = nytl::ConnectionT<nytl::ConnectableT<Id>, Id>; using U = nytl::UniqueConnectionT<nytl::ConnectableT<Id>, Id>;
	static_assert(std::is_nothrow_default_constructible_v<K> && std::is_nothrow_copy_constructible_v<K> && std::is_nothrow_copy_assignable_v<K>);
	static_assert(std::is_nothrow_destructible_v<K> && std::is_nothrow_destructible_v<U>);
	static_assert(std::is_nothrow_move_constructible_v<U> && std::is_nothrow_move_assignable_v<U>);
	N(lv<const K>().connected()); N(lv<const U>().connected());
	N(lv<Id>().set(1)); N(lv<const Id>().get()); N(lv<Id>().removed());
	static_assert(std::is_nothrow_copy_constructible_v<Id> && std::is_nothrow_move_constructible_v<Id> && std::is_nothrow_copy_assignable_v<Id>);
}
template<template<typename, typename> class C> void kinds() {
	callbacks<C<void(int), nytl::ConnectionID>, nytl::ConnectionID>();
	callbacks<C<int(int&), nytl::TrackedConnectionID>, nytl::TrackedConnectionID>();
}
template void kinds<nytl::Callback>();
template void kinds<nytl::RecursiveCallback>();

struct Throwing { void operator()(); };
template<typename G> void guards() { static_assert(std::is_nothrow_destructible_v<G>); }
template void guards<nytl::ScopeGuard<Throwing>>();
template void guards<nytl::SuccessGuard<Throwing>>();
template void guards<nytl::ExceptionGuard<Throwing>>();

enum class Bit { a = 1, b = 2 };
NYTL_FLAG_OPS(Bit)
using F = nytl::Flags<Bit>;
static_assert(std::is_nothrow_default_constructible_v<F> && std::is_nothrow_copy_constructible_v<F> && std::is_nothrow_copy_assignable_v<F>);
static_assert(std::is_nothrow_destructible_v<F> && std::is_nothrow_constructible_v<F, Bit> && std::is_nothrow_constructible_v<F, nytl::InvertFlags, Bit>);
N(lv<F>() |= Bit::a); N(lv<F>() &= Bit::a); N(lv<F>() ^= Bit::a); N(lv<F>() |= lv<F>()); N(lv<F>() &= lv<F>()); N(lv<F>() ^= lv<F>());
N(lv<const F>() | lv<F>()); N(lv<const F>() & lv<F>()); N(lv<const F>() ^ lv<F>());
N(lv<const F>() == lv<F>()); N(lv<const F>() != lv<F>()); N(lv<const F>().value()); N(static_cast<int>(lv<const F>()));
N(Bit::a | Bit::b); N(Bit::a & Bit::b); N(Bit::a ^ Bit::b); N(~Bit::a);
N(Bit::a | lv<F>()); N(Bit::a & lv<F>()); N(Bit::a ^ lv<F>());

template<typename S, typename T> void spans() {
	static_assert(std::is_nothrow_copy_constructible_v<S> && std::is_nothrow_copy_assignable_v<S> && std::is_nothrow_destructible_v<S>);
	static_assert(std::is_nothrow_constructible_v<S, T(&)[3]> && std::is_nothrow_constructible_v<S, std::array<T, 3>&>);
	N(lv<const S>().size()); N(lv<const S>().size_bytes()); N(lv<const S>().empty()); N(lv<const S>().data());
	N(lv<const S>().begin()); N(lv<const S>().end()); N(lv<const S>().cbegin()); N(lv<const S>().cend());
	N(lv<const S>().rbegin()); N(lv<const S>().rend()); N(lv<const S>().crbegin()); N(lv<const S>().crend());
	N(lv<const S>().front()); N(lv<const S>().back());
	N(nytl::as_bytes(lv<S>()));
}
template void spans<nytl::span<int>, int>();
template void spans<nytl::span<int, 3>, int>();
template void spans<nytl::span<std::string>, std::string>();
template void spans<nytl::span<double, 3>, double>();
static_assert(std::is_nothrow_default_constructible_v<nytl::span<int>>);
static_assert(std::is_nothrow_constructible_v<nytl::span<const int>, const std::array<int, 3>&> && std::is_nothrow_constructible_v<nytl::span<const int, 3>, const std::array<int, 3>&>);
N(nytl::as_writeable_bytes(lv<nytl::span<int>>())); N(nytl::as_writeable_bytes(lv<nytl::span<int, 3>>())); N(nytl::make_span(lv<int[4]>()));

using S = nytl::Simplex<3, double, 2>;
static_assert(std::is_nothrow_default_constructible_v<S> && std::is_nothrow_copy_constructible_v<S> && std::is_nothrow_destructible_v<S>);
N(lv<S>().points()); N(lv<const S>().points()); N(static_cast<nytl::Simplex<3, float, 2>>(lv<const S>()));
// values are as cheap to handle as the numbers they consist of
template<typename V> constexpr bool plain = std::is_nothrow_copy_constructible_v<V> && std::is_nothrow_move_constructible_v<V>
	&& std::is_nothrow_copy_assignable_v<V> && std::is_nothrow_move_assignable_v<V> && std::is_nothrow_destructible_v<V>;
static_assert(plain<nytl::Vec<2, int>> && plain<nytl::Vec<3, float>> && plain<nytl::Vec<5, double>> && plain<S>);

struct NC : nytl::NonCopyable {}; struct NM : nytl::NonMovable {};
static_assert(std::is_nothrow_default_constructible_v<NC> && std::is_nothrow_move_constructible_v<NC> && std::is_nothrow_move_assignable_v<NC> && std::is_nothrow_default_constructible_v<NM>);
