// sa: min=25
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <nytl/connection.hpp>
#include <type_traits>

template<typename T> constexpr bool pinned = !std::is_copy_constructible_v<T> && !std::is_copy_assignable_v<T>;
template<typename T> constexpr bool copies = std::is_copy_constructible_v<T> && std::is_copy_assignable_v<T>;
template<typename T> constexpr bool moveOnly = pinned<T> && std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<T>;
using Cb = nytl::Callback<void(int)>; using Rc = nytl::RecursiveCallback<void(int)>;
using TCb = nytl::TrackedCallback<void(int)>; using TRc = nytl::TrackedRecursiveCallback<void(int)>;

// a callback has an identity: connections refer to its address
static_assert(pinned<Cb> && pinned<Rc> && pinned<TCb> && pinned<TRc>);
static_assert(!std::is_constructible_v<Cb, Cb&> && !std::is_constructible_v<Rc, Rc&>);
// connections are values, unique connections own
static_assert(copies<nytl::Connection> && copies<nytl::TrackedConnection>);
static_assert(std::is_nothrow_default_constructible_v<nytl::Connection>);
static_assert(moveOnly<nytl::UniqueConnection> && moveOnly<nytl::TrackedUniqueConnection>);
static_assert(std::is_default_constructible_v<nytl::UniqueConnection>);
static_assert(std::is_nothrow_destructible_v<nytl::UniqueConnection> && std::is_nothrow_destructible_v<nytl::TrackedUniqueConnection>);
static_assert(std::is_convertible_v<nytl::Connection, nytl::UniqueConnection>);
static_assert(!std::is_convertible_v<nytl::UniqueConnection, nytl::Connection> && !std::is_constructible_v<nytl::Connection, nytl::UniqueConnection&>);
// ids of different kinds do not mix
static_assert(!std::is_constructible_v<nytl::Connection, nytl::TrackedConnection> && !std::is_constructible_v<nytl::TrackedConnection, nytl::Connection>);
static_assert(!std::is_constructible_v<nytl::UniqueConnection, nytl::TrackedConnection>);
static_assert(!std::is_constructible_v<nytl::Connection, nytl::TrackedConnectable&, nytl::ConnectionID>);
// every callback can be used through the interface of its id
static_assert(std::is_base_of_v<nytl::Connectable, Cb> && std::is_base_of_v<nytl::Connectable, Rc>);
static_assert(std::is_base_of_v<nytl::TrackedConnectable, TCb> && std::is_base_of_v<nytl::TrackedConnectable, TRc>);
static_assert(std::has_virtual_destructor_v<nytl::Connectable> && std::has_virtual_destructor_v<nytl::TrackedConnectable>);
static_assert(std::is_abstract_v<nytl::Connectable>);
static_assert(std::is_same_v<Cb::Connection, nytl::Connection> && std::is_same_v<Rc::Connection, nytl::Connection>);
static_assert(std::is_same_v<TCb::Connection, nytl::TrackedConnection> && std::is_same_v<TRc::Connection, nytl::TrackedConnection>);
static_assert(std::is_same_v<Cb::Signature, void(int)> && std::is_same_v<Rc::Signature, void(int)>);
// both kinds of callbacks have the same interface
template<typename C> constexpr bool interface() {
	using Conn = typename C::Connection;
	using F = std::function<void(int)>;
	return std::is_same_v<decltype(std::declval<C&>().add(std::declval<F>())), Conn> &&
		std::is_same_v<decltype(std::declval<C&>() += std::declval<F>()), Conn> &&
		std::is_same_v<decltype(std::declval<C&>() = std::declval<F>()), Conn> &&
		std::is_same_v<decltype(std::declval<C&>().call(1)), void> && std::is_same_v<decltype(std::declval<C&>()(1)), void> &&
		noexcept(std::declval<C&>().clear()) && std::is_same_v<decltype(std::declval<C&>().disconnect(std::declval<Conn>().id())), bool> &&
		noexcept(std::declval<C&>().disconnect(std::declval<const decltype(std::declval<Conn>().id())&>()));
}
static_assert(interface<Cb>() && interface<Rc>() && interface<TCb>() && interface<TRc>());
static_assert(std::is_same_v<decltype(std::declval<nytl::Callback<int(int)>&>().call(1)), std::vector<int>>);
static_assert(std::is_same_v<decltype(std::declval<nytl::RecursiveCallback<int(int)>&>()(1)), std::vector<int>>);
static_assert(std::is_same_v<decltype(std::declval<nytl::Callback<std::string(int&)>&>()(std::declval<int&>())), std::vector<std::string>>);
//@fail copy_unique a unique connection is copied
void t(nytl::UniqueConnection& a) { nytl::UniqueConnection b(a); }
//@end
//@fail assign_unique a unique connection is copy assigned
void t(nytl::UniqueConnection& a, nytl::UniqueConnection& b) { b = a; }
//@end
//@fail copy_callback a callback is copied
void t(Cb& a) { Cb b(a); }
//@end
//@fail copy_recursive_callback a recursive callback is copied
void t(Rc& a) { Rc b(a); }
//@end
//@fail wrong_signature a function of another signature is registered
void t(Cb& a) { a += [](std::string) {}; }
//@end
//@fail wrong_signature_recursive a function of another signature is registered
void t(Rc& a) { a += [](std::string) {}; }
//@end
//@fail wrong_call a callback is called with other arguments
void t(Cb& a) { a.call("x"); }
//@end
