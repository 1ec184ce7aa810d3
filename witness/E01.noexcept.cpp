// sa: min=200
// Instantiates everything that promises not to throw, with user types that may throw wherever they are allowed to.
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <nytl/connection.hpp>
#include <nytl/scope.hpp>
#include <nytl/flags.hpp>
#include <nytl/simplex.hpp>
#include <nytl/span.hpp>
#include <nytl/stringParam.hpp>
#include <nytl/clone.hpp>
#include <nytl/rect.hpp>
#include <nytl/vec.hpp>
#include <nytl/mat.hpp>
#include <nytl/quaternion.hpp>
#include <nytl/nonCopyable.hpp>
#include <nytl/functionTraits.hpp>

// everything but destruction may throw
struct Val {
	Val(); Val(const Val&); Val(Val&&); Val& operator=(const Val&); Val& operator=(Val&&); ~Val();
	int v;
};
struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly&&); MoveOnly& operator=(MoveOnly&&); ~MoveOnly(); };
// id of the user: as the ids of the library, nothing but its construction from a value throws
struct UserId {
	UserId() noexcept; UserId(std::int64_t); UserId(const UserId&) noexcept; UserId& operator=(const UserId&) noexcept; ~UserId();
	void set(std::int64_t) noexcept; std::int64_t get() const noexcept; void removed() noexcept;
	std::int64_t* v;
};
Val mk(const Val&); void vo(Val); int in(int, Val&&); void mo(MoveOnly); MoveOnly rmo();

template<typename C, typename F> void callbacks(F f) {
	C c;
	auto conn = c.add(f);
	c += f;
	c.clear();
	c.disconnect(conn.id());
	conn.disconnect();
	conn.connected();
	using Id = decltype(conn.id());
	using U = nytl::UniqueConnectionT<nytl::ConnectableT<Id>, Id>;
	U u = c.add(f), w(std::move(u)), e;
	e = std::move(w);
	e.connected(); e.disconnect(); e.release();
}
template<template<typename, typename> class C> void kinds() {
	callbacks<C<void(Val), nytl::ConnectionID>>(vo);
	callbacks<C<void(Val), nytl::TrackedConnectionID>>(vo);
	callbacks<C<void(Val), UserId>>(vo);
	callbacks<C<Val(const Val&), nytl::ConnectionID>>(mk);
	callbacks<C<int(int, Val&&), nytl::TrackedConnectionID>>(in);
	C<void(MoveOnly), nytl::ConnectionID> c; c.add(mo); c.call(MoveOnly());
	C<int(int, Val&&), nytl::ConnectionID> d; d.add(in); d.call(1, Val());
	C<void(Val), nytl::ConnectionID> e; e.add(vo); e.call(Val());
	C<Val(const Val&), UserId> f; f.add(mk); f.call(Val());
}
void a() { kinds<nytl::Callback>(); kinds<nytl::RecursiveCallback>(); }

// guards whose functions may throw
void g();
void b() {
	nytl::ScopeGuard s(g);
	nytl::SuccessGuard t([v = Val()]() mutable { g(); });
	nytl::ExceptionGuard u([]{ g(); });
	s.unset(); t.unset(); u.unset();
}

// connectables of the user may throw from disconnect
struct Source : nytl::ConnectableT<UserId> { bool disconnect(const UserId&) override; };
void c(Source& s) {
	nytl::UniqueConnectionT<Source, UserId> u(s, UserId()), v(std::move(u));
	v = std::move(u);
	nytl::ConnectionT<Source, UserId> d(s, UserId()), e;
	e.connected();
}

enum class Bit { a = 1, b = 2 };
NYTL_FLAG_OPS(Bit)
void d() {
	nytl::Flags<Bit> f, h(Bit::a), i(nytl::invertFlags, Bit::b);
	f |= Bit::a; f &= h; f ^= i;
	(void) (f | h); (void) (f & h); (void) (f ^ h); (void) (f == h); (void) (f != h); (void) ~f; (void) bool(f.value());
	(void) (Bit::a | Bit::b); (void) (Bit::a & Bit::b); (void) (Bit::a ^ Bit::b); (void) ~Bit::a;
	(void) (Bit::a | f); (void) (Bit::a & f); (void) (Bit::a ^ f);
	unsigned u = f; (void) u;
}

template<typename S> void spans(S s) {
	S t(s); t = s;
	s.size(); s.size_bytes(); s.empty(); s.data(); s.begin(); s.end(); s.cbegin(); s.cend(); s.rbegin(); s.rend(); s.crbegin(); s.crend();
	s.front(); s.back();
	(void) nytl::as_bytes(s); (void) nytl::as_writeable_bytes(s);
}
void e(int (&arr)[4], std::array<int, 4>& sa, const std::array<int, 4>& ca) {
	spans(nytl::span<int>(arr)); spans(nytl::span<int>(sa)); spans(nytl::span<int, 4>(arr)); spans(nytl::span<int, 4>(sa));
	nytl::span<const int> c(ca); nytl::span<const int, 4> d(ca); nytl::span<int> n; (void) nytl::make_span(arr);
}
void f(const nytl::Simplex<3, double, 2>& s, nytl::Simplex<3, double, 2>& m) {
	nytl::Simplex<3, double, 2> t; (void) s.points(); (void) m.points();
	(void) static_cast<nytl::Simplex<3, float, 2>>(s); t = s;
}
struct NC : nytl::NonCopyable {}; struct NM : nytl::NonMovable {};
void h() { NC n, m(std::move(n)); n = std::move(m); NM k; }

struct Base : nytl::Cloneable<Base> { virtual ~Base() = default; };
struct Derived : nytl::DeriveCloneable<Derived, Base> { Val v; };
void i(const Base& b) { Derived d; nytl::clone(b); }
void j(const char* s) { nytl::StringParam p(s), q(std::string("a")); nytl::StringParam r(std::move(p)); }
