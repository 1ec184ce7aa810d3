// sa: min=70
#include "sa.hpp"
#include <nytl/connection.hpp>
#include <stdexcept>
#include <utility>
struct Err : std::exception { const char* what() const noexcept override { return "x"; } };
// any connectable: records what it is asked to disconnect
struct Mock final : nytl::Connectable {
	int count {}; long last {-1}; bool fails {};
	bool disconnect(const nytl::ConnectionID& id) override { ++count; last = id.value; if(fails) throw Err(); return true; }
};
using U = nytl::UniqueConnection; using C = nytl::Connection;
static long id(const char* n) { auto v = sa_long(n); sa_assume(v > 0); return v; }
static void empty(const U& u) {
	sa_expect(!u.connected(), "not connected"); sa_expect(u.connectable() == nullptr, "no connectable"); sa_eq(u.id().value, 0L, "no id");
}
static void holds(const U& u, Mock& m, long i) {
	sa_expect(u.connected(), "connected"); sa_same(u.connectable(), static_cast<nytl::Connectable*>(&m), "connectable"); sa_eq(u.id().value, i, "id");
}
static void once(Mock& m, long i) { sa_eq(m.count, 1, "disconnected exactly once"); sa_eq(m.last, i, "its own connection"); }
static void never(const Mock& m) { sa_eq(m.count, 0, "not disconnected"); }
OB(destroyed) {
	Mock m; auto i = id("id");
	{ U u(m, {i}); holds(u, m, i); never(m); }
	once(m, i);
}
OB(from_connection) {
	Mock m; auto i = id("id");
	{ U u = C(m, {i}); holds(u, m, i); never(m); }
	once(m, i);
}
OB(empty_default) { U u; empty(u); u.disconnect(); empty(u); U v(std::move(u)); empty(v); v = U(); empty(v); sa_reach("no effect"); auto c = v.release(); sa_expect(!c.connected(), "empty connection"); }
OB(invalid_id) {
	Mock m; auto i = sa_long("id"); sa_assume(i <= 0);
	{ U u(m, {i}); sa_expect(!u.connected(), "not connected"); }
	never(m);
}
OB(disconnected) {
	Mock m; auto i = id("id");
	{ U u(m, {i}); u.disconnect(); once(m, i); empty(u); u.disconnect(); once(m, i); }
	once(m, i);
}
OB(released) {
	Mock m; auto i = id("id");
	{ U u(m, {i}); C c = u.release(); empty(u); sa_same(c.connectable(), static_cast<nytl::Connectable*>(&m), "connectable"); sa_eq(c.id().value, i, "id"); sa_expect(c.connected(), "connected"); }
	never(m);
}
OB(released_disconnect) {
	Mock m; auto i = id("id");
	{ U u(m, {i}); C c = u.release(); u.disconnect(); never(m); c.disconnect(); once(m, i); }
	once(m, i);
}
OB(move_constructed) {
	Mock m; auto i = id("id");
	{
		U v;
		{ U u(m, {i}); U w(std::move(u)); empty(u); holds(w, m, i); never(m); v = std::move(w); empty(w); holds(v, m, i); never(m); }
		never(m); holds(v, m, i);
	}
	once(m, i);
}
OB(move_assigned) {
	Mock a, b; auto i = id("i"); auto j = id("j");
	{
		U u(a, {i}); U v(b, {j});
		u = std::move(v);
		once(a, i); never(b); empty(v); holds(u, b, j);
	}
	once(a, i); once(b, j);
}
OB(move_assigned_same) {
	Mock a; auto i = id("i"); auto j = id("j");
	{
		U u(a, {i}); U v(a, {j});
		u = std::move(v);
		once(a, i); empty(v); holds(u, a, j);
	}
	sa_eq(a.count, 2, "both are disconnected once"); sa_eq(a.last, j, "its own connection");
}
OB(assign_empty) {
	Mock a; auto i = id("i");
	{ U u(a, {i}); u = U(); once(a, i); empty(u); u = C(a, {i}); holds(u, a, i); sa_eq(a.count, 1, "not yet"); u = {}; sa_eq(a.count, 2, "disconnected"); }
	sa_eq(a.count, 2, "not again");
}
OB(swapped) {
	Mock a, b; auto i = id("i"); auto j = id("j");
	{
		U u(a, {i}); U v(b, {j});
		std::swap(u, v);
		never(a); never(b); holds(u, b, j); holds(v, a, i);
	}
	once(a, i); once(b, j);
}
static U make(Mock& m, long i) { U u(m, {i}); return u; }
OB(returned) {
	Mock m; auto i = id("i");
	{ U u; u = make(m, i); never(m); holds(u, m, i); U v = make(m, i); never(m); v.release(); }
	once(m, i);
}
OB(members) {
	struct Owner { U a, b; };
	Mock m, n; auto i = id("i"); auto j = id("j");
	{ Owner o {U(m, {i}), U(n, {j})}; Owner p = std::move(o); empty(o.a); empty(o.b); never(m); never(n); o = std::move(p); empty(p.a); never(m); never(n); }
	once(m, i); once(n, j);
}
// a connectable that fails to disconnect: neither destruction nor move assignment let the exception out
OB(failing_destroyed) { Mock m; m.fails = true; auto i = id("i"); { U u(m, {i}); } once(m, i); }
OB(failing_assigned) {
	Mock a, b; a.fails = true; auto i = id("i"); auto j = id("j");
	{ U u(a, {i}); U v(b, {j}); u = std::move(v); once(a, i); never(b); holds(u, b, j); empty(v); }
	once(a, i); once(b, j);
}
// ownership of a tracked connection
struct TMock final : nytl::TrackedConnectable {
	int count {}; nytl::TrackedConnectionID last;
	bool disconnect(const nytl::TrackedConnectionID& id) override { ++count; last = id; return true; }
};
OB(tracked) {
	TMock m; nytl::TrackedConnectionID t(5);
	{ nytl::TrackedUniqueConnection u(m, t); sa_expect(u.connected(), "connected"); nytl::TrackedUniqueConnection v(std::move(u)); sa_expect(!u.connected(), "not connected"); sa_expect(v.connected(), "connected"); sa_eq(m.count, 0, "not disconnected"); }
	sa_eq(m.count, 1, "disconnected exactly once"); sa_expect(m.last.value == t.value, "its own connection");
}
OB(tracked_removed) {
	TMock m; nytl::TrackedConnectionID t(5); auto copy = t;
	{ nytl::TrackedUniqueConnection u(m, t); copy.removed(); sa_expect(!u.connected(), "removal is observed"); }
	sa_eq(m.count, 0, "nothing to disconnect any more");
}
