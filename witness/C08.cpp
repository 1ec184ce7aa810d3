// sa: min=60
#include "sa.hpp"
#include <nytl/connection.hpp>
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <utility>
struct Mock final : nytl::Connectable {
	int count {}; long last {-1};
	bool disconnect(const nytl::ConnectionID& id) override { ++count; last = id.value; return true; }
};
using C = nytl::Connection;
static long id(const char* n) { auto v = sa_long(n); sa_assume(v > 0); return v; }
OB(value) {
	Mock m; auto i = id("i");
	{
		C c(m, {i}); C d = c; C e; e = d; C f(std::move(d));
		for(auto p : {&c, &e, &f}) {
			sa_expect(p->connected(), "connected"); sa_eq(p->id().value, i, "id"); sa_same(p->connectable(), static_cast<nytl::Connectable*>(&m), "connectable");
		}
	}
	sa_eq(m.count, 0, "copying and destroying connections disconnects nothing");
}
OB(disconnect) {
	Mock m; auto i = id("i");
	C c(m, {i}); C d = c;
	c.disconnect();
	sa_eq(m.count, 1, "disconnected"); sa_eq(m.last, i, "its own connection");
	sa_expect(!c.connected() && !c.connectable() && c.id().value == 0, "empty afterwards");
	c.disconnect(); c.disconnect();
	sa_eq(m.count, 1, "disconnecting again has no effect");
	sa_eq(d.id().value, i, "copies keep their id");
}
OB(empty) { C c; sa_expect(!c.connected() && !c.connectable(), "not connected"); sa_eq(c.id().value, 0L, "no id"); c.disconnect(); C d = c; sa_expect(!d.connected(), "not connected"); }
OB(negative) { Mock m; auto i = sa_long("i"); C c(m, {i}); sa_expect(c.connected() == (i > 0), "connected exactly for positive ids"); }
// tracked ids
using T = nytl::TrackedConnectionID;
OB(tracked_value) {
	auto v = id("v"); auto w = sa_long("w");
	T a(v); T b = a; T c; c = b; T d(std::move(c));
	sa_eq((long) a.get(), v, "value"); sa_eq((long) b.get(), v, "value is shared"); sa_eq((long) d.get(), v, "value is shared");
	b.set(w);
	sa_eq((long) a.get(), w, "changes are shared"); sa_eq((long) d.get(), w, "changes are shared");
	T e(v);
	sa_eq((long) e.get(), v, "own value"); e.set(7); sa_eq((long) a.get(), w, "other ids are independent");
}
OB(tracked_removed) {
	auto v = id("v");
	T a(v); T b = a; T c = a;
	b.removed();
	sa_eq((long) b.get(), 0L, "removed"); sa_eq((long) a.get(), 0L, "removal is shared"); sa_eq((long) c.get(), 0L, "removal is shared");
	b.set(4); sa_eq((long) a.get(), 0L, "a removed id has no influence any more"); sa_eq((long) b.get(), 0L, "stays removed");
	b.removed(); sa_reach("removed twice");
}
OB(tracked_empty) { T t; sa_eq((long) t.get(), 0L, "no value"); t.set(5); sa_eq((long) t.get(), 0L, "no value"); t.removed(); sa_eq((long) t.get(), 0L, "no value"); }
OB(tracked_released) {
	auto l = sa_live_heap();
	{ T a(3); T b = a; a.removed(); T c = b; c = T(4); }
	sa_eq(sa_live_heap(), l, "nothing leaks");
}
OB(plain) { nytl::ConnectionID i {}; auto v = sa_long("v"); i.set(v); sa_eq((long) i.get(), v, "value"); i.removed(); sa_eq((long) i.get(), v, "value"); }
// connections of tracked callbacks see how their function is removed
template<typename Cb, int how> static void observed() {
	auto cb = new Cb;
	int n = 0;
	auto c = cb->add([&] { ++n; }); auto copy = c; auto other = cb->add([] {}); auto third = cb->add([&] { n += 10; });
	sa_expect(c.connected() && copy.connected() && other.connected(), "connected");
	bool rest = true;
	if(how == 0) cb->disconnect(c.id());
	if(how == 1) { auto x = c; x.disconnect(); sa_expect(!x.connected(), "not connected"); }
	if(how == 2) { cb->clear(); rest = false; }
	if(how == 3) { delete cb; cb = nullptr; rest = false; }
	if(how == 4) { nytl::UniqueConnectionT<nytl::TrackedConnectable, T> u = c; }
	if(how == 5) { *cb = [&] { n += 100; }; rest = false; }
	sa_expect(!c.connected() && !copy.connected(), "every copy observes the removal");
	sa_expect(other.connected() == rest && third.connected() == rest, "other connections are not affected");
	if(cb) {
		sa_expect(!cb->disconnect(copy.id()), "already disconnected");
		copy.disconnect();
		cb->call();
		sa_eq(n, how == 5 ? 100 : (rest ? 10 : 0), "a removed function is not called");
		sa_expect(other.connected() == rest && third.connected() == rest, "other connections are not affected");
		delete cb;
	} else { c = {}; copy = {}; }
	sa_expect(!other.connected() && !third.connected(), "destruction is observed");
}
template<typename Cb> static void all() { observed<Cb, 0>(); observed<Cb, 1>(); observed<Cb, 2>(); observed<Cb, 3>(); observed<Cb, 4>(); observed<Cb, 5>(); }
OB(observed_callback) { all<nytl::TrackedCallback<void()>>(); }
OB(observed_recursive) { all<nytl::TrackedRecursiveCallback<void()>>(); }
// removal while the callback is being called is observed at once
OB(observed_within_call) {
	nytl::TrackedRecursiveCallback<void()> cb;
	nytl::TrackedConnection a, b, c; bool clear = sa_bool("clear");
	a = cb.add([&] { });
	b = cb.add([&] {
		auto x = a; auto y = b;
		if(clear) cb.clear(); else { cb.disconnect(a.id()); cb.disconnect(b.id()); }
		sa_expect(!x.connected() && !y.connected() && !a.connected() && !b.connected(), "observed at once");
		sa_expect(c.connected() == !clear, "other connections are not affected");
	});
	c = cb.add([&] { });
	cb.call();
	sa_expect(!a.connected() && !b.connected(), "still after the call"); sa_expect(c.connected() == !clear, "other connections are not affected");
}
