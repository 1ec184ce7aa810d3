// sa: min=100
#include "sa.hpp"
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <utility>
// value whose copies and moves are visible
struct V {
	long x; bool moved {};
	explicit V(long v) : x(v) {}
	V(const V& o) : x(o.x), moved(o.moved) {}
	V(V&& o) noexcept : x(o.x), moved(o.moved) { o.moved = true; o.x = -1; }
	V& operator=(const V&) = default;
};
struct M {      // move only
	long x; bool moved {};
	explicit M(long v) : x(v) {}
	M(M&& o) noexcept : x(o.x), moved(o.moved) { o.moved = true; o.x = -1; }
	M& operator=(M&& o) noexcept { x = o.x; moved = o.moved; o.moved = true; o.x = -1; return *this; }
};
static int calls;
template<class CB> void byValue() {
	CB cb; calls = 0;
	const long a = sa_long("a"), b = sa_long("b");
	for(int i = 0; i < 3; ++i) cb.add([=](V v, long y) {
		++calls; sa_expect(!v.moved, "every function gets an intact copy"); sa_eq(v.x, a, "first argument"); sa_eq(y, b, "second argument");
		V steal(std::move(v)); v.x = y + 1;
	});
	V v(a);
	cb.call(v, b);
	sa_eq(calls, 3, "all functions"); sa_expect(!v.moved, "the caller keeps its argument"); sa_eq(v.x, a, "unchanged");
	cb(v, b);
	sa_eq(calls, 6, "all functions"); sa_expect(!v.moved, "the caller keeps its argument"); sa_eq(v.x, a, "unchanged");
	cb.call(std::move(v), b);
	sa_eq(calls, 9, "all functions");
}
template<class CB> void byConstRef() {
	CB cb; calls = 0;
	V v(sa_long("a"));
	for(int i = 0; i < 3; ++i) cb.add([&](const V& w) { ++calls; sa_same(&w, &v, "the object itself is passed"); });
	cb.call(v); cb(v);
	sa_eq(calls, 6, "all functions");
}
template<class CB> void byRef() {
	CB cb; calls = 0;
	const long a = sa_long("a");
	V v(a);
	for(int i = 0; i < 3; ++i) cb.add([&](V& w) { sa_same(&w, &v, "the object itself is passed"); sa_eq(w.x, a + calls, "changes of earlier functions are visible"); ++calls; ++w.x; });
	cb.call(v); cb(v);
	sa_eq(v.x, a + 6, "changes are visible to the caller");
}
template<class CB> void byRvalue() {
	CB cb; calls = 0;
	V v(sa_long("a"));
	for(int i = 0; i < 3; ++i) cb.add([&](V&& w) { ++calls; sa_same(&w, &v, "the object itself is passed"); sa_expect(!w.moved, "nobody but a function moves it"); });
	cb.call(std::move(v));
	cb(std::move(v));
	sa_eq(calls, 6, "all functions"); sa_expect(!v.moved, "nobody but a function moves it");
}
template<class CB> void moveOnly() {
	CB cb; calls = 0;
	const long a = sa_long("a");
	cb.add([=](M m) { ++calls; sa_eq(m.x, a, "value"); sa_expect(!m.moved, "intact"); });
	cb.call(M(a)); cb(M(a));
	sa_eq(calls, 2, "called");
}
template<class CB> void results() {
	CB cb;
	const long a = sa_long("a"), b = sa_long("b");
	cb.add([](const V& v, long y) { return V(v.x + y); });
	cb.add([](const V& v, long y) { return V(v.x - y); });
	cb.add([](const V& v, long) { return v; });
	V v(a);
	auto r = cb.call(v, b);
	sa_eq((long) r.size(), 3L, "one result per function");
	sa_eq(r[0].x, a + b, "first result"); sa_eq(r[1].x, a - b, "second result"); sa_eq(r[2].x, a, "third result");
	for(auto& x : r) sa_expect(!x.moved, "results are intact");
	auto s = cb(v, b);
	sa_eq((long) s.size(), 3L, "one result per function"); sa_eq(s[1].x, a - b, "second result");
}
template<class CB> void moveOnlyResults() {
	CB cb;
	const long a = sa_long("a");
	cb.add([](long x) { return M(x); }); cb.add([](long x) { return M(x + 1); });
	auto r = cb.call(a);
	sa_eq((long) r.size(), 2L, "one result per function");
	sa_eq(r[0].x, a, "first result"); sa_eq(r[1].x, a + 1, "second result"); sa_expect(!r[0].moved && !r[1].moved, "results are intact");
}
template<class CB> void none() { CB cb; auto r = cb.call(sa_long("a")); sa_expect(r.empty(), "no function, no result"); }
template<class CB> void noArgs() { CB cb; calls = 0; for(int i = 0; i < 3; ++i) cb.add([] { ++calls; }); cb.call(); cb(); sa_eq(calls, 6, "called"); }
template<class CB> void manyArgs() {
	CB cb; calls = 0;
	const long a = sa_long("a"), b = sa_long("b"), c = sa_long("c"); V v(b);
	for(int i = 0; i < 2; ++i) cb.add([&](long x, V y, const V& z, V& w) { ++calls; sa_eq(x, a, "first"); sa_eq(y.x, b, "second"); sa_eq(z.x, c, "third"); sa_same(&w, &v, "fourth"); });
	cb.call(a, v, V(c), v); cb(a, v, V(c), v);
	sa_eq(calls, 4, "called");
}
#define BOTH(fn, ...) OB(fn##_callback) { fn<nytl::Callback<__VA_ARGS__>>(); } OB(fn##_recursive) { fn<nytl::RecursiveCallback<__VA_ARGS__>>(); } \
	OB(fn##_tracked) { fn<nytl::TrackedCallback<__VA_ARGS__>>(); } OB(fn##_tracked_recursive) { fn<nytl::TrackedRecursiveCallback<__VA_ARGS__>>(); }
BOTH(byValue, void(V, long))
BOTH(byConstRef, void(const V&))
BOTH(byRef, void(V&))
BOTH(byRvalue, void(V&&))
BOTH(moveOnly, void(M))
BOTH(results, V(const V&, long))
BOTH(moveOnlyResults, M(long))
BOTH(none, V(long))
BOTH(noArgs, void())
BOTH(manyArgs, void(long, V, const V&, V&))
// the overload that passes the connection
template<class CB> void withConnection() {
	CB cb; calls = 0;
	const long a = sa_long("a"); V v(a);
	for(int i = 0; i < 2; ++i) {
		auto c = cb.add([&](typename CB::Connection conn, V x, V& y) { ++calls; sa_expect(conn.connected(), "connected"); sa_eq(x.x, a, "value"); sa_expect(!x.moved, "intact"); sa_same(&y, &v, "reference"); });
		sa_expect(c.connected(), "connected");
	}
	cb.call(v, v); cb(v, v);
	sa_eq(calls, 4, "called"); sa_expect(!v.moved, "the caller keeps its argument");
}
OB(withConnection_recursive) { withConnection<nytl::RecursiveCallback<void(V, V&)>>(); }
OB(withConnection_tracked) { withConnection<nytl::TrackedRecursiveCallback<void(V, V&)>>(); }
