// Callback objects that hold many functions at a time: the histories of cb.hpp are complete but hold few functions,
// these are chosen ones that hold many. The position of every special function is any of several.
#pragma once
#include "sa.hpp"
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <type_traits>
extern "C" int sa_choose(int n);
// the expectations of the property PROP
#define SA(props, what, ...) do { if constexpr(((props) >> PROP) & 1) sa_##what(__VA_ARGS__); } while(0)
namespace bulk {
enum { P1 = 2, P2 = 4, P3 = 8, P4 = 16, P5 = 32, P6 = 64 };
enum { MAX = 320 };
static int alive[MAX], calls[MAX], running[MAX];
static int firstN, special, scenario, armed, depth, last[4], handlers[4], total;
static long ids[MAX];
struct Stop {};
// connection id that counts its removals
static int removals[MAX], adding;
struct Id {
	std::int64_t value {}; int n {};
	Id() = default;
	Id(std::int64_t v) : value(v), n(adding) {}
	std::int64_t get() const noexcept { return value; }
	void set(std::int64_t v) noexcept { value = v; }
	void removed() noexcept { ++removals[n]; }
};
template<class CB> void inside(CB& cb, int n);
template<class CB> void add(CB& cb);
template<class CB, class Ret> struct Fn {
	CB* cb; int n;
	Fn(CB& c, int i) : cb(&c), n(i) { ++alive[n]; }
	Fn(const Fn& o) : cb(o.cb), n(o.n) { ++alive[n]; }
	~Fn() { --alive[n]; if(alive[n] == 0) SA(P4, eq, running[n], 0, "a function is not destroyed while it runs"); }
	Ret operator()(int arg) const {
		const int me = n, d = depth;
		SA(P1|P5, eq, arg, 7 + d, "functions get the arguments of the call");
		SA(P1|P5, expect, me > last[d], "functions are called once, in the order of registration");
		last[d] = me;
		++calls[me];
		const int result = handlers[d]++;
		++running[me];
		if(armed && me == special && d == 0) inside(*cb, me);
		--running[me];
		SA(P4, eq, n, me, "a running function stays intact");
		if constexpr(!std::is_void_v<Ret>) return Ret(result);
	}
};
template<class CB> struct Sig;
template<template<class, class> class C, class R, class I> struct Sig<C<R(int), I>> {
	using Ret = R; using Id = I;
	static constexpr bool recursive = std::is_same_v<C<R(int), I>, nytl::RecursiveCallback<R(int), I>>;
	static constexpr bool tracked = std::is_same_v<I, nytl::TrackedConnectionID>;
	static constexpr bool counted = std::is_same_v<I, ::bulk::Id>;
};
template<class CB> static nytl::ConnectionT<nytl::ConnectableT<typename Sig<CB>::Id>, typename Sig<CB>::Id> conns[MAX];
template<class CB> void add(CB& cb) {
	const int n = adding = total++;
	auto c = cb.add(Fn<CB, typename Sig<CB>::Ret>(cb, n));
	conns<CB>[n] = c;
	ids[n] = c.id().get();
	SA(P6, expect, ids[n] > 0, "ids are positive");
	for(int i = n > 3 ? n - 3 : 0; i < n; ++i) SA(P6, expect, ids[i] != ids[n], "ids are unique");
	if(n) SA(P6, expect, ids[0] != ids[n], "ids are unique");
}
template<class CB> bool observed(int n) { return !conns<CB>[n].connected(); }
template<class CB> void drop(CB& cb, int n, bool was) {
	const bool r = cb.disconnect(conns<CB>[n].id());
	SA(P2, expect, r == was, was ? "disconnecting a registered function succeeds" : "disconnecting a removed function fails");
	if constexpr(Sig<CB>::tracked) SA(P3, expect, observed<CB>(n), "tracked ids observe the removal");
}
template<class CB> void callAt(CB& cb, int d) {
	depth = d; last[d] = -1; handlers[d] = 0;
	if constexpr(std::is_void_v<typename Sig<CB>::Ret>) {
		cb(7 + d);
	} else {
		auto r = cb(7 + d);
		SA(P1|P5, eq, (long) r.size(), (long) handlers[d], "one result per called function");
		for(int i = 0; i < handlers[d]; i += 5) SA(P1|P5, eq, (long) r[i], (long) i, "results in call order");
		if(handlers[d]) SA(P1|P5, eq, (long) r[handlers[d] - 1], (long) handlers[d] - 1, "results in call order");
	}
}
// what happens while the special function runs
template<class CB> void inside(CB& cb, int n) {
	if constexpr(!Sig<CB>::recursive) {
		if(scenario == 1) { running[n] = 0; throw Stop(); }
		return;
	}
	switch(scenario) {
		case 1: running[n] = 0; throw Stop();
		case 2: for(int i = 0; i < firstN; i += 3) drop(cb, i, true); break;
		case 3: cb.clear(); break;
		case 4: for(int i = firstN - 1; i >= 0; --i) if(i != n) drop(cb, i, true); break;
		case 5: for(int i = 0; i < firstN; ++i) add(cb); break;
		case 6: callAt(cb, 1); depth = 0; break;
		case 7: for(int i = 0; i < firstN; ++i) { add(cb); drop(cb, total - 1, true); } break;
		case 8: cb.clear(); for(int i = 0; i < firstN; ++i) add(cb); callAt(cb, 1); depth = 0; break;
	}
}
inline bool isRemoved(int i) {
	switch(scenario) {
		case 2: return i < firstN && i % 3 == 0;
		case 3: case 8: return i < firstN;
		case 4: return i < firstN && i != special;
		case 7: return i >= firstN;
	}
	return false;
}
template<class CB> void check() {
	for(int i = 0; i < total; ++i) {
		if(isRemoved(i)) SA(P4, eq, alive[i], 0, "removed functions are destroyed when no call runs any more");
		else SA(P4, expect, alive[i] > 0, "registered functions are kept");
		if constexpr(Sig<CB>::tracked) SA(P3, expect, observed<CB>(i) == isRemoved(i), "tracked ids observe the removal");
		if constexpr(Sig<CB>::counted) SA(P3, eq, removals[i], isRemoved(i) ? 1 : 0, "removed() was called exactly if the function was removed");
	}
}
// n functions, one of which does something while it is called
template<class CB> void during(int n) {
	firstN = n; total = 0; armed = 1;
	{
		CB cb;
		for(int i = 0; i < n; ++i) add(cb);
		special = sa_choose(3) * (n - 1) / 2;
		scenario = sa_choose(Sig<CB>::recursive ? 9 : 2);
		bool stopped = false;
		try { callAt(cb, 0); } catch(Stop&) { stopped = true; }
		depth = 0;
		SA(P1|P5, expect, stopped == (scenario == 1), "exceptions of functions are passed on");
		for(int i = 0; i < n; ++i) {
			int expect = 1;
			if(scenario == 1) expect = i <= special;
			if(scenario == 6) expect = 2;
			SA(P1|P5, eq, calls[i], expect, "every function registered at the start of a call is called once");
		}
		for(int i = n; i < total; ++i) SA(P5, eq, calls[i], scenario == 8 ? 1 : 0, "functions registered during a call are not called by it");
		check<CB>();
		for(int i = 0; i < total; ++i) calls[i] = 0;
		armed = 0;
		callAt(cb, 0);
		for(int i = 0; i < total; ++i) SA(P1|P2, eq, calls[i], isRemoved(i) ? 0 : 1, "exactly the registered functions are called");
		for(int i = 0; i < total; i += 2) drop(cb, i, !isRemoved(i));
		for(int i = 0; i < total; ++i) calls[i] = 0;
		callAt(cb, 0);
		for(int i = 0; i < total; ++i) SA(P1|P2, eq, calls[i], isRemoved(i) || i % 2 == 0 ? 0 : 1, "exactly the registered functions are called");
	}
	for(int i = 0; i < total; ++i) SA(P4, eq, alive[i], 0, "all functions are destroyed with the callback");
	if constexpr(Sig<CB>::counted) for(int i = 0; i < total; ++i) SA(P3, eq, removals[i], 1, "removed() is called once for every registration");
}
// n functions, many of which are removed between calls
template<class CB> void between(int n, int ways = 6) {
	firstN = n; total = 0; armed = 0;
	static bool gone[MAX];
	{
		CB cb;
		for(int i = 0; i < n; ++i) add(cb);
		const int how = ways == 1 ? 2 : sa_choose(ways), keep = sa_choose(3) * (n - 1) / 2;
		switch(how) {
			case 0: for(int i = 0; i < n; ++i) if(i != keep) { drop(cb, i, true); gone[i] = true; } break;
			case 1: for(int i = n - 1; i >= 0; --i) if(i != keep) { drop(cb, i, true); gone[i] = true; } break;
			case 2: drop(cb, keep, true); gone[keep] = true; break;
			case 3: cb.clear(); for(int i = 0; i < n; ++i) gone[i] = true; for(int i = 0; i < n; ++i) add(cb); break;
			case 4: for(int i = keep; i < n; ++i) { drop(cb, i, true); gone[i] = true; } for(int i = keep; i < n; ++i) add(cb); break;
			case 5: for(int i = 0; i < n; i += 2) { callAt(cb, 0); drop(cb, i, true); gone[i] = true; add(cb); } for(int i = 0; i < total; ++i) calls[i] = 0; break;
		}
		callAt(cb, 0);
		for(int i = 0; i < total; ++i) {
			SA(P1|P2, eq, calls[i], gone[i] ? 0 : 1, "exactly the registered functions are called, once");
			if(gone[i]) SA(P4, eq, alive[i], 0, "removed functions are destroyed");
			else SA(P4, expect, alive[i] > 0, "registered functions are kept");
			if constexpr(Sig<CB>::tracked) SA(P3, expect, observed<CB>(i) == gone[i], "tracked ids observe the removal");
			if constexpr(Sig<CB>::counted) SA(P3, eq, removals[i], gone[i] ? 1 : 0, "removed() was called exactly if the function was removed");
		}
		for(int i = 0; i < total; i += 3) if(gone[i]) drop(cb, i, false);
	}
	for(int i = 0; i < total; ++i) SA(P4, eq, alive[i], 0, "all functions are destroyed with the callback");
	if constexpr(Sig<CB>::counted) for(int i = 0; i < total; ++i) SA(P3, eq, removals[i], 1, "removed() is called once for every registration");
}
}
