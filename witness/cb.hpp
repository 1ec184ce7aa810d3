// Most-general client of the callback classes: drives one callback object through every sequence of
// registrations, removals, (nested) calls and exceptions. One registration, T, is followed by ghost state;
// it stands for any registration. Each property enables its own expectations (PROP).
#pragma once
#include "sa.hpp"
#include <nytl/callback.hpp>
#include <nytl/recursiveCallback.hpp>
#include <type_traits>
#define CALLED (PROP == 1 || PROP == 5 || PROP == 6 || PROP == 10)
enum { CALLS = 3 };              // limit of the ghost arrays
extern "C" {
int sa_choose(int n);              // any of 0 .. n-1
void sa_join(int leaks);           // head of the client loop
void sa_op(const char*);           // history, for messages
void sa_widen(void* fresh, const void* used, const void* used2, unsigned long n);
void sa_alloc_may_fail(int);
long sa_any(long upto);            // any x, 1 <= x <= upto
}
struct Boom {};

enum Phase { none, live, leaving, gone };
struct Track { Phase phase; int removed, inst; long id; } static t[2];     // T and (order only) U
static int maxN, maxCalls;  // entries stored at one time, calls active at one time
static int curTag;        // tag of the registration in progress: 0 any other, 1 T, 2 U
static int stored;        // function objects alive
static int level;         // active calls
static int expectT[CALLS], countT[CALLS], handlers[CALLS], threw[CALLS];
static const void* exec[CALLS];
static int failed;        // failed registrations during the current call (their entries may wait for its end)
static int failing;       // registration may fail
static long lastId;       // id returned by the latest registration

// connection id of the client, as docs/callback.md describes it
struct Id {
	std::int64_t value {}; int tag {}; bool dead {};
	Id() = default;
	Id(std::int64_t v) : value(v), tag(curTag) {
#if PROP == 10
		if(failing && sa_choose(2)) throw Boom();
#endif
	}
	std::int64_t get() const noexcept { touch(); return value; }
	void set(std::int64_t v) noexcept {
		touch();
#if PROP == 3
		sa_expect(v < 0, "set only with negative values");
		if(tag == 1) sa_expect(t[0].phase == leaving || t[0].phase == gone, "set only when formally removed");
#endif
		value = v;
	}
	void removed() noexcept {
		touch();
#if PROP == 3
		if(tag == 1) {
			sa_expect(t[0].phase == leaving || t[0].phase == gone, "removed() only when formally removed");
			sa_expect(t[0].removed == 0, "removed() only once");
			t[0].removed = 1;
		}
#endif
		dead = true;
	}
	void touch() const noexcept {
#if PROP == 3
		sa_expect(!dead, "the stored id is not used after removed()");
#endif
	}
};

template<class CB> void ops(CB& cb);

// registered function
template<class CB, class Ret, bool Nested> struct Func {
	CB* cb; int tag;
	Func(CB& c, int tg) : cb(&c), tag(tg) { born(); }
	Func(const Func& o) : cb(o.cb), tag(o.tag) { born(); }
	~Func() {
		--stored;
		if(tag) --t[tag - 1].inst;
#if PROP == 4
		for(int i = 0; i < level; ++i) sa_expect(exec[i] != this, "a function is not destroyed while it runs");
#endif
	}
	void born() { ++stored; if(tag) ++t[tag - 1].inst; }
	Ret operator()(int arg) const {
		const int l = level - 1, me = tag;
		const int index = handlers[l];
#if CALLED
		sa_eq(arg, l, "functions get the arguments of the call");
		if(me == 1) {
			sa_expect(expectT[l] == 1, "only functions registered when the call starts are called");
			sa_expect(countT[l] == 0, "functions are called once");
		}
		if(me == 2 && expectT[l]) sa_expect(countT[l] == 1, "functions are called in the order of registration");
		if(me == 1) countT[l] = 1;
#endif
		if constexpr(!std::is_void_v<Ret>) handlers[l] = index + 1;
#if PROP == 4
		exec[l] = this;
#endif
		if constexpr(Nested) ops(*cb);
#if PROP == 4
		sa_eq(tag, me, "a running function stays intact");
		exec[l] = nullptr;
#endif
		if(sa_choose(2)) { sa_op("throw"); threw[l] = 1; throw Boom(); }
		if constexpr(!std::is_void_v<Ret>) return Ret(index);
	}
};

template<class CB> struct Sig;
template<template<class, class> class C, class R> struct Sig<C<R(int), Id>> {
	using Ret = R;
	static constexpr bool recursive = std::is_same_v<C<R(int), Id>, nytl::RecursiveCallback<R(int), Id>>;
	static constexpr bool nested = std::is_same_v<C<R(int), Id>, nytl::RecursiveCallback<R(int), Id>> && PROP != 1;
};
template<class CB> using F = Func<CB, typename Sig<CB>::Ret, Sig<CB>::nested>;

#if PROP == 6 || PROP == 10
// function that wants its own connection
template<class CB> struct FuncC {
	F<CB> f;
	typename Sig<CB>::Ret operator()(typename CB::Connection c, int arg) const {
		sa_expect(c.connectable() == f.cb, "a function gets a connection to its callback");
		if(PROP == 6 && f.tag == 1 && t[0].phase == live) sa_eq(c.id().value, t[0].id, "a function gets its own connection");
		return f(arg);
	}
};
#endif
enum How { plain, plusAssign, assign, withConnection };
template<class CB> __attribute__((noinline)) auto doAdd(CB& cb, int tag, How how) {
	curTag = tag;
#if PROP == 6 || PROP == 10
	if(how == plusAssign) return cb += F<CB>(cb, tag);
	if(how == assign) return cb = F<CB>(cb, tag);
	if constexpr(Sig<CB>::recursive) if(how == withConnection) return cb.add(FuncC<CB>{F<CB>(cb, tag)});
#endif
	return cb.add(F<CB>(cb, tag));
}
template<class CB> __attribute__((noinline)) void add(CB& cb, int tag, How how = plain) {
#if PROP == 10
	try {
		failing = 1; sa_alloc_may_fail(1);
		doAdd(cb, tag, how);
		failing = 0; sa_alloc_may_fail(0);
		if(tag) t[tag - 1].phase = live;
	} catch(Boom&) {
		failing = 0; sa_alloc_may_fail(0);
		sa_op("failed"); if(level) ++failed;
	} catch(std::bad_alloc&) {
		failing = 0; sa_alloc_may_fail(0);
		sa_op("failed"); if(level) ++failed;
	}
	curTag = 0;
#else
	auto c = doAdd(cb, tag, how);
	curTag = 0;
	const long id = c.id().value;
#if PROP == 6
	sa_expect(id > 0, "ids are positive");
	sa_expect(id > lastId, "ids are unique and increase");
	sa_expect(c.connectable() == &cb, "the connection refers to the callback");
	sa_expect(c.connected(), "the connection is connected");
	sa_eq(c.id().tag, tag, "the connection has the id of the registration");
#endif
	lastId = id;
	if(tag) { t[tag - 1].phase = live; t[tag - 1].id = id; }
#endif
}
#if PROP == 6
template<class CB> __attribute__((noinline)) void addEmpty(CB& cb, bool conn) {
	bool refused = false;
	try {
		if constexpr(Sig<CB>::recursive) { if(conn) cb.add(std::function<typename Sig<CB>::Ret(typename CB::Connection, int)>()); else cb.add(std::function<typename Sig<CB>::Ret(int)>()); }
		else cb.add(std::function<typename Sig<CB>::Ret(int)>());
	} catch(std::invalid_argument&) { refused = true; }
	sa_expect(refused, "an empty function is refused");
}
// the function may be called or not, but the old ones are removed
template<class CB> __attribute__((noinline)) void replace(CB& cb, int tag) {
	if(t[0].phase == live) t[0].phase = gone;
	t[1].phase = t[1].phase == live ? gone : t[1].phase;
	add(cb, tag, assign);
}
#endif
template<class CB> __attribute__((noinline)) void disconnectT(CB& cb) {
	const bool was = t[0].phase == live;
	if(was) t[0].phase = leaving;
	Id i; i.value = t[0].id;
	const bool r = cb.disconnect(i);
	if(was) t[0].phase = gone;
#if PROP == 2
	sa_expect(r == was, was ? "disconnecting a registered function succeeds" : "disconnecting a removed function fails");
#endif
	(void) r;
}
template<class CB> __attribute__((noinline)) void disconnectOther(CB& cb) {
	const long x = sa_any(lastId);
	sa_assume(!(t[0].phase && x == t[0].id));
	Id i; i.value = x;
	cb.disconnect(i);
}
template<class CB> __attribute__((noinline)) void disconnectNone(CB& cb) {
	Id i;
	const bool r = cb.disconnect(i);
	sa_expect(!r, "disconnecting an invalid id fails");
}
template<class CB> __attribute__((noinline)) void clear(CB& cb) {
	const bool was = t[0].phase == live;
	if(was) t[0].phase = leaving;
	cb.clear();
	if(was) t[0].phase = gone;
	if(t[1].phase == live) t[1].phase = gone;
}
template<class CB> __attribute__((noinline)) bool callIt(CB& cb, int l) {
	try {
		if constexpr(std::is_void_v<typename Sig<CB>::Ret>) {
			cb.call(l);
		} else {
			auto r = cb.call(l);
#if CALLED
			sa_eq((long) r.size(), (long) handlers[l], "one result per called function");
			for(int i = 0; i < handlers[l]; ++i) sa_eq((long) r[i], (long) i, "results in call order");
#endif
		}
		return false;
	} catch(Boom&) {
		return true;
	}
}
template<class CB> __attribute__((noinline)) void call(CB& cb) {
	const int l = level;
#if CALLED
	expectT[l] = t[0].phase == live;
#endif
	countT[l] = 0; handlers[l] = 0; threw[l] = 0;
	level = l + 1;
	const bool thrown = callIt(cb, l);
	level = l;
	if(l == 0) failed = 0;
#if CALLED
	sa_expect(thrown == (threw[l] != 0), "exceptions of functions are passed on");
	if(!thrown) sa_expect(countT[l] == expectT[l], "every registered function is called");
#endif
	expectT[l] = countT[l] = handlers[l] = threw[l] = 0;
}
// a removed function needs no further tracking once nothing of it is left: any later registration may become T
inline void forget() {
#if PROP != 2
	if(t[0].phase == gone) {
		t[0].id = 0;
		if(level == 0 && t[1].inst == 0) t[0] = t[1] = {};
	}
	t[1].id = 0;
#endif
}
// what holds between the outermost operations
inline void settled() {
#if PROP == 3
	sa_eq(t[0].removed, t[0].phase == gone ? 1 : 0, "removed() was called exactly if the function was removed");
#endif
#if PROP == 4
	if(t[0].phase == gone) sa_eq(t[0].inst, 0, "removed functions are destroyed when no call runs any more");
	if(t[0].phase == live) sa_expect(t[0].inst > 0, "registered functions are kept");
#endif
}

template<class CB> void ops(CB& cb) {
	for(;;) {
		if(level == 0) settled();
		forget();
		sa_join(PROP == 4 || PROP == 10);
		switch(sa_choose(PROP == 6 ? 14 : PROP == 10 ? 10 : 8)) {
			case 0: return;
			case 1: if(stored + failed >= maxN) return; sa_op("add"); add(cb, 0); break;
			case 2:
				if(stored + failed >= maxN) return;
				if(t[0].phase == none) { sa_op("add T"); add(cb, 1); }
#if PROP == 1 || PROP == 5
				else if(t[0].phase == live && t[1].phase == none) { sa_op("add U"); add(cb, 2); }
#endif
				break;
			case 3: if(t[0].phase == none || PROP == 10) return; sa_op("disconnect T"); disconnectT(cb); break;
			case 4: if(PROP == 10) return; sa_op("disconnect other"); disconnectOther(cb); break;
			case 5: if constexpr(PROP == 2) { sa_op("disconnect invalid"); disconnectNone(cb); } break;
			case 6: sa_op("clear"); clear(cb); break;
#if PROP == 6
			case 8: sa_op("add empty"); addEmpty(cb, false); break;
			case 9: if(!Sig<CB>::recursive) return; sa_op("add empty with connection"); addEmpty(cb, true); break;
			case 10: if(stored + failed >= maxN || t[0].phase != none) return; sa_op("+= T"); add(cb, 1, plusAssign); break;
			case 11: if(stored + failed >= maxN || t[0].phase != none) return; sa_op("= T"); replace(cb, 1); break;
			case 12: if(stored + failed >= maxN || t[0].phase != live) return; sa_op("= other"); replace(cb, 0); break;
			case 13: if(!Sig<CB>::recursive || stored + failed >= maxN || t[0].phase != none) return; sa_op("add T with connection"); add(cb, 1, withConnection); break;
#endif
#if PROP == 10
			case 8: if(!Sig<CB>::recursive || stored + failed >= maxN || t[0].phase != none) return; sa_op("add T with connection"); add(cb, 1, withConnection); break;
			case 9: if(!Sig<CB>::recursive || stored + failed >= maxN) return; sa_op("add with connection"); add(cb, 0, withConnection); break;
#endif
			case 7: if(level >= maxCalls) return; sa_op("call"); call(cb); break;
		}
	}
}

// a callback that served arbitrarily often before
template<class CB> void use(CB& cb, int adds, int calls) {
	for(int i = 0; i < adds; ++i) cb.add([](int) { return typename Sig<CB>::Ret(); });
	for(int i = 0; i < calls; ++i) cb.call(0);
	cb.clear();
}
template<class CB> void client(int n, int calls) {
	maxN = n; maxCalls = calls;
	{
		CB cb;
		{
			CB used, used2;
			use(used, 1, 2); use(used2, 3, 1);
			sa_widen(&cb, &used, &used2, sizeof(CB));
		}
		{ auto c = cb.add([](int) { return typename Sig<CB>::Ret(); }); lastId = c.id().value; cb.clear(); }
		ops(cb);
		if(t[0].phase == live) t[0].phase = leaving;
	}
	if(t[0].phase == leaving) t[0].phase = gone;
	settled();
#if PROP == 4 || PROP == 10
	sa_eq(stored, 0, "all functions are destroyed with the callback");
	sa_eq(sa_live_heap(), 0L, "nothing is leaked");
#endif
	sa_reach("end");
}
