// sa: min=30
#include "sa.hpp"
#include <nytl/scope.hpp>

extern "C" void sa_mark(const char*, long);

// the guard may live at any depth of running destructors of an unwinding
static void anyDepth() {
	long base = sa_uint("exceptions in flight");
	sa_mark("uncaught_base", base);
}
struct Failure {};

template<template<class...> class G> struct Kind;
template<bool S, bool E, typename F> void leave(const F& make) {
	anyDepth();
	bool fails = sa_bool("an exception leaves the scope");
	bool unset = sa_bool("unset");
	int n = 0;
	bool reached = false;
	try {
		auto func = [&]{ sa_expect(reached, "not before the scope is left"); ++n; };
		auto work = [&](auto& guard) {
			sa_eq(n, 0, "not called by the constructor");
			if(unset) guard.unset();
			sa_eq(n, 0, "not called by unset");
			reached = true;
			if(fails) throw Failure {};
		};
		make(func, work);
		sa_expect(!fails, "the exception of the scope propagates");
	} catch(const Failure&) {
		sa_expect(fails, "the exception of the scope propagates");
	}
	bool runs = !unset && (fails ? E : S);
	sa_eq(n, runs ? 1 : 0, runs ? "called exactly once when the scope is left" : "not called");
}
OB(scope_guard) {
	leave<true, true>([](auto& f, auto& work) { nytl::ScopeGuard g(f); work(g); });
	sa_stop();
}
OB(success_guard) { leave<true, false>([](auto& f, auto& work) { nytl::SuccessGuard g(f); work(g); }); }
OB(exception_guard) { leave<false, true>([](auto& f, auto& work) { nytl::ExceptionGuard g(f); work(g); }); }
OB(scope_guard_moved) { leave<true, true>([](auto& f, auto& work) { nytl::ScopeGuard g([&f]{ f(); }); work(g); }); }
OB(success_guard_moved) { leave<true, false>([](auto& f, auto& work) { nytl::SuccessGuard g([&f]{ f(); }); work(g); }); }
OB(exception_guard_moved) { leave<false, true>([](auto& f, auto& work) { nytl::ExceptionGuard g([&f]{ f(); }); work(g); }); }

// leaving the scope early
static int early(int& n) {
	nytl::ScopeGuard g([&]{ ++n; });
	if(sa_bool("early")) return 1;
	sa_eq(n, 0, "not before the scope is left");
	return 2;
}
OB(early_return) {
	anyDepth();
	int n = 0;
	auto r = early(n);
	sa_eq(n, 1, "called exactly once for every way out");
	sa_eq(r, sa_bool("early") ? 1 : 2, "the returned value is kept");
}
// an exception that begins and ends within the scope does not count as leaving with an exception
OB(handled_inside) {
	anyDepth();
	int a = 0, s = 0, e = 0;
	{
		nytl::ScopeGuard ga([&]{ ++a; });
		nytl::SuccessGuard gs([&]{ ++s; });
		nytl::ExceptionGuard ge([&]{ ++e; });
		try { throw Failure {}; } catch(const Failure&) {}
		sa_eq(a + s + e, 0, "not before the scope is left");
	}
	sa_eq(a, 1, "scope guard"); sa_eq(s, 1, "success guard"); sa_eq(e, 0, "exception guard");
}
// a guard created while another exception unwinds
struct InDestructor {
	int &s, &e; bool inner;
	~InDestructor() {
		try {
			nytl::SuccessGuard gs([&]{ ++s; });
			nytl::ExceptionGuard ge([&]{ ++e; });
			if(inner) throw 1;
		} catch(int) {}
	}
};
OB(during_unwinding) {
	anyDepth();
	bool inner = sa_bool("the inner scope is left by an exception");
	int s = 0, e = 0;
	try { InDestructor d {s, e, inner}; throw Failure {}; } catch(const Failure&) {}
	sa_eq(s, inner ? 0 : 1, "success guard looks at its own scope");
	sa_eq(e, inner ? 1 : 0, "exception guard looks at its own scope");
}
// lvalue functions are stored by reference
OB(by_reference) {
	int n = 0;
	struct F { int* n; int by; void operator()() { *n += by; } } f {&n, 1};
	{ nytl::ScopeGuard g(f); f.by = 5; }
	sa_eq(n, 5, "lvalue function is used by reference");
}
OB(by_value) {
	int n = 0;
	struct F { int* n; int by; void operator()() { *n += by; } } f {&n, 1};
	{ nytl::ScopeGuard g(static_cast<F&&>(f)); f.by = 5; }
	sa_eq(n, 1, "rvalue function is stored by value");
}
