// sa: min=12
#include "sa.hpp"
#include <nytl/scope.hpp>

extern "C" void sa_mark(const char*, long);
static void anyDepth() { sa_mark("uncaught_base", (long) sa_uint("exceptions in flight")); }

struct Failure {};
struct Error : std::exception { const char* what() const noexcept override { return ""; } };
struct Base {}; struct Derived : Error {};

template<int K> [[noreturn]] void fail() {
	if constexpr(K == 0) throw Error {};
	else if constexpr(K == 1) throw 42;
	else if constexpr(K == 2) throw Derived {};
	else throw Base {};
}
// every way to leave the scope, every kind of exception of the guarded function: nothing escapes (an
// escaping exception or std::terminate ends the analysed path as a violation)
template<int K, typename M> void contain(const M& make) {
	anyDepth();
	bool fails = sa_bool("an exception leaves the scope");
	int n = 0, after = 0;
	try {
		auto f = [&]{ ++n; fail<K>(); };
		make(f, fails);
		++after;
	} catch(const Failure&) {
		sa_expect(fails, "only the exception of the scope propagates");
		after += 10;
	} catch(...) {
		sa_fail("an exception of the guarded function escapes");
	}
	sa_eq(after, fails ? 10 : 1, "control continues as without the guard");
	sa_expect(n <= 1, "called at most once");
}
template<int K> void all() {
	contain<K>([](auto& f, bool b) { nytl::ScopeGuard g(f); if(b) throw Failure {}; });
	contain<K>([](auto& f, bool b) { nytl::SuccessGuard g(f); if(b) throw Failure {}; });
	contain<K>([](auto& f, bool b) { nytl::ExceptionGuard g(f); if(b) throw Failure {}; });
}
OB(std_exception) { all<0>(); }
OB(not_an_exception) { all<1>(); }
OB(derived_exception) { all<2>(); }
OB(unrelated_class) { all<3>(); }
// the other guards of the scope still run
OB(other_guards_run) {
	anyDepth();
	bool fails = sa_bool("an exception leaves the scope");
	int n = 0;
	try {
		nytl::ScopeGuard a([&]{ ++n; });
		nytl::ScopeGuard b([&]{ throw Error {}; });
		nytl::ScopeGuard c([&]{ ++n; });
		if(fails) throw Failure {};
	} catch(const Failure&) {}
	sa_eq(n, 2, "the other guards of the scope run");
}
