// sa: min=20
#include "sa.hpp"
#include <nytl/stringParam.hpp>
#include "strings.hpp"
#include <cstring>
using nytl::StringParam;
template<typename P, typename C> static void check(const P& p, const C* s, std::size_t n) {
	sa_eq((unsigned long) p.size(), (unsigned long) n, "same length");
	for(auto i = 0u; i < n; ++i) sa_eq((int) p[i], (int) s[i], "same characters");
	sa_eq((int) p.c_str()[p.size()], 0, "null-terminated");
	sa_same(p.c_str(), p.data(), "the pointer to the terminated string is the viewed string");
}
template<typename P> static void unowned(const P& p, const void* s) { sa_same(p.data(), s, "refers to the given string"); }
OB(empty) {
	StringParam p;
	sa_expect(p.empty(), "empty"); sa_expect(p.data() != nullptr, "valid pointer"); sa_eq((int) *p.c_str(), 0, "null-terminated");
	StringParam a {};
	sa_eq((int) *a.c_str(), 0, "null-terminated");
	nytl::StringParam32 q; sa_expect(q.empty(), "empty"); sa_eq((int) *q.c_str(), 0, "null-terminated");
	nytl::StringParam16 r; sa_expect(r.empty(), "empty"); sa_eq((int) *r.c_str(), 0, "null-terminated");
}
OB(literal) {
	const char* s = "some string";
	StringParam p = s; check(p, s, 11); unowned(p, s);
	const char* e = ""; StringParam q = e; check(q, e, 0); unowned(q, e);
}
OB(string) {
	std::string s = "a"; StringParam p = s; check(p, s.c_str(), 1); unowned(p, s.c_str());
	std::string l = "a string that does not fit into the small buffer of a string"; StringParam q = l;
	check(q, l.c_str(), l.size()); unowned(q, l.c_str());
	std::string e; StringParam r = e; check(r, e.c_str(), 0); unowned(r, e.c_str());
}
template<typename P> static void param(P p, const void* s, std::size_t n) { sa_eq((unsigned long) p.size(), (unsigned long) n, "same length"); unowned(p, s); }
OB(constant) {
	const std::string s("ab\0cd", 5);
	StringParam p = s; check(p, s.c_str(), 2); unowned(p, s.c_str());
	param<StringParam>(s, s.c_str(), 2);
	const std::u32string t = U"abc"; param<nytl::StringParam32>(t, t.c_str(), 3);
	const char a[] = "xyz"; param<StringParam>(a, a, 3);
	const char b[8] = {'x', 'y', 0, 'z', 0, 0, 0, 0}; param<StringParam>(b, b, 2);
}
OB(embedded) {
	std::string s("ab\0cd", 5);
	StringParam p = s;
	sa_eq((unsigned long) p.size(), 2ul, "ends at the terminator"); sa_eq((int) p.c_str()[p.size()], 0, "null-terminated");
}
OB(copies) {
	std::string s = "abc"; StringParam p = s; StringParam q = p; check(q, s.c_str(), 3); unowned(q, s.c_str());
	q = "xy"; check(q, "xy", 2); q = {}; check(q, "", 0);
	std::string_view v = p; sa_same(v.data(), s.c_str(), "usable as a view"); sa_eq((unsigned long) v.size(), 3ul, "usable as a view");
}
OB(wide) {
	const char32_t* s = U"ab"; nytl::StringParam32 p = s; check(p, s, 2); unowned(p, s);
	std::u16string t = u"abc"; nytl::StringParam16 q = t; check(q, t.c_str(), 3); unowned(q, t.c_str());
}
