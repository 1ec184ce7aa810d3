// sa: min=90
#include "sa.hpp"
#include <nytl/span.hpp>
#include <array>
#include <vector>
#include <memory>

template<typename S, typename T> void is(const S& s, T* p, std::size_t n, const char* l) {
	sa_same(s.data(), p, l);
	sa_eq((unsigned long) s.size(), (unsigned long) n, l);
}
struct Data { std::size_t n = sa_size("n"); int* p = (int*) sa_buffer("buf", n, 4, 0); };

OB(pointer_size) {
	Data d;
	nytl::span<int> s(d.p, d.n);
	is(s, d.p, d.n, "pointer and size");
	nytl::span<const int> c(d.p, d.n);
	is(c, d.p, d.n, "pointer and size");
	is(nytl::span<int>(d.p, d.p + d.n), d.p, d.n, "pointer range");
	is(nytl::make_span(d.p, d.n), d.p, d.n, "make_span(pointer, size)");
	is(nytl::make_span(d.p, d.p + d.n), d.p, d.n, "make_span(begin, end)");
	is(nytl::span<const int>(s), d.p, d.n, "conversion to const");
	auto copy = s;
	is(copy, d.p, d.n, "copy");
	nytl::span<int> a;
	is(a, (int*) nullptr, 0, "default: empty");
	sa_expect(a.empty(), "default: empty");
	a = s;
	is(a, d.p, d.n, "assignment");
}
OB(observers) {
	Data d;
	const nytl::span<int> s(d.p, d.n);
	sa_eq((unsigned long) s.size_bytes(), 4 * d.n, "size_bytes");
	sa_eq(s.empty(), d.n == 0, "empty iff the size is 0");
	sa_same(s.begin(), d.p, "begin"); sa_same(s.end(), d.p + d.n, "end");
	sa_same(s.cbegin(), d.p, "cbegin"); sa_same(s.cend(), d.p + d.n, "cend");
	sa_same(s.rbegin().base(), d.p + d.n, "rbegin"); sa_same(s.rend().base(), d.p, "rend");
	sa_same(s.crbegin().base(), d.p + d.n, "crbegin"); sa_same(s.crend().base(), d.p, "crend");
	auto i = sa_size("i");
	sa_assume(i < d.n);
	sa_same(&s[i], d.p + i, "element access");
	sa_same(&s(i), d.p + i, "element access");
	sa_same(&s.front(), d.p, "front");
	sa_same(&s.back(), d.p + (d.n - 1), "back");
}
OB(first_last) {
	Data d;
	const nytl::span<int> s(d.p, d.n);
	auto k = sa_size("k");
	sa_assume(k <= d.n);
	is(s.first(k), d.p, k, "first(k)");
	is(s.last(k), d.p + (d.n - k), k, "last(k)");
	sa_assume(d.n >= 3);
	is(s.first<3>(), d.p, 3, "first<3>");
	is(s.last<3>(), d.p + (d.n - 3), 3, "last<3>");
	is(s.first<0>(), d.p, 0, "first<0>");
	is(s.last<0>(), d.p + d.n, 0, "last<0>");
	static_assert(decltype(s.first<3>())::extent == 3 && decltype(s.last<3>())::extent == 3);
}
OB(subspan) {
	Data d;
	const nytl::span<int> s(d.p, d.n);
	auto o = sa_size("o"), c = sa_size("c");
	sa_assume(o <= d.n); sa_assume(c <= d.n - o);
	is(s.subspan(o, c), d.p + o, c, "subspan(offset, count)");
	is(s.subspan(o), d.p + o, d.n - o, "subspan(offset) reaches to the end");
	sa_assume(d.n >= 5);
	is(s.subspan<2>(), d.p + 2, d.n - 2, "subspan<2>");
	is(s.subspan<2, 3>(), d.p + 2, 3, "subspan<2, 3>");
	is(s.subspan<5, 0>(), d.p + 5, 0, "subspan<5, 0>");
	static_assert(decltype(s.subspan<2>())::extent == nytl::dynamic_extent && decltype(s.subspan<2, 3>())::extent == 3);
}
OB(fixed) {
	Data d;
	sa_assume(d.n == 7);
	const nytl::span<int, 7> s(d.p, d.n);
	is(s, d.p, 7, "fixed size");
	auto k = sa_size("k");
	sa_assume(k <= 7);
	is(s.first(k), d.p, k, "fixed: first(k)");
	is(s.last(k), d.p + (7 - k), k, "fixed: last(k)");
	is(s.subspan(k), d.p + k, 7 - k, "fixed: subspan(k)");
	auto c = sa_size("c");
	sa_assume(c <= 7 - k);
	is(s.subspan(k, c), d.p + k, c, "fixed: subspan(k, c)");
	is(s.subspan<2>(), d.p + 2, 5, "fixed: subspan<2>");
	is(s.subspan<2, 3>(), d.p + 2, 3, "fixed: subspan<2, 3>");
	is(s.first<4>(), d.p, 4, "fixed: first<4>");
	is(s.last<4>(), d.p + 3, 4, "fixed: last<4>");
	static_assert(decltype(s.subspan<2>())::extent == 5 && decltype(s.subspan<2, 3>())::extent == 3);
	is(nytl::span<int>(s), d.p, 7, "fixed to dynamic");
	is(nytl::span<const int>(s), d.p, 7, "fixed to dynamic const");
	is(nytl::span<int, 7>(nytl::span<int>(s)), d.p, 7, "dynamic to fixed");
	sa_eq((unsigned long) s.size_bytes(), 28ul, "size_bytes");
}
OB(arrays) {
	static int a[5];
	is(nytl::span<int>(a), a, 5, "from an array");
	is(nytl::span<int, 5>(a), a, 5, "from an array");
	is(nytl::span<const int>(a), a, 5, "from an array");
	is(nytl::make_span(a), a, 5, "make_span(array)");
	is(nytl::span(a), a, 5, "deduced from an array");
	static std::array<int, 4> b;
	const auto& cb = b;
	is(nytl::span<int>(b), b.data(), 4, "from std::array");
	is(nytl::span<int, 4>(b), b.data(), 4, "from std::array");
	is(nytl::span<const int>(cb), b.data(), 4, "from const std::array");
	is(nytl::span<const int, 4>(cb), b.data(), 4, "from const std::array");
	is(nytl::span(b), b.data(), 4, "deduced from std::array");
	is(nytl::span(cb), b.data(), 4, "deduced from const std::array");
	is(nytl::make_span(b), b.data(), 4, "make_span(std::array)");
}
struct Cont {
	using value_type = int;
	std::size_t n = sa_size("n"); int* p = (int*) sa_buffer("buf", n, 4, 0);
	int* data() { return p; } const int* data() const { return p; }
	std::size_t size() const { return n; }
};
OB(containers) {
	Cont c;
	const Cont& cc = c;
	is(nytl::span<int>(c), c.p, c.n, "from a container");
	is(nytl::span<const int>(c), c.p, c.n, "from a container");
	is(nytl::span<const int>(cc), c.p, c.n, "from a const container");
	is(nytl::span(c), c.p, c.n, "deduced from a container");
	is(nytl::span(cc), c.p, c.n, "deduced from a const container");
	is(nytl::make_span(c), c.p, c.n, "make_span(container)");
	is(nytl::make_span(cc), c.p, c.n, "make_span(const container)");
	std::vector<int> v(3);
	is(nytl::span<int>(v), v.data(), 3, "from a vector");
	const auto& cv = v;
	is(nytl::span<const int>(cv), v.data(), 3, "from a const vector");
}
OB(bytes) {
	Data d;
	nytl::span<int> s(d.p, d.n);
	is(nytl::as_bytes(s), (const std::byte*) d.p, 4 * d.n, "as_bytes");
	is(nytl::as_writeable_bytes(s), (std::byte*) d.p, 4 * d.n, "as_writeable_bytes");
	static int a[5];
	nytl::span<int, 5> f(a);
	is(nytl::as_bytes(f), (const std::byte*) a, 20, "as_bytes of a fixed span");
	is(nytl::as_writeable_bytes(f), (std::byte*) a, 20, "as_writeable_bytes of a fixed span");
	static_assert(decltype(nytl::as_bytes(f))::extent == 20 && decltype(nytl::as_bytes(s))::extent == nytl::dynamic_extent);
}
OB(alias) {
	// a span never copies: writes go through
	Data d;
	nytl::span<int> s(d.p, d.n);
	auto i = sa_size("i");
	sa_assume(i < d.n);
	s[i] = 42;
	sa_eq(d.p[i], 42, "a span references its elements");
	d.p[i] = 7;
	sa_eq(nytl::span<const int>(s)[i], 7, "a span references its elements");
}
// elements of every size
struct Triple { float a, b, c; };
template<typename T> void elementSize() {
	auto n = sa_size("n"); auto* p = (T*) sa_buffer("buf", n, sizeof(T), 0);
	const nytl::span<T> s(p, n);
	is(s, p, n, "pointer and size");
	sa_eq((unsigned long) s.size_bytes(), sizeof(T) * n, "size_bytes");
	is(nytl::as_bytes(s), (const std::byte*) p, sizeof(T) * n, "as_bytes");
	is(nytl::as_writeable_bytes(s), (std::byte*) p, sizeof(T) * n, "as_writeable_bytes");
	sa_same(s.begin(), p, "begin"); sa_same(s.end(), p + n, "end");
	auto k = sa_size("k");
	sa_assume(k <= n);
	is(s.first(k), p, k, "first(k)"); is(s.last(k), p + (n - k), k, "last(k)");
	is(s.subspan(k), p + k, n - k, "subspan(offset) reaches to the end");
	sa_assume(k < n);
	sa_same(&s[k], p + k, "element access"); sa_same(&s(k), p + k, "element access");
	sa_same(&s.back(), p + (n - 1), "back"); sa_same(&*(s.end() - 1), &s.back(), "iteration ends behind the last element");
	sa_assume(n == 6);
	const nytl::span<T, 6> f(p, n);
	sa_eq((unsigned long) f.size_bytes(), sizeof(T) * 6, "size_bytes of a fixed span");
	is(nytl::as_bytes(f), (const std::byte*) p, sizeof(T) * 6, "as_bytes of a fixed span");
	is(nytl::as_writeable_bytes(f), (std::byte*) p, sizeof(T) * 6, "as_writeable_bytes of a fixed span");
	is(f.template subspan<1, 4>(), p + 1, 4, "fixed: subspan<1, 4>"); is(f.template last<2>(), p + 4, 2, "fixed: last<2>");
	static_assert(decltype(nytl::as_bytes(f))::extent == 6 * sizeof(T));
	is(nytl::span<const T>(f), p, 6, "fixed to dynamic const"); is(nytl::make_span(p, n), p, 6, "make_span(pointer, size)");
	std::array<T, 3> a;
	is(nytl::span<T>(a), a.data(), 3, "from std::array"); is(nytl::span<T, 3>(a), a.data(), 3, "from std::array");
	is(nytl::make_span(a), a.data(), 3, "make_span(std::array)");
}
OB(elements1) { elementSize<unsigned char>(); }
OB(elements2) { elementSize<short>(); }
OB(elements8) { elementSize<double>(); }
OB(elements12) { elementSize<Triple>(); }
OB(elementsb) { elementSize<std::byte>(); }
OB(reversed) {
	Data d;
	const nytl::span<int> s(d.p, d.n);
	sa_assume(d.n > 0);
	sa_same(&*s.rbegin(), d.p + (d.n - 1), "reverse iteration begins with the last element");
	sa_same(&*(s.rend() - 1), d.p, "reverse iteration ends with the first element");
	sa_same(&*s.crbegin(), d.p + (d.n - 1), "reverse iteration begins with the last element");
	sa_same(&*(s.crend() - 1), d.p, "reverse iteration ends with the first element");
	auto k = sa_size("k");
	sa_assume(k < d.n);
	sa_same(&s.begin()[k], d.p + k, "iterators denote the elements in order");
	sa_same(&s.rbegin()[k], d.p + (d.n - 1 - k), "reverse iterators denote the elements in reverse order");
	sa_eq((unsigned long) (s.end() - s.begin()), d.n, "end - begin is the size");
}
