// sa: min=50
#include "bytes.hpp"
using W = nytl::WriteBuf;
using R = nytl::ReadBuf;

struct Values {
	int i = sa_int("i"); float f = sa_realf("f"); double d = sa_real("d");
	Pod p {sa_int("a"), sa_realf("b"), sa_real("c")};
	nytl::Vec3f v {sa_realf("x"), sa_realf("y"), sa_realf("z")};
	std::vector<int> list {sa_int("l0"), sa_int("l1"), sa_int("l2")};
};
template<typename B> void writeAll(B& b, const Values& v) {
	nytl::write(b, v.i);
	nytl::write(b, v.f);
	nytl::write(b, v.p);
	nytl::write(b, v.v);
	nytl::write<unsigned>(b, v.list.size());
	nytl::write(b, v.list);
	nytl::write(b, v.d);
}
static void readAll(R& b, const Values& v) {
	sa_eq(nytl::read<int>(b), v.i, "int");
	sa_eq(nytl::read<float>(b), v.f, "float");
	auto p = nytl::read<Pod>(b);
	sa_eq(p.a, v.p.a, "struct"); sa_eq(p.b, v.p.b, "struct"); sa_eq(p.c, v.p.c, "struct");
	nytl::Vec3f vec;
	nytl::read(b, vec);
	for(auto k = 0u; k < 3; ++k) sa_eq(vec[k], v.v[k], "vector");
	auto n = nytl::read<unsigned>(b);
	sa_eq(n, 3u, "size");
	std::vector<int> l(n);
	nytl::read(b, l);
	for(auto k = 0u; k < 3; ++k) sa_eq(l[k], v.list[k], "dynamic data");
	sa_eq(nytl::read<double>(b), v.d, "double");
}
constexpr unsigned long total = 4 + 4 + 16 + 12 + 4 + 12 + 8;

OB(fixed_buffer) {
	auto r = raw("buf", "n");
	sa_assume(r.n >= total);
	Values v;
	W w {r.p, r.n};
	writeAll(w, v);
	sa_same(w.data(), r.p + total, "everything is written in sequence");
	R b {r.p, r.n};
	readAll(b, v);
	sa_same(b.data(), r.p + total, "everything is read in sequence");
	auto k = sa_size("k");
	if(k >= total && k < r.n) sa_eq((int) r.p[k], (int) raw("buf", "n").p[k], "the rest of the buffer is unchanged");
}
OB(growing_buffer) {
	nytl::DynWriteBuf d;
	Values v;
	writeAll(d, v);
	sa_eq((unsigned long) d.size(), total, "size");
	R b {d.data(), d.size()};
	readAll(b, v);
	sa_expect(b.empty(), "everything is read");
}
OB(from_converted_buffer) {
	nytl::DynWriteBuf d;
	nytl::write(d, sa_int("i"));
	R b = d;
	sa_eq(nytl::read<int>(b), sa_int("i"), "value");
	std::vector<byte> mem(8);
	W w = mem;
	nytl::write(w, sa_real("d"));
	R c = mem;
	sa_eq(nytl::read<double>(c), sa_real("d"), "value");
	sa_expect(w.empty() && c.empty(), "everything is used");
}
// ranges of every length
// E: an element type of any size, in particular odd ones
struct Odd { unsigned char a, b, c; };
inline void same(unsigned char x, unsigned char y, const char* l) { sa_eq((int) x, (int) y, l); }
inline void same(const Odd& x, const Odd& y, const char* l) { same(x.a, y.a, l); same(x.b, y.b, l); same(x.c, y.c, l); }
inline void same(double x, double y, const char* l) { sa_eq(x, y, l); }
template<typename E> E* elements(const char* name, std::size_t m) { return (E*) sa_buffer(name, m, sizeof(E), 0); }
template<typename E, typename B, typename Data> void rangeOf(B& b, const Data& data, std::size_t m) {
	nytl::write(b, sa_int("before"));
	nytl::write(b, nytl::span<E>(elements<E>("src", m), m));
	nytl::write(b, sa_int("after"));
	R r = data();
	sa_eq(nytl::read<int>(r), sa_int("before"), "value before the range");
	auto dst = elements<E>("dst", m);
	nytl::read(r, nytl::bytes(nytl::span<E>(dst, m)));
	auto k = sa_size("k");
	if(k < m) same(dst[k], elements<E>("src", m)[k], "every element of the range");
	sa_eq(nytl::read<int>(r), sa_int("after"), "value after the range");
}
template<typename E> void fixedRangeOf() {
	auto m = sa_size("m");
	auto r = raw("buf", "n");
	sa_assume(r.n >= sizeof(E) * m + 8);
	W w {r.p, r.n};
	rangeOf<E>(w, [&]{ return R(r.p, r.n); }, m);
}
template<typename E> void growingRangeOf() {
	auto m = sa_size("m");
	nytl::DynWriteBuf d;
	rangeOf<E>(d, [&]{ return R(d.data(), d.size()); }, m);
	sa_eq((unsigned long) d.size(), sizeof(E) * m + 8, "size");
}
OB(fixed_bytes) { fixedRangeOf<unsigned char>(); }
OB(fixed_odd) { fixedRangeOf<Odd>(); }
OB(fixed_double) { fixedRangeOf<double>(); }
OB(growing_bytes) { growingRangeOf<unsigned char>(); }
OB(growing_odd) { growingRangeOf<Odd>(); }
OB(growing_double) { growingRangeOf<double>(); }
OB(odd_values) {
	nytl::DynWriteBuf d;
	auto c = (unsigned char) sa_int("c"); Odd o {(unsigned char) sa_int("o1"), (unsigned char) sa_int("o2"), (unsigned char) sa_int("o3")};
	auto s = (short) sa_int("s");
	nytl::write(d, s); nytl::write(d, c); nytl::write(d, o); nytl::write(d, c);
	sa_eq((unsigned long) d.size(), 7ul, "size");
	R r {d.data(), d.size()};
	sa_eq((int) nytl::read<short>(r), (int) s, "short");
	same(nytl::read<unsigned char>(r), c, "byte"); same(nytl::read<Odd>(r), o, "structure of odd size"); same(nytl::read<unsigned char>(r), c, "byte");
}
template<typename B, typename Data> void range(B& b, const Data& data, std::size_t m, int* src) {
	nytl::write(b, nytl::span<int>(src, m));
	nytl::write(b, sa_int("after"));
	R r = data();
	auto dst = (int*) sa_buffer("dst", m, 4, 0);
	nytl::read(r, nytl::bytes(nytl::span<int>(dst, m)));
	auto k = sa_size("k");
	if(k < m) sa_eq(dst[k], ((int*) sa_buffer("src", m, 4, 0))[k], "every element of the range");
	sa_eq(nytl::read<int>(r), sa_int("after"), "value after the range");
}
OB(fixed_range) {
	auto m = sa_size("m");
	auto r = raw("buf", "n");
	sa_assume(r.n >= 4 * m + 4);
	W w {r.p, r.n};
	range(w, [&]{ return R(r.p, r.n); }, m, (int*) sa_buffer("src", m, 4, 0));
}
OB(growing_range) {
	auto m = sa_size("m");
	nytl::DynWriteBuf d;
	range(d, [&]{ return R(d.data(), d.size()); }, m, (int*) sa_buffer("src", m, 4, 0));
}
OB(growing_keeps_content) {
	auto m = sa_size("m");
	auto src = (int*) sa_buffer("src", m, 4, 0);
	nytl::DynWriteBuf d;
	nytl::write(d, sa_int("before"));
	nytl::write(d, nytl::span<int>(src, m));
	R r {d.data(), d.size()};
	sa_eq(nytl::read<int>(r), sa_int("before"), "earlier content is kept");
	auto k = sa_size("k");
	if(k < m) {
		nytl::skip(r, 4 * k);
		sa_eq(nytl::read<int>(r), src[k], "every element of the range");
	}
}
// skipping
OB(skip_over) {
	auto r = raw("buf", "n");
	sa_assume(r.n >= 16);
	W w {r.p, r.n};
	nytl::write(w, 1);
	nytl::skip(w, 4);
	nytl::write(w, sa_real("d"));
	R b {r.p, r.n};
	nytl::skip(b, 4);
	nytl::skip(b, 4);
	sa_eq(nytl::read<double>(b), sa_real("d"), "value behind a skipped gap");
	auto pristine = raw("buf", "n");
	sa_eq((int) r.p[5], (int) pristine.p[5], "the gap is unchanged");
}
OB(copies) {
	auto r = raw("buf", "n");
	sa_assume(r.n >= 12);
	W w {r.p, r.n};
	nytl::write(w, sa_int("i"));
	nytl::write(w, sa_real("d"));
	R b {r.p, r.n};
	sa_eq(nytl::copy<int>(b), sa_int("i"), "copy"); sa_eq(nytl::copyExact<int>(b.first(4)), sa_int("i"), "copyExact");
	sa_eq(nytl::copyExact<double>(b.subspan(4, 8)), sa_real("d"), "copyExact");
	auto m = sa_size("m");
	auto s = (int*) sa_buffer("src", m, 4, 0); auto d = (int*) sa_buffer("dst", m, 4, 0);
	nytl::copy(nytl::bytes(nytl::span<const int>(s, m)), nytl::bytes(nytl::span<int>(d, m)));
	auto k = sa_size("k");
	if(k < m) sa_eq(d[k], s[k], "copied range");
}
OB(bytes_write_through) {
	int v = 0, u = 0;
	auto w = nytl::bytes(v);
	nytl::write(w, sa_int("i"));
	sa_eq(v, sa_int("i"), "writing to the bytes of an object changes it");
	nytl::copy(nytl::bytes(static_cast<const int&>(v)), nytl::bytes(u));
	sa_eq(u, sa_int("i"), "copy between objects");
}
