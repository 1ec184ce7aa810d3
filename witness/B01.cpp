// sa: min=60
#include "bytes.hpp"

// F(buf) needs `need` bytes of the front of the buffer
template<typename Buf, typename F> void bounded(std::size_t need, bool exact, const F& f) {
	auto r = raw("buf", "n");
	Buf b {r.p, r.n};
	bool fits = exact ? r.n == need : r.n >= need;
	try {
		f(b);
		sa_expect(fits, "too small buffers are refused");
		sa_same(b.data(), r.p + need, "advanced by exactly the size of the value");
		sa_eq((unsigned long) b.size(), r.n - need, "advanced by exactly the size of the value");
	} catch(const Overrun&) {
		sa_expect(!fits, "sufficient buffers are accepted");
		sa_same(b.data(), r.p, "not advanced on failure");
		sa_eq((unsigned long) b.size(), r.n, "not advanced on failure");
		untouched(r, raw("buf", "n"), "nothing is written on failure");
	}
}
using W = nytl::WriteBuf;
using R = nytl::ReadBuf;

OB(write_values) {
	bounded<W>(4, false, [](W& b) { int v = sa_int("v"); nytl::write(b, v); });
}
OB(write_double) { bounded<W>(8, false, [](W& b) { const double v = sa_real("v"); nytl::write(b, v); }); }
OB(write_byte) { bounded<W>(1, false, [](W& b) { auto v = byte(7); nytl::write(b, v); }); }
OB(write_struct) { bounded<W>(16, false, [](W& b) { nytl::write(b, Pod {sa_int("v"), 1.f, 2.}); }); }
OB(write_vec) { bounded<W>(12, false, [](W& b) { nytl::write(b, nytl::Vec3f {1.f, 2.f, 3.f}); }); }
OB(write_vector) { bounded<W>(12, false, [](W& b) { std::vector<int> v {1, 2, 3}; nytl::write(b, v); }); }
OB(write_vector_with_room) { bounded<W>(8, false, [](W& b) { std::vector<int> v {1, 2, 3, 4}; v.pop_back(); v.pop_back(); nytl::write(b, v); }); }
OB(read_vector_with_room) { bounded<R>(8, false, [](R& b) { std::vector<int> v(4); v.pop_back(); v.pop_back(); nytl::read(b, v); sa_eq((unsigned long) v.size(), 2ul, "size is kept"); }); }
OB(write_empty_vector) { bounded<W>(0, false, [](W& b) { std::vector<int> v; nytl::write(b, v); }); }
OB(write_list) { bounded<W>(8, false, [](W& b) { std::initializer_list<int> v {1, 2}; nytl::write(b, v); }); }
OB(write_fixed_span) { bounded<W>(8, false, [](W& b) { int a[2] = {1, 2}; nytl::write(b, nytl::span<int, 2>(a)); }); }
OB(write_range) {
	auto m = sa_size("m");
	auto src = (int*) sa_buffer("src", m, 4, 0);
	bounded<W>(4 * m, false, [&](W& b) { nytl::write(b, nytl::span<int>(src, m)); });
}
OB(write_bytes) {
	auto src = raw("src", "m");
	bounded<W>(src.n, false, [&](W& b) { nytl::write(b, R(src.p, src.n)); });
}
OB(read_value) { bounded<R>(4, false, [](R& b) { nytl::read<int>(b); }); }
OB(read_double) { bounded<R>(8, false, [](R& b) { nytl::read<double>(b); }); }
OB(read_struct) { bounded<R>(16, false, [](R& b) { nytl::read<Pod>(b); }); }
OB(read_into) { bounded<R>(4, false, [](R& b) { int v; nytl::read(b, v); }); }
OB(read_into_vec) { bounded<R>(12, false, [](R& b) { nytl::Vec3f v; nytl::read(b, v); }); }
OB(read_into_vector) { bounded<R>(12, false, [](R& b) { std::vector<int> v(3); nytl::read(b, v); sa_eq((unsigned long) v.size(), 3ul, "size is kept"); }); }
OB(read_into_array) { bounded<R>(8, false, [](R& b) { std::array<int, 2> v; nytl::read(b, v); }); }
OB(read_into_range) {
	auto m = sa_size("m");
	auto dst = (int*) sa_buffer("dst", m, 4, 0);
	bounded<R>(4 * m, false, [&](R& b) { nytl::read(b, nytl::bytes(nytl::span<int>(dst, m))); });
}
OB(skip_read) { auto k = sa_size("k"); bounded<R>(k, false, [&](R& b) { nytl::skip(b, k); }); }
OB(skip_write) { auto k = sa_size("k"); bounded<W>(k, false, [&](W& b) { nytl::skip(b, k); }); }
OB(failed_read_keeps_target) {
	auto r = raw("buf", "n");
	sa_assume(r.n < 4);
	R b {r.p, r.n};
	int v = sa_int("v");
	try { nytl::read(b, v); sa_fail("too small buffers are refused"); } catch(const Overrun&) {}
	sa_eq(v, sa_int("v"), "target is unchanged on failure");
}
// copies do not advance; sizes must match exactly (or be sufficient)
OB(copy_range) {
	auto s = raw("src", "n"), d = raw("dst", "m");
	R src {s.p, s.n}; W dst {d.p, d.n};
	try {
		nytl::copy(src, dst);
		sa_expect(s.n == d.n, "sizes must be equal");
	} catch(const Overrun&) {
		sa_expect(s.n != d.n, "equal sizes are accepted");
		untouched(d, raw("dst", "m"), "nothing is written on failure");
	}
	sa_same(src.data(), s.p, "not advanced"); sa_eq((unsigned long) src.size(), s.n, "not advanced");
	sa_same(dst.data(), d.p, "not advanced"); sa_eq((unsigned long) dst.size(), d.n, "not advanced");
}
template<typename T> void copies() {
	auto s = raw("src", "n");
	R src {s.p, s.n};
	bool a = true, b = true;
	try { nytl::copy<T>(src); } catch(const Overrun&) { a = false; }
	sa_eq(a, s.n >= sizeof(T), "copy needs at least the size of the value");
	try { nytl::copyExact<T>(src); } catch(const Overrun&) { b = false; }
	sa_eq(b, s.n == sizeof(T), "copyExact needs exactly the size of the value");
	sa_same(src.data(), s.p, "not advanced"); sa_eq((unsigned long) src.size(), s.n, "not advanced");
}
OB(copy_value) { copies<int>(); }
OB(copy_struct) { copies<Pod>(); }
OB(copy_byte) { copies<byte>(); }
// growing buffers
OB(dyn_grows) {
	nytl::DynWriteBuf d;
	auto m = sa_size("m");
	auto src = (int*) sa_buffer("src", m, 4, 0);
	nytl::write(d, nytl::span<int>(src, m));
	sa_eq((unsigned long) d.size(), 4 * m, "grows by exactly the size of the range");
	nytl::write(d, 5.0);
	sa_eq((unsigned long) d.size(), 4 * m + 8, "grows by exactly the size of the value");
	nytl::write(d, std::vector<int> {});
	sa_eq((unsigned long) d.size(), 4 * m + 8, "grows by exactly the size of the value");
}
// byte views
OB(views) {
	int v = sa_int("v"); const double c = sa_real("c");
	sa_same(nytl::bytes(v).data(), &v, "object view"); sa_eq((unsigned long) nytl::bytes(v).size(), 4ul, "object view");
	sa_same(nytl::bytes(c).data(), &c, "object view"); sa_eq((unsigned long) nytl::bytes(c).size(), 8ul, "object view");
	auto m = sa_size("m");
	auto src = (int*) sa_buffer("src", m, 4, 0);
	nytl::span<int> s(src, m);
	sa_same(nytl::bytes(s).data(), src, "range view"); sa_eq((unsigned long) nytl::bytes(s).size(), 4 * m, "range view");
	nytl::span<const int> cs(s);
	sa_same(nytl::bytes(cs).data(), src, "range view"); sa_eq((unsigned long) nytl::bytes(cs).size(), 4 * m, "range view");
	std::vector<int> vec {1, 2, 3}; const auto& cvec = vec;
	sa_same(nytl::bytes(vec).data(), vec.data(), "vector view"); sa_eq((unsigned long) nytl::bytes(vec).size(), 12ul, "vector view");
	sa_same(nytl::bytes(cvec).data(), vec.data(), "vector view"); sa_eq((unsigned long) nytl::bytes(cvec).size(), 12ul, "vector view");
	// only the elements, not the room behind them
	std::vector<int> spare {1, 2, 3, 4, 5, 6}; spare.pop_back(); spare.pop_back(); const auto& cspare = spare;
	sa_same(nytl::bytes(spare).data(), spare.data(), "vector with room left"); sa_eq((unsigned long) nytl::bytes(spare).size(), 16ul, "vector with room left");
	sa_same(nytl::bytes(cspare).data(), spare.data(), "vector with room left"); sa_eq((unsigned long) nytl::bytes(cspare).size(), 16ul, "vector with room left");
	spare.clear();
	sa_eq((unsigned long) nytl::bytes(spare).size(), 0ul, "cleared vector"); sa_eq((unsigned long) nytl::bytes(cspare).size(), 0ul, "cleared vector");
	std::initializer_list<double> l {1., 2.};
	sa_same(nytl::bytes(l).data(), l.begin(), "list view"); sa_eq((unsigned long) nytl::bytes(l).size(), 16ul, "list view");
	int arr[3] = {};
	nytl::span<int, 3> fs(arr);
	sa_same(nytl::bytes(fs).data(), arr, "fixed range view"); sa_eq((unsigned long) nytl::bytes(fs).size(), 12ul, "fixed range view");
	sa_same(nytl::bytes(arr).data(), arr, "array view"); sa_eq((unsigned long) nytl::bytes(arr).size(), 12ul, "array view");
}
