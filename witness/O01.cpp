// sa: min=1500
#include "stream.hpp"
#include "num.hpp"
#include <nytl/vecOps.hpp>
#include <nytl/matOps.hpp>
#include <nytl/rectOps.hpp>
#include <nytl/approx.hpp>
#include <nytl/approxVec.hpp>

static void back(Stream& s, std::ostream& r) { sa_same(&r, &s, "the stream is returned"); }
template<unsigned D, typename T> static void vecText(Stream& s, const nytl::Vec<D, T>& v, const char* a = "(", const char* b = ")", const char* c = ", ") {
	s.expect(a);
	for(unsigned i = 0; i < D; ++i) { if(i) s.expect(c); s.expect((double) v[i]); }
	s.expect(b);
}
template<unsigned D, typename T> static void vec() {
	const auto v = VSYM(D, T, "v");
	{ Stream s; back(s, nytl::print(s.os(), v)); vecText<D, T>(s, v); s.done(); }
	{ Stream s; back(s, s.os() << v); vecText<D, T>(s, v); s.done(); }
	{ Stream s; back(s, nytl::print(s.os(), v, "<<", "!", "|~|")); vecText<D, T>(s, v, "<<", "!", "|~|"); s.done(); }
}
OB(vec1) { vec<1, double>(); }
OB(vec2) { vec<2, double>(); }
OB(vec3) { vec<3, float>(); }
OB(vec3i) { vec<3, int>(); }
OB(vec4) { vec<4, double>(); }
OB(vec5u) { vec<5, unsigned>(); }

template<unsigned R, unsigned C, typename T> static void matText(Stream& s, const nytl::Mat<R, C, T>& m, long width, const char* row, bool br) {
	s.expect("{\n");
	for(unsigned r = 0; r < R; ++r) {
		s.expect(row); s.expect("(");
		for(unsigned c = 0; c < C; ++c) { if(c) s.expect(", "); s.expect((double) m[r][c], width); }
		s.expect(")\n");
	}
	s.expect("}");
	if(br) s.expect("\n");
	s.done();
}
template<unsigned R, unsigned C, typename T> static void mat() {
	const auto m = MSYM(R, C, T, "m");
	{ Stream s; back(s, nytl::print(s.os(), m, 0u)); matText<R, C, T>(s, m, 0, "    ", true); }
	{ Stream s; back(s, nytl::print(s.os(), m, 0u, ">", false)); matText<R, C, T>(s, m, 0, ">", false); }
}
OB(mat1) { mat<1, 1, double>(); }
OB(mat2) { mat<2, 2, float>(); }
OB(mat23) { mat<2, 3, double>(); }
OB(mat32i) { mat<3, 2, int>(); }
OB(mat4) { mat<4, 4, double>(); }
template<unsigned R, unsigned C> static void aligned() {
	const auto m = MSYM(R, C, double, "m");
	{ Stream s; back(s, nytl::print(s.os(), m)); matText<R, C, double>(s, m, 8, "    ", true); }
}
OB(aligned1) { aligned<1, 1>(); }
OB(aligned12) { aligned<1, 2>(); }
OB(aligned21) { aligned<2, 1>(); }
OB(aligned_op) {
	const auto m = MSYM(1, 2, double, "m");
	Stream s; back(s, s.os() << m); matText<1, 2, double>(s, m, 8, "    ", true);
}
OB(aligned_args) {
	const auto m = MSYM(2, 1, double, "m");
	Stream s; back(s, nytl::print(s.os(), m, 12, "", false)); matText<2, 1, double>(s, m, 12, "", false);
}
template<unsigned D, typename T> static void rect() {
	nytl::Rect<D, T> r {VSYM(D, T, "p"), VSYM(D, T, "s")};
	for(int op = 0; op < 2; ++op) {
		Stream s;
		back(s, op ? s.os() << r : nytl::print(s.os(), r));
		s.expect("{"); vecText<D, T>(s, r.position); vecText<D, T>(s, r.size); s.expect("}");
		s.done();
	}
}
OB(rect2) { rect<2, double>(); }
OB(rect3i) { rect<3, int>(); }
OB(approx) {
	using namespace nytl::approxOps;
	auto v = sa_real("v");
	Stream s; back(s, s.os() << nytl::approx(v));
	s.expect("Approx("); s.expect(v); s.expect(")"); s.done();
}
OB(approxVec) {
	using namespace nytl::approxOps;
	const auto v = VSYM(3, double, "v");
	Stream s; back(s, s.os() << nytl::approx(v));
	s.expect("Approx("); vecText<3, double>(s, v); s.expect(")"); s.done();
}
