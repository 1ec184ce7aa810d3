// sa: min=1000
#include "sa.hpp"
#include "codecvt.hpp"
#include <nytl/utf.hpp>

// a text of N characters in all three encodings, made bit by bit from the code points
template<unsigned N> struct Text {
	char a[4 * N + 1]; unsigned na {};
	char16_t b[2 * N + 1]; unsigned nb {};
	char32_t c[N + 1]; unsigned nc {};
	void b8(std::uint32_t v) { a[na++] = (char) v; }
	// low: arbitrary 16 bits; len: length in utf8; top: fixed leading bits
	void put(std::uint32_t v, unsigned len) {
		c[nc++] = v;
		if(len == 1) b8(v);
		else if(len == 2) { b8(0xc0 | (v >> 6)); b8(0x80 | (v & 0x3f)); }
		else if(len == 3) { b8(0xe0 | (v >> 12)); b8(0x80 | ((v >> 6) & 0x3f)); b8(0x80 | (v & 0x3f)); }
		else { b8(0xf0 | (v >> 18)); b8(0x80 | ((v >> 12) & 0x3f)); b8(0x80 | ((v >> 6) & 0x3f)); b8(0x80 | (v & 0x3f)); }
		if(len < 4) b[nb++] = (char16_t) v;
		else {
			b[nb++] = (char16_t) (0xd800 | (((v >> 16) - 1) << 6) | ((v >> 10) & 0x3f));
			b[nb++] = (char16_t) (0xdc00 | (v & 0x3ff));
		}
	}
	std::string_view s8() const { return {a, na}; }
	std::u16string_view s16() const { return {b, nb}; }
	std::u32string_view s32() const { return {c, nc}; }
};
// any code point of which the utf8 encoding has one, two, three or four bytes
template<unsigned N> static void any(Text<N>& t, const char* name) {
	const std::uint32_t low = sa_bits16(name);
	if(sa_fresh_bool("one byte")) return t.put(low & 0x7f, 1);
	if(sa_fresh_bool("two bytes")) {
		for(unsigned top = 7; top < 10; ++top) if(sa_fresh_bool("highest bit")) return t.put((1u << top) | (low & ((1u << top) - 1)), 2);
		return t.put(0x400 | (low & 0x3ff), 2);
	}
	if(sa_fresh_bool("three bytes")) {
		for(unsigned top = 11; top < 15; ++top) if(sa_fresh_bool("highest bit")) return t.put((1u << top) | (low & ((1u << top) - 1)), 3);
		unsigned h = 16;
		for(; h < 31; ++h) if(h != 27 && sa_fresh_bool("highest bits")) break;   // 27: surrogates
		return t.put((h << 11) | (low & 0x7ff), 3);
	}
	unsigned plane = 1;
	for(; plane < 16; ++plane) if(sa_fresh_bool("plane")) break;
	t.put((plane << 16) | low, 4);
}
// one of four kinds
template<unsigned N> static void some(Text<N>& t, const char* name) {
	const std::uint32_t low = sa_bits16(name);
	if(sa_fresh_bool("one byte")) return t.put(low & 0x7f, 1);
	if(sa_fresh_bool("two bytes")) return t.put(0x400 | (low & 0x3ff), 2);
	if(sa_fresh_bool("three bytes")) return t.put(0xe000 | (low & 0x1fff), 3);
	t.put(0x100000 | low, 4);
}
template<typename S, typename V> static void same(const S& got, const V& exp, const char* l) {
	sa_eq((unsigned long) got.size(), (unsigned long) exp.size(), "all characters are converted");
	if(got.size() != exp.size()) return;
	for(unsigned i = 0; i < exp.size(); ++i) sa_expect(got[i] == exp[i], l);
}
template<unsigned K, unsigned N> static void conv(const Text<N>& t) {
	if(K == 0) same(nytl::toUtf8(t.s16()), t.s8(), "utf16 to utf8");
	if(K == 1) same(nytl::toUtf8(t.s32()), t.s8(), "utf32 to utf8");
	if(K == 2) same(nytl::toUtf16(t.s8()), t.s16(), "utf8 to utf16");
	if(K == 3) same(nytl::toUtf16(t.s32()), t.s16(), "utf32 to utf16");
	if(K == 4) same(nytl::toUtf32(t.s8()), t.s32(), "utf8 to utf32");
	if(K == 5) same(nytl::toUtf32(t.s16()), t.s32(), "utf16 to utf32");
}
#define EVERY(F) OB(F##_8_16) { F<0>(); } OB(F##_8_32) { F<1>(); } OB(F##_16_8) { F<2>(); } \
	OB(F##_16_32) { F<3>(); } OB(F##_32_8) { F<4>(); } OB(F##_32_16) { F<5>(); }
template<unsigned K> static void empty() { Text<0> t; conv<K>(t); }
template<unsigned K> static void one() { Text<1> t; any(t, "a"); conv<K>(t); }
template<unsigned K> static void two() { Text<2> t; any(t, "a"); some(t, "b"); conv<K>(t); }
template<unsigned K> static void two_last() { Text<2> t; some(t, "a"); any(t, "b"); conv<K>(t); }
template<unsigned K> static void three() { Text<3> t; some(t, "a"); some(t, "b"); some(t, "c"); conv<K>(t); }
template<unsigned K> static void four() { Text<4> t; some(t, "a"); some(t, "b"); some(t, "c"); some(t, "d"); conv<K>(t); }
EVERY(empty)
EVERY(one)
EVERY(two)
EVERY(two_last)
EVERY(three)
EVERY(four)

// long texts, all kinds of characters mixed
template<unsigned N> static void fill(Text<N>& t, unsigned phase) {
	const std::uint32_t low = sa_bits16("low");
	for(auto i = 0u; i < N; ++i) {
		switch((i * 7 + i / 4 + i / 9 + phase) % 4) {
			case 0: t.put(low & 0x7f, 1); break;
			case 1: t.put(0x400 | (low & 0x3ff), 2); break;
			case 2: t.put(0xe000 | (low & 0x1fff), 3); break;
			default: t.put(0x100000 | low, 4);
		}
	}
}
template<unsigned K> static void nine() { for(auto p = 0u; p < 4; ++p) { Text<9> t; fill(t, p); conv<K>(t); } }
template<unsigned K> static void forty() { Text<40> t; fill(t, 1); conv<K>(t); }
template<unsigned K> static void many() { Text<300> t; fill(t, 0); conv<K>(t); }
EVERY(nine)
EVERY(forty)
EVERY(many)
// long runs of characters of one kind, shifted by up to three units
template<unsigned K, unsigned L> static void runs() {
	const std::uint32_t low = sa_bits16("low");
	for(auto off = 0u; off < L; ++off) {
		Text<70> t;
		for(auto i = 0u; i < off; ++i) t.put(low & 0x7f, 1);
		while(t.nc < 69) t.put(L == 2 ? 0x400 | (low & 0x3ff) : L == 3 ? 0xe000 | (low & 0x1fff) : 0x100000 | low, L);
		conv<K>(t);
	}
}
template<unsigned K> static void runs2() { runs<K, 2>(); }
template<unsigned K> static void runs3() { runs<K, 3>(); }
template<unsigned K> static void runs4() { runs<K, 4>(); }
EVERY(runs2)
EVERY(runs3)
EVERY(runs4)
