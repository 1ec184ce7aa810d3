// sa: min=60
#include "sa.hpp"
#include <nytl/utf.hpp>
#include "strings.hpp"
// a string of N characters: every sequence of encoded lengths, every code unit pattern allowed for it
template<unsigned N> struct Str {
	char data[4 * N + 1]; unsigned size {}; unsigned start[N + 1]; unsigned len[N + 1];
	char put(std::uint8_t bits, unsigned mask, unsigned head) { return (char) ((bits & mask) | head); }
	void cont(const char* name) { data[size++] = put(sa_bits8(name), 0x3f, 0x80); }
	Str() {
		for(auto i = 0u; i < N; ++i) {
			start[i] = size;
			static const char* n[] = {"a", "b", "c", "d"};
			static const char* n1[] = {"a1", "b1", "c1", "d1"};
			static const char* n2[] = {"a2", "b2", "c2", "d2"};
			static const char* n3[] = {"a3", "b3", "c3", "d3"};
			if(sa_fresh_bool("one byte")) { data[size++] = put(sa_bits8(n[i]), 0x7f, 0); }
			else if(sa_fresh_bool("two bytes")) { data[size++] = put(sa_bits8(n[i]), 0x1f, 0xc0); cont(n1[i]); }
			else if(sa_fresh_bool("three bytes")) { data[size++] = put(sa_bits8(n[i]), 0x0f, 0xe0); cont(n1[i]); cont(n2[i]); }
			else { data[size++] = put(sa_bits8(n[i]), 0x07, 0xf0); cont(n1[i]); cont(n2[i]); cont(n3[i]); }
			len[i] = size - start[i];
		}
		start[N] = size; data[size] = 0;
	}
	std::string_view view() const { return {data, size}; }
};
static void same(char a, char b, const char* l) { sa_expect(a == b, l); }
template<unsigned N> static void count() {
	Str<N> s;
	sa_eq((unsigned long) nytl::charCount(s.view()), (unsigned long) N, "every character is counted once");
}
OB(count0) { count<0>(); }
OB(count1) { count<1>(); }
OB(count2) { count<2>(); }
OB(count3) { count<3>(); }
OB(count4) { count<4>(); }
template<unsigned N, unsigned K> static void nth() {
	Str<N> s;
	auto r = nytl::nth(s.view(), K);
	for(auto i = 0u; i < 5; ++i) {
		if(i < s.len[K]) same(r[i], s.data[s.start[K] + i], "bytes of the character");
		else same(r[i], 0, "zero behind the character");
	}
}
OB(nth0) { nth<1, 0>(); }
OB(nth1) { nth<2, 1>(); nth<2, 0>(); }
OB(nth2) { nth<3, 2>(); }
OB(nth2_middle) { nth<3, 1>(); }
template<unsigned N, unsigned K> static void ref() {
	Str<N> s;
	std::uint8_t size = 77;
	const char& c = nytl::nth(s.view(), K, size);
	sa_same(&c, s.data + s.start[K], "refers to the first byte of the character");
	sa_eq((int) size, (int) s.len[K], "size of the character");
}
OB(ref0) { ref<1, 0>(); }
OB(ref1) { ref<2, 1>(); }
OB(ref2) { ref<3, 1>(); }
OB(ref_last) { ref<3, 2>(); }
template<unsigned N, unsigned K> static void mut() {
	Str<N> s;
	std::string str(s.data, s.size);
	std::uint8_t size = 77;
	char& c = nytl::nth(str, K, size);
	sa_same(&c, str.data() + s.start[K], "refers to the first byte of the character");
	sa_eq((int) size, (int) s.len[K], "size of the character");
}
OB(mut0) { mut<1, 0>(); }
OB(mut1) { mut<2, 1>(); }
OB(mut2) { mut<3, 2>(); }
// a position behind the last character is refused
template<unsigned N> static void range(unsigned k) {
	Str<N> s;
	std::string str(s.data, s.size);
	std::uint8_t size = 77; int thrown = 0;
	try { nytl::nth(s.view(), k); } catch(const std::out_of_range&) { ++thrown; }
	try { nytl::nth(s.view(), k, size); } catch(const std::out_of_range&) { ++thrown; }
	try { nytl::nth(str, k, size); } catch(const std::out_of_range&) { ++thrown; }
	sa_eq(thrown, 3, "positions behind the last character are refused");
}
OB(range0) { range<0>(0); }
OB(range1) { range<1>(1); }
OB(range2) { range<2>(2); range<0>(5); }
OB(range_far) { range<2>(7); }

// long texts: all kinds of characters mixed; counted and found far behind the first few
template<unsigned N> struct Long {
	char data[4 * N + 1]; unsigned size {}; unsigned start[N + 1]; unsigned len[N + 1];
	Long() {
		const auto a = (unsigned) sa_bits8("a"), b = (unsigned) sa_bits8("b");
		for(auto i = 0u; i < N; ++i) {
			start[i] = size;
			len[i] = 1 + (i * 7 + i / 4 + i / 9) % 4;
			static const unsigned mask[] = {0x7f, 0x1f, 0x0f, 0x07}, head[] = {0, 0xc0, 0xe0, 0xf0};
			data[size++] = (char) ((a & mask[len[i] - 1]) | head[len[i] - 1]);
			for(auto k = 1u; k < len[i]; ++k) data[size++] = (char) ((b & 0x3f) | 0x80);
		}
		start[N] = size; data[size] = 0;
	}
	std::string_view view() const { return {data, size}; }
};
template<unsigned N> static void longCount() {
	Long<N> s;
	sa_eq((unsigned long) nytl::charCount(s.view()), (unsigned long) N, "every character is counted once");
}
OB(long_count9) { longCount<9>(); }
OB(long_count17) { longCount<17>(); }
OB(long_count40) { longCount<40>(); }
OB(long_count300) { longCount<300>(); }
template<unsigned N> static void longNth(unsigned k) {
	Long<N> s;
	auto r = nytl::nth(s.view(), k);
	for(auto i = 0u; i < 5; ++i) {
		if(i < s.len[k]) same(r[i], s.data[s.start[k] + i], "bytes of the character");
		else same(r[i], 0, "zero behind the character");
	}
	std::uint8_t size = 77;
	const char& c = nytl::nth(s.view(), k, size);
	sa_same(&c, s.data + s.start[k], "refers to the first byte of the character");
	sa_eq((int) size, (int) s.len[k], "size of the character");
	std::string str(s.data, s.size);
	size = 77;
	char& m = nytl::nth(str, k, size);
	sa_same(&m, str.data() + s.start[k], "refers to the first byte of the character");
	sa_eq((int) size, (int) s.len[k], "size of the character");
}
OB(long_nth) { for(auto k = 0u; k < 24; ++k) longNth<24>(k); }
OB(long_nth_far) { longNth<300>(297); longNth<300>(298); longNth<300>(299); }
OB(long_nth_256) { longNth<300>(255); longNth<300>(256); longNth<300>(3); }
template<unsigned N> static void longRange(std::size_t k) {
	Long<N> s;
	std::string str(s.data, s.size);
	std::uint8_t size = 77; int thrown = 0;
	try { nytl::nth(s.view(), k); } catch(const std::out_of_range&) { ++thrown; }
	try { nytl::nth(s.view(), k, size); } catch(const std::out_of_range&) { ++thrown; }
	try { nytl::nth(str, k, size); } catch(const std::out_of_range&) { ++thrown; }
	sa_eq(thrown, 3, "positions behind the last character are refused");
}
OB(long_range) { longRange<40>(40); longRange<40>(99); }
OB(long_range_huge) { longRange<3>((std::size_t) 1 << 32); longRange<3>(~(std::size_t) 0); longRange<3>(((std::size_t) 1 << 32) + 1); longRange<3>(256); longRange<3>(65537); }
