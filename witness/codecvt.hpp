// What the standard says about the conversion facets (libstdc++ implements them out of its headers).
#pragma once
#include <codecvt>
#include <locale>
#include "strings.hpp"
template class std::basic_string<char32_t>;

namespace std {
locale::facet::~facet() {}
codecvt<char16_t, char, mbstate_t>::~codecvt() {}
codecvt<char32_t, char, mbstate_t>::~codecvt() {}
__codecvt_utf8_base<char16_t>::~__codecvt_utf8_base() {}
__codecvt_utf8_base<char32_t>::~__codecvt_utf8_base() {}
__codecvt_utf8_utf16_base<char16_t>::~__codecvt_utf8_utf16_base() {}
__codecvt_utf8_utf16_base<char32_t>::~__codecvt_utf8_utf16_base() {}
int codecvt<char16_t, char, mbstate_t>::do_max_length() const throw() { return 4; }
int codecvt<char32_t, char, mbstate_t>::do_max_length() const throw() { return 4; }
int __codecvt_utf8_base<char16_t>::do_max_length() const throw() { return 3; }
int __codecvt_utf8_base<char32_t>::do_max_length() const throw() { return 4; }
int __codecvt_utf8_utf16_base<char16_t>::do_max_length() const throw() { return 4; }
int __codecvt_utf8_utf16_base<char32_t>::do_max_length() const throw() { return 4; }
}
namespace codecvt_spec {
using R = std::codecvt_base::result;
using B = std::codecvt_base;
inline std::uint32_t u8(char c) { return (unsigned char) c; }
// utf8 -> Elem. surrogates: code points above 0xffff become two elements; otherwise they are an error for 16 bit elements
template<typename E> R in(bool surrogates, const char* from, const char* end, const char*& next, E* to, E* toEnd, E*& toNext) {
	R r = B::ok;
	while(from != end) {
		const auto h = u8(*from);
		const unsigned len = !(h & 0x80) ? 1 : !(h & 0x40) ? 0 : !(h & 0x20) ? 2 : !(h & 0x10) ? 3 : !(h & 0x08) ? 4 : 0;
		if(!len) { r = B::error; break; }
		if((unsigned long) (end - from) < len) { r = B::partial; break; }
		std::uint32_t c = len == 1 ? h : len == 2 ? h & 0x1f : len == 3 ? h & 0x0f : h & 0x07;
		bool bad = false;
		for(unsigned i = 1; i < len; ++i) {
			const auto b = u8(from[i]);
			if((b & 0xc0) != 0x80) bad = true;
			c = (c << 6) | (b & 0x3f);
		}
		if(bad) { r = B::error; break; }
		if(sizeof(E) == 2 && (c >> 16)) {
			if(!surrogates) { r = B::error; break; }
			if(toEnd - to < 2) { r = B::partial; break; }
			*to++ = E(0xd800u | (((c >> 16) - 1) << 6) | ((c >> 10) & 0x3f));
			*to++ = E(0xdc00u | (c & 0x3ff));
		} else {
			if(to == toEnd) { r = B::partial; break; }
			*to++ = E(c);
		}
		from += len;
	}
	next = from; toNext = to;
	return r;
}
template<typename E> R out(bool surrogates, const E* from, const E* end, const E*& next, char* to, char* toEnd, char*& toNext) {
	R r = B::ok;
	while(from != end) {
		std::uint32_t c = *from;
		unsigned used = 1;
		if(sizeof(E) == 2 && (c & 0xfc00) == 0xd800) {
			if(!surrogates) { r = B::error; break; }
			if(end - from < 2) { r = B::partial; break; }
			const std::uint32_t d = from[1];
			if((d & 0xfc00) != 0xdc00) { r = B::error; break; }
			c = ((((c >> 6) & 0xf) + 1) << 16) | ((c & 0x3f) << 10) | (d & 0x3ff);
			used = 2;
		}
		const unsigned len = !(c >> 7) ? 1 : !(c >> 11) ? 2 : !(c >> 16) ? 3 : 4;
		if((unsigned long) (toEnd - to) < len) { r = B::partial; break; }
		if(len == 1) *to++ = char(c);
		else {
			*to++ = char((len == 2 ? 0xc0u : len == 3 ? 0xe0u : 0xf0u) | (c >> 6 * (len - 1)));
			for(unsigned i = len - 1; i-- > 0;) *to++ = char(0x80u | ((c >> 6 * i) & 0x3f));
		}
		from += used;
	}
	next = from; toNext = to;
	return r;
}
}
#define FACET(BASE, E, SUR) namespace std { \
	codecvt_base::result BASE<E>::do_in(mbstate_t&, const char* f, const char* e, const char*& n, E* t, E* te, E*& tn) const { return codecvt_spec::in<E>(SUR, f, e, n, t, te, tn); } \
	codecvt_base::result BASE<E>::do_out(mbstate_t&, const E* f, const E* e, const E*& n, char* t, char* te, char*& tn) const { return codecvt_spec::out<E>(SUR, f, e, n, t, te, tn); } }
FACET(__codecvt_utf8_base, char16_t, false)
FACET(__codecvt_utf8_base, char32_t, false)
FACET(__codecvt_utf8_utf16_base, char16_t, true)
FACET(__codecvt_utf8_utf16_base, char32_t, true)
