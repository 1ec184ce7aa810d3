// A stream that keeps what is written to it. The layout is that of libstdc++'s std::ostream as the compiled headers access it.
#pragma once
#include "sa.hpp"
#include <ostream>
#include <cstring>

struct Stream {
	const long* vptr;
	const void* iosVptr {}; long precision {6}, width {}; int flags {}, except {}, state {}; long rest[24] {};
	// what was written: characters (kind 0) or values (kind 1), with the width and precision at that time
	struct Item { int kind; int ch; double val; long width, precision; } item[160];
	unsigned n {};
	static constexpr long table[4] = {8, 0, 0, 0};
	Stream() : vptr(table + 3) {}
	Stream(const Stream&) = delete;
	std::ostream& os() { return *reinterpret_cast<std::ostream*>(this); }
	Stream& text(const char* s) { while(*s) ch(*s++); width = 0; return *this; }
	Stream& text(const char* s, long k) { for(long i = 0; i < k; ++i) ch(s[i]); width = 0; return *this; }
	Stream& value(double v) { item[n++] = {1, 0, v, width, precision}; width = 0; return *this; }
	void ch(char c) { item[n++] = {0, c, 0, width, precision}; width = 0; }
	// comparison
	unsigned at {};
	void expect(const char* s) {
		for(; *s; ++s, ++at) {
			sa_expect(at < n && item[at].kind == 0 && item[at].ch == *s, "the text is written in its place");
			if(at < n) sa_eq(item[at].width, 0L, "texts are written without padding");
		}
	}
	void expect(double v, long w = 0) {
		sa_expect(at < n && item[at].kind == 1, "the component is written in its place");
		if(at < n) {
			sa_eq(item[at].val, v, "the component is written unchanged");
			sa_eq(item[at].width, w, "width of the component");
		}
		++at;
	}
	void done() {
		sa_eq(at, n, "nothing else is written");
		sa_eq(precision, 6L, "the precision of the stream is restored");
		sa_eq(width, 0L, "no width is left behind");
		sa_eq((long) flags, 0L, "the flags of the stream are kept");
	}
};
#define MODEL(sig, sym) extern "C" Stream& sig __asm__("sa_model." sym); extern "C" Stream& sig
MODEL(model_str(Stream& s, const char* c), "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc") { return s.text(c); }
MODEL(model_chr(Stream& s, char c), "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c") { s.ch(c); return s; }
MODEL(model_ins(Stream& s, const char* c, long n), "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l") { return s.text(c, n); }
MODEL(model_put(Stream& s, char c), "_ZNSo3putEc") { s.ch(c); return s; }
MODEL(model_wri(Stream& s, const char* c, long n), "_ZNSo5writeEPKcl") { return s.text(c, n); }
MODEL(model_flu(Stream& s), "_ZNSo5flushEv") { return s; }
MODEL(model_i(Stream& s, int v), "_ZNSolsEi") { return s.value(v); }
MODEL(model_j(Stream& s, unsigned v), "_ZNSolsEj") { return s.value(v); }
MODEL(model_l(Stream& s, long v), "_ZNSolsEl") { return s.value(v); }
MODEL(model_d(Stream& s, double v), "_ZNSolsEd") { return s.value(v); }
MODEL(model_f(Stream& s, float v), "_ZNSolsEf") { return s.value(v); }
