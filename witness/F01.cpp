// sa: min=300
#include <nytl/flags.hpp>
#include "sa.hpp"
#include <type_traits>

template<typename U> U bits(const char* n) {
	if constexpr(sizeof(U) == 1) return static_cast<U>(sa_bits8(n));
	else if constexpr(sizeof(U) == 2) return static_cast<U>(sa_bits16(n));
	else if constexpr(sizeof(U) == 4) return static_cast<U>(sa_bits32(n));
	else return static_cast<U>(sa_bits64(n));
}
// equal bit patterns
template<typename A, typename B> void same(A a, B b, const char* l) {
	static_assert(std::is_same_v<A, B>);
	sa_expect(a == b, l);
}
template<typename E, typename U = std::underlying_type_t<E>> struct Check {
	using F = nytl::Flags<E, U>;
	static E en(const char* n) { return static_cast<E>(bits<std::underlying_type_t<E>>(n)); }
	static U neg(U u) { return static_cast<U>(~u); }
	static U o(U a, U b) { return static_cast<U>(a | b); }
	static U a(U a, U b) { return static_cast<U>(a & b); }
	static U x(U a, U b) { return static_cast<U>(a ^ b); }

	static void construct() {
		auto e = en("e");
		auto u = (U) e;
		same(F{}.value(), U(0), "default flags are empty");
		same(F(e).value(), u, "flags of a value hold its bits");
		same(F(nytl::invertFlags, e).value(), neg(u), "inverted");
		F f(e);
		same((U) f, u, "conversion");
		F c(f); F d; auto* p = &(d = f);
		same(c.value(), u, "copy"); same(d.value(), u, "assignment"); sa_same(p, &d, "assignment returns the object");
	}
	static void binary() {
		auto ex = en("x"), ey = en("y");
		auto ux = (U) ex, uy = (U) ey;
		F fx(ex), fy(ey);
		same((fx | fy).value(), o(ux, uy), "flags|flags");
		same((fx & fy).value(), a(ux, uy), "flags&flags");
		same((fx ^ fy).value(), x(ux, uy), "flags^flags");
		same((fx | ey).value(), o(ux, uy), "flags|enum");
		same((fx & ey).value(), a(ux, uy), "flags&enum");
		same((fx ^ ey).value(), x(ux, uy), "flags^enum");
		same(fx.value(), ux, "operand unchanged");
		same(fy.value(), uy, "operand unchanged");
	}
	static void assign() {
		auto ex = en("x"), ey = en("y");
		auto ux = (U) ex, uy = (U) ey;
		F fy(ey);
		F f(ex); auto* p = &(f |= ey);
		sa_same(p, &f, "|= returns the object"); same(f.value(), o(ux, uy), "|=");
		F g(ex); p = &(g &= ey);
		sa_same(p, &g, "&= returns the object"); same(g.value(), a(ux, uy), "&=");
		F h(ex); p = &(h ^= ey);
		sa_same(p, &h, "^= returns the object"); same(h.value(), x(ux, uy), "^=");
		F k(ex); k |= fy; same(k.value(), o(ux, uy), "|= flags");
		k = ex; k &= fy; same(k.value(), a(ux, uy), "&= flags");
		k = ex; k ^= fy; same(k.value(), x(ux, uy), "^= flags");
		same(fy.value(), uy, "right operand unchanged");
		F i(ex); i |= i; same(i.value(), ux, "self |=");
		F j(ex); j ^= j; same(j.value(), U(0), "self ^=");
		F l(ex); l &= l; same(l.value(), ux, "self &=");
	}
	static void compare() {
		auto ex = en("x"), ey = en("y");
		auto ux = (U) ex, uy = (U) ey;
		F fx(ex), fy(ey);
		sa_eq(fx == fy, ux == uy, "==");
		sa_eq(fx != fy, ux != uy, "!=");
		sa_eq(bool(fx & fy), a(ux, uy) != 0, "test of contained bits");
	}
	// operators of NYTL_FLAG_OPS and with the enumeration value first
	static void enums() {
		auto ex = en("x"), ey = en("y");
		auto ux = (U) ex, uy = (U) ey;
		F fy(ey);
		same((ex | ey).value(), o(ux, uy), "enum|enum");
		same((ex & ey).value(), a(ux, uy), "enum&enum");
		same((ex ^ ey).value(), x(ux, uy), "enum^enum");
		same((ex | fy).value(), o(ux, uy), "enum|flags");
		same((ex & fy).value(), a(ux, uy), "enum&flags");
		same((ex ^ fy).value(), x(ux, uy), "enum^flags");
		same((~ex).value(), neg(ux), "operator~");
	}
};
#define ENUM(N, U) enum class N : U { a = 1, b = 2, c = 4 }; NYTL_FLAG_OPS(N)
ENUM(E8, std::uint8_t) ENUM(E16, std::uint16_t) ENUM(E32, std::uint32_t) ENUM(E64, std::uint64_t)
ENUM(S8, std::int8_t) ENUM(S16, std::int16_t) ENUM(S32, std::int32_t) ENUM(S64, std::int64_t)
#define ALL(N, ...) OB(construct_##N) { Check<__VA_ARGS__>::construct(); } OB(binary_##N) { Check<__VA_ARGS__>::binary(); } \
	OB(assign_##N) { Check<__VA_ARGS__>::assign(); } OB(compare_##N) { Check<__VA_ARGS__>::compare(); }
#define ENUMS(N, ...) OB(enums_##N) { Check<__VA_ARGS__>::enums(); }
ALL(u8, E8) ALL(u16, E16) ALL(u32, E32) ALL(u64, E64)
ALL(s8, S8) ALL(s16, S16) ALL(s32, S32) ALL(s64, S64)
ENUMS(u8, E8) ENUMS(u16, E16) ENUMS(u32, E32) ENUMS(u64, E64)
ENUMS(s8, S8) ENUMS(s16, S16) ENUMS(s32, S32) ENUMS(s64, S64)
// other storage types
ALL(stored64, E32, std::uint64_t)
ALL(stored32, E8, std::uint32_t)
