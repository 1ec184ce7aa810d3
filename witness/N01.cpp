// sa: min=20
#include "sa.hpp"
#include <nytl/math.hpp>

OB(roundtrip_signed) {
	auto x = sa_int("x");
	sa_eq(nytl::unmapUnsigned(nytl::mapUnsigned(x)), x, "unmapUnsigned reverses mapUnsigned");
}
OB(roundtrip_unsigned) {
	auto x = sa_uint("x");
	sa_eq(nytl::mapUnsigned(nytl::unmapUnsigned(x)), x, "every unsigned number is the image of one signed number");
}
OB(shape) {
	auto x = sa_int("x");
	sa_assume(x >= 0); sa_assume(x < 1000000000);
	sa_eq((long) nytl::mapUnsigned(x), 2l * x, "n is mapped to 2n");
	sa_assume(x > 0);
	sa_eq((long) nytl::mapUnsigned(-x), 2l * x - 1, "-n is mapped to 2n - 1");
}
OB(extremes) {
	sa_eq(nytl::mapUnsigned(-2147483647 - 1), 4294967295u, "the smallest number has an image");
	sa_eq(nytl::mapUnsigned(2147483647), 4294967294u, "the largest number has an image");
	sa_eq(nytl::unmapUnsigned(4294967295u), -2147483647 - 1, "the largest image has a source");
}
OB(angles) {
	auto x = sa_real("x");
	sa_eq(nytl::radians(nytl::degrees(x)), x, "radians and degrees are inverse");
	sa_eq(nytl::degrees(nytl::radians(x)), x, "radians and degrees are inverse");
	sa_eq(nytl::degrees(nytl::constants::pi), 180.0, "pi is 180 degrees");
}
OB(mix) {
	auto x = sa_real("x"), y = sa_real("y"), a = sa_real("a");
	sa_eq(nytl::mix(x, y, 0.0), x, "mix with 0 is the first value");
	sa_eq(nytl::mix(x, y, 1.0), y, "mix with 1 is the second value");
	sa_eq(nytl::mix(x, y, a), x + a * (y - x), "mix is linear");
	sa_eq(nytl::mix(x, x, a), x, "mix of equal values");
}
OB(smoothstep) {
	auto lo = sa_real("lo"), hi = sa_real("hi"), x = sa_real("x");
	sa_assume(lo < hi);
	auto r = nytl::smoothstep(lo, hi, x);
	if(x <= lo) sa_eq(r, 0.0, "0 below the range");
	else if(x >= hi) sa_eq(r, 1.0, "1 above the range");
	else {
		sa_eq(r + nytl::smoothstep(lo, hi, lo + hi - x), 1.0, "symmetric around the middle");
		auto t = (x - lo) / (hi - lo);
		sa_eq(r, t * t * (3 - 2 * t), "hermite interpolation inside the range");
	}
}
OB(clampStore) {
	auto lo = sa_realf("lo"), hi = sa_realf("hi"), x = sa_realf("x");
	sa_assume(lo < hi);
	int store = 42;
	auto r = nytl::clampStore(x, lo, hi, store);
	if(x < lo) { sa_eq(r, lo, "too small: the minimum"); sa_eq(store, -1, "too small: -1 is stored"); }
	else if(x > hi) { sa_eq(r, hi, "too large: the maximum"); sa_eq(store, 1, "too large: 1 is stored"); }
	else { sa_eq(r, x, "in range: the value"); sa_assume(x > lo); sa_assume(x < hi); sa_eq(store, 0, "in range: 0 is stored"); }
}
OB(factorial) {
	unsigned long f = 1;
	for(unsigned n = 0; n <= 20; ++n) {
		if(n) f *= n;
		sa_eq(nytl::factorial(n), f, "factorial");
	}
}
OB(pair_injective) {
	// pairing is a bijection: the pairs on the diagonal x + y = n get n (n + 1) / 2 + y, y <= n
	auto n = sa_uint("n"), y = sa_uint("y");
	sa_assume(n < 30000u); sa_assume(y <= n);
	auto v = nytl::pair(n - y, y);
	auto t = (long) n * (n + 1);
	sa_eq(2l * v, t + 2l * y, "position on its diagonal");
}
