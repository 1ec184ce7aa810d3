// sa: min=100
#include <nytl/vec.hpp>
#include "num.hpp"
#include <stdexcept>

template<unsigned D, typename T> void access() {
	auto a = VSYM(D, T, "a");
	const auto c = a;
	sa_eq((unsigned long) a.size(), (unsigned long) D, "size() is the dimension");
	unsigned n = 0;
	for(auto& e : a) { sa_same(&e, &a[n], "iteration visits component n as the nth"); ++n; }
	sa_eq(n, D, "iteration visits every component");
	n = 0;
	for(auto& e : c) { sa_same(&e, &c[n], "const iteration visits component n as the nth"); ++n; }
	sa_eq(n, D, "const iteration visits every component");
	sa_same(&a.front(), &a[0], "front()");
	sa_same(&a.back(), &a[D - 1], "back()");
	sa_same(&c.front(), &c[0], "const front()");
	sa_same(&c.back(), &c[D - 1], "const back()");
	sa_same(a.data(), &a[0], "data()");
	sa_same(c.data(), &c[0], "const data()");
	for(unsigned i = 0; i < D; ++i) {
		sa_same(&a[i], a.data() + i, "components are contiguous");
		sa_same(&c[i], c.data() + i, "const components are contiguous");
		sa_same(&a.at(i), &a[i], "at() in range");
		sa_same(&c.at(i), &c[i], "const at() in range");
	}
	auto v = sa_sym<T>("v");
	for(unsigned k = 0; k < D; ++k) {
		auto b = c; b[k] = v;
		for(unsigned i = 0; i < D; ++i) sa_eq(b[i], i == k ? v : c[i], "writing one component changes only that one");
	}
	sa_eq((unsigned long) sizeof(a), (unsigned long) (D * sizeof(T)), "no padding");
}
// every out-of-range index is rejected
template<unsigned D> void bounds() {
	auto a = VSYM(D, double, "a");
	const auto c = a;
	auto i = sa_size("i");
	bool threw = false;
	const double* p = nullptr;
	try { p = &a.at(i); } catch(const std::out_of_range&) { threw = true; }
	sa_eq(threw, i >= D, "at() throws std::out_of_range iff the index is out of range");
	if(!threw) sa_same(p, a.data() + i, "at() returns the component");
	threw = false;
	try { p = &c.at(i); } catch(const std::out_of_range&) { threw = true; }
	sa_eq(threw, i >= D, "const at() throws std::out_of_range iff the index is out of range");
}
template<unsigned D> void indexBounds() {
	auto a = VSYM(D, double, "a");
	const auto c = a;
	auto i = sa_size("i");
	bool threw = false;
	const double* p = nullptr;
	try { p = &a[i]; } catch(const std::out_of_range&) { threw = true; }
	sa_eq(threw, i >= D, "[] of the 2/3 component vectors is bounds checked");
	if(!threw) sa_same(p, a.data() + i, "[] returns the component");
	threw = false;
	try { p = &c[i]; } catch(const std::out_of_range&) { threw = true; }
	sa_eq(threw, i >= D, "const [] of the 2/3 component vectors is bounds checked");
	if(!threw) sa_same(p, c.data() + i, "const [] returns the component");
}
template<unsigned D, unsigned OD, typename OT> void convert() {
	const auto a = VSYM(D, double, "a");
	auto b = static_cast<nytl::Vec<OD, OT>>(a);
	for(unsigned i = 0; i < OD; ++i) {
		if(i < D) sa_eq(b[i], OT(a[i]), "conversion keeps the leading components");
		else sa_eq(b[i], OT(0), "conversion default-initialises missing components");
	}
}
OB(access_2d) { access<2, double>(); }
OB(access_3d) { access<3, double>(); }
OB(access_4d) { access<4, double>(); }
OB(access_2i) { access<2, int>(); }
OB(access_3i) { access<3, int>(); }
OB(access_5f) { access<5, float>(); }
OB(bounds_2) { bounds<2>(); }
OB(bounds_3) { bounds<3>(); }
OB(bounds_4) { bounds<4>(); }
OB(index_2) { indexBounds<2>(); }
OB(index_3) { indexBounds<3>(); }
OB(convert_2_3) { convert<2, 3, double>(); }
OB(convert_2_4) { convert<2, 4, float>(); }
OB(convert_2_2) { convert<2, 2, float>(); }
OB(convert_2_1) { convert<2, 1, float>(); }
OB(convert_3_2) { convert<3, 2, double>(); }
OB(convert_3_4) { convert<3, 4, double>(); }
OB(convert_3_5) { convert<3, 5, double>(); }
OB(convert_4_2) { convert<4, 2, double>(); }
OB(convert_4_3) { convert<4, 3, double>(); }
OB(convert_4_5) { convert<4, 5, float>(); }
OB(convert_5_2) { convert<5, 2, int>(); }
OB(named_members) {
	auto a = VSYM(2, double, "a"); auto b = VSYM(3, double, "b");
	sa_same(&a.x, &a[0], "x"); sa_same(&a.y, &a[1], "y");
	sa_same(&b.x, &b[0], "x"); sa_same(&b.y, &b[1], "y"); sa_same(&b.z, &b[2], "z");
}
OB(access_1d) { access<1, double>(); }
OB(access_6d) { access<6, double>(); }
OB(access_8d) { access<8, double>(); }
OB(access_2f) { access<2, float>(); }
OB(access_3f) { access<3, float>(); }
OB(access_4f) { access<4, float>(); }
OB(access_4i) { access<4, int>(); }
OB(access_2u) { access<2, unsigned>(); }
OB(access_3u) { access<3, unsigned>(); }
OB(access_4u) { access<4, unsigned>(); }
OB(access_3l) { access<3, long>(); }
OB(bounds_1) { bounds<1>(); }
OB(bounds_5) { bounds<5>(); }
OB(bounds_8) { bounds<8>(); }
OB(convert_1_2) { convert<1, 2, double>(); }
OB(convert_1_3) { convert<1, 3, double>(); }
OB(convert_2_3f) { convert<2, 3, float>(); }
OB(convert_2_3i) { convert<2, 3, int>(); }
OB(convert_3_2f) { convert<3, 2, float>(); }
OB(convert_3_2i) { convert<3, 2, int>(); }
OB(convert_3_3f) { convert<3, 3, float>(); }
OB(convert_3_3i) { convert<3, 3, int>(); }
OB(convert_3_1) { convert<3, 1, double>(); }
OB(convert_2_6) { convert<2, 6, double>(); }
OB(convert_4_4) { convert<4, 4, float>(); }
OB(convert_4_4i) { convert<4, 4, int>(); }
OB(convert_4_1) { convert<4, 1, double>(); }
OB(convert_5_3) { convert<5, 3, int>(); }
OB(convert_8_3) { convert<8, 3, float>(); }
OB(convert_8_4) { convert<8, 4, float>(); }
// many components
OB(access_17d) { access<17, double>(); }
OB(bounds_17) { bounds<17>(); }
OB(convert_17_9) { convert<17, 9, int>(); }
