// sa: min=40
#include <nytl/mat.hpp>
#include "num.hpp"
#include <stdexcept>

template<unsigned R, unsigned C> void bounds() {
	auto a = MSYM(R, C, double, "a");
	const auto k = a;
	sa_eq((unsigned long) a.rows(), (unsigned long) R, "rows()");
	sa_eq((unsigned long) a.cols(), (unsigned long) C, "cols()");
	auto r = sa_size("r"), c = sa_size("c");
	bool threw = false; const void* p = nullptr;
	try { p = &a.at(r, c); } catch(const std::out_of_range&) { threw = true; }
	sa_eq(threw, r >= R || c >= C, "at(r, c) throws std::out_of_range iff the position is outside of the matrix");
	if(!threw) sa_same(p, &a[0][0] + r * C + c, "at(r, c) is element (r, c), row-major");
}
template<unsigned R, unsigned C> void cbounds() {
	auto a = MSYM(R, C, double, "a");
	const auto k = a;
	auto r = sa_size("r"), c = sa_size("c");
	bool threw = false; const void* p = nullptr;
	try { p = &k.at(r, c); } catch(const std::out_of_range&) { threw = true; }
	sa_eq(threw, r >= R || c >= C, "const at(r, c) throws std::out_of_range iff the position is outside of the matrix");
	if(!threw) sa_same(p, &k[0][0] + r * C + c, "const at(r, c) is element (r, c), row-major");
}
template<unsigned R, unsigned C> void rbounds() {
	auto a = MSYM(R, C, double, "a");
	const auto k = a;
	auto r = sa_size("r");
	bool threw = false; const void* p = nullptr;
	try { p = &a.at(r); } catch(const std::out_of_range&) { threw = true; }
	sa_eq(threw, r >= R, "at(r) throws std::out_of_range iff there is no such row");
	if(!threw) sa_same(p, &a[0][0] + r * C, "at(r) is row r");
	threw = false;
	try { p = &k.at(r); } catch(const std::out_of_range&) { threw = true; }
	sa_eq(threw, r >= R, "const at(r) throws std::out_of_range iff there is no such row");
	if(!threw) sa_same(p, &k[0][0] + r * C, "const at(r) is row r");
	for(unsigned i = 0; i < R; ++i) {
		sa_same(&a[i], &a[0][0] + i * C, "rows are contiguous"); sa_same(&k[i], &k[0][0] + i * C, "const rows are contiguous");
	}
}
template<unsigned R, unsigned C, unsigned OR, unsigned OC, typename OT> void convert() {
	const auto a = MSYM(R, C, double, "a");
	auto b = static_cast<nytl::Mat<OR, OC, OT>>(a);
	for(unsigned i = 0; i < OR; ++i) for(unsigned j = 0; j < OC; ++j) {
		if(i < R && j < C) sa_eq(b[i][j], OT(a[i][j]), "conversion keeps the upper left part");
		else sa_eq(b[i][j], OT(0), "conversion default-initialises missing elements");
	}
}
#define B(R, C) OB(bounds_##R##C) { bounds<R, C>(); } OB(cbounds_##R##C) { cbounds<R, C>(); } OB(rbounds_##R##C) { rbounds<R, C>(); }
B(2, 2) B(2, 3) B(3, 2) B(3, 3) B(2, 4) B(4, 4) B(4, 2) B(4, 3)
OB(conv_22_33) { convert<2, 2, 3, 3, double>(); }
OB(conv_33_22) { convert<3, 3, 2, 2, double>(); }
OB(conv_33_44) { convert<3, 3, 4, 4, float>(); }
OB(conv_44_33) { convert<4, 4, 3, 3, float>(); }
OB(conv_23_32) { convert<2, 3, 3, 2, double>(); }
OB(conv_32_23) { convert<3, 2, 2, 3, double>(); }
OB(conv_24_42) { convert<2, 4, 4, 2, double>(); }
OB(conv_22_22) { convert<2, 2, 2, 2, int>(); }
B(1, 1) B(1, 4) B(4, 1) B(3, 4) B(5, 5)
OB(conv_22_44) { convert<2, 2, 4, 4, double>(); }
OB(conv_44_22) { convert<4, 4, 2, 2, double>(); }
OB(conv_33_33) { convert<3, 3, 3, 3, float>(); }
OB(conv_44_44) { convert<4, 4, 4, 4, float>(); }
OB(conv_44_44i) { convert<4, 4, 4, 4, int>(); }
OB(conv_34_43) { convert<3, 4, 4, 3, double>(); }
OB(conv_34_44) { convert<3, 4, 4, 4, double>(); }
OB(conv_11_33) { convert<1, 1, 3, 3, double>(); }
OB(conv_55_44) { convert<5, 5, 4, 4, float>(); }
