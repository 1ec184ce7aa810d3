// sa: min=20
// double precision transforms must not go through a lower precision
#include "num.hpp"
#include <nytl/transform.hpp>

template<typename F> void full(F f, const char* l) {
	sa_precise(1);
	f();
	sa_precise(0);
	sa_reach(l);
}
#define S(n) sa_real(n)
OB(scale) { full([] { return nytl::scaleMat<4, double>(VSYM(3, double, "s")); }, "scaleMat keeps the precision"); }
OB(translate) { full([] { return nytl::translateMat<4, double>(VSYM(3, double, "s")); }, "translateMat keeps the precision"); }
OB(rotate2) { full([] { return nytl::rotateMat<4, double>(S("a")); }, "rotateMat keeps the precision"); }
OB(orient2) { full([] { return nytl::orientMat<4, double>(VSYM(2, double, "a"), VSYM(2, double, "b")); }, "orientMat keeps the precision"); }
OB(rotatev) { full([] { return nytl::rotate(VSYM(3, double, "v"), VSYM(3, double, "x"), S("a")); }, "rotate keeps the precision"); }
OB(rotate3) { full([] { return nytl::rotateMat<4, double>(VSYM(3, double, "x"), S("a")); }, "rotateMat keeps the precision"); }
OB(orient3) { full([] { return nytl::orientMat<4, double>(VSYM(3, double, "a"), VSYM(3, double, "b")); }, "orientMat keeps the precision"); }
OB(base) { full([] { return nytl::base(VSYM(3, double, "a")); }, "base keeps the precision"); }
OB(multPos) { full([] { return nytl::multPos(MSYM(4, 4, double, "m"), VSYM(3, double, "a")); }, "multPos keeps the precision"); }
OB(expand) { full([] { return nytl::expandIdentity<4, double>(MSYM(2, 2, double, "m")); }, "expandIdentity keeps the precision"); }
OB(ortho) { full([] { return nytl::ortho<double>(S("l"), S("r"), S("b"), S("t"), S("n"), S("f")); }, "ortho keeps the precision"); }
OB(frustum) { full([] {
	auto n = S("n"), f = S("f"); sa_assume(n > 0); sa_assume(f > n); sa_assume(S("l") < S("r")); sa_assume(S("b") < S("t"));
	return nytl::frustum<double>(S("l"), S("r"), S("b"), S("t"), n, f); }, "frustum keeps the precision"); }
OB(frustumRev) { full([] {
	auto n = S("n"), f = S("f"); sa_assume(n > 0); sa_assume(f > n); sa_assume(S("l") < S("r")); sa_assume(S("b") < S("t"));
	return nytl::frustumRev<double>(S("l"), S("r"), S("b"), S("t"), n, f); }, "frustumRev keeps the precision"); }
OB(frustumRevInf) { full([] {
	auto n = S("n"); sa_assume(n > 0); sa_assume(S("l") < S("r")); sa_assume(S("b") < S("t"));
	return nytl::frustumRevInf<double>(S("l"), S("r"), S("b"), S("t"), n); }, "frustumRevInf keeps the precision"); }
OB(perspective) { full([] {
	auto n = S("n"), f = S("f"); sa_assume(n > 0); sa_assume(f > n);
	return nytl::perspective<double>(S("a"), S("s"), n, f); }, "perspective keeps the precision"); }
OB(perspectiveRev) { full([] {
	auto n = S("n"), f = S("f"); sa_assume(n > 0); sa_assume(f > n);
	return nytl::perspectiveRev<double>(S("a"), S("s"), n, f); }, "perspectiveRev keeps the precision"); }
OB(perspectiveRevInf) { full([] {
	auto n = S("n"); sa_assume(n > 0);
	return nytl::perspectiveRevInf<double>(S("a"), S("s"), n); }, "perspectiveRevInf keeps the precision"); }
OB(lookAtQ) { full([] { return nytl::lookAt<4, double>(nytl::Quaternion{S("x"), S("y"), S("z"), S("w")}, VSYM(3, double, "p")); }, "lookAt keeps the precision"); }
OB(lookAtV) { full([] {
	auto z = VSYM(3, double, "z"), up = VSYM(3, double, "u");
	sa_assume(z[0] > 0); sa_assume(z[1] == 0); sa_assume(z[2] == 0); sa_assume(up[1] > 0);
	return nytl::lookAt(VSYM(3, double, "p"), z, up); }, "lookAt keeps the precision"); }
OB(lookAt3) { full([] {
	auto z = VSYM(3, double, "z"), up = VSYM(3, double, "u");
	sa_assume(z[0] > 0); sa_assume(z[1] == 0); sa_assume(z[2] == 0); sa_assume(up[1] > 0);
	return nytl::lookAt<3, double>(z, up); }, "lookAt keeps the precision"); }
OB(toMat) { full([] { return nytl::toMat<4, double>(nytl::Quaternion{S("x"), S("y"), S("z"), S("w")}); }, "toMat keeps the precision"); }
OB(quatmul) { full([] { return nytl::Quaternion{S("x"), S("y"), S("z"), S("w")} * nytl::Quaternion{S("a"), S("b"), S("c"), S("d")}; }, "quaternion product keeps the precision"); }
OB(quatapply) { full([] { return nytl::apply(nytl::Quaternion{S("x"), S("y"), S("z"), S("w")}, VSYM(3, double, "p")); }, "apply keeps the precision"); }
OB(slerp) { full([] { return nytl::slerp(nytl::Quaternion{S("x"), S("y"), S("z"), S("w")}, nytl::Quaternion{S("a"), S("b"), S("c"), S("d")}, S("t")); }, "slerp keeps the precision"); }
OB(inplace) { full([] {
	auto m = MSYM(4, 4, double, "m");
	nytl::rotate(m, VSYM(3, double, "x"), S("a")); nytl::translate(m, VSYM(3, double, "t")); nytl::scale(m, VSYM(3, double, "s"));
	return m; }, "in place transforms keep the precision"); }
