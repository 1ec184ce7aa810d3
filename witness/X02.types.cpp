// sa: min=20
// without an explicit size transforms are 4x4 matrices, and the value type is the one of the arguments
#include <nytl/vec.hpp>
#include <nytl/mat.hpp>
#include <nytl/transform.hpp>
#include <nytl/quaternion.hpp>
#include <type_traits>
template<typename A, typename B> constexpr bool is = std::is_same_v<std::decay_t<A>, B>;
template<typename X> X x();
#define T(...) decltype(__VA_ARGS__)
template<typename P> constexpr bool check() {
	using V2 = nytl::Vec2<P>; using V3 = nytl::Vec3<P>; using M4 = nytl::Mat4<P>; using M3 = nytl::Mat3<P>;
	static_assert(is<T(nytl::rotateMat(x<const V3&>(), x<P>())), M4>);
	static_assert(is<T(nytl::orientMat(x<V3>(), x<V3>())), M4>);
	static_assert(is<T(nytl::scaleMat<4, P>(x<const V3&>())), M4> && is<T(nytl::scaleMat<3, P>(x<const V3&>())), M3>);
	static_assert(is<T(nytl::translateMat<4, P>(x<const V3&>())), M4> && is<T(nytl::translateMat<3, P>(x<const V2&>())), M3>);
	static_assert(is<T(nytl::rotateMat<4, P>(x<P>())), M4> && is<T(nytl::rotateMat<3, P>(x<P>())), M3>);
	static_assert(is<T(nytl::orientMat<4, P>(x<V2>(), x<V2>())), M4>);
	static_assert(is<T(nytl::ortho(x<P>(), x<P>(), x<P>(), x<P>(), x<P>(), x<P>())), M4>);
	static_assert(is<T(nytl::frustum(x<P>(), x<P>(), x<P>(), x<P>(), x<P>(), x<P>())), M4>);
	static_assert(is<T(nytl::perspective(x<P>(), x<P>(), x<P>(), x<P>())), M4>);
	static_assert(is<T(nytl::lookAt(x<const V3&>(), x<const V3&>(), x<const V3&>())), M4>);
	static_assert(is<T(nytl::lookAt(x<const nytl::Quaternion&>(), x<V3>())), M4>);
	static_assert(is<T(nytl::multPos(x<const M4&>(), x<V3>())), V3>);
	static_assert(is<T(nytl::rotate(x<V3>(), x<V3>(), x<P>())), V3>);
	static_assert(is<T(nytl::base(x<V3>())), std::array<V3, 2>>);
	static_assert(is<T(nytl::flippedY(x<M3>())), M3> && is<T(nytl::flippedZ(x<M4>())), M4>);
	static_assert(is<T(nytl::toMat<4, P>(x<nytl::Quaternion>())), M4> && is<T(nytl::toMat<3, P>(x<nytl::Quaternion>())), M3>);
	return true;
}
static_assert(check<float>() && check<double>());
static_assert(is<T(nytl::scaleMat(x<const nytl::Vec3f&>())), nytl::Mat4f> && is<T(nytl::translateMat(x<const nytl::Vec3f&>())), nytl::Mat4f>);
static_assert(is<T(nytl::rotateMat(x<float>())), nytl::Mat4f> && is<T(nytl::orientMat(x<nytl::Vec2f>(), x<nytl::Vec2f>())), nytl::Mat4f>);
static_assert(is<T(nytl::toMat<3>(x<nytl::Quaternion>())), nytl::Mat3f>);
