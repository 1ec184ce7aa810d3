// sa: min=170
// dimensions and kinds of operands that cannot be meant together: each ill-formed program is a well-formed one with one operand replaced
#include <nytl/vec.hpp>
#include <nytl/vecOps.hpp>
#include <nytl/mat.hpp>
#include <nytl/matOps.hpp>
#include <nytl/rect.hpp>
#include <nytl/rectOps.hpp>
#include <nytl/simplex.hpp>
#include <nytl/transform.hpp>
#include <nytl/quaternion.hpp>
#include <nytl/approx.hpp>
#include <nytl/approxVec.hpp>
#include <nytl/span.hpp>
#include <nytl/flags.hpp>
#include <nytl/scope.hpp>
#include <utility>
using V2 = nytl::Vec<2, double>; using V3 = nytl::Vec<3, double>; using V4 = nytl::Vec<4, double>;
using M23 = nytl::Mat<2, 3, double>; using M3 = nytl::Mat<3, 3, double>; using M4 = nytl::Mat<4, 4, double>;
using R2 = nytl::Rect<2, double>; using R3 = nytl::Rect<3, double>;
enum class E { a = 1, b = 2 };
enum class G { a = 1, b = 2 };
NYTL_FLAG_OPS(E)
NYTL_FLAG_OPS(G)
struct F { void operator()() const {} };
//@pass vec_add well-formed: the same with matching operands
auto t(V3 a, V3 b) { return a + b; }
//@end
//@fail vec_add_bad vectors of different dimension are added
auto t(V3 a, V2 b) { return a + b; }
//@end
//@pass vec_sub well-formed: the same with matching operands
auto t(V3 a, V3 b) { return a - b; }
//@end
//@fail vec_sub_bad vectors of different dimension are subtracted
auto t(V2 a, V3 b) { return a - b; }
//@end
//@pass vec_add_assign well-formed: the same with matching operands
void t(V3& a, V3 b) { a += b; }
//@end
//@fail vec_add_assign_bad a vector of another dimension is added in place
void t(V3& a, V2 b) { a += b; }
//@end
//@pass vec_sub_assign well-formed: the same with matching operands
void t(V3& a, V3 b) { a -= b; }
//@end
//@fail vec_sub_assign_bad a vector of another dimension is subtracted in place
void t(V3& a, V4 b) { a -= b; }
//@end
//@pass vec_dot well-formed: the same with matching operands
auto t(V3 a, V3 b) { return nytl::dot(a, b); }
//@end
//@fail vec_dot_bad dot product of vectors of different dimension
auto t(V3 a, V4 b) { return nytl::dot(a, b); }
//@end
//@pass vec_distance well-formed: the same with matching operands
auto t(V3 a, V3 b) { return nytl::distance(a, b); }
//@end
//@fail vec_distance_bad distance of points of different dimension
auto t(V3 a, V2 b) { return nytl::distance(a, b); }
//@end
//@pass vec_angle well-formed: the same with matching operands
auto t(V3 a, V3 b) { return nytl::angle(a, b); }
//@end
//@fail vec_angle_bad angle of vectors of different dimension
auto t(V3 a, V2 b) { return nytl::angle(a, b); }
//@end
//@pass cross4 well-formed: the same with matching operands
auto t(V3 a, V3 b) { return nytl::cross(a, b); }
//@end
//@fail cross4_bad three-dimensional cross product of other vectors
auto t(V4 a, V4 b) { return nytl::cross(a, b); }
//@end
//@pass cross_mixed well-formed: the same with matching operands
auto t(V2 a, V2 b) { return nytl::cross(a, b); }
//@end
//@fail cross_mixed_bad cross product of vectors of different dimension
auto t(V2 a, V3 b) { return nytl::cross(a, b); }
//@end
//@pass cw_multiply well-formed: the same with matching operands
auto t(V3 a, V3 b) { return nytl::vec::cw::multiply(a, b); }
//@end
//@fail cw_multiply_bad component-wise product of vectors of different dimension
auto t(V3 a, V2 b) { return nytl::vec::cw::multiply(a, b); }
//@end
//@pass cw_max well-formed: the same with matching operands
auto t(V3 a, V3 b) { return nytl::vec::cw::max(a, b); }
//@end
//@fail cw_max_bad component-wise maximum of vectors of different dimension
auto t(V3 a, V2 b) { return nytl::vec::cw::max(a, b); }
//@end
//@pass vec_assign well-formed: the same with matching operands
void t(V3& a, V3 b) { a = b; }
//@end
//@fail vec_assign_bad a vector of another dimension is assigned
void t(V3& a, V2 b) { a = b; }
//@end
//@pass vec_implicit well-formed: the same with matching operands
void f(V3); void t(V3 a) { f(a); }
//@end
//@fail vec_implicit_bad a vector is converted to another dimension implicitly
void f(V3); void t(V4 a) { f(a); }
//@end
//@pass vec_surplus well-formed: the same with matching operands
V3 v {1, 2, 3};
//@end
//@fail vec_surplus_bad a vector is given more components than it has
V3 v {1, 2, 3, 4};
//@end
//@pass mat_inner well-formed: the same with matching operands
auto t(M23 a, M3 b) { return a * b; }
//@end
//@fail mat_inner_bad matrices whose inner dimensions differ are multiplied
auto t(M3 a, M23 b) { return a * b; }
//@end
//@pass mat_vec well-formed: the same with matching operands
auto t(M23 a, V3 b) { return a * b; }
//@end
//@fail mat_vec_bad a matrix is multiplied with a vector of the wrong dimension
auto t(M23 a, V2 b) { return a * b; }
//@end
//@pass mat_add well-formed: the same with matching operands
auto t(M3 a, M3 b) { return a + b; }
//@end
//@fail mat_add_bad matrices of different size are added
auto t(M3 a, M23 b) { return a + b; }
//@end
//@pass mat_sub well-formed: the same with matching operands
auto t(M3 a, M3 b) { return a - b; }
//@end
//@fail mat_sub_bad matrices of different size are subtracted
auto t(M3 a, M4 b) { return a - b; }
//@end
//@pass mat_mul_assign well-formed: the same with matching operands
void t(M3& a, M3 b) { a *= b; }
//@end
//@fail mat_mul_assign_bad a matrix is multiplied in place with one that changes its size
void t(M3& a, M4 b) { a *= b; }
//@end
//@pass mat_assign well-formed: the same with matching operands
void t(M3& a, M3 b) { a = b; }
//@end
//@fail mat_assign_bad a matrix of another size is assigned
void t(M3& a, M23 b) { a = b; }
//@end
//@pass det well-formed: the same with matching operands
auto t(M3 a) { return nytl::determinant(a); }
//@end
//@fail det_bad determinant of a matrix that is not square
auto t(M23 a) { return nytl::determinant(a); }
//@end
//@pass inverse well-formed: the same with matching operands
auto t(M3 a) { return nytl::inverse(a); }
//@end
//@fail inverse_bad inverse of a matrix that is not square
auto t(M23 a) { return nytl::inverse(a); }
//@end
//@pass trace well-formed: the same with matching operands
auto t(M3 a) { return nytl::trace(a); }
//@end
//@fail trace_bad trace of a matrix that is not square
auto t(M23 a) { return nytl::trace(a); }
//@end
//@pass lu well-formed: the same with matching operands
auto t(M3 a) { return nytl::luDecomp(a); }
//@end
//@fail lu_bad decomposition of a matrix that is not square
auto t(M23 a) { return nytl::luDecomp(a); }
//@end
//@pass set_col well-formed: the same with matching operands
void t(M23& a, V2 b) { nytl::col(a, 0, b); }
//@end
//@fail set_col_bad a column of the wrong length is set
void t(M23& a, V3 b) { nytl::col(a, 0, b); }
//@end
//@pass expand well-formed: the same with matching operands
auto t(M3 a) { return nytl::expandIdentity<4, double>(a); }
//@end
//@fail expand_bad a matrix is expanded to a smaller one
auto t(M3 a) { return nytl::expandIdentity<2, double>(a); }
//@end
//@pass scale well-formed: the same with matching operands
auto t(V3 a) { return nytl::scaleMat<3, double>(a); }
//@end
//@fail scale_bad a scaling with more factors than the matrix has rows
auto t(V3 a) { return nytl::scaleMat<2, double>(a); }
//@end
//@pass translate well-formed: the same with matching operands
auto t(V3 a) { return nytl::translateMat<4, double>(a); }
//@end
//@fail translate_bad a translation with more components than the matrix has rows
auto t(V4 a) { return nytl::translateMat<3, double>(a); }
//@end
//@pass flip well-formed: the same with matching operands
void t(M3 a) { nytl::flipAxis<2>(a); }
//@end
//@fail flip_bad an axis the matrix does not have is flipped
void t(M3 a) { nytl::flipAxis<3>(a); }
//@end
//@pass flipped well-formed: the same with matching operands
auto t(M4 a) { return nytl::flippedAxis<3>(a); }
//@end
//@fail flipped_bad an axis the matrix does not have is flipped in a copy
auto t(M4 a) { return nytl::flippedAxis<4>(a); }
//@end
//@pass look well-formed: the same with matching operands
auto t(V3 a) { return nytl::lookAt<3, double>(a, a); }
//@end
//@fail look_bad a view matrix with two dimensions
auto t(V3 a) { return nytl::lookAt<2, double>(a, a); }
//@end
//@pass quat_mat well-formed: the same with matching operands
auto t(nytl::Quaternion a) { return nytl::toMat<3>(a); }
//@end
//@fail quat_mat_bad a rotation matrix of a quaternion with two dimensions
auto t(nytl::Quaternion a) { return nytl::toMat<2>(a); }
//@end
//@pass simplex well-formed: the same with matching operands
nytl::Simplex<2, double, 2> s;
//@end
//@fail simplex_bad a triangle in one dimension
nytl::Simplex<1, double, 2> s;
//@end
//@pass rect_contains well-formed: the same with matching operands
auto t(R2 a, V2 b) { return nytl::contains(a, b); }
//@end
//@fail rect_contains_bad a point of another dimension is looked up in a rect
auto t(R2 a, V3 b) { return nytl::contains(a, b); }
//@end
//@pass rect_intersects well-formed: the same with matching operands
auto t(R2 a, R2 b) { return nytl::intersects(a, b); }
//@end
//@fail rect_intersects_bad rects of different dimension are intersected
auto t(R2 a, R3 b) { return nytl::intersects(a, b); }
//@end
//@pass rect_intersection well-formed: the same with matching operands
auto t(R2 a, R2 b) { return nytl::intersection(a, b); }
//@end
//@fail rect_intersection_bad the common area of rects of different dimension
auto t(R2 a, R3 b) { return nytl::intersection(a, b); }
//@end
//@pass rect_difference well-formed: the same with matching operands
auto t(R2 a, R2 b) { return nytl::difference(a, b); }
//@end
//@fail rect_difference_bad the difference of rects of different dimension
auto t(R3 a, R2 b) { return nytl::difference(a, b); }
//@end
//@pass rect_assign well-formed: the same with matching operands
void t(R2& a, R2 b) { a = b; }
//@end
//@fail rect_assign_bad a rect of another dimension is assigned
void t(R2& a, R3 b) { a = b; }
//@end
//@pass approx_int well-formed: the same with matching operands
auto t(double a) { return nytl::approx(a); }
//@end
//@fail approx_int_bad approximate comparison of integers
auto t(int a) { return a == nytl::approx(a); }
//@end
//@pass guard_never well-formed: the same with matching operands
nytl::ScopeGuard<F, false, true>* g; void t(F& f) { nytl::ScopeGuard<F, false, true> g(std::move(f)); }
//@end
//@fail guard_never_bad a guard that never runs
void t(F& f) { nytl::ScopeGuard<F, false, false> g(std::move(f)); }
//@end
//@pass span_extent well-formed: the same with matching operands
void t(nytl::Span<int, 3> a) { nytl::Span<int, 3> b(a); }
//@end
//@fail span_extent_bad a fixed-size span of one of another size
void t(nytl::Span<int, 2> a) { nytl::Span<int, 3> b(a); }
//@end
//@pass flags_enum well-formed: the same with matching operands
auto t(nytl::Flags<E> a, E b) { return a | b; }
//@end
//@fail flags_enum_bad flags of different enumerations are combined
auto t(nytl::Flags<E> a, G b) { return a | b; }
//@end
//@pass flags_int well-formed: the same with matching operands
nytl::Flags<E> f(E::a);
//@end
//@fail flags_int_bad flags are made from a number
void f(nytl::Flags<E>); void t() { f(1); }
//@end
