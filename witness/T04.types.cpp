// sa: min=12
#include <nytl/nonCopyable.hpp>
#include <type_traits>
#include <utility>
struct A : nytl::NonCopyable { int v {}; };
struct B : nytl::NonMovable { int v {}; };
struct A2 : A { A2() = default; };
struct Member { A a; };
struct MemberB { B b; };
template<typename T> constexpr bool copies = std::is_copy_constructible_v<T> || std::is_copy_assignable_v<T>;
template<typename T> constexpr bool moves = std::is_move_constructible_v<T> || std::is_move_assignable_v<T>;
static_assert(!copies<A> && !copies<B> && !copies<A2> && !copies<Member> && !copies<MemberB>);
static_assert(!std::is_constructible_v<A, const A> && !std::is_constructible_v<B, const B>);
static_assert(!std::is_assignable_v<A&, A&> && !std::is_assignable_v<B&, B&>);
static_assert(!moves<B> && !moves<MemberB>);
static_assert(std::is_nothrow_move_constructible_v<A> && std::is_nothrow_move_assignable_v<A>);
static_assert(std::is_nothrow_move_constructible_v<A2> && std::is_nothrow_move_assignable_v<Member>);
static_assert(std::is_nothrow_default_constructible_v<A> && std::is_nothrow_default_constructible_v<B>);
static_assert(!std::is_constructible_v<nytl::NonCopyable> && !std::is_constructible_v<nytl::NonMovable>);
static_assert(sizeof(A) == sizeof(int) && sizeof(B) == sizeof(int));
//@fail copy_construct a NonCopyable object is copied
A a; A b(a);
//@end
//@fail copy_assign a NonCopyable object is assigned
void t(A& a, const A& b) { a = b; }
//@end
//@fail move_construct a NonMovable object is moved
B a; B b(std::move(a));
//@end
//@fail move_assign a NonMovable object is move assigned
void t(B& a, B& b) { a = std::move(b); }
//@end
//@fail pass_by_value a NonCopyable lvalue is passed by value
void f(A); void t(A& a) { f(a); }
//@end
//@fail upcast_copy copying through the base
void t(A& a) { nytl::NonCopyable n(a); }
//@end
