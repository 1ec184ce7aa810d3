// sa: min=40
#include <nytl/span.hpp>
#include <vector>
#include <string>
#include <array>
#include <list>
#include <type_traits>

using nytl::span;
template<typename F, typename T> constexpr bool conv = std::is_convertible_v<F, T>;
template<typename T, typename... A> constexpr bool constr = std::is_constructible_v<T, A...>;
struct Base { int a; };
struct Derived : Base { int b; };

// constness is never cast away
static_assert(conv<span<int>, span<const int>> && !conv<span<const int>, span<int>> && !constr<span<int>, span<const int>>);
static_assert(conv<span<int, 3>, span<const int, 3>> && !constr<span<int, 3>, span<const int, 3>>);
static_assert(conv<std::vector<int>&, span<int>> && conv<std::vector<int>&, span<const int>>);
static_assert(conv<const std::vector<int>&, span<const int>> && !constr<span<int>, const std::vector<int>&>);
static_assert(conv<std::array<int, 3>&, span<int>> && conv<std::array<int, 3>&, span<const int>>);
static_assert(conv<const std::array<int, 3>&, span<const int>>);
static_assert(!constr<span<int>, const std::array<const int, 3>&>);
static_assert(conv<int (&)[3], span<int>> && conv<int (&)[3], span<const int>>);
static_assert(!constr<span<int>, const int (&)[3]>);
static_assert(conv<const std::string&, span<const char>> && !constr<span<char>, const std::string&>);
static_assert(conv<std::string&, span<char>>);
static_assert(!constr<span<int>, const int*, std::size_t> && constr<span<int>, int*, std::size_t>);
static_assert(constr<span<const int>, int*, std::size_t>);
static_assert(!constr<span<int>, const int*, const int*>);
// elements are never reinterpreted
static_assert(!constr<span<Base>, span<Derived>> && !constr<span<const Base>, span<Derived>> && !constr<span<Derived>, span<Base>>);
static_assert(!constr<span<Base>, std::vector<Derived>&>);
static_assert(!constr<span<const Base>, const std::vector<Derived>&>);
static_assert(!constr<span<Base>, Derived (&)[2]>);
static_assert(!constr<span<long>, span<int>> && !constr<span<int>, span<unsigned>> && !constr<span<const double>, span<float>>);
static_assert(!constr<span<long>, std::vector<int>&> && !constr<span<const int>, const std::vector<char>&>);
static_assert(!constr<span<int*>, std::vector<int>&> && !constr<span<const int*>, span<int*>>);
// fixed sizes do not mix
static_assert(!constr<span<int, 3>, span<int, 4>> && !constr<span<int, 4>, span<int, 3>> && !constr<span<const int, 4>, span<int, 3>>);
static_assert(conv<span<int, 3>, span<int>>);
static_assert(constr<span<int, 3>, span<int>>);
static_assert(!conv<std::list<int>&, span<int>>);
static_assert(!constr<span<int>, int> && !constr<span<int>, std::size_t>);
// default construction exists only where an empty span does
static_assert(constr<span<int>> && !constr<span<int, 3>>);
// sub views keep the static size and the element type
template<typename T> using Dyn = decltype(std::declval<T>().subspan(1));
static_assert(std::is_same_v<decltype(std::declval<span<int>>().first<3>()), span<int, 3>>);
static_assert(std::is_same_v<decltype(std::declval<span<const int, 5>>().last<3>()), span<const int, 3>>);
static_assert(std::is_same_v<decltype(std::declval<span<int, 5>>().subspan<1>()), span<int, 4>>);
static_assert(std::is_same_v<decltype(std::declval<span<int, 5>>().subspan<1, 2>()), span<int, 2>>);
static_assert(std::is_same_v<decltype(std::declval<span<int>>().subspan<1>()), span<int>>);
static_assert(std::is_same_v<decltype(std::declval<span<int>>().subspan<1, 2>()), span<int, 2>>);
static_assert(std::is_same_v<Dyn<span<int, 5>>, span<int>>);
static_assert(std::is_same_v<decltype(std::declval<span<int, 5>>().first(2)), span<int>>);
static_assert(std::is_same_v<decltype(std::declval<const span<int>&>()[0]), int&>);
static_assert(std::is_same_v<decltype(std::declval<const span<const int>&>()[0]), const int&>);
static_assert(std::is_same_v<decltype(std::declval<span<int>&>().cbegin()), const int*>);
// byte views
static_assert(std::is_same_v<decltype(nytl::as_bytes(std::declval<span<int, 3>>())), span<const std::byte, 12>>);
static_assert(std::is_same_v<decltype(nytl::as_bytes(std::declval<span<int>>())), span<const std::byte>>);
static_assert(std::is_same_v<decltype(nytl::as_writeable_bytes(std::declval<span<int, 3>>())), span<std::byte, 12>>);
template<typename T, typename = void> constexpr bool wbytes = false;
template<typename T> constexpr bool wbytes<T, std::void_t<decltype(nytl::as_writeable_bytes(std::declval<T>()))>> = true;
static_assert(wbytes<span<int>> && !wbytes<span<const int>> && !wbytes<span<const int, 3>>);
// deduction
static_assert(std::is_same_v<decltype(span(std::declval<int (&)[3]>())), span<int, 3>>);
static_assert(std::is_same_v<decltype(span(std::declval<std::array<int, 3>&>())), span<int, 3>>);
static_assert(std::is_same_v<decltype(span(std::declval<const std::array<int, 3>&>())), span<const int, 3>>);
static_assert(std::is_same_v<decltype(span(std::declval<std::vector<int>&>())), span<int>>);
static_assert(std::is_same_v<decltype(span(std::declval<const std::vector<int>&>())), span<const int>>);
static_assert(std::is_same_v<decltype(nytl::make_span(std::declval<std::vector<int>&>())), span<int>>);
static_assert(std::is_same_v<decltype(nytl::make_span(std::declval<const std::vector<int>&>())), span<const int>>);
static_assert(std::is_same_v<decltype(nytl::make_span(std::declval<int (&)[3]>())), span<int, 3>>);
// copying is cheap and cannot fail
static_assert(std::is_trivially_copyable_v<span<int>> && std::is_trivially_copyable_v<span<int, 3>>);
static_assert(std::is_nothrow_copy_constructible_v<span<int>> && std::is_nothrow_copy_assignable_v<span<int>>);
// constant evaluation
constexpr int arr[5] = {1, 2, 3, 4, 5};
constexpr span<const int, 5> cs(arr);
static_assert(cs.size() == 5 && cs[2] == 3 && cs.front() == 1 && cs.back() == 5 && !cs.empty());
static_assert(cs.first<2>()[1] == 2 && cs.last<2>()[0] == 4 && cs.subspan<1, 2>()[1] == 3 && cs.subspan<3>().size() == 2);
static_assert(cs.first(2)[1] == 2 && cs.last(2)[0] == 4 && cs.subspan(1, 2)[1] == 3 && cs.subspan(3).size() == 2);
static_assert(span<const int>(cs).size_bytes() == 20);
//@fail too_small_array a fixed-size span of a smaller array
int t[2]; span<int, 3> s(t);
//@end
//@fail too_large_array a fixed-size span of a larger array
int t[4]; span<int, 3> s(t);
//@end
//@fail wrong_std_array a fixed-size span of an array of another size
std::array<int, 4> t; span<int, 3> s(t);
//@end
//@fail write_const assigning through a span of constants
void t(span<const int> s) { s[0] = 1; }
//@end
//@fail writeable_bytes_const writable bytes of constants
void t(span<const int> s) { nytl::as_writeable_bytes(s); }
//@end
//@fail const_array_const a mutable view of a constant array
void t(const std::array<int, 3>& a) { span<int> s(a); }
//@end
//@fail array_derived an array of derived objects viewed as bases
void t(std::array<Derived, 2>& a) { span<Base> s(a); }
//@end
//@fail array_derived_const an array of derived objects viewed as constant bases
void t(const std::array<Derived, 2>& a) { span<const Base> s(a); }
//@end
