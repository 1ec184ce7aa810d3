// sa: min=30
#include <nytl/bytes.hpp>
#include <nytl/vec.hpp>
#include <nytl/vec3.hpp>
#include <string>
#include <string_view>
#include <memory>
#include <array>
#include <map>

template<typename T, typename = void> struct BytesOf { using type = void; };
template<typename T> struct BytesOf<T, std::void_t<decltype(nytl::bytes(std::declval<T>()))>> {
	using type = decltype(nytl::bytes(std::declval<T>())); };
template<typename T> constexpr bool readable = std::is_same_v<typename BytesOf<T>::type, nytl::ReadBuf>;
template<typename T> constexpr bool writable = std::is_same_v<typename BytesOf<T>::type, nytl::WriteBuf>;
template<typename T> constexpr bool none = std::is_void_v<typename BytesOf<T>::type>;

struct Pod { int a; float b; };
struct Virtual { virtual ~Virtual() = default; int a; };
struct Owner { std::unique_ptr<int> p; };
struct Copied { Copied(const Copied&) {} int a; };
class Mixed { public: int a; private: int b; };
enum class E { a };
struct Secret { int key; };
namespace nytl { template<> struct ProhibitByteConversion<Secret> : std::true_type {}; }

// plain values: const gives a readable, non-const a writable range
static_assert(readable<const int&> && writable<int&>);
static_assert(readable<const double&> && writable<double&>);
static_assert(readable<const Pod&> && writable<Pod&>);
static_assert(readable<const E&> && writable<E&>);
static_assert(readable<const nytl::Vec3f&> && writable<nytl::Vec3f&>);
static_assert(readable<const std::array<int, 3>&> && writable<std::array<int, 3>&>);
static_assert(readable<const std::byte&> && writable<std::byte&>);
// ranges: the elements, never the handle
static_assert(writable<std::vector<int>&> && readable<const std::vector<int>&>);
static_assert(writable<nytl::span<int>&> && writable<nytl::span<int>> && writable<const nytl::span<int>&>);
static_assert(readable<nytl::span<const int>&> && readable<nytl::span<const int>> && readable<const nytl::span<const int>&>);
static_assert(writable<nytl::span<int, 3>&> && writable<nytl::span<int, 3>> && writable<const nytl::span<int, 3>&>);
static_assert(readable<nytl::span<const int, 3>&> && readable<nytl::span<const int, 3>>);
static_assert(readable<const std::initializer_list<int>&>);
// types whose bytes are not their value
static_assert(none<std::string&> && none<const std::string&>);
static_assert(none<Virtual&> && none<const Virtual&>);
static_assert(none<Owner&> && none<const Owner&>);
static_assert(none<Copied&> && none<const Copied&>);
static_assert(none<Mixed&> && none<const Mixed&>);
static_assert(none<Secret&>);
static_assert(none<std::vector<std::string>&> && none<const std::vector<std::string>&>);
static_assert(none<std::vector<Virtual>&> && none<std::vector<Secret>&>);
static_assert(none<nytl::span<std::string>> && none<nytl::span<Owner>>);
static_assert(none<nytl::span<std::string, 2>> && none<nytl::span<const Mixed, 2>>);
static_assert(none<std::map<int, int>&>);
// buffers
static_assert(std::is_same_v<nytl::ReadBuf::element_type, const std::byte>);
static_assert(std::is_same_v<nytl::WriteBuf::element_type, std::byte>);
static_assert(std::is_convertible_v<nytl::WriteBuf, nytl::ReadBuf> && !std::is_convertible_v<nytl::ReadBuf, nytl::WriteBuf>);
static_assert(std::is_convertible_v<nytl::DynWriteBuf&, nytl::WriteBuf>);
static_assert(std::is_convertible_v<const nytl::DynWriteBuf&, nytl::ReadBuf>);
static_assert(!std::is_convertible_v<const nytl::DynWriteBuf&, nytl::WriteBuf>);

template<typename T, typename = void> constexpr bool canRead = false;
template<typename T> constexpr bool canRead<T, std::void_t<decltype(nytl::read<T>(std::declval<nytl::ReadBuf&>()))>> = true;
template<typename T, typename = void> constexpr bool canCopy = false;
template<typename T> constexpr bool canCopy<T, std::void_t<decltype(nytl::copy<T>(std::declval<nytl::ReadBuf>()))>> = true;
template<typename T, typename = void> constexpr bool canExact = false;
template<typename T> constexpr bool canExact<T, std::void_t<decltype(nytl::copyExact<T>(std::declval<nytl::ReadBuf>()))>> = true;
template<typename T> constexpr bool all = canRead<T> && canCopy<T> && canExact<T>;
template<typename T> constexpr bool any = canRead<T> || canCopy<T> || canExact<T>;
static_assert(all<int> && all<Pod> && all<nytl::Vec3f> && all<E>);
static_assert(!any<std::string> && !any<Virtual> && !any<Owner> && !any<Copied> && !any<Mixed> && !any<Secret>);
static_assert(!any<nytl::span<int>> && !any<nytl::span<int, 3>> && !any<std::initializer_list<int>> && !any<std::vector<int>>);

void ok(nytl::WriteBuf w, nytl::DynWriteBuf d, nytl::ReadBuf r, std::vector<int> v, Pod p) {
	nytl::write(w, 1); nytl::write(w, p); nytl::write(w, v); nytl::write<unsigned>(w, v.size());
	nytl::write(d, 1); nytl::write(d, p); nytl::write(d, v); nytl::write(d, nytl::span<const int>(v));
	nytl::read(r, p); nytl::read(r, v);
}
//@fail write_string a string is written as its bytes
void t(nytl::WriteBuf& w, std::string s) { nytl::write(w, s); }
//@end
//@fail write_owner an owning handle is written as its bytes
void t(nytl::DynWriteBuf& w, Owner s) { nytl::write(w, s); }
//@end
//@fail read_const a constant is overwritten
void t(nytl::ReadBuf& r, const int& i) { nytl::read(r, i); }
//@end
//@fail read_string a string is read as its bytes
void t(nytl::ReadBuf& r, std::string& s) { nytl::read(r, s); }
//@end
//@fail write_secret a prohibited type is written
void t(nytl::WriteBuf& w, Secret s) { nytl::write(w, s); }
//@end
//@fail write_into_read a read-only buffer is written
void t(nytl::ReadBuf& w) { nytl::write(w, 1); }
//@end
//@fail bytes_const_secret the bytes of a prohibited constant
void t(const Secret& s) { nytl::bytes(s); }
//@end
//@fail bytes_span_secret the bytes of a view of prohibited constants
void t(nytl::span<const Secret> s) { nytl::bytes(s); }
//@end
//@fail bytes_init_string the bytes of a list of strings
void t(const std::initializer_list<std::string>& s) { nytl::bytes(s); }
//@end
