// sa: min=25
#include "sa.hpp"
#include <nytl/clone.hpp>

static int copies, moves, destroyed;
struct Count {
	Count() = default;
	Count(const Count&) { ++copies; }
	Count(Count&& o) noexcept { ++moves; o.from = true; }
	~Count() { ++destroyed; }
	bool from {};
};
static void reset() { copies = moves = destroyed = 0; }

// --- shapes of hierarchies
struct Base : nytl::AbstractCloneable<Base> { double b {}; virtual int kind() const = 0; };
struct Leaf : nytl::DeriveCloneable<Leaf, Base> { int value {}; Count count; int kind() const override { return 1; } };
struct Other : nytl::DeriveCloneable<Other, Base> { double x {}; Count count; int kind() const override { return 2; } };
struct Concrete : nytl::Cloneable<Concrete> { int v {}; Count own; virtual int kind() const { return 3; } };
struct Below : nytl::DeriveCloneable<Below, Concrete> { int w {}; Count count; int kind() const override { return 4; } };
struct Below2 : nytl::DeriveCloneable<Below2, Below> { int u {}; int kind() const override { return 5; } };
struct Second : nytl::AbstractCloneable<Second> { double s {}; virtual int second() const = 0; };
struct Both : nytl::DeriveCloneable<Both, Base, Second> {
	int value {}; Count count; int kind() const override { return 6; } int second() const override { return 7; } };
struct Pad { virtual ~Pad() = default; double pad[3] {}; };
struct Behind : Pad, nytl::DeriveCloneable<Behind, Base> { int value {}; int kind() const override { return 8; } };
// overrides of the documented protocol: a class that wraps the base by hand
struct WithCtor : nytl::Cloneable<WithCtor> { WithCtor(int i) : v(i) {} virtual int kind() const { return 9; } int v; };
struct WithCtor2 : nytl::DeriveCloneable<WithCtor2, WithCtor> {
	using nytl::DeriveCloneable<WithCtor2, WithCtor>::DeriveCloneable; int kind() const override { return 10; } };

OB(through_base) {
	reset();
	Leaf l; l.value = sa_int("value"); l.b = sa_real("b");
	const Base& b = l;
	auto live = sa_live_heap();
	{
		auto c = nytl::clone(b);
		static_assert(std::is_same_v<decltype(c), std::unique_ptr<Base>>);
		sa_expect(c != nullptr && c.get() != &b, "a new object");
		sa_eq(c->kind(), 1, "of the actual type");
		sa_eq(static_cast<Leaf&>(*c).value, l.value, "copied value"); sa_eq(c->b, l.b, "copied value of the base");
		sa_eq(copies, 1, "copied once"); sa_eq(moves, 0, "not moved");
		static_cast<Leaf&>(*c).value = l.value + 1;
		sa_eq(l.value, sa_int("value"), "the original is independent of the copy");
		sa_eq(sa_live_heap(), live + 1, "one object is allocated");
		sa_eq(destroyed, 0, "nothing is destroyed early");
	}
	sa_eq(destroyed, 1, "the copy is destroyed as its actual type"); sa_eq(sa_live_heap(), live, "and released");
}
OB(other_type) {
	reset();
	Other o; o.x = sa_real("x");
	const Base& b = o;
	auto c = nytl::clone(b);
	sa_eq(c->kind(), 2, "of the actual type"); sa_eq(static_cast<Other&>(*c).x, o.x, "copied value");
}
OB(concrete_base) {
	reset();
	Concrete o; o.v = sa_int("v");
	auto c = nytl::clone(o);
	sa_eq(c->kind(), 3, "of the actual type"); sa_eq(c->v, o.v, "copied value");
	sa_eq(copies, 1, "copied once"); sa_eq(moves, 0, "not moved"); sa_expect(!o.own.from, "the original is not moved from");
	reset();
	Below d; d.v = sa_int("v2"); d.w = sa_int("w");
	const Concrete& b = d;
	auto e = nytl::clone(b);
	sa_eq(e->kind(), 4, "of the actual type"); sa_eq(e->v, d.v, "copied value"); sa_eq(static_cast<Below&>(*e).w, d.w, "copied value");
	sa_eq(copies, 2, "every member is copied once"); sa_eq(moves, 0, "not moved");
}
OB(multi_level) {
	reset();
	Below2 d; d.v = sa_int("v2"); d.w = sa_int("w"); d.u = sa_int("u");
	const Concrete& b = d;
	auto e = nytl::clone(b);
	sa_eq(e->kind(), 5, "of the actual type"); sa_eq(static_cast<Below2&>(*e).u, d.u, "copied value");
	const Below& m = d;
	sa_eq(copies, 2, "every member is copied once"); sa_eq(moves, 0, "not moved");
	auto f = nytl::clone(m);
	sa_eq(f->kind(), 5, "through an intermediate class"); sa_eq(static_cast<Below2&>(*f).u, d.u, "copied value");
}
OB(second_base) {
	reset();
	Both d; d.value = sa_int("v"); d.b = sa_real("b"); d.s = sa_real("s");
	{
		const Base& b = d;
		auto c = nytl::clone(b);
		sa_eq(c->kind(), 6, "through the first base"); sa_eq(static_cast<Both&>(*c).value, d.value, "copied value");
		sa_eq(c->b, d.b, "copied value of the base");
	}
	sa_eq(destroyed, 1, "destroyed");
	{
		const Second& s = d;
		auto c = nytl::clone(s);
		sa_eq(c->second(), 7, "through the second base"); sa_eq(static_cast<Both&>(*c).value, d.value, "copied value");
		sa_eq(c->s, d.s, "copied value of the base"); sa_eq(static_cast<Both&>(*c).b, d.b, "copied value of the other base");
		sa_eq(copies, 2, "each copied once"); sa_eq(moves, 0, "not moved");
	}
	sa_eq(destroyed, 2, "destroyed"); sa_eq(sa_live_heap(), 0L, "and released");
}
OB(behind_unrelated_base) {
	Behind d; d.value = sa_int("v"); d.b = sa_real("b");
	{
		const Base& b = d;
		auto c = nytl::clone(b);
		sa_eq(c->kind(), 8, "through the base"); sa_eq(static_cast<Behind&>(*c).value, d.value, "copied value");
		sa_eq(c->b, d.b, "copied value of the base");
	}
	sa_eq(sa_live_heap(), 0L, "released");
}
OB(of_a_temporary_type) {
	WithCtor2 d {sa_int("v")};
	const WithCtor& b = d;
	auto c = nytl::clone(b);
	sa_eq(c->kind(), 10, "of the actual type"); sa_eq(c->v, d.v, "copied value");
}
OB(copy_of_copy) {
	reset();
	Leaf l; l.value = sa_int("value");
	const Base& b = l;
	auto c = nytl::clone(b);
	auto d = nytl::clone(*c);
	sa_eq(copies, 2, "each copied once"); sa_eq(moves, 0, "not moved");
	c.reset();
	sa_eq(d->kind(), 1, "of the actual type"); sa_eq(static_cast<Leaf&>(*d).value, l.value, "copied value");
}
// recovering the type of the copy
OB(downcast) {
	Both d; d.value = sa_int("v");
	const Second& s = d;
	auto c = nytl::clone(s);
	auto both = dynamic_cast<Both*>(c.get());
	sa_expect(both != nullptr, "the copy is a complete object of the actual type");
	sa_eq(both->value, d.value, "copied value");
	sa_same(static_cast<Second*>(both), c.get(), "the pointer refers to its base");
	auto base = dynamic_cast<Base*>(c.get());
	sa_same(static_cast<Base*>(both), base, "and its other base is reachable");
}
// a copy that fails leaves nothing behind
struct Throws : nytl::DeriveCloneable<Throws, Base> {
	Throws() = default; Throws(const Throws& o) : nytl::DeriveCloneable<Throws, Base>(o) { throw 1; }
	Throws(Throws&&) = default; int kind() const override { return 11; } };
OB(copy_fails) {
	Throws t; const Base& b = t;
	bool thrown = false;
	try { auto c = nytl::clone(b); } catch(int) { thrown = true; }
	sa_expect(thrown, "the exception of the copy propagates"); sa_eq(sa_live_heap(), 0L, "nothing is leaked");
}
