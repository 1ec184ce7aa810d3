// sa: min=25
#include "sa.hpp"
#include <nytl/clone.hpp>

static int copies, moves, destroyed;
struct Count {
	Count() = default;
	Count(const Count&) { ++copies; }
	Count(Count&& o) noexcept { ++moves; o.from = true; }
	~Count() { ++destroyed; }
	bool from {};
};
static void reset() { copies = moves = destroyed = 0; }

// --- shapes of hierarchies
struct Base : nytl::AbstractCloneable<Base> { double b {}; virtual int kind() const = 0; };
struct Leaf : nytl::DeriveCloneable<Leaf, Base> { int value {}; Count count; int kind() const override { return 1; } };
struct Other : nytl::DeriveCloneable<Other, Base> { double x {}; Count count; int kind() const override { return 2; } };
struct Concrete : nytl::Cloneable<Concrete> { int v {}; Count own; virtual int kind() const { return 3; } };
struct Below : nytl::DeriveCloneable<Below, Concrete> { int w {}; Count count; int kind() const override { return 4; } };
struct Below2 : nytl::DeriveCloneable<Below2, Below> { int u {}; int kind() const override { return 5; } };
struct Second : nytl::AbstractCloneable<Second> { double s {}; virtual int second() const = 0; };
struct Both : nytl::DeriveCloneable<Both, Base, Second> {
	int value {}; Count count; int kind() const override { return 6; } int second() const override { return 7; } };
struct Pad { virtual ~Pad() = default; double pad[3] {}; };
struct Behind : Pad, nytl::DeriveCloneable<Behind, Base> { int value {}; int kind() const override { return 8; } };
// overrides of the documented protocol: a class that wraps the base by hand
struct WithCtor : nytl::Cloneable<WithCtor> { WithCtor(int i) : v(i) {} virtual int kind() const { return 9; } int v; };
struct WithCtor2 : nytl::DeriveCloneable<WithCtor2, WithCtor> {
	using nytl::DeriveCloneable<WithCtor2, WithCtor>::DeriveCloneable; int kind() const override { return 10; } };

struct MoveBase : nytl::AbstractCloneMovable<MoveBase> { double b {}; virtual int kind() const = 0; };
struct MoveOnly {
	MoveOnly() = default; MoveOnly(MoveOnly&& o) noexcept : v(o.v) { o.v = -1; }
	int v {}; };
struct MoveLeaf : nytl::DeriveCloneMovable<MoveLeaf, MoveBase> { MoveOnly value; Count count; int kind() const override { return 20; } };
struct MoveSecond : nytl::AbstractCloneMovable<MoveSecond> { double s {}; virtual int second() const = 0; };
struct MoveBoth : nytl::DeriveCloneMovable<MoveBoth, MoveBase, MoveSecond> {
	MoveOnly value; Count count; int kind() const override { return 21; } int second() const override { return 22; } };
struct MoveConcrete : nytl::CloneMovable<MoveConcrete> { MoveOnly value; Count own; virtual int kind() const { return 23; } };
struct MoveBelow : nytl::DeriveCloneMovable<MoveBelow, MoveConcrete> { MoveOnly more; int kind() const override { return 24; } };

OB(through_base) {
	reset();
	MoveLeaf l; l.value.v = sa_int("value"); l.b = sa_real("b");
	MoveBase& b = l;
	auto live = sa_live_heap();
	{
		auto c = nytl::cloneMove(b);
		static_assert(std::is_same_v<decltype(c), std::unique_ptr<MoveBase>>);
		sa_expect(c.get() != &b, "a new object"); sa_eq(c->kind(), 20, "of the actual type");
		sa_eq(static_cast<MoveLeaf&>(*c).value.v, sa_int("value"), "moved value"); sa_eq(c->b, sa_real("b"), "value of the base");
		sa_eq(l.value.v, -1, "the original was moved from"); sa_expect(l.count.from, "the original was moved from");
		sa_eq(moves, 1, "moved once"); sa_eq(copies, 0, "not copied");
		sa_eq(sa_live_heap(), live + 1, "one object is allocated"); sa_eq(destroyed, 0, "nothing is destroyed early");
	}
	sa_eq(destroyed, 1, "the copy is destroyed as its actual type"); sa_eq(sa_live_heap(), live, "and released");
}
OB(second_base) {
	reset();
	MoveBoth d; d.value.v = sa_int("v"); d.s = sa_real("s"); d.b = sa_real("b");
	{
		MoveSecond& s = d;
		auto c = nytl::cloneMove(s);
		sa_eq(c->second(), 22, "through the second base"); sa_eq(static_cast<MoveBoth&>(*c).value.v, sa_int("v"), "moved value");
		sa_eq(c->s, d.s, "value of the base"); sa_eq(moves, 1, "moved once");
		MoveBase& b = static_cast<MoveBoth&>(*c);
		auto e = nytl::cloneMove(b);
		sa_eq(e->kind(), 21, "through the first base"); sa_eq(static_cast<MoveBoth&>(*e).value.v, sa_int("v"), "moved value");
		sa_eq(e->b, d.b, "value of the base");
	}
	sa_eq(destroyed, 2, "destroyed"); sa_eq(sa_live_heap(), 0L, "and released");
}
OB(concrete_base) {
	reset();
	MoveConcrete o; o.value.v = sa_int("v");
	auto c = nytl::cloneMove(o);
	sa_eq(c->kind(), 23, "of the actual type"); sa_eq(c->value.v, sa_int("v"), "moved value"); sa_eq(o.value.v, -1, "moved from");
	sa_eq(moves, 1, "moved once"); sa_eq(copies, 0, "not copied");
	MoveBelow d; d.value.v = sa_int("v2"); d.more.v = sa_int("w");
	MoveConcrete& b = d;
	auto e = nytl::cloneMove(b);
	sa_eq(e->kind(), 24, "of the actual type"); sa_eq(e->value.v, sa_int("v2"), "moved value");
	sa_eq(static_cast<MoveBelow&>(*e).more.v, sa_int("w"), "moved value"); sa_eq(d.more.v, -1, "moved from");
}
// cloneable types are clone-movable, too
OB(cloneable_leaf) {
	reset();
	Leaf l; l.value = sa_int("value");
	Base& b = l;
	auto c = nytl::cloneMove(b);
	sa_eq(c->kind(), 1, "of the actual type"); sa_eq(static_cast<Leaf&>(*c).value, sa_int("value"), "moved value");
	sa_eq(moves, 1, "moved once"); sa_eq(copies, 0, "not copied");
}
OB(cloneable_concrete) {
	reset();
	Below d; d.v = sa_int("v2"); d.w = sa_int("w");
	Concrete& b = d;
	auto e = nytl::cloneMove(b);
	sa_eq(e->kind(), 4, "of the actual type"); sa_eq(e->v, d.v, "value"); sa_eq(static_cast<Below&>(*e).w, d.w, "value");
	sa_eq(moves, 2, "every member is moved once"); sa_eq(copies, 0, "not copied");
	Concrete o; o.v = sa_int("v");
	auto c = nytl::cloneMove(o);
	sa_eq(c->kind(), 3, "of the actual type"); sa_eq(c->v, o.v, "value");
	sa_eq(moves, 3, "moved once"); sa_eq(copies, 0, "not copied"); sa_expect(o.own.from, "the original was moved from");
}
OB(cloneable_second_base) {
	reset();
	Both d; d.value = sa_int("v"); d.s = sa_real("s");
	{
		Second& s = d;
		auto c = nytl::cloneMove(s);
		sa_eq(c->second(), 7, "through the second base"); sa_eq(static_cast<Both&>(*c).value, d.value, "value");
		sa_eq(moves, 1, "moved once"); sa_eq(copies, 0, "not copied");
	}
	sa_eq(destroyed, 1, "destroyed"); sa_eq(sa_live_heap(), 0L, "and released");
}
OB(behind_unrelated_base) {
	Behind d; d.value = sa_int("v"); d.b = sa_real("b");
	{
		Base& b = d;
		auto c = nytl::cloneMove(b);
		sa_eq(c->kind(), 8, "through the base"); sa_eq(static_cast<Behind&>(*c).value, d.value, "value"); sa_eq(c->b, d.b, "value of the base");
	}
	sa_eq(sa_live_heap(), 0L, "released");
}
