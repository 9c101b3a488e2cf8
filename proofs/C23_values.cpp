// C23 optional, variant and any: every small state, one operation, every throwing point, against a model of what is stored.
// @sources: toolkit.cpp any.cpp self_counter.cpp shared_ptr.cpp TypeInfo.cpp string/string_stream.cpp string/string_view.cpp EnumToString.cpp
// @nocut: ^stingray::[A-Za-z]*StringBuilder
// @opt: fork_select=true
// @opt: max_steps=40000000
// @replace: stingray::Detail::any::AnyType::ToString => AnyTypeName
#include <vc.h>
#include <stingraykit/optional.h>
#include <stingraykit/variant.h>
#include <stingraykit/any.h>
#include <stdexcept>
using namespace stingray;

extern "C" __attribute__((used, noinline)) std::string vckeep__AnyTypeName(const Detail::any::AnyType*) { return std::string(); }	// only for the text of the exception
static int Live, ThrowAt;	// the constructor call that throws (counts down to 0), 0: none
struct Odd { };
static void MayThrow()
{
	if (ThrowAt && --ThrowAt == 0)
	{
		if (vc_pick(2)) throw Odd();
		throw std::runtime_error("x");
	}
}

struct P
{
	P* self; u32 value;
	explicit P(u32 v) : value(v) { MayThrow(); self = this; ++Live; }
	P(const P& o) : value(o.value) { ENSURES("a live object is copied", o.self == &o); MayThrow(); self = this; ++Live; }
	P(P&& o) : value(o.value) { ENSURES("a live object is moved", o.self == &o); o.value = 0; self = this; ++Live; }
	~P() { ENSURES("destroyed once", self == this); self = 0; --Live; }
	P& operator = (const P& o) { ENSURES("live objects are assigned", self == this && o.self == &o); MayThrow(); value = o.value; return *this; }
	P& operator = (P&& o) { ENSURES("live objects are assigned", self == this && o.self == &o); if (this != &o) { value = o.value; o.value = 0; } return *this; }
	bool operator == (const P& o) const { return value == o.value; }
	bool operator < (const P& o) const { return value < o.value; }
};
struct Q : public P { u32 more; explicit Q(u32 v) : P(v), more(v) { } };

static u32 Store(u32 tag) { const u32 v = ANY(u32); REQUIRES(v % 4 == tag && v); return v; }	// distinct non-zero values
static void Same(const optional<P>& o, u32 v)	// v == 0: nothing stored
{
	ENSURES("presence", o.is_initialized() == (v != 0) && (bool)o == (v != 0) && (o == null) == (v == 0));
	bool thrown = false;
	try { ENSURES("the value stored", (*o).value == v && o->value == v && o.get().value == v && o.get().self == &o.get()); } catch (const std::exception&) { thrown = true; }
	ENSURES("access to nothing is refused", thrown == (v == 0));
}

PROOF(C23_optional)
{
	Live = 0; ThrowAt = 0;
	{
		optional<P> a, b;
		u32 x = vc_pick(2), y = vc_pick(2);
		if (x) { x = Store(1); a.emplace(x); }
		if (y) { y = Store(2); b = P(y); }
		ENSURES("one object per value", Live == (x != 0) + (y != 0));
		u32 moved = 0; bool thrown = false; const u32 before = x, beforeY = y;
		const P z(Store(3));
		const u32 op = vc_pick(14);
		ThrowAt = vc_pick(3);
		try
		{
			switch (op)
			{
			case 0: a = b; x = y; break;
			case 1: a = std::move(b); x = y; y = y ? moved : 0; if (x) y = 0xFFFFFFFF; break;
			case 2: a = z; x = z.value; break;
			case 3: a = P(z); x = z.value; break;
			case 4: a = null; x = 0; break;
			case 5: a.reset(); x = 0; break;
			case 6: a.emplace(z.value); x = z.value; break;
			case 7: a.swap(b); std::swap(x, y); break;
			case 8: { optional<P>& same = a; a = same; break; }
			case 9: { optional<P>& same = a; a = std::move(same); break; }
			case 10: { optional<P> c(a); Same(c, x); break; }
			case 11: { optional<P> c(std::move(b)); Same(c, y); if (y) y = 0xFFFFFFFF; break; }
			case 12: { optional<P> c(z); Same(c, z.value); c = a; Same(c, x); break; }
			case 13: { const P& same = x ? *a : z; a = same; x = same.value; break; }
			}
		}
		catch (const Odd&) { thrown = true; }
		catch (const std::exception&) { thrown = true; }
		ThrowAt = 0;
		if (thrown)
		{
			ENSURES("a failed assignment leaves the old value or nothing", a.is_initialized() ? (before && a->value == before) : (!before || op == 6));
			x = a.is_initialized() ? before : 0;
			y = beforeY;
		}
		if (y == 0xFFFFFFFF) { ENSURES("a moved-from optional still holds an object", b.is_initialized()); y = 1; b = null; y = 0; }
		Same(a, x); Same(b, y);
		ENSURES("one object per value", Live == 1 + (x != 0) + (y != 0));
		ENSURES("equality", (a == b) == (x == y) && (a != b) == (x != y));
		ENSURES("order", (a < b) == (x ? y && x < y : y != 0));
		ENSURES("equality with a value", (a == z) == (x && x == z.value));
		COVER("done");
	}
	ENSURES("all objects destroyed", Live == 0);
}

static u32 Calls, Other;
static u32 Flip(u32 v) { ++Calls; return v ^ 1u; }
static optional<u32> Next(u32 v) { ++Calls; return (v & 8) ? optional<u32>(v + 1) : optional<u32>(); }
static optional<u32> Else() { ++Calls; return optional<u32>(Other); }

PROOF(C23_optional_functors)
{
	Live = 0; ThrowAt = 0;
	const u32 x = vc_pick(2) ? Store(1) : 0; Other = Store(3); Calls = 0;
	optional<u32> a; if (x) a = x;
	ENSURES("value or default", a.get_value_or(Other) == (x ? x : Other) && optional<u32>(a).get_value_or(Other) == (x ? x : Other));
	const optional<u32> t = a.transform(&Flip);
	ENSURES("transform", Calls == (x ? 1u : 0u) && t.is_initialized() == (x != 0) && (!x || *t == (x ^ 1u)));
	const optional<u32> n = a.and_then(&Next);
	ENSURES("and_then", Calls == (x ? 2u : 0u) && n.is_initialized() == (x && (x & 8)) && (!n || *n == x + 1));
	const optional<u32> o = a.or_else(&Else);
	ENSURES("or_else", Calls == (x ? 2u : 1u) && o.is_initialized() && *o == (x ? x : Other));
	COVER("done");
}

// the state of a variant: which alternative (0 empty, 1 P, 2 u32, 3 Q) and its value
struct M { u32 w, v; bool operator == (const M& o) const { return w == o.w && (w == 0 || v == o.v); } };
typedef variant<TypeList<EmptyType, P, u32, Q>> V;
typedef variant<TypeList<P, u32>> N;

template < typename X > static void SameIs(const X& x, size_t which, u32 w, const M& m)
{
	bool p = false, u = false;
	ENSURES("the alternative present", x.which() == which && x.template contains<u32>() == (m.w == 2) && x.template contains<P>() == (m.w == 1 || m.w == 3));
	try { ENSURES("the value stored", x.template get<P>().value == m.v && x.template get<P>().self == &x.template get<P>()); p = true; } catch (const bad_variant_get&) { }
	try { ENSURES("the value stored", x.template get<u32>() == m.v); u = true; } catch (const bad_variant_get&) { }
	ENSURES("another alternative is refused", p == (m.w == 1 || m.w == 3) && u == (m.w == 2));
	ENSURES("pointer access", (x.template get_ptr<u32>() != 0) == u && (x.template get_ptr<P>() != 0) == p);
}
struct Seen : static_visitor<u32>
{
	u32 operator () (const EmptyType&) const { return 0; }
	u32 operator () (const P& p) const { return p.value * 8 + 1; }
	u32 operator () (u32 v) const { return v * 8 + 2; }
	u32 operator () (const Q& q) const { ENSURES("the whole value", q.more == q.value); return q.value * 8 + 3; }
};
static void Same(const V& x, const M& m)
{
	SameIs(x, m.w, m.w, m);
	ENSURES("emptiness", x.empty() == (m.w == 0) && x.contains<Q>() == (m.w == 3) && (x.get_ptr<EmptyType>() != 0) == (m.w == 0));
	ENSURES("the visitor sees the value", x.ApplyVisitor(Seen()) == (m.w ? m.v * 8 + m.w : 0) && apply_visitor(Seen(), x) == (m.w ? m.v * 8 + m.w : 0));
	ENSURES("the type", x.type() == (m.w == 0 ? typeid(EmptyType) : m.w == 1 ? typeid(P) : m.w == 2 ? typeid(u32) : typeid(Q)));
}
static void Same(const N& x, const M& m) { SameIs(x, m.w - 1, m.w, m); ENSURES("never empty", !x.empty()); }
static int Objects(const M& m) { return m.w == 1 || m.w == 3; }

static M Fill(V& x, u32 tag)
{
	M m; m.w = vc_pick(4); m.v = m.w ? Store(tag) : 0;
	switch (m.w) { case 1: x = P(m.v); break; case 2: x = m.v; break; case 3: x.emplace<Q>(m.v); break; }
	return m;
}

PROOF(C23_variant)
{
	Live = 0; ThrowAt = 0;
	{
		V a, b;
		ENSURES("a new variant is empty", a.empty());
		M x = Fill(a, 1), y = Fill(b, 2);
		const M before = x, beforeY = y;
		ENSURES("one object per value", Live == Objects(x) + Objects(y));
		const P z(Store(3)); bool thrown = false, movedFrom = false;
		const u32 op = vc_pick(15);
		ThrowAt = vc_pick(3);
		try
		{
			switch (op)
			{
			case 0: a = b; x = y; break;
			case 1: a = std::move(b); x = y; movedFrom = true; break;
			case 2: a = z; x = M{1, z.value}; break;
			case 3: a = P(z); x = M{1, z.value}; break;
			case 4: a = EmptyType(); x = M{0, 0}; break;
			case 5: a = z.value; x = M{2, z.value}; break;
			case 6: a.emplace<P>(z.value); x = M{1, z.value}; break;
			case 7: a.emplace<Q>(z.value); x = M{3, z.value}; break;
			case 8: { V& same = a; a = same; break; }
			case 9: { V& same = a; a = std::move(same); break; }
			case 10: { V c(a); Same(c, x); break; }
			case 11: { V c(std::move(b)); Same(c, y); movedFrom = true; break; }
			case 12: { V c(z); Same(c, M{1, z.value}); c = a; Same(c, x); break; }
			case 13: { const P& same = x.w == 1 ? a.get<P>() : z; a = same; x = M{1, same.value}; break; }
			case 14: { u32 one = z.value; V c(one); c.assign(std::move(a)); Same(c, x); a = std::move(c); break; }
			}
		}
		catch (const Odd&) { thrown = true; }
		catch (const std::exception&) { thrown = true; }
		ThrowAt = 0;
		if (thrown)
		{
			ENSURES("a failed assignment leaves the old value or nothing", a.empty() || a.which() == before.w);
			x = a.empty() ? M{0, 0} : before;
		}
		Same(a, x);
		if (movedFrom) { ENSURES("a moved-from variant keeps its alternative", b.which() == beforeY.w); }
		else Same(b, y);
		ENSURES("one object per value", Live == 1 + Objects(x) + Objects(y));
		if (!movedFrom)
		{
			ENSURES("equality", (a == b) == (x == y) && (a != b) == !(x == y));
			ENSURES("order", (a < b) == (x.w != y.w ? x.w < y.w : x.w && x.v < y.v));
		}
		COVER("done");
	}
	ENSURES("all objects destroyed", Live == 0);
}

PROOF(C23_variant_never_empty)
{
	Live = 0; ThrowAt = 0;
	{
		const u32 v = Store(1), w = Store(2), k = vc_pick(2), l = vc_pick(2);
		N a((P(v))), b((P(w)));
		M x{1, v}, y{1, w};
		if (k) { a = v; x.w = 2; }
		if (l) { b.emplace<u32>(w); y.w = 2; }
		const P z(Store(3)); bool movedFrom = false;
		switch (vc_pick(11))
		{
		case 0: a = b; x = y; break;
		case 1: a = std::move(b); x = y; movedFrom = true; break;
		case 2: a = z; x = M{1, z.value}; break;
		case 3: a = P(z); x = M{1, z.value}; break;
		case 4: a = z.value; x = M{2, z.value}; break;
		case 5: a.emplace<P>(z.value); x = M{1, z.value}; break;
		case 6: { N& same = a; a = same; break; }
		case 7: { N& same = a; a = std::move(same); break; }
		case 8: { N c(a); Same(c, x); break; }
		case 9: { N c(std::move(b)); Same(c, y); movedFrom = true; break; }
		case 10: { const P& same = x.w == 1 ? a.get<P>() : z; a = same; x = M{1, same.value}; break; }
		}
		Same(a, x); if (!movedFrom) Same(b, y);
		ENSURES("one object per value", Live == 1 + Objects(x) + Objects(y));
		if (!movedFrom)
		{
			ENSURES("equality", (a == b) == (x == y) && (a != b) == !(x == y));
			ENSURES("order", (a < b) == (x.w != y.w ? x.w < y.w : x.v < y.v));
		}
		COVER("done");
	}
	ENSURES("all objects destroyed", Live == 0);
}

// what an any holds: 0 nothing, 1 u32, 2 s64, 3 bool, 4 std::string of k letters, 5 P
struct A { u32 w; u64 v; };
template < typename T > static bool Absent(any& x, bool present) { const any& cx = x; return (any_cast<T>(&x) != 0) == present && (any_cast<T>(&cx) != 0) == present; }
template < typename T > static bool Refused(any& x, bool present)
{
	bool thrown = false;
	try { any_cast<T>(x); } catch (const bad_any_cast&) { thrown = true; }
	const any& cx = x;
	try { any_cast<T>(cx); ENSURES("constant access agrees", !thrown); } catch (const bad_any_cast&) { ENSURES("constant access agrees", thrown); }
	return thrown == !present && (any_cast<T>(&x) != 0) == present && (any_cast<T>(&cx) != 0) == present;
}
static std::string Text(u64 k) { return std::string((size_t)k, 'q'); }
static void Same(any& x, const A& m)
{
	ENSURES("emptiness", x.empty() == (m.w == 0));
	ENSURES("another type is refused", Refused<u32>(x, m.w == 1) && Absent<long>(x, m.w == 2) && Absent<bool>(x, m.w == 3) && Absent<std::string>(x, m.w == 4) && Refused<P>(x, m.w == 5));
	ENSURES("another type is refused", Absent<int>(x, false) && Absent<unsigned long>(x, false) && Absent<long long>(x, false) && Absent<Q>(x, false));
	switch (m.w)
	{
	case 1: ENSURES("the value stored", any_cast<u32>(x) == (u32)m.v); break;
	case 2: ENSURES("the value stored", any_cast<long>(x) == (long)m.v); break;
	case 3: ENSURES("the value stored", any_cast<bool>(x) == (bool)(m.v & 1)); break;
	case 4: ENSURES("the value stored", any_cast<std::string>(x) == Text(m.v)); break;
	case 5: ENSURES("the value stored", any_cast<P>(x).value == (u32)m.v && any_cast<P>(x).self == &any_cast<P>(x)); break;
	}
}
static A Fill(any& x)
{
	A m; m.w = vc_pick(6); m.v = 0;
	switch (m.w)
	{
	case 1: m.v = ANY(u32); x = (u32)m.v; break;
	case 2: m.v = ANY(u64); x = (long)m.v; break;
	case 3: m.v = ANY(u64); x = (bool)(m.v & 1); break;
	case 4: m.v = vc_pick(3) * 10; x = Text(m.v); break;
	case 5: m.v = ANY(u32); x = P((u32)m.v); break;
	}
	return m;
}

PROOF(C23_any)
{
	Live = 0; ThrowAt = 0;
	{
		any a, b;
		ENSURES("a new any is empty", a.empty());
		A x = Fill(a), y = Fill(b);
		const A before = x;
		const u32 zv = ANY(u32); const P z(zv); bool thrown = false;
		const u32 op = vc_pick(13);
		ThrowAt = vc_pick(3);
		try
		{
			switch (op)
			{
			case 0: a = b; x = y; break;
			case 1: a = std::move(b); x = y; y.w = 0; break;
			case 2: a = z; x = A{5, zv}; break;
			case 3: a = P(z); x = A{5, zv}; break;
			case 4: a = any(); x.w = 0; break;
			case 5: a = zv; x = A{1, zv}; break;
			case 6: a = Text(17); x = A{4, 17}; break;
			case 7: { any& same = a; a = same; break; }
			case 8: { any& same = a; a = std::move(same); break; }
			case 9: { any c(a); Same(c, x); break; }
			case 10: { any c(std::move(b)); Same(c, y); y.w = 0; break; }
			case 11: { any c(z); Same(c, A{5, zv}); c = a; Same(c, x); break; }
			case 12: { const P& same = x.w == 5 ? any_cast<P>(a) : z; const u32 v = same.value; a = same; x = A{5, v}; break; }
			}
		}
		catch (const Odd&) { thrown = true; }
		catch (const std::exception&) { thrown = true; }
		ThrowAt = 0;
		if (thrown)
		{
			ENSURES("a failed assignment leaves the old value or nothing", a.empty() || Refused<P>(a, before.w == 5));
			x = a.empty() ? A{0, 0} : before;
		}
		Same(a, x); Same(b, y);
		ENSURES("one object per value", Live == 1 + (x.w == 5) + (y.w == 5));
		COVER("done");
	}
	ENSURES("all objects destroyed", Live == 0);
}

PROOF(C23_any_storage)
{
	Live = 0; ThrowAt = 0;
	const size_t blocks = vc_live();
	{
		any a, b; Fill(a); Fill(b); any c(a);
		switch (vc_pick(5)) { case 0: a = b; break; case 1: a = std::move(b); break; case 2: a = a; break; case 3: a = Text(20); break; case 4: b = any(std::move(a)); break; }
		COVER("done");
	}
	ENSURES("all objects destroyed", Live == 0);
	ENSURES("all storage released", vc_live() == blocks);
}
