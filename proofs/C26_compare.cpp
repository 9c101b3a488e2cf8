// C26 comparers and generated operators: order laws for every value.
// @sources: toolkit.cpp shared_ptr.cpp self_counter.cpp Version.cpp Size.cpp time/BrokenDownTime.cpp
// @opaque: basic_string_ostream<char>::Insert
#include <vc.h>
#include <stingraykit/string/ToString.h>
#include <stingraykit/collection/KeyValuePair.h>
#include <stingraykit/collection/ToRange.h>
#include <stingraykit/compare/CollectionComparer.h>
#include <stingraykit/compare/Comparable.h>
#include <stingraykit/compare/IFuzzyEquatable.h>
#include <stingraykit/compare/MemberListComparer.h>
#include <stingraykit/string/Comparers.h>
#include <stingraykit/time/BrokenDownTime.h>
#include <stingraykit/optional.h>
#include <stingraykit/Rect.h>
#include <stingraykit/Size.h>
#include <stingraykit/Version.h>
using namespace stingray;

static int Sign(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }

// order laws of a three-way comparer on three arbitrary objects
template < typename C, typename T > static void Laws(const C& cmp, const T& a, const T& b, const T& c)
{
	const int ab = cmp(a, b), ba = cmp(b, a), bc = cmp(b, c), ac = cmp(a, c);
	ENSURES("reflexive", cmp(a, a) == 0);
	ENSURES("antisymmetric", (ab < 0) == (ba > 0) && (ab > 0) == (ba < 0));
	if (ab <= 0 && bc <= 0)
		ENSURES("transitive", ac <= 0 && ((ac < 0) == (ab < 0 || bc < 0)));
}

// less, equals and greater forms agree with the three-way comparison
template < typename C, typename L, typename E, typename G, typename T > static void Forms(const C& cmp, const L& less, const E& equals, const G& greater, const T& a, const T& b)
{
	const int ab = cmp(a, b);
	ENSURES("less, equals and greater agree with the comparison", less(a, b) == (ab < 0) && equals(a, b) == (ab == 0) && greater(a, b) == (ab > 0));
}

template < typename T > static void Operators(const T& a, const T& b, int ab)
{
	ENSURES("operators agree with the comparison", (a < b) == (ab < 0) && (a > b) == (ab > 0) && (a <= b) == (ab <= 0) && (a >= b) == (ab >= 0) && (a == b) == (ab == 0) && (a != b) == (ab != 0));
}

template < typename T > static int Three(T a, T b) { return a < b ? -1 : b < a ? 1 : 0; }

template < typename T > static void Scalars()
{
	const T a = ANY(T), b = ANY(T), c = ANY(T);
	Laws(comparers::Cmp(), a, b, c);
	ENSURES("the comparison is the order of the values", Sign(comparers::Cmp()(a, b)) == Three(a, b));
	Forms(comparers::Cmp(), comparers::Less(), comparers::Equals(), comparers::Greater(), a, b);
	Forms(comparers::Cmp(), comparers::CmpToLess<comparers::Cmp>(), comparers::CmpToEquals<comparers::Cmp>(), comparers::CmpToGreater<comparers::Cmp>(), a, b);
	Laws(comparers::LessToCmp<comparers::Less>(), a, b, c);
	ENSURES("a comparison made from less is the same", comparers::LessToCmp<comparers::Less>()(a, b) == Three(a, b) && comparers::LessToEquals<comparers::Less>()(a, b) == (a == b));
	COVER("done");
}
PROOF(C26_ints) { Scalars<s32>(); }
PROOF(C26_unsigned) { Scalars<u64>(); }
PROOF(C26_bytes) { Scalars<u8>(); }

// anything with Compare()
struct WithCompare
{
	s32 v;
	int Compare(const WithCompare& o) const { return v < o.v ? -7 : v > o.v ? 9 : 0; }
	STINGRAYKIT_GENERATE_COMPARISON_OPERATORS_FROM_COMPARE(WithCompare);
};
struct WithLess
{
	s32 v;
	bool operator < (const WithLess& o) const { return v < o.v; }
	STINGRAYKIT_GENERATE_COMPARISON_OPERATORS_FROM_LESS(WithLess);
};
struct WithEqualLess
{
	s32 v;
	bool operator == (const WithEqualLess& o) const { return v == o.v; }
	STINGRAYKIT_GENERATE_EQUALITY_OPERATORS_FROM_EQUAL(WithEqualLess);
	bool operator < (const WithEqualLess& o) const { return v < o.v; }
	STINGRAYKIT_GENERATE_RELATIONAL_OPERATORS_FROM_LESS(WithEqualLess);
};

PROOF(C26_generated_operators)
{
	const s32 a = ANY(s32), b = ANY(s32), c = ANY(s32);
	const int ab = Three(a, b);
	{
		const WithCompare x = { a }, y = { b }, z = { c };
		Laws(comparers::Cmp(), x, y, z);
		Forms(comparers::Cmp(), comparers::Less(), comparers::Equals(), comparers::Greater(), x, y);
		Operators(x, y, ab);
	}
	{ const WithLess x = { a }, y = { b }; Operators(x, y, ab); ENSURES("comparison from less", comparers::Cmp()(x, y) == ab); }
	{ const WithEqualLess x = { a }, y = { b }; Operators(x, y, ab); }
	COVER("done");
}

// ---------------------------------------------------------------- members, lexicographically
struct Rec
{
	s32 a; u8 b; s64 c_;
	s64 GetC() const { return c_; }
};
static int LexRec(const Rec& x, const Rec& y)
{ return x.a != y.a ? Three(x.a, y.a) : x.b != y.b ? Three(x.b, y.b) : Three(x.c_, y.c_); }

PROOF(C26_members)
{
	const Rec x = { ANY(s32), ANY(u8), ANY(s64) }, y = { ANY(s32), ANY(u8), ANY(s64) }, z = { ANY(s32), ANY(u8), ANY(s64) };
	const auto cmp = CompareMembersCmp(&Rec::a, &Rec::b, &Rec::GetC);
	ENSURES("lexicographic by the members in the order given", Sign(cmp(x, y)) == LexRec(x, y));
	Laws(cmp, x, y, z);
	Forms(cmp, CompareMembersLess(&Rec::a, &Rec::b, &Rec::GetC), CompareMembersEquals(&Rec::a, &Rec::b, &Rec::GetC), CompareMembersGreater(&Rec::a, &Rec::b, &Rec::GetC), x, y);
	COVER("done");
}

struct Backwards : public comparers::CmpComparerInfo
{
	int operator () (s32 l, s32 r) const { return Three(r, l); }
};
PROOF(C26_custom_member)
{
	const Rec x = { ANY(s32), ANY(u8), 0 }, y = { ANY(s32), ANY(u8), 0 };
	const auto cmp = CompareMembersCmp(CustomMemberComparer(&Rec::a, Backwards()), &Rec::b);
	ENSURES("the member's own comparer decides first", Sign(cmp(x, y)) == (x.a != y.a ? Three(y.a, x.a) : Three(x.b, y.b)));
	const s32 v = ANY(s32);
	ENSURES("member against value", CompareMemberLess(&Rec::a)(x, v) == (x.a < v) && CompareMemberLess(&Rec::a)(v, x) == (v < x.a)
			&& CompareMemberGreater(&Rec::a)(x, v) == (x.a > v) && CompareMemberGreater(&Rec::a)(&x, v) == (x.a > v)
			&& CompareMemberEquals(&Rec::a)(x, v) == (x.a == v)
			&& CompareMemberToValue<std::less>(&Rec::a, v)(x) == (x.a < v) && CompareMemberToValue<comparers::Equals>(&Rec::a, v)(&x) == (x.a == v));
	COVER("done");
}

PROOF(C26_tuple)
{
	typedef Tuple<TypeList<s32, u8, s64> > T;
	const s32 a = ANY(s32), d = ANY(s32); const u8 b = ANY(u8), e = ANY(u8); const s64 c = ANY(s64), f = ANY(s64);
	const T x(a, b, c), y(d, e, f), z(ANY(s32), ANY(u8), ANY(s64));
	const int xy = a != d ? Three(a, d) : b != e ? Three(b, e) : Three(c, f);
	const TupleCmp<comparers::Cmp> cmp;
	ENSURES("lexicographic by the parts", Sign(cmp(x, y)) == xy);
	Laws(cmp, x, y, z);
	Forms(cmp, TupleLess<comparers::Cmp>(), TupleEquals(), TupleGreater<comparers::Cmp>(), x, y);
	COVER("done");
}

PROOF(C26_optional)
{
	typedef optional<s32> O;
	const s32 a = ANY(s32), b = ANY(s32), c = ANY(s32);
	O x, y, z;
	const bool hx = vc_pick(2), hy = vc_pick(2), hz = vc_pick(2);
	if (hx) x = a;
	if (hy) y = b;
	if (hz) z = c;
	const int xy = hx && hy ? Three(a, b) : (int)hx - (int)hy;
	const OptionalCmp<comparers::Cmp> cmp;
	ENSURES("nothing comes before every value", Sign(cmp(x, y)) == xy && Sign(comparers::Cmp()(x, y)) == xy);
	Laws(cmp, x, y, z);
	Laws(comparers::Cmp(), x, y, z);
	Operators(x, y, xy);
	const int xb = hx ? Three(a, b) : -1;
	ENSURES("against a plain value", Sign(cmp(x, b)) == xb && Sign(cmp(b, x)) == -xb && (x < b) == (xb < 0) && (b < x) == (xb > 0) && (x == b) == (xb == 0) && (b == x) == (xb == 0)
			&& (x <= b) == (xb <= 0) && (x >= b) == (xb >= 0) && (x > b) == (xb > 0) && (b <= x) == (xb >= 0) && (b != x) == (xb != 0));
	ENSURES("against nothing", Sign(cmp(x, null)) == hx && Sign(cmp(null, x)) == -(int)hx && (x == null) == !hx && (null == x) == !hx && (x != null) == hx && (null < x) == hx && !(x < null) && (x > null) == hx && (x <= null) == !hx && x >= null);
	COVER("done");
}

PROOF(C26_shared)
{
	typedef shared_ptr<s32> P;
	const s32 a = ANY(s32), b = ANY(s32), c = ANY(s32);
	P x, y, z;
	const bool hx = vc_pick(2), hy = vc_pick(2), hz = vc_pick(2);
	if (hx) x = make_shared_ptr<s32>(a);
	if (hy) y = make_shared_ptr<s32>(b);
	if (hz) z = make_shared_ptr<s32>(c);
	const int xy = hx && hy ? Three(a, b) : (int)hx - (int)hy;
	ENSURES("null comes first, others by the object", Sign(comparers::Cmp()(x, y)) == xy);
	Laws(comparers::Cmp(), x, y, z);
	Forms(comparers::Cmp(), comparers::Less(), comparers::Equals(), comparers::Greater(), x, y);
	Laws(PointerCmp(), x, y, z);
	ENSURES("pointer comparison is identity", (PointerCmp()(x, y) == 0) == (x.get() == y.get()) && PointerCmp()(x, P(x)) == 0);
	COVER("done");
}

// ---------------------------------------------------------------- collections
static const size_t MaxN = 2;
static size_t AnyVector(std::vector<s32>& v)
{
	const size_t n = vc_pick(MaxN + 1);
	for (size_t i = 0; i < n; ++i) v.push_back(ANY(s32));
	return n;
}
PROOF(C26_collections)
{
	std::vector<s32> x, y, z;
	vc_bounded("collections of at most 2 elements");
	const size_t n = AnyVector(x), m = AnyVector(y);
	AnyVector(z);
	int xy = (n > m) - (n < m);
	for (size_t i = n < m ? n : m; i-- > 0; )
		if (x[i] != y[i]) xy = Three(x[i], y[i]);
	ENSURES("lexicographic by the elements", Sign(CollectionCmp()(x, y)) == xy);
	Laws(CollectionCmp(), x, y, z);
	Forms(CollectionCmp(), CollectionLess(), CollectionEquals(), CollectionGreater(), x, y);
	COVER("done");
}

static char Lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
PROOF(C26_case_insensitive)
{
	char x[2], y[2];
	vc_bounded("texts of at most 2 ASCII characters");
	const size_t n = vc_pick(3), m = vc_pick(3);
	for (size_t i = 0; i < n; ++i) { x[i] = ANY(char); REQUIRES(x[i] >= 0); }
	for (size_t i = 0; i < m; ++i) { y[i] = ANY(char); REQUIRES(y[i] >= 0); }
	int xy = (n > m) - (n < m);
	bool eq = n == m;
	for (size_t i = n < m ? n : m; i-- > 0; )
	{
		const char a = Lower(x[i]), b = Lower(y[i]);
		if (a != b) { xy = Three(a, b); eq = false; }
	}
	const string_view sx(x, n), sy(y, m);
	ENSURES("order without case", CaseInsensitiveLess()(sx, sy) == (xy < 0) && CaseInsensitiveLess()(sy, sx) == (xy > 0));
	ENSURES("equality without case", CaseInsensitiveEquals()(sx, sy) == eq);
	const std::string tx(x, n), ty(y, m);
	ENSURES("the same for strings", CaseInsensitiveLess()(tx, ty) == (xy < 0) && CaseInsensitiveEquals()(tx, ty) == eq);
	COVER("done");
}

// ---------------------------------------------------------------- polymorphic values
struct Pad { s64 pad; virtual ~Pad() { } };
struct Num : public Pad, public Comparable<Num>, public FuzzyEquatable<Num>
{
	s32 v;
	Num(s32 v_) : v(v_) { }
	int DoCompare(const Num& o) const override { return Three(v, o.v); }
	bool DoFuzzyEquals(const Num& o) const override { return v / 2 == o.v / 2; }
};
struct Other : public Comparable<Other>, public FuzzyEquatable<Other>
{
	s32 v;
	Other(s32 v_) : v(v_) { }
	int DoCompare(const Other& o) const override { return Three(v, o.v); }
	bool DoFuzzyEquals(const Other& o) const override { return true; }
};
PROOF(C26_polymorphic)
{
	const s32 a = ANY(s32), b = ANY(s32), c = ANY(s32);
	const Num x(a), y(b), z(c);
	const Other w(a);
	ENSURES("same type: by value", x.Compare(y) == Three(a, b));
	Laws(comparers::Cmp(), static_cast<const IComparable&>(x), static_cast<const IComparable&>(y), static_cast<const IComparable&>(z));
	const int xw = x.Compare(w);
	ENSURES("different types are ordered, consistently", xw != 0 && Sign(xw) == -Sign(w.Compare(x)) && Sign(xw) == Sign(y.Compare(w)));
	ENSURES("fuzzy equality of one type", FuzzyEquals()(x, y) == (a / 2 == b / 2) && !x.FuzzyEquals(w) && !w.FuzzyEquals(x) && x.FuzzyEquals(x));
	COVER("done");
}

// ---------------------------------------------------------------- value types of the library
PROOF(C26_value_types)
{
	{
		const u32 a = ANY(u32), b = ANY(u32), c = ANY(u32), d = ANY(u32), e = ANY(u32), f = ANY(u32);
		const bool hx = vc_pick(2), hy = vc_pick(2);
		const Version x(a, b, hx ? optional<unsigned>(c) : optional<unsigned>()), y(d, e, hy ? optional<unsigned>(f) : optional<unsigned>());
		Operators(x, y, a != d ? Three(a, d) : b != e ? Three(b, e) : hx && hy ? Three(c, f) : (int)hx - (int)hy);
	}
	{
		const int a = ANY(int), b = ANY(int), c = ANY(int), d = ANY(int);
		Operators(Size(a, b), Size(c, d), a != c ? Three(a, c) : Three(b, d));
		Operators(Position(a, b), Position(c, d), a != c ? Three(a, c) : Three(b, d));
		const KeyValuePair<int, int> p(a, b), q(c, d);
		ENSURES("pairs by key, then value", Sign(p.Compare(q)) == (a != c ? Three(a, c) : Three(b, d)));
	}
	COVER("done");
}
PROOF(C26_rect)
{
	const int a = ANY(int), b = ANY(int), c = ANY(int), d = ANY(int), e = ANY(int), f = ANY(int), g = ANY(int), h = ANY(int);
	Operators(Rect(a, b, c, d), Rect(e, f, g, h), a != e ? Three(a, e) : b != f ? Three(b, f) : c != g ? Three(c, g) : Three(d, h));
	COVER("done");
}
PROOF(C26_broken_down_time)
{
	BrokenDownTime t[3];
	for (int i = 0; i < 3; ++i)
	{
		vc_havoc(&t[i], sizeof(BrokenDownTime));
	}
	Laws(comparers::Cmp(), t[0], t[1], t[2]);
	const bool same = t[0].Milliseconds == t[1].Milliseconds && t[0].Seconds == t[1].Seconds && t[0].Minutes == t[1].Minutes && t[0].Hours == t[1].Hours
			&& t[0].WeekDay == t[1].WeekDay && t[0].MonthDay == t[1].MonthDay && t[0].Month == t[1].Month && t[0].YearDay == t[1].YearDay && t[0].Year == t[1].Year;
	ENSURES("equal exactly when all fields are", (comparers::Cmp()(t[0], t[1]) == 0) == same);
	COVER("done");
}
