// C19 ranges, rectangles, sizes: every coordinate.
// @opaque: ^stingray::NumericRange<.*::ToString
// @sources: Size.cpp
#include <vc.h>
#include <stingraykit/NumericRange.h>
#include <stingraykit/Rect.h>
using namespace stingray;

template < typename T > static SimpleNumericRange<T> AnyRange()
{
	const T a = ANY(T), b = ANY(T);
	REQUIRES(a <= b);
	return SimpleNumericRange<T>(a, b);
}

template < typename T > static void Ranges()
{
	typedef SimpleNumericRange<T> R;
	const T a = ANY(T), b = ANY(T);
	bool refused = false;
	try { R(a, b); } catch (const ArgumentException&) { refused = true; }
	ENSURES("inverted range refused", refused == (b < a));

	const R p = AnyRange<T>(), q = AnyRange<T>();
	const T t = ANY(T);
	ENSURES("empty exactly when it has no extent", p.IsEmpty() == (p.GetStart() == p.GetEnd()));
	ENSURES("membership", p.Contains(t) == (!p.IsEmpty() && p.GetStart() <= t && t <= p.GetEnd()));
	ENSURES("strict membership", p.ContainsStrict(t) == (p.GetStart() < t && t < p.GetEnd()));
	ENSURES("equality", (p == q) == (p.GetStart() == q.GetStart() && p.GetEnd() == q.GetEnd()) && (p != q) == !(p == q));

	const R i = p.Intersect(q);
	ENSURES("intersecting exactly when the intersection is not empty", p.IsIntersecting(q) == !i.IsEmpty() && q.IsIntersecting(p) == !i.IsEmpty());
	ENSURES("interior of the intersection is the common interior", i.ContainsStrict(t) == (p.ContainsStrict(t) && q.ContainsStrict(t)));
	if (!i.IsEmpty())
		ENSURES("a point is in the intersection exactly when it is in both", i.Contains(t) == (p.Contains(t) && q.Contains(t)));
	else
		ENSURES("nothing but a touching point is in both", !(p.Contains(t) && q.Contains(t)) || t == p.GetEnd() || t == p.GetStart());
	ENSURES("intersection commutes", i == q.Intersect(p));
	if (!i.IsEmpty())
		COVER("intersection");

	const R u = p.Union(q);
	ENSURES("the union covers both", (!p.Contains(t) && !q.Contains(t)) || u.Contains(t));
	if (!p.IsEmpty() && !q.IsEmpty())
		ENSURES("the union is the smallest covering range", u.GetStart() == (p.GetStart() < q.GetStart() ? p.GetStart() : q.GetStart()) && u.GetEnd() == (p.GetEnd() < q.GetEnd() ? q.GetEnd() : p.GetEnd()));
	else
		ENSURES("an empty range adds nothing", p.IsEmpty() ? u == q : u == p);
	const T c = p.Clamp(t);
	ENSURES("clamped to the nearest value of the range", c == (t < p.GetStart() ? p.GetStart() : p.GetEnd() < t ? p.GetEnd() : t));
}
PROOF(C19_range_s32) { Ranges<s32>(); }
PROOF(C19_range_u64) { Ranges<u64>(); }
PROOF(C19_range_s8) { Ranges<s8>(); }

template < typename T > static BasicRect<T> AnyRect() { const T a = ANY(T), b = ANY(T), c = ANY(T), d = ANY(T); return BasicRect<T>(a, b, c, d); }
template < typename T > static bool In(const BasicRect<T>& r, T x, T y) { return r.X1 <= x && x <= r.X2 && r.Y1 <= y && y <= r.Y2; }

template < typename T > static void Rects()
{
	typedef BasicRect<T> R;
	const R p = AnyRect<T>(), q = AnyRect<T>();
	const T x = ANY(T), y = ANY(T);
	const R i = p.Intersect(q);
	ENSURES("a point is in the intersection exactly when it is in both", In(i, x, y) == (In(p, x, y) && In(q, x, y)));
	if (p.X1 <= p.X2 && p.Y1 <= p.Y2 && q.X1 <= q.X2 && q.Y1 <= q.Y2)
	{
		ENSURES("rectangles intersect exactly when they share a point", p.Intersects(q) == (i.X1 <= i.X2 && i.Y1 <= i.Y2) && p.Intersects(q) == q.Intersects(p));
		if (p.Intersects(q))
			ENSURES("shared corner", In(p, i.X1, i.Y1) && In(q, i.X1, i.Y1));
		COVER("proper");
	}
	ENSURES("valid exactly when it has positive width and height", p.Valid() == (p.X1 < p.X2 && p.Y1 < p.Y2));
	ENSURES("corners", p.GetTopLeft().X == p.X1 && p.GetTopLeft().Y == p.Y1 && p.GetRightBottom().X == p.X2 && p.GetRightBottom().Y == p.Y2);
}
PROOF(C19_rect) { Rects<s32>(); }
PROOF(C19_rect_s64) { Rects<s64>(); }

PROOF(C19_rect_move)
{
	const Rect p = AnyRect<int>();
	const int dx = ANY(int), dy = ANY(int);
	REQUIRES(p.X1 > -0x20000000 && p.X1 < 0x20000000 && p.X2 > -0x20000000 && p.X2 < 0x20000000 && dx > -0x20000000 && dx < 0x20000000);
	REQUIRES(p.Y1 > -0x20000000 && p.Y1 < 0x20000000 && p.Y2 > -0x20000000 && p.Y2 < 0x20000000 && dy > -0x20000000 && dy < 0x20000000);
	ENSURES("width and height", p.GetWidth() == p.X2 - p.X1 && p.GetHeight() == p.Y2 - p.Y1 && p.GetSize() == Size(p.X2 - p.X1, p.Y2 - p.Y1));
	const Rect m = p.Move(dx, dy), n = p.Move(Position(dx, dy));
	ENSURES("moving keeps width and height", m.GetWidth() == p.GetWidth() && m.GetHeight() == p.GetHeight());
	ENSURES("moved by the offset", m.X1 - p.X1 == dx && m.Y1 - p.Y1 == dy && m.X2 - p.X2 == dx && m.Y2 - p.Y2 == dy);
	ENSURES("both forms of move agree", n == m);
	ENSURES("moved back", m.Move(-dx, -dy) == p);
	const Rect w(dx, dy), s(Size(dx, dy));
	ENSURES("rectangle of a size", w == s && w.GetWidth() == dx && w.GetHeight() == dy && w.X1 == 0 && w.Y1 == 0);
	ENSURES("default rectangle is empty", Rect().GetSize() == Size(0, 0) && !Rect().Valid());
	COVER("done");
}

PROOF(C19_sizes)
{
	const int a = ANY(int), b = ANY(int), c = ANY(int), d = ANY(int), k = ANY(int);
	Size p(a, b), q(c, d);
	ENSURES("sum", (p + q).Width == a + c && (p + q).Height == b + d);
	ENSURES("difference", (p - q).Width == a - c && (p - q).Height == b - d);
	ENSURES("scaled", (p * k).Width == a * k && (p * k).Height == b * k);
	Size r = p;
	r += q;
	ENSURES("sum in place", r == p + q);
	r -= q;
	ENSURES("difference in place undoes the sum", r == p);
	ENSURES("valid size", p.Valid() == (a > 0 && b > 0));
	ENSURES("valid scale", SizeScale(a, b).Valid() == (a > 0 && b > 0));
}
PROOF(C19_size_divide)
{
	const int a = ANY(int), b = ANY(int), c = ANY(int), d = ANY(int);
	REQUIRES(c > 0 && d > 0);
	const Size p(a, b), q(c, d);
	ENSURES("divided", (p / c).Width == a / c && (p / c).Height == b / c);
	ENSURES("divided per component", (p / q).Width == a / c && (p / q).Height == b / d);
}

template < typename V > static void Lexicographic(const V& p, const V& q, int a, int b, int c, int d)
{
	const bool less = a < c || (a == c && b < d), eq = a == c && b == d;
	ENSURES("first component decides, then the second", (p < q) == less);
	ENSURES("operators agree with less", (p == q) == eq && (p != q) == !eq && (p <= q) == (less || eq) && (p > q) == (!less && !eq) && (p >= q) == !less);
}
PROOF(C19_order)
{
	const int a = ANY(int), b = ANY(int), c = ANY(int), d = ANY(int);
	Lexicographic(Size(a, b), Size(c, d), a, b, c, d);
	Lexicographic(SizeScale(a, b), SizeScale(c, d), a, b, c, d);
	Lexicographic(Position(a, b), Position(c, d), a, b, c, d);
}
PROOF(C19_order_rect)
{
	const Rect p = AnyRect<int>(), q = AnyRect<int>();
	const bool less = p.X1 != q.X1 ? p.X1 < q.X1 : p.Y1 != q.Y1 ? p.Y1 < q.Y1 : p.X2 != q.X2 ? p.X2 < q.X2 : p.Y2 < q.Y2;
	const bool eq = p.X1 == q.X1 && p.Y1 == q.Y1 && p.X2 == q.X2 && p.Y2 == q.Y2;
	ENSURES("components in order decide", (p < q) == less && (p == q) == eq);
}
