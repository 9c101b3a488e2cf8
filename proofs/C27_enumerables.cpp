// C27 enumerables: what each operation on an enumerable yields, over arbitrary element values.
// @sources: toolkit.cpp self_counter.cpp shared_ptr.cpp
// @opt: fork_select=true
// @opt: max_steps=60000000
// @nocut: ^stingray::[A-Za-z]*StringBuilder
#include <vc.h>
#include <string>
#include <stingraykit/collection/EnumerableHelpers.h>
#include <stingraykit/collection/ArrayList.h>
#include <stingraykit/collection/Transformers.h>
using namespace stingray;

typedef shared_ptr<IEnumerable<u32> > E;
struct Want { u32 d[16]; u64 n; Want() : n(0) { } void Add(u32 v) { d[n++] = v; } };
struct Src { u32 d[4]; u64 n; E e; explicit Src(u64 size) : n(size) { shared_ptr<ArrayList<u32> > l = make_shared_ptr<ArrayList<u32> >(); for (u64 i = 0; i < n; ++i) { d[i] = ANY(u32); l->Add(d[i]); } e = l; } };
static void Same(const shared_ptr<IEnumerator<u32> >& e, const Want& w)
{
	for (u64 i = 0; i < w.n; ++i, e->Next()) ENSURES("the elements in order", e->Valid() && e->Get() == w.d[i]);
	ENSURES("nothing after the last element", !e->Valid());
}
template < typename T > static void Check(const shared_ptr<T>& e, const Want& w)
{
	Same(e->GetEnumerator(), w);
	Same(e->GetEnumerator(), w);		// every enumeration starts over
	ENSURES("the count", Enumerable::Count(e) == w.n && Enumerable::Any(e) == (w.n != 0));
	COVER("enumerated");
}
struct Small { typedef bool RetType; u32 x; bool operator() (u32 v) const { return v < x; } };
struct Plus { typedef u32 RetType; u32 x; u32 operator() (u32 v) const { return v + x; } };
struct Add2 { typedef u32 RetType; u32 operator() (u32 a, u32 b) const { return a + 3 * b; } };
static void Bound() { vc_bounded("up to four elements"); }

PROOF(C27_enum_where)
{
	Bound(); Src s(vc_pick(5)); const Small p = {ANY(u32)}; Want w;
	for (u64 i = 0; i < s.n; ++i) if (p(s.d[i])) w.Add(s.d[i]);
	Check(Enumerable::Where(s.e, p), w);
	ENSURES("counting by condition", Enumerable::Count(s.e, p) == w.n && Enumerable::Any(s.e, p) == (w.n != 0) && Enumerable::All(s.e, p) == (w.n == s.n));
	optional<u32> f = Enumerable::FirstOrDefault(s.e, p), l = Enumerable::LastOrDefault(s.e, p);
	ENSURES("the first and the last by condition", f.is_initialized() == (w.n != 0) && l.is_initialized() == (w.n != 0) && (!w.n || (*f == w.d[0] && *l == w.d[w.n - 1])));
}
PROOF(C27_enum_transform)
{
	Bound(); Src s(vc_pick(5)); const Plus p = {ANY(u32)}; Want w;
	for (u64 i = 0; i < s.n; ++i) w.Add(s.d[i] + p.x);
	Check(Enumerable::Transform(s.e, p), w);
}
PROOF(C27_enum_reverse)
{
	Bound(); Src s(vc_pick(5)); Want w, f;
	for (u64 i = 0; i < s.n; ++i) { w.Add(s.d[s.n - 1 - i]); f.Add(s.d[i]); }
	Check(Enumerable::Reverse(s.e), w);
	Check(Enumerable::Clone(s.e), f);
	ENSURES("an enumeration equals itself", Enumerable::SequenceEqual(s.e, s.e));
}
PROOF(C27_enum_skip_take)
{
	Bound(); Src s(vc_pick(5)); const u64 k = vc_pick(6); Want a, b;
	for (u64 i = k; i < s.n; ++i) a.Add(s.d[i]);
	for (u64 i = 0; i < s.n && i < k; ++i) b.Add(s.d[i]);
	Check(Enumerable::Skip(s.e, k), a);
	Check(Enumerable::Take(s.e, k), b);
}
PROOF(C27_enum_concat)
{
	Bound(); Src a(vc_pick(3)), b(vc_pick(3)), c(vc_pick(3)); Want w, v;
	for (u64 i = 0; i < a.n; ++i) w.Add(a.d[i]);
	for (u64 i = 0; i < b.n; ++i) w.Add(b.d[i]);
	Check(Enumerable::Concat(a.e, b.e), w);
	Check(JoinEnumerables(a.e, b.e), w);
	v = w;
	for (u64 i = 0; i < c.n; ++i) v.Add(c.d[i]);
	Check((EnumerableJoiner<u32>() % a.e % b.e % c.e).Get(), v);
	ENSURES("only equal sequences are equal", !Enumerable::SequenceEqual(Enumerable::Concat(a.e, c.e), a.e) == (c.n != 0));
}
PROOF(C27_enum_equal)
{
	Bound(); Src a(vc_pick(4)), b(vc_pick(4));
	bool eq = a.n == b.n;
	for (u64 i = 0; i < a.n && i < b.n; ++i) eq = eq && a.d[i] == b.d[i];
	ENSURES("sequences are equal when their elements are", Enumerable::SequenceEqual(a.e, b.e) == eq);
	COVER("compared");
}
PROOF(C27_enum_flatten)
{
	Bound(); const u64 n = vc_pick(4); Want w;
	shared_ptr<ArrayList<E> > l = make_shared_ptr<ArrayList<E> >();
	for (u64 i = 0; i < n; ++i) { Src s(vc_pick(3)); for (u64 k = 0; k < s.n; ++k) w.Add(s.d[k]); l->Add(s.e); }
	Check(Enumerable::Flatten(shared_ptr<IEnumerable<E> >(l)), w);
}
PROOF(C27_enum_default)
{
	Bound(); Src s(vc_pick(3)); const u32 x = ANY(u32); Want w;
	for (u64 i = 0; i < s.n; ++i) w.Add(s.d[i]);
	if (!s.n) w.Add(x);
	Check(Enumerable::DefaultIfEmpty(s.e, x), w);
	Want one; one.Add(x);
	Check(E(MakeOneItemEnumerable(x)), one);
	Check(E(MakeEmptyEnumerable()), Want());
}
PROOF(C27_enum_elements)
{
	Bound(); Src s(vc_pick(5)); const u32 x = ANY(u32), y = ANY(u32); const u64 n = s.n, at = vc_pick(5);
	bool thrown = false; u32 v = 0;
	try { v = Enumerable::ElementAt(s.e, at); } catch (const std::exception&) { thrown = true; }
	ENSURES("the element at an index", thrown == (at >= n) && (thrown || v == s.d[at]));
	optional<u32> o = Enumerable::ElementAtOrDefault(s.e, at);
	ENSURES("the element at an index, or nothing", o.is_initialized() == (at < n) && (!o || *o == s.d[at]) && Enumerable::ElementAtOrDefault(s.e, at, y) == (at < n ? s.d[at] : y));
	thrown = false;
	try { v = Enumerable::First(s.e); } catch (const std::exception&) { thrown = true; }
	ENSURES("the first element", thrown == !n && (!n || v == s.d[0]));
	thrown = false;
	try { v = Enumerable::Last(s.e); } catch (const std::exception&) { thrown = true; }
	ENSURES("the last element", thrown == !n && (!n || v == s.d[n - 1]));
	thrown = false;
	try { v = Enumerable::Single(s.e); } catch (const std::exception&) { thrown = true; }
	ENSURES("the only element", thrown == (n != 1) && (thrown || v == s.d[0]));
	u64 firstX = n; for (u64 i = n; i; --i) if (s.d[i - 1] == x) firstX = i - 1;
	optional<size_t> i = Enumerable::IndexOf(s.e, x);
	ENSURES("the first index of a value", i.is_initialized() == (firstX != n) && (!i || *i == firstX) && Enumerable::Contains(s.e, x) == (firstX != n));
	u32 folded = 7; for (u64 j = 0; j < n; ++j) folded = folded + 3 * s.d[j];
	ENSURES("aggregation goes from the first to the last", Enumerable::Aggregate(s.e, (u32)7, Add2()) == folded);
	optional<u32> agg = Enumerable::Aggregate(s.e, Add2());
	u32 want = n ? s.d[0] : 0; for (u64 j = 1; j < n; ++j) want = want + 3 * s.d[j];
	ENSURES("aggregation without an initial value", agg.is_initialized() == (n != 0) && (!n || *agg == want));
	COVER("done");
}
PROOF(C27_enum_composed)
{
	Bound(); Src s(vc_pick(5)); const Small p = {ANY(u32)}; const Plus q = {ANY(u32)}; Want w; u64 skipped = 0;
	for (u64 i = s.n; i; --i) if (p(s.d[i - 1]) && skipped++ >= 1 && w.n < 2) w.Add(s.d[i - 1] + q.x);
	Check(Enumerable::Take(Enumerable::Skip(Enumerable::Transform(Enumerable::Reverse(Enumerable::Where(s.e, p)), q), 1), 2), w);
}
