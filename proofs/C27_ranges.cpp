// C27 range adapters: the sequence each one defines, forward, backward and by position, over arbitrary element values.
// @sources: toolkit.cpp
// @opt: fork_select=true
// @opt: max_steps=60000000
// @nocut: ^stingray::[A-Za-z]*StringBuilder
#include <vc.h>
#include <string>
#include <stingraykit/collection/Range.h>
#include <stingraykit/collection/ToRange.h>
using namespace stingray;

typedef std::vector<u32> V;
static V Vec(u64 n) { V v; v.reserve(8); for (u64 i = 0; i < n; ++i) v.push_back(ANY(u32)); return v; }
struct Want { u32 d[16]; u64 n; Want() : n(0) { } void Add(u32 v) { d[n++] = v; } void Add(const V& v) { for (u64 i = 0; i < v.size(); ++i) Add(v[i]); } };

template < typename R > static void Forward(R& r, const Want& w)
{
	for (u64 i = 0; i < w.n; ++i, r.Next())
		ENSURES("forward iteration yields the elements in order", r.Valid() && r.Get() == w.d[i]);
	ENSURES("forward iteration ends after the last element", !r.Valid());
}
template < typename R > static void Backward(R& r, const Want& w)
{
	r.Last();
	ENSURES("the last element is the last one of the sequence", r.Valid() == (w.n != 0));
	for (u64 i = w.n; i; --i)
	{
		ENSURES("backward iteration yields the elements in reverse order", r.Valid() && r.Get() == w.d[i - 1]);
		if (i > 1) r.Prev();
	}
}
template < typename R > static void Check(R r, const Want& w, bool fromEnd = true)
{
	const R start(r);
	Forward(r, w);
	ENSURES("a copy is independent", start.Valid() == (w.n != 0) && (!w.n || start.Get() == w.d[0]));
	if (fromEnd && w.n) { r.Prev(); ENSURES("one step back from the end is the last element", r.Valid() && r.Get() == w.d[w.n - 1]); }
	Backward(r, w);
	if (w.n) ENSURES("backward iteration arrives where forward iteration starts", r.Equals(start));
	r.First();
	ENSURES("the first position is the start", r.Equals(start));
	Forward(r, w);
	COVER("iterated");
}
template < typename R > static void Positions(R r, const Want& w)
{
	ENSURES("a range knows its size", r.GetSize() == w.n);
	u64 at = 0;
	for (int k = 0; k < 2; ++k)
	{
		const u64 to = vc_pick(w.n + 1);
		r.Move((int)to - (int)at);
		at = to;
		ENSURES("moving arrives at the position", r.GetPosition() == at && r.Valid() == (at < w.n) && (at == w.n || r.Get() == w.d[at]));
	}
	bool thrown = false;
	R x(r);
	try { x.Move(vc_pick(2) ? (int)(w.n - at) + 1 : -(int)at - 1); } catch (const std::exception&) { thrown = true; }
	ENSURES("no move leaves the range", thrown);
	if (at) { r.Prev(); ENSURES("a step back after a move", r.GetPosition() == at - 1 && r.Get() == w.d[at - 1]); r.Next(); }
	if (at < w.n) { r.Next(); ENSURES("a step after a move", r.GetPosition() == at + 1 && r.Valid() == (at + 1 < w.n)); }
	COVER("moved");
}

struct Small { typedef bool RetType; u32 x; bool operator() (u32 v) const { return v < x; } };
struct Plus { typedef u32 RetType; u32 x; u32 operator() (u32 v) const { return v + x; } };
struct Add2 { typedef u32 RetType; u32 operator() (u32 a, u32 b) const { return a + 3 * b; } };
static void Bound() { vc_bounded("up to four elements"); }

PROOF(C27_vector) { Bound(); const V v = Vec(vc_pick(5)); Want w; w.Add(v); Check(ToRange(v), w); Positions(ToRange(v), w); }
PROOF(C27_filter)
{
	Bound(); const V v = Vec(vc_pick(5)); const Small p = {ANY(u32)};
	Want w; for (u64 i = 0; i < v.size(); ++i) if (p(v[i])) w.Add(v[i]);
	Check(Range::Filter(ToRange(v), p), w);
}
PROOF(C27_transform)
{
	Bound(); const V v = Vec(vc_pick(5)); const Plus p = {ANY(u32)};
	Want w; for (u64 i = 0; i < v.size(); ++i) w.Add(v[i] + p.x);
	Check(Range::Transform(ToRange(v), p), w); Positions(Range::Transform(ToRange(v), p), w);
}
PROOF(C27_reverse)
{
	Bound(); const V v = Vec(vc_pick(5));
	Want w, f; f.Add(v); for (u64 i = v.size(); i; --i) w.Add(v[i - 1]);
	Check(Range::Reverse(ToRange(v)), w); Positions(Range::Reverse(ToRange(v)), w);
	Check(Range::Reverse(Range::Reverse(ToRange(v))), f); Positions(Range::Reverse(Range::Reverse(ToRange(v))), f);
}
PROOF(C27_drop)
{
	Bound(); const V v = Vec(vc_pick(5)); const u64 k = vc_pick(6);
	Want w; for (u64 i = k; i < v.size(); ++i) w.Add(v[i]);
	Check(Range::Drop(ToRange(v), k), w); Positions(Range::Drop(ToRange(v), k), w);
}
PROOF(C27_take)
{
	Bound(); const V v = Vec(vc_pick(5)); const u64 k = vc_pick(6);
	Want w; for (u64 i = 0; i < v.size() && i < k; ++i) w.Add(v[i]);
	Check(Range::Take(ToRange(v), k), w); Positions(Range::Take(ToRange(v), k), w);
}
PROOF(C27_concat)
{
	Bound(); const V a = Vec(vc_pick(3)), b = Vec(vc_pick(3)), c = Vec(vc_pick(2));
	Want w; w.Add(a); w.Add(b); w.Add(c);
	Check(Range::Concat(ToRange(a), ToRange(b), ToRange(c)), w, false);
}
PROOF(C27_flatten)
{
	Bound(); std::vector<V> vs; Want w;
	const u64 n = vc_pick(4);
	for (u64 i = 0; i < n; ++i) { vs.push_back(Vec(vc_pick(3))); w.Add(vs.back()); }
	Check(Range::Flatten(ToRange(vs)), w, false);
}
PROOF(C27_zip)
{
	Bound(); const V a = Vec(vc_pick(4)), b = Vec(vc_pick(4));
	Want w; for (u64 i = 0; i < a.size() && i < b.size(); ++i) w.Add(a[i] + 3 * b[i]);
	auto r = Range::Zip(Add2(), ToRange(a), ToRange(b));
	Forward(r, w); Backward(r, w); r.First(); Forward(r, w);
	COVER("iterated");
}
PROOF(C27_single) { const u32 x = ANY(u32); Want w; w.Add(x); Check(Range::Single(x), w); Positions(Range::Single(x), w); }
PROOF(C27_cycle)
{
	Bound(); const V v = Vec(vc_pick(4)); const u64 n = v.size();
	bool thrown = false;
	try
	{
		auto r = Range::Cycle(ToRange(v));
		for (u64 i = 0; i < 2 * n; ++i, r.Next()) ENSURES("a cycle repeats the elements", r.Valid() && r.Get() == v[i % n]);
		for (u64 i = 2 * n; i; --i) { r.Prev(); ENSURES("a cycle runs backward", r.Valid() && r.Get() == v[(i - 1) % n]); }
	}
	catch (const std::exception&) { thrown = true; }
	ENSURES("only an empty range has no cycle", thrown == (n == 0));
	COVER("cycled");
}
PROOF(C27_split)
{
	Bound(); const V v = Vec(vc_pick(6)); const u64 k = 1 + vc_pick(3), n = v.size(), pieces = (n + k - 1) / k;
	auto r = Range::Split(v, k);
	u64 at = 0;
	for (; r.Valid(); r.Next())
	{
		auto piece = r.Get(); u64 got = 0;
		for (; piece.Valid(); piece.Next(), ++at, ++got) ENSURES("pieces hold the elements in order", at < n && piece.Get() == v[at]);
		ENSURES("every piece but the last has the full size", got == k || (got && at == n));
	}
	ENSURES("pieces hold all the elements", at == n);
	r.Last();
	ENSURES("the last piece exists unless there are no elements", r.Valid() == (n != 0));
	for (u64 i = pieces; i; --i)
	{
		auto piece = r.Get();
		ENSURES("backward iteration yields the same pieces", piece.GetSize() == std::min(k, n - (i - 1) * k) && piece.Get() == v[(i - 1) * k]);
		if (i > 1) r.Prev();
	}
	COVER("split");
}
PROOF(C27_composed)
{
	Bound(); const V v = Vec(vc_pick(5)); const Small p = {ANY(u32)}; const Plus q = {ANY(u32)};
	Want w; u64 skipped = 0;
	for (u64 i = v.size(); i; --i) if (p(v[i - 1])) { if (skipped++ >= 1 && w.n < 2) w.Add(v[i - 1] + q.x); }
	Check(Range::Take(Range::Drop(Range::Transform(Range::Reverse(Range::Filter(ToRange(v), p)), q), 1), 2), w);
}
PROOF(C27_algorithms)
{
	Bound(); const V v = Vec(vc_pick(5)); const Small p = {ANY(u32)}; const u32 x = ANY(u32); const u64 n = v.size();
	u64 hits = 0, firstHit = n, firstX = n; u32 sum = 0, lo = ~0u, hi = 0;
	for (u64 i = 0; i < n; ++i)
	{
		if (p(v[i])) { if (!hits) firstHit = i; ++hits; }
		if (v[i] == x && firstX == n) firstX = i;
		sum += v[i]; lo = std::min(lo, v[i]); hi = std::max(hi, v[i]);
	}
	auto r = ToRange(v);
	ENSURES("count", Range::Count(r) == n);
	ENSURES("any, all, none", Range::AnyOf(r, p) == (hits != 0) && Range::AllOf(r, p) == (hits == n) && Range::NoneOf(r, p) == (hits == 0));
	ENSURES("containment", Range::Contains(r, x) == (firstX != n) && Range::Contains(r, p) == (hits != 0));
	optional<size_t> i = Range::IndexOf(r, x), k = Range::IndexOf(r, p);
	ENSURES("the first index", i.is_initialized() == (firstX != n) && (!i || *i == firstX) && k.is_initialized() == (hits != 0) && (!k || *k == firstHit));
	ENSURES("the sum", Range::Sum(r) == sum);
	optional<u32> a = Range::MinElement(r), b = Range::MaxElement(r), f = Range::FirstOrDefault(r), e = Range::ElementAtOrDefault(r, 2);
	ENSURES("the smallest and largest element", a.is_initialized() == (n != 0) && b.is_initialized() == (n != 0) && (!n || (*a == lo && *b == hi)));
	ENSURES("an element or nothing", f.is_initialized() == (n != 0) && (!n || *f == v[0]) && e.is_initialized() == (n > 2) && (n <= 2 || *e == v[2]));
	bool thrown = false; u32 y = 0; const u64 at = vc_pick(5);
	try { y = Range::ElementAt(r, at); } catch (const std::exception&) { thrown = true; }
	ENSURES("the element at an index", thrown == (at >= n) && (thrown || y == v[at]));
	u32 folded = 7; for (u64 j = 0; j < n; ++j) folded = folded + 3 * v[j];
	ENSURES("folding goes from the first to the last", Range::Fold(r, (u32)7, Add2()) == folded);
	u32 out[8]; u32* end = Range::Copy(r, &out[0]);
	ENSURES("copying writes every element", end == out + n);
	for (u64 j = 0; j < n; ++j) ENSURES("copying keeps the order", out[j] == v[j]);
	COVER("done");
}
