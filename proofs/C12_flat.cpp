// C12 flat maps and sets: every operation on an arbitrary sorted content of up to four entries, arbitrary keys and values.
// @sources: toolkit.cpp
// @opaque: basic_string_ostream<char>::Insert
// @opt: fork_select=true
#include <vc.h>
#include <stingraykit/string/ToString.h>
#include <stingraykit/collection/flat_map.h>
#include <stingraykit/collection/flat_set.h>
using namespace stingray;

static const size_t Max = 4;

// order relation with a state: ascending or descending
struct Order
{
	bool desc;
	explicit Order(bool d = false) : desc(d) { }
	bool operator () (u32 a, u32 b) const { return desc ? b < a : a < b; }
};

typedef flat_map<u32, u32, Order> Map;
typedef flat_set<u32, Order> Set;

// strictly increasing keys (in the chosen order) and their values
struct M
{
	Order o; size_t n; u32 k[Max + 2], v[Max + 2];
	M() : o(false), n(0) { }
	void Any(size_t max = Max)
	{
		o = Order(vc_pick(2));
		n = vc_pick(max + 1);
		vc_bounded("at most 4 entries before the operation");
		for (size_t i = 0; i < n; ++i)
		{
			k[i] = ANY(u32); v[i] = ANY(u32);
			REQUIRES(i == 0 || o(k[i - 1], k[i]));
		}
	}
	size_t Below(u32 key) const			// number of keys before key
	{
		size_t r = 0;
		while (r < n && o(k[r], key)) ++r;
		return r;
	}
	bool Has(u32 key) const { const size_t i = Below(key); return i < n && k[i] == key; }
	void Put(u32 key, u32 val, bool assign)
	{
		const size_t p = Below(key);
		if (p < n && k[p] == key)
		{
			if (assign) v[p] = val;
			return;
		}
		for (size_t i = n; i > p; --i) { k[i] = k[i - 1]; v[i] = v[i - 1]; }
		k[p] = key; v[p] = val; ++n;
	}
	void Cut(size_t from, size_t to)
	{
		for (size_t i = to; i < n; ++i) { k[from + i - to] = k[i]; v[from + i - to] = v[i]; }
		n -= to - from;
	}
};

static void Fill(Map& x, const M& m) { for (size_t i = 0; i < m.n; ++i) x[m.k[i]] = m.v[i]; }
static void Fill(Set& x, const M& m) { for (size_t i = 0; i < m.n; ++i) x.insert(m.k[i]); }
static u32 KeyOf(const std::pair<u32, u32>& e) { return e.first; }
static u32 KeyOf(u32 e) { return e; }
static bool Entry(const std::pair<u32, u32>& e, const M& m, size_t i) { return e.first == m.k[i] && e.second == m.v[i]; }
static bool Entry(u32 e, const M& m, size_t i) { return e == m.k[i]; }

template < typename X > static void Content(const X& x, const M& m)
{
	ENSURES("size", x.size() == m.n && x.empty() == (m.n == 0));
	size_t i = 0;
	for (typename X::const_iterator it = x.begin(); it != x.end(); ++it, ++i)
		ENSURES("exactly the entries, in key order", i < m.n && Entry(*it, m, i));
	ENSURES("no entry missing", i == m.n);
	for (typename X::const_reverse_iterator it = x.rbegin(); it != x.rend(); ++it, --i)
		ENSURES("backward order is the opposite", i > 0 && Entry(*it, m, i - 1));
	ENSURES("backward iteration complete", i == 0);
}

template < typename X > static void Lookup(X& x, const M& m)
{
	const X& c = x;
	const u32 q = ANY(u32);
	const size_t p = m.Below(q);
	const bool has = m.Has(q);
	ENSURES("found exactly when present", (x.find(q) != x.end()) == has && (c.find(q) != c.end()) == has && c.count(q) == (has ? 1 : 0));
	if (has)
		ENSURES("the entry found is the one of the key", x.find(q) - x.begin() == (ptrdiff_t)p && c.find(q) - c.begin() == (ptrdiff_t)p);
	ENSURES("lower bound", x.lower_bound(q) - x.begin() == (ptrdiff_t)p && c.lower_bound(q) - c.begin() == (ptrdiff_t)p);
	ENSURES("upper bound", x.upper_bound(q) - x.begin() == (ptrdiff_t)(p + has) && c.upper_bound(q) - c.begin() == (ptrdiff_t)(p + has));
	ENSURES("equal range", c.equal_range(q).first == c.lower_bound(q) && c.equal_range(q).second == c.upper_bound(q));
	ENSURES("equal range of a mutable one", x.equal_range(q).first == x.lower_bound(q) && x.equal_range(q).second == x.upper_bound(q));
}

PROOF(C12_map_lookup)
{
	M m; m.Any();
	Map x(m.o); Fill(x, m);
	Content(x, m);
	Lookup(x, m);
	const Map& c = x;
	const u32 q = ANY(u32);
	const size_t p = m.Below(q);
	bool thrown = false;
	u32 got = 0;
	try { got = c.at(q); } catch (const std::exception&) { thrown = true; }
	ENSURES("checked access refuses an absent key", thrown == !m.Has(q));
	ENSURES("checked access gives the value", thrown || got == m.v[p]);
	thrown = false;
	try { x.at(q) = 77; } catch (const std::exception&) { thrown = true; }
	ENSURES("checked access refuses an absent key", thrown == !m.Has(q));
	if (!thrown) m.v[p] = 77;
	Content(x, m);
	COVER("done");
}

PROOF(C12_set_lookup)
{
	M m; m.Any();
	Set x(m.o); Fill(x, m);
	Content(x, m);
	Lookup(x, m);
	COVER("done");
}

template < typename X > static void Inserted(const X& x, const M& m, const std::pair<typename X::iterator, bool>& r, u32 q, bool had)
{
	ENSURES("reports whether it was inserted", r.second == !had);
	ENSURES("points at the entry of the key", KeyOf(*r.first) == q);
}

PROOF(C12_map_insert)
{
	M m; m.Any();
	Map x(m.o); Fill(x, m);
	const u32 q = ANY(u32), w = ANY(u32);
	const bool had = m.Has(q);
	switch (vc_pick(7))
	{
	case 0: { const std::pair<u32, u32> e(q, w); Inserted(x, m, x.insert(e), q, had); m.Put(q, w, false); break; }
	case 1: Inserted(x, m, x.insert(std::make_pair(u32(q), u32(w))), q, had); m.Put(q, w, false); break;
	case 2: Inserted(x, m, x.emplace(q, w), q, had); m.Put(q, w, false); break;
	case 3: x[q] = w; m.Put(q, w, true); break;
	case 4: x[u32(q)] = w; m.Put(q, w, true); break;
	case 5: { const u32 r = x[q]; ENSURES("a new entry has the default value", r == (had ? m.v[m.Below(q)] : 0)); m.Put(q, 0, false); break; }
	case 6:
		{
			const u32 q2 = ANY(u32), w2 = ANY(u32);
			const std::pair<u32, u32> l[2] = { std::make_pair(q, w), std::make_pair(q2, w2) };
			if (vc_pick(2)) x.insert(l, l + 2); else x.insert({ l[0], l[1] });
			m.Put(q, w, false); m.Put(q2, w2, false);
			break;
		}
	}
	Content(x, m);
	COVER("done");
}

PROOF(C12_map_hint)
{
	M m; m.Any();
	Map x(m.o); Fill(x, m);
	const u32 q = ANY(u32), w = ANY(u32);
	const size_t h = vc_pick(Max + 1);
	REQUIRES(h <= m.n);
	const Map::const_iterator hint = x.cbegin() + h;
	Map::iterator r;
	switch (vc_pick(3))
	{
	case 0: { const std::pair<u32, u32> e(q, w); r = x.insert(hint, e); break; }
	case 1: r = x.insert(hint, std::make_pair(u32(q), u32(w))); break;
	case 2: r = x.emplace_hint(hint, q, w); break;
	}
	m.Put(q, w, false);
	ENSURES("points at the entry of the key", r - x.begin() == (ptrdiff_t)m.Below(q));
	Content(x, m);
	COVER("done");
}

PROOF(C12_map_erase)
{
	M m; m.Any();
	Map x(m.o); Fill(x, m);
	switch (vc_pick(4))
	{
	case 0: { const u32 q = ANY(u32); const bool had = m.Has(q); ENSURES("number of erased entries", x.erase(q) == (had ? 1 : 0)); if (had) m.Cut(m.Below(q), m.Below(q) + 1); break; }
	case 1:
		{
			const size_t p = vc_pick(Max);
			REQUIRES(p < m.n);
			const Map::iterator r = vc_pick(2) ? x.erase(x.begin() + p) : x.erase(x.cbegin() + p);
			m.Cut(p, p + 1);
			ENSURES("points behind the erased entry", r - x.begin() == (ptrdiff_t)p);
			break;
		}
	case 2:
		{
			const size_t p = vc_pick(Max + 1), e = vc_pick(Max + 1);
			REQUIRES(p <= e && e <= m.n);
			const Map::iterator r = x.erase(x.cbegin() + p, x.cbegin() + e);
			m.Cut(p, e);
			ENSURES("points behind the erased entries", r - x.begin() == (ptrdiff_t)p);
			break;
		}
	case 3: x.clear(); m.n = 0; break;
	}
	Content(x, m);
	Lookup(x, m);
	COVER("done");
}

template < typename X > static void Whole()
{
	M a, b; a.Any(3); b.Any(3);
	X x(a.o), y(b.o); Fill(x, a); Fill(y, b);
	switch (vc_pick(6))
	{
	case 0: { X z(x); Content(z, a); z.clear(); Content(x, a); break; }
	case 1: { X z(std::move(x)); Content(z, a); Lookup(z, a); break; }
	case 2: y = x; Content(y, a); Lookup(y, a); y.clear(); Content(x, a); break;
	case 3: y = std::move(x); Content(y, a); Lookup(y, a); break;
	case 4: x.swap(y); Content(x, b); Lookup(x, b); Content(y, a); break;
	case 5: { X z(x.begin(), x.end(), a.o); Content(z, a); Lookup(z, a); break; }
	}
	COVER("done");
}
PROOF(C12_map_whole) { Whole<Map>(); }
PROOF(C12_set_whole) { Whole<Set>(); }

// copies that take an allocator keep the order relation of the original
template < typename X > static void WithAllocator()
{
	M a; a.Any(3);
	X x(a.o); Fill(x, a);
	if (vc_pick(2))
	{
		X z(x, x.get_allocator());
		Content(z, a); Lookup(z, a);
	}
	else
	{
		X z(std::move(x), x.get_allocator());
		Content(z, a); Lookup(z, a);
	}
	COVER("done");
}
PROOF(C12_map_allocator_copy) { WithAllocator<Map>(); }
PROOF(C12_set_allocator_copy) { WithAllocator<Set>(); }

PROOF(C12_map_compare)
{
	M a, b; a.Any(3); b.Any(3);
	REQUIRES(a.o.desc == b.o.desc);
	Map x(a.o), y(b.o); Fill(x, a); Fill(y, b);
	bool eq = a.n == b.n;
	for (size_t i = 0; i < a.n && i < b.n; ++i) eq = eq && a.k[i] == b.k[i] && a.v[i] == b.v[i];
	bool lt = false, decided = false;
	for (size_t i = 0; i < a.n && i < b.n && !decided; ++i)
	{
		if (a.k[i] != b.k[i]) { lt = a.k[i] < b.k[i]; decided = true; }
		else if (a.v[i] != b.v[i]) { lt = a.v[i] < b.v[i]; decided = true; }
	}
	if (!decided) lt = a.n < b.n;
	ENSURES("equal exactly when the entries are", (x == y) == eq && (x != y) == !eq);
	ENSURES("lexicographic order", (x < y) == lt && (x >= y) == !lt && (x > y) == (!lt && !eq) && (x <= y) == (lt || eq));
	COVER("done");
}

PROOF(C12_set_insert)
{
	M m; m.Any();
	Set x(m.o); Fill(x, m);
	const u32 q = ANY(u32);
	const bool had = m.Has(q);
	switch (vc_pick(6))
	{
	case 0: Inserted(x, m, x.insert(q), q, had); break;
	case 1: Inserted(x, m, x.insert(u32(q)), q, had); break;
	case 2: Inserted(x, m, x.emplace(q), q, had); break;
	case 3:
	case 4:
		{
			const size_t h = vc_pick(Max + 1);
			REQUIRES(h <= m.n);
			const Set::iterator r = vc_pick(2) ? x.insert(x.cbegin() + h, q) : x.emplace_hint(x.cbegin() + h, q);
			ENSURES("points at the entry of the key", *r == q);
			break;
		}
	case 5:
		{
			const u32 l[2] = { ANY(u32), q };
			if (vc_pick(2)) x.insert(l, l + 2); else x.insert({ l[0], l[1] });
			m.Put(l[0], 0, false);
			break;
		}
	}
	m.Put(q, 0, false);
	Content(x, m);
	COVER("done");
}

PROOF(C12_set_erase)
{
	M m; m.Any();
	Set x(m.o); Fill(x, m);
	switch (vc_pick(4))
	{
	case 0: { const u32 q = ANY(u32); const bool had = m.Has(q); ENSURES("number of erased entries", x.erase(q) == (had ? 1 : 0)); if (had) m.Cut(m.Below(q), m.Below(q) + 1); break; }
	case 1: { const size_t p = vc_pick(Max); REQUIRES(p < m.n); ENSURES("points behind the erased entry", x.erase(x.begin() + p) - x.begin() == (ptrdiff_t)p); m.Cut(p, p + 1); break; }
	case 2: { const size_t p = vc_pick(Max + 1), e = vc_pick(Max + 1); REQUIRES(p <= e && e <= m.n); ENSURES("points behind the erased entries", x.erase(x.begin() + p, x.begin() + e) - x.begin() == (ptrdiff_t)p); m.Cut(p, e); break; }
	case 3: x.clear(); m.n = 0; break;
	}
	Content(x, m);
	Lookup(x, m);
	COVER("done");
}
