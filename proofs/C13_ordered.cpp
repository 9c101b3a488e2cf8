// C13 insertion-ordered maps and sets: every operation on an arbitrary content of up to three entries, arbitrary keys and values.
// @sources: toolkit.cpp
// @opaque: basic_string_ostream<char>::Insert
// @opt: fork_select=true
// @opt: max_steps=20000000
#include <vc.h>
#include <stingraykit/string/ToString.h>
#include <stingraykit/collection/iterator_base.h>
#include <stingraykit/collection/ordered_map.h>
#include <stingraykit/collection/ordered_set.h>
using namespace stingray;

static const size_t Max = 3;

// an equivalence with a state: all bits of a key count, or only the low ones
struct Order
{
	u32 mask;
	explicit Order(u32 m = ~0u) : mask(m) { }
	bool operator () (u32 a, u32 b) const { return (a & mask) < (b & mask); }
};

typedef ordered_map<u32, u32, Order> Map;
typedef ordered_set<u32, Order> Set;

// entries in order of insertion
struct M
{
	Order o; size_t n; u32 k[Max + 3], v[Max + 3];
	M() : n(0) { }
	void Any(size_t max = Max, bool both = true)
	{
		o = Order(!both || vc_pick(2) ? 0xff : ~0u);
		n = vc_pick(max + 1);
		vc_bounded("at most 3 entries before the operation");
		for (size_t i = 0; i < n; ++i)
		{
			k[i] = ANY(u32); v[i] = ANY(u32);
			for (size_t j = 0; j < i; ++j) REQUIRES(((k[i] ^ k[j]) & o.mask) != 0);
		}
	}
	size_t At(u32 key) const			// index of the key, n when absent
	{
		size_t r = 0;
		while (r < n && ((k[r] ^ key) & o.mask) != 0) ++r;
		return r;
	}
	bool Has(u32 key) const { return At(key) < n; }
	void Put(u32 key, u32 val, bool assign) { PutAt(n, key, val, assign); }
	void PutAt(size_t p, u32 key, u32 val, bool assign)
	{
		const size_t i = At(key);
		if (i < n)
		{
			if (assign) v[i] = val;
			return;
		}
		for (size_t j = n; j > p; --j) { k[j] = k[j - 1]; v[j] = v[j - 1]; }
		k[p] = key; v[p] = val; ++n;
	}
	void Cut(size_t from, size_t to)
	{
		for (size_t i = to; i < n; ++i) { k[from + i - to] = k[i]; v[from + i - to] = v[i]; }
		n -= to - from;
	}
};

static void Fill(Map& x, const M& m) { for (size_t i = 0; i < m.n; ++i) x[m.k[i]] = m.v[i]; }
static void Fill(Set& x, const M& m) { for (size_t i = 0; i < m.n; ++i) x.insert(m.k[i]); }
static u32 KeyOf(const std::pair<const u32, u32>& e) { return e.first; }
static u32 KeyOf(u32 e) { return e; }
static bool Entry(const std::pair<const u32, u32>& e, const M& m, size_t i) { return e.first == m.k[i] && e.second == m.v[i]; }
static bool Entry(u32 e, const M& m, size_t i) { return e == m.k[i]; }
template < typename X, typename It > static size_t Index(X& x, It it) { return std::distance(typename X::const_iterator(x.begin()), typename X::const_iterator(it)); }

template < typename X > static void Content(const X& x, const M& m)
{
	ENSURES("size", x.size() == m.n && x.empty() == (m.n == 0));
	size_t i = 0;
	for (typename X::const_iterator it = x.begin(); it != x.end(); ++it, ++i)
		ENSURES("exactly the entries, in order of insertion", i < m.n && Entry(*it, m, i));
	ENSURES("no entry missing", i == m.n);
	for (typename X::const_reverse_iterator it = x.rbegin(); it != x.rend(); ++it, --i)
		ENSURES("backward order is the opposite", i > 0 && Entry(*it, m, i - 1));
	ENSURES("backward iteration complete", i == 0);
}

template < typename X > static void Lookup(X& x, const M& m)
{
	const X& c = x;
	const u32 q = ANY(u32);
	const size_t p = m.At(q);
	ENSURES("found exactly when present", (x.find(q) != x.end()) == (p < m.n) && (c.find(q) != c.end()) == (p < m.n) && c.count(q) == (p < m.n ? 1 : 0));
	if (p < m.n)
		ENSURES("the entry found is the one of the key", Entry(*x.find(q), m, p) && Entry(*c.find(q), m, p) && Index(x, x.find(q)) == p);
}

PROOF(C13_map_lookup)
{
	M m; m.Any();
	Map x(m.o); Fill(x, m);
	Content(x, m);
	Lookup(x, m);
	const Map& c = x;
	const u32 q = ANY(u32);
	const size_t p = m.At(q);
	bool thrown = false;
	u32 got = 0;
	try { got = c.at(q); } catch (const std::exception&) { thrown = true; }
	ENSURES("checked access refuses an absent key", thrown == (p == m.n));
	ENSURES("checked access gives the value", thrown || got == m.v[p]);
	thrown = false;
	try { x.at(q) = 77; } catch (const std::exception&) { thrown = true; }
	ENSURES("checked access refuses an absent key", thrown == (p == m.n));
	if (!thrown) m.v[p] = 77;
	Content(x, m);
	COVER("done");
}

PROOF(C13_set_lookup)
{
	M m; m.Any();
	Set x(m.o); Fill(x, m);
	Content(x, m);
	Lookup(x, m);
	COVER("done");
}

template < typename R > static void Inserted(const R& r, const M& m, u32 q, bool had)
{
	ENSURES("reports whether it was inserted", r.second == !had);
	ENSURES("points at the entry of the key", ((KeyOf(*r.first) ^ q) & m.o.mask) == 0);
}

PROOF(C13_map_insert)
{
	M m; m.Any(Max, false);
	Map x(m.o); Fill(x, m);
	const u32 q = ANY(u32), w = ANY(u32);
	const bool had = m.Has(q);
	switch (vc_pick(7))
	{
	case 0: { const std::pair<const u32, u32> e(q, w); Inserted(x.insert(e), m, q, had); m.Put(q, w, false); break; }
	case 1: Inserted(x.insert(std::make_pair(u32(q), u32(w))), m, q, had); m.Put(q, w, false); break;
	case 2: Inserted(x.emplace(q, w), m, q, had); m.Put(q, w, false); break;
	case 3: x[q] = w; m.Put(q, w, true); break;
	case 4: x[u32(q)] = w; m.Put(q, w, true); break;
	case 5: { const u32 r = x[q]; ENSURES("a new entry has the default value", r == (had ? m.v[m.At(q)] : 0)); m.Put(q, 0, false); break; }
	case 6:
		{
			REQUIRES(m.n <= 1);
			const u32 q2 = ANY(u32), w2 = ANY(u32);
			const std::pair<const u32, u32> l[2] = { std::make_pair(q, w), std::make_pair(q2, w2) };
			if (vc_pick(2)) x.insert(l, l + 2); else x.insert({ l[0], l[1] });
			m.Put(q, w, false); m.Put(q2, w2, false);
			break;
		}
	}
	Content(x, m);
	Lookup(x, m);
	COVER("done");
}

template < typename X, typename F > static void Hinted(const F& insert)
{
	M m; m.Any(Max, false);
	X x(m.o); Fill(x, m);
	const u32 q = ANY(u32), w = ANY(u32);
	const size_t h = vc_pick(Max + 1);
	REQUIRES(h <= m.n);
	typename X::const_iterator hint = x.cbegin();
	std::advance(hint, h);
	const typename X::iterator r = insert(x, hint, q, w);
	m.PutAt(h, q, w, false);
	ENSURES("points at the entry of the key", Index(x, r) == m.At(q));
	Content(x, m);
	Lookup(x, m);
	COVER("done");
}
static Map::iterator MapHint(Map& x, Map::const_iterator h, u32 q, u32 w)
{
	const std::pair<const u32, u32> e(q, w);
	switch (vc_pick(3))
	{
	case 0: return x.insert(h, e);
	case 1: return x.insert(h, std::make_pair(u32(q), u32(w)));
	default: return x.emplace_hint(h, q, w);
	}
}
static Set::iterator SetHint(Set& x, Set::const_iterator h, u32 q, u32)
{
	switch (vc_pick(3))
	{
	case 0: return x.insert(h, q);
	case 1: return x.insert(h, u32(q));
	default: return x.emplace_hint(h, q);
	}
}
PROOF(C13_map_hint) { Hinted<Map>(&MapHint); }
PROOF(C13_set_hint) { Hinted<Set>(&SetHint); }

static void Add(Map& x, u32 k, u32 v) { x.insert(std::make_pair(k, v)); }
static void Add(Set& x, u32 k, u32) { x.insert(k); }
static Map::iterator EraseAt(Map& x, Map::iterator it) { return vc_pick(2) ? x.erase(it) : x.erase(Map::const_iterator(it)); }
static Set::iterator EraseAt(Set& x, Set::iterator it) { return x.erase(it); }

template < typename X > static void Erase()
{
	M m; m.Any(Max, false);
	X x(m.o); Fill(x, m);
	switch (vc_pick(4))
	{
	case 0: { const u32 q = ANY(u32); const size_t p = m.At(q); ENSURES("number of erased entries", x.erase(q) == (p < m.n ? 1 : 0)); if (p < m.n) m.Cut(p, p + 1); break; }
	case 1:
		{
			const size_t p = vc_pick(Max);
			REQUIRES(p < m.n);
			typename X::iterator it = x.begin(); std::advance(it, p);
			const typename X::iterator r = EraseAt(x, it);
			m.Cut(p, p + 1);
			ENSURES("points behind the erased entry", Index(x, r) == p);
			break;
		}
	case 2:
		{
			const size_t p = vc_pick(Max + 1), e = vc_pick(Max + 1);
			REQUIRES(p <= e && e <= m.n);
			typename X::const_iterator f = x.cbegin(), l = x.cbegin(); std::advance(f, p); std::advance(l, e);
			const typename X::iterator r = x.erase(f, l);
			m.Cut(p, e);
			ENSURES("points behind the erased entries", Index(x, r) == p);
			break;
		}
	case 3: x.clear(); m.n = 0; break;
	}
	Content(x, m);
	Lookup(x, m);
	const u32 again = ANY(u32);
	Add(x, again, 5);
	m.Put(again, 5, false);
	Content(x, m);
	COVER("done");
}
PROOF(C13_map_erase) { Erase<Map>(); }
PROOF(C13_set_erase) { Erase<Set>(); }

static void Touch(Map& x) { for (Map::iterator i = x.begin(); i != x.end(); ++i) i->second ^= 1; x.clear(); }
static void Touch(Set& x) { x.clear(); }

template < typename X > static void Whole()
{
	M a, b; a.Any(2); b.Any(2);
	const u32 op = vc_pick(8);
	REQUIRES(op != 2 || a.o.mask == b.o.mask);
	X x(a.o), y(b.o); Fill(x, a); Fill(y, b);
	switch (op)
	{
	case 0: { X z(x); Content(z, a); Lookup(z, a); Touch(z); Content(x, a); Lookup(x, a); break; }
	case 1: { X z(std::move(x)); Content(z, a); Lookup(z, a); break; }
	case 2: y = x; Content(y, a); Lookup(y, a); Touch(y); Content(x, a); Lookup(x, a); break;
	case 3: y = std::move(x); Content(y, a); Lookup(y, a); break;
	case 4: x.swap(y); Content(x, b); Lookup(x, b); Content(y, a); break;
	case 5: { X z(x.begin(), x.end(), a.o); Content(z, a); Lookup(z, a); break; }
	case 6: { X z(x, x.get_allocator()); Content(z, a); Lookup(z, a); Touch(z); Content(x, a); break; }
	case 7: { X& self = x; x = self; Content(x, a); Lookup(x, a); break; }
	}
	COVER("done");
}
PROOF(C13_map_whole) { Whole<Map>(); }
PROOF(C13_set_whole) { Whole<Set>(); }

PROOF(C13_set_insert)
{
	M m; m.Any(Max, false);
	Set x(m.o); Fill(x, m);
	const u32 q = ANY(u32);
	const bool had = m.Has(q);
	switch (vc_pick(4))
	{
	case 0: Inserted(x.insert(q), m, q, had); break;
	case 1: Inserted(x.insert(u32(q)), m, q, had); break;
	case 2: Inserted(x.emplace(q), m, q, had); break;
	case 3:
		{
			REQUIRES(m.n <= 1);
			const u32 l[2] = { ANY(u32), q };
			if (vc_pick(2)) x.insert(l, l + 2); else x.insert({ l[0], l[1] });
			m.Put(l[0], 0, false);
			break;
		}
	}
	m.Put(q, 0, false);
	Content(x, m);
	Lookup(x, m);
	COVER("done");
}

PROOF(C13_map_compare)
{
	M a, b; a.Any(2); b.Any(2);
	REQUIRES(a.o.mask == ~0u && b.o.mask == ~0u);
	Map x(a.o), y(b.o); Fill(x, a); Fill(y, b);
	bool eq = a.n == b.n;
	for (size_t i = 0; i < a.n && i < b.n; ++i) eq = eq && a.k[i] == b.k[i] && a.v[i] == b.v[i];
	ENSURES("equal exactly when the entries and their order are", (x == y) == eq && (x != y) == !eq);
	COVER("done");
}
