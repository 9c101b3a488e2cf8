// C25 reference counting collections and bidirectional maps: every operation on an arbitrary content of up to three entries.
// @opt: fork_select=true
// @sources: toolkit.cpp
#include <vc.h>
#include <map>
#include <stingraykit/collection/bimap.h>
#include <stingraykit/collection/RefCounter.h>
#include <stingraykit/collection/RefCountingMap.h>
#include <stingraykit/collection/RefCountingSet.h>
#include <stingraykit/collection/RefCountingValue.h>
using namespace stingray;

// ---------------------------------------------------------------- a single counter: every count
PROOF(C25_counter)
{
	RefCounter c;
	vc_havoc(&c, sizeof(c));
	const size_t n = c.count();
	REQUIRES(n < ~(size_t)0);
	int calls = 0;
	switch (vc_pick(3))
	{
	case 0: c.set([&]{ ++calls; }); ENSURES("set counts, and notifies on the first", c.count() == n + 1 && calls == (n == 0)); break;
	case 1: { const bool r = c.release([&]{ ++calls; }); ENSURES("release counts down, and notifies on the last", r == (n > 0) && c.count() == (n ? n - 1 : 0) && calls == (n == 1)); break; }
	case 2: c.reset([&]{ ++calls; }); ENSURES("reset notifies when there was something", c.count() == 0 && calls == (n > 0)); break;
	}
	COVER("done");
}
PROOF(C25_counter_initial)
{
	RefCounter c;
	ENSURES("starts at zero", c.count() == 0);
	RefCountingValue<u32> v;
	ENSURES("starts empty", v.count() == 0 && !v.get());
	COVER("done");
}

PROOF(C25_value)
{
	RefCountingValue<u32> c;
	vc_bounded("at most 3 references");
	const u32 first = ANY(u32), w = ANY(u32);
	const size_t n = vc_pick(4);
	for (size_t i = 0; i < n; ++i)
		c.set([&]{ return i ? ~first : first; });
	ENSURES("the value of the first stays", c.count() == n && c.get().is_initialized() == (n > 0) && (n == 0 || *c.get() == first));
	int calls = 0;
	u32 seen = ~first;
	size_t k = n;
	u32 now = first;
	switch (vc_pick(3))
	{
	case 0: { const u32 r = c.set([&]{ ++calls; return w; }); k = n + 1; now = n ? first : w; ENSURES("created on the first only", calls == (n == 0) && r == now); break; }
	case 1: { const bool r = c.release([&](u32 v){ ++calls; seen = v; }); k = n ? n - 1 : 0; ENSURES("removed on the last only", r == (n > 0) && calls == (n == 1) && (n != 1 || seen == first)); break; }
	case 2: c.reset([&](u32 v){ ++calls; seen = v; }); k = 0; ENSURES("reset removes", calls == (n > 0) && (n == 0 || seen == first)); break;
	}
	ENSURES("present exactly while referenced", c.count() == k && c.get().is_initialized() == (k > 0) && (k == 0 || *c.get() == now));
	COVER("done");
}

// ---------------------------------------------------------------- collections
static const size_t Max = 3;
struct M
{
	size_t n; u32 k[Max + 1], v[Max + 1]; size_t r[Max + 1];
	void Any(size_t refs)
	{
		n = vc_pick(Max + 1);
		vc_bounded("at most 3 keys, 2 references each");
		for (size_t i = 0; i < n; ++i)
		{
			k[i] = ANY(u32); v[i] = ANY(u32);
			r[i] = 1 + vc_pick(refs);
			REQUIRES(i == 0 || k[i - 1] < k[i]);
		}
	}
	size_t Below(u32 q) const { size_t i = 0; while (i < n && k[i] < q) ++i; return i; }
	bool Has(u32 q) const { const size_t i = Below(q); return i < n && k[i] == q; }
	void Insert(size_t p, u32 key, u32 val)
	{
		for (size_t i = n; i > p; --i) { k[i] = k[i - 1]; v[i] = v[i - 1]; r[i] = r[i - 1]; }
		k[p] = key; v[p] = val; r[p] = 1; ++n;
	}
	void Remove(size_t p)
	{
		for (; p + 1 < n; ++p) { k[p] = k[p + 1]; v[p] = v[p + 1]; r[p] = r[p + 1]; }
		--n;
	}
};

typedef RefCountingSet<u32> Set;
typedef RefCountingMap<u32, u32> Map;

static void Fill(Set& x, const M& m)
{
	for (size_t i = 0; i < m.n; ++i)
		for (size_t j = 0; j < m.r[i]; ++j)
			x.add(m.k[i], [](u32) { });
}
static void Fill(Map& x, const M& m)
{
	for (size_t i = 0; i < m.n; ++i)
		for (size_t j = 0; j < m.r[i]; ++j)
			x.add(m.k[i], [&](u32) { return m.v[i]; });
}
static bool Entry(const std::pair<const u32&, const u32&>& e, const M& m, size_t i) { return e.first == m.k[i] && e.second == m.v[i]; }
static bool Entry(const std::pair<const u32&, u32&>& e, const M& m, size_t i) { return e.first == m.k[i] && e.second == m.v[i]; }
static bool Entry(u32 e, const M& m, size_t i) { return e == m.k[i]; }

template < typename X > static void Is(X& x, const M& m)
{
	const X& c = x;
	ENSURES("size", c.size() == m.n && c.empty() == (m.n == 0));
	size_t i = 0;
	for (typename X::const_iterator it = c.begin(); it != c.end(); ++it, ++i)
		ENSURES("the entries referenced", i < m.n && Entry(*it, m, i));
	ENSURES("no entry missing", i == m.n);
	const u32 q = ANY(u32);
	const size_t p = m.Below(q);
	const bool has = p < m.n && m.k[p] == q;
	ENSURES("the count is additions minus removals", c.count(q) == (has ? m.r[p] : 0));
	ENSURES("found exactly when present", (c.find(q) != c.end()) == has && (x.find(q) != x.end()) == has);
	if (has)
		ENSURES("finds the entry", Entry(*x.find(q), m, p));
}

PROOF(C25_set)
{
	M m; m.Any(2);
	Set x; Fill(x, m);
	const u32 q = ANY(u32);
	const size_t p = m.Below(q);
	const bool has = m.Has(q);
	int calls = 0;
	u32 seen = ~q;
	const auto note = [&](u32 v) { ++calls; seen = v; };
	switch (vc_pick(4))
	{
	case 0:
		ENSURES("points at the entry", *x.add(q, note) == q);
		ENSURES("notice exactly on the first addition", calls == !has && (has || seen == q));
		if (has) ++m.r[p]; else m.Insert(p, q, 0);
		break;
	case 1:
		{
			const size_t e = x.erase(q, note);
			const bool last = has && m.r[p] == 1;
			ENSURES("notice exactly on the last removal", e == (has ? 1 : 0) && calls == last && (!last || seen == q));
			if (has && --m.r[p] == 0) m.Remove(p);
			break;
		}
	case 2:
		{
			REQUIRES(has);
			x.erase(x.find(q), note);
			const bool last = m.r[p] == 1;
			ENSURES("notice exactly on the last removal", calls == last && (!last || seen == q));
			if (--m.r[p] == 0) m.Remove(p);
			break;
		}
	case 3:
		{
			size_t i = 0;
			bool ok = true;
			x.clear([&](u32 v) { ok = ok && i < m.n && m.k[i] == v; ++i; });
			ENSURES("clearing gives one notice for each entry", ok && i == m.n);
			m.n = 0;
			break;
		}
	}
	Is(x, m);
	COVER("done");
}

PROOF(C25_map)
{
	M m; m.Any(2);
	Map x; Fill(x, m);
	const u32 q = ANY(u32), w = ANY(u32);
	const size_t p = m.Below(q);
	const bool has = m.Has(q);
	int calls = 0;
	u32 seen = ~q, val = 0;
	const auto note = [&](u32 k, u32 v) { ++calls; seen = k; val = v; };
	switch (vc_pick(4))
	{
	case 0:
		{
			const Map::iterator it = x.add(q, [&](u32 k) { ++calls; seen = k; return w; });
			ENSURES("points at the entry", (*it).first == q && (*it).second == (has ? m.v[p] : w));
			ENSURES("created exactly on the first addition", calls == !has && (has || seen == q));
			if (has) ++m.r[p]; else m.Insert(p, q, w);
			break;
		}
	case 1:
		{
			const size_t e = x.erase(q, note);
			const bool last = has && m.r[p] == 1;
			ENSURES("notice exactly on the last removal", e == (has ? 1 : 0) && calls == last && (!last || (seen == q && val == m.v[p])));
			if (has && --m.r[p] == 0) m.Remove(p);
			break;
		}
	case 2:
		{
			REQUIRES(has);
			x.erase(x.find(q), note);
			const bool last = m.r[p] == 1;
			ENSURES("notice exactly on the last removal", calls == last && (!last || (seen == q && val == m.v[p])));
			if (--m.r[p] == 0) m.Remove(p);
			break;
		}
	case 3:
		{
			size_t i = 0;
			bool ok = true;
			x.clear([&](u32 k, u32 v) { ok = ok && i < m.n && m.k[i] == k && m.v[i] == v; ++i; });
			ENSURES("clearing gives one notice for each entry", ok && i == m.n);
			m.n = 0;
			break;
		}
	}
	Is(x, m);
	COVER("done");
}

// an addition that fails leaves nothing behind
PROOF(C25_failing_addition)
{
	struct Boom { };
	M m; m.Any(1);
	Map x; Set s; Fill(x, m); Fill(s, m);
	const u32 q = ANY(u32);
	REQUIRES(!m.Has(q));
	bool a = false, b = false;
	try { x.add(q, [](u32) -> u32 { throw Boom(); }); } catch (const Boom&) { a = true; }
	try { s.add(q, [](u32) { throw Boom(); }); } catch (const Boom&) { b = true; }
	ENSURES("the failure is reported", a && b);
	Is(x, m);
	Is(s, m);
	COVER("done");
}

// ---------------------------------------------------------------- bidirectional map
typedef bimap<std::map<u32, u32>, std::map<u32, u32> > Bimap;

struct P { size_t n; u32 l[Max + 1], r[Max + 1]; };

static void Is(const Bimap& x, const P& m)
{
	ENSURES("size", x.size() == m.n && x.empty() == (m.n == 0));
	size_t a = 0, b = 0;
	for (Bimap::left_const_iterator it = x.left_begin(); it != x.left_end(); ++it) ++a;
	for (Bimap::right_const_iterator it = x.right_begin(); it != x.right_end(); ++it) ++b;
	ENSURES("both directions have the same number of pairs", a == m.n && b == m.n);
	for (size_t i = 0; i < m.n; ++i)
	{
		ENSURES("left direction", x.left_find(m.l[i]) != x.left_end() && x.left_find(m.l[i])->second == m.r[i]);
		ENSURES("right direction", x.right_find(m.r[i]) != x.right_end() && x.right_find(m.r[i])->second == m.l[i]);
	}
}

PROOF(C25_bimap)
{
	P m;
	m.n = vc_pick(Max);
	vc_bounded("at most 2 pairs before the operation");
	Bimap x;
	for (size_t i = 0; i < m.n; ++i)
	{
		m.l[i] = ANY(u32); m.r[i] = ANY(u32);
		for (size_t j = 0; j < i; ++j) REQUIRES(m.l[i] != m.l[j] && m.r[i] != m.r[j]);
		if (i) x.left_insert(m.l[i], m.r[i]); else x.right_insert(m.r[i], m.l[i]);
	}
	const u32 a = ANY(u32), b = ANY(u32);
	bool fits = true;
	size_t la = m.n, rb = m.n;
	for (size_t i = 0; i < m.n; ++i)
	{
		if (m.l[i] == a) la = i;
		if (m.r[i] == b) rb = i;
	}
	size_t gone = m.n;
	switch (vc_pick(6))
	{
	case 0: x.left_insert(a, b); if (la == m.n && rb == m.n) { m.l[m.n] = a; m.r[m.n++] = b; } gone = m.n; break;
	case 1: x.right_insert(b, a); if (la == m.n && rb == m.n) { m.l[m.n] = a; m.r[m.n++] = b; } gone = m.n; break;
	case 2: x.left_erase(a); gone = la; break;
	case 3: x.right_erase(b); gone = rb; break;
	case 4: x.left_erase(x.left_find(a)); gone = la; break;
	case 5: x.clear(); m.n = 0; gone = 0; break;
	}
	if (gone < m.n)
	{
		--m.n;
		m.l[gone] = m.l[m.n]; m.r[gone] = m.r[m.n];
	}
	Is(x, m);
	COVER("done");
}
