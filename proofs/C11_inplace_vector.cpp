// C11 the vector with inline capacity: every operation from every length around the inline capacity, arbitrary values.
// @sources: toolkit.cpp
#include <vc.h>
#include <stingraykit/collection/inplace_vector.h>
using namespace stingray;

static int Live;			// objects constructed and not yet destroyed
static int Countdown = -1;	// constructions until the next one throws

struct Boom { };

// knows its own address: destroying twice, using or copying a dead or relocated object is noticed
struct Item
{
	Item* self; u32 v;
	void Born() { if (Countdown >= 0 && Countdown-- == 0) throw Boom(); self = this; ++Live; }
	Item(u32 v_) : v(v_) { Born(); }
	Item(const Item& o) : v(o.v) { ENSURES("copied from a live object", o.self == &o); Born(); }
	Item& operator = (const Item& o) { ENSURES("assignment between live objects", o.self == &o && self == this); v = o.v; return *this; }
	~Item() { ENSURES("destroyed once", self == this); self = 0; --Live; }
	u32 Get() const { ENSURES("a live object is accessed", self == this); return v; }
};

static const size_t Max = 5;
typedef inplace_vector<Item, 3> Vec;

struct Vals { u32 v[Max + 1]; size_t n; };

static void Fill(Vec& x, Vals& m, size_t max)
{
	m.n = vc_pick(max + 1);
	vc_bounded("3 inline elements, at most 5 elements in all");
	for (size_t i = 0; i < m.n; ++i)
	{
		m.v[i] = ANY(u32);
		x.push_back(Item(m.v[i]));
	}
}

static void Is(Vec& x, const Vals& m)
{
	const Vec& c = x;
	ENSURES("size", x.size() == m.n && x.empty() == (m.n == 0) && x.capacity() >= m.n);
	for (size_t i = 0; i < m.n; ++i)
		ENSURES("element by index", x[i].Get() == m.v[i] && c[i].Get() == m.v[i] && c.at(i).Get() == m.v[i]);
	size_t i = 0;
	for (Vec::iterator it = x.begin(); it != x.end(); ++it, ++i)
		ENSURES("forward iteration", i < m.n && it->Get() == m.v[i]);
	ENSURES("forward iteration is complete", i == m.n);
	for (Vec::const_reverse_iterator it = c.rbegin(); it != c.rend(); ++it, --i)
		ENSURES("backward iteration", i > 0 && it->Get() == m.v[i - 1]);
	ENSURES("backward iteration is complete", i == 0);
	if (m.n)
		ENSURES("front and back", x.front().Get() == m.v[0] && c.front().Get() == m.v[0] && x.back().Get() == m.v[m.n - 1] && c.back().Get() == m.v[m.n - 1]);
	ENSURES("distance", x.end() - x.begin() == (ptrdiff_t)m.n && c.end() - c.begin() == (ptrdiff_t)m.n);
}

PROOF(C11_push)
{
	{
		Vec x; Vals m;
		Fill(x, m, Max);
		Is(x, m);
		const u32 w = ANY(u32);
		switch (vc_pick(3))
		{
		case 0: x.emplace_back(w); break;
		case 1: { const Item i(w); x.push_back(i); break; }
		case 2: x.push_back(Item(w)); break;
		}
		m.v[m.n++] = w;
		Is(x, m);
		ENSURES("one object for each element", Live == (int)m.n);
		COVER("done");
	}
	ENSURES("every element destroyed", Live == 0);
}

PROOF(C11_access)
{
	Vec x; Vals m;
	Fill(x, m, Max);
	const size_t i = ANY(size_t);
	bool thrown = false;
	u32 got = 0;
	const u32 op = vc_pick(3);
	try { got = op == 0 ? x.at(i).Get() : op == 1 ? x[i].Get() : const_cast<const Vec&>(x)[i].Get(); } catch (const std::exception&) { thrown = true; }
	ENSURES("access outside is refused", thrown == (i >= m.n));
	if (!thrown)
	{
		ENSURES("the element asked for", got == m.v[i]);
		const u32 w = ANY(u32);
		m.v[i] = w;
		x[i] = Item(w);
		COVER("inside");
	}
	Is(x, m);
}

PROOF(C11_iterator_arithmetic)
{
	Vec x; Vals m;
	Fill(x, m, Max);
	const size_t a = vc_pick(Max + 1), b = vc_pick(Max + 1);
	REQUIRES(a <= m.n && b <= m.n);
	Vec::iterator i = x.begin() + a, j = x.begin() + b;
	ENSURES("distance", j - i == (ptrdiff_t)b - (ptrdiff_t)a);
	ENSURES("equality is same position", (i == j) == (a == b) && (i != j) == (a != b));
	ENSURES("order is order of position", (i < j) == (a < b));
	if (b < m.n)
		ENSURES("reaches the element", (i + (j - i))->Get() == m.v[b]);
	Vec::const_iterator ci = i;
	ENSURES("conversion keeps the position", ci - Vec::const_iterator(x.begin()) == (ptrdiff_t)a);
	COVER("done");
}

PROOF(C11_copy_move)
{
	{
		Vec x; Vals m;
		Fill(x, m, Max);
		switch (vc_pick(7))
		{
		case 6: { Vec& same = x; x = same; Is(x, m); break; }
		case 0: { Vec y(x); Is(y, m); Is(x, m); y.push_back(Item(1)); Is(x, m); break; }
		case 1: { Vec y(std::move(x)); Is(y, m); m.n = 0; Is(x, m); break; }
		case 2: { Vec y; Vals k; Fill(y, k, Max); y = x; Is(y, m); Is(x, m); y.push_back(Item(1)); Is(x, m); break; }
		case 3: { Vec y; Vals k; Fill(y, k, Max); y = std::move(x); Is(y, m); m.n = 0; Is(x, m); break; }
		case 4: { Vec y; Vals k; Fill(y, k, Max); y.assign(x.begin(), x.end()); Is(y, m); Is(x, m); break; }
		case 5: { x.clear(); m.n = 0; Is(x, m); ENSURES("cleared elements destroyed", Live == 0); x.push_back(Item(7)); m.v[0] = 7; m.n = 1; Is(x, m); break; }
		}
		ENSURES("one object for each element", Live == (int)m.n);
		x.reserve(vc_pick(8));
		Is(x, m);
		COVER("done");
	}
	ENSURES("every element destroyed", Live == 0);
}

PROOF(C11_throwing)
{
	{
		Vec x; Vals m;
		Fill(x, m, Max);
		const size_t left = vc_pick(Max + 1);
		bool thrown = false;
		switch (vc_pick(3))
		{
		case 0:
			{
				const Item i(9);
				Countdown = 0;
				try { x.push_back(i); } catch (const Boom&) { thrown = true; }
				ENSURES("the failure is reported", thrown);
				break;
			}
		case 1:
			Countdown = left;
			try { Vec y(x); } catch (const Boom&) { thrown = true; }
			ENSURES("the failure is reported", thrown == (left < m.n));
			break;
		case 2:
			{
				Vec y;
				y.push_back(Item(1)); y.push_back(Item(2));
				Countdown = left;
				try { y = x; } catch (const Boom&) { thrown = true; }
				ENSURES("the failure is reported", thrown == (left < m.n));
				Countdown = -1;
				break;
			}
		}
		Countdown = -1;
		Is(x, m);
		ENSURES("nothing leaked", Live == (int)m.n);
		COVER("done");
	}
	ENSURES("every element destroyed", Live == 0);
}
