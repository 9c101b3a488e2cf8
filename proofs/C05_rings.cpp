// C05 general ring buffers: every capacity, every cursor pair, every operation, observed through sizes and popped bytes.
// @sources: shared_ptr.cpp self_counter.cpp
#include <vc.h>
#include <stingraykit/io/MemoryCircularBuffer.h>
using namespace stingray;

struct G { size_t n, r, s; u8* p; u8* q; };

static void Any(G& g)
{
	g.n = ANY(size_t); g.r = ANY(size_t); g.s = ANY(size_t);
	REQUIRES(g.n >= 1 && g.n <= ((size_t)1 << 40) && g.r < g.n && g.s <= g.n);
	g.p = (u8*)vc_bytes(g.n);
	g.q = (u8*)vc_bytes(g.n);
}

// read position r, unread bytes q[0..s)
template < typename B > static void Reach(B& b, const G& g)
{
	if (g.r)
	{
		b.Push(ConstByteData(g.p, g.r));
		b.Pop();
	}
	if (g.s)
		b.Push(ConstByteData(g.q, g.s));
}

static size_t Contig(size_t n, size_t at, size_t len) { return len < n - at ? len : n - at; }

template < typename B > static void Sizes(B& b, size_t n, size_t s)
{
	ENSURES("size is bytes written minus bytes released", b.GetSize() == s);
	ENSURES("size and free size add up to the capacity", b.GetFreeSize() == n - s && b.GetStorageSize() == n);
	const size_t k = ANY(size_t);
	ENSURES("room is promised exactly when there is room", b.CanPush(k) == (k <= n - s));
}

// b holds s unread bytes from read position r; byte k of them is v
template < typename B > static void IsState(B& b, size_t n, size_t r, size_t s, size_t k, u8 v)
{
	Sizes(b, n, s);
	const size_t c = Contig(n, r, s);
	{
		CircularDataReserverPtr d = b.Pop();
		ENSURES("all contiguous unread bytes are handed out", d->GetData().size() == c);
		if (k < c)
			ENSURES("bytes come out in the order written", d->GetData()[k] == v);
	}
	Sizes(b, n, s - c);
	{
		CircularDataReserverPtr d = b.Pop();
		ENSURES("the rest follows", d->GetData().size() == s - c);
		if (k >= c && k < s)
			ENSURES("bytes come out in the order written", d->GetData()[k - c] == v);
	}
	Sizes(b, n, 0);
}

template < bool Discard > static void Initial()
{
	G g; Any(g);
	MemoryCircularBuffer<Discard> b(g.n);
	Reach(b, g);
	const size_t k = ANY(size_t);
	REQUIRES(k < g.s);
	IsState(b, g.n, g.r, g.s, k, g.q[k]);
	COVER("done");
}
PROOF(C05_reach) { Initial<false>(); }
PROOF(C05_reach_discarding) { Initial<true>(); }

template < bool Discard > static void Push()
{
	G g; Any(g);
	MemoryCircularBuffer<Discard> b(g.n);
	Reach(b, g);
	const size_t m = ANY(size_t), k = ANY(size_t);
	REQUIRES(m >= 1 && m <= ((size_t)1 << 41));
	const u8* d = (const u8*)vc_bytes(m);
	bool thrown = false;
	try { b.Push(ConstByteData(d, m)); } catch (const BufferIsFullException&) { thrown = true; }
	const size_t room = g.n - g.s;
	if (!Discard)
		ENSURES("refused exactly when it does not fit", thrown == (m > room));
	else
		ENSURES("a discarding buffer never refuses", !thrown);
	if (m <= room)
	{
		REQUIRES(k < g.s + m);
		IsState(b, g.n, g.r, g.s + m, k, k < g.s ? g.q[k] : d[k - g.s]);
		COVER("fits");
	}
	else if (thrown)
	{
		REQUIRES(k < g.s);
		IsState(b, g.n, g.r, g.s, k, g.q[k]);
		COVER("refused");
	}
	else
	{
		const size_t kept = m < g.n ? m : g.n;			// newest bytes of the data
		const size_t drop = kept - room;				// oldest unread bytes dropped to make room
		const size_t r = drop < g.n - g.r ? g.r + drop : drop - (g.n - g.r);
		const size_t old = g.s - drop;
		REQUIRES(k < g.n);
		IsState(b, g.n, r, g.n, k, k < old ? g.q[drop + k] : d[m - kept + (k - old)]);
		COVER("discarded");
	}
}
PROOF(C05_push) { Push<false>(); }
PROOF(C05_push_discarding) { Push<true>(); }

PROOF(C05_pop)
{
	G g; Any(g);
	MemoryCircularBuffer<> b(g.n);
	Reach(b, g);
	const size_t m = ANY(size_t), k = ANY(size_t);
	const size_t c = Contig(g.n, g.r, g.s), got = m < c ? m : c;
	{
		CircularDataReserverPtr d = b.Pop(m);
		ENSURES("never more than asked, stored or contiguous", d->GetData().size() == got);
		if (k < got)
			ENSURES("oldest bytes first", d->GetData()[k] == g.q[k]);
		Sizes(b, g.n, g.s);
		if (got)
		{
			bool thrown = false;
			try { b.Pop(); } catch (const std::exception&) { thrown = true; }
			ENSURES("a second pop before release is refused", thrown);
		}
	}
	REQUIRES(k < g.s - got);
	IsState(b, g.n, g.r + got == g.n ? 0 : g.r + got, g.s - got, k, g.q[got + k]);
	COVER("done");
}

// bytes handed out stay intact while more is written, and are released exactly once
PROOF(C05_push_while_reading)
{
	G g; Any(g);
	MemoryCircularBuffer<> b(g.n);
	Reach(b, g);
	const size_t m = ANY(size_t), a = ANY(size_t), k = ANY(size_t), i = ANY(size_t);
	REQUIRES(m >= 1 && m <= g.n - g.s);
	const u8* d = (const u8*)vc_bytes(m);
	size_t got;
	{
		CircularDataReserverPtr h = b.Pop(a);
		got = h->GetData().size();
		b.Push(ConstByteData(d, m));
		if (i < got)
			ENSURES("bytes handed out are not overwritten", h->GetData()[i] == g.q[i]);
	}
	const size_t s = g.s + m - got;
	REQUIRES(k < s);
	IsState(b, g.n, g.r + got == g.n ? 0 : g.r + got, s, k, k + got < g.s ? g.q[k + got] : d[k + got - g.s]);
	COVER("done");
}

PROOF(C05_clear)
{
	G g; Any(g);
	MemoryCircularBuffer<> b(g.n);
	Reach(b, g);
	b.Clear();
	Sizes(b, g.n, 0);
	const size_t m = ANY(size_t), k = ANY(size_t);
	REQUIRES(m >= 1 && m <= g.n && k < m);
	const u8* d = (const u8*)vc_bytes(m);
	b.Push(ConstByteData(d, m));
	IsState(b, g.n, g.r, m, k, d[k]);
	COVER("done");
}

PROOF(C05_clear_while_reading)
{
	G g; Any(g);
	MemoryCircularBuffer<> b(g.n);
	Reach(b, g);
	const size_t a = ANY(size_t), i = ANY(size_t);
	size_t got;
	{
		CircularDataReserverPtr h = b.Pop(a);
		got = h->GetData().size();
		b.Clear();
		Sizes(b, g.n, got);
		if (i < got)
			ENSURES("bytes handed out survive", h->GetData()[i] == g.q[i]);
	}
	Sizes(b, g.n, 0);
	const size_t m = ANY(size_t), k = ANY(size_t);
	REQUIRES(m >= 1 && m <= g.n && k < m);
	const u8* d = (const u8*)vc_bytes(m);
	b.Push(ConstByteData(d, m));
	IsState(b, g.n, g.r + got == g.n ? 0 : g.r + got, m, k, d[k]);
	COVER("done");
}

PROOF(C05_all_data)
{
	vc_bounded("capacity at most 4: the copy loop is executed byte by byte");
	G g;
	g.n = 1 + vc_pick(4); g.r = vc_pick(g.n); g.s = vc_pick(g.n + 1);
	g.p = (u8*)vc_bytes(4);
	g.q = (u8*)vc_bytes(4);
	MemoryCircularBuffer<> b(g.n);
	Reach(b, g);
	shared_ptr<std::vector<u8> > all = b.GetAllData();
	ENSURES("snapshot has every unread byte", all->size() == g.s);
	for (size_t i = 0; i < g.s; ++i)
		ENSURES("snapshot is in order", (*all)[i] == g.q[i]);
	Sizes(b, g.n, g.s);
	COVER("done");
}
