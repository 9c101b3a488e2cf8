// C04 two-thread ring: every capacity, every cursor pair, every push/pop/clear.
// A state is (capacity n, read position r, unread bytes s); Reach() drives the real object into an arbitrary one, and each
// operation is shown to lead to the state its contract names, observed through all spans and sizes (induction over histories).
// @sources: io/BithreadCircularBuffer.cpp self_counter.cpp shared_ptr.cpp
#include <vc.h>
#include <stingraykit/io/BithreadCircularBuffer.h>
using namespace stingray;

struct Ring
{
	u8* d; size_t n, r, s;
};

static void Any(Ring& g)
{
	g.n = ANY(size_t); g.r = ANY(size_t); g.s = ANY(size_t);
	REQUIRES(g.n >= 1 && g.n <= ((size_t)1 << 40) && g.r < g.n && g.s <= g.n);
	g.d = (u8*)vc_bytes(g.n);
}

static void Reach(BithreadCircularBuffer& b, const Ring& g)
{
	b.Write().Push(g.r);
	b.Read().Pop(g.r);
	const size_t tail = g.n - g.r;
	b.Write().Push(g.s < tail ? g.s : tail);
	if (g.s > tail)
		b.Write().Push(g.s - tail);
}

static size_t Contig(size_t n, size_t at, size_t len) { return len < n - at ? len : n - at; }

// b is observably in state (r, s)
static void IsState(BithreadCircularBuffer& b, const Ring& g, size_t r, size_t s)
{
	const size_t n = g.n;
	ENSURES("data size is bytes pushed minus bytes popped", b.GetDataSize() == s);
	ENSURES("data size and free size add up to the capacity", b.GetFreeSize() == n - s && b.GetTotalSize() == n);
	BithreadCircularBuffer::Reader rd = b.Read();
	const size_t readable = Contig(n, r, s);
	ENSURES("reader is offered the oldest unread bytes", rd.size() == readable && (readable == 0 || rd.data() == g.d + r));
	ENSURES("reader end flag", rd.IsBufferEnd() == (r + readable == n));
	BithreadCircularBuffer::Writer wr = b.Write();
	const size_t w = s < n - r ? r + s : s - (n - r);
	const size_t writable = Contig(n, w, n - s);
	ENSURES("writer is offered free bytes after the newest data", wr.size() == writable && (writable == 0 || wr.data() == g.d + w));
	ENSURES("writer end flag", writable == 0 || wr.IsBufferEnd() == (w + writable == n));
	ENSURES("something is offered whenever there is room or data", (s == 0 || rd.size() > 0) && (s == n || wr.size() > 0));
}

PROOF(C04_initial)
{
	Ring g; Any(g);
	BithreadCircularBuffer b(BytesOwner(ByteData(g.d, g.n), Token()));
	IsState(b, g, 0, 0);
	COVER("done");
}

PROOF(C04_reach)
{
	Ring g; Any(g);
	BithreadCircularBuffer b(BytesOwner(ByteData(g.d, g.n), Token()));
	Reach(b, g);
	IsState(b, g, g.r, g.s);
	COVER("done");
}

PROOF(C04_push)
{
	Ring g; Any(g);
	BithreadCircularBuffer b(BytesOwner(ByteData(g.d, g.n), Token()));
	Reach(b, g);
	const size_t k = ANY(size_t);
	const size_t w = g.s < g.n - g.r ? g.r + g.s : g.s - (g.n - g.r);
	const size_t writable = Contig(g.n, w, g.n - g.s);
	BithreadCircularBuffer::Writer wr = b.Write();
	bool thrown = false;
	try { wr.Push(k); } catch (const IndexOutOfRangeException&) { thrown = true; }
	ENSURES("push is refused exactly beyond the offered span", thrown == (k > writable));
	IsState(b, g, g.r, thrown ? g.s : g.s + k);
	if (!thrown) { ENSURES("a used writer offers nothing", wr.size() == 0); COVER("pushed"); }
	else COVER("refused");
}

PROOF(C04_pop)
{
	Ring g; Any(g);
	BithreadCircularBuffer b(BytesOwner(ByteData(g.d, g.n), Token()));
	Reach(b, g);
	const size_t k = ANY(size_t);
	const size_t readable = Contig(g.n, g.r, g.s);
	BithreadCircularBuffer::Reader rd = b.Read();
	bool thrown = false;
	try { rd.Pop(k); } catch (const IndexOutOfRangeException&) { thrown = true; }
	ENSURES("pop is refused exactly beyond the offered span", thrown == (k > readable));
	const size_t r = thrown ? g.r : g.r + k == g.n ? 0 : g.r + k;
	IsState(b, g, r, thrown ? g.s : g.s - k);
	if (!thrown) { ENSURES("a used reader offers nothing", rd.size() == 0); COVER("popped"); }
	else COVER("refused");
}

// a writer taken before the reader moves (the other thread) still pushes the bytes it was given
PROOF(C04_interleaved)
{
	Ring g; Any(g);
	BithreadCircularBuffer b(BytesOwner(ByteData(g.d, g.n), Token()));
	Reach(b, g);
	const size_t k = ANY(size_t), p = ANY(size_t);
	BithreadCircularBuffer::Writer wr = b.Write();
	BithreadCircularBuffer::Reader rd = b.Read();
	REQUIRES(k <= wr.size() && p <= rd.size());
	const bool first = ANY(bool);
	if (first) { rd.Pop(p); wr.Push(k); } else { wr.Push(k); rd.Pop(p); }
	IsState(b, g, g.r + p == g.n ? 0 : g.r + p, g.s + k - p);
	COVER("done");
}

PROOF(C04_clear)
{
	Ring g; Any(g);
	BithreadCircularBuffer b(BytesOwner(ByteData(g.d, g.n), Token()));
	Reach(b, g);
	b.Clear();
	IsState(b, g, 0, 0);
	COVER("done");
}

// no operation touches stored bytes, and the own-storage constructor behaves alike
PROOF(C04_content)
{
	Ring g; Any(g);
	BithreadCircularBuffer b(BytesOwner(ByteData(g.d, g.n), Token()));
	Reach(b, g);
	const size_t at = ANY(size_t);
	REQUIRES(at < g.n);
	const u8 before = g.d[at];
	const u8 v = ANY(u8);
	BithreadCircularBuffer::Writer wr = b.Write();
	const size_t k = ANY(size_t);
	REQUIRES(k < wr.size());
	const u8* cell = wr.data() + k;
	wr.data()[k] = v;
	wr.Push(k + 1);
	ENSURES("writing inside the offered span leaves every other byte alone", g.d[at] == (cell == g.d + at ? v : before));
	// pop everything written before that byte: it is then first in line
	size_t left = g.s + k;
	{ BithreadCircularBuffer::Reader rd = b.Read(); const size_t c = rd.size() < left ? rd.size() : left; rd.Pop(c); left -= c; }
	if (left)
	{ BithreadCircularBuffer::Reader rd = b.Read(); REQUIRES(rd.size() >= left); rd.Pop(left); }
	BithreadCircularBuffer::Reader rd = b.Read();
	ENSURES("the byte comes out after exactly the bytes before it", rd.size() >= 1 && rd.data()[0] == v);
	COVER("done");
}

PROOF(C04_own_storage)
{
	const size_t n = ANY(size_t);
	REQUIRES(n <= ((size_t)1 << 40));
	BithreadCircularBuffer b(n);
	ENSURES("own storage has the requested capacity", b.GetTotalSize() == n && b.GetFreeSize() == n && b.GetDataSize() == 0 && b.Write().size() == n && b.Read().size() == 0);
	const size_t k = ANY(size_t);
	REQUIRES(k < n);
	b.Write().data()[k] = 7;
	b.Write().Push(k + 1);
	ENSURES("bytes come out", b.Read().size() == k + 1 && b.Read().data()[k] == 7);
	COVER("done");
}
