// C06 packet buffers: every capacity, every cursor, every packet size; up to two queued packets; the other side running at any lock operation.
// @sources: io/BithreadCircularBuffer.cpp self_counter.cpp shared_ptr.cpp toolkit.cpp thread/posix/PosixConditionVariable.cpp thread/DummyCancellationToken.cpp
// @opt: fork_select=true
// @opt: max_steps=40000000
// @replace: pthread_mutex_trylock => trylock
// @replace: pthread_mutex_lock => lock
// @replace: pthread_mutex_unlock => unlock
// @replace: pthread_cond_wait => cond_wait
// @replace: pthread_cond_broadcast => cond_wake
// @replace: pthread_cond_signal => cond_wake
// @replace: stingray::PosixThreadEngine::GetCurrentThreadId => thread_id
// @replace: stingray::PosixCallOnce::CallOnce => call_once
// @opaque: ^(void )?stingray::(Logger|NamedLogger)
// @opaque: stingray::LoggerStream::(operator|LoggerStream|~LoggerStream)
// @nocut: ^stingray::[A-Za-z]*StringBuilder
// @replace: (void )?stingray::basic_string_ostream<char>::Insert<unsigned long> => number
#include <vc_threads.h>
#include <string.h>
#include <stingraykit/io/PacketBuffer.h>
using namespace stingray;

extern "C" __attribute__((used, noinline)) void vckeep__number(void*, unsigned long) { }		// digits in an exception text
typedef PacketBuffer<u32> Buf;
typedef Packet<u32> Pkt;
static const u64 Limit = (u64)1 << 40;

struct Cancelled : public ICancellationToken
{
	virtual bool Sleep(optional<TimeDuration>) const { return false; }
	virtual bool IsCancelled() const { return true; }
	virtual bool IsTimedOut() const { return false; }
	virtual optional<TimeDuration> GetTimeout() const { return null; }
	virtual bool TryRegisterCancellationHandler(ICancellationHandler&) const { return false; }
	virtual bool TryUnregisterCancellationHandler() const { return true; }
	virtual bool UnregisterCancellationHandler() const { return true; }
};

// a packet: size n, bytes d, metadata m
struct P { u64 n; u8* d; u32 m; u64 room; };	// room: what it occupies, with the padding before it
static P AnyPacket()
{
	P p;
	p.n = ANY(u64); p.m = ANY(u32);
	REQUIRES(p.n >= 1 && p.n <= Limit);
	p.d = (u8*)vc_bytes(p.n);
	return p;
}

// takes the packet or refuses it; records what it was given
struct Taker : public IPacketConsumer<u32>
{
	bool refuse, eod; int count; u64 n; u32 m; u8* copy; u64 cap;
	explicit Taker(u64 c) : refuse(false), eod(false), count(0), n(0), m(0), copy((u8*)vc_bytes(c)), cap(c) { }
	virtual bool Process(const Pkt& p, const ICancellationToken&)
	{
		++count;
		n = p.GetSize(); m = p.GetMetadata();
		ENSURES("a packet is not longer than the buffer", n <= cap);
		::memcpy(copy, p.GetData().data(), n);
		return !refuse;
	}
	virtual void EndOfData() { eod = true; }
};

// the layout the contract is stated over: read and write position, used bytes (with padding)
struct Layout
{
	u64 n, w, used;
	// room for size bytes in one piece, at the write position or at the start
	bool Fits(u64 size) const
	{
		if (used == n) return false;
		const u64 r = w >= used ? w - used : n - (used - w);		// read position
		if (w >= r && used < n && w < n)							// free: [w, n) and [0, r)
			return size <= n - w || size <= r;
		return size <= n - used;									// free: [w, r)
	}
	u64 Put(u64 size)		// the room it occupies, with the padding before it
	{
		const u64 before = used;
		const u64 r = w >= used ? w - used : n - (used - w);
		const u64 room = w >= r ? n - w : r - w;
		if (size > room) { used += n - w; w = 0; }
		w += size; used += size;
		if (w == n) w = 0;
		return used - before;
	}
	void Take(u64 size) { used -= size; }
};

static void Check(const Taker& t, const P& p)
{
	ENSURES("a packet comes out with the size and metadata it was put in with", t.n == p.n && t.m == p.m);
	const u64 k = ANY(u64);
	if (k < p.n)
		ENSURES("a packet comes out with the bytes it was put in with", t.copy[k] == p.d[k]);
}
static void Empty(Buf& b, Taker& t)
{
	const int c = t.count;
	b.Read(t, Cancelled());
	ENSURES("nothing else comes out", t.count == c);
	ENSURES("an empty buffer holds no data", b.GetDataSize() == 0);
}

struct State
{
	Layout l; P q[3]; int count;
	void Init(Buf& b, u64 capacity, bool cursor)
	{
		vcthr::Reset();
		l.n = capacity; l.w = 0; l.used = 0; count = 0;
		if (!cursor) return;
		// any cursor: a packet put in and taken out
		P p = AnyPacket();
		REQUIRES(p.n <= capacity);
		Taker t(capacity);
		ENSURES("a packet that fits is taken", b.Process(Pkt(ConstByteData(p.d, p.n), p.m), Cancelled()));
		b.Read(t, Cancelled());
		ENSURES("it comes out at once", t.count == 1);
		Check(t, p);
		l.Take(l.Put(p.n));
	}
	void Push(Buf& b, bool discard)
	{
		vc_bounded("up to two queued packets");
		P p = AnyPacket();
		REQUIRES(p.n <= l.n);
		const bool fits = l.Fits(p.n);
		const u64 size = b.GetDataSize();
		const bool taken = b.Process(Pkt(ConstByteData(p.d, p.n), p.m), Cancelled());
		ENSURES("a packet that fits is taken, one that does not is refused, or dropped if configured", taken == (fits || discard));
		if (fits) { p.room = l.Put(p.n); q[count++] = p; }
		else { ENSURES("a packet that does not fit leaves the queue alone", b.GetDataSize() == size); COVER("does not fit"); }
	}
	void Drain(Buf& b)
	{
		Taker t(l.n);
		for (int i = 0; i < count; ++i)
		{
			if (i == 0 && vc_pick(2))
			{
				t.refuse = true;
				b.Read(t, Cancelled());
				t.refuse = false;
				ENSURES("exactly one packet is offered", t.count == 1);
				Check(t, q[0]);
				t.count = 0;
			}
			b.Read(t, Cancelled());
			ENSURES("a read hands out exactly one packet", t.count == i + 1);
			Check(t, q[i]);
		}
		Empty(b, t);
		COVER("done");
	}
};

static u64 AnyCapacity() { const u64 n = ANY(u64); REQUIRES(n >= 1 && n <= Limit); return n; }

static void Queue(bool discard, int packets)
{
	const u64 n = AnyCapacity();
	Buf b(discard, n);
	State s; s.Init(b, n, true);
	for (int i = 0; i < packets; ++i)
		s.Push(b, discard);
	s.Drain(b);
}
PROOF(C06_one_refusing) { Queue(false, 1); }
PROOF(C06_one_discarding) { Queue(true, 1); }
PROOF(C06_two_refusing) { Queue(false, 2); }
PROOF(C06_two_discarding) { Queue(true, 2); }

PROOF(C06_interleaved)
{
	const u64 n = AnyCapacity();
	Buf b(true, n);
	State s; s.Init(b, n, true);
	s.Push(b, true);
	REQUIRES(s.count == 1);
	s.Push(b, true);
	REQUIRES(s.count == 2);
	Taker t(n);
	b.Read(t, Cancelled());
	Check(t, s.q[0]);
	s.l.Take(s.q[0].room);
	s.q[0] = s.q[1]; s.count = 1;
	// padding after a taken packet stays in use until the next packet is read
	P p = AnyPacket();
	REQUIRES(p.n <= n);
	const bool fits = s.l.Fits(p.n);
	const u64 before = b.GetDataSize();
	b.Process(Pkt(ConstByteData(p.d, p.n), p.m), Cancelled());
	const bool taken = b.GetDataSize() != before;
	ENSURES("a packet that fits is taken, another is dropped whole", taken == fits);
	if (taken) s.q[s.count++] = p;
	s.Drain(b);
}

PROOF(C06_too_big)
{
	vc_bounded("capacities up to three bytes");
	const u64 n = 1 + vc_pick(3);
	Buf b(vc_pick(2) != 0, n);
	State s; s.Init(b, n, false);
	const u64 m = n + 1 + vc_pick(3);
	u8* d = (u8*)vc_bytes(m);
	bool thrown = false;
	try { b.Process(Pkt(ConstByteData(d, m), 0), Cancelled()); } catch (const std::exception&) { thrown = true; }
	ENSURES("a packet larger than the buffer is refused", thrown);
	Taker t(n);
	Empty(b, t);
}

PROOF(C06_end_of_data)
{
	const u64 n = AnyCapacity();
	Buf b(false, n);
	State s; s.Init(b, n, false);
	s.Push(b, false);
	b.EndOfData();
	Taker t(n);
	b.Read(t, Cancelled());
	ENSURES("queued packets come before the end of data", t.count == 1 && !t.eod);
	Check(t, s.q[0]);
	b.Read(t, Cancelled());
	ENSURES("the end of data follows", t.count == 1 && t.eod);
}

PROOF(C06_clear)
{
	const u64 n = AnyCapacity();
	Buf b(false, n);
	State s; s.Init(b, n, true);
	s.Push(b, false); s.Push(b, false);
	b.Clear();
	Taker t(n);
	Empty(b, t);
	P p = AnyPacket();
	REQUIRES(p.n <= n);
	ENSURES("the whole capacity is free again", b.GetFreeSize() == n);
}

// ---- two threads
static Buf* B; static Taker* T; static P Next; static bool Taken, Got;
static void OtherRead() { const int c = T->count; B->Read(*T, Cancelled()); Got = T->count != c; }
static void OtherPush() { Taken = B->Process(Pkt(ConstByteData(Next.d, Next.n), Next.m), Cancelled()); }

PROOF(C06_push_while_read)		// this thread pushes, the other reads at any lock operation
{
	const u64 n = AnyCapacity();
	Buf b(false, n);
	State s; s.Init(b, n, false);
	s.Push(b, false);
	Taker t(n); B = &b; T = &t; Got = false;
	P p = AnyPacket();
	REQUIRES(p.n <= n);
	vcthr::Reset(&OtherRead, 1);
	const bool taken = b.Process(Pkt(ConstByteData(p.d, p.n), p.m), Cancelled());
	vcthr::Finish();
	vcthr::Reset();
	ENSURES("the reader gets the oldest packet", t.count == 1);
	Check(t, s.q[0]);
	b.Read(t, Cancelled());
	ENSURES("the pushed packet comes next, if it was taken", t.count == (taken ? 2 : 1));
	if (taken) { Check(t, p); COVER("taken"); } else COVER("refused");
	Empty(b, t);
}
PROOF(C06_read_while_push)		// this thread reads, the other pushes at any lock operation
{
	const u64 n = AnyCapacity();
	Buf b(false, n);
	State s; s.Init(b, n, false);
	s.Push(b, false);
	Taker t(n); B = &b; T = &t; Taken = false;
	Next = AnyPacket();
	REQUIRES(Next.n <= n);
	vcthr::Reset(&OtherPush, 1);
	b.Read(t, Cancelled());
	vcthr::Finish();
	vcthr::Reset();
	ENSURES("the reader gets the oldest packet", t.count == 1);
	Check(t, s.q[0]);
	b.Read(t, Cancelled());
	ENSURES("the pushed packet comes next, if it was taken", t.count == (Taken ? 2 : 1));
	if (Taken) { Check(t, Next); COVER("taken"); } else COVER("refused");
	Empty(b, t);
}
PROOF(C06_wait_for_room)		// a writer that has to wait is woken by the reader, and is told to try again
{
	const u64 n = AnyCapacity();
	Buf b(false, n);
	State s; s.Init(b, n, false);
	s.Push(b, false);
	Taker t(n); B = &b; T = &t; Got = false;
	P p = AnyPacket();
	REQUIRES(p.n <= n && !s.l.Fits(p.n));
	Layout after = s.l; after.Take(s.q[0].room);
	REQUIRES(after.Fits(p.n));		// otherwise the free room is in two pieces, neither large enough: it stays refused
	vcthr::Reset(&OtherRead, 1);
	const bool taken = b.Process(Pkt(ConstByteData(p.d, p.n), p.m), DummyCancellationToken());
	ENSURES("the reader had its turn", t.count == 1);
	Check(t, s.q[0]);
	vcthr::Reset();
	b.Read(t, Cancelled());
	ENSURES("a refused packet leaves no trace", t.count == (taken ? 2 : 1));
	if (taken) { Check(t, p); COVER("the reader was first"); } else COVER("waited");
	Empty(b, t);
}
PROOF(C06_wait_for_packet)		// a reader that has to wait is woken by the writer
{
	const u64 n = AnyCapacity();
	Buf b(false, n);
	State s; s.Init(b, n, false);
	Taker t(n); B = &b; T = &t;
	Next = AnyPacket();
	REQUIRES(Next.n <= n);
	vcthr::Reset(&OtherPush, 1);
	b.Read(t, DummyCancellationToken());
	vcthr::Reset();
	if (!t.count) { b.Read(t, Cancelled()); COVER("waited"); }
	ENSURES("the pushed packet comes out", t.count == 1);
	Check(t, Next);
	Empty(b, t);
}
