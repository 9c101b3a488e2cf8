// C09 buffering and re-blocking layers: a source that delivers any amounts, a consumer that takes any amounts, a token cancelled at any time.
// Source, Sink, Pipe and Stream below are the contracts the layers rely on; every byte is tracked by its position in the source.
// @sources: shared_ptr.cpp self_counter.cpp thread/DummyCancellationToken.cpp io/BufferedPipe.cpp io/PipeDataSource.cpp io/ByteDataConsumer.cpp
#include <vc.h>
#include <string.h>
#include <stingraykit/io/BufferedDataMediator.h>
#include <stingraykit/io/BufferedPipe.h>
#include <stingraykit/io/ByteArrayDataSource.h>
#include <stingraykit/io/ByteDataConsumer.h>
#include <stingraykit/io/ByteStreamDataSource.h>
#include <stingraykit/io/DataAligner.h>
#include <stingraykit/io/DataPacketer.h>
#include <stingraykit/io/DataUtils.h>
#include <stingraykit/io/PipeDataSource.h>
using namespace stingray;

static const u64 Limit = (u64)1 << 40;
static u64 Small() { const u64 v = ANY(u64); REQUIRES(v <= Limit); return v; }

// a token that may be cancelled at any moment; it stays cancelled until it is renewed
struct AnyToken : public ICancellationToken
{
	mutable bool cancelled; mutable int chances;
	explicit AnyToken(int n = 0) : cancelled(false), chances(n) { }
	virtual bool Sleep(optional<TimeDuration>) const { return !IsCancelled(); }
	virtual bool IsCancelled() const
	{
		if (!cancelled && chances > 0 && vc_pick(2))
			cancelled = true;
		--chances;
		return cancelled;
	}
	virtual bool IsTimedOut() const { return false; }
	virtual optional<TimeDuration> GetTimeout() const { return null; }
	virtual bool TryRegisterCancellationHandler(ICancellationHandler&) const { return true; }
	virtual bool TryUnregisterCancellationHandler() const { return true; }
	virtual bool UnregisterCancellationHandler() const { return true; }
};

// n source bytes
struct Bytes
{
	u8* d; u64 n;
	Bytes() { n = Small(); REQUIRES(n >= 1); d = (u8*)vc_bytes(n); }
	explicit Bytes(u64 c) : d((u8*)vc_bytes(c)), n(c) { }
};

// takes at most `parts` parts of a delivery, each a multiple of unit; what it took is out[0..total)
struct Sink : public IDataConsumer
{
	u8* out; u64 cap, total, unit, parts; bool all, eod;
	Sink(u64 c, u64 u, u64 p) : out((u8*)vc_bytes(c)), cap(c), total(0), unit(u), parts(p), all(true), eod(false) { }
	virtual size_t Process(ConstByteData data, const ICancellationToken&)
	{
		ENSURES("only blocks of the required size are presented", data.size() != 0 && data.size() % unit == 0);
		ENSURES("nothing is delivered after the end of data", !eod);
		u64 take = data.size();
		if (parts > 0 && vc_pick(2))
		{
			--parts;
			take = Small() * unit;
			REQUIRES(take < data.size());
		}
		ENSURES("no more is delivered than the source has", take <= cap - total);
		::memcpy(out + total, data.data(), take);
		total += take;
		return take;
	}
	virtual void EndOfData(const ICancellationToken&) { ENSURES("the end of data is reported once", !eod); eod = true; }
	void Follows(const Bytes& b, u64 from = 0)
	{
		const u64 k = ANY(u64);
		REQUIRES(k < total);
		ENSURES("the bytes come out in the order of the source, none lost, none twice", out[k] == b.d[from + k]);
		COVER("delivered");
	}
};

// delivers what is left of b, at most m bytes of it, and takes back what was not processed
struct Source : public IDataSource
{
	const Bytes& b; u64 pos, m; bool eod;
	explicit Source(const Bytes& x) : b(x), pos(0), m(0), eod(false) { }
	virtual void Read(IDataConsumer& c, const ICancellationToken& token)
	{
		if (pos == b.n || !m)
		{
			if (pos == b.n) { eod = true; c.EndOfData(token); }
			return;
		}
		const u64 give = m < b.n - pos ? m : b.n - pos;
		const u64 took = c.Process(ConstByteData(b.d + pos, give), token);
		ENSURES("no more is processed than was delivered", took <= give);
		pos += took;
	}
};

// ---- aligner
static void Aligner(u64 a, u64 firstMax)
{
	vc_bounded("three deliveries of any size, each taken in up to two parts");
	const Bytes b;
	Source* src = new Source(b);
	const IDataSourcePtr srcPtr(src);
	DataAligner al(srcPtr, a);
	Sink s(b.n, a, 1);
	for (int i = 0; i < 3; ++i)
	{
		src->m = Small();
		if (i == 0) REQUIRES(src->m <= firstMax);
		if (src->m < 1 || src->pos == b.n) { REQUIRES(i > 0); break; }
		al.Read(s, AnyToken());
		ENSURES("what was processed is delivered, or kept until the block is full", s.total <= src->pos && src->pos - s.total < a && s.total % a == 0);
	}
	s.Follows(b);
}
PROOF(C09_aligner_1) { Aligner(1, 1); }
PROOF(C09_aligner_2) { Aligner(2, 3); }
PROOF(C09_aligner_4) { Aligner(4, 3); }

PROOF(C09_aligner_cancelled)
{
	vc_bounded("a block of four bytes completed by a cancelled read, then read again");
	const u64 a = 4;
	const Bytes b(12);
	Source* src = new Source(b);
	const IDataSourcePtr srcPtr(src);
	DataAligner al(srcPtr, a);
	Sink s(b.n, 1, 1);
	src->m = 1 + vc_pick(6);
	AnyToken t1(3);
	al.Read(s, t1);
	src->m = 1 + vc_pick(5);
	AnyToken t2(3);
	al.Read(s, t2);
	src->m = 12;
	for (int i = 0; i < 3; ++i)
	{
		if (src->pos == b.n) break;
		al.Read(s, AnyToken());
	}
	ENSURES("everything the source delivered has arrived, but for an incomplete block", src->pos == b.n && s.total > b.n - a);
	s.Follows(b);
}

PROOF(C09_aligner_unbuffered)
{
	const Bytes b;
	Source* src = new Source(b);
	const IDataSourcePtr srcPtr(src);
	DataAligner al(srcPtr, 4, false);
	Sink s(b.n, 4, 0);
	src->m = Small();
	REQUIRES(src->m >= 1);
	al.Read(s, AnyToken());
	ENSURES("an aligner without buffer takes exactly what it forwards", s.total == src->pos);
	const u64 give = src->m < b.n ? src->m : b.n;
	ENSURES("whole blocks are forwarded", s.total == give / 4 * 4);
	if (give >= 4) s.Follows(b);
}

PROOF(C09_aligner_end)
{
	const Bytes b(2);
	Source* src = new Source(b);
	const IDataSourcePtr srcPtr(src);
	DataAligner al(srcPtr, 2);
	Sink s(b.n, 2, 0);
	src->m = 1 + vc_pick(2);
	for (int i = 0; i < 3 && !s.eod; ++i)
		al.Read(s, AnyToken());
	ENSURES("the end of data follows the data", s.eod && s.total == 2);
	s.Follows(b);
}

// ---- packeter
struct PacketSink : public IPacketConsumer<EmptyType>
{
	u8* out; u64 cap, total, size; bool refuse, eod; u64 count;
	PacketSink(u64 c, u64 s) : out((u8*)vc_bytes(c)), cap(c), total(0), size(s), refuse(false), eod(false), count(0) { }
	virtual bool Process(const Packet<EmptyType>& p, const ICancellationToken&)
	{
		ENSURES("only packets of the required size are presented", !size || p.GetSize() == size);
		if (refuse) return false;
		ENSURES("no more is delivered than the source has", p.GetSize() <= cap - total);
		const ConstByteData d(p.GetData());
		::memcpy(out + total, d.data(), d.size());
		total += d.size(); ++count;
		return true;
	}
	virtual void EndOfData() { eod = true; }
};
PROOF(C09_packeter)
{
	const Bytes b;
	Source src(b);
	const u64 size = Small();
	REQUIRES(size >= 1);
	const bool sized = vc_pick(2) != 0;
	PacketSink s(b.n, sized ? size : 0);
	DataPacketer p(src, sized ? optional<size_t>(size) : optional<size_t>());
	for (int i = 0; i < 2; ++i)
	{
		s.refuse = vc_pick(2) != 0;
		src.m = Small();
		REQUIRES(src.m >= 1 && src.pos < b.n);
		const u64 give = src.m < b.n - src.pos ? src.m : b.n - src.pos, before = src.pos;
		bool thrown = false;
		try { p.Read(s, AnyToken()); } catch (const std::exception&) { thrown = true; }
		ENSURES("too little data for a packet is refused", thrown == (sized && give < size));
		ENSURES("exactly the packets taken are processed", src.pos == s.total && src.pos - before == (thrown || s.refuse ? 0 : sized ? size : give));
	}
	const u64 k = ANY(u64);
	REQUIRES(k < s.total);
	ENSURES("the bytes come out in the order of the source, none lost, none twice", s.out[k] == b.d[k]);
	COVER("delivered");
}
PROOF(C09_packeter_end)
{
	const Bytes b(1);
	Source src(b); src.pos = 1;
	PacketSink s(1, 0);
	DataPacketer(src).Read(s, AnyToken());
	ENSURES("the end of data is forwarded", s.eod && s.count == 0);
}
struct PacketSourceOf : public IPacketSource<EmptyType>
{
	const Bytes& b; u64 pos, m;
	explicit PacketSourceOf(const Bytes& x) : b(x), pos(0), m(0) { }
	virtual void Read(IPacketConsumer<EmptyType>& c, const ICancellationToken& t)
	{
		if (pos == b.n) { c.EndOfData(); return; }
		if (c.Process(Packet<EmptyType>(ConstByteData(b.d + pos, m)), t))
			pos += m;
	}
};
PROOF(C09_depacketer)
{
	vc_bounded("two packets of any size, taken in up to three parts");
	const Bytes b;
	PacketSourceOf src(b);
	Sink s(b.n, 1, 3);
	DataDepacketer d(src);
	src.m = Small(); REQUIRES(src.m >= 1 && src.m < b.n);
	d.Read(s, AnyToken());
	ENSURES("a packet is forwarded whole", s.total == src.m && src.pos == src.m);
	src.m = b.n - src.m;
	d.Read(s, AnyToken());
	ENSURES("a packet is forwarded whole", s.total == b.n);
	d.Read(s, AnyToken());
	ENSURES("the end of data is forwarded", s.eod);
	s.Follows(b);
}

// ---- mediator
PROOF(C09_mediator)
{
	vc_bounded("up to four bytes in two deliveries, taken in parts, cancelled at any moment");
	const Bytes b(4);
	BufferedDataMediator m;
	Sink s(4, 1, 2);
	const u64 first = 1 + vc_pick(3);
	ENSURES("all delivered data is taken", m.Process(ConstByteData(b.d, first), AnyToken()) == first);
	AnyToken t(4);
	if (vc_pick(2))
		m.Read(s, t);
	ENSURES("all data is forwarded unless cancelled", t.cancelled || s.total == 0 || s.total == first);
	ENSURES("all delivered data is taken", m.Process(ConstByteData(b.d + first, 4 - first), AnyToken()) == 4 - first);
	m.EndOfData(AnyToken());
	m.Read(s, AnyToken());
	ENSURES("everything arrives, then the end of data", s.total == 4 && s.eod);
	s.Follows(b);
}

// ---- takers and skippers
PROOF(C09_taking)
{
	vc_bounded("two deliveries of any size");
	const Bytes b;
	Source src(b);
	const u64 count = Small();
	Sink s(b.n, 1, 2);
	TakingConsumer tc(s, count, false);
	for (int i = 0; i < 2; ++i)
	{
		src.m = Small(); REQUIRES(src.m >= 1 && src.pos < b.n);
		src.Read(tc, AnyToken());
		ENSURES("exactly what was forwarded is processed", src.pos == s.total && s.total <= count && tc.GetLeftToTake() == count - s.total);
	}
	s.Follows(b);
}
PROOF(C09_skipping)
{
	vc_bounded("two deliveries of any size, the rest taken in up to two parts, cancelled at any moment");
	const Bytes b;
	Source src(b);
	const u64 count = Small();
	const bool rest = vc_pick(2) != 0;
	Sink s(b.n, 1, 1);
	SkippingConsumer sc(s, count, rest);
	for (int i = 0; i < 2; ++i)
	{
		src.m = Small(); REQUIRES(src.m >= 1 && src.pos < b.n);
		const u64 give = src.m < b.n - src.pos ? src.m : b.n - src.pos, before = src.pos;
		AnyToken t(2);
		src.Read(sc, t);
		const u64 skipped = src.pos < count ? src.pos : count;
		ENSURES("exactly the leading bytes are skipped", sc.GetLeftToSkip() == count - skipped);
		ENSURES("exactly what was skipped or forwarded is processed", src.pos == skipped + s.total && (rest || s.total == 0));
		ENSURES("everything is forwarded unless cancelled", !rest || t.cancelled || src.pos == before + give);
	}
	if (s.total)
		s.Follows(b, count);
}

// ---- pipe
struct Pipe : public IPipe
{
	const Bytes& b; u64 pos; bool closes, empty;
	explicit Pipe(const Bytes& x) : b(x), pos(0), closes(false), empty(false) { }
	virtual u64 Read(ByteData data, const ICancellationToken&)
	{
		if (pos == b.n)
		{
			if (closes) throw PipeClosedException();
			return 0;
		}
		if (empty && vc_pick(2)) return 0;
		u64 n = ANY(u64);
		REQUIRES(n >= 1 && n <= data.size() && n <= b.n - pos);
		::memcpy(data.data(), b.d + pos, n);
		pos += n;
		return n;
	}
	virtual u64 Write(ConstByteData data, const ICancellationToken&) { return data.size(); }
	virtual bool Peek(const ICancellationToken&) { return pos < b.n; }
};
PROOF(C09_pipe_source)
{
	vc_bounded("three reads, the consumer taking any part of each delivery");
	const Bytes b;
	Pipe* p = new Pipe(b); p->empty = true;
	const IPipePtr pp(p);
	const u64 size = Small(); REQUIRES(size >= 1 && size <= 4096);
	PipeDataSource src(pp, size);
	Sink s(b.n, 1, 3);
	for (int i = 0; i < 3; ++i)
	{
		src.Read(s, AnyToken());
		ENSURES("nothing is delivered that the pipe has not delivered", s.total <= p->pos && p->pos - s.total <= size);
	}
	REQUIRES(s.total > 0);
	s.Follows(b);
}
PROOF(C09_pipe_source_end)
{
	const Bytes b(2);
	Pipe* p = new Pipe(b); p->closes = true;
	const IPipePtr pp(p);
	PipeDataSource src(pp, 2);
	Sink s(2, 1, 2);
	for (int i = 0; i < 6 && !s.eod; ++i)
		src.Read(s, AnyToken());
	ENSURES("the end of data follows all data", !s.eod || s.total == 2);
	ENSURES("the end of data is reached", s.eod || s.parts == 0);
	s.Follows(b);
}
PROOF(C09_buffered_pipe)
{
	vc_bounded("three reads of any size");
	const Bytes b;
	Pipe* p = new Pipe(b);
	const IPipePtr pp(p);
	const u64 size = Small(); REQUIRES(size >= 1 && size <= 4096);
	BufferedPipe bp(pp, size);
	u64 total = 0;
	u8* out = (u8*)vc_bytes(b.n);
	for (int i = 0; i < 3; ++i)
	{
		const u64 m = Small(); REQUIRES(m >= 1 && m <= b.n - total);
		const bool more = bp.Peek(AnyToken());
		ENSURES("data is announced exactly while there is some", more == (total < b.n));
		const u64 got = bp.Read(ByteData(out + total, m), AnyToken());
		ENSURES("at most what was asked for is delivered, something while there is data", got <= m && (got > 0 || total == b.n));
		total += got;
		ENSURES("nothing is delivered that the pipe has not delivered", total <= p->pos && p->pos - total < size);
	}
	const u64 k = ANY(u64);
	REQUIRES(k < total);
	ENSURES("the bytes come out in the order of the source, none lost, none twice", out[k] == b.d[k]);
	COVER("delivered");
}

// ---- sources over streams and arrays
struct Stream : public IByteStream
{
	const Bytes& b; u64 pos;
	explicit Stream(const Bytes& x) : b(x), pos(0) { }
	virtual u64 Read(ByteData data, const ICancellationToken&)
	{
		if (pos == b.n) return 0;
		u64 n = ANY(u64);
		REQUIRES(n >= 1 && n <= data.size() && n <= b.n - pos);
		::memcpy(data.data(), b.d + pos, n);
		pos += n;
		return n;
	}
	virtual u64 Write(ConstByteData data, const ICancellationToken&) { return 0; }
	virtual void Seek(s64 offset, SeekMode mode) { ENSURES("only relative seeks back to what was not taken", mode == SeekMode::Current); pos += offset; }
	virtual u64 Tell() const { return pos; }
};
PROOF(C09_stream_source)
{
	vc_bounded("two reads, the consumer taking each delivery in up to two parts, cancelled at any moment");
	const Bytes b;
	Stream* p = new Stream(b);
	const IByteStreamPtr pp(p);
	const u64 size = Small(); REQUIRES(size >= 1 && size <= 4096);
	ByteStreamDataSource src(pp, size);
	Sink s(b.n, 1, 2);
	for (int i = 0; i < 2; ++i)
	{
		REQUIRES(p->pos < b.n);
		src.Read(s, AnyToken(4));
		ENSURES("the stream is at the first byte not delivered", s.total == p->pos && src.Tell() == s.total);
	}
	REQUIRES(s.total > 0);
	s.Follows(b);
}
PROOF(C09_stream_source_end)
{
	const Bytes b(1);
	Stream* p = new Stream(b); p->pos = 1;
	const IByteStreamPtr pp(p);
	ByteStreamDataSource src(pp, 4);
	Sink s(1, 1, 0);
	src.Read(s, AnyToken());
	ENSURES("the end of data is reported", s.eod && s.total == 0);
}
PROOF(C09_array_source)
{
	vc_bounded("three reads, the consumer taking any part of each delivery");
	const Bytes b;
	ByteArrayDataSource src(ConstByteArray(b.d, b.n));
	Sink s(b.n, 1, 3);
	for (int i = 0; i < 3; ++i)
	{
		REQUIRES(!s.eod);
		const u64 before = s.total;
		src.Read(s, AnyToken());
		ENSURES("the end of data is reported exactly at the end", s.eod == (before == b.n));
	}
	REQUIRES(s.total > 0);
	s.Follows(b);
}
PROOF(C09_byte_consumer)
{
	const Bytes b;
	const u64 n = Small(), m = Small(), k = ANY(u64);
	REQUIRES(n >= 1 && m < b.n && k < n);
	u8* out = (u8*)vc_bytes(n);
	const u8 old = out[k];
	ByteDataConsumer c(ByteData(out, n));
	c.Process(ConstByteData(b.d, m), AnyToken());
	c.Process(ConstByteData(b.d + m, b.n - m), AnyToken());
	ENSURES("the destination holds the bytes in order", out[k] == (k < b.n ? b.d[k] : old));
	ENSURES("full exactly when all room is used", c.IsFull() == (b.n >= n));
	COVER("done");
}
