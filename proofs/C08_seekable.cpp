// C08 seekable streams: every size, position, transfer length and seek, for the in-memory, chunked, windowed and buffered streams.
// The windowed and buffered streams are verified against the contract of a seekable stream (File below): reads and writes may be short.
// @sources: shared_ptr.cpp self_counter.cpp thread/DummyCancellationToken.cpp
// @assume: std::copy between bytes and checked byte iterators copies the whole range (its loop is replaced by one block copy)
#include <vc.h>
#include <string.h>
#include <stingraykit/collection/ByteData.h>

namespace std
{
	template < typename T > inline T* VcRange(const stingray::ByteDataIterator<T>& first, ptrdiff_t n) { T* p = &*first; (void)&*(first + (n - 1)); return p; }
	template < > inline unsigned char* copy(stingray::ByteDataIterator<unsigned char> first, stingray::ByteDataIterator<unsigned char> last, unsigned char* out)
	{ const ptrdiff_t n = last - first; if (n) ::memmove(out, VcRange(first, n), n); return out + n; }
	template < > inline unsigned char* copy(stingray::ByteDataIterator<const unsigned char> first, stingray::ByteDataIterator<const unsigned char> last, unsigned char* out)
	{ const ptrdiff_t n = last - first; if (n) ::memmove(out, VcRange(first, n), n); return out + n; }
	template < > inline stingray::ByteDataIterator<unsigned char> copy(const unsigned char* first, const unsigned char* last, stingray::ByteDataIterator<unsigned char> out)
	{ const ptrdiff_t n = last - first; if (n) ::memmove(VcRange(out, n), first, n); return out + n; }
	template < > inline stingray::ByteDataIterator<unsigned char> copy(unsigned char* first, unsigned char* last, stingray::ByteDataIterator<unsigned char> out)
	{ const ptrdiff_t n = last - first; if (n) ::memmove(VcRange(out, n), first, n); return out + n; }
}
#include <stingraykit/io/BufferedStream.h>
#include <stingraykit/io/ByteStreamWithOffset.h>
#include <stingraykit/io/ByteStreamWithOffsetAndSize.h>
#include <stingraykit/io/ChunkedMemoryByteStream.h>
#include <stingraykit/io/MemoryByteStream.h>
using namespace stingray;

static const u64 Limit = (u64)1 << 40;
static DummyCancellationToken Token_() { return DummyCancellationToken(); }
#define TOKEN DummyCancellationToken()

static u64 Small() { const u64 v = ANY(u64); REQUIRES(v <= Limit); return v; }
static s64 AnyOffset() { const s64 v = ANY(s64); REQUIRES(v >= -(s64)(Limit * 4) && v <= (s64)(Limit * 4)); return v; }

// ---- in-memory streams
template < typename S > struct Mem
{
	u64 n, pos; u8* d;
	shared_ptr<S> s;
};
template < typename C > static void AnyMem(Mem<MemoryByteStream<C> >& m)
{
	m.n = Small(); m.pos = ANY(u64);
	REQUIRES(m.n >= 1 && m.pos <= m.n);
	m.d = (u8*)vc_bytes(m.n);
	m.s = make_shared_ptr<MemoryByteStream<C> >(C(m.d, m.n));
	ENSURES("a new stream is at its beginning", m.s->Tell() == 0);
	m.s->Seek((s64)m.pos);
	ENSURES("seeking sets the position reported", m.s->Tell() == m.pos);
}

template < typename C > static void MemRead()
{
	Mem<MemoryByteStream<C> > m; AnyMem<C>(m);
	const u64 size = Small(), k = ANY(u64);
	REQUIRES(k < size);
	u8* out = (u8*)vc_bytes(size);
	const u8 before = out[k];
	const u64 got = m.s->Read(ByteData(out, size), TOKEN);
	ENSURES("a read delivers what is left, at most what was asked for", got == (size < m.n - m.pos ? size : m.n - m.pos));
	ENSURES("the position moves by the amount read", m.s->Tell() == m.pos + got);
	if (k < got)
		ENSURES("the bytes read are the bytes stored there", out[k] == m.d[m.pos + k]);
	else
		ENSURES("bytes beyond the amount reported are left alone", out[k] == before);
	COVER("read");
}
PROOF(C08_mem_read_data) { MemRead<ByteData>(); }
PROOF(C08_mem_read_array) { MemRead<ByteArray>(); }
PROOF(C08_mem_read_const_array) { MemRead<ConstByteArray>(); }
PROOF(C08_mem_read_const_data) { MemRead<ConstByteData>(); }

template < typename C > static void MemWrite(bool grows)
{
	Mem<MemoryByteStream<C> > m; AnyMem<C>(m);
	const u64 size = Small(), k = ANY(u64);
	REQUIRES(size >= 1);
	u8* in = (u8*)vc_bytes(size);
	const u64 room = m.n - m.pos;
	const u64 put = grows || size < room ? size : room;
	const u64 total = m.pos + put > m.n ? m.pos + put : m.n;
	REQUIRES(k < total);
	const u8 old = k < m.n ? m.d[k] : 0;
	const u64 got = m.s->Write(ConstByteData(in, size), TOKEN);
	ENSURES("a write reports what it wrote", got == put);
	ENSURES("the position moves by the amount written", m.s->Tell() == m.pos + put);
	const C c(m.s->GetData());
	ENSURES("a write extends the stream exactly to its end", c.size() == total);
	if (k >= m.pos && k < m.pos + put)
		ENSURES("the addressed range holds the written bytes", *(c.begin() + k) == in[k - m.pos]);
	else
		ENSURES("all other bytes are left alone", *(c.begin() + k) == old);
	COVER("written");
}
PROOF(C08_mem_write_data) { MemWrite<ByteData>(false); }
PROOF(C08_mem_write_array) { MemWrite<ByteArray>(true); }

template < typename C > static void MemSeek()
{
	Mem<MemoryByteStream<C> > m; AnyMem<C>(m);
	const s64 o = AnyOffset();
	const u64 mode = vc_pick(3);
	const s64 target = mode == 0 ? o : mode == 1 ? (s64)m.pos + o : (s64)m.n + o;
	bool thrown = false;
	try { m.s->Seek(o, mode == 0 ? SeekMode::Begin : mode == 1 ? SeekMode::Current : SeekMode::End); }
	catch (const std::exception&) { thrown = true; }
	ENSURES("seeking is refused exactly outside the stream", thrown == (target < 0 || target > (s64)m.n));
	ENSURES("seeking sets the position reported, a refused seek keeps it", m.s->Tell() == (thrown ? m.pos : (u64)target));
	if (thrown) COVER("refused"); else COVER("moved");
}
PROOF(C08_mem_seek_data) { MemSeek<ByteData>(); }
PROOF(C08_mem_seek_array) { MemSeek<ByteArray>(); }

// ---- chunked streams: up to three chunks of any sizes
struct Chunks
{
	typedef ChunkedMemoryByteStream<ByteArray> Stream;
	u64 count, size[3], total, pos; u8* d[3];
	shared_ptr<std::vector<ByteArray> > c;
	u8 At(u64 k) const
	{
		for (u64 i = 0; i < count; k -= size[i++])
			if (k < size[i])
				return d[i][k];
		return 0;
	}
	static u8 In(const std::vector<ByteArray>& v, u64 k)
	{
		for (size_t i = 0; i < v.size(); k -= v[i++].size())
			if (k < v[i].size())
				return *(v[i].begin() + k);
		return 0;
	}
	static u64 Total(const std::vector<ByteArray>& v) { u64 r = 0; for (size_t i = 0; i < v.size(); ++i) r += v[i].size(); return r; }
};
static void AnyChunks(Chunks& x, u64 min, u64 max)
{
	vc_bounded("chunk lists of up to three chunks of any sizes");
	x.count = min + vc_pick(max - min + 1);
	x.total = 0;
	x.c = make_shared_ptr<std::vector<ByteArray> >();
	for (u64 i = 0; i < x.count; ++i)
	{
		x.size[i] = Small();
		REQUIRES(x.size[i] >= 1);
		x.d[i] = (u8*)vc_bytes(x.size[i]);
		x.c->push_back(ByteArray(x.d[i], x.size[i]));
		x.total += x.size[i];
	}
}
static void GoTo(Chunks& x, Chunks::Stream& s)
{
	x.pos = ANY(u64);
	REQUIRES(x.pos <= x.total);
	if (x.count)
		s.Seek((s64)x.pos);
	ENSURES("seeking sets the position reported", s.Tell() == x.pos);
}

PROOF(C08_chunk_read)
{
	Chunks x; AnyChunks(x, 1, 3);
	Chunks::Stream s(x.c);
	GoTo(x, s);
	REQUIRES(x.pos < x.total);
	const u64 size = Small(), k = ANY(u64);
	REQUIRES(size >= 1 && k < size);
	u8* out = (u8*)vc_bytes(size);
	const u64 got = s.Read(ByteData(out, size));
	ENSURES("a read delivers what is left, at most what was asked for", got == (size < x.total - x.pos ? size : x.total - x.pos));
	ENSURES("the position moves by the amount read", s.Tell() == x.pos + got);
	if (k < got)
		ENSURES("the bytes read are the bytes stored there", out[k] == x.At(x.pos + k));
	COVER("read");
}

PROOF(C08_chunk_read_twice)
{
	Chunks x; AnyChunks(x, 1, 2);
	Chunks::Stream s(x.c);
	GoTo(x, s);
	const u64 a = Small(), b = Small(), k = ANY(u64);
	REQUIRES(a >= 1 && b >= 1 && a < x.total - x.pos && b <= x.total - x.pos - a && k < b);
	u8* p = (u8*)vc_bytes(a); u8* q = (u8*)vc_bytes(b);
	ENSURES("the first read delivers what it asked for", s.Read(ByteData(p, a)) == a);
	ENSURES("the second read delivers what it asked for", s.Read(ByteData(q, b)) == b);
	ENSURES("the second read continues where the first stopped", q[k] == x.At(x.pos + a + k));
	ENSURES("the position moves by the amounts read", s.Tell() == x.pos + a + b);
	COVER("read");
}

static void ChunkWrite(u64 min, u64 max)
{
	Chunks x; AnyChunks(x, min, max);
	Chunks::Stream s(x.c);
	GoTo(x, s);
	const u64 size = Small(), k = ANY(u64);
	REQUIRES(size >= 1);
	u8* in = (u8*)vc_bytes(size);
	const u64 total = x.pos + size > x.total ? x.pos + size : x.total;
	REQUIRES(k < total);
	const u64 put = s.Write(ConstByteData(in, size));
	ENSURES("a write takes all bytes", put == size);
	ENSURES("a write extends the stream exactly to its end", Chunks::Total(*x.c) == total);
	const u8 now = Chunks::In(*x.c, k);
	if (k >= x.pos && k < x.pos + size)
		ENSURES("the addressed range holds the written bytes", now == in[k - x.pos]);
	else
		ENSURES("all other bytes are left alone", now == x.At(k));
	ENSURES("the position moves by the amount written", s.Tell() == x.pos + size);
	COVER("written");
}
PROOF(C08_chunk_write_few) { ChunkWrite(0, 1); }
PROOF(C08_chunk_write) { ChunkWrite(2, 2); }

PROOF(C08_chunk_write_read)
{
	Chunks x; AnyChunks(x, 1, 2);
	Chunks::Stream s(x.c);
	GoTo(x, s);
	const u64 size = Small(), k = ANY(u64);
	REQUIRES(size >= 1 && k < size);
	u8* in = (u8*)vc_bytes(size); u8* out = (u8*)vc_bytes(size);
	s.Write(ConstByteData(in, size));
	s.Seek((s64)x.pos);
	ENSURES("what was written can be read back", s.Read(ByteData(out, size)) == size && out[k] == in[k]);
	ENSURES("the position is after it", s.Tell() == x.pos + size);
	COVER("done");
}

PROOF(C08_chunk_seek)
{
	Chunks x; AnyChunks(x, 1, 3);
	Chunks::Stream s(x.c);
	GoTo(x, s);
	const s64 o = AnyOffset();
	const u64 mode = vc_pick(3);
	const s64 target = mode == 0 ? o : mode == 1 ? (s64)x.pos + o : (s64)x.total + o;
	bool thrown = false;
	try { s.Seek(o, mode == 0 ? SeekMode::Begin : mode == 1 ? SeekMode::Current : SeekMode::End); }
	catch (const std::exception&) { thrown = true; }
	ENSURES("seeking is refused exactly outside the stream", thrown == (target < 0 || target > (s64)x.total));
	ENSURES("seeking sets the position reported, a refused seek keeps it", s.Tell() == (thrown ? x.pos : (u64)target));
	if (thrown) COVER("refused"); else COVER("moved");
}

// ---- the contract the layered streams rely on: a seekable stream of n bytes, positions beyond its end allowed, transfers may be short
struct File : public IByteStream
{
	u64 n, cap, pos; u8* d; bool fails;
	u64 Part(u64 size)
	{
		if (!size) return 0;
		const u64 p = ANY(u64);
		REQUIRES(p >= 1 && p <= size);
		return p;
	}
	virtual u64 Read(ByteData data, const ICancellationToken&)
	{
		const u64 left = pos < n ? n - pos : 0;
		const u64 got = Part(data.size() < left ? data.size() : left);
		if (got)
			::memcpy(data.data(), d + pos, got);
		pos += got;
		return got;
	}
	virtual u64 Write(ConstByteData data, const ICancellationToken&)
	{
		REQUIRES(pos <= n && data.size() <= cap - pos);
		const u64 put = Part(data.size());
		if (put)
			::memcpy(d + pos, data.data(), put);
		pos += put;
		if (pos > n) n = pos;
		return put;
	}
	virtual void Seek(s64 offset, SeekMode mode)
	{
		const s64 to = mode == SeekMode::Begin ? offset : mode == SeekMode::Current ? (s64)pos + offset : (s64)n + offset;
		if (to < 0)
			throw InputOutputException("seek");
		pos = (u64)to;
	}
	virtual u64 Tell() const { return pos; }
};
static shared_ptr<File> AnyFile()
{
	shared_ptr<File> f = make_shared_ptr<File>();
	f->n = Small(); f->cap = Small(); f->pos = 0; f->fails = false;
	REQUIRES(f->cap >= 1 && f->n <= f->cap);
	f->d = (u8*)vc_bytes(f->cap);
	return f;
}

// a windowed stream over f starting at offset; limit: its fixed size, or the whole rest of the file
template < typename S > static void Windowed(const shared_ptr<File>& f, S& s, u64 offset, bool sized, u64 size)
{
	const s64 at = ANY(s64);
	REQUIRES(at >= 0 && at <= (s64)Limit && (!sized || at <= (s64)size));
	s.Seek(at);
	ENSURES("seeking sets the position reported", s.Tell() == (u64)at);
	ENSURES("the position is relative to the window", f->pos == offset + at);
	if (ANY(bool) && !sized)
		;
	else if (sized)
		f->pos = Small();		// the underlying stream is shared: another window moved it
	const u64 end = sized && offset + size < f->n ? offset + size : f->n;
	const u64 abs = offset + at;
	const u64 len = Small(), k = ANY(u64);
	u8* buf = (u8*)vc_bytes(len ? len : 1);
	switch (vc_pick(3))
	{
	case 0:
		{
			const u64 got = s.Read(ByteData(buf, len), TOKEN);
			const u64 left = abs < end ? end - abs : 0;
			ENSURES("a read stays inside the window", got <= len && got <= left && (got > 0 || len == 0 || left == 0));
			ENSURES("the position moves by the amount read", s.Tell() == at + got);
			REQUIRES(k < got);
			ENSURES("the bytes read are the bytes stored there", buf[k] == f->d[abs + k]);
			COVER("read");
			break;
		}
	case 1:
		{
			REQUIRES(abs <= f->n && k < f->cap);
			const u64 n = f->n;
			const u8 old = f->d[k];
			u64 put = 0;
			bool thrown = false;
			try { put = s.Write(ConstByteData(buf, len), TOKEN); } catch (const std::exception&) { thrown = true; }
			ENSURES("a write is refused exactly at the end of the window", thrown == (sized && (u64)at == size));
			if (thrown) { ENSURES("a refused write changes nothing", s.Tell() == (u64)at && f->d[k] == old && f->n == n); break; }
			ENSURES("a write stays inside the window", put <= len && (!sized || put <= size - at));
			ENSURES("the position moves by the amount written", s.Tell() == at + put);
			ENSURES("a write extends the stream exactly to its end", f->n == (abs + put > n ? abs + put : n));
			if (k >= abs && k < abs + put)
				ENSURES("the addressed range holds the written bytes", f->d[k] == buf[k - abs]);
			else
				ENSURES("all other bytes are left alone", f->d[k] == old);
			COVER("written");
			break;
		}
	case 2:
		{
			const s64 o = AnyOffset();
			const u64 mode = vc_pick(3);
			const s64 target = mode == 0 ? o : mode == 1 ? at + o : (sized ? (s64)size : (s64)f->n - (s64)offset) + o;
			bool thrown = false;
			try { s.Seek(o, mode == 0 ? SeekMode::Begin : mode == 1 ? SeekMode::Current : SeekMode::End); } catch (const std::exception&) { thrown = true; }
			ENSURES("seeking is refused exactly outside the window", thrown == (target < 0 || (sized && target > (s64)size)));
			ENSURES("seeking sets the position reported, a refused seek keeps it", s.Tell() == (thrown ? (u64)at : (u64)target));
			if (thrown) COVER("refused"); else COVER("moved");
			break;
		}
	}
}
PROOF(C08_offset)
{
	const shared_ptr<File> f = AnyFile();
	const u64 offset = Small();
	ByteStreamWithOffset s(f, (s64)offset);
	ENSURES("a new window is at its beginning", s.Tell() == 0 && f->pos == offset);
	Windowed(f, s, offset, false, 0);
}
PROOF(C08_offset_and_size)
{
	const shared_ptr<File> f = AnyFile();
	const u64 offset = Small(), size = Small();
	REQUIRES(size >= 1);
	ByteStreamWithOffsetAndSize s(f, (s64)offset, (s64)size);
	ENSURES("a new window is at its beginning", s.Tell() == 0 && f->pos == offset);
	Windowed(f, s, offset, true, size);
}

// ---- buffered stream over a file: every short history of a seek, a read, a seek, a write and a read; small sizes, arbitrary bytes
struct SmallFile : public IByteStream
{
	u64 n, pos; u8 d[8];
	virtual u64 Read(ByteData data, const ICancellationToken&)
	{
		u64 got = pos < n ? n - pos : 0;
		if (data.size() < got)
			got = data.size();
		if (got > 1)
			got = 1 + vc_pick(got);		// reads may be short
		for (u64 i = 0; i < got; ++i)
			data.data()[i] = d[pos + i];
		pos += got;
		return got;
	}
	virtual u64 Write(ConstByteData data, const ICancellationToken&)
	{
		for (u64 i = 0; i < data.size(); ++i)
			d[pos++] = data.data()[i];
		if (pos > n) n = pos;
		return data.size();
	}
	virtual void Seek(s64 offset, SeekMode mode) { pos = (u64)(mode == SeekMode::Begin ? offset : mode == SeekMode::Current ? (s64)pos + offset : (s64)n + offset); }
	virtual u64 Tell() const { return pos; }
};
struct Buffered
{
	shared_ptr<SmallFile> f;
	shared_ptr<BufferedStream> s;
	u64 at;
	Buffered(u64 n, u64 buffer, u64 alignment) : f(make_shared_ptr<SmallFile>()), at(0)
	{
		vc_bounded("buffered streams of up to 4 bytes after up to four operations");
		f->n = n; f->pos = 0;
		vc_havoc(f->d, sizeof(f->d));
		s = make_shared_ptr<BufferedStream>(f, buffer, alignment);
		IsAt();
	}
	void IsAt() { ENSURES("the position reported follows the operations", s->Tell() == at); }
	void Read(u64 len)
	{
		u8 out[4];
		const u64 got = s->Read(ByteData(out, len), TOKEN);
		const u64 left = at < f->n ? f->n - at : 0;
		ENSURES("a read delivers what is left, at most what was asked for", got == (len < left ? len : left));
		for (u64 i = 0; i < got; ++i)
			ENSURES("the bytes read are the bytes stored there", out[i] == f->d[at + i]);
		at += got;
		IsAt();
	}
	void Write()
	{
		REQUIRES(at <= f->n);
		u8 in = ANY(u8), old[8];
		for (u64 i = 0; i < 8; ++i) old[i] = f->d[i];
		const u64 n = f->n;
		ENSURES("a write reports what it wrote", s->Write(ConstByteData(&in, 1), TOKEN) == 1);
		ENSURES("a write extends the stream exactly to its end", f->n == (at + 1 > n ? at + 1 : n));
		for (u64 i = 0; i < 8; ++i)
			ENSURES("exactly the addressed range is replaced", f->d[i] == (i == at ? in : old[i]));
		++at;
		IsAt();
	}
	void Seek()
	{
		const u64 to = vc_pick(f->n + 2), mode = vc_pick(3);
		s->Seek(mode == 0 ? (s64)to : mode == 1 ? (s64)to - (s64)at : (s64)to - (s64)f->n, mode == 0 ? SeekMode::Begin : mode == 1 ? SeekMode::Current : SeekMode::End);
		at = to;
		IsAt();
	}
};
static void BufferedHistory(u64 n, u64 buffer, u64 alignment, bool seek)
{
	Buffered b(n, buffer, alignment);
	if (seek) b.Seek();
	b.Read(1 + vc_pick(2));
	switch (vc_pick(3)) { case 0: break; case 1: b.Seek(); break; case 2: b.Write(); break; }
	b.Read(1 + vc_pick(3));
	COVER("done");
}
PROOF(C08_buffered_3_2_1) { BufferedHistory(3, 2, 1, false); }
PROOF(C08_buffered_3_2_1_seek) { BufferedHistory(3, 2, 1, true); }
PROOF(C08_buffered_3_2_2) { BufferedHistory(3, 2, 2, false); }
PROOF(C08_buffered_3_2_2_seek) { BufferedHistory(3, 2, 2, true); }
PROOF(C08_buffered_3_4_2) { BufferedHistory(3, 4, 2, false); }
PROOF(C08_buffered_2_4_2_seek) { BufferedHistory(2, 4, 2, true); }
PROOF(C08_buffered_3_3_3) { BufferedHistory(3, 3, 3, false); }
PROOF(C08_buffered_2_3_3_seek) { BufferedHistory(2, 3, 3, true); }
PROOF(C08_buffered_write_twice)
{
	Buffered b(3, 2, 2);
	if (vc_pick(2)) b.Seek();
	b.Write();
	if (vc_pick(2)) b.Read(1);
	b.Write();
	b.Read(2);
	COVER("done");
}
