// C02 bit streams: any buffer length, content, position; widths 1..64.
// @sources: shared_ptr.cpp self_counter.cpp
#include <vc.h>
#include <stingraykit/io/BitStream.h>
using namespace stingray;
typedef unsigned __int128 u128;

template < int S > struct Uint { typedef typename If<(S <= 8), u8, typename If<(S <= 16), u16, typename If<(S <= 32), u32, u64>::ValueT>::ValueT>::ValueT T; };
template < int S > static u64 Mask() { return S >= 64 ? ~(u64)0 : (((u64)1 << (S & 63)) - 1); }

// S bits of d starting at bit pos, most significant first; bits of d beyond n are never looked at
template < int S > static u64 Bits(const u8* d, size_t n, size_t pos)
{
	enum { NB = (S + 7 + 7) / 8 };
	u128 acc = 0;
	for (int i = 0; i < NB; ++i)
	{
		const size_t at = (pos >> 3) + i;
		acc = (acc << 8) | (at < n ? d[at] : 0);
	}
	return (u64)(acc >> (8 * NB - (pos & 7) - S)) & Mask<S>();
}
template < int S > static u64 Swapped(u64 v)
{
	u64 r = 0;
	for (int i = 0; i < S / 8; ++i)
		r |= ((v >> (8 * i)) & 0xff) << (8 * (S / 8 - 1 - i));
	return r;
}
static bool Fits(size_t n, size_t pos, size_t bits) { return pos <= 8 * n && bits <= 8 * n - pos; }
static u8* Buf(size_t& n)
{
	n = ANY(size_t);
	REQUIRES(n >= 1 && n <= ((size_t)1 << 40));
	return (u8*)vc_bytes(n);
}
static size_t Position() { return (ANY(size_t) << 3) | vc_pick(8); }
// bits of byte k inside [pos, pos + bits)
static u8 Inside(size_t k, size_t pos, size_t bits)
{
	const size_t delta = k - (pos >> 3), bit = pos & 7;
	u8 r = 0;
	for (size_t i = 0; 8 * i < bit + bits; ++i)
		if (delta == i)
			r = (u8)((0xffu >> (i == 0 ? bit : 0)) & ~(8 * i + 8 <= bit + bits ? 0 : 0xffu >> (bit + bits - 8 * i)));
	return r;
}

template < int S, bool BE > static void ReadN()
{
	typedef typename Uint<S>::T T;
	size_t n; u8* d = Buf(n);
	const size_t pos = Position();
	const bool peek = ANY(bool);
	REQUIRES(pos <= ~(size_t)0 - 64);
	BasicBitStream<ConstByteData, BE> s(ConstByteData(d, n));
	s.Seek(pos);
	ENSURES("seek sets the position", s.GetBitPosition() == pos);
	bool thrown = false;
	T r = 0;
	try { if (peek) r = s.template Peek<S>(); else r = s.template Read<S>(); }
	catch (const IndexOutOfRangeException&) { thrown = true; }
	ENSURES("read refused exactly beyond the end", thrown == !Fits(n, pos, S));
	if (!thrown)
	{
		const u64 v = Bits<S>(d, n, pos);
		ENSURES("value of the bits read", r == (BE ? v : Swapped<S>(v)));
		ENSURES("position advances by the bits read", s.GetBitPosition() == pos + (peek ? 0 : S));
		ENSURES("remaining bits", s.GetRemainingBitsCount() == 8 * n - s.GetBitPosition());
		ENSURES("at end", s.AtEnd() == (s.GetBitPosition() / 8 >= n));
		COVER("read");
	}
	else
		COVER("refused");
}

template < int S, bool BE > static void WriteN()
{
	typedef typename Uint<S>::T T;
	size_t n; u8* d = Buf(n);
	const size_t pos = Position(), k = ANY(size_t);
	REQUIRES(pos <= ~(size_t)0 - 64 && k < n);
	const u8 before = d[k];
	const T v = ANY(T);
	BasicBitStream<ByteData, BE> s(ByteData(d, n));
	s.Seek(pos);
	bool thrown = false;
	try { s.template Write<S>(v); }
	catch (const IndexOutOfRangeException&) { thrown = true; }
	ENSURES("write refused exactly beyond the end", thrown == !Fits(n, pos, S));
	ENSURES("bits outside the write are unchanged", ((d[k] ^ before) & (u8)~(thrown ? 0 : Inside(k, pos, S))) == 0);
	if (!thrown)
	{
		const u64 e = v & Mask<S>();
		ENSURES("bits written", Bits<S>(d, n, pos) == (BE ? e : Swapped<S>(e)));
		ENSURES("position advances by the bits written", s.GetBitPosition() == pos + S);
		s.Seek(pos);
		T r = s.template Read<S>();
		ENSURES("what was written reads back", r == e);
		COVER("written");
	}
	else
		COVER("refused");
}

#define ALL(X) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15) X(16) X(17) X(18) X(19) X(20) X(21) X(22) X(23) X(24) X(25) \
	X(27) X(28) X(29) X(30) X(31) X(32) X(33) X(36) X(39) X(40) X(42) X(48) X(49) X(55) X(56) X(57) X(58) X(63) X(64)
#define RW(S) PROOF(C02_read_##S) { ReadN<S, true>(); } PROOF(C02_write_##S) { WriteN<S, true>(); }
ALL(RW)
#define LE(S) PROOF(C02_le_read_##S) { ReadN<S, false>(); } PROOF(C02_le_write_##S) { WriteN<S, false>(); }
LE(8) LE(16) LE(24) LE(32) LE(40) LE(48) LE(56) LE(64)

// consecutive operations of different widths cover consecutive bits
PROOF(C02_sequence)
{
	size_t n; u8* d = Buf(n);
	const size_t pos = Position();
	REQUIRES(pos <= 8 * n && Fits(n, pos, 3 + 13 + 32));
	const u8 a = ANY(u8) & 7; const u16 b = ANY(u16) & 0x1fff; const u32 c = ANY(u32);
	BitStream s(ByteData(d, n));
	s.Seek(pos);
	BitStream::Watcher w(s);
	s.Write<3>(a);
	s.Write<13>(b);
	s.Write<32>(c);
	ENSURES("writes add up", s.GetBitPosition() == pos + 48);
	ENSURES("watcher reports the bits passed", w.GetOffsetDelta() == 48);
	s.Seek(pos);
	const u8 ra = s.Read<3>(); const u16 rb = s.Read<13>(); const u32 rc = s.Read<32>();
	ENSURES("values come back in order", ra == a && rb == b && rc == c);
	s.Seek(pos);
	const u64 all = s.Peek<48>();
	ENSURES("most significant first, back to back", all == (((u64)a << 45) | ((u64)b << 32) | c));
	ENSURES("peek leaves the position", s.GetBitPosition() == pos);
	COVER("done");
}

PROOF(C02_skip)
{
	size_t n; u8* d = Buf(n);
	const size_t pos = ANY(size_t), skip = ANY(size_t);
	REQUIRES(pos <= ~(size_t)0 - skip);
	BitStream s(ByteData(d, n));
	s.Seek(pos);
	s.Skip(skip);
	ENSURES("skip advances by that many bits", s.GetBitPosition() == pos + skip);
	COVER("done");
}

PROOF(C02_can_read)
{
	size_t n; u8* d = Buf(n);
	const size_t pos = Position(), more = ANY(size_t);
	ConstBitStream s(ConstByteData(d, n));
	s.Seek(pos);
	ENSURES("CanRead tells whether that many bits are left", s.CanRead(more) == Fits(n, pos, more));
	COVER("done");
}

PROOF(C02_deferred)
{
	size_t n; u8* d = Buf(n);
	const size_t pos = Position(), k = ANY(size_t);
	REQUIRES(pos <= 8 * n && Fits(n, pos, 12 + 9) && k < n);
	const u8 before = d[k];
	const u16 a = ANY(u16) & 0xfff, b = ANY(u16) & 0x1ff;
	BitStream s(ByteData(d, n));
	s.Seek(pos);
	BitStream::DeferredWriter<12> w(s);
	ENSURES("deferred writer reserves its bits", s.GetBitPosition() == pos + 12);
	s.Write<9>(b);
	w.Write(a);
	ENSURES("deferred write does not move the stream", s.GetBitPosition() == pos + 21);
	ENSURES("deferred bits", Bits<12>(d, n, pos) == a && Bits<9>(d, n, pos + 12) == b);
	ENSURES("everything else unchanged", ((d[k] ^ before) & (u8)~Inside(k, pos, 21)) == 0);
	COVER("done");
}

PROOF(C02_rollback)
{
	size_t n; u8* d = Buf(n);
	const size_t pos = Position();
	ConstBitStream s(ConstByteData(d, n));
	s.Seek(pos);
	{
		ConstBitStream::Rollback r(s);
		s.Skip(ANY(size_t));
		s.Seek(ANY(size_t));
	}
	ENSURES("rollback restores the position", s.GetBitPosition() == pos);
	COVER("done");
}

PROOF(C02_substream)
{
	size_t n; u8* d = Buf(n);
	const size_t pos = Position(), k = ANY(size_t);
	BitStream s(ByteData(d, n));
	s.Seek(pos);
	bool thrown = false;
	ByteData rest;
	try { rest = s.GetAvailableByteData(); }
	catch (const std::exception&) { thrown = true; }
	ENSURES("rest refused exactly when misaligned or past the end", thrown == (pos % 8 != 0 || pos / 8 > n));
	if (!thrown)
	{
		ENSURES("rest of the buffer", rest.size() == n - pos / 8);
		if (k < rest.size())
			ENSURES("bytes of the rest", &rest[k] == d + pos / 8 + k);
		COVER("rest");
	}
}

PROOF(C02_delta)
{
	size_t n; u8* d = Buf(n);
	const size_t pos = Position(), bits = ANY(size_t);
	REQUIRES(pos <= 8 * n && bits <= 8 * n && Fits(n, pos, bits));
	BitStream s(ByteData(d, n));
	s.Seek(pos);
	BitStream::Watcher w(s);
	s.Skip(bits);
	ByteData x = w.GetDataDelta();
	ENSURES("data passed since the watcher was made", w.GetOffsetDelta() == bits && x.size() == bits / 8 && x.data() == d + pos / 8);
	COVER("done");
}

// element arrays (bounded count)
PROOF(C02_arrays)
{
	vc_bounded("arrays of up to 3 elements");
	size_t n; u8* d = Buf(n);
	const size_t pos = Position(), cnt = ANY(u8);
	REQUIRES(pos <= 8 * n && cnt <= 3 && Fits(n, pos, 11 * cnt));
	u16 in[3] = { (u16)(ANY(u16) & 0x7ff), (u16)(ANY(u16) & 0x7ff), (u16)(ANY(u16) & 0x7ff) };
	u16 out[4] = { 1, 2, 3, 4 };
	BitStream s(ByteData(d, n));
	s.Seek(pos);
	if (ANY(bool)) s.WriteArray<11>(in, cnt); else s.WriteArray<11>(in, in + cnt);
	ENSURES("array write advances", s.GetBitPosition() == pos + 11 * cnt);
	if (cnt > 1)
		ENSURES("elements back to back", Bits<22>(d, n, pos) == (((u64)in[0] << 11) | in[1]));
	s.Seek(pos);
	if (ANY(bool)) s.ReadArray<11>(out, cnt); else s.ReadArray<11>(out, out + cnt);
	ENSURES("array read advances", s.GetBitPosition() == pos + 11 * cnt);
	for (size_t i = 0; i < 3; ++i)
		ENSURES("elements come back", out[i] == (i < cnt ? in[i] : i + 1));
	ENSURES("no extra element", out[3] == 4);
	COVER("done");
}

PROOF(C02_strings)
{
	vc_bounded("strings of up to 3 characters");
	size_t n; u8* d = Buf(n);
	const size_t pos = Position(), len = ANY(u8);
	REQUIRES(pos <= 8 * n && len <= 3 && Fits(n, pos, 7 + 8 * 3 + 8));
	const char c[3] = { (char)ANY(u8), (char)ANY(u8), (char)ANY(u8) };
	const bool prefixed = ANY(bool);
	for (size_t i = 0; i < 3; ++i)
		REQUIRES(c[i] != 0);
	const std::string str(c, len);
	BitStream s(ByteData(d, n));
	s.Seek(pos);
	if (prefixed) s.WriteLengthPrefixedString<7>(str); else s.WriteNullTerminatedString(str);
	ENSURES("bits of the string", s.GetBitPosition() == pos + 8 * len + (prefixed ? 7 : 8));
	s.Seek(pos);
	const std::string r = prefixed ? s.ReadLengthPrefixedString<7>() : s.ReadNullTerminatedString();
	ENSURES("string read back takes the same bits", s.GetBitPosition() == pos + 8 * len + (prefixed ? 7 : 8));
	ENSURES("length comes back", r.size() == len);
	for (size_t i = 0; i < 3; ++i)
		if (i < len)
			ENSURES("characters come back", r[i] == c[i]);
	COVER("done");
}

// a stream that owns its storage grows to hold what is written
PROOF(C02_growing)
{
	const size_t n = ANY(size_t), pos = (ANY(size_t) << 3) | (vc_pick(2) * 5), k = ANY(size_t);
	REQUIRES(n <= ((size_t)1 << 30) && pos <= ((size_t)1 << 32));
	const u64 v = ANY(u64) & 0x1fffff;
	ByteArray a(n);
	if (k < n)
		a[k] = ANY(u8);
	const u8 before = k < n ? a[k] : 0;
	SeisedBitStream s(a);
	s.Seek(pos);
	s.Write<21>(v);
	ENSURES("position advances", s.GetBitPosition() == pos + 21);
	ByteArray r = s.GetData();
	const size_t need = (pos + 21 + 7) / 8;
	ENSURES("storage grows just enough", r.size() == (n >= need ? n : need));
	if (k < r.size())
		ENSURES("bits outside the write keep their value", ((r[k] ^ before) & (u8)~Inside(k, pos, 21)) == 0);
	ENSURES("bits written", Bits<21>(r.data(), r.size(), pos) == v);
	COVER("done");
}
