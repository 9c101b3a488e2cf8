// C01 bit fields.  Contract of BitsSetter::Set / BitsGetter::Get, instantiated for every width 1..64 and every bit alignment,
// over a buffer of arbitrary length with arbitrary content and an arbitrary value.
// @sources:
#include <vc.h>
#include <stingraykit/BitsGetter.h>
#include <utility>
using namespace stingray;

template < size_t S > struct Uint { typedef typename If<(S <= 8), u8, typename If<(S <= 16), u16, typename If<(S <= 32), u32, u64>::ValueT>::ValueT>::ValueT T; };

template < size_t S > static u64 Mask() { return S >= 64 ? ~(u64)0 : (((u64)1 << (S & 63)) - 1); }

static unsigned Bit(const u8* d, size_t bit) { return (d[bit >> 3] >> (7 - (bit & 7))) & 1; }

// value of the field by definition: bits most significant first (big endian)
template < size_t O, size_t S > static u64 FieldBE(const u8* d)
{
	u64 r = 0;
	const size_t first = O / 8, last = (O + S - 1) / 8;
	unsigned taken = 0;
	for (size_t i = last + 1; i-- > first; )
	{
		const unsigned lo = i == last ? (unsigned)(8 * (last + 1) - (O + S)) : 0;		// unused low bits of this byte
		const unsigned hi = i == first ? O % 8 : 0;										// unused high bits
		const u64 b = ((u64)d[i] & (0xffu >> hi)) >> lo;
		r |= b << taken;
		taken += 8 - lo - hi;
	}
	return r;
}

template < size_t S > static u64 Swapped(u64 v)
{
	u64 r = 0;
	for (size_t i = 0; i < S / 8; ++i)
		r |= ((v >> (8 * i)) & 0xff) << (8 * (S / 8 - 1 - i));
	return r;
}

template < bool BE, size_t O, size_t S, typename T > static void Field(u8* d, size_t n)
{
	const size_t need = (O + S + 7) / 8;
	const T v = ANY(T);
	const size_t k = ANY(size_t);			// any byte
	REQUIRES(k < n);
	const u8 before = d[k];
	bool thrown = false;
	ByteData data(d, n);
	BasicBitsSetter<ByteData, BE> setter(data);
	try { setter.template Set<O, S>(v); }
	catch (const IndexOutOfRangeException&) { thrown = true; }
	ENSURES("refused exactly when the field does not fit", thrown == (n < need));
	// frame: the bits of byte k that belong to the field
	const size_t kb = k * 8;
	u8 inside = 0;
	if (kb + 8 > O && kb < O + S)
	{
		const size_t lo = kb >= O ? 0 : O - kb;				// first bit of the byte (from the top) in the field
		const size_t hi = kb + 8 <= O + S ? 8 : O + S - kb;	// one past the last
		inside = (u8)((0xffu >> lo) & ~(0xffu >> hi));
	}
	if (thrown)
		inside = 0;
	ENSURES("bits outside the field are unchanged", ((d[k] ^ before) & (u8)~inside) == 0);
	bool getThrown = false;
	u64 got = 0;
	BasicBitsGetter<ConstByteData, BE> getter(ConstByteData(d, n));
	try { T r = getter.template Get<O, S>(); got = (u64)(typename IntType<sizeof(T) * 8, false>::ValueT)r; }
	catch (const IndexOutOfRangeException&) { getThrown = true; }
	ENSURES("read refused exactly when the field does not fit", getThrown == (n < need));
	if (!thrown && !getThrown)
	{
		const u64 expect = (u64)(typename IntType<sizeof(T) * 8, false>::ValueT)v & Mask<S>();
		ENSURES("reads back what was stored", got == expect);
		ENSURES("bit layout in the buffer", FieldBE<O, S>(d) == (BE || S < 8 ? expect : Swapped<S>(expect)));
		COVER("field fits");
	}
	else
		COVER("field refused");
}

// reading a field that was not written by the setter: value by definition
template < bool BE, size_t O, size_t S, typename T > static void ReadOnly(const u8* d, size_t n)
{
	bool thrown = false;
	u64 got = 0;
	try { T r = BasicBitsGetter<ConstByteData, BE>(ConstByteData(d, n)).template Get<O, S>(); got = r; }
	catch (const IndexOutOfRangeException&) { thrown = true; }
	ENSURES("read refused exactly when the field does not fit", thrown == (n < (O + S + 7) / 8));
	if (!thrown)
	{
		u64 f = FieldBE<O, S>(d);
		ENSURES("value is the bits of the field", got == (BE ? f : Swapped<S>(f)));
		COVER("field fits");
	}
}

static u8* Buf(size_t& n)
{
	n = ANY(size_t);
	REQUIRES(n >= 1 && n <= ((size_t)1 << 40));
	return (u8*)vc_bytes(n);
}

#define BE(S) \
	PROOF(C01_be_##S) \
	{ \
		size_t n; u8* d = Buf(n); \
		typedef Uint<S>::T T; \
		switch (ANY(u8) & 7) \
		{ \
		case 0: Field<true, 0, S, T>(d, n); break; \
		case 1: Field<true, 1, S, T>(d, n); break; \
		case 2: Field<true, 2, S, T>(d, n); break; \
		case 3: Field<true, 3, S, T>(d, n); break; \
		case 4: Field<true, 4, S, T>(d, n); break; \
		case 5: Field<true, 5, S, T>(d, n); break; \
		case 6: Field<true, 6, S, T>(d, n); break; \
		case 7: Field<true, 7, S, T>(d, n); break; \
		} \
	} \
	PROOF(C01_be_wide_##S) \
	{ \
		size_t n; u8* d = Buf(n); \
		switch (ANY(u8) & 3) \
		{ \
		case 0: Field<true, 80, S, u64>(d, n); break; \
		case 1: Field<true, 13, S, u64>(d, n); break; \
		case 2: ReadOnly<true, 8 * 5, S, u64>(d, n); break; \
		case 3: ReadOnly<true, 8 * 3 + 5, S, u64>(d, n); break; \
		} \
	}
#define LE(S) \
	PROOF(C01_le_##S) \
	{ \
		size_t n; u8* d = Buf(n); \
		typedef Uint<S>::T T; \
		switch (ANY(u8) & 15) \
		{ \
		case 0: Field<false, 0, S, T>(d, n); break; \
		case 1: Field<false, 1, S, T>(d, n); break; \
		case 2: Field<false, 2, S, T>(d, n); break; \
		case 3: Field<false, 3, S, T>(d, n); break; \
		case 4: Field<false, 4, S, T>(d, n); break; \
		case 5: Field<false, 5, S, T>(d, n); break; \
		case 6: Field<false, 6, S, T>(d, n); break; \
		case 7: Field<false, 7, S, T>(d, n); break; \
		case 8: Field<false, 24, S, T>(d, n); break; \
		case 9: Field<false, 37, S, T>(d, n); break; \
		case 10: Field<false, 0, S, u64>(d, n); break; \
		case 11: Field<false, 3, S, u64>(d, n); break; \
		case 12: ReadOnly<false, 16, S, u64>(d, n); break; \
		case 13: ReadOnly<false, 22, S, u64>(d, n); break; \
		} \
	}
BE(1) BE(2) BE(3) BE(4) BE(5) BE(6) BE(7) BE(8) BE(9) BE(10) BE(11) BE(12) BE(13) BE(14) BE(15) BE(16)
BE(17) BE(18) BE(19) BE(20) BE(21) BE(22) BE(23) BE(24) BE(25) BE(26) BE(27) BE(28) BE(29) BE(30) BE(31) BE(32)
BE(33) BE(34) BE(35) BE(36) BE(37) BE(38) BE(39) BE(40) BE(41) BE(42) BE(43) BE(44) BE(45) BE(46) BE(47) BE(48)
BE(49) BE(50) BE(51) BE(52) BE(53) BE(54) BE(55) BE(56) BE(57) BE(58) BE(59) BE(60) BE(61) BE(62) BE(63) BE(64)
LE(8) LE(16) LE(24) LE(32) LE(40) LE(48) LE(56) LE(64)

// fields of less than a byte have no byte order: little-endian form equals big-endian form
template < size_t S > static void SubByte()
{
	size_t n; u8* d = Buf(n);
	switch (ANY(u8) & 3)
	{
	case 0: Field<false, 0, S, u8>(d, n); break;
	case 1: Field<false, 3, S, u8>(d, n); break;
	case 2: Field<false, 13, S, u8>(d, n); break;
	case 3: Field<false, 7, S, u32>(d, n); break;
	}
}
PROOF(C01_le_1) { SubByte<1>(); }
PROOF(C01_le_2) { SubByte<2>(); }
PROOF(C01_le_3) { SubByte<3>(); }
PROOF(C01_le_4) { SubByte<4>(); }
PROOF(C01_le_5) { SubByte<5>(); }
PROOF(C01_le_6) { SubByte<6>(); }
PROOF(C01_le_7) { SubByte<7>(); }

// a little-endian field of 12 bits
PROOF(C01_le_12)
{
	size_t n; u8* d = Buf(n);
	const u16 v = ANY(u16);
	REQUIRES(n >= 2);
	LittleEndianBitsSetter(ByteData(d, n)).Set<0, 12>(v);
	const u16 r = LittleEndianBitsGetter(ConstByteData(d, n)).Get<0, 12>();
	ENSURES("12-bit little-endian field reads back", r == (v & 0xfff));
}

// signed and boolean value types
PROOF(C01_signed)
{
	size_t n; u8* d = Buf(n);
	switch (ANY(u8) & 7)
	{
	case 0: Field<true, 3, 8, s8>(d, n); break;
	case 1: Field<true, 0, 16, s16>(d, n); break;
	case 2: Field<true, 6, 32, s32>(d, n); break;
	case 3: Field<true, 1, 64, s64>(d, n); break;
	case 4: Field<false, 0, 16, s16>(d, n); break;
	case 5: Field<false, 8, 32, s32>(d, n); break;
	case 6: Field<false, 4, 64, s64>(d, n); break;
	case 7: Field<true, 5, 1, bool>(d, n); break;
	}
}

// whole-type accessors and the byte offset / size constructors
template < typename P > static void Whole()
{
	size_t n; u8* d = Buf(n);
	const size_t ofs = ANY(size_t), k = ANY(size_t);
	REQUIRES(k < n);
	const u8 before = d[k];
	const P v = ANY(P);
	bool thrown = false, getThrown = false;
	ByteData data(d, n);
	try { BitsSetter(data, ofs).Set(v); }
	catch (const IndexOutOfRangeException&) { thrown = true; }
	ENSURES("offset setter refuses exactly what does not fit", thrown == (ofs > n || n - ofs < sizeof(P)));
	const bool in = !thrown && k >= ofs && k < ofs + sizeof(P);
	ENSURES("only the bytes of the value change", in || d[k] == before);
	if (in)
		ENSURES("byte of the value", d[k] == (u8)((u64)v >> (8 * (sizeof(P) - 1 - (k - ofs)))));
	P r = 0;
	try { r = BitsGetter(ConstByteData(d, n), ofs).Get<P>(); }
	catch (const IndexOutOfRangeException&) { getThrown = true; }
	ENSURES("offset getter refuses exactly what does not fit", getThrown == (ofs > n || n - ofs < sizeof(P)));
	if (!getThrown)
		ENSURES("whole value reads back", r == v);
	COVER("done");
}
PROOF(C01_whole_u8) { Whole<u8>(); }
PROOF(C01_whole_u16) { Whole<u16>(); }
PROOF(C01_whole_s32) { Whole<s32>(); }
PROOF(C01_whole_u64) { Whole<u64>(); }
