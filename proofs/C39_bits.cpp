// C39 integer builders and bit helpers: every value, every field width.
// @sources:
#include <vc.h>
#include <stingraykit/IntegerBuilder.h>
#include <stingraykit/BitwiseOperations.h>
using namespace stingray;

template < typename T > static T Low(T v, size_t bits) { return bits >= 8 * sizeof(T) ? v : (T)(v & (((T)1 << bits) - 1)); }

// one append of `bits` low bits of a U to an arbitrary partial result
template < typename R, typename U > static void Append()
{
	const U f = ANY(U);
	const size_t bits = 1 + vc_pick(8 * sizeof(U)), left = ANY(size_t);
	REQUIRES(bits < 8 * sizeof(R));
	const R before = ANY(R);
	IntegerBuilder<R> b;
	// an arbitrary partial result, built from two halves
	b.Append((R)(before >> (4 * sizeof(R))), 4 * sizeof(R)).Append(before, 4 * sizeof(R));
	ENSURES("halves join", b.GetResult() == before);
	b.Append(f, bits);
	ENSURES("field appended below, using exactly the stated low bits", b.GetResult() == (R)((R)((u64)before << bits) | (R)Low<u64>((u64)f, bits)));
	(void)left;
}
PROOF(C39_u8_u8) { Append<u8, u8>(); }
PROOF(C39_u16_u8) { Append<u16, u8>(); }
PROOF(C39_u16_u16) { Append<u16, u16>(); }
PROOF(C39_u32_u8) { Append<u32, u8>(); }
PROOF(C39_u32_u32) { Append<u32, u32>(); }
PROOF(C39_u64_u8) { Append<u64, u8>(); }
PROOF(C39_u64_u16) { Append<u64, u16>(); }
PROOF(C39_u64_u32) { Append<u64, u32>(); }
PROOF(C39_u64_u64) { Append<u64, u64>(); }

PROOF(C39_bytes)
{
	const u64 v = ANY(u64);
	IntegerBuilder<u64> b;
	for (int i = 0; i < 8; ++i)
		b.Append((u8)(v >> (56 - 8 * i)), 8);
	ENSURES("eight bytes give the integer back", b.GetResult() == v);
	IntegerBuilder<u32> c;
	for (int i = 0; i < 4; ++i)
		c.Append((u8)(v >> (24 - 8 * i)), 8);
	ENSURES("four bytes give the integer back", c.GetResult() == (u32)v);
	IntegerBuilder<u8> d;
	for (int i = 0; i < 8; ++i)
		d.Append((v >> (7 - i)) & 1 ? true : false);
	ENSURES("eight single bits give the byte back", d.GetResult() == (u8)v);
}

template < typename T, size_t I > static void Bit()
{
	const T v = ANY(T);
	const T bit = (T)((T)1 << I);
	ENSURES("test reports the bit", TestBit<I>(v) == ((v & bit) != 0));
	ENSURES("set sets only the bit", SetBit<I>(v) == (T)(v | bit));
	ENSURES("reset clears only the bit", (T)(ResetBit<I>(v) | (v & bit)) == v && (ResetBit<I>(v) & bit) == 0);
	ENSURES("flip changes only the bit", (T)(FlipBit<I>(v) ^ v) == bit);
}
template < typename T, size_t I > struct Bits
{ static void All() { Bit<T, I - 1>(); Bits<T, I - 1>::All(); } };
template < typename T > struct Bits<T, 0>
{ static void All() { } };
PROOF(C39_bit_u8) { Bits<u8, 8>::All(); }
PROOF(C39_bit_s8) { Bits<s8, 8>::All(); }
PROOF(C39_bit_u16) { Bits<u16, 16>::All(); }
PROOF(C39_bit_u32) { Bits<u32, 32>::All(); }
PROOF(C39_bit_s32) { Bits<s32, 32>::All(); }
PROOF(C39_bit_u64) { Bits<u64, 64>::All(); }
PROOF(C39_bit_s64) { Bits<s64, 64>::All(); }

PROOF(C39_reverse)
{
	const u8 v = ANY(u8);
	const u8 r = ReverseBits(v);
	for (int i = 0; i < 8; ++i)
		ENSURES("mirrored", ((r >> i) & 1) == ((v >> (7 - i)) & 1));
}
