// C18 integer math helpers: every argument.
// @opt: fork_select=1
#include <vc.h>
#include <stingraykit/math.h>
using namespace stingray;

// v a multiple of b (b > 0), in the type itself
template < typename T > static void Align()
{
	const T v = ANY(T), b = ANY(T);
	REQUIRES(v >= 0 && b > 0);
	const T down = AlignDown<T>(v, b);
	const T rem = v % b;
	ENSURES("aligned down: not above, less than one boundary away, a multiple", down == (T)(v - rem));
	const T most = std::numeric_limits<T>::max();
	if (rem != 0 && down > (T)(most - b))
		return;														// the multiple above is not representable
	const T up = AlignUp<T>(v, b);
	ENSURES("aligned up: not below, less than one boundary away, a multiple", up == (rem == 0 ? v : (T)(down + b)));
	COVER("up and down");
}
PROOF(C18_align_u8) { Align<u8>(); }
PROOF(C18_align_u16) { Align<u16>(); }
PROOF(C18_align_u32) { Align<u32>(); }
PROOF(C18_align_s32) { Align<s32>(); }
PROOF(C18_align_u64) { Align<u64>(); }
PROOF(C18_align_s64) { Align<s64>(); }

template < typename T, T B > static void AlignTo()
{
	const T v = ANY(T);
	REQUIRES(v >= 0 && v <= (T)(std::numeric_limits<T>::max() / B * B));
	const T down = AlignDown<T>(v, B), up = AlignUp<T>(v, B);
	ENSURES("multiples", down % B == 0 && up % B == 0);
	ENSURES("nearest below", down <= v && v - down < B);
	ENSURES("nearest above", up >= v && up - v < B);
	COVER("done");
}
PROOF(C18_align_to_188) { AlignTo<u64, 188>(); }
PROOF(C18_align_to_512) { AlignTo<u64, 512>(); }
PROOF(C18_align_to_7) { AlignTo<s32, 7>(); }

PROOF(C18_align_zero)
{
	bool up = false, down = false;
	try { AlignUp<u32>(ANY(u32), 0); } catch (const ArgumentException&) { up = true; }
	try { AlignDown<s64>(ANY(s64), 0); } catch (const ArgumentException&) { down = true; }
	ENSURES("zero boundary refused", up && down);
}

template < typename T > static void AbsMinMax()
{
	const T v = ANY(T), w = ANY(T);
	if (v != std::numeric_limits<T>::min())
		ENSURES("absolute value", Abs(v) >= 0 && (Abs(v) == v || (v < 0 && (T)(Abs(v) + v) == 0)));
	ENSURES("maximum", Max(v, w) >= v && Max(v, w) >= w && (Max(v, w) == v || Max(v, w) == w));
	ENSURES("minimum", Min(v, w) <= v && Min(v, w) <= w && (Min(v, w) == v || Min(v, w) == w));
}
PROOF(C18_abs_s8) { AbsMinMax<s8>(); }
PROOF(C18_abs_s16) { AbsMinMax<s16>(); }
PROOF(C18_abs_s32) { AbsMinMax<s32>(); }
PROOF(C18_abs_s64) { AbsMinMax<s64>(); }

template < u64 N > static void Power()
{
	const u64 v = ANY(u64);
	bool is = false;
	for (u64 p = 1; ; p *= N)
	{
		is |= v == p;
		if (p > ~(u64)0 / N)
			break;
	}
	ENSURES("power test agrees with the list of powers", IsPowerOfNumber<N>(v) == is);
}
PROOF(C18_power_2) { Power<2>(); }
PROOF(C18_power_10) { Power<10>(); }
PROOF(C18_power_7) { Power<7>(); }

PROOF(C18_gcd)
{
	vc_bounded("operands below 32");
	const size_t a = vc_pick(32), b = vc_pick(32);
	const size_t g = Gcd(a, b);
	for (size_t d = 1; d < 32; ++d)
		ENSURES("common divisors are exactly the divisors of the gcd", (a % d == 0 && b % d == 0) == (g % d == 0));
	if (a || b)
	{
		const size_t l = Lcm(a, b);
		ENSURES("least common multiple", l % (a ? a : 1) == 0 && l % (b ? b : 1) == 0 && l * g == a * b);
	}
}
