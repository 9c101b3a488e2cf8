// C20 fixed-point numbers: every raw value; V is the represented value times 2^N.
// @sources:
#include <vc.h>
#include <stingraykit/fixed_point.h>
using namespace stingray;

template < typename T > static bool Fits(s64 v) { return v >= (s64)std::numeric_limits<T>::min() && v <= (s64)std::numeric_limits<T>::max(); }

template < int N, typename T > static void Linear()
{
	typedef fixed_point<N, T> F;
	const T a = ANY(T), b = ANY(T), i = ANY(T);
	const F x = F::FromRawValue(a), y = F::FromRawValue(b);
	ENSURES("raw value", x.GetValue() == a);
	if (Fits<T>((s64)a + b))
		ENSURES("sum", (x + y).GetValue() == (s64)a + b);
	if (Fits<T>((s64)a - b))
		ENSURES("difference", (x - y).GetValue() == (s64)a - b);
	if (Fits<T>(-(s64)a))
		ENSURES("negation", (-x).GetValue() == -(s64)a);
	F s = x, d = x;
	s += y; d -= y;
	ENSURES("in place", s == x + y && d == x - y);
	ENSURES("order", (x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b));
	ENSURES("integer part, towards minus infinity", (s64)x.to_int() * (1 << N) <= a && a - (s64)x.to_int() * (1 << N) < (1 << N));
	if (Fits<T>((s64)i * (1 << N)))
	{
		ENSURES("from an integer", F(i).GetValue() == (s64)i * (1 << N));
		ENSURES("an integer survives", F(i).to_int() == i);
		F f; f = i;
		ENSURES("assigned from an integer", f == F(i));
	}
	ENSURES("zero", F().GetValue() == 0);
	for (int k = 0; k < 4; ++k)
	{
		if (Fits<T>((s64)a * (1 << k)))
			ENSURES("shifted left", (x << k).GetValue() == (s64)a * (1 << k));
		ENSURES("shifted right, towards minus infinity", (s64)(x >> k).GetValue() * (1 << k) <= a && a - (s64)(x >> k).GetValue() * (1 << k) < (1 << k));
	}
	COVER("done");
}
PROOF(C20_linear_8_int) { Linear<8, int>(); }
PROOF(C20_linear_16_int) { Linear<16, int>(); }
PROOF(C20_linear_4_s16) { Linear<4, s16>(); }

template < int N, typename T > static void Product()
{
	typedef fixed_point<N, T> F;
	const T a = ANY(T), b = ANY(T), i = ANY(T);
	const F x = F::FromRawValue(a), y = F::FromRawValue(b);
	const s64 p = (s64)a * b;
	const s64 r = (x * y).GetValue();
	if (p >= (s64)std::numeric_limits<T>::min() * (1 << N) && p <= (s64)std::numeric_limits<T>::max() * (1 << N))
		ENSURES("product, towards minus infinity", r * (1 << N) <= p && p - r * (1 << N) < (1 << N));
	const s64 pi = (s64)a * i;
	if (Fits<T>(pi))
		ENSURES("multiplied by an integer", (x * i).GetValue() == pi);
	F z = x;
	z *= y;
	ENSURES("in place", z == x * y);
}
PROOF(C20_product_8_int) { Product<8, int>(); }
PROOF(C20_product_16_int) { Product<16, int>(); }
PROOF(C20_product_4_s16) { Product<4, s16>(); }

template < int N, typename T > static void Quotient()
{
	typedef fixed_point<N, T> F;
	const T a = ANY(T), b = ANY(T);
	REQUIRES(b != 0);
	const F x = F::FromRawValue(a), y = F::FromRawValue(b);
	const s64 q = (s64)a * (1 << N) / b;
	if (Fits<T>(q))
	{
		ENSURES("quotient, towards zero", (x / y).GetValue() == q);
		F z = x;
		z /= y;
		ENSURES("in place", z.GetValue() == q);
	}
	const s64 i = (s64)a / b;
	if (Fits<T>(i))
		ENSURES("divided by an integer", (x / b).GetValue() == i);
}
PROOF(C20_quotient_8_int) { Quotient<8, int>(); }
PROOF(C20_quotient_16_int) { Quotient<16, int>(); }
PROOF(C20_quotient_4_s16) { Quotient<4, s16>(); }

template < int N, typename T, int M, typename U > static void Convert()
{
	const T a = ANY(T);
	const fixed_point<N, T> x = fixed_point<N, T>::FromRawValue(a);
	if (M >= N && Fits<U>((s64)a << (M >= N ? M - N : 0)))
	{
		fixed_point<M, U> y(x), z;
		z = x;
		ENSURES("exact in a finer format", y.GetValue() == (s64)a * ((s64)1 << (M >= N ? M - N : 0)) && z == y);
		fixed_point<N, T> back(y);
		ENSURES("and back", back == x);
		COVER("finer");
	}
	if (M < N)
	{
		const s64 u = (s64)1 << (M < N ? N - M : 0);
		fixed_point<M, U> y(x);
		if (a >= (s64)std::numeric_limits<U>::min() * u && a <= (s64)std::numeric_limits<U>::max() * u)
			ENSURES("coarser format, towards minus infinity", y.GetValue() * u <= a && a - y.GetValue() * u < u);
		COVER("coarser");
	}
}
PROOF(C20_convert_8_16) { Convert<8, int, 16, int>(); }
PROOF(C20_convert_16_8) { Convert<16, int, 8, int>(); }
PROOF(C20_convert_4_16) { Convert<4, s16, 16, int>(); }
PROOF(C20_convert_16_4) { Convert<16, int, 4, s16>(); }
PROOF(C20_convert_8_8) { Convert<8, int, 8, s16>(); }

PROOF(C20_sqrt)
{
	vc_bounded("argument below 40, 8 fraction bits");
	const int v = vc_pick(40);
	const s64 r = fixed_point<8>::sqrt(v).GetValue(), e = (s64)v << 16;
	ENSURES("square root, towards zero", r >= 0 && r * r <= e && (r + 1) * (r + 1) > e);
}
