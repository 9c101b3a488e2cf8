// C10 big integers against two- and three-block integers of the machine.
// @sources: BigNum.cpp
// @opaque: ^stingray::ToString
// @opt: max_steps=20000000
#include <vc.h>
#include <stingraykit/string/ToString.h>
#include <stingraykit/BigNum.h>
using namespace stingray;

typedef BigUnsignedInteger Big;
typedef unsigned __int128 u128;

static u64 Lo(u128 v) { return (u64)v; }
static u64 Hi(u128 v) { return (u64)(v >> 64); }

static Big Make(u64 hi, u64 lo) { return (Big(hi) << 64) | Big(lo); }
static Big Make(u64 top, u64 hi, u64 lo) { return (Big(top) << 128) | (Big(hi) << 64) | Big(lo); }
static u64 BlockOf(const Big& v, int i) { return ((v >> (64 * i)) & Big(~(u64)0)).ToPrimitive<u64>(); }

static void Is(const Big& v, u64 top, u64 hi, u64 lo, const char* what)
{
	ENSURES(what, BlockOf(v, 0) == lo && BlockOf(v, 1) == hi && BlockOf(v, 2) == top && BlockOf(v, 3) == 0 && (v >> 192) == Big());
	ENSURES("the result depends only on the value", v == Make(top, hi, lo));
}

struct Two
{
	u64 hi, lo;
	Two() : hi(ANY(u64)), lo(ANY(u64)) { }
	Big Get() const { return Make(hi, lo); }
	u128 V() const { return (u128)hi << 64 | lo; }
};

PROOF(C10_primitive)
{
	const u64 v = ANY(u64);
	const u32 w = ANY(u32);
	ENSURES("a machine integer survives", Big(v).ToPrimitive<u64>() == v && Big(w).ToPrimitive<u32>() == w);
	ENSURES("zero is zero however it came about", Big(0) == Big() && Big((u64)0).ToPrimitive<u8>() == 0);
	bool refused = false;
	u8 b = 0;
	try { b = Big(v).ToPrimitive<u8>(); } catch (const NotImplementedException&) { refused = true; }
	ENSURES("u8: exact or refused", refused ? v > 255 : b == v);
	refused = false;
	s32 s = 0;
	try { s = Big(v).ToPrimitive<s32>(); } catch (const NotImplementedException&) { refused = true; }
	ENSURES("s32: exact or refused", refused ? v > 0x7fffffff : s >= 0 && (u64)s == v);
	refused = false;
	s64 l = 0;
	try { l = Big(v).ToPrimitive<s64>(); } catch (const NotImplementedException&) { refused = true; }
	ENSURES("s64: exact or refused", refused ? v > 0x7fffffffffffffff : l >= 0 && (u64)l == v);
	refused = false;
	try { Big(ANY(s32)); } catch (const ArgumentException&) { refused = true; }
	COVER("done");
}
PROOF(C10_primitive_negative)
{
	const s32 n = ANY(s32);
	bool refused = false;
	try { Big b(n); ENSURES("non-negative value kept", n >= 0 && b.ToPrimitive<s32>() == n); } catch (const ArgumentException&) { refused = true; }
	ENSURES("negative value refused", refused == (n < 0));
}
PROOF(C10_primitive_wide)
{
	vc_bounded("two blocks");
	const Two a;
	REQUIRES(a.hi != 0);
	bool refused = false;
	try { a.Get().ToPrimitive<u64>(); } catch (const NotImplementedException&) { refused = true; }
	ENSURES("a value of two blocks is refused", refused);
}

PROOF(C10_order)
{
	vc_bounded("up to two blocks");
	const Two a, b;
	const Big x = a.Get(), y = b.Get();
	const bool less = a.hi != b.hi ? a.hi < b.hi : a.lo < b.lo, eq = a.hi == b.hi && a.lo == b.lo;
	ENSURES("less", (x < y) == less);
	ENSURES("equal", (x == y) == eq && (x != y) == !eq);
	ENSURES("other comparisons", (x > y) == (!less && !eq) && (x <= y) == (less || eq) && (x >= y) == !less);
	COVER("done");
}

PROOF(C10_order_three)
{
	vc_bounded("three blocks");
	const Two a, b;
	const u64 s = ANY(u64), t = ANY(u64);
	REQUIRES(s != 0 && t != 0);
	const Big x = Make(s, a.hi, a.lo), y = Make(t, b.hi, b.lo);
	ENSURES("less", (x < y) == (s != t ? s < t : a.hi != b.hi ? a.hi < b.hi : a.lo < b.lo));
}

static void Sum(const Two& a, const Two& b, u64& top, u64& hi, u64& lo)
{
	lo = a.lo + b.lo;
	const u64 c = lo < a.lo ? 1 : 0;
	const u128 h = (u128)a.hi + b.hi + c;
	hi = Lo(h); top = Hi(h);
}
PROOF(C10_add)
{
	vc_bounded("up to two blocks");
	const Two a, b;
	u64 t, h, l; Sum(a, b, t, h, l);
	Is(a.Get() + b.Get(), t, h, l, "sum");
	COVER("done");
}
PROOF(C10_add_in_place)
{
	vc_bounded("up to two blocks");
	const Two a, b;
	u64 t, h, l; Sum(a, b, t, h, l);
	Big x = a.Get();
	x += b.Get();
	ENSURES("sum in place", x == Make(t, h, l));
	Sum(a, a, t, h, l);
	Big y = a.Get();
	y += y;
	ENSURES("added to itself", y == Make(t, h, l));
}
PROOF(C10_subtract)
{
	vc_bounded("up to two blocks");
	const Two a, b;
	const Big x = a.Get(), y = b.Get();
	bool refused = false;
	const u64 l = a.lo - b.lo, h = a.hi - b.hi - (a.lo < b.lo ? 1 : 0);
	try { const Big d = x - y; Is(d, 0, h, l, "difference"); } catch (const Exception&) { refused = true; }
	ENSURES("negative difference refused", refused == (a.hi != b.hi ? a.hi < b.hi : a.lo < b.lo));
	COVER("done");
}
PROOF(C10_subtract_self)
{
	vc_bounded("up to two blocks");
	const Two a;
	Big x = a.Get();
	x -= x;
	ENSURES("x - x is zero", x == Big(0) && x == Big());
}

static u64 Pattern(u64 k)
{
	static const u64 P[] = { 0, 1, 2, 3, 10, 255, 256, 0x80000001, (u64)1 << 63, ~(u64)0, 0xAAAAAAAAAAAAAAAA, 0x8000000000000001 };
	return P[k];
}

static u64 Sparse(u64 k)
{
	static const u64 P[] = { 0, 1, 2, 3, 10, 0x80000001, (u64)1 << 63, 0x8000000000000001 };
	return P[k];
}
static int Amount(u64 k)
{
	static const int P[] = { 0, 1, 2, 7, 31, 32, 33, 62, 63, 64, 65, 66, 100, 127, 128, 129 };
	return P[k];
}

PROOF(C10_multiply)
{
	vc_bounded("eight one-block factors, other factor up to two blocks");
	const u64 p = Sparse(vc_pick(8));
	const Two b;
	const u128 l = (u128)p * b.lo, h = (u128)p * b.hi + Hi(l);
	Is(Big(p) * b.Get(), Hi(h), Lo(h), Lo(l), "product");
	COVER("done");
}
PROOF(C10_multiply_high)
{
	vc_bounded("factor p * 2^64, eight p, other factor one block");
	const u64 p = Sparse(vc_pick(8)), b = ANY(u64);
	const u128 l = (u128)p * b;
	Is((Big(p) << 64) * Big(b), Hi(l), Lo(l), 0, "product");
	Big x = Big(p) << 64;
	x *= Big(b);
	ENSURES("product in place", x == Make(Hi(l), Lo(l), 0));
}
PROOF(C10_multiply_dense)
{
	vc_bounded("listed factors of two blocks and one block");
	const u64 a = Pattern(vc_pick(12)), b = Pattern(vc_pick(12)), c = Pattern(vc_pick(12));
	const u128 l = (u128)b * c, h = (u128)a * c + Hi(l);
	ENSURES("product", Make(a, b) * Big(c) == Make(Hi(h), Lo(h), Lo(l)));
}
PROOF(C10_multiply_power)
{
	vc_bounded("powers of two below 2^128 as left factor");
	const int k = vc_pick(128);
	const u64 b = ANY(u64);
	const Big x = (Big(1) << k) * Big(b);
	ENSURES("product with a power of two", x == (Big(b) << k));
}

static void Divide(u64 q, u64 d, u64 r)
{
	const u128 v = (u128)q * d + r;
	const Big x = Make(Hi(v), Lo(v)), y(d);
	ENSURES("quotient", x / y == Big(q));
	ENSURES("remainder", x % y == Big(r));
	COVER("done");
}
PROOF(C10_divide)
{
	vc_bounded("twelve quotients, eleven one-block divisors, three remainders");
	const u64 q = Pattern(vc_pick(12)), d = Pattern(1 + vc_pick(11));
	Divide(q, d, vc_pick(2) ? d - 1 : vc_pick(2) ? d / 2 : 0);
}
PROOF(C10_divide_any_remainder)
{
	vc_bounded("three quotients, three one-block divisors");
	const u64 q = Pattern(1 + 4 * vc_pick(3)), d = Pattern(4 + vc_pick(3) * 2), r = ANY(u64);
	REQUIRES(r < d);
	Divide(q, d, r);
}
PROOF(C10_divide_two)
{
	vc_bounded("two quotients, 44 two-block divisors, two remainders");
	const u64 q = Sparse(1 + vc_pick(2) * 5);
	const u64 d1 = Pattern(2 + vc_pick(10)), d0 = Pattern(vc_pick(4) * 3), r = vc_pick(2) ? ~(u64)0 : 7;
	const u128 l = (u128)q * d0 + r, h = (u128)q * d1 + Hi(l);
	Big x = Make(Hi(h), Lo(h), Lo(l)), z = x;
	const Big d = Make(d1, d0);
	ENSURES("quotient", x / d == Big(q));
	x %= d;
	ENSURES("remainder in place", x == Big(r));
	z /= d;
	ENSURES("quotient in place", z == Big(q));
}
PROOF(C10_divide_self)
{
	vc_bounded("up to two blocks");
	const Two d;
	REQUIRES(d.hi != 0 || d.lo != 0);
	Big s = d.Get();
	s /= s;
	ENSURES("x / x is one", s == Big(1));
}
PROOF(C10_divide_by_zero)
{
	bool a = false, b = false, c = false;
	const Big x(ANY(u64));
	try { x / Big(0); } catch (const InvalidOperationException&) { a = true; }
	try { x % Big(); } catch (const InvalidOperationException&) { b = true; }
	try { x / (x - x); } catch (const InvalidOperationException&) { c = true; }
	ENSURES("division by zero refused", a && b && c);
}

PROOF(C10_shift_left)
{
	vc_bounded("up to two blocks, sixteen shifts");
	const int n = Amount(vc_pick(16));
	const Two a;
	const Big x = a.Get() << n;
	const u64 lo = n < 64 ? a.lo << n : 0;
	ENSURES("low block", BlockOf(x, 0) == lo);
	const int k = n / 64, s = n % 64;
	ENSURES("shifted blocks", BlockOf(x, k) == a.lo << s && BlockOf(x, k + 1) == (a.hi << s | (s ? a.lo >> (64 - s) : 0)) && BlockOf(x, k + 2) == (s ? a.hi >> (64 - s) : 0));
	ENSURES("nothing above", (x >> (64 * (k + 3))) == Big());
	ENSURES("shifting right undoes it", (x >> n) == a.Get() && (x << -n) == a.Get());
}
PROOF(C10_shift_right)
{
	vc_bounded("up to two blocks, twenty shifts");
	const int n = Amount(vc_pick(16)) + 64 * (int)vc_pick(2);
	const Two a;
	const Big x = a.Get() >> n;
	const u128 v = n < 128 ? a.V() >> n : 0;
	Is(x, 0, Hi(v), Lo(v), "shifted right");
	Big y = a.Get(), z = a.Get();
	y >>= n;
	z <<= -n;
	ENSURES("in place and by a negative amount", y == x && z == x);
}

PROOF(C10_bits)
{
	vc_bounded("up to two blocks");
	const Two a, b;
	Is(a.Get() & b.Get(), 0, a.hi & b.hi, a.lo & b.lo, "and");
	COVER("done");
}
PROOF(C10_bits_or)
{
	vc_bounded("up to two blocks");
	const Two a, b;
	Is(a.Get() | b.Get(), 0, a.hi | b.hi, a.lo | b.lo, "or");
}
PROOF(C10_bits_xor)
{
	vc_bounded("up to two blocks");
	const Two a, b;
	Is(a.Get() ^ b.Get(), 0, a.hi ^ b.hi, a.lo ^ b.lo, "exclusive or");
	Big x = a.Get();
	x ^= b.Get();
	x ^= b.Get();
	ENSURES("twice is nothing", x == a.Get());
}

PROOF(C10_bytes)
{
	vc_bounded("one byte");
	const u8 a = ANY(u8);
	const ConstByteData bytes(&a, 1);
	ENSURES("one byte", Big(bytes) == Big(a));
}
PROOF(C10_bytes_many)
{
	vc_bounded("listed bytes, up to seventeen");
	static const u8 D[] = { 0x81, 0, 0xff, 1, 2, 3, 0x80, 0, 0, 9, 0xaa, 0x55, 0, 0, 0, 0x10, 0 };
	const size_t n = vc_pick(18);
	const ConstByteData bytes(D, n);
	u64 top = 0, hi = 0, lo = 0;
	for (size_t i = 0; i < n; ++i)
	{
		top = top << 8 | hi >> 56;
		hi = hi << 8 | lo >> 56;
		lo = lo << 8 | D[i];
	}
	const Big x(bytes);
	ENSURES("bytes, most significant first", x == Make(top, hi, lo));
	const ByteArray r = x.ToByteArray();
	ENSURES("back to bytes", r.size() == n && std::equal(D, D + n, r.begin()));
}

PROOF(C10_text)
{
	vc_bounded("listed numbers");
	ENSURES("decimal", Big("340282366920938463463374607431768211456") == Big(1) << 128);
	ENSURES("hexadecimal", Big("0x123456789ABCDEFfedcba9876543210") == Make(0x0123456789ABCDEF, 0xFEDCBA9876543210));
	ENSURES("binary", Big("0b1011") == Big(11));
	ENSURES("stated base", Big("zz", 36) == Big(35 * 36 + 35));
	ENSURES("empty", Big("") == Big(0));
	ENSURES("to hexadecimal", Make(0x0123456789ABCDEF, 0xFEDCBA9876543210).ToString() == "123456789ABCDEFFEDCBA9876543210");
	ENSURES("to decimal", (Big(1) << 64).ToString(10) == "18446744073709551616");
	ENSURES("zero", Big(0).ToString() == "0");
}
PROOF(C10_text_digit)
{
	vc_bounded("one character, bases 2, 10, 16");
	const char c = ANY(char);
	const size_t base = vc_pick(3) == 0 ? 2 : vc_pick(2) ? 10 : 16;
	const unsigned v = c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : c >= 'a' && c <= 'z' ? c - 'a' + 10 : 99;
	bool refused = false;
	try { ENSURES("digit value", Big(std::string(1, c), base) == Big(v)); } catch (const ArgumentException&) { refused = true; }
	ENSURES("anything else refused", refused == (v >= base));
}
