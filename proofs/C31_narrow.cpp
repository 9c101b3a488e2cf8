// C31 arithmetic coding, part 2: narrowing the interval to a symbol's share, up to the start of the renormalisation loop (see C31_arith.cpp).
// @sources: toolkit.cpp
// @opt: nia=true
// @nocut: ^stingray::[A-Za-z]*StringBuilder
// @replace: (void )?stingray::basic_string_ostream<char>::Insert<unsigned int => number
// @replace: stingray::ArithmeticCoder::FirstBit => first
// @replace: stingray::ArithmeticCoder::SecondBit => second
// @replace: stingray::ArithmeticDecoder::FirstBit => first
// @replace: stingray::ArithmeticDecoder::SecondBit => second
#include <vc.h>
#include <vector>
#include <string>
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/exception.h>
#define private public
#include <stingraykit/compression/ArithmeticCoder.h>
#include <stingraykit/compression/ArithmeticDecoder.h>
#undef private
using namespace stingray;

static unsigned Tests;		// the loop's tests of the bounds; the answers end the loop before its first round
extern "C" __attribute__((used, noinline)) bool vckeep__first(u32) { return Tests++ & 1; }
extern "C" __attribute__((used, noinline)) bool vckeep__second(u32) { ++Tests; return false; }
extern "C" __attribute__((used, noinline)) void vckeep__number(void*, unsigned) { }
// never called when the loop ends before its first round; a loop written without these tests is not judged here
struct Out { void operator() (bool) const { REQUIRES(false); } };
static bool Started;
struct In { u32 operator() () const { REQUIRES(!Started); return 0; } };

static const u32 Top = 0x7FFFFFFF;
struct Case
{
	u32 low, high, sl, sh, scale;
	ArithmeticCoder c; ArithmeticDecoder d;
	bool thrown, dthrown;
	Case() : low(ANY(u32)), high(ANY(u32)), sl(ANY(u32)), sh(ANY(u32)), scale(ANY(u32)), d(In()), thrown(false), dthrown(false)
	{ REQUIRES(low < 0x40000000 && high >= 0x40000000 && high <= Top && (low < 0x20000000 || high >= 0x60000000)); }
	static void Entered(bool t) { COVER("narrowed"); REQUIRES(t || Tests); }		// with other tests in the loop this says nothing
	void Encode()
	{
		Tests = 0; c._low = low; c._high = high; c._underflowBits = 0;
		try { c.Encode(sl, sh, scale, Out()); } catch (const std::exception&) { thrown = true; }
		Entered(thrown);
	}
	void Decode()
	{
		Tests = 0; Started = true; d._low = low; d._high = high;
		try { d.SymbolDecoded(sl, sh, scale, In()); } catch (const std::exception&) { dthrown = true; }
		Entered(dthrown);
	}
};

PROOF(C31_refused)
{
	Case k;
	k.Encode();
	if (!(k.sl < k.sh && k.sh <= k.scale)) ENSURES("an empty share is refused", k.thrown);
	else if (k.scale <= 0x20000000) ENSURES("every share is accepted for permitted scales", !k.thrown);
	if (k.thrown) ENSURES("a refused symbol leaves the interval", k.c._low == k.low && k.c._high == k.high);
}
PROOF(C31_narrow)
{
	Case k;
	REQUIRES(k.sl < k.sh && k.sh <= k.scale && k.scale <= 0x20000000);
	k.Encode();
	ENSURES("the share of a symbol lies inside the interval", k.low <= k.c._low && k.c._high <= k.high);
	ENSURES("the share of a symbol is not empty", k.c._low <= k.c._high);
}
PROOF(C31_agree)
{
	Case k;
	REQUIRES(k.sl < k.sh && k.sh <= k.scale && k.scale <= 0x20000000);
	k.Encode();
	k.Decode();
	ENSURES("coder and decoder narrow alike", k.c._low == k.d._low && k.c._high == k.d._high && k.thrown == k.dthrown);
}
PROOF(C31_select)
{
	Case k;
	REQUIRES(k.sl < k.sh && k.sh <= k.scale && k.scale <= 0x20000000);
	k.Encode();
	const u32 code = ANY(u32);
	REQUIRES(k.c._low <= code && code <= k.c._high);
	k.d._low = k.low; k.d._high = k.high; k.d._code = code;
	const u32 p = k.d.GetProbability(k.scale);
	ENSURES("a code inside the share selects the symbol", k.sl <= p && p < k.sh);
}
