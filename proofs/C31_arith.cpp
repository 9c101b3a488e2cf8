// C31 arithmetic coding, part 1: narrowing to an interval [low, high] given, the coder's and the decoder's renormalisation loops.
// Encode(0, 1, 1) narrows to the whole interval, so it is the loop alone; C31_narrow.cpp covers the narrowing.
// @opt: max_steps=40000000
// @opt: bits=true
// @nocut: ^stingray::[A-Za-z]*StringBuilder
#include <vc.h>
#include <vector>
#include <string>
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/exception.h>
#define private public
#include <stingraykit/compression/ArithmeticCoder.h>
#include <stingraykit/compression/ArithmeticDecoder.h>
#undef private
using namespace stingray;

static const u32 Top = 0x7FFFFFFF;
static bool Normal(u32 low, u32 high) { return high <= Top && low < 0x40000000 && high >= 0x40000000 && (low < 0x20000000 || high >= 0x60000000); }

struct Out { bool* d; int* n; void operator() (bool b) const { if (*n < 128) d[*n] = b; ++*n; } };
struct In { const bool* d; int* n; int size; u32 operator() () const { if (*n >= size) { ++*n; return 0; } return d[(*n)++]; } };

// pending: how many underflow bits were pending before; the stream with them removed is what the decoder sees
static void Step(u32 pending)
{
	const u32 low = ANY(u32), high = ANY(u32);
	REQUIRES(low <= high && high <= Top);

	ArithmeticCoder c;
	c._low = low; c._high = high; c._underflowBits = pending;
	bool sent[128]; int n = 0;
	c.Encode(0, 1, 1, Out{sent, &n});
	ENSURES("the interval left to the next symbol never degenerates", Normal(c._low, c._high) && c._high - c._low + 1 > 0x20000000);

	int flushed = n ? (int)pending : 0;			// the pending bits follow the first bit sent, inverted
	for (int i = 0; i < flushed; ++i)
		ENSURES("pending bits are sent right after the next bit, inverted", n > i + 1 && sent[i + 1] == !sent[0]);
	const u32 open = n ? c._underflowBits : c._underflowBits - pending;

	// whatever is sent from here on: a code inside the coder's interval
	bool rest[31]; u32 next = 0;
	for (int i = 0; i < 31; ++i) { rest[i] = ANY(bool); next = (next << 1) | rest[i]; }
	REQUIRES(c._low <= next && next <= c._high);

	bool stream[160]; int size = 0;
	if (n) stream[size++] = sent[0];
	for (int i = 1 + flushed; i < n; ++i) stream[size++] = sent[i];
	stream[size++] = rest[0];
	for (u32 i = 0; i < open && i < 64; ++i) stream[size++] = !rest[0];
	for (int i = 1; i < 31; ++i) stream[size++] = rest[i];

	int used = 0;
	ArithmeticDecoder d(In{stream, &used, size});
	ENSURES("the decoder starts from the first 31 bits", used == 31);
	ENSURES("the code is inside the interval of the encoded symbol", low <= d._code && d._code <= high);
	d._low = low; d._high = high;
	d.SymbolDecoded(0, 1, 1, In{stream, &used, size});
	ENSURES("coder and decoder hold the same interval", d._low == c._low && d._high == c._high);
	ENSURES("the decoder has taken in what was sent", used == size && d._code == next);
}

PROOF(C31_step) { Step(0); COVER("step"); }
PROOF(C31_pending) { vc_bounded("one or two pending bits"); Step(1 + vc_pick(2)); COVER("pending"); }

PROOF(C31_start)
{
	ArithmeticCoder c;
	ENSURES("the coder starts with the whole interval and nothing pending", c._low == 0 && c._high == Top && c._underflowBits == 0);
	bool bits[31]; u32 v = 0; int used = 0;
	for (int i = 0; i < 31; ++i) { bits[i] = ANY(bool); v = (v << 1) | bits[i]; }
	ArithmeticDecoder d(In{bits, &used, 31});
	ENSURES("the decoder starts with the whole interval and 31 bits", d._low == 0 && d._high == Top && d._code == v && used == 31);
	COVER("start");
}

// after the last symbol: whatever the decoder reads behind the end of the data, its code is inside the coder's interval
static void End(u32 pending)
{
	const u32 low = ANY(u32), high = ANY(u32);
	REQUIRES(Normal(low, high));
	ArithmeticCoder c;
	c._low = low; c._high = high; c._underflowBits = pending;
	bool sent[128]; int n = 0;
	c.EndOfData(Out{sent, &n});
	// the decoder holds the interval [low, high]: the stream with the pending bits removed
	for (u32 i = 0; i < pending; ++i)
		ENSURES("pending bits are sent before the data ends", n > (int)i + 1 && sent[i + 1] == !sent[0]);
	u32 code = 0;
	for (int i = 0; i < 31; ++i)
	{
		const int at = i ? i + (int)pending : 0;
		code = (code << 1) | (at < n ? sent[at] : ANY(bool));
	}
	ENSURES("what is sent at the end identifies the last symbol", low <= code && code <= high);
}
PROOF(C31_end) { End(0); COVER("end"); }
PROOF(C31_end_pending) { vc_bounded("up to three pending bits"); End(1 + vc_pick(3)); COVER("end"); }
