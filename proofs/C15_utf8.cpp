// C15 UTF-8: the well-formed sequences are exactly those of the Unicode standard (table 3-7), for every byte content.
// @sources: toolkit.cpp string/string_view.cpp
// @opt: fork_select=true
#include <vc.h>
#include <stingraykit/string/Utf8StringUtils.h>
using namespace stingray;

typedef Utf8IteratorRange<string_view> Utf8;

// number of bytes of the well-formed sequence at the front of p[0..n), 0 if there is none; independent formulation by ranges
static size_t WellFormed(const u8* p, size_t n)
{
	if (n == 0)
		return 0;
	const u8 a = p[0];
	if (a < 0x80)
		return 1;
	const size_t len = a < 0xC2 ? 0 : a < 0xE0 ? 2 : a < 0xF0 ? 3 : a < 0xF5 ? 4 : 0;
	if (len == 0 || n < len)
		return 0;
	const u8 lo = a == 0xE0 ? 0xA0 : a == 0xF0 ? 0x90 : 0x80, hi = a == 0xED ? 0x9F : a == 0xF4 ? 0x8F : 0xBF;
	if (p[1] < lo || p[1] > hi)
		return 0;
	for (size_t i = 2; i < len; ++i)
		if (p[i] < 0x80 || p[i] > 0xBF)
			return 0;
	return len;
}

// the standard encoding of a scalar value
static size_t Encode(u32 c, u8* p)
{
	if (c < 0x80) { p[0] = c; return 1; }
	if (c < 0x800) { p[0] = 0xC0 + c / 64; p[1] = 0x80 + c % 64; return 2; }
	if (c < 0x10000) { p[0] = 0xE0 + c / 4096; p[1] = 0x80 + c / 64 % 64; p[2] = 0x80 + c % 64; return 3; }
	p[0] = 0xF0 + c / 262144; p[1] = 0x80 + c / 4096 % 64; p[2] = 0x80 + c / 64 % 64; p[3] = 0x80 + c % 64;
	return 4;
}

static u8* Block(size_t n)
{ return static_cast<u8*>(vc_bytes(n)); }

static string_view Text(const u8* p, size_t n)
{ return string_view(reinterpret_cast<const char*>(p), n); }

// every code point at every position of every text (of any length): the bytes around are arbitrary
PROOF(C15_roundtrip)
{
	const u32 c = ANY(u32);
	REQUIRES(c <= 0x10FFFF && !(c >= 0xD800 && c <= 0xDFFF));
	u8 e[4];
	const size_t len = Encode(c, e);
	const size_t n = ANY(size_t), at = ANY(size_t);
	REQUIRES(n <= ((size_t)1 << 40) && at <= n && n - at >= len);
	u8* p = Block(n);
	for (size_t i = 0; i < len; ++i)
		p[at + i] = e[i];
	const string_view text = Text(p, n);
	Utf8 r(text, text.begin() + at);
	ENSURES("a code point starts here", r.Valid());
	ENSURES("decoding gives the encoded value back", r.Get() == c);
	r.Next();
	ENSURES("the next code point starts behind it", r.GetIterator() == text.begin() + at + len && r.Valid() == (at + len != n));
	r.Prev();
	ENSURES("stepping back returns to it", r.GetIterator() == text.begin() + at && r.Get() == c);
	COVER("done");
}

// an arbitrary position of an arbitrary text: Get and Next accept exactly the well-formed sequences and stay inside
PROOF(C15_decode)
{
	const size_t n = ANY(size_t), at = ANY(size_t);
	REQUIRES(n <= ((size_t)1 << 40) && at <= n);
	u8* p = Block(n);
	const string_view text = Text(p, n);
	Utf8 r(text, text.begin() + at);
	ENSURES("valid inside the text", r.Valid() == (at < n));
	const size_t len = WellFormed(p + at, n - at);
	u32 got = 0;
	bool thrown = false;
	try { got = r.Get(); } catch (const std::exception&) { thrown = true; }
	ENSURES("decoding is refused exactly for malformed or truncated text", thrown == (len == 0));
	if (!thrown)
	{
		u8 e[4];
		ENSURES("only scalar values are produced", got <= 0x10FFFF && !(got >= 0xD800 && got <= 0xDFFF));
		ENSURES("the decoded value has this encoding", Encode(got, e) == len && e[0] == p[at] && (len < 2 || e[1] == p[at + 1]) && (len < 3 || e[2] == p[at + 2]) && (len < 4 || e[3] == p[at + 3]));
	}
	thrown = false;
	try { r.Next(); } catch (const std::exception&) { thrown = true; }
	ENSURES("stepping is refused exactly for malformed or truncated text", thrown == (len == 0));
	if (!thrown)
		ENSURES("stepping moves by the sequence", r.GetIterator() == text.begin() + at + len);
	COVER("done");
}

// backwards from an arbitrary position
PROOF(C15_backward)
{
	const size_t n = ANY(size_t), at = ANY(size_t);
	REQUIRES(n <= ((size_t)1 << 40) && at <= n);
	u8* p = Block(n);
	const string_view text = Text(p, n);
	Utf8 r(text, text.begin() + at);
	size_t len = 0;		// the well-formed sequence that ends at this position
	for (size_t k = 1; k <= 4; ++k)
		if (k <= at && WellFormed(p + at - k, k) == k)
			len = k;
	bool thrown = false;
	try { r.Prev(); } catch (const std::exception&) { thrown = true; }
	ENSURES("stepping back is refused exactly where no well-formed sequence ends", thrown == (len == 0));
	if (!thrown)
		ENSURES("stepping back moves by the sequence", r.GetIterator() == text.begin() + at - len);
	COVER("done");
}

static const size_t MaxN = 6;

PROOF(C15_texts)
{
	vc_bounded("texts of at most 6 bytes");
	const size_t n = vc_pick(MaxN + 1);
	u8* p = Block(n);
	const string_view text = Text(p, n);
	size_t starts[MaxN + 1], count = 0, pos = 0;
	bool good = true;
	while (pos < n)
	{
		const size_t len = WellFormed(p + pos, n - pos);
		if (len == 0) { good = false; break; }
		starts[count++] = pos;
		pos += len;
	}
	starts[count] = n;
	ENSURES("validation accepts exactly the well-formed texts", Utf8Validate(text) == good);
	bool thrown = false;
	size_t length = 0;
	try { length = Utf8Strlen(text); } catch (const std::exception&) { thrown = true; }
	ENSURES("the length of a malformed text is refused", thrown == !good);
	if (!good)
		return;
	ENSURES("length counts code points", length == count);
	Utf8 r(text);
	for (size_t i = 0; i < count; ++i, r.Next())
		ENSURES("forward", r.Valid() && r.GetIterator() == text.begin() + starts[i]);
	ENSURES("forward ends", !r.Valid());
	for (size_t i = count; i > 0; --i)
	{
		r.Prev();
		ENSURES("backward visits the same code points", r.GetIterator() == text.begin() + starts[i - 1]);
	}
	r.Last();
	ENSURES("last", r.GetIterator() == text.begin() + (count ? starts[count - 1] : 0));
	r.First();
	ENSURES("first", r.GetIterator() == text.begin());
	COVER("done");
}

// pos and count in code points, or in bytes
template < bool Symbols > static void Sub()
{
	vc_bounded("texts of at most 4 bytes");
	const size_t n = vc_pick(5);
	u8* p = Block(n);
	const string_view text = Text(p, n);
	size_t starts[MaxN + 1], count = 0, pos = 0;
	while (pos < n)
	{
		const size_t len = WellFormed(p + pos, n - pos);
		REQUIRES(len != 0);
		starts[count++] = pos;
		pos += len;
	}
	starts[count] = n;
	const size_t from = vc_pick(6);
	const size_t take = vc_pick(7) == 6 ? string_view::npos : vc_pick(6);
	size_t b = 0;
	while (b <= count && (Symbols ? b : starts[b]) < from)
		++b;
	bool thrown = false;
	std::string got;
	try { got = Utf8Substring<Symbols>(text, from, take); } catch (const std::exception&) { thrown = true; }
	ENSURES("a start behind the end is refused", thrown == (b > count));
	if (thrown)
		return;
	size_t e = b;
	while (e < count && (Symbols ? e + 1 - b : starts[e + 1] - starts[b]) <= take)
		++e;
	ENSURES("the substring", got.size() == starts[e] - starts[b]);
	for (size_t i = 0; i < got.size(); ++i)
		ENSURES("the bytes of the substring", (u8)got[i] == p[starts[b] + i]);
	COVER("done");
}
PROOF(C15_substring_symbols) { Sub<true>(); }
PROOF(C15_substring_bytes) { Sub<false>(); }
