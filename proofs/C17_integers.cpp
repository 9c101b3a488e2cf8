// C17 decimal text of integers.
// @sources: toolkit.cpp string/string_view.cpp string/string_stream.cpp
// @opaque: StringBuilder
#include <vc.h>
#include <stingraykit/string/ToString.h>
#include <stingraykit/string/lexical_cast.h>
#include <stingraykit/string/StringParse.h>
using namespace stingray;

typedef unsigned __int128 u128;

static char* Chars(size_t n) { return static_cast<char*>(vc_bytes(n)); }

// p[0..n) is exactly the canonical decimal text of v
template < typename T > static bool Canonical(const char* p, size_t n, T v)
{
	const bool negative = v < 0;
	if (n <= (size_t)negative || (negative && p[0] != '-'))
		return false;
	u128 value = 0;
	for (size_t i = negative; i < n; ++i)
	{
		if (p[i] < '0' || p[i] > '9')
			return false;
		value = value * 10 + (p[i] - '0');
	}
	if (p[negative] == '0' && (n != 1))
		return false;
	const u64 magnitude = negative ? -(u64)v : (u64)v;
	return value == magnitude;
}

// formatting: all values of the type
template < typename T > static void Format()
{
	const T v = ANY(T);
	const std::string text = ToString(v);
	ENSURES("the text is the decimal representation", text.size() <= 20 && Canonical(text.data(), text.size(), v));
	COVER("done");
}
PROOF(C17_format_u8) { Format<u8>(); }
PROOF(C17_format_u16) { Format<u16>(); }
PROOF(C17_format_s16) { Format<s16>(); }

// parsing: every text of at most n characters; the value by 128-bit arithmetic
template < typename T, typename Text > static void ParseOf(const char* p, size_t n, const Text& text)
{
	const bool sign = n != 0 && (p[0] == '-' || p[0] == '+'), negative = n != 0 && p[0] == '-';
	bool good = n > (size_t)sign;
	u128 value = 0;
	u64 low = 0;		// value modulo 2^64
	for (size_t i = sign; i < n; ++i)
	{
		good = good && p[i] >= '0' && p[i] <= '9';
		const u8 digit = (u8)p[i] - '0';
		value = value * 10 + digit;
		low = low * 10 + digit;
	}
	const bool isSigned = std::numeric_limits<T>::is_signed;
	const u128 limit = (u128)(u64)std::numeric_limits<T>::max() + (negative ? 1 : 0);
	const bool fits = value <= limit && !(negative && !isSigned);
	T got = 0;
	bool thrown = false;
	try { got = FromString<T>(text); } catch (const std::exception&) { thrown = true; }
	ENSURES("refused exactly when not an integer of the type", thrown == !(good && fits));
	if (!thrown)
		ENSURES("the value of the text", got == (T)(negative ? -low : low));
}

template < typename T > static void Parse(size_t maxLen, size_t minLen = 0)
{
	const size_t n = minLen + vc_pick(maxLen + 1 - minLen);
	const char* p = Chars(n);
	ParseOf<T>(p, n, string_view(p, n));
	COVER("done");
}
PROOF(C17_parse_u8) { vc_bounded("texts of at most 4 characters"); Parse<u8>(4); }
PROOF(C17_parse_s8) { vc_bounded("texts of at most 5 characters"); Parse<s8>(5); }
PROOF(C17_parse_u16) { vc_bounded("texts of at most 6 characters"); Parse<u16>(6); }
PROOF(C17_parse_s16) { vc_bounded("texts of at most 6 characters"); Parse<s16>(6); }
PROOF(C17_parse_bool) { vc_bounded("texts of at most 3 characters"); Parse<bool>(3); }

// the other entries: std::string and const char*, optional result, casts
PROOF(C17_entries)
{
	vc_bounded("texts of at most 2 characters");
	const size_t n = vc_pick(3);
	char* p = Chars(n + 1);
	p[n] = 0;
	for (size_t i = 0; i < n; ++i)
		REQUIRES(p[i] != 0);
	switch (vc_pick(4))
	{
	case 0: ParseOf<s32>(p, n, std::string(p, n)); break;
	case 1: ParseOf<s32>(p, n, static_cast<const char*>(p)); break;
	case 2:
		{
			bool thrown = false; s32 want = 0;
			try { want = FromString<s32>(string_view(p, n)); } catch (const std::exception&) { thrown = true; }
			const optional<s32> got = TryFromString<s32>(string_view(p, n));
			ENSURES("the optional form has a value exactly when the text is accepted", got.is_initialized() == !thrown && (thrown || *got == want));
			break;
		}
	case 3:
		{
			bool thrown = false, thrown2 = false; s32 want = 0, got = 0;
			try { want = FromString<s32>(string_view(p, n)); } catch (const std::exception&) { thrown = true; }
			try { got = lexical_cast<s32>(std::string(p, n)); } catch (const std::exception&) { thrown2 = true; }
			ENSURES("casting a text is parsing it", thrown == thrown2 && got == want);
			break;
		}
	}
	COVER("done");
}
PROOF(C17_cast)
{
	const u8 v = ANY(u8);
	s16 got = 0;
	bool thrown = false;
	try { got = lexical_cast<s16>(v); } catch (const std::exception&) { thrown = true; }
	ENSURES("casting between integer types keeps the value", !thrown && got == v);
	s8 narrow = 0;
	try { narrow = lexical_cast<s8>(v); } catch (const std::exception&) { thrown = true; }
	ENSURES("or refuses", thrown == (v > 127) && (thrown || narrow == v));
	COVER("done");
}
PROOF(C17_format_u32) { Format<u32>(); }
PROOF(C17_format_s32) { Format<s32>(); }
PROOF(C17_format_u64) { Format<u64>(); }
PROOF(C17_format_s64) { Format<s64>(); }
PROOF(C17_parse_u32) { vc_bounded("texts of at most 11 characters"); Parse<u32>(11); }
PROOF(C17_parse_s32) { vc_bounded("texts of at most 12 characters"); Parse<s32>(12); }
PROOF(C17_parse_u64_20) { vc_bounded("texts of 19 to 21 characters"); Parse<u64>(20, 19); }
PROOF(C17_parse_u64_21) { vc_bounded("texts of 19 to 21 characters"); Parse<u64>(21, 21); }
PROOF(C17_parse_s64_20) { vc_bounded("texts of 19 to 21 characters"); Parse<s64>(20, 19); }
PROOF(C17_parse_s64_21) { vc_bounded("texts of 19 to 21 characters"); Parse<s64>(21, 21); }
