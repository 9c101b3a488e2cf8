// C16 hexadecimal text and UUIDs.
// @sources: toolkit.cpp string/string_view.cpp string/string_stream.cpp UUID.cpp
// @opt: init="UUID.cpp"
// @opt: max_steps=20000000
#include <vc.h>
#include <stingraykit/string/Hex.h>
#include <stingraykit/UUID.h>
using namespace stingray;

static bool IsHex(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static u32 Digit(char c) { return c <= '9' ? c - '0' : c >= 'a' ? c - 'a' + 10 : c - 'A' + 10; }
static char Low(u32 d) { return d < 10 ? '0' + d : 'a' + d - 10; }
static char Cap(u32 d) { return d < 10 ? '0' + d : 'A' + d - 10; }

static char* Chars(size_t n) { return static_cast<char*>(vc_bytes(n)); }

// the text of every value, at every width
template < typename T > static void Format()
{
	const T v = ANY(T);
	const size_t digits = sizeof(T) * 2;
	const size_t width = vc_pick(4) * digits / 2 + vc_pick(2);
	const bool capital = vc_pick(2), prefix = capital;
	const std::string text = ToHex(v, width, capital, prefix);
	size_t need = 1;		// significant digits
	for (size_t i = 1; i < digits; ++i)
		if ((v >> (4 * i)) != 0)
			need = i + 1;
	const size_t len = need > width ? need : width;
	const size_t skip = prefix ? 2 : 0;
	ENSURES("length", text.size() == len + skip);
	if (prefix)
		ENSURES("prefix", text[0] == '0' && text[1] == 'x');
	for (size_t i = 0; i < text.size() - skip; ++i)
	{
		const size_t place = text.size() - skip - 1 - i;
		const u32 d = place < digits ? (v >> (4 * place)) & 15 : 0;
		ENSURES("digits", text[skip + i] == (capital ? Cap(d) : Low(d)));
	}
	COVER("done");
}
// the two specifications are inverse to each other: so parsing a formatted value (below) gives the value back
PROOF(C16_inverse)
{
	const u32 d = ANY(u32);
	REQUIRES(d < 16);
	ENSURES("digits are read back", Digit(Low(d)) == d && Digit(Cap(d)) == d && IsHex(Low(d)) && IsHex(Cap(d)));
	COVER("done");
}
PROOF(C16_format_u8) { Format<u8>(); }
PROOF(C16_format_u16) { Format<u16>(); }
PROOF(C16_format_u32) { Format<u32>(); }
PROOF(C16_format_u64) { Format<u64>(); }

// every text of the given lengths: the value, or refused
template < typename T > static void Parse(size_t maxLen, size_t minLen = 0, size_t window = 99)
{
	vc_bounded("texts of at most two characters more than the type has digits");
	const size_t n = minLen + vc_pick(maxLen + 1 - minLen);
	const char* p = Chars(n);
	// longer texts: a window of arbitrary characters, the others arbitrary decimal digits
	const size_t at = window < n ? vc_pick(n - window + 1) : 0;
	for (size_t i = 0; i < n; ++i)
		if (i < at || i - at >= window)
			REQUIRES(p[i] >= '0' && p[i] <= '9');
	bool good = n != 0, fits = true;
	u64 value = 0;
	for (size_t i = 0; i < n; ++i)
		good = good && IsHex(p[i]);
	for (size_t i = 0; i < n; ++i)
	{
		fits = fits && (i + sizeof(T) * 2 >= n || p[i] == '0');
		value = (value << 4) | (Digit(p[i]) & 15);
	}
	const u64 max = (u64)std::numeric_limits<T>::max();
	fits = fits && value <= max;
	T got = 0;
	bool thrown = false;
	try { got = FromHex<T>(string_view(p, n)); } catch (const std::exception&) { thrown = true; }
	ENSURES("refused exactly when not a number of the type", thrown == !(good && fits));
	if (!thrown)
		ENSURES("the value of the text", (u64)got == value);
	COVER("done");
}
PROOF(C16_parse_u8) { Parse<u8>(4); }
PROOF(C16_parse_u16) { Parse<u16>(5); }
PROOF(C16_parse_s16) { Parse<s16>(5); }
PROOF(C16_parse_u64) { Parse<u64>(17, 16, 1); }
PROOF(C16_parse_u32) { Parse<u32>(9, 8, 1); }

PROOF(C16_bytes)
{
	vc_bounded("byte strings of at most 4 bytes");
	const size_t n = vc_pick(5);
	const char* p = Chars(n);
	const ConstByteData data(reinterpret_cast<const u8*>(p), n);
	const bool capital = vc_pick(2), prefix = vc_pick(2);
	const std::string text = ToHex(data, vc_pick(2) ? 10 : 0, capital, prefix);
	const size_t skip = prefix ? 2 : 0;
	ENSURES("two digits for each byte", text.size() == skip + n * 2 || text.size() == skip + 10);
	const size_t pad = text.size() - skip - n * 2;
	if (prefix)
		ENSURES("prefix", text[0] == '0' && text[1] == 'x');
	for (size_t i = 0; i < pad; ++i)
		ENSURES("padding", text[skip + i] == '0');
	for (size_t i = 0; i < n; ++i)
	{
		const u32 h = (u8)p[i] / 16, l = (u8)p[i] % 16;
		ENSURES("digits of a byte", text[skip + pad + 2 * i] == (capital ? Cap(h) : Low(h)) && text[skip + pad + 2 * i + 1] == (capital ? Cap(l) : Low(l)));
	}
	COVER("done");
}

PROOF(C16_parse_bytes)
{
	vc_bounded("texts of at most 4 characters");
	const size_t n = vc_pick(5);
	const char* p = Chars(n);
	const size_t skip = n >= 2 && p[0] == '0' && p[1] == 'x' ? 2 : 0;
	bool good = true;
	for (size_t i = skip; i < n; ++i)
		good = good && IsHex(p[i]);
	bool thrown = false;
	ByteArray got;
	try { got = FromHex<ByteArray>(string_view(p, n)); } catch (const std::exception&) { thrown = true; }
	ENSURES("refused exactly when it has a character that is not a digit", thrown == !good);
	if (thrown)
		return;
	const size_t len = n - skip;
	ENSURES("two digits make a byte, an odd first digit one more", got.size() == (len + 1) / 2);
	for (size_t i = 0; i < got.size(); ++i)
	{
		const size_t place = got.size() - 1 - i;	// bytes from the end
		const u32 l = Digit(p[n - 1 - 2 * place]), h = 2 * place + 1 < len ? Digit(p[n - 2 - 2 * place]) : 0;
		ENSURES("the bytes of the text", got[i] == h * 16 + l);
	}
	COVER("done");
}

static bool Dash(size_t i) { return i == 8 || i == 13 || i == 18 || i == 23; }

PROOF(C16_uuid_text)
{
	const u8* p = reinterpret_cast<const u8*>(Chars(16));
	const UUID id(ConstByteData(p, 16));
	const std::string text = id.ToString();
	ENSURES("length", text.size() == 36);
	for (size_t i = 0, d = 0; i < 36; ++i)
	{
		if (Dash(i))
			ENSURES("separators", text[i] == '-');
		else
		{
			ENSURES("digits", text[i] == Low(d % 2 ? p[d / 2] % 16 : p[d / 2] / 16));
			++d;
		}
	}
	const size_t n = ANY(size_t);
	REQUIRES(n != 16 && n < 100);
	bool thrown = false;
	try { UUID bad(ConstByteData(p, n)); } catch (const std::exception&) { thrown = true; }
	ENSURES("a wrong number of bytes is refused", thrown);
	COVER("done");
}

// one arbitrary character, or two, at a time: every text differs from a valid one by its characters
PROOF(C16_uuid_parse)
{
	const size_t at = vc_pick(36);
	vc_bounded("one character at any place is arbitrary, all others are arbitrary decimal digits or the separators");
	char* p = Chars(36);
	for (size_t i = 0; i < 36; ++i)
		if (i != at)
		{
			if (Dash(i)) p[i] = '-';
			else REQUIRES(p[i] >= '0' && p[i] <= '9');
		}
	bool good = true;
	for (size_t i = at; i < at + 1 && i < 36; ++i)
		good = good && (Dash(i) ? p[i] == '-' : IsHex(p[i]));
	bool thrown = false;
	UUID got;
	try { got = UUID::FromString(string_view(p, 36)); } catch (const std::exception&) { thrown = true; }
	ENSURES("refused exactly when malformed", thrown == !good);
	if (!thrown)
	{
		u8 want[16];
		for (size_t i = 0, d = 0; i < 36; ++i)
			if (!Dash(i))
			{
				want[d / 2] = d % 2 ? want[d / 2] * 16 + Digit(p[i]) : Digit(p[i]);
				++d;
			}
		ENSURES("the UUID of the text", got == UUID(ConstByteData(want, 16)));
	}
	COVER("done");
}

PROOF(C16_uuid_length)
{
	const size_t n = ANY(size_t);
	REQUIRES(n != 36);
	bool thrown = false;
	const char* p = Chars(40);
	try { UUID::FromString(string_view(p, n % 40 == 36 ? 35 : n % 40)); } catch (const std::exception&) { thrown = true; }
	ENSURES("a text of another length is refused", thrown);
	COVER("done");
}

PROOF(C16_uuid_order)
{
	const u8* p = reinterpret_cast<const u8*>(Chars(16)); const u8* q = reinterpret_cast<const u8*>(Chars(16));
	const UUID x(ConstByteData(p, 16)), y(ConstByteData(q, 16));
	size_t i = 0;
	while (i < 16 && p[i] == q[i])
		++i;
	ENSURES("equality and order of the bytes", (x == y) == (i == 16) && (x != y) == (i != 16) && (x < y) == (i < 16 && p[i] < q[i]));
	COVER("done");
}

PROOF(C16_uuid_version)
{
	const u8* p = reinterpret_cast<const u8*>(Chars(16));
	u8 w[16];
	for (size_t i = 0; i < 16; ++i)
		w[i] = p[i];
	w[6] = (p[6] & 15) | 0x40;
	w[8] = (p[8] & 63) | 0x80;
	const UUID z(ConstByteData(p, 16), true), y(ConstByteData(w, 16));
	ENSURES("version and variant bits", z == y);
	COVER("done");
}
