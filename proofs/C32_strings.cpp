// C32 string views and string helpers.
// @sources: toolkit.cpp string/string_view.cpp string/string_stream.cpp
// @nocut: ^stingray::[A-Za-z]*StringBuilder
// @opt: max_steps=20000000
#include <vc.h>
#include <stingraykit/string/StringUtils.h>
using namespace stingray;

typedef string_view::size_type Size;
static const size_t MaxT = 4, MaxP = 2;

struct Text
{
	size_t n; char* p;
	Text(size_t max) { n = vc_pick(max + 1); p = static_cast<char*>(vc_bytes(n)); vc_bounded("texts of at most 4 and patterns of at most 2 characters"); }
	string_view V() const { return string_view(p, n); }
	std::string S() const { return std::string(p, n); }
	char operator [] (size_t i) const { return p[i]; }
};

static bool At(const Text& t, size_t i, const Text& w)
{
	if (i > t.n || w.n > t.n - i)
		return false;
	for (size_t k = 0; k < w.n; ++k)
		if (t[i + k] != w[k])
			return false;
	return true;
}
static bool In(char c, const Text& set)
{
	for (size_t k = 0; k < set.n; ++k)
		if (set[k] == c)
			return true;
	return false;
}
static Size FindFrom(const Text& t, const Text& w, size_t pos)
{
	for (size_t i = 0; i <= t.n; ++i)
		if (i >= pos && At(t, i, w))
			return i;
	return string_view::npos;
}
static void Is(const std::string& s, const char* want, size_t n)
{
	ENSURES("length of the result", s.size() == n);
	for (size_t i = 0; i < n; ++i)
		ENSURES("characters of the result", s[i] == want[i]);
}

PROOF(C32_find)
{
	const Text t(MaxT), w(MaxP);
	const Size pos = ANY(Size);
	ENSURES("the first match at or behind the position", t.V().find(w.V(), pos) == FindFrom(t, w, pos));
	COVER("done");
}
PROOF(C32_rfind)
{
	const Text t(MaxT), w(MaxP);
	const Size pos = ANY(Size);
	Size want = string_view::npos;
	for (size_t i = 0; i <= t.n; ++i)
		if (i <= pos && At(t, i, w))
			want = i;
	ENSURES("the last match at or before the position", t.V().rfind(w.V(), pos) == want);
	COVER("done");
}
PROOF(C32_find_of)
{
	const Text t(MaxT), w(MaxP);
	const Size pos = ANY(Size);
	Size first = string_view::npos, last = string_view::npos, firstNot = string_view::npos, lastNot = string_view::npos;
	for (size_t i = t.n; i-- > 0; )
		if (i >= pos) { if (In(t[i], w)) first = i; else firstNot = i; }
	for (size_t i = 0; i < t.n; ++i)
		if (i <= pos) { if (In(t[i], w)) last = i; else lastNot = i; }
	switch (vc_pick(4))
	{
	case 0: ENSURES("first of a set", t.V().find_first_of(w.V(), pos) == first); break;
	case 1: ENSURES("last of a set", t.V().find_last_of(w.V(), pos) == last); break;
	case 2: ENSURES("first outside a set", t.V().find_first_not_of(w.V(), pos) == firstNot); break;
	case 3: ENSURES("last outside a set", t.V().find_last_not_of(w.V(), pos) == lastNot); break;
	}
	COVER("done");
}
PROOF(C32_compare)
{
	const Text t(MaxT), w(MaxT);
	size_t i = 0;
	while (i < t.n && i < w.n && t[i] == w[i])
		++i;
	const int want = i < t.n && i < w.n ? ((u8)t[i] < (u8)w[i] ? -1 : 1) : i < w.n ? -1 : i < t.n ? 1 : 0;
	const string_view a = t.V(), b = w.V();
	const int got = a.compare(b);
	ENSURES("lexicographic comparison", (got < 0) == (want < 0) && (got > 0) == (want > 0));
	ENSURES("operators", (a == b) == (want == 0) && (a != b) == (want != 0) && (a < b) == (want < 0) && (a > b) == (want > 0) && (a <= b) == (want <= 0) && (a >= b) == (want >= 0));
	COVER("done");
}
// any two sizes: with equal contents the shorter text is the smaller one
PROOF(C32_compare_sizes)
{
	const size_t n = ANY(size_t), m = ANY(size_t);
	REQUIRES(n <= 1 && m < ((size_t)1 << 40));
	const char* p = static_cast<const char*>(vc_bytes(m));
	REQUIRES(n <= m);
	const string_view a(p, n), b(p, m);
	ENSURES("a prefix compares less", a.compare(b) == 0 ? n == m : a.compare(b) < 0 && b.compare(a) > 0);
	COVER("done");
}
PROOF(C32_parts)
{
	const Text t(MaxT);
	const Size pos = ANY(Size), count = ANY(Size);
	string_view s = t.V();
	ENSURES("size", s.size() == t.n && s.length() == t.n && s.empty() == (t.n == 0) && s.end() - s.begin() == (ptrdiff_t)t.n);
	bool thrown = false;
	const size_t left = t.n - pos;
	switch (vc_pick(5))
	{
	case 0:
		{
			string_view r;
			try { r = s.substr(pos, count); } catch (const std::exception&) { thrown = true; }
			ENSURES("a cut from outside is refused", thrown == (pos > t.n));
			ENSURES("the cut", thrown || (r.data() == t.p + pos && r.size() == (count < left ? count : left)));
			break;
		}
	case 1:
		{
			char c = 0;
			try { c = s.at(pos); } catch (const std::exception&) { thrown = true; }
			ENSURES("checked access", thrown == (pos >= t.n) && (thrown || c == t[pos]));
			break;
		}
	case 2:
		try { s.remove_prefix(pos); } catch (const std::exception&) { thrown = true; }
		ENSURES("removing more than there is is refused", thrown == (pos > t.n));
		ENSURES("without the prefix", thrown ? s.data() == t.p && s.size() == t.n : s.data() == t.p + pos && s.size() == left);
		break;
	case 3:
		try { s.remove_suffix(pos); } catch (const std::exception&) { thrown = true; }
		ENSURES("removing more than there is is refused", thrown == (pos > t.n));
		ENSURES("without the suffix", s.data() == t.p && s.size() == (thrown ? t.n : left));
		break;
	case 4:
		Is(s.copy(), t.p, t.n);
		if (t.n)
			ENSURES("front and back", s.front() == t[0] && s.back() == t[t.n - 1] && *s.rbegin() == t[t.n - 1]);
		break;
	}
	COVER("done");
}
PROOF(C32_affixes)
{
	const Text t(MaxT), w(MaxP);
	const bool starts = At(t, 0, w), ends = w.n <= t.n && At(t, t.n - w.n, w);
	switch (vc_pick(4))
	{
	case 0:
		ENSURES("starts with", t.V().starts_with(w.V()) == starts && StartsWith(t.V(), w.V()) == starts);
		ENSURES("ends with", t.V().ends_with(w.V()) == ends && EndsWith(t.V(), w.V()) == ends);
		ENSURES("contains", Contains(t.V(), w.V()) == (FindFrom(t, w, 0) != string_view::npos));
		break;
	case 1:
		Is(RemovePrefix(t.S(), w.S()), t.p + (starts ? w.n : 0), t.n - (starts ? w.n : 0));
		break;
	case 2:
		Is(RemoveSuffix(t.S(), w.S()), t.p, t.n - (ends ? w.n : 0));
		break;
	case 3:
		{
			const size_t k = ANY(size_t);
			const size_t m = k < t.n ? k : t.n;
			const std::string a = ExtractPrefix(t.S(), k), b = ExtractSuffix(t.S(), k);
			ENSURES("cut to the length", a.size() == m && b.size() == m);
			for (size_t i = 0; i < t.n; ++i)
				if (i < m)
					ENSURES("prefix and suffix", a[i] == t[i] && b[m - 1 - i] == t[t.n - 1 - i]);
			break;
		}
	}
	COVER("done");
}
PROOF(C32_replace)
{
	const Text t(MaxT), from(MaxP), to(MaxP);
	if (from.n == 0)
		return;		// replacing the empty text is not defined
	char want[16]; size_t n = 0;
	for (size_t i = 0; i < t.n; )
	{
		if (At(t, i, from))
		{
			for (size_t k = 0; k < to.n; ++k) want[n++] = to[k];
			i += from.n;
		}
		else
			want[n++] = t[i++];
	}
	Is(ReplaceAll(t.V(), from.V(), to.V()), want, n);
	COVER("done");
}
PROOF(C32_filter)
{
	const Text t(MaxT), w(MaxP);
	const char c = ANY(char), d = ANY(char);
	char want[8]; size_t n = 0;
	switch (vc_pick(3))
	{
	case 0:
		for (size_t i = 0; i < t.n; ++i) if (!In(t[i], w)) want[n++] = t[i];
		Is(Filter(t.V(), w.V()), want, n);
		break;
	case 1:
		for (size_t i = 0; i < t.n; ++i) if (t[i] != c) want[n++] = t[i];
		Is(Remove(t.V(), c), want, n);
		break;
	case 2:
		for (size_t i = 0; i < t.n; ++i) want[n++] = t[i] == c ? d : t[i];
		Is(ReplaceAll(t.V(), c, d), want, n);
		break;
	}
	COVER("done");
}
PROOF(C32_strip)
{
	const Text t(MaxT), w(MaxP);
	size_t b = 0, e = t.n;
	const u32 op = vc_pick(3);
	if (op != 0)
		while (e > 0 && In(t[e - 1], w)) --e;
	if (op != 1)
		while (b < e && In(t[b], w)) ++b;
	Is(op == 0 ? LeftStrip(t.S(), w.S()) : op == 1 ? RightStrip(t.S(), w.S()) : Strip(t.S(), w.S()), t.p + b, e - b);
	COVER("done");
}
PROOF(C32_case)
{
	const Text t(MaxT);
	char lower[MaxT + 1], upper[MaxT + 1];
	for (size_t i = 0; i < t.n; ++i)
	{
		REQUIRES((u8)t[i] < 0x80);
		lower[i] = t[i] >= 'A' && t[i] <= 'Z' ? t[i] + 32 : t[i];
		upper[i] = t[i] >= 'a' && t[i] <= 'z' ? t[i] - 32 : t[i];
	}
	switch (vc_pick(4))
	{
	case 0: Is(ToLower(t.V()), lower, t.n); break;
	case 1: Is(ToUpper(t.V()), upper, t.n); break;
	case 2: for (size_t i = 1; i < t.n; ++i) upper[i] = t[i]; Is(Capitalize(t.V()), upper, t.n); break;
	case 3: for (size_t i = 1; i < t.n; ++i) lower[i] = t[i]; Is(Uncapitalize(t.V()), lower, t.n); break;
	}
	COVER("done");
}
PROOF(C32_justify)
{
	const Text t(MaxT);
	const size_t width = vc_pick(7);
	const char c = ANY(char);
	char want[8];
	const size_t pad = width > t.n ? width - t.n : 0;
	const bool left = vc_pick(2);
	for (size_t i = 0; i < pad; ++i) want[left ? t.n + i : i] = c;
	for (size_t i = 0; i < t.n; ++i) want[left ? i : pad + i] = t[i];
	if (left) Is(LeftJustify(t.V(), width, c), want, t.n + pad);
	else Is(RightJustify(t.V(), width, c), want, t.n + pad);
	COVER("done");
}

// the parts between the delimiters, and joining them gives the text back
template < typename R > static void Parts(R r, const Text& t, const size_t* b, const size_t* e, size_t parts)
{
	for (size_t round = 0; round < 2; ++round, r.First())
		for (size_t i = 0; i < parts; ++i)
		{
			ENSURES("one more part", r.Valid());
			Is(r.Get().str(), t.p + b[i], e[i] - b[i]);
			ENSURES("size of a part", r.Get().size() == e[i] - b[i] && r.Get().empty() == (e[i] == b[i]) && r.Get().view().size() == e[i] - b[i]);
			const bool stop = round == 0 && i == 1;
			if (stop)
				break;		// restart in the middle
			r.Next();
			if (i + 1 == parts)
				ENSURES("no part left", !r.Valid());
		}
}
PROOF(C32_split)
{
	const Text t(MaxT), d(MaxP);
	if (d.n == 0)
		return;		// splitting at the empty text is not defined
	const bool any = vc_pick(2);
	const size_t limit = vc_pick(3);
	size_t b[MaxT + 2], e[MaxT + 2], parts = 0, from = 0;
	for (size_t i = 0; i < t.n; )
	{
		const bool cut = (limit == 0 || parts < limit) && (any ? In(t[i], d) : At(t, i, d));
		if (cut)
		{
			b[parts] = from; e[parts] = i; ++parts;
			i += any ? 1 : d.n;
			from = i;
		}
		else
			++i;
	}
	b[parts] = from; e[parts] = t.n; ++parts;
	const std::string s = t.S(), delimiter = d.S();
	if (any)
	{
		Parts(Split(s, IsAnyOf(delimiter), limit), t, b, e, parts);
	}
	else
	{
		Parts(Split(s, delimiter, limit), t, b, e, parts);
		if (limit == 0)
			Is(Join(d.V(), Split(s, delimiter)), t.p, t.n);
	}
	COVER("done");
}
PROOF(C32_join)
{
	vc_bounded("at most 3 texts of at most 2 characters");
	const size_t n = vc_pick(4);
	std::vector<std::string> items;
	char want[16]; size_t len = 0;
	const Text sep(1);
	for (size_t i = 0; i < n; ++i)
	{
		const Text t(2);
		if (i)
			for (size_t k = 0; k < sep.n; ++k) want[len++] = sep[k];
		for (size_t k = 0; k < t.n; ++k) want[len++] = t[k];
		items.push_back(t.S());
	}
	Is(vc_pick(2) ? Join(sep.V(), items.begin(), items.end()) : Join(sep.V(), ToRange(items)), want, len);
	COVER("done");
}
// a part of a text behaves as the text of its own
PROOF(C32_ref)
{
	const Text t(MaxT), w(MaxP);
	const size_t b = vc_pick(t.n + 1), e = b + vc_pick(t.n - b + 1);
	const std::string owner = t.S();
	const StringRef r(owner, b, e);
	const Size pos = vc_pick(6), count = vc_pick(2) ? ANY(Size) : (Size)string_view::npos;
	Text part(0);
	part.p = t.p + b; part.n = e - b;
	switch (vc_pick(4))
	{
	case 0:
		if (w.n != 0 && pos <= part.n)
			ENSURES("search inside the part", r.find(w.S(), pos) == FindFrom(part, w, pos));
		break;
	case 1:
		{
			const char c = ANY(char);
			Size want = string_view::npos;
			for (size_t i = part.n; i-- > 0; )
				if (i >= pos && part[i] == c) want = i;
			if (pos <= part.n)
				ENSURES("search for a character inside the part", r.find(c, pos) == want);
			break;
		}
	case 2:
		{
			const StringRef s = r.substr(pos, count);
			const size_t left = pos < part.n ? part.n - pos : 0, n = count < left ? count : left;
			ENSURES("cut inside the part", s.size() == n && s.empty() == (n == 0));
			const std::string str = s.str();
			ENSURES("size of the cut", str.size() == n);
			for (size_t i = 0; i < left; ++i)
				if (i < n)
					ENSURES("characters of the cut", str[i] == part[pos + i] && s[i] == part[pos + i]);
			break;
		}
	case 3:
		Is(r.str(), part.p, part.n);
		ENSURES("view of the part", r.view().size() == part.n);
		break;
	}
	COVER("done");
}
