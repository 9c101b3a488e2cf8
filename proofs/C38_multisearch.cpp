// C38 multi-pattern search: every pattern set and text over a small alphabet, against the definition of an occurrence.
// @opt: max_steps=60000000
// @nocut: ^stingray::[A-Za-z]*StringBuilder
#include <vc.h>
#include <vector>
#include <string>
#include <stingraykit/string/StringUtils.h>
#include <stingraykit/exception.h>
#include <stingraykit/string/AhoCorasick.h>
using namespace stingray;

static u8 Symbol(u64 i) { return i ? (i == 1 ? 0xFF : 'a') : 0; }		// both ends of the byte range and one inside

static std::string Word(u64 n, u64 code, u64 alphabet)
{
	std::string s;
	for (u64 i = 0; i < n; ++i) { s.push_back((char)Symbol(code % alphabet)); code /= alphabet; }
	return s;
}
static u64 Pow(u64 b, u64 e) { u64 r = 1; while (e--) r *= b; return r; }

struct Found { const std::string* p; u64 index, at; };
struct Sink
{
	Found* f; int* n;
	void operator() (const std::string& p, size_t index, size_t at) const { if (*n < 32) f[*n] = Found{&p, index, at}; ++*n; }
};

static void Check(const std::string* words, int count, u64 textSize, u64 alphabet)
{
	for (int i = 0; i < count; ++i) for (int k = 0; k < i; ++k) REQUIRES(words[i] != words[k]);
	AhoCorasick a;
	for (int i = 0; i < count; ++i)
		ENSURES("patterns are numbered in the order they are added", a.Add(words[i]) == (size_t)i);
	bool refused = false;
	try { a.Search(std::string(), Sink{0, 0}); } catch (const std::exception&) { refused = true; }
	ENSURES("no search before the patterns are complete", refused);
	a.Build();
	refused = false;
	try { a.Add("x"); } catch (const std::exception&) { refused = true; }
	ENSURES("no pattern is added to a finished set", refused);

	const std::string text = Word(textSize, vc_pick(Pow(alphabet, textSize)), alphabet);
	Found f[32]; int n = 0;
	a.Search(text, Sink{f, &n});
	ENSURES("the report is finite", n <= 32);
	int expected = 0;
	for (u64 at = 0; at < textSize; ++at)
		for (int i = 0; i < count; ++i)
			if (at + words[i].size() <= textSize && !text.compare(at, words[i].size(), words[i]))
			{
				++expected;
				int hits = 0;
				for (int k = 0; k < n; ++k) if (f[k].at == at && f[k].index == (u64)i) ++hits;
				ENSURES("every occurrence of every pattern is reported once", hits == 1);
			}
	ENSURES("nothing but occurrences is reported", n == expected);
	for (int k = 0; k < n; ++k)
		ENSURES("the pattern reported is the one with that number", f[k].index < (u64)count && *f[k].p == words[f[k].index]);
}

static void Two(u64 a, u64 b, u64 text, u64 alphabet)
{
	vc_bounded("two patterns of up to four symbols, texts of up to five symbols, small alphabets");
	const std::string w[2] = { Word(a, vc_pick(Pow(alphabet, a)), alphabet), Word(b, vc_pick(Pow(alphabet, b)), alphabet) };
	Check(w, 2, text, alphabet);
	COVER("searched");
}
PROOF(C38_two_12) { Two(1, 2, 4, 2); }
PROOF(C38_two_22) { Two(2, 2, 4, 2); }
PROOF(C38_two_23) { Two(2, 3, 5, 2); }
PROOF(C38_two_13) { Two(1, 3, 4, 2); }
PROOF(C38_two_33) { Two(3, 3, 4, 2); }
PROOF(C38_two_24) { Two(2, 4, 4, 2); }		// failure links of more than one step
PROOF(C38_three)
{
	vc_bounded("three patterns of up to three symbols, texts of up to five symbols, small alphabets");
	const std::string w[3] = { Word(1, vc_pick(2), 2), Word(2, vc_pick(4), 2), Word(3, vc_pick(8), 2) };
	Check(w, 3, 4, 2);
	COVER("searched");
}
PROOF(C38_wide)
{
	vc_bounded("three symbols, texts of three symbols");
	const std::string w[2] = { Word(1, vc_pick(3), 3), Word(2, vc_pick(9), 3) };
	Check(w, 2, 3, 3);
	COVER("searched");
}
