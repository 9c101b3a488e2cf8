// Native side of the vocabulary: the same proof functions, run on the compiled real code.
//   replay FILE PROOF            values from FILE (one per line: "v W N", "b n b0 b1 ...")
//   random SEED SECONDS PROOF OUT   search for a failing input; writes the values read to OUT
#include <vc.h>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <exception>
#include <map>
#include <string>
#include <vector>
typedef void (*ProofFn)();
std::map<std::string, ProofFn>& VcProofs() { static std::map<std::string, ProofFn> m; return m; }
struct Item { bool bytes; unsigned w; uint64_t v; std::vector<unsigned char> b; };
static std::vector<Item> In; static size_t Pos; static bool Random; static std::vector<Item> Used; static jmp_buf Jb; static std::vector<void*> Blocks;
static uint64_t Seed;
static uint64_t Rnd() { Seed ^= Seed << 13; Seed ^= Seed >> 7; Seed ^= Seed << 17; return Seed; }
static const char* OutFile;
static int Mode;
static uint64_t Mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static uint64_t RandVal(unsigned w)
{
	uint64_t m = Mask(w);
	switch (Rnd() % 12)
	{
	case 0: case 1: case 2: case 3: return Rnd() % 9 & m;
	case 4: return Rnd() % 40 & m;
	case 5: case 6: if (!Used.empty()) { const Item& i = Used[Rnd() % Used.size()]; return ((i.bytes ? i.b.size() : i.v) + (Rnd() % 3) - 1) & m; } return Rnd() % 300 & m;
	case 7: return (m - Rnd() % 5) & m;
	case 8: return ((m >> 1) + (Rnd() % 5) - 2) & m;
	case 9: { uint64_t b = 1ull << (Rnd() % (w ? w : 1)); return (b + (Rnd() % 3) - 1) & m; }
	case 10: return (Rnd() >> (Rnd() % 64)) & m;
	default: return Rnd() & m;
	}
}
static void Dump()
{
	if (!OutFile) return;
	FILE* f = fopen(OutFile, "w"); if (!f) return;
	for (auto& i : Used)
	{
		if (i.bytes) { fprintf(f, "b %zu", i.b.size()); for (auto b : i.b) fprintf(f, " %u", b); fprintf(f, "\n"); }
		else fprintf(f, "v %u %llu\n", i.w, (unsigned long long)i.v);
	}
	fclose(f);
}
static void Fail(const char* label) { Dump(); printf("REPLAY-FAILED %s\n", label); fflush(stdout); _exit(1); }
extern "C" {
uint64_t vc_nondet(unsigned w)
{
	uint64_t v = 0;
	if (Random) v = RandVal(w);
	else { while (Pos < In.size() && In[Pos].bytes) ++Pos; if (Pos < In.size()) v = In[Pos++].v & Mask(w); }
	Item i; i.bytes = false; i.w = w; i.v = v; Used.push_back(i);
	return v;
}
uint64_t vc_pick(uint64_t n) { uint64_t v = vc_nondet(64); return v % n; }
static void Content(unsigned char* p, size_t n)
{
	Item i; i.bytes = true; i.w = 0; i.v = 0;
	if (Random)
	{
		int k = Rnd() % 5; static const char al[] = "0123456789abcdefABCDEF +-.,:;/\\\"'{}[]()&<>\t\n";
		for (size_t j = 0; j < n; ++j)
			p[j] = k == 0 ? Rnd() : k == 1 ? 'a' + Rnd() % 3 : k == 2 ? (unsigned char)al[Rnd() % (sizeof(al) - 1)] : k == 3 ? Rnd() % 4 : (Rnd() % 3 ? 128 + Rnd() % 128 : Rnd());
	}
	else
	{
		while (Pos < In.size() && !In[Pos].bytes) ++Pos;
		if (Pos < In.size()) { for (size_t j = 0; j < n; ++j) p[j] = j < In[Pos].b.size() ? In[Pos].b[j] : 0; ++Pos; }
	}
	i.b.assign(p, p + n); Used.push_back(i);
}
void* vc_bytes(size_t n)
{
	if (n > (64u << 20)) { if (Random) longjmp(Jb, 1); printf("REPLAY-TOO-BIG\n"); fflush(stdout); _exit(4); }
	unsigned char* p = (unsigned char*)malloc(n ? n : 1);
	Blocks.push_back(p);
	memset(p, 0, n);
	Content(p, n);
	return p;
}
void* vc_words(size_t n, unsigned e) { if (n > (1u << 24)) { if (Random) longjmp(Jb, 1); _exit(4); } return vc_bytes(n * e); }
void vc_havoc(void* p, size_t n) { Content((unsigned char*)p, n); }
void vc_assume(int c) { if (!c) { if (Mode == 0) { printf("REPLAY-ASSUME-FALSE\n"); fflush(stdout); _exit(3); } longjmp(Jb, 1); } }
void vc_assert(int c, const char* l) { if (!c) Fail(l); }
void vc_cover(const char*) { }
void vc_bounded(const char*) { }
int vc_same(const void* a, const void* b, size_t n) { return n == 0 || memcmp(a, b, n) == 0; }
size_t vc_live(void) { return 0; }
int vc_native(void) { return 1; }
void vc_fibre(void (*)(void)) { }
void vc_switch(void) { }
int vc_is_const(uint64_t) { return 1; }
void vc_note(const char* n, uint64_t v) { if (Mode == 0) printf("NOTE %s=%llu\n", n, (unsigned long long)v); }
void vc_invariant(int) { }
}
static void OnSig(int s) { Dump(); printf("REPLAY-FAILED signal %d\n", s); fflush(stdout); _exit(1); }
static void OnTerm() { Dump(); printf("REPLAY-FAILED uncaught exception\n"); fflush(stdout); _exit(1); }
extern "C" void __asan_on_error() { Dump(); printf("REPLAY-FAILED memory error (AddressSanitizer)\n"); fflush(stdout); }
extern "C" const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:max_allocation_size_mb=2048:handle_segv=0:handle_sigfpe=0:handle_abort=0"; }
int main(int argc, char** argv)
{
	if (argc >= 2 && !strcmp(argv[1], "list")) { for (auto& p : VcProofs()) printf("%s\n", p.first.c_str()); return 0; }
	if (argc < 4) return 2;
	std::set_terminate(OnTerm);
	for (int s : { SIGSEGV, SIGFPE, SIGABRT, SIGILL, SIGBUS, SIGALRM }) signal(s, OnSig);
	if (!strcmp(argv[1], "replay"))
	{
		FILE* f = fopen(argv[2], "r"); if (!f) return 2;
		char k; while (fscanf(f, " %c", &k) == 1)
		{
			if (k == 'v') { Item i; i.bytes = false; unsigned long long v; if (fscanf(f, "%u %llu", &i.w, &v) != 2) break; i.v = v; In.push_back(i); }
			else if (k == 'b') { Item i; i.bytes = true; i.w = 0; i.v = 0; size_t n; if (fscanf(f, "%zu", &n) != 1) break; for (size_t j = 0; j < n; ++j) { unsigned b; if (fscanf(f, "%u", &b) != 1) break; i.b.push_back(b); } In.push_back(i); }
			else { int c; while ((c = fgetc(f)) != '\n' && c != EOF) ; }
		}
		fclose(f);
		if (!VcProofs().count(argv[3])) return 2;
		alarm(60);
		VcProofs()[argv[3]]();
		printf("REPLAY-PASSED\n");
		return 0;
	}
	if (!strcmp(argv[1], "random") && argc >= 6)
	{
		Mode = 1; Random = true;
		uint64_t s0 = strtoull(argv[2], 0, 10); double secs = atof(argv[3]); OutFile = argv[5];
		if (!VcProofs().count(argv[4])) return 2;
		ProofFn fn = VcProofs()[argv[4]];
		time_t t0 = time(0); volatile unsigned long it = 0, ok = 0;
		while (time(0) - t0 < secs)
		{
			Seed = (s0 * 0x9E3779B97F4A7C15ull + it * 0xD1342543DE82EF95ull) | 1; ++it; for (int i = 0; i < 4; ++i) Rnd();
			Used.clear();
			alarm(20);
			if (setjmp(Jb) == 0) { fn(); ++ok; }
			for (void* p : Blocks) free(p);
			Blocks.clear();
		}
		printf("RANDOM-PASSED runs=%lu completed=%lu\n", (unsigned long)it, (unsigned long)ok);
		return 0;
	}
	return 2;
}
