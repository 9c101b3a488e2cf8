// Specification vocabulary.  A proof function states one contract obligation over the real code:
//   REQUIRES(P)          precondition / representation invariant of the arbitrary pre-state
//   ENSURES(label, Q)    postcondition; one verification condition per path that reaches it
//   COVER(label)         reachability guard: must be satisfiable, otherwise the contract is vacuous
// The VC generator interprets the vc_* calls symbolically; natively (VC_NATIVE) they read a replay file.
#ifndef VERIF_VC_H
#define VERIF_VC_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
uint64_t vc_nondet(unsigned bits);				// arbitrary value of that many bits
uint64_t vc_ghost(unsigned bits);				// as vc_nondet, for assumed contracts in rt/ (not an input)
uint64_t vc_pick(uint64_t n);					// arbitrary value below the constant n; one proof path for each
void* vc_bytes(size_t n);						// fresh heap block of n arbitrary bytes, owned by the proof (never freed)
void* vc_words(size_t n, unsigned elemBytes);	// as vc_bytes, n elements of elemBytes bytes
void vc_havoc(void* p, size_t n);				// arbitrary content in p[0..n)
void vc_assume(int cond);
void vc_assert(int cond, const char* label);
void vc_cover(const char* label);
void vc_bounded(const char* what);				// this obligation is a bounded stand-in; never counted as proved
int  vc_same(const void* a, const void* b, size_t n);	// byte-wise equality of two ranges, for symbolic n
size_t vc_live(void);							// number of live heap objects
int  vc_native(void);							// 1 when replayed natively
void vc_fibre(void (*f)(void));					// a second thread, suspended at the start of f
void vc_switch(void);							// control passes to the suspended thread
int  vc_is_const(uint64_t v);
void vc_note(const char* name, uint64_t v);		// named value, shown in counterexamples
#ifdef __cplusplus
}
template < typename T > inline T vc_any() { return static_cast<T>(vc_nondet(sizeof(T) * 8)); }
template < > inline bool vc_any<bool>() { return vc_nondet(1) & 1; }
#define ANY(T) vc_any<T>()
#endif
#define REQUIRES(...) vc_assume((__VA_ARGS__) ? 1 : 0)
#define ENSURES(Label, ...) vc_assert((__VA_ARGS__) ? 1 : 0, Label)
#define COVER(Label) vc_cover(Label)
#ifdef VC_NATIVE
#include <map>
#include <string>
std::map<std::string, void (*)()>& VcProofs();
#define PROOF(Name) extern "C" void vcproof__##Name(); static bool VcReg_##Name = (VcProofs()[#Name] = &vcproof__##Name, true); extern "C" void vcproof__##Name()
#else
#define PROOF(Name) extern "C" __attribute__((noinline, used)) void vcproof__##Name()
#endif
#define CONTRACT(Name) extern "C" __attribute__((noinline, used))
#endif
