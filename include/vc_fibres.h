#pragma once
// Two threads, switched at lock operations: before every acquisition, after every release, at every wait and wake-up. A thread that cannot go
// on (mutex held by the other, not yet woken) lets the other one run; when neither can go on, the obligation "no thread is left waiting" fails.
// Switches that are not forced are bounded. Schedules are not replayed natively. Needs, in the proof file:
// @replace: pthread_mutex_trylock => trylock      // @replace: pthread_mutex_lock => lock      // @replace: pthread_mutex_unlock => unlock
// @replace: pthread_cond_wait => cond_wait        // @replace: pthread_cond_timedwait => cond_timedwait
// @replace: pthread_cond_broadcast => cond_wake   // @replace: pthread_cond_signal => cond_wake
// @replace: stingray::PosixThreadEngine::GetCurrentThreadId => thread_id      // @replace: stingray::PosixCallOnce::CallOnce => call_once
#include <vc.h>
#include <pthread.h>
#include <errno.h>
#include <unistd.h>

namespace vcthr
{
	struct Lock { const void* mutex; int owner, count; };
	static Lock Table[24]; static int Locks;
	static int Current;					// the running thread: 0 the proof, 1 the other one
	static bool Started, Done;			// the other thread
	static void (*Other)();
	static void (*TimeOver)();			// what a wait that timed out does to the clock
	static bool Atomic;					// no unforced switch here
	static int Preemptions;				// unforced switches left
	static int Overs;					// how often a limited wait may pass before the other thread, which could go on, does anything
	static const void* Blocked[2];		// the mutex a thread needs
	static const void* Waits[2]; static bool Woken[2], Timed[2];

	static Lock& Of(const void* m)
	{
		for (int i = 0; i < Locks; ++i) if (Table[i].mutex == m) return Table[i];
		for (int i = 0; i < Locks; ++i) if (!Table[i].count) { Table[i] = Lock{m, 0, 0}; return Table[i]; }
		vc_assert(Locks < 24, "the lock table of the proof is large enough");
		Table[Locks] = Lock{m, 0, 0};
		return Table[Locks++];
	}
	static bool Held(int thread) { for (int i = 0; i < Locks; ++i) if (Table[i].count && Table[i].owner == thread) return true; return false; }
	static bool Free(const void* m, int thread) { for (int i = 0; i < Locks; ++i) if (Table[i].mutex == m && Table[i].count && Table[i].owner != thread) return false; return true; }
	static bool Runnable(int t) { return (t == 0 || (Started && !Done)) && (!Blocked[t] || Free(Blocked[t], t)) && (!Waits[t] || Woken[t] || Timed[t]); }
	static void Switch() { Current ^= 1; vc_switch(); }
	static void Forced() { const bool can = Runnable(Current ^ 1); vc_assert(can, "no thread is left waiting"); vc_assume(can); Switch(); }
	static void Point() { if (!Atomic && Preemptions > 0 && Runnable(Current ^ 1) && vc_pick(2)) { --Preemptions; Switch(); } }
	static void Entry() { Other(); vc_assert(!Held(1), "the other thread releases what it locks"); Done = true; Switch(); }
	static void Reset() { if (vc_native()) _exit(0); Locks = 0; Current = 0; Started = Done = Atomic = false; Preemptions = 0; Overs = 2; TimeOver = 0; for (int i = 0; i < 2; ++i) { Blocked[i] = Waits[i] = 0; Woken[i] = Timed[i] = false; } }
	static void Start(void (*other)(), int preemptions) { Other = other; Started = true; Preemptions = preemptions; vc_fibre(&Entry); }
	static void Join() { while (!Done) Forced(); }	// the other thread runs to its end
	static void Acquire(const void* m)
	{
		while (!Free(m, Current)) { const int me = Current; Blocked[me] = m; Forced(); Blocked[me] = 0; }
		Lock& l = Of(m);
		l.owner = Current; ++l.count;
	}
}

extern "C" __attribute__((used, noinline)) int vckeep__lock(pthread_mutex_t* m) { vcthr::Point(); vcthr::Acquire(m); return 0; }
// PosixMutex::Lock tries first and then waits
extern "C" __attribute__((used, noinline)) int vckeep__trylock(pthread_mutex_t* m) { return vckeep__lock(m); }
extern "C" __attribute__((used, noinline)) int vckeep__unlock(pthread_mutex_t* m)
{
	vcthr::Lock& l = vcthr::Of(m);
	vc_assert(l.count > 0 && l.owner == vcthr::Current, "only a held mutex is unlocked");
	if (l.count > 0) --l.count;
	vcthr::Point();
	return 0;
}
static int vcthr_wait(const void* c, const void* m, bool timed)
{
	vcthr::Lock& l = vcthr::Of(m);
	vc_assert(l.count == 1 && l.owner == vcthr::Current, "a wait holds its mutex exactly once");
	l.count = 0;
	const int me = vcthr::Current;
	vcthr::Waits[me] = c; vcthr::Woken[me] = false;
	vcthr::Timed[me] = timed;
	if (!timed) while (!vcthr::Woken[me]) vcthr::Forced();
	else if (vcthr::Runnable(me ^ 1)) { if (vcthr::Overs > 0 && vc_pick(2)) --vcthr::Overs; else vcthr::Switch(); }
	const bool woken = vcthr::Woken[me];
	if (!woken && vcthr::TimeOver) vcthr::TimeOver();
	vcthr::Timed[me] = false;
	vcthr::Waits[me] = 0;
	vcthr::Acquire(m);
	return woken ? 0 : ETIMEDOUT;
}
extern "C" __attribute__((used, noinline)) int vckeep__cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return vcthr_wait(c, m, false); }
extern "C" __attribute__((used, noinline)) int vckeep__cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec*) { return vcthr_wait(c, m, true); }
extern "C" __attribute__((used, noinline)) int vckeep__cond_wake(pthread_cond_t* c) { const int o = vcthr::Current ^ 1; if (vcthr::Waits[o] == c) vcthr::Woken[o] = true; vcthr::Point(); return 0; }
extern "C" __attribute__((used, noinline)) int vckeep__thread_id() { return 4711 + vcthr::Current; }
extern "C" __attribute__((used, noinline)) void vckeep__call_once(int& once, void (*f)()) { if (!once) { f(); once = 1; } }
