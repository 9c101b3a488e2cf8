#pragma once
// A second thread at the granularity of lock operations. The functions under proof run as thread 0; wherever they acquire or have
// released a mutex the other thread may run its (complete) operation, given by the proof. An operation that needs a mutex held by the
// suspended thread cannot run to its end there: such a path is dropped. Needs, in the proof file:
// @replace: pthread_mutex_trylock => trylock      // @replace: pthread_mutex_lock => lock      // @replace: pthread_mutex_unlock => unlock
// @replace: pthread_cond_wait => cond_wait        // @replace: pthread_cond_broadcast => cond_wake   // @replace: pthread_cond_signal => cond_wake
// @replace: stingray::PosixThreadEngine::GetCurrentThreadId => thread_id
#include <vc.h>
#include <pthread.h>

namespace vcthr
{
	struct Lock { const void* mutex; int owner, count; };
	static Lock Table[24]; static int Locks;
	static int Current;					// the running thread
	static void (*Other)();				// what the other thread does; 0: nothing (more)
	static bool Atomic;					// no switch to the other thread here
	static int Budget;					// how often the other thread may run
	static const void* Waiting; static bool Woken;

	static void Reset(void (*other)() = 0, int budget = 1) { Locks = 0; Current = 0; Other = other; Atomic = false; Budget = budget; Waiting = 0; Woken = false; }
	static Lock& Of(const void* m)
	{
		for (int i = 0; i < Locks; ++i) if (Table[i].mutex == m) return Table[i];
		for (int i = 0; i < Locks; ++i) if (!Table[i].count) { Table[i] = Lock{m, 0, 0}; return Table[i]; }
		vc_assert(Locks < 24, "the lock table of the proof is large enough");
		Table[Locks] = Lock{m, 0, 0};
		return Table[Locks++];
	}
	static bool Held(int thread) { for (int i = 0; i < Locks; ++i) if (Table[i].count && Table[i].owner == thread) return true; return false; }
	static void RunOther() { --Budget; Current = 1; Other(); vc_assert(!Held(1), "the other thread releases what it locks"); Current = 0; }
	static void Point() { if (!vc_native() && Current == 0 && !Atomic && Other && Budget > 0 && vc_pick(2)) RunOther(); }
	static bool Finish() { if (!vc_native() && Other && Budget > 0) { RunOther(); return true; } return false; }	// the other thread runs now, if it has not run yet
}

extern "C" __attribute__((used, noinline)) int vckeep__lock(pthread_mutex_t* m)
{
	vcthr::Point();
	vcthr::Lock& l = vcthr::Of(m);
	vc_assume(!l.count || l.owner == vcthr::Current);	// otherwise it blocks: covered where the other thread runs elsewhere
	l.owner = vcthr::Current; ++l.count;
	return 0;
}
extern "C" __attribute__((used, noinline)) int vckeep__trylock(pthread_mutex_t* m) { return vckeep__lock(m); }
extern "C" __attribute__((used, noinline)) int vckeep__unlock(pthread_mutex_t* m)
{
	vcthr::Lock& l = vcthr::Of(m);
	vc_assert(l.count > 0 && l.owner == vcthr::Current, "only a held mutex is unlocked");
	if (l.count > 0) --l.count;
	vcthr::Point();
	return 0;
}
extern "C" __attribute__((used, noinline)) int vckeep__cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	vcthr::Lock& l = vcthr::Of(m);
	vc_assert(l.count == 1 && l.owner == vcthr::Current, "a wait holds its mutex exactly once");
	l.count = 0;
	vcthr::Waiting = c; vcthr::Woken = false;
	vc_assert(vcthr::Current == 0 && vcthr::Other && vcthr::Budget > 0, "no wait after the last thread that could end it has finished");
	vcthr::RunOther();
	vc_assert(vcthr::Woken, "the waiter is woken");
	vcthr::Waiting = 0;
	vcthr::Lock& k = vcthr::Of(m);
	k.owner = vcthr::Current; k.count = 1;
	return 0;
}
extern "C" __attribute__((used, noinline)) int vckeep__cond_wake(pthread_cond_t* c) { if (vcthr::Waiting == c) vcthr::Woken = true; return 0; }
extern "C" __attribute__((used, noinline)) int vckeep__thread_id() { return 4711 + vcthr::Current; }
// @replace: stingray::PosixCallOnce::CallOnce => call_once
extern "C" __attribute__((used, noinline)) void vckeep__call_once(int& once, void (*f)()) { if (!once) { f(); once = 1; } }
