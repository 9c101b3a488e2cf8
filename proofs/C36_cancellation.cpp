// C36 cancellation: every interleaving (at lock operations) of a waiting or registering thread with a cancelling one.
// @sources: toolkit.cpp self_counter.cpp shared_ptr.cpp thread/CancellationToken.cpp thread/JoiningCancellationToken.cpp thread/posix/PosixConditionVariable.cpp
// @nocut: ^stingray::[A-Za-z]+Exception::[A-Za-z]+Exception
// @opt: fork_select=true
// @opt: max_steps=60000000
// @replace: pthread_mutex_trylock => trylock
// @replace: pthread_mutex_lock => lock
// @replace: pthread_mutex_unlock => unlock
// @replace: pthread_cond_wait => cond_wait
// @replace: pthread_cond_timedwait => cond_timedwait
// @replace: pthread_cond_broadcast => cond_wake
// @replace: pthread_cond_signal => cond_wake
// @replace: stingray::PosixThreadEngine::GetCurrentThreadId => thread_id
// @replace: stingray::PosixCallOnce::CallOnce => call_once
// @replace: stingray::posix::timespec_now => now
// @replace: stingray::posix::timespec_add => add
#include <vc_fibres.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/thread/CancellationRegistrator.h>
#include <stingraykit/thread/JoiningCancellationToken.h>
#include <stingraykit/thread/ConditionVariable.h>
#include <time.h>
using namespace stingray;

extern "C" __attribute__((used, noinline)) void vckeep__now(clockid_t, timespec* t) { t->tv_sec = 0; t->tv_nsec = 0; }
extern "C" __attribute__((used, noinline)) void vckeep__add(timespec*, u64) { }

static CancellationToken* T; static CancellationToken* T2;
static Mutex* M; static ConditionVariable* C; static bool Flag;
static void CancelIt() { T->Cancel(); }
static void CancelOther() { T2->Cancel(); }
static void CancelBoth() { T2->Cancel(); T->Cancel(); }
static void WakeAndCancel() { { MutexLock l(*M); Flag = true; C->Broadcast(); } T->Cancel(); }
static void CancelResetCancel() { T->Cancel(); try { T->Reset(); } catch (const InvalidOperationException&) { } T->Cancel(); }

// ---- sleeping
static void Asleep(bool timed, void (*other)())
{
	vc_bounded("two threads, up to four unforced switches");
	vcthr::Reset();
	{
		CancellationToken t; T = &t;
		vcthr::Start(other, 4);
		const bool r = timed ? t.Sleep(TimeDuration(ANY(u16))) : t.Sleep(null);
		ENSURES("an unlimited sleep ends by cancellation only", timed || !r);
		ENSURES("a sleep that was not interrupted was not cancelled before", !(r && vcthr::Done && !timed));
		vcthr::Join();
		ENSURES("a cancelled token stays cancelled", t.IsCancelled());
		ENSURES("a sleep on a cancelled token ends at once", !t.Sleep(null) && !t.Sleep(TimeDuration(5)));
		COVER("slept");
	}
}
PROOF(C36_sleep) { Asleep(false, &CancelIt); }
PROOF(C36_sleep_timed) { Asleep(true, &CancelIt); }
PROOF(C36_sleep_reset) { Asleep(false, &CancelResetCancel); }

// ---- waiting for a condition
static void Waiting(void (*other)(), bool predicate)
{
	vc_bounded("two threads, up to four unforced switches");
	vcthr::Reset();
	{
		CancellationToken t; T = &t; Mutex m; M = &m; ConditionVariable c; C = &c; Flag = false;
		vcthr::Start(other, 4);
		bool cancelled = false;
		{
			MutexLock l(m);
			while (!(predicate && Flag) && !cancelled)
			{
				const ConditionWaitResult r = c.Wait(m, t);
				ENSURES("a wait without a time limit does not time out", r != ConditionWaitResult::TimedOut);
				cancelled = r == ConditionWaitResult::Cancelled;
			}
		}
		ENSURES("only a cancelled token cancels a wait", !cancelled || t.IsCancelled());
		ENSURES("the mutex is released", !vcthr::Held(0));
		vcthr::Join();
		MutexLock l(m);
		ENSURES("a wait on a cancelled token ends at once", c.Wait(m, t) == ConditionWaitResult::Cancelled);
		COVER("waited");
	}
}
PROOF(C36_wait) { Waiting(&CancelIt, false); }
PROOF(C36_wait_for_flag) { Waiting(&WakeAndCancel, true); }

// ---- handlers
struct Handler : public ICancellationHandler
{
	int calls; bool gone;
	Handler() : calls(0), gone(false) { }
	virtual void Cancel() { ENSURES("no handler runs after it was removed", !gone); ++calls; vcthr::Point(); ENSURES("no handler is removed while it runs", !gone); }
};
static void Handlers(void (*other)())
{
	vc_bounded("two threads, up to four unforced switches");
	vcthr::Reset();
	{
		CancellationToken t; T = &t; Handler h;
		vcthr::Start(other, 4);
		{
			CancellationRegistrator r(t, h);
			ENSURES("a handler is refused only by a cancelled token", !r.IsCancelled() || t.IsCancelled());
			vcthr::Point();
			if (vc_pick(2)) { t.Cancel(); ENSURES("cancelled", t.IsCancelled()); }
		}
		h.gone = true;
		vcthr::Join();
		ENSURES("a handler is called at most once", h.calls <= 1);
		ENSURES("cancelled", t.IsCancelled());
		Handler late;
		{ CancellationRegistrator r(t, late); ENSURES("a cancelled token takes no handler", r.IsCancelled()); }
		ENSURES("a handler not taken is not called", late.calls == 0);
		COVER("handled");
	}
}
PROOF(C36_handler) { Handlers(&CancelIt); }
PROOF(C36_handler_called)
{
	vcthr::Reset();
	CancellationToken t; Handler h;
	{
		CancellationRegistrator r(t, h);
		ENSURES("a token that is not cancelled takes a handler", !r.IsCancelled() && h.calls == 0);
		bool thrown = false;
		try { t.Reset(); } catch (const InvalidOperationException&) { thrown = true; }
		ENSURES("a token in use is not reset", thrown);
		t.Cancel();
		ENSURES("a cancellation calls the handler", h.calls == 1);
		t.Cancel();
		ENSURES("a second cancellation does nothing", h.calls == 1);
	}
	t.Reset();
	ENSURES("a reset token is not cancelled", !t.IsCancelled());
	t.Cancel();
	ENSURES("a handler that was removed is not called", h.calls == 1 && t.IsCancelled());
}

// ---- two tokens joined
static void Joined(void (*other)(), bool firstIsOther)
{
	vc_bounded("two threads, up to three unforced switches");
	vcthr::Reset();
	{
		CancellationToken t, t2; T = &t; T2 = &t2; Mutex m; M = &m; ConditionVariable c;
		{
			JoiningCancellationToken j(firstIsOther ? t2 : t, firstIsOther ? t : t2);
			vcthr::Start(other, 3);
			{
				MutexLock l(m);
				ENSURES("the cancellation of either token ends the wait", c.Wait(m, j) == ConditionWaitResult::Cancelled);
			}
			ENSURES("only a cancelled token cancels a wait", j.IsCancelled());
			vcthr::Join();
			ENSURES("a sleep on a cancelled token ends at once", !j.Sleep(null));
		}
		t.Cancel(); t2.Cancel();
		COVER("joined");
	}
}
PROOF(C36_joined_first) { Joined(&CancelOther, true); }
PROOF(C36_joined_second) { Joined(&CancelOther, false); }
PROOF(C36_joined_both) { Joined(&CancelBoth, true); }
