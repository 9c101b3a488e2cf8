// C34 life tokens: the protocol of TaskLifeToken and its execution guards, with another thread at every lock operation.
// @sources: toolkit.cpp self_counter.cpp shared_ptr.cpp thread/TaskLifeToken.cpp
// @opt: fork_select=true
// @opt: max_steps=40000000
// @replace: pthread_mutex_trylock => trylock
// @replace: pthread_mutex_lock => lock
// @replace: pthread_mutex_unlock => unlock
// @replace: stingray::PosixThreadEngine::GetCurrentThreadId => thread_id
#include <vc_threads.h>
#include <stingraykit/thread/TaskLifeToken.h>
#include <stingraykit/function/CancellableFunction.h>
using namespace stingray;

static TaskLifeToken* Token_; static TaskLifeHolder* Holder_; static bool Released, Working; static int Works;

static void Work()
{
	ENSURES("no guarded work after the release", !Released);
	Working = true;
	vcthr::Point();		// the work takes time
	ENSURES("no release returns while guarded work runs", !Released);
	Working = false; ++Works;
}
static void GuardedWork(const FutureExecutionTester& t) { LocalExecutionGuard g(t); if (g) Work(); }
static void Release_() { if (Released) return; if (Token_) Token_->Release(); else Holder_->Release(); Released = true; }

static const FutureExecutionTester* Tester_;
static void GuardedOther() { GuardedWork(*Tester_); }

// the work as thread 0, the release at any point of it
PROOF(C34_work_against_release)
{
	Released = Working = false; Works = 0;
	TaskLifeToken token; TaskLifeHolder holder;
	Token_ = &token; Holder_ = &holder;
	if (vc_pick(2)) Token_ = 0;
	const FutureExecutionTester t(Token_ ? token.GetExecutionTester() : holder.GetExecutionTester());
	ENSURES("a real token is no dummy", !t.IsDummy());
	vcthr::Reset(&Release_);
	GuardedWork(t);
	GuardedWork(t);
	vcthr::Finish();
	ENSURES("the work runs before the release and not after", Released && Works <= 2);
	const int before = Works;
	GuardedWork(t);
	{ const FutureExecutionTester copy(t); LocalExecutionGuard g(copy); ENSURES("a released token refuses", !g); }
	ENSURES("no guarded work after the release", Works == before);
	COVER("done");
	token.Release(); holder.Release();
}

// the release as thread 0, the work at any point of it
PROOF(C34_release_against_work)
{
	Released = Working = false; Works = 0;
	TaskLifeToken token; TaskLifeHolder holder;
	Token_ = &token; Holder_ = &holder;
	if (vc_pick(2)) Token_ = 0;
	const FutureExecutionTester t(Token_ ? token.GetExecutionTester() : holder.GetExecutionTester());
	Tester_ = &t;
	vcthr::Reset(&GuardedOther);
	Release_();
	ENSURES("the release returns when no guarded work runs", !Working);
	vcthr::Finish();
	COVER("done");
	token.Release(); holder.Release();
}

// without a release the work runs; dummy and dead tokens; a reset token gives fresh life to new work only
PROOF(C34_alive)
{
	Released = Working = false; Works = 0; Token_ = 0;
	vcthr::Reset();
	TaskLifeToken token;
	const FutureExecutionTester t(token.GetExecutionTester());
	GuardedWork(t); GuardedWork(t);
	ENSURES("work of a live token runs", Works == 2);
	{ LocalExecutionGuard g(t); LocalExecutionGuard h(t); ENSURES("nested guards of one thread", g && h); }
	ENSURES("every guard ends its lock", !vcthr::Held(0));
	token.Reset();
	{ LocalExecutionGuard g(t); ENSURES("the old work is refused after a reset", !g); }
	const FutureExecutionTester u(token.GetExecutionTester());
	{ LocalExecutionGuard g(u); ENSURES("new work runs after a reset", (bool)g); }
	TaskLifeToken moved(std::move(token));
	{ LocalExecutionGuard g(u); ENSURES("moving a token keeps it alive", (bool)g); }
	moved.Release();
	{ LocalExecutionGuard g(u); ENSURES("released", !g); }
	TaskLifeToken dummy(TaskLifeToken::CreateDummyTaskToken()), dead(TaskLifeToken::CreateDeadTaskToken());
	ENSURES("a dummy token", dummy.GetExecutionTester().IsDummy());
	{ LocalExecutionGuard g(dummy.GetExecutionTester()); ENSURES("a dummy token always allows", (bool)g); }
	dummy.Release();
	{ LocalExecutionGuard g(dummy.GetExecutionTester()); ENSURES("a dummy token always allows", (bool)g); LocalExecutionGuard h(null); ENSURES("no token always allows", (bool)h); }
	{ LocalExecutionGuard g(dead.GetExecutionTester()); ENSURES("a dead token never allows", !g); }
	TaskLifeHolder holder;
	const FutureExecutionTester v(holder.GetExecutionTester());
	{ LocalExecutionGuard g(v); ENSURES("work of a live holder runs", (bool)g); }
	holder.Reset();
	{ LocalExecutionGuard g(v); ENSURES("the old work is refused after a reset", !g); LocalExecutionGuard h(holder.GetExecutionTester()); ENSURES("new work runs after a reset", (bool)h); }
	holder.Release();
	{ LocalExecutionGuard g(holder.GetExecutionTester()); ENSURES("released", !g); }
	ENSURES("every guard ends its lock", !vcthr::Held(0));
	COVER("done");
}

static void Count() { Work(); }
// the cancellable function calls its target exactly while the token is alive
PROOF(C34_cancellable)
{
	Released = Working = false; Works = 0; Token_ = 0;
	TaskLifeToken token; Token_ = &token;
	const function<void ()> f(MakeCancellableFunction(&Count, token.GetExecutionTester()));
	vcthr::Reset(&Release_);
	f();
	vcthr::Finish();
	const int before = Works;
	ENSURES("called at most once", before <= 1);
	f();
	ENSURES("no guarded work after the release", Works == before);
	COVER("done");
}
