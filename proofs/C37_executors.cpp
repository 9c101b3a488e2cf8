// C37 executors and timers: the worker as the second thread, every interleaving at lock operations within the bound.
// @sources: toolkit.cpp self_counter.cpp shared_ptr.cpp thread/CancellationToken.cpp thread/TimedCancellationToken.cpp thread/DummyCancellationToken.cpp thread/posix/PosixConditionVariable.cpp thread/TaskLifeToken.cpp thread/ThreadTaskExecutor.cpp thread/ThreadlessTaskExecutor.cpp thread/ThreadPool.cpp timer/Timer.cpp time/Time.cpp time/ElapsedTime.cpp
// @nocut: ^stingray::[A-Za-z]+Exception::[A-Za-z]+Exception
// @opt: fork_select=true
// @opt: max_steps=60000000
// @opaque: ^(void )?stingray::(Logger|NamedLogger)
// @opaque: stingray::LoggerStream::(operator|LoggerStream|~LoggerStream)
// @replace: pthread_mutex_trylock => trylock
// @replace: pthread_mutex_lock => lock
// @replace: pthread_mutex_unlock => unlock
// @replace: pthread_cond_wait => cond_wait
// @replace: pthread_cond_timedwait => cond_timedwait
// @replace: pthread_cond_broadcast => cond_wake
// @replace: pthread_cond_signal => cond_wake
// @replace: stingray::PosixThreadEngine::GetCurrentThreadId => thread_id
// @replace: stingray::PosixCallOnce::CallOnce => call_once
// @replace: stingray::posix::timespec_now => now
// @replace: stingray::posix::timespec_add => add
// @replace: stingray::posix::TimeEngine::GetMonotonicMicroseconds => clock
// @replace: stingray::Thread::Thread => thread_begin
// @replace: stingray::Thread::~Thread => thread_end
// @replace: stingray::Thread::GetCurrentThreadName => thread_name
// @replace: stingray::Thread::InterruptionPoint => nothing
#include <vc_fibres.h>
#include <stingraykit/thread/ThreadTaskExecutor.h>
#include <stingraykit/thread/ThreadlessTaskExecutor.h>
#include <stingraykit/thread/ThreadPool.h>
#include <stingraykit/thread/CancellationToken.h>
#include <stingraykit/timer/Timer.h>
#include <time.h>
using namespace stingray;

// ---- the assumed contracts of threads and clocks
static u64 Clock; static u64 Deadline[2];			// time passes while the threads wait for it
extern "C" __attribute__((used, noinline)) u64 vckeep__clock() { return Clock; }
extern "C" __attribute__((used, noinline)) void vckeep__now(clockid_t, timespec* t) { t->tv_sec = 0; t->tv_nsec = 0; }
extern "C" __attribute__((used, noinline)) void vckeep__add(timespec*, TimeDuration d) { Deadline[vcthr::Current] = Clock + d.GetMicroseconds(); }
extern "C" __attribute__((used, noinline)) void vckeep__nothing() { }
static const std::string& Name() { static const std::string& n = *new std::string("thread"); return n; }
extern "C" __attribute__((used, noinline)) const std::string& vckeep__thread_name() { return Name(); }
static const Thread::FuncType* Body; static CancellationToken* Stop; static int Budget;
static void RunBody() { (*Body)(*Stop); }
extern "C" __attribute__((used, noinline)) void vckeep__thread_begin(Thread*, const std::string&, const Thread::FuncType& f, optional<TimeDuration>)
{
	vc_assert(!vcthr::Started, "the proof runs one worker");
	Body = new Thread::FuncType(f); Stop = new CancellationToken;
	vcthr::Start(&RunBody, Budget);
}
extern "C" __attribute__((used, noinline)) void vckeep__thread_end(Thread*)
{
	Stop->Cancel();
	vcthr::Join();
	ENSURES("the threads end without locks", !vcthr::Held(0) && !vcthr::Held(1));
	delete Body; delete Stop;
}
static void TimeOver() { if (Clock < Deadline[vcthr::Current]) Clock = Deadline[vcthr::Current]; }
static void Begin(int preemptions) { vcthr::Reset(); vcthr::TimeOver = &TimeOver; Deadline[0] = Deadline[1] = 0; Clock = 1000; Budget = preemptions; }

// ---- tasks
static int Ran[4]; static int Order[8], Runs; static int Failures; static bool Dead[4], Guarded[4]; static u64 Due[4];
static void ClearTasks() { Runs = 0; Failures = 0; for (int i = 0; i < 4; ++i) { Ran[i] = 0; Dead[i] = Guarded[i] = false; Due[i] = 0; } }
struct Task
{
	typedef void RetType;
	int id; bool throws;
	Task(int i, bool t = false) : id(i), throws(t) { }
	void operator() () const
	{
		ENSURES("a cancelled task does not run", !Dead[id]);
		ENSURES("a task does not run before its time", Clock >= Due[id]);
		ENSURES("a task runs without locks of its executor", Guarded[id] || !vcthr::Held(vcthr::Current));
		++Ran[id]; if (Runs < 8) Order[Runs++] = id;
		vcthr::Point();
		ENSURES("no task is cancelled while it runs", !Dead[id]);
		if (throws) STINGRAYKIT_THROW("failed");
	}
	void WithToken(const ICancellationToken&) const { (*this)(); }
};
struct PoolTask { typedef void RetType; int id; explicit PoolTask(int i) : id(i) { } void operator() (const ICancellationToken&) const { Task t(id); t(); } };
static void Failed(const std::exception&) { ++Failures; }

PROOF(C37_thread_executor)
{
	vc_bounded("two threads, three tasks, up to two unforced switches");
	Begin(2); ClearTasks();
	{
		TaskLifeToken life; Guarded[1] = true;
		{
			ThreadTaskExecutor e("e", null, &Failed);
			e.AddTask(Task(0, true));
			e.AddTask(Task(1), life.GetExecutionTester());
			e.AddTask(Task(2));
			if (vc_pick(2)) { life.Release(); Dead[1] = true; }
		}
		ENSURES("every task runs once", Ran[0] == 1 && Ran[2] == 1 && (Ran[1] == 1 || (Dead[1] && Ran[1] == 0)));
		ENSURES("tasks run in the order they were added", Runs == 2 + Ran[1] && Order[0] == 0 && Order[Runs - 1] == 2);
		ENSURES("a failing task is reported once and stops nothing", Failures == 1);
		COVER("executed");
	}
}
static ThreadlessTaskExecutor* E;
static void AddTwo() { E->AddTask(Task(1)); E->AddTask(Task(2, true)); }
PROOF(C37_threadless_executor)
{
	vc_bounded("two threads, three tasks, up to four unforced switches");
	Begin(4); ClearTasks();
	{
		DummyCancellationToken token; TaskLifeToken life; Guarded[0] = true; Guarded[0] = Guarded[1] = true;
		ThreadlessTaskExecutor e("e", null, &Failed); E = &e;
		e.AddTask(Task(0), life.GetExecutionTester());
		vcthr::Start(&AddTwo, 4);
		e.ExecuteTasks(token);
		vcthr::Join();
		e.ExecuteTasks(token);
		ENSURES("every task runs once", Ran[0] == 1 && Ran[1] == 1 && Ran[2] == 1);
		ENSURES("tasks run in the order they were added", Order[0] == 0 && Order[1] == 1 && Order[2] == 2);
		ENSURES("a failing task is reported once and stops nothing", Failures == 1);
		CancellationToken cancelled; cancelled.Cancel();
		e.AddTask(Task(3));
		e.ExecuteTasks(cancelled);
		ENSURES("a cancelled execution leaves the tasks for the next one", Ran[3] == 0);
		if (vc_pick(2)) { e.ClearTasks(); e.ExecuteTasks(token); ENSURES("tasks that were cleared do not run", Ran[3] == 0); }
		else { e.ExecuteTasks(token); ENSURES("every task runs once", Ran[3] == 1); }
		COVER("executed");
	}
}
static void ExecuteTwice() { DummyCancellationToken token; E->ExecuteTasks(token); E->ExecuteTasks(token); }
PROOF(C37_threadless_two_executors)
{
	vc_bounded("two threads, two tasks, up to four unforced switches");
	Begin(4); ClearTasks();
	{
		DummyCancellationToken token;
		ThreadlessTaskExecutor e("e", null, &Failed); E = &e;
		e.AddTask(Task(0)); e.AddTask(Task(1));
		vcthr::Start(&ExecuteTwice, 4);
		e.ExecuteTasks(token);
		vcthr::Join();
		e.ExecuteTasks(token);
		ENSURES("every task runs once", Ran[0] == 1 && Ran[1] == 1);
		ENSURES("tasks run in the order they were added", Order[0] == 0 && Order[1] == 1);
	}
}

// ---- timers
static void At(int id, u32 ms) { Due[id] = Clock + (u64)ms * 1000; }
static void Pass(u32 ms) { Clock += (u64)ms * 1000; vcthr::Point(); }
PROOF(C37_timer_tasks)
{
	vc_bounded("two threads, three tasks, up to two unforced switches");
	Begin(2); ClearTasks();
	{
		for (int i = 0; i < 4; ++i) Guarded[i] = true;	// by their life tokens
		Timer t("t", null, &Failed);
		t.AddTask(Task(0, true));
		t.AddTask(Task(1));
		t.AddTask(Task(2));
		while (Runs < 3 && vcthr::Runnable(1)) vcthr::Switch();
		ENSURES("every task runs once", Ran[0] == 1 && Ran[1] == 1 && Ran[2] == 1 && Runs == 3);
		ENSURES("tasks run in the order they were added", Order[0] == 0 && Order[1] == 1 && Order[2] == 2);
		ENSURES("a failing task is reported once and stops nothing", Failures == 1);
		COVER("timed");
	}
	ENSURES("nothing runs twice at the end", Runs == 3);
}
static void Timeouts(bool cancel, int preemptions)
{
	Begin(preemptions); ClearTasks();
	{
		for (int i = 0; i < 4; ++i) Guarded[i] = true;	// by their life tokens
		Timer t("t", null, &Failed);
		At(0, 20); Token a = t.SetTimeout(TimeDuration(20), Task(0));
		At(1, 10); Token b = t.SetTimeout(TimeDuration(10), Task(1));
		const bool inTime = Clock < Due[0] && Due[1] < Due[0];
		if (cancel) { b.Reset(); Dead[1] = true; }
		while ((!Ran[0] || (!cancel && !Ran[1])) && vcthr::Runnable(1)) vcthr::Switch();
		ENSURES("every task runs once its time has come", Ran[0] == 1 && (Ran[1] == 1 || cancel) && Ran[1] <= 1);
		ENSURES("the earlier task runs first", cancel || !inTime || Order[0] == 1);
		b.Reset(); Dead[1] = true; a.Reset(); Dead[0] = true;
		Pass(100);
		COVER("timed");
	}
	ENSURES("nothing runs twice", Ran[0] == 1 && Ran[1] <= 1);
}
PROOF(C37_timer_timeouts) { vc_bounded("two threads, two timeouts, one unforced switch"); Timeouts(false, 1); }
PROOF(C37_timer_cancelled) { vc_bounded("two threads, two timeouts, one unforced switch"); Timeouts(true, 1); }
PROOF(C37_timer_periodic)
{
	vc_bounded("two threads, one periodic timer, one unforced switch");
	Begin(1); ClearTasks();
	{
		for (int i = 0; i < 4; ++i) Guarded[i] = true;	// by their life tokens
		Timer t("t", null, &Failed);
		At(0, 10);
		Token a = t.SetTimer(TimeDuration(10), Task(0));
		for (int i = 0; i < 2; ++i) if (vcthr::Runnable(1) && Runs < 3) vcthr::Switch();
		ENSURES("a periodic timer runs at most once per period", (u64)Runs <= (Clock - 1000) / 10000);
		a.Reset(); Dead[0] = true;
		Pass(100);
		COVER("timed");
	}
}
PROOF(C37_timer_destroyed)
{
	vc_bounded("two threads, three tasks, up to two unforced switches");
	Begin(2); ClearTasks();
	Token late, soon;
	{
		for (int i = 0; i < 4; ++i) Guarded[i] = true;	// by their life tokens
		Timer t("t", null, &Failed);
		t.AddTask(Task(0));
		At(1, 10); soon = t.SetTimeout(TimeDuration(10), Task(1));
		At(2, 1000); late = t.SetTimeout(TimeDuration(1000), Task(2));
		if (vc_pick(2)) Pass(20);
	}
	ENSURES("tasks whose time has come run before the timer ends", Ran[0] == 1 && Ran[1] == (Clock >= Due[1] ? Ran[1] : 0) && Ran[1] <= 1);
	for (int i = 0; i < 4; ++i) Dead[i] = true;
	late.Reset(); soon.Reset();
}

PROOF(C37_pool)
{
	vc_bounded("one worker, two tasks, up to two unforced switches");
	Begin(2); ClearTasks();
	{
		ThreadPool p("p", 1, null, null, &Failed);
		DummyCancellationToken token;
		p.Queue(PoolTask(0));
		const bool can = p.CanQueue();
		const bool second = p.TryQueue(PoolTask(1));
		ENSURES("a pool that can take a task takes it", !can || second);
		ENSURES("a pool takes no second task while one is pending", !second || Ran[0] == 1);
		if (!second) p.WaitQueue(PoolTask(1), token);
		while (!Ran[1] && vcthr::Runnable(1)) vcthr::Switch();
		ENSURES("every task runs once", Ran[0] == 1 && Ran[1] == 1);
		ENSURES("tasks run in the order they were added", Order[0] == 0 && Order[1] == 1);
		COVER("pooled");
	}
}
static Token* Own;
struct LastTask
{
	typedef void RetType; int id; explicit LastTask(int i) : id(i) { }
	void operator() () const { ++Ran[id]; Own->Reset(); ENSURES("a task that cancels its own timer is kept to its end", id == 3); Dead[id] = true; }
};
PROOF(C37_timer_cancels_itself)
{
	vc_bounded("two threads, one periodic timer, one unforced switch");
	Begin(1); ClearTasks();
	{
		Token own; Own = &own;
		Timer t("t", null, &Failed);
		vcthr::Atomic = true;		// the token is kept before the timer looks at the task
		own = t.SetTimer(TimeDuration(10), LastTask(3));
		vcthr::Atomic = false;
		while (!Ran[3] && vcthr::Runnable(1)) vcthr::Switch();
		Pass(100);
	}
	ENSURES("a cancelled timer never runs again", Ran[3] == 1);
}
