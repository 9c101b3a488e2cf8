// C30 signals: histories of connecting, disconnecting and emitting, re-entrant changes included, and another thread at every lock operation.
// @sources: toolkit.cpp self_counter.cpp shared_ptr.cpp signal/signal_policies.cpp thread/TaskLifeToken.cpp
// @opt: fork_select=true
// @opt: max_steps=60000000
// @replace: pthread_mutex_trylock => trylock
// @replace: pthread_mutex_lock => lock
// @replace: pthread_mutex_unlock => unlock
// @replace: stingray::PosixThreadEngine::GetCurrentThreadId => thread_id
// @replace: stingray::signal_policies::exception_handling::DefaultSignalExceptionHandler => caught
#include <vc_threads.h>
#include <stingraykit/signal/signals.h>
using namespace stingray;

static const int N = 4, L = 12;
static int Caught;
extern "C" __attribute__((used, noinline)) void vckeep__caught(const std::exception&) { ++Caught; }

static int Log[L], LogN; static u32 LogValue;		// the handlers called, in order
static bool Gone[N];								// disconnect returned
static int Running[N];
static Token Tokens[N];
static int Thrower, Victim, VictimOf;				// handler that throws; handler that disconnects another (-1: none)
struct Failure : public std::exception { };
static void Disconnect(int i) { Tokens[i].Reset(); Gone[i] = true; ENSURES("disconnect returns when the handler does not run", !Running[i] || vcthr::Current == 0); }
template < int I > static void Handler(u32 v)
{
	ENSURES("a disconnected handler is not called", !Gone[I]);
	Log[LogN++] = I; LogValue = v;
	++Running[I];
	vcthr::Point();
	ENSURES("a disconnected handler is not running", !Gone[I]);
	if (VictimOf == I && Victim != I) Disconnect(Victim);
	--Running[I];
	if (Thrower == I) throw Failure();
}
static function<void (u32)> Func(int i) { switch (i) { case 0: return &Handler<0>; case 1: return &Handler<1>; case 2: return &Handler<2>; default: return &Handler<3>; } }
static void Start() { vcthr::Reset(); Caught = LogN = 0; Thrower = Victim = VictimOf = -1; for (int i = 0; i < N; ++i) { Gone[i] = false; Running[i] = 0; } }
static void End() { for (int i = 0; i < N; ++i) Tokens[i].Reset(); ENSURES("all locks released", !vcthr::Held(0)); }

// the connected handlers, in order
struct Order { int h[N]; int n; Order() : n(0) { } void Add(int i) { h[n++] = i; } void Erase(int i) { for (int k = 0; k < n; ++k) if (h[k] == i) { for (int j = k + 1; j < n; ++j) h[j - 1] = h[j]; --n; return; } } };

template < typename Signal, bool Threadsafe > static void History()
{
	Start();
	Signal s; Order o; u32 v = 0; int next = 0;
	for (int step = 0; step < 5; ++step)
	{
		const u32 op = vc_pick(2);
		if (op == 0 && next < N) { Tokens[next] = vc_pick(2) ? s.connect(Func(next)) : s.connector().connect(Func(next)); ENSURES("a connection is given", Tokens[next].IsInitialized()); o.Add(next++); }
		else if (op == 1 && o.n) { const int i = o.h[vc_pick(o.n)]; Disconnect(i); o.Erase(i); }
	}
	v = ANY(u32); LogN = 0;
	if (o.n) { Thrower = vc_pick(o.n + 1) ? o.h[0] : -1; }
	if (vc_pick(2)) s(v); else s.invoker()(v);
	ENSURES("every connected handler once, in order", LogN == o.n);
	for (int i = 0; i < LogN; ++i) ENSURES("every connected handler once, in order", Log[i] == o.h[i]);
	ENSURES("the argument", !o.n || LogValue == v);
	ENSURES("an exception of a handler is handed over", Caught == (Thrower >= 0));
	COVER("done");
	End();
}
PROOF(C30_history) { vc_bounded("five connections and disconnections before an emission"); History<signal<void (u32)>, true>(); }
PROOF(C30_history_threadless) { vc_bounded("five connections and disconnections before an emission"); History<signal<void (u32), signal_policies::threading::Threadless>, false>(); }
PROOF(C30_history_lazy) { vc_bounded("five connections and disconnections before an emission"); History<signal<void (u32), signal_policies::threading::Multithreaded, signal_policies::exception_handling::Null, signal_policies::populators::Null, signal_policies::connection_policy_control::Null, signal_policies::creation::Lazy>, true>(); }

// a handler disconnects another one during the emission
PROOF(C30_reentrant_disconnect)
{
	vc_bounded("three handlers");
	Start();
	signal<void (u32)> s;
	for (int i = 0; i < 3; ++i) Tokens[i] = s.connect(Func(i));
	VictimOf = vc_pick(3); Victim = vc_pick(3); REQUIRES(Victim != VictimOf);
	s(7);
	ENSURES("the others are called once, in order", LogN == (Victim > VictimOf ? 2 : 3));
	LogN = 0; s(8);
	ENSURES("the remaining handlers once", LogN == 2 && Log[0] < Log[1] && Log[0] != Victim && Log[1] != Victim);
	COVER("done");
	End();
}

// emission as thread 0, disconnect or connect by another thread at any point
static signal<void (u32)>* Sig;
static void OtherDisconnects() { Disconnect(1); }
static void OtherConnects() { Tokens[3] = Sig->connect(Func(3)); }
static void OtherEmits() { (*Sig)(9); }
PROOF(C30_emit_against_disconnect)
{
	vc_bounded("three handlers");
	Start();
	signal<void (u32)> s; Sig = &s;
	for (int i = 0; i < 3; ++i) Tokens[i] = s.connect(Func(i));
	vcthr::Reset(&OtherDisconnects);
	s(7);
	int seen[N] = { 0, 0, 0, 0 };
	for (int i = 0; i < LogN; ++i) ++seen[Log[i]];
	ENSURES("the connected handlers once", seen[0] == 1 && seen[2] == 1 && seen[1] <= 1 && (seen[1] || vcthr::Budget == 0));
	vcthr::Finish(); vcthr::Reset();
	LogN = 0; s(8);
	ENSURES("not the disconnected one", LogN == 2 && Log[0] == 0 && Log[1] == 2);
	COVER("done");
	End();
}
PROOF(C30_emit_against_connect)
{
	vc_bounded("three handlers");
	Start();
	signal<void (u32)> s; Sig = &s;
	for (int i = 0; i < 3; ++i) Tokens[i] = s.connect(Func(i));
	vcthr::Reset(&OtherConnects);
	s(7);
	ENSURES("the handlers connected before, once, in order", LogN >= 3 && LogN <= 4 && Log[0] == 0 && Log[1] == 1 && Log[2] == 2 && (LogN == 3 || Log[3] == 3));
	vcthr::Finish(); vcthr::Reset();
	LogN = 0; s(8);
	ENSURES("all handlers", LogN == 4 && Log[3] == 3);
	COVER("done");
	End();
}
PROOF(C30_disconnect_against_emit)
{
	vc_bounded("three handlers");
	Start();
	signal<void (u32)> s; Sig = &s;
	for (int i = 0; i < 3; ++i) Tokens[i] = s.connect(Func(i));
	vcthr::Reset(&OtherEmits);
	Disconnect(1);
	vcthr::Finish();
	ENSURES("the other handlers", LogN == 2 || LogN == 3);
	COVER("done");
	End();
}

// a late subscriber first receives the current state
static void Populate(const function<void (u32)>& slot) { slot(41); slot(42); }
static u32 Received[4]; static int ReceivedN;
static void Receive(u32 v) { Received[ReceivedN++] = v; }
PROOF(C30_populator)
{
	Start(); ReceivedN = 0;
	signal<void (u32)> s((function<void (const function<void (u32)>&)>(&Populate)));
	const bool want = vc_pick(2);
	Token t = vc_pick(2) ? s.connect(&Receive, want) : s.connector().connect(&Receive, want);
	ENSURES("the current state on connection, if wanted", ReceivedN == (want ? 2 : 0) && (!want || (Received[0] == 41 && Received[1] == 42)));
	ReceivedN = 0;
	s(5);
	ENSURES("then the emissions", ReceivedN == 1 && Received[0] == 5);
	t.Reset(); s(6);
	ENSURES("not after the disconnect", ReceivedN == 1);
	ReceivedN = 0; s.SendCurrentState(&Receive);
	ENSURES("the current state on demand", ReceivedN == 2);
	COVER("done");
	End();
}
// a connection outlives its signal; a signal outlives its connections
PROOF(C30_lifetimes)
{
	Start();
	const size_t blocks = vc_live();
	{
		signal<void (u32)>* s = new signal<void (u32)>();
		Tokens[0] = s->connect(Func(0)); Tokens[1] = Tokens[0];
		(*s)(1); ENSURES("called", LogN == 1);
		if (vc_pick(2)) { Tokens[0].Reset(); (*s)(2); ENSURES("a copied connection keeps the handler", LogN == 2); Tokens[1].Reset(); (*s)(3); ENSURES("the last copy disconnects", LogN == 2); delete s; }
		else { const signal_connector<void (u32)> c(s->connector()); delete s; Token t = c.connect(Func(2)); ENSURES("a connector outlives the signal", t.IsInitialized()); }
		End();
	}
	ENSURES("all storage released", vc_live() == blocks);
	COVER("done");
}
