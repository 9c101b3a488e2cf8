// C35 futures and promises: every history of fulfilment, abandonment and observation, with the fulfilling or the waiting side as the other thread.
// @sources: toolkit.cpp self_counter.cpp shared_ptr.cpp thread/posix/PosixConditionVariable.cpp thread/DummyCancellationToken.cpp 
// @nocut: ^stingray::[A-Za-z]+Exception::[A-Za-z]+Exception
// @opt: fork_select=true
// @opt: max_steps=40000000
// @replace: pthread_mutex_trylock => trylock
// @replace: pthread_mutex_lock => lock
// @replace: pthread_mutex_unlock => unlock
// @replace: pthread_cond_wait => cond_wait
// @replace: pthread_cond_broadcast => cond_wake
// @replace: pthread_cond_signal => cond_wake
// @replace: stingray::PosixThreadEngine::GetCurrentThreadId => thread_id
// @replace: stingray::PosixCallOnce::CallOnce => call_once
// @replace: .*stingray::diagnostic_information => diagnostics
#include <vc_threads.h>
#include <stingraykit/future.h>
using namespace stingray;

struct Odd : public std::exception { u32 code; explicit Odd(u32 c) : code(c) { } const char* what() const noexcept override { return "odd"; } };
// the text kept of an exception: for the proof, which exception it was
extern "C" __attribute__((used, noinline)) std::string vckeep__diagnostics(const std::exception& ex)
{
	if (const Odd* o = dynamic_cast<const Odd*>(&ex)) return o->code & 1 ? "A" : "B";
	return dynamic_cast<const BrokenPromise*>(&ex) ? "broken" : "?";
}
enum Kind { Pending, Value, Failure, Broken };

template < typename F > static void Observe(const F& f, Kind k, u32 v, bool last)	// last: also consume
{
	ENSURES("readiness", f.valid() && f.is_ready() == (k != Pending) && f.has_value() == (k == Value) && f.has_exception() == (k == Failure || k == Broken));
	if (k == Pending) return;
	ENSURES("waiting for a fulfilled future returns at once", f.wait() == future_status::ready);
}
template < typename F > static void Take(F& f, Kind k, u32 v)
{
	Kind got = Pending; u32 code = 0;
	try { code = f.get(); got = Value; }
	catch (const RethrownException& e) { const char c = *e.what(); got = c == 'b' ? Broken : Failure; code = c == 'A' ? 1 : c == 'B' ? 2 : 3; }
	ENSURES("the value or exception of the promise", got == k && (k == Value ? code == v : k == Failure ? code == (v & 1 ? 1 : 2) : code == 3));
}

static u32 V; static Kind K; static promise<u32>* P_;
static void Fulfil()
{
	switch (K)
	{
	case Value: P_->set_value(V); break;
	case Failure: P_->set_exception(MakeExceptionPtr(Odd(V))); break;
	default: delete P_; P_ = 0; break;
	}
}

// one thread: fulfil, try to fulfil again, observe through every kind of future, in any order
PROOF(C35_history)
{
	vcthr::Reset();
	P_ = new promise<u32>();
	future<u32> f(P_->get_future());
	bool again = false;
	try { P_->get_future(); } catch (const FutureAlreadyRetrieved&) { again = true; }
	ENSURES("the future is given out once", again);
	Observe(f, Pending, 0, false);
	V = ANY(u32); const u32 v = V;
	K = (Kind)(1 + vc_pick(3)); const Kind k = K;
	Fulfil();
	Observe(f, k, v, false);
	if (P_)
	{
		bool refused = false;
		switch (vc_pick(4))
		{
		case 0: try { P_->set_value(V + 1); } catch (const PromiseAlreadySatisfied&) { refused = true; } ENSURES("a second value is refused", refused); break;
		case 1: P_->set_exception(MakeExceptionPtr(Odd(V + 1))); break;
		case 2: delete P_; P_ = 0; break;
		}
	}
	Observe(f, k, v, false);
	if (vc_pick(2))
	{
		Take(f, k, v);
		ENSURES("a taken future is no longer valid", !f.valid());
		bool thrown = false;
		try { f.get(); } catch (const std::exception&) { thrown = true; }
		ENSURES("a second take is refused", thrown);
	}
	else
	{
		shared_future<u32> s(f.share());
		ENSURES("a shared future takes the place of the future", !f.valid() && s.valid());
		shared_future<u32> t(s), u;
		ENSURES("an empty shared future", !u.valid());
		u = t;
		Observe(s, k, v, false); Observe(t, k, v, false);
		Take(s, k, v); Take(t, k, v); Take(u, k, v); Take(s, k, v);
	}
	delete P_; P_ = 0;
	COVER("done");
}

// the waiter as thread 0, the fulfilment at any point of it
PROOF(C35_waiter)
{
	vcthr::Reset();
	P_ = new promise<u32>();
	future<u32> f(P_->get_future());
	V = ANY(u32); const u32 v = V; K = (Kind)(1 + vc_pick(3)); const Kind k = K;
	vcthr::Reset(&Fulfil);
	switch (vc_pick(3))
	{
	case 0: ENSURES("the wait ends when the promise is fulfilled", f.wait() == future_status::ready); Observe(f, k, v, false); Take(f, k, v); break;
	case 1: Take(f, k, v); break;
	case 2: { shared_future<u32> s(f.share()), t(s); Take(s, k, v); Take(t, k, v); break; }
	}
	vcthr::Finish();
	delete P_; P_ = 0;
	COVER("done");
}

// two threads fulfil the same promise: exactly one of them wins
static bool Won1; static u32 V1; static bool Ex1;
static void FulfilToo() { try { if (Ex1) P_->set_exception(MakeExceptionPtr(Odd(V1))); else { P_->set_value(V1); Won1 = true; } } catch (const PromiseAlreadySatisfied&) { } }
PROOF(C35_two_fulfil)
{
	vcthr::Reset();
	P_ = new promise<u32>();
	future<u32> f(P_->get_future());
	const u32 v = ANY(u32); V1 = ANY(u32); Won1 = false; Ex1 = vc_pick(2);
	vcthr::Reset(&FulfilToo);
	bool won0 = false;
	try { P_->set_value(v); won0 = true; } catch (const PromiseAlreadySatisfied&) { }
	vcthr::Finish();
	vcthr::Reset();
	if (Ex1) Take(f, won0 ? Value : Failure, won0 ? v : V1);
	else { ENSURES("exactly one value is accepted", won0 != Won1); Take(f, Value, won0 ? v : V1); }
	delete P_; P_ = 0;
	COVER("done");
}

// void and reference futures, swapped promises
PROOF(C35_void_and_swap)
{
	vcthr::Reset();
	{
		promise<void> p; future<void> f(p.get_future());
		ENSURES("pending", !f.is_ready() && !f.has_value() && !f.has_exception());
		const bool ex = vc_pick(2);
		if (ex) p.set_exception(MakeExceptionPtr(Odd(1))); else p.set_value();
		bool refused = false; try { p.set_value(); } catch (const PromiseAlreadySatisfied&) { refused = true; }
		bool thrown = false; try { f.get(); } catch (const RethrownException&) { thrown = true; }
		ENSURES("a void future", refused && thrown == ex);
	}
	{
		u32 x = ANY(u32); promise<u32&> p; future<u32&> f(p.get_future());
		p.set_value(x);
		ENSURES("a reference future", &f.get() == &x);
	}
	{
		promise<u32> a, b;
		const u32 v = ANY(u32), w = ANY(u32);
		const bool ra = vc_pick(2);
		if (ra)
		{
			future<u32> f(a.get_future());
			a.swap(b);
			b.set_value(v);
			future<u32> g(a.get_future());
			a.set_value(w);
			ENSURES("swapped promises", f.get() == v && g.get() == w);
		}
		else
		{
			a.set_value(v);
			a.swap(b);
			future<u32> f(b.get_future()), g(a.get_future());
			ENSURES("swapped promises", f.get() == v && !g.is_ready());
		}
	}
	COVER("done");
}
