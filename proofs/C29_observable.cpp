// C29 observable collections: observers replaying the notifications, over histories of every operation.
// @sources: toolkit.cpp self_counter.cpp shared_ptr.cpp signal/signal_policies.cpp thread/TaskLifeToken.cpp
// @opt: fork_select=true
// @opt: max_steps=60000000
// @nocut: ^stingray::[A-Za-z]*StringBuilder
// @replace: pthread_mutex_trylock => trylock
// @replace: pthread_mutex_lock => lock
// @replace: pthread_mutex_unlock => unlock
// @replace: stingray::PosixThreadEngine::GetCurrentThreadId => thread_id
// @replace: stingray::signal_policies::exception_handling::DefaultSignalExceptionHandler => caught
#include <vc_threads.h>
#include <stingraykit/collection/ArrayObservableList.h>
#include <stingraykit/collection/SortedObservableSet.h>
#include <stingraykit/collection/MapObservableDictionary.h>
using namespace stingray;

static int Caught;
extern "C" __attribute__((used, noinline)) void vckeep__caught(const std::exception&) { ++Caught; }
static u32 Pick3() { return (u32)vc_pick(3) * 5; }

// ---- lists
struct ListCopy
{
	u32 d[12]; size_t n; int events;
	ListCopy() : n(0), events(0) { }
	void On(CollectionOp op, size_t i, u32 v)
	{
		++events;
		if (op == CollectionOp::Added) { ENSURES("an element is added inside the list", i <= n); for (size_t k = n; k > i; --k) d[k] = d[k - 1]; d[i] = v; ++n; }
		else if (op == CollectionOp::Removed) { ENSURES("the element reported removed is the one at that index", i < n && d[i] == v); for (size_t k = i; k + 1 < n; ++k) d[k] = d[k + 1]; --n; }
		else { ENSURES("an element of the list is updated", i < n); d[i] = v; }
	}
	void Same(const ArrayObservableList<u32>& l) const
	{
		ENSURES("the copy has the size of the list", l.GetCount() == n && l.IsEmpty() == (n == 0));
		size_t k = 0;
		for (shared_ptr<IEnumerator<u32> > e = l.GetEnumerator(); e->Valid(); e->Next()) { ENSURES("the copy has the elements of the list in order", k < n && e->Get() == d[k]); ++k; }
		ENSURES("the list enumerates what it holds", k == n);
	}
};
struct Even { typedef bool RetType; u32 x; bool operator() (u32 v) const { return v == x; } };

static void ListOp(ArrayObservableList<u32>& l, ListCopy& c)
{
	const int before = c.events; const size_t n = l.GetCount();
	switch (vc_pick(6))
	{
	case 0: l.Add(ANY(u32)); ENSURES("adding reports one element", c.events == before + 1); break;
	case 1: { const size_t i = vc_pick(3); if (i > n) return; l.Insert(i, ANY(u32)); ENSURES("inserting reports one element", c.events == before + 1); break; }
	case 2: { const size_t i = vc_pick(3); if (i >= n) return; const u32 v = ANY(u32); l.Set(i, v); ENSURES("setting stores the value", l.Get(i) == v); break; }
	case 3: { const size_t i = vc_pick(3); if (i >= n) return; l.RemoveAt(i); ENSURES("removing reports one element", c.events == before + 1); break; }
	case 4: { const u32 v = ANY(u32); const bool had = l.Contains(v); ENSURES("removing says whether the element was there", l.Remove(v) == had); ENSURES("removing what is not there reports nothing", c.events == before + (had ? 1 : 0)); break; }
	case 5: if (vc_pick(2)) { l.Clear(); ENSURES("clearing reports every element", l.IsEmpty() && c.events == before + (int)n); }
		else { const size_t r = l.RemoveAll(Even{ANY(u32)}); ENSURES("removing by condition reports every element removed", l.GetCount() == n - r && c.events == before + (int)r); } break;
	}
}
static void List(int prefix, int ops)
{
	vc_bounded("histories of up to two changes on up to three elements");
	vcthr::Reset(); Caught = 0;
	{
		ArrayObservableList<u32> l; ListCopy c;
		Token t = l.OnChanged().connect(Bind(&ListCopy::On, &c, _1, _2, _3));
		for (int i = 0; i < prefix; ++i) l.Add(ANY(u32));
		for (int i = 0; i < ops; ++i) { ListOp(l, c); c.Same(l); }
		ListCopy late;
		Token t2 = l.OnChanged().connect(Bind(&ListCopy::On, &late, _1, _2, _3));
		late.Same(l);
		t.Reset();
		const int seen = c.events;
		l.Add(1);
		late.Same(l);
		ENSURES("an observer that left hears nothing", c.events == seen);
		COVER("observed");
	}
	ENSURES("nothing is thrown in an observer", Caught == 0);
}
PROOF(C29_list_1) { List(3, 1); }
PROOF(C29_list_2) { List(1, 2); }
PROOF(C29_list_2b) { List(2, 2); }

// ---- sets
struct SetCopy
{
	bool has[3]; int events;
	SetCopy() : events(0) { has[0] = has[1] = has[2] = false; }
	void On(CollectionOp op, u32 v)
	{
		++events;
		ENSURES("notifications name elements of the set", v % 5 == 0 && v / 5 < 3);
		ENSURES("a set reports additions and removals", op == CollectionOp::Added || op == CollectionOp::Removed);
		ENSURES("only changes are reported", has[v / 5] == (op == CollectionOp::Removed));
		has[v / 5] = op == CollectionOp::Added;
	}
	size_t Count() const { return (size_t)has[0] + has[1] + has[2]; }
	void Same(const SortedObservableSet<u32>& s) const
	{
		ENSURES("the copy has the size of the set", s.GetCount() == Count() && s.IsEmpty() == (Count() == 0));
		for (u32 i = 0; i < 3; ++i) ENSURES("the copy has the elements of the set", s.Contains(i * 5) == has[i]);
		size_t k = 0; u32 last = 0;
		for (shared_ptr<IEnumerator<u32> > e = s.GetEnumerator(); e->Valid(); e->Next()) { const u32 v = e->Get(); ENSURES("the set enumerates its elements in order", has[v / 5] && (!k || v > last)); last = v; ++k; }
		ENSURES("the set enumerates what it holds", k == Count());
	}
};
struct Below { typedef bool RetType; u32 x; bool operator() (u32 v) const { return v < x; } };
static void SetOp(SortedObservableSet<u32>& s, SetCopy& c)
{
	const int before = c.events; const size_t n = c.Count();
	switch (vc_pick(4))
	{
	case 0: { const u32 v = Pick3(); const bool had = c.has[v / 5]; ENSURES("adding says whether it changed the set", s.Add(v) == !had); ENSURES("adding what is there reports nothing", c.events == before + !had); break; }
	case 1: { const u32 v = Pick3(); const bool had = c.has[v / 5]; ENSURES("removing says whether it changed the set", s.Remove(v) == had); ENSURES("removing what is not there reports nothing", c.events == before + had); break; }
	case 2: s.Clear(); ENSURES("clearing reports every element", c.events == before + (int)n && s.IsEmpty()); break;
	case 3: { const u32 x = Pick3() + 1; const size_t r = s.RemoveWhere(Below{x}); ENSURES("removing by condition reports every element removed", c.events == before + (int)r && c.Count() == n - r); for (u32 i = 0; i < 3; ++i) ENSURES("what fulfils the condition is gone", i * 5 >= x || !c.has[i]); break; }
	}
}
PROOF(C29_set)
{
	vc_bounded("sets of up to three elements, histories of up to two changes");
	vcthr::Reset(); Caught = 0;
	{
		SortedObservableSet<u32> s; SetCopy c;
		const u64 start = vc_pick(8);
		Token t = s.OnChanged().connect(Bind(&SetCopy::On, &c, _1, _2));
		for (u32 i = 0; i < 3; ++i) if (start >> i & 1) s.Add(i * 5);
		for (int i = 0; i < 2; ++i) { SetOp(s, c); c.Same(s); }
		SetCopy late;
		Token t2 = s.OnChanged().connect(Bind(&SetCopy::On, &late, _1, _2));
		ENSURES("a late observer first hears every element once", late.events == (int)c.Count());
		late.Same(s);
		COVER("observed");
	}
	ENSURES("nothing is thrown in an observer", Caught == 0);
}

// ---- dictionaries
typedef MapObservableDictionary<u32, u32> Dict;
struct DictCopy
{
	bool has[3]; u32 val[3]; int events; CollectionOp last;
	DictCopy() : events(0), last(CollectionOp::Added) { has[0] = has[1] = has[2] = false; val[0] = val[1] = val[2] = 0; }
	void On(CollectionOp op, u32 k, u32 v)
	{
		++events; last = op;
		ENSURES("notifications name keys of the dictionary", k % 5 == 0 && k / 5 < 3);
		ENSURES("additions are new keys, updates and removals existing ones", has[k / 5] == (op != CollectionOp::Added));
		if (op == CollectionOp::Removed) ENSURES("the value reported removed is the one held", val[k / 5] == v);
		has[k / 5] = op != CollectionOp::Removed; val[k / 5] = v;
	}
	size_t Count() const { return (size_t)has[0] + has[1] + has[2]; }
	void Same(const Dict& s) const
	{
		ENSURES("the copy has the size of the dictionary", s.GetCount() == Count() && s.IsEmpty() == (Count() == 0));
		for (u32 i = 0; i < 3; ++i) { u32 v = 0; ENSURES("the copy has the keys of the dictionary", s.ContainsKey(i * 5) == has[i] && s.TryGet(i * 5, v) == has[i]); if (has[i]) ENSURES("the copy has the values of the dictionary", v == val[i] && s.Get(i * 5) == v); }
		size_t k = 0;
		for (shared_ptr<IEnumerator<KeyValuePair<u32, u32> > > e = s.GetEnumerator(); e->Valid(); e->Next()) { const KeyValuePair<u32, u32> p = e->Get(); ENSURES("the dictionary enumerates its pairs", has[p.Key / 5] && val[p.Key / 5] == p.Value); ++k; }
		ENSURES("the dictionary enumerates what it holds", k == Count());
	}
};
struct KeyBelow { typedef bool RetType; u32 x; bool operator() (u32 k, u32) const { return k < x; } };
static void DictOp(Dict& s, DictCopy& c)
{
	const int before = c.events; const size_t n = c.Count();
	switch (vc_pick(5))
	{
	case 0: { const u32 k = Pick3(); const bool had = c.has[k / 5]; ENSURES("adding says whether it changed the dictionary", s.Add(k, ANY(u32)) == !had); ENSURES("adding a key that is there reports nothing", c.events == before + !had); break; }
	case 1: { const u32 k = Pick3(); const bool had = c.has[k / 5]; ENSURES("removing says whether it changed the dictionary", s.Remove(k) == had); ENSURES("removing what is not there reports nothing", c.events == before + had); break; }
	case 2: s.Clear(); ENSURES("clearing reports every pair", c.events == before + (int)n && s.IsEmpty()); break;
	case 3: { const u32 x = Pick3() + 1; const size_t r = s.RemoveWhere(KeyBelow{x}); ENSURES("removing by condition reports every pair removed", c.events == before + (int)r && c.Count() == n - r); for (u32 i = 0; i < 3; ++i) ENSURES("what fulfils the condition is gone", i * 5 >= x || !c.has[i]); break; }
	case 4: { const u32 k = Pick3(), v = ANY(u32); const bool had = c.has[k / 5]; s.Set(k, v); ENSURES("setting reports an addition or an update", c.events == before + 1 && c.last == (had ? CollectionOp::Updated : CollectionOp::Added) && s.Get(k) == v); break; }
	}
}
PROOF(C29_dict)
{
	vc_bounded("dictionaries of up to three keys, histories of up to two changes");
	vcthr::Reset(); Caught = 0;
	{
		Dict s; DictCopy c;
		const u64 start = vc_pick(8);
		Token t = s.OnChanged().connect(Bind(&DictCopy::On, &c, _1, _2, _3));
		for (u32 i = 0; i < 3; ++i) if (start >> i & 1) s.Add(i * 5, ANY(u32));
		for (int i = 0; i < 2; ++i) { DictOp(s, c); c.Same(s); }
		DictCopy late;
		Token t2 = s.OnChanged().connect(Bind(&DictCopy::On, &late, _1, _2, _3));
		ENSURES("a late observer first hears every pair once", late.events == (int)c.Count());
		late.Same(s);
		COVER("observed");
	}
	ENSURES("nothing is thrown in an observer", Caught == 0);
}
