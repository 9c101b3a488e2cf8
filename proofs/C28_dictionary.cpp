// C28 transactional dictionaries: what others see while a transaction is open, what the transaction shows, commit, revert and the difference, against a model.
// @sources: toolkit.cpp self_counter.cpp shared_ptr.cpp signal/signal_policies.cpp thread/TaskLifeToken.cpp thread/DummyCancellationToken.cpp thread/posix/PosixConditionVariable.cpp
// @opt: fork_select=true
// @opt: max_steps=60000000
// @nocut: ^stingray::[A-Za-z]*StringBuilder
// @replace: pthread_mutex_trylock => trylock
// @replace: pthread_mutex_lock => lock
// @replace: pthread_mutex_unlock => unlock
// @replace: pthread_cond_wait => cond_wait
// @replace: pthread_cond_broadcast => cond_wake
// @replace: pthread_cond_signal => cond_wake
// @replace: stingray::PosixThreadEngine::GetCurrentThreadId => thread_id
// @replace: stingray::PosixCallOnce::CallOnce => call_once
// @replace: .*::EntryType::EntryType\(\) => first_value
// @replace: stingray::signal_policies::exception_handling::DefaultSignalExceptionHandler => caught
#include <vc_threads.h>
#include <stingraykit/collection/TransactionalDictionary.h>
using namespace stingray;

// the default value of an enum class is its first value
extern "C" __attribute__((used, noinline)) void vckeep__first_value(int* self) { *self = 0; }
static int Caught;
extern "C" __attribute__((used, noinline)) void vckeep__caught(const std::exception&) { ++Caught; }

typedef TransactionalDictionary<u32, u32> Dict;
typedef KeyValuePair<u32, u32> Pair;
typedef DiffEntry<Pair> Entry;
typedef shared_ptr<IEnumerator<Pair> > PairEnumerator;

struct Content
{
	bool has[3]; u32 value[3];
	Content() { for (int i = 0; i < 3; ++i) { has[i] = false; value[i] = 0; } }
	size_t Count() const { return (size_t)has[0] + has[1] + has[2]; }
	bool Same(const Content& o) const { bool r = true; for (int i = 0; i < 3; ++i) r &= has[i] == o.has[i] && (!has[i] || value[i] == o.value[i]); return r; }
	void Apply(const Entry& e)
	{
		const u32 k = e.Item.Key;
		ENSURES("a difference names keys of the dictionary", k == 0 || k == 5 || k == 10);
		if (e.Op == CollectionOp::Removed) { ENSURES("only what is there with that value is reported removed", has[k / 5] && value[k / 5] == e.Item.Value); has[k / 5] = false; }
		else { ENSURES("only what is not there is reported added", e.Op == CollectionOp::Added && !has[k / 5]); has[k / 5] = true; value[k / 5] = e.Item.Value; }
	}
	// the elements from the given one on, in the given direction
	void Yields(PairEnumerator e, int from, int step) const
	{
		for (int i = from; i >= 0 && i < 3; i += step)
		{
			if (!has[i]) continue;
			ENSURES("enumeration yields every element in order", e->Valid() && e->Get().Key == (u32)i * 5 && e->Get().Value == value[i]);
			e->Next();
		}
		ENSURES("enumeration ends after the last element", !e->Valid());
	}
	template < typename D > void Shows(const D& d) const
	{
		ENSURES("the number of elements", d.GetCount() == Count() && d.IsEmpty() == (Count() == 0));
		for (int i = 0; i < 3; ++i)
		{
			u32 v = 77;
			const bool there = d.TryGet(i * 5, v);
			ENSURES("what a key maps to", there == has[i] && d.ContainsKey(i * 5) == has[i] && v == (has[i] ? value[i] : 77) && (!has[i] || d.Get(i * 5) == value[i]));
		}
		Yields(d.GetEnumerator(), 0, 1);
		Yields(d.Reverse()->GetEnumerator(), 2, -1);
	}
	template < typename D > void Finds(const D& d) const
	{
		const int k = vc_pick(3);
		if (has[k]) { Yields(d.Find(k * 5), k, 1); Yields(d.ReverseFind(k * 5), k, -1); }
		else ENSURES("what is not there is not found", !d.Find(k * 5)->Valid() && !d.ReverseFind(k * 5)->Valid());
	}
};
struct Observer
{
	Content content; int calls;
	Observer() : calls(0) { }
	void On(const Dict::DiffTypePtr& diff) { ++calls; for (shared_ptr<IEnumerator<Entry> > e = diff->GetEnumerator(); e->Valid(); e->Next()) content.Apply(e->Get()); }
};
struct SmallKey { typedef bool RetType; u32 x; bool operator() (u32 k, u32) const { return k < x; } };

static void Op(IDictionaryTransaction<u32, u32>& t, Content& c, bool oneKey)
{
	const u32 k = oneKey ? 1 : (u32)vc_pick(3); const u32 v = ANY(u32);
	switch (vc_pick(4))
	{
	case 0: ENSURES("adding says whether the key was new", t.Add(k * 5, v) == !c.has[k]); if (!c.has[k]) { c.has[k] = true; c.value[k] = v; } break;
	case 1: t.Set(k * 5, v); c.has[k] = true; c.value[k] = v; break;
	case 2: ENSURES("removing says whether the key was there", t.Remove(k * 5) == c.has[k]); c.has[k] = false; break;
	case 3:
		if (k == 0) { t.Clear(); c = Content(); break; }
		const size_t n = c.Count(); const size_t r = t.RemoveWhere(SmallKey{k * 5 + 1});
		for (u32 i = 0; i <= k; ++i) c.has[i] = false;
		ENSURES("removing by condition tells how many", r == n - c.Count()); break;
	}
}
static void Fill(Dict& d, Content& c, int mask)
{
	Dict::TransactionTypePtr t = d.StartTransaction();
	for (int i = 0; i < 3; ++i) if (mask >> i & 1) { c.has[i] = true; c.value[i] = ANY(u32); t->Set(i * 5, c.value[i]); }
	t->Commit();
}
enum End { Commits, Reverts, Applies, Finds };
static void Run(int mask, int ops, bool oneKey, End end)
{
	vc_bounded("dictionaries of up to three keys, transactions of up to three changes");
	vcthr::Reset(); Caught = 0;
	{
		Dict d; Content before;
		Fill(d, before, mask);
		Observer early;
		Token c1 = d.OnChanged().connect(Bind(&Observer::On, &early, _1));
		ENSURES("a new observer is told the content", early.content.Same(before));
		early.calls = 0;
		PairEnumerator outer = d.GetEnumerator();
		Dict::TransactionTypePtr t = d.StartTransaction();
		Content now = before;
		for (int i = 0; i < ops; ++i)
		{
			const Content was = now;
			PairEnumerator snapshot = t->GetEnumerator();
			if (end == Reverts) t->Diff();
			Op(*t, now, oneKey);
			was.Yields(snapshot, 0, 1);
		}
		now.Shows(*t);
		if (end == Finds) now.Finds(*t);
		before.Shows(d);
		ENSURES("nothing is reported while the transaction is open", early.calls == 0);
		const bool dirty = t->IsDirty();
		ENSURES("a transaction that changed the content has changes", dirty || now.Same(before));
		shared_ptr<IEnumerable<Entry> > diff = t->Diff();
		{
			Content c = before;
			for (shared_ptr<IEnumerator<Entry> > e = diff->GetEnumerator(); e->Valid(); e->Next()) c.Apply(e->Get());
			ENSURES("the difference turns the old content into the new one", c.Same(now));
		}
		shared_ptr<IEnumerator<Entry> > entries = diff->GetEnumerator();
		if (end == Applies)		// the same changes again, as the difference tells them
		{
			t->Revert();
			before.Shows(*t);
			for (; entries->Valid(); entries->Next()) t->Apply(entries->Get());
			now.Shows(*t);
		}
		if (end == Reverts)
		{
			t->Revert();
			now = before;
			ENSURES("a reverted transaction has no changes", !t->IsDirty() && !t->Diff()->GetEnumerator()->Valid());
			t->Commit();
			ENSURES("a reverted transaction reports nothing", early.calls == 0);
			COVER("reverted");
		}
		else
		{
			t->Commit();
			if (end == Finds) now.Finds(d);
			ENSURES("a commit is reported once", early.calls == (dirty ? 1 : 0) && early.content.Same(now));
			COVER("committed");
		}
		now.Shows(d);
		ENSURES("after the end no changes are left", !t->IsDirty());
		before.Yields(outer, 0, 1);
		if (end == Commits) now.Shows(*t);
		t.reset();
		t = d.StartTransaction();
		if (end == Reverts) now.Shows(*t);
		ENSURES("a new transaction has no changes", !t->IsDirty());
	}
	ENSURES("nothing is thrown in an observer", Caught == 0);
}
PROOF(C28_dictionary_commit) { Run(5, 2, false, Commits); }
PROOF(C28_dictionary_commit_one) { Run(2, 2, false, Commits); }
PROOF(C28_dictionary_revert) { Run(6, 2, false, Reverts); }
PROOF(C28_dictionary_apply) { Run(3, 2, false, Applies); }
PROOF(C28_dictionary_find) { Run(7, 1, false, Finds); }
PROOF(C28_dictionary_find_some) { Run(1 << vc_pick(3), 1, false, Finds); }
PROOF(C28_dictionary_key_3) { Run(vc_pick(2) * 2, 3, true, Commits); }
