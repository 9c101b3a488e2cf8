// C28 transactional lists: what others see while a transaction is open, what the transaction shows, commit, revert and the difference, against a model.
// @sources: toolkit.cpp self_counter.cpp shared_ptr.cpp signal/signal_policies.cpp thread/TaskLifeToken.cpp thread/DummyCancellationToken.cpp thread/posix/PosixConditionVariable.cpp
// @opt: fork_select=true
// @opt: max_steps=60000000
// @nocut: ^stingray::[A-Za-z]*StringBuilder
// @replace: pthread_mutex_trylock => trylock
// @replace: pthread_mutex_lock => lock
// @replace: pthread_mutex_unlock => unlock
// @replace: pthread_cond_wait => cond_wait
// @replace: pthread_cond_broadcast => cond_wake
// @replace: pthread_cond_signal => cond_wake
// @replace: stingray::PosixThreadEngine::GetCurrentThreadId => thread_id
// @replace: stingray::PosixCallOnce::CallOnce => call_once
// @replace: stingray::signal_policies::exception_handling::DefaultSignalExceptionHandler => caught
#include <vc_threads.h>
#include <stingraykit/collection/TransactionalList.h>
using namespace stingray;

static int Caught;
extern "C" __attribute__((used, noinline)) void vckeep__caught(const std::exception&) { ++Caught; }

typedef TransactionalList<u32, comparers::Equals> List;
typedef DiffEntry<KeyValuePair<size_t, u32> > Entry;
typedef shared_ptr<IEnumerator<u32> > ItemEnumerator;

struct Content
{
	u32 v[6]; int n;
	Content() : n(0) { }
	bool Same(const Content& o) const { bool r = n == o.n; for (int i = 0; i < n && r; ++i) r = v[i] == o.v[i]; return r; }
	void Insert(int at, u32 x) { for (int k = n; k > at; --k) v[k] = v[k - 1]; v[at] = x; ++n; }
	void RemoveAt(int at) { for (int k = at; k + 1 < n; ++k) v[k] = v[k + 1]; --n; }
	int IndexOf(u32 x) const { for (int i = 0; i < n; ++i) if (v[i] == x) return i; return -1; }
	void Apply(const Entry& e)
	{
		const size_t k = e.Item.Key;
		if (e.Op == CollectionOp::Removed) { ENSURES("only what is at that index is reported removed", k < (size_t)n && v[k] == e.Item.Value); RemoveAt(k); }
		else { ENSURES("an element is added inside the list", e.Op == CollectionOp::Added && k <= (size_t)n && n < 6); Insert(k, e.Item.Value); }
	}
	void Yields(ItemEnumerator e, int from, int step) const
	{
		for (int i = from; i >= 0 && i < n; i += step)
		{
			ENSURES("enumeration yields every element in order", e->Valid() && e->Get() == v[i]);
			e->Next();
		}
		ENSURES("enumeration ends after the last element", !e->Valid());
	}
	template < typename D > void Shows(const D& d) const
	{
		ENSURES("the number of elements", d.GetCount() == (size_t)n && d.IsEmpty() == (n == 0));
		u32 x = 77;
		for (int i = 0; i < n; ++i) { ENSURES("what an index holds", d.Get(i) == v[i] && d.TryGet(i, x) && x == v[i]); }
		x = 77;
		ENSURES("beyond the end there is nothing", !d.TryGet(n, x) && x == 77);
		Yields(d.GetEnumerator(), 0, 1);
		Yields(d.Reverse()->GetEnumerator(), n - 1, -1);
	}
	template < typename D > void Finds(const D& d) const
	{
		const u32 x = ANY(u32); const int at = IndexOf(x);
		const optional<size_t> r = d.IndexOf(x);
		ENSURES("the first index of a value", d.Contains(x) == (at >= 0) && r.is_initialized() == (at >= 0) && (at < 0 || *r == (size_t)at));
		bool thrown = false;
		try { d.Get(n + vc_pick(2)); } catch (const IndexOutOfRangeException&) { thrown = true; }
		ENSURES("an index beyond the end is refused", thrown);
	}
};
struct Observer
{
	Content content; int calls;
	Observer() : calls(0) { }
	void On(const List::DiffTypePtr& diff) { ++calls; for (shared_ptr<IEnumerator<Entry> > e = diff->GetEnumerator(); e->Valid(); e->Next()) content.Apply(e->Get()); }
};
struct Is { typedef bool RetType; u32 x; bool operator() (u32 v) const { return v == x; } };

static void Op(IListTransaction<u32>& t, Content& c)
{
	const u32 v = ANY(u32); bool thrown = false;
	switch (vc_pick(6))
	{
	case 0: t.Add(v); c.Insert(c.n, v); break;
	case 1:
	{
		const int at = vc_pick(c.n + 2);
		try { t.Insert(at, v); } catch (const IndexOutOfRangeException&) { thrown = true; }
		ENSURES("inserting beyond the end is refused", thrown == (at > c.n));
		if (!thrown) c.Insert(at, v);
		break;
	}
	case 2:
	{
		const int at = vc_pick(c.n + 1);
		try { t.Set(at, v); } catch (const IndexOutOfRangeException&) { thrown = true; }
		ENSURES("setting beyond the end is refused", thrown == (at >= c.n));
		if (!thrown) c.v[at] = v;
		break;
	}
	case 3:
	{
		const int at = vc_pick(c.n + 1);
		try { t.RemoveAt(at); } catch (const IndexOutOfRangeException&) { thrown = true; }
		ENSURES("removing beyond the end is refused", thrown == (at >= c.n));
		if (!thrown) c.RemoveAt(at);
		break;
	}
	case 4: { const int at = c.IndexOf(v); ENSURES("removing says whether the value was there", t.Remove(v) == (at >= 0)); if (at >= 0) c.RemoveAt(at); break; }
	case 5:
		if (vc_pick(2)) { t.Clear(); c.n = 0; break; }
		const size_t r = t.RemoveAll(Is{v}); const int n = c.n;
		for (int at; (at = c.IndexOf(v)) >= 0; ) c.RemoveAt(at);
		ENSURES("removing by condition tells how many", (int)r == n - c.n); break;
	}
}
static void Fill(List& d, Content& c, int n)
{
	List::TransactionTypePtr t = d.StartTransaction();
	for (int i = 0; i < n; ++i) { c.Insert(i, ANY(u32)); t->Add(c.v[i]); }
	t->Commit();
}
enum End { Commits, Reverts, Applies, Finds };
static void Run(int n, int ops, End end)
{
	vc_bounded("lists of up to four elements, transactions of up to three changes");
	vcthr::Reset(); Caught = 0;
	{
		List d; Content before;
		Fill(d, before, n);
		Observer early;
		Token c1 = d.OnChanged().connect(Bind(&Observer::On, &early, _1));
		ENSURES("a new observer is told the content", early.content.Same(before));
		early.calls = 0;
		ItemEnumerator outer = d.GetEnumerator();
		List::TransactionTypePtr t = d.StartTransaction();
		Content now = before;
		for (int i = 0; i < ops; ++i)
		{
			const Content was = now;
			ItemEnumerator snapshot = t->GetEnumerator();
			if (end == Reverts) t->Diff();
			Op(*t, now);
			was.Yields(snapshot, 0, 1);
		}
		now.Shows(*t);
		if (end == Finds) now.Finds(*t);
		before.Shows(d);
		ENSURES("nothing is reported while the transaction is open", early.calls == 0);
		const bool dirty = t->IsDirty(); const bool changed = !before.Same(now);
		ENSURES("a transaction that changed the content has changes", dirty || now.Same(before));
		shared_ptr<IEnumerable<Entry> > diff = t->Diff();
		{
			Content c = before;
			for (shared_ptr<IEnumerator<Entry> > e = diff->GetEnumerator(); e->Valid(); e->Next()) c.Apply(e->Get());
			ENSURES("the difference turns the old content into the new one", c.Same(now));
		}
		shared_ptr<IEnumerator<Entry> > entries = diff->GetEnumerator();
		if (end == Applies)		// the same changes again, as the difference tells them
		{
			t->Revert();
			before.Shows(*t);
			for (; entries->Valid(); entries->Next()) t->Apply(entries->Get());
			now.Shows(*t);
		}
		if (end == Reverts)
		{
			t->Revert();
			now = before;
			ENSURES("a reverted transaction has no changes", !t->IsDirty() && !t->Diff()->GetEnumerator()->Valid());
			t->Commit();
			ENSURES("a reverted transaction reports nothing", early.calls == 0);
			COVER("reverted");
		}
		else
		{
			t->Commit();
			if (end == Finds) now.Finds(d);
			ENSURES("a commit is reported once", early.calls == (changed ? 1 : 0) && early.content.Same(now));
			COVER("committed");
		}
		now.Shows(d);
		ENSURES("after the end no changes are left", !t->IsDirty());
		before.Yields(outer, 0, 1);
		if (end == Commits) now.Shows(*t);
		t.reset();
		t = d.StartTransaction();
		if (end == Reverts) now.Shows(*t);
		ENSURES("a new transaction has no changes", !t->IsDirty());
	}
	ENSURES("nothing is thrown in an observer", Caught == 0);
}
PROOF(C28_list_commit) { Run(2, 2, Commits); }
PROOF(C28_list_commit_1) { Run(3, 1, Commits); }
PROOF(C28_list_commit_empty) { Run(0, 2, Commits); }
PROOF(C28_list_revert) { Run(1, 2, Reverts); }
PROOF(C28_list_apply) { Run(2, 2, Applies); }
PROOF(C28_list_apply_1) { Run(3, 1, Applies); }
PROOF(C28_list_find) { Run(2, 1, Finds); }
