// C14 caches: from every small state, operation sequences over arbitrary keys and values against a model that is a list in eviction order.
// @sources: toolkit.cpp self_counter.cpp shared_ptr.cpp signal/signal_policies.cpp thread/TaskLifeToken.cpp thread/posix/PosixSemaphore.cpp thread/posix/PosixConditionVariable.cpp
// @opt: fork_select=true
// @opt: max_steps=40000000
#include <vc.h>
#include <stingraykit/collection/QueueCache.h>
#include <stingraykit/collection/TwoQueueCache.h>
using namespace stingray;

static const int N = 10;
struct Weight { size_t operator () (u32 v) const { return v & 3; } };
struct One { size_t operator () (u32) const { return 1; } };
struct Entry { u32 key, value; };
template < typename SizeMapper, bool Lru > struct Model	// oldest first
{
	Entry e[N]; int n; size_t capacity; Entry out[N]; int evicted;
	explicit Model(size_t c) : n(0), capacity(c), evicted(0) { }
	size_t Size() const { size_t s = 0; for (int i = 0; i < n; ++i) s += SizeMapper()(e[i].value); return s; }
	int Find(u32 k) const { for (int i = 0; i < n; ++i) if (e[i].key == k) return i; return -1; }
	void Erase(int i) { for (int k = i + 1; k < n; ++k) e[k - 1] = e[k]; --n; }
	void Set(u32 k, u32 v) { const int i = Find(k); if (i >= 0) Erase(i); e[n++] = Entry{k, v}; while (Size() > capacity) { out[evicted++] = e[0]; Erase(0); } }
	bool Get(u32 k, u32& v) { const int i = Find(k); if (i < 0) return false; v = e[i].value; if (Lru) { const Entry x = e[i]; Erase(i); e[n++] = x; } return true; }
	bool Remove(u32 k) { const int i = Find(k); if (i < 0) return false; Erase(i); return true; }
};

static Entry Seen[N]; static int SeenCount;
static void Evicted(u32 key, u32 value) { Seen[SeenCount++] = Entry{key, value}; }

template < typename Cache, typename M > static void Run(int ops)
{
	const size_t capacity = vc_pick(4);
	Cache c(capacity); M m(capacity);
	SeenCount = 0;
	Token t = c.OnEvicted().connect(&Evicted);
	u32 key[N]; int keys = 0;
	for (int i = 0; i < ops; ++i)
	{
		const u32 k = ANY(u32), v = ANY(u32);
		switch (vc_pick(4))
		{
		case 0: c.Set(k, v); m.Set(k, v); key[keys++] = k; break;
		case 1: { u32 x = 0, y = 0; ENSURES("hit or miss", c.TryGet(k, x) == m.Get(k, y)); ENSURES("the value last stored", x == y); break; }
		case 2: ENSURES("removed", c.Remove(k) == m.Remove(k)); break;
		case 3: c.Clear(); m.n = 0; break;
		}
		ENSURES("the size", c.GetSize() == m.Size() && c.GetSize() <= capacity);
	}
	ENSURES("number of evictions", SeenCount == m.evicted);
	for (int i = 0; i < m.evicted; ++i)
		ENSURES("the entries evicted in order", Seen[i].key == m.out[i].key && Seen[i].value == m.out[i].value);
	for (int i = 0; i < keys; ++i)
	{ u32 x = 0, y = 0; ENSURES("hit or miss", c.TryGet(key[i], x) == m.Get(key[i], y)); ENSURES("the value last stored", x == y); }
	COVER("done");
}

PROOF(C14_fifo) { vc_bounded("4 operations, capacity up to 3"); Run<FifoCache<u32, u32, One>, Model<One, false>>(4); }
PROOF(C14_lru) { vc_bounded("4 operations, capacity up to 3"); Run<LruCache<u32, u32, One>, Model<One, true>>(4); }
PROOF(C14_fifo_weights) { vc_bounded("3 operations, capacity up to 3"); Run<FifoCache<u32, u32, Weight>, Model<Weight, false>>(3); }
PROOF(C14_lru_weights) { vc_bounded("3 operations, capacity up to 3"); Run<LruCache<u32, u32, Weight>, Model<Weight, true>>(3); }

PROOF(C14_two_queue)
{
	vc_bounded("4 operations, queue capacities 1 or 2");
	const size_t ci = 1 + vc_pick(2), co = 1 + vc_pick(2), ch = 1 + vc_pick(2);
	TwoQueueCache<u32, u32, One> c(ci, co, ch);
	Model<One, false> in(ci), out(co); Model<One, true> hot(ch);
	SeenCount = 0;
	Token t = c.OnEvicted().connect(&Evicted);
	u32 key[N]; int keys = 0, evicted = 0; Entry gone[N];
	for (int i = 0; i < 4; ++i)
	{
		const u32 k = ANY(u32), v = ANY(u32);
		for (int p = 0; p < keys; ++p) (void)(key[p] == k);
		switch (i ? vc_pick(3) : 0)
		{
		case 0:
			c.Set(k, v);
			if (!hot.Remove(k)) out.Remove(k);
			in.Set(k, v); key[keys++] = k;
			break;
		case 1:
		{
			u32 x = 0, y = 0; bool hit = hot.Get(k, y) || in.Get(k, y);
			if (!hit && (hit = out.Get(k, y))) { out.Remove(k); hot.Set(k, y); }
			ENSURES("hit or miss", c.TryGet(k, x) == hit); ENSURES("the value last stored", x == y);
			break;
		}
		case 2: ENSURES("removed", c.Remove(k) == (hot.Remove(k) || out.Remove(k) || in.Remove(k))); break;
		}
		for (int e = 0; e < in.evicted; ++e) out.Set(in.out[e].key, in.out[e].value);
		for (int e = 0; e < out.evicted; ++e) gone[evicted++] = out.out[e];
		for (int e = 0; e < hot.evicted; ++e) gone[evicted++] = hot.out[e];
		in.evicted = out.evicted = hot.evicted = 0;
		ENSURES("the size", c.GetSize() == in.Size() + out.Size() + hot.Size() && c.GetSize() <= ci + co + ch);
	}
	ENSURES("number of evictions", SeenCount == evicted);
	for (int i = 0; i < evicted; ++i)
		ENSURES("the entries evicted in order", Seen[i].key == gone[i].key && Seen[i].value == gone[i].value);
	COVER("done");
}
