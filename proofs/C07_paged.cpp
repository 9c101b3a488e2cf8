// C07 paged buffers: small pages, any pushed, read and popped amounts across page boundaries, the other side running at any lock operation.
// @sources: io/PagedBuffer.cpp self_counter.cpp shared_ptr.cpp toolkit.cpp thread/posix/PosixConditionVariable.cpp thread/DummyCancellationToken.cpp
// @opt: fork_select=true
// @opt: max_steps=40000000
// @opaque: ^(void )?stingray::(Logger|NamedLogger|PagedBuffer::Log)
// @opaque: stingray::LoggerStream::(operator|LoggerStream|~LoggerStream)
// @nocut: ^stingray::[A-Za-z]*StringBuilder
// @replace: (void )?stingray::basic_string_ostream<char>::Insert<unsigned long => number
// @replace: pthread_mutex_trylock => trylock
// @replace: pthread_mutex_lock => lock
// @replace: pthread_mutex_unlock => unlock
// @replace: pthread_cond_wait => cond_wait
// @replace: pthread_cond_broadcast => cond_wake
// @replace: pthread_cond_signal => cond_wake
// @replace: stingray::PosixThreadEngine::GetCurrentThreadId => thread_id
// @replace: stingray::PosixCallOnce::CallOnce => call_once
#include <vc_threads.h>
#include <string.h>
#include <stingraykit/io/PagedBuffer.h>
using namespace stingray;

extern "C" __attribute__((used, noinline)) void vckeep__number(void*, unsigned long) { }		// digits in a log or exception text
#define TOKEN DummyCancellationToken()
struct Cancelled : public ICancellationToken
{
	virtual bool Sleep(optional<TimeDuration>) const { return false; }
	virtual bool IsCancelled() const { return false; }		// a cancelled wait, not a cancelled read
	virtual bool IsTimedOut() const { return false; }
	virtual optional<TimeDuration> GetTimeout() const { return null; }
	virtual bool TryRegisterCancellationHandler(ICancellationHandler&) const { return false; }
	virtual bool TryUnregisterCancellationHandler() const { return true; }
	virtual bool UnregisterCancellationHandler() const { return true; }
};

// the contract of a page: holds what was written, in order, and offers whole chunks of it
struct Paged : public PagedBuffer
{
	struct Page : public IPage
	{
		u8 d[8]; u64 size, valid, chunk;
		Page(u64 s, u64 c) : size(s), valid(0), chunk(c) { }
		virtual size_t Read(u64 offset, IDataConsumer& consumer, const ICancellationToken& token)
		{
			ENSURES("reads are inside the data of the page", offset < valid && valid - offset >= chunk);
			return consumer.Process(ConstByteData(d + offset, (valid - offset) / chunk * chunk), token);
		}
		virtual size_t Write(u64 offset, ConstByteData data, const ICancellationToken&)
		{
			ENSURES("writes continue the page and fit it", offset == valid && data.size() <= size - offset);
			::memcpy(d + offset, data.data(), data.size());
			valid += data.size();
			return data.size();
		}
	};
	u64 page; int created;
	Paged(u64 p, u64 c) : PagedBuffer("x", p, c), page(p), created(0) { }
	virtual IPagePtr CreatePage(size_t chunk) { ++created; return IPagePtr(new Page(page, chunk)); }
};

struct Sink : public IDataConsumer
{
	u8 out[24]; u64 total, chunk; void (*during)();
	explicit Sink(u64 c) : total(0), chunk(c), during(0) { }
	virtual size_t Process(ConstByteData data, const ICancellationToken&)
	{
		ENSURES("whole chunks are offered", data.size() != 0 && data.size() % chunk == 0);
		const u64 take = vc_pick(data.size() / chunk + 1) * chunk;
		for (u64 i = 0; i < take; ++i)
			out[total + i] = data[i];
		total += take;
		if (during) { void (*f)() = during; during = 0; f(); }
		return take;
	}
	virtual void EndOfData(const ICancellationToken&) { ENSURES("a paged buffer has no end", false); }
};

struct Run
{
	Paged b; Sink s; u8* src; u64 pushed, popped, page, chunk;
	Run(u64 p, u64 c) : b(p, c), s(c), src((u8*)vc_bytes(24)), pushed(0), popped(0), page(p), chunk(c) { vc_bounded("pages of up to four bytes, up to three pages"); vcthr::Reset(); Size(); }
	void Size() { ENSURES("the size is bytes pushed minus bytes popped", b.GetStorageSize() == pushed - popped); }
	void Push(u64 n) { b.Push(ConstByteData(src + pushed, n), TOKEN); pushed += n; Size(); }
	void Read()
	{
		const u64 before = s.total;
		b.Read(s, Cancelled());
		ENSURES("nothing is delivered that was not pushed", s.total <= pushed);
		(void)before;
	}
	void Order()
	{
		for (u64 i = 0; i < s.total; ++i)
			ENSURES("the bytes come out in the order pushed, none lost, none twice", s.out[i] == src[i]);
	}
	void Pop(u64 n) { b.Pop(n); popped += n; Size(); }
	void ReadAll()
	{
		for (int i = 0; i < 24 && s.total + chunk <= pushed; ++i)
			b.Read(s, Cancelled());
		Order();
	}
};

static void History(u64 page, u64 chunk)
{
	Run r(page, chunk);
	r.Push(1 + vc_pick(2 * page));
	r.Read();
	if (vc_pick(2))
		r.Read();
	const u64 maxPop = r.s.total / chunk;
	r.Pop(vc_pick(maxPop + 1) * chunk);		// at most what was read
	r.Push(vc_pick(page + 2));
	r.Read();
	const u64 more = (r.s.total - r.popped) / chunk;
	r.Pop(vc_pick(more + 1) * chunk);
	r.Read();
	r.Order();
	COVER("done");
}
PROOF(C07_history_2_1) { History(2, 1); }
PROOF(C07_history_4_2) { History(4, 2); }
PROOF(C07_history_3_3) { History(3, 3); }

PROOF(C07_pop_unread)		// popping what was not read yet skips it
{
	Run r(4, 2);
	r.Push(1 + vc_pick(9));
	r.Read();
	const u64 pop = vc_pick(r.pushed / 2 + 1) * 2;
	const u64 read = r.s.total;
	r.Pop(pop);
	const u64 from = pop > read ? pop : read;
	r.Read(); r.Read();
	for (u64 i = read; i < r.s.total; ++i)
		ENSURES("reading goes on after what was popped", r.s.out[i] == r.src[from + (i - read)]);
	COVER("done");
}

PROOF(C07_refused)
{
	Run r(4, 2);
	r.Push(1 + vc_pick(6));
	r.Pop(vc_pick(r.pushed / 2 + 1) * 2);
	const u64 n = ANY(u64);
	const bool ok = n <= r.pushed - r.popped && n % 2 == 0;
	bool thrown = false;
	const bool pop = vc_pick(2) != 0;
	try { if (pop) r.b.Pop(n); else r.b.Seek(n); } catch (const std::exception&) { thrown = true; }
	ENSURES("popping or seeking outside the data or inside a chunk is refused", thrown == !ok);
	if (thrown || !pop) { r.Size(); COVER("refused"); }
	else { r.popped += n; r.Size(); COVER("popped"); }
}

PROOF(C07_seek)
{
	Run r(4, 2);
	r.Push(1 + vc_pick(8));
	r.Read();
	r.Pop(vc_pick(r.s.total / 2 + 1) * 2);
	const u64 to = vc_pick((r.pushed - r.popped) / 2 + 1) * 2;
	r.b.Seek(to);
	r.Size();
	r.s.total = 0;
	r.Read(); r.Read();
	for (u64 i = 0; i < r.s.total; ++i)
		ENSURES("reading goes on at the position sought", r.s.out[i] == r.src[r.popped + to + i]);
	ENSURES("nothing beyond the data is delivered", r.popped + to + r.s.total <= r.pushed);
	COVER("done");
}

// ---- the other side at any lock operation
static Run* R; static u64 N;
static void OtherPush() { R->b.Push(ConstByteData(R->src + R->pushed, N), TOKEN); R->pushed += N; }
static void OtherPop() { R->b.Pop(N); R->popped += N; }
static void OtherRead() { R->b.Read(R->s, Cancelled()); }

static void ReadWhile(void (*other)(), bool pop, bool during)
{
	Run r(4, 2); R = &r;
	r.Push(2 + vc_pick(9));
	r.Read();
	REQUIRES(r.s.total >= 2);
	N = pop ? 2 + vc_pick(r.s.total / 2) * 2 : 1 + vc_pick(5);
	if (during)
	{
		r.s.during = other;		// the consumer itself pops or pushes
		r.Read();
		REQUIRES(!r.s.during);
	}
	else
	{
		vcthr::Reset(other, 1);
		r.Read();
		vcthr::Finish();
		vcthr::Reset();
	}
	r.Size();
	r.Read(); r.Read();
	r.Order();
	COVER("done");
}
PROOF(C07_push_while_read) { ReadWhile(&OtherPush, false, false); }
PROOF(C07_pop_while_read) { ReadWhile(&OtherPop, true, false); }
PROOF(C07_consumer_pops) { ReadWhile(&OtherPop, true, true); }
PROOF(C07_consumer_pushes) { ReadWhile(&OtherPush, false, true); }
PROOF(C07_read_while_push)
{
	Run r(4, 2); R = &r;
	r.Push(vc_pick(7));
	vcthr::Reset(&OtherRead, 1);
	const u64 n = 1 + vc_pick(7);
	r.b.Push(ConstByteData(r.src + r.pushed, n), TOKEN);
	r.pushed += n;
	vcthr::Finish();
	vcthr::Reset();
	r.Size();
	r.Read(); r.Read();
	r.Order();
	COVER("done");
}
PROOF(C07_pop_while_push)
{
	Run r(4, 2); R = &r;
	r.Push(2 + vc_pick(7));
	r.Read();
	REQUIRES(r.s.total >= 2);
	N = r.s.total;
	vcthr::Reset(&OtherPop, 1);
	const u64 n = 1 + vc_pick(7);
	r.b.Push(ConstByteData(r.src + r.pushed, n), TOKEN);
	r.pushed += n;
	vcthr::Finish();
	vcthr::Reset();
	r.Size();
	r.Read(); r.Read();
	r.Order();
	COVER("done");
}
