// C22 shared, weak and unique owners: from every small configuration of owners one operation, against a model of who owns what.
// @opt: max_steps=40000000
// @opt: fork_select=true
// @sources: toolkit.cpp TypeInfo.cpp self_counter.cpp
#include <vc.h>
#include <stingraykit/shared_ptr.h>
#include <stingraykit/unique_ptr.h>
using namespace stingray;

static const int Objects = 4;
static int Born[Objects], Dead[Objects];
static bool ThrowInCtor;
struct Boom { };

struct Base { virtual ~Base() { } virtual int Id() const = 0; };
struct Pad { long pad; virtual ~Pad() { } };
struct Thing : public Pad, public Base
{
	Thing* self; int id; u32 value;
	Thing(int id_, u32 v) : id(id_), value(v) { if (ThrowInCtor) throw Boom(); self = this; ++Born[id]; }
	~Thing() { ENSURES("destroyed once", self == this); self = 0; ++Dead[id]; }
	int Id() const override { ENSURES("a live object is used", self == this); return id; }
};
struct CountingDeleter { int* count; void operator () (Thing* p) const { ++*count; delete p; } };
static int Deleted;

static const int S = 3, W = 2, None = -1;

struct Config
{
	shared_ptr<Thing> s[S]; weak_ptr<Thing> w[W];
	int sm[S], wm[W];		// the object each owner refers to, or None
	Thing* obj[Objects];

	int Owners(int o) const { int n = 0; for (int i = 0; i < S; ++i) n += sm[i] == o; return n; }

	Config()
	{
		for (int i = 0; i < S; ++i) sm[i] = None;
		for (int i = 0; i < W; ++i) wm[i] = None;
		const u32 kind = vc_pick(3);
		shared_ptr<Thing> o[2];
		o[0] = kind == 0 ? make_shared_ptr<Thing>(0, ANY(u32)) : kind == 1 ? shared_ptr<Thing>(new Thing(0, ANY(u32))) : shared_ptr<Thing>(new Thing(0, ANY(u32)), CountingDeleter{&Deleted});
		o[1] = make_shared_ptr<Thing>(1, ANY(u32));
		obj[0] = o[0].get(); obj[1] = o[1].get(); obj[2] = obj[3] = 0;
		for (int i = 0; i < S; ++i)
		{
			const u32 t = vc_pick(3);
			if (t) { s[i] = o[t - 1]; sm[i] = t - 1; }
		}
		for (int i = 0; i < W; ++i)
		{
			const u32 t = vc_pick(3);
			if (t) { w[i] = o[t - 1]; wm[i] = t - 1; }
		}
	}
	void Check()
	{
		for (int o = 0; o < Objects; ++o)
			ENSURES("alive exactly while owned", Dead[o] == (Owners(o) ? 0 : Born[o]));
		for (int i = 0; i < S; ++i)
		{
			ENSURES("the object owned", s[i].get() == (sm[i] == None ? 0 : obj[sm[i]]) && s[i].is_initialized() == (sm[i] != None) && (bool)s[i] == (sm[i] != None));
			ENSURES("use count", s[i].use_count() == (size_t)(sm[i] == None ? 0 : Owners(sm[i])) && s[i].unique() == (s[i].use_count() == 1));
			if (sm[i] != None)
				ENSURES("access", s[i]->Id() == sm[i] && (*s[i]).Id() == sm[i]);
			for (int k = 0; k < S; ++k)
				ENSURES("equality", (s[i] == s[k]) == (sm[i] == sm[k]));
		}
		for (int i = 0; i < W; ++i)
		{
			const int n = wm[i] == None ? 0 : Owners(wm[i]);
			ENSURES("use count of a weak owner", w[i].use_count() == (size_t)n && w[i].expired() == (n == 0));
			const shared_ptr<Thing> l = w[i].lock();
			ENSURES("a weak owner gives the object exactly while it is alive", l.get() == (n ? obj[wm[i]] : 0));
			ENSURES("use count while locked", l.use_count() == (size_t)(n ? n + 1 : 0));
		}
	}
};

static size_t Start()
{
	for (int o = 0; o < Objects; ++o) Born[o] = Dead[o] = 0;
	ThrowInCtor = false; Deleted = 0;
	return vc_live();
}
static void End(size_t live)
{
	for (int o = 0; o < Objects; ++o)
		ENSURES("everything destroyed exactly once", Dead[o] == Born[o]);
	ENSURES("no memory is left", vc_live() == live);
}

template < int Group > static void Operations()
{
	vc_bounded("three shared and two weak owners, two objects");
	const size_t live = Start();
	{
		Config c;
		shared_ptr<Thing>& a = c.s[0]; shared_ptr<Thing>& b = c.s[1];
		int& am = c.sm[0]; int& bm = c.sm[1];
		weak_ptr<Thing>& v = c.w[0]; weak_ptr<Thing>& u = c.w[1];
		int& vm = c.wm[0]; int& um = c.wm[1];
		if (Group == 0) switch (vc_pick(9))
		{
		case 0: c.Check(); break;
		case 1: a = b; am = bm; break;
		case 2: { shared_ptr<Thing>& same = a; a = same; break; }
		case 3: a = std::move(b); am = bm; bm = None; break;
		case 4: a.reset(); am = None; break;
		case 5: { Thing* t = new Thing(2, 5); c.obj[2] = t; a.reset(t); am = 2; break; }
		case 6: a.swap(b); std::swap(am, bm); break;
		case 7: { const bool only = am != None && c.Owners(am) == 1; ENSURES("released exactly when the only owner", a.release_if_unique() == only); if (only) am = None; break; }
		case 8: a = make_shared_ptr<Thing>(2, 7); c.obj[2] = a.get(); am = 2; break;
		}
		if (Group == 1) switch (vc_pick(9))
		{
		case 0: u = v; um = vm; break;
		case 1: u = std::move(v); um = vm; vm = None; break;
		case 2: u = a; um = am; break;
		case 3: u.reset(); um = None; break;
		case 4: a = u.lock(); am = um != None && c.Owners(um) ? um : None; break;
		case 5: { weak_ptr<Thing> x(v), y(a), z(std::move(x)); ENSURES("copies refer to the same", z.use_count() == v.use_count() && y.use_count() == a.use_count() && x.expired()); break; }
		case 6: v.swap(u); std::swap(vm, um); break;
		case 7: a = b; b = None == -1 ? shared_ptr<Thing>() : b; am = bm; bm = None; break;
		case 8: { weak_ptr<Thing>& same = v; v = same; break; }
		}
		if (Group == 2) switch (vc_pick(7))
		{
		case 0: { const shared_ptr<Base> x(a); ENSURES("a copy of a base type owns too", x.use_count() == (size_t)(am == None ? 0 : c.Owners(am) + 1) && (am == None ? !x : x->Id() == am)); break; }
		case 1: { const shared_ptr<Base> x(std::move(a)); ENSURES("a moved owner of a base type", x.use_count() == (size_t)(am == None ? 0 : c.Owners(am)) && (am == None ? !x : x->Id() == am) && !a); am = None; const shared_ptr<Base> y; (void)y; c.sm[2] = c.sm[2]; break; }
		case 2: { const shared_ptr<u32> x(a, am == None ? 0 : &c.obj[am]->value); a.reset(); ENSURES("a part keeps the whole alive", am == None || (Dead[am] == 0 && *x == c.obj[am]->value)); am = None; break; }
		case 3: { unique_ptr<Thing> x(new Thing(2, 1)); c.obj[2] = x.get(); a = std::move(x); ENSURES("ownership is taken", !x); am = 2; break; }
		case 4: { unique_ptr<Thing> x; a = shared_ptr<Thing>(std::move(x)); am = None; break; }
		case 5: { shared_ptr<Base> x; x = a; weak_ptr<Base> y(x), z; z = b; x = y.lock(); ENSURES("base owners count", x.use_count() == (size_t)(am == None ? 0 : c.Owners(am) + 1) && z.use_count() == b.use_count()); break; }
		case 6: { ThrowInCtor = true; bool thrown = false; try { a = make_shared_ptr<Thing>(3, 1); } catch (const Boom&) { thrown = true; } ThrowInCtor = false; ENSURES("a constructor that throws leaves the owner", thrown); break; }
		}
		c.Check();
		COVER("done");
	}
	End(live);
}
PROOF(C22_shared) { Operations<0>(); }
PROOF(C22_weak) { Operations<1>(); }
PROOF(C22_conversions) { Operations<2>(); }

PROOF(C22_null_access)
{
	bool thrown = false;
	shared_ptr<Thing> s; unique_ptr<Thing> u;
	try { switch (vc_pick(4)) { case 0: s->value = 1; break; case 1: (*s).value = 1; break; case 2: u->value = 1; break; case 3: (*u).value = 1; break; } } catch (const std::exception&) { thrown = true; }
	ENSURES("access through an empty owner is refused", thrown);
	COVER("done");
}

struct Node { unique_ptr<Node>* owner; Node() : owner(0) { ++Born[3]; } ~Node() { ENSURES("destroyed once", ++Dead[3] <= Born[3]); if (owner) owner->reset(); } };

PROOF(C22_unique)
{
	const size_t live = Start();
	{
		const bool ha = vc_pick(2), hb = vc_pick(2);
		Thing* pa = ha ? new Thing(0, ANY(u32)) : 0; Thing* pb = hb ? new Thing(1, ANY(u32)) : 0;
		unique_ptr<Thing> a(pa), b(pb);
		int am = ha ? 0 : None, bm = hb ? 1 : None;
		Thing* extra = 0;
		switch (vc_pick(8))
		{
		case 0: a = std::move(b); pa = pb; pb = 0; am = bm; bm = None; break;
		case 1: { unique_ptr<Thing>& same = a; a = std::move(same); break; }
		case 2: a.reset(); pa = 0; am = None; break;
		case 3: { Thing* t = new Thing(2, 1); a.reset(t); pa = t; am = 2; break; }
		case 4: a.swap(b); std::swap(pa, pb); std::swap(am, bm); break;
		case 5: extra = a.release(); ENSURES("released", extra == pa); pa = 0; am = None; break;
		case 6: { unique_ptr<Thing> x(std::move(a)); ENSURES("moved", x.get() == pa); b = std::move(x); pb = pa; pa = 0; bm = am; am = None; break; }
		case 7: { unique_ptr<Base> x(std::move(a)); ENSURES("moved to a base type", x.get() == pa); pa = 0; am = None; x = std::move(b); ENSURES("moved to a base type", x.get() == pb); pb = 0; bm = None; break; }
		}
		ENSURES("the objects owned", a.get() == pa && b.get() == pb && a.is_initialized() == (pa != 0) && (bool)b == (pb != 0));
		for (int o = 0; o < Objects; ++o)
			ENSURES("alive exactly while owned", Dead[o] == (am == o || bm == o || (extra && extra->id == o) ? 0 : Born[o]));
		delete extra;
		COVER("done");
	}
	End(live);
}
// an object whose destructor clears its owner is still destroyed once
PROOF(C22_unique_reentrant)
{
	Start();
	unique_ptr<Node> a(new Node());
	a->owner = &a;
	if (vc_pick(2)) a.reset(); else a.reset(new Node());
	ENSURES("destroyed once", Dead[3] >= 1);
	COVER("done");
}
PROOF(C22_unique_array)
{
	const size_t live = Start();
	{
		unique_ptr<Thing*[]> a(new Thing*[3]), b;
		Thing** p = a.get();
		b = std::move(a);
		ENSURES("moved", b.get() == p && !a && &b[2] == p + 2);
		b.reset();
		ENSURES("freed", vc_live() == live);
		COVER("done");
	}
}
