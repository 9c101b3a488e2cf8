// C03 byte views: every offset, size and limit of the 64-bit range.
// @sources: shared_ptr.cpp self_counter.cpp
#include <vc.h>
#include <stingraykit/collection/ByteData.h>
#include <stingraykit/collection/BytesOwner.h>
using namespace stingray;

static u8* Buf(size_t& n)
{
	n = ANY(size_t);
	REQUIRES(n >= 1 && n <= ((size_t)1 << 40));
	return (u8*)vc_bytes(n);
}

// view v must be [d, d + n) restricted to [ofs, ofs + size)
template < typename V > static void IsWindow(const V& v, const u8* d, size_t n, size_t ofs, size_t size)
{
	ENSURES("size of the view", v.size() == size);
	ENSURES("empty exactly when it has no byte", v.empty() == (size == 0));
	const size_t k = ANY(size_t);
	bool thrown = false;
	const u8* p = 0;
	try { p = &v[k]; }
	catch (const IndexOutOfRangeException&) { thrown = true; }
	ENSURES("element access refused exactly outside the view", thrown == (k >= size));
	if (!thrown)
		ENSURES("element is the byte of the storage at offset plus index", p == d + ofs + k);
	if (size)
		ENSURES("data pointer", v.data() == d + ofs);
}

template < typename T > static void SubView()
{
	size_t n; u8* d = Buf(n);
	const size_t ofs = ANY(size_t), size = ANY(size_t);
	const BasicByteData<T> v(d, n);
	IsWindow(v, d, n, 0, n);
	bool thrown = false;
	if (ANY(bool))
	{
		BasicByteData<T> w;
		try { w = BasicByteData<T>(v, ofs); } catch (const IndexOutOfRangeException&) { thrown = true; }
		ENSURES("offset view refused exactly when the offset is outside", thrown == (ofs > n));
		if (!thrown)
		{
			IsWindow(w, d, n, ofs, n - ofs);
			COVER("offset view");
		}
	}
	else
	{
		BasicByteData<T> w;
		try { w = BasicByteData<T>(v, ofs, size); } catch (const IndexOutOfRangeException&) { thrown = true; }
		ENSURES("sized view refused exactly when it does not fit", thrown == (ofs > n || size > n - ofs));
		if (!thrown)
		{
			IsWindow(w, d, n, ofs, size);
			COVER("sized view");
		}
	}
}
PROOF(C03_data_const) { SubView<const u8>(); }
PROOF(C03_data) { SubView<u8>(); }

PROOF(C03_chain)
{
	size_t n; u8* d = Buf(n);
	const size_t o1 = ANY(size_t), s1 = ANY(size_t), o2 = ANY(size_t), s2 = ANY(size_t);
	ByteData v(d, n), w;
	bool thrown = false;
	try { w = ByteData(ByteData(v, o1, s1), o2, s2); } catch (const IndexOutOfRangeException&) { thrown = true; }
	ENSURES("view of a view refused exactly when it does not fit the inner view", thrown == (o1 > n || s1 > n - o1 || o2 > s1 || s2 > s1 - o2));
	if (!thrown)
	{
		ConstByteData c(w);
		IsWindow(c, d, n, o1 + o2, s2);
		COVER("chained");
	}
}

PROOF(C03_iterate)
{
	size_t n; u8* d = Buf(n);
	const size_t k = ANY(size_t);
	const s64 delta = ANY(s64);
	ByteData v(d, n);
	ENSURES("distance from begin to end is the size", (size_t)(v.end() - v.begin()) == n);
	REQUIRES(k <= n && delta >= -(s64)n && delta <= (s64)n);
	ByteData::iterator it = v.begin() + k;
	if (ANY(bool)) it += delta; else it -= -delta;
	const s64 at = (s64)k + delta;
	bool thrown = false; const u8* p = 0;
	try { p = &*it; } catch (const IndexOutOfRangeException&) { thrown = true; }
	ENSURES("iterator dereference refused exactly outside the view", thrown == (at < 0 || at >= (s64)n));
	if (!thrown)
	{
		ENSURES("iterator designates its byte", p == d + at);
		ByteData::iterator up = it; ++up;
		ENSURES("increment moves by one", up - it == 1 && it - up == -1);
		ENSURES("iterator order", it < up && !(up < it) && it != up);
		ByteData::reverse_iterator r(up);
		ENSURES("reverse iterator designates the byte before", &*r == p);
		COVER("inside");
	}
}

// arrays with shared storage
PROOF(C03_array)
{
	const size_t n = ANY(size_t), ofs = ANY(size_t), size = ANY(size_t);
	REQUIRES(n <= ((size_t)1 << 40));
	ByteArray a(n);
	ENSURES("array has the requested size", a.size() == n);
	const u8* d = a.data();
	bool thrown = false;
	switch (vc_pick(4))
	{
	case 0:
		{
			IsWindow(a, d, n, 0, n);
			ByteArray w;
			try { w = ByteArray(a, ofs); } catch (const IndexOutOfRangeException&) { thrown = true; }
			ENSURES("array offset refused exactly when outside", thrown == (ofs > n));
			if (!thrown) { IsWindow(w, d, n, ofs, n - ofs); COVER("array offset"); }
		}
		break;
	case 1:
		{
			ByteArray w;
			try { w = ByteArray(a, ofs, size); } catch (const IndexOutOfRangeException&) { thrown = true; }
			if (size != ~(size_t)0)
			{
				ENSURES("array limit refused exactly when it does not fit", thrown == (ofs > n || size > n - ofs));
				if (!thrown) { IsWindow(w, d, n, ofs, size); COVER("array limit"); }
			}
			else if (!thrown)
				ENSURES("unlimited array never exceeds its storage", ofs <= n && w.size() <= n - ofs);
		}
		break;
	case 2:
		{
			ByteData w;
			try { w = ByteData(a, ofs); } catch (const IndexOutOfRangeException&) { thrown = true; }
			ENSURES("view of array refused exactly when outside", thrown == (ofs > n));
			if (!thrown) { IsWindow(w, d, n, ofs, n - ofs); COVER("view offset"); }
		}
		break;
	case 3:
		{
			ByteData w;
			try { w = ByteData(a, ofs, size); } catch (const IndexOutOfRangeException&) { thrown = true; }
			ENSURES("sized view of array refused exactly when it does not fit", thrown == (ofs > n || size > n - ofs));
			if (!thrown) { IsWindow(w, d, n, ofs, size); COVER("view sized"); }
		}
		break;
	}
}

// chained limits of arrays
static void ChainArray(int kind)
{
	const size_t n = ANY(size_t), o1 = ANY(size_t), s1 = ANY(size_t), o2 = ANY(size_t), s2 = ANY(size_t);
	REQUIRES(n <= ((size_t)1 << 40) && o1 <= n && s1 <= n - o1 && s2 != ~(size_t)0);
	ByteArray a(n);
	const u8* d = a.data();
	const ByteArray in(a, o1, s1);
	bool thrown = false;
	ByteArray w;
	if (kind == 0)
	{
		try { w = ByteArray(in, o2); } catch (const IndexOutOfRangeException&) { thrown = true; }
		ENSURES("offset into a limited array refused exactly when outside the limit", thrown == (o2 > s1));
		if (!thrown) { IsWindow(w, d, n, o1 + o2, s1 - o2); COVER("offset of limited"); }
	}
	else
	{
		try { w = ByteArray(in, o2, s2); } catch (const IndexOutOfRangeException&) { thrown = true; }
		ENSURES("limit of a limited array refused exactly when outside the limit", thrown == (o2 > s1 || s2 > s1 - o2));
		if (!thrown) { IsWindow(w, d, n, o1 + o2, s2); COVER("limit of limited"); }
	}
}
PROOF(C03_array_chain_offset) { ChainArray(0); }
PROOF(C03_array_chain_limit) { ChainArray(1); }

// an offset view of an unlimited array, limited later
PROOF(C03_array_offset_then_limit)
{
	const size_t n = ANY(size_t), o1 = ANY(size_t), o2 = ANY(size_t), s2 = ANY(size_t);
	REQUIRES(n <= ((size_t)1 << 40) && o1 <= n && s2 != ~(size_t)0);
	ByteArray a(n);
	const u8* d = a.data();
	const ByteArray in(a, o1);
	bool thrown = false;
	ByteArray w;
	try { w = ByteArray(in, o2, s2); } catch (const IndexOutOfRangeException&) { thrown = true; }
	ENSURES("limit of an offset array refused exactly when outside the storage", thrown == (o2 > n - o1 || s2 > n - o1 - o2));
	if (!thrown) { IsWindow(w, d, n, o1 + o2, s2); COVER("limited"); }
}

// growing
PROOF(C03_require_size)
{
	const size_t n = ANY(size_t), ofs = ANY(size_t), want = ANY(size_t), k = ANY(size_t);
	REQUIRES(n <= ((size_t)1 << 30) && ofs <= n && want <= ((size_t)1 << 32));
	ByteArray a(n);
	if (k < n)
		a[k] = ANY(u8);
	const u8 before = k < n ? a[k] : 0;
	ByteArray w(a, ofs);
	w.RequireSize(want);
	ENSURES("at least the required size", w.size() >= want && w.size() == (n - ofs >= want ? n - ofs : want));
	ENSURES("shared storage grows with it", a.size() == ofs + w.size());
	if (k < a.size())
		ENSURES("content kept, new bytes zero", a[k] == before);
	COVER("done");
}

PROOF(C03_vector_views)
{
	const size_t n = ANY(size_t);
	REQUIRES(n <= ((size_t)1 << 40));
	std::vector<u8> v(n);
	ByteData w(v);
	const std::vector<u8>& cv = v;
	ConstByteData c(cv);
	ENSURES("view of a vector covers it", w.size() == n && c.size() == n && (n == 0 || (w.data() == &v[0] && c.data() == &v[0])));
	u8 raw[7];
	ByteData r(raw);
	ENSURES("view of a plain array covers it", r.size() == 7 && r.data() == raw);
	COVER("done");
}

// views that keep their storage alive
PROOF(C03_bytes_owner)
{
	size_t n; u8* d = Buf(n);
	const size_t o1 = ANY(size_t), s1 = ANY(size_t), o2 = ANY(size_t);
	const BytesOwner owner(ByteData(d, n), Token());
	IsWindow(owner, d, n, 0, n);
	bool thrown = false;
	BytesOwner w;
	try { w = BytesOwner(BytesOwner(owner, o1, s1), o2); } catch (const IndexOutOfRangeException&) { thrown = true; }
	ENSURES("owned view refused exactly when it does not fit", thrown == (o1 > n || s1 > n - o1 || o2 > s1));
	if (!thrown)
	{
		IsWindow(w, d, n, o1 + o2, s1 - o2);
		ConstBytesOwner c(w);
		ConstByteData x(c);
		ENSURES("conversion keeps the window", x.size() == s1 - o2 && (x.empty() || x.data() == d + o1 + o2));
		COVER("owned view");
	}
}
