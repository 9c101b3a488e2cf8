// C24 intrusive lists: links of up to four nodes, any order of insertion and removal.
// @opt: fork_select=true
// @sources: toolkit.cpp
#include <vc.h>
#include <stingraykit/collection/IntrusiveList.h>
using namespace stingray;

struct Node : public IntrusiveListNode<Node> { };
typedef IntrusiveList<Node> List;

static const size_t Max = 4;

static void Is(List& x, Node* const* m, size_t n)
{
	const List& c = x;
	ENSURES("emptiness and size agree with the nodes", x.empty() == (n == 0) && x.size() == n);
	size_t i = 0;
	for (List::iterator it = x.begin(); it != x.end(); ++it, ++i)
		ENSURES("forward traversal visits the nodes in order of insertion", i < n && &*it == m[i]);
	ENSURES("forward traversal is complete", i == n);
	for (List::const_iterator it = c.begin(); it != c.end(); ++it, ++i)
		ENSURES("const traversal is the same", i < 2 * n && &*it == m[i - n]);
	ENSURES("const traversal is complete", i == 2 * n);
	i = n;
	for (List::iterator it = x.end(); it != x.begin(); --i)
	{
		--it;
		ENSURES("backward traversal visits the same nodes in opposite order", i > 0 && &*it == m[i - 1]);
	}
	ENSURES("backward traversal is complete", i == 0);
	i = n;
	for (List::const_iterator it = c.end(); it != c.begin(); --i)
	{
		--it;
		ENSURES("const backward traversal is the same", i > 0 && &*it == m[i - 1]);
	}
}

static void Cut(Node** m, size_t& n, size_t i)
{
	for (; i + 1 < n; ++i) m[i] = m[i + 1];
	--n;
}

PROOF(C24_insert_remove)
{
	Node node[Max + 1];
	Node* m[Max + 1];
	List x;
	size_t n = vc_pick(Max + 1);
	vc_bounded("at most 4 nodes in the list");
	for (size_t i = 0; i < n; ++i)
	{
		m[i] = &node[i];
		x.push_back(node[i]);
	}
	Is(x, m, n);
	switch (vc_pick(2))
	{
	case 0:
		m[n++] = &node[Max];
		x.push_back(node[Max]);
		break;
	case 1:
		{
			const size_t i = vc_pick(Max);
			REQUIRES(i < n);
			Node* const v = m[i];
			x.erase(*v);
			Cut(m, n, i);
			Is(x, m, n);
			x.erase(*v);		// no longer linked: nothing happens
			Is(x, m, n);
			if (vc_pick(2))
			{
				x.push_back(*v);
				m[n++] = v;
			}
			break;
		}
	}
	Is(x, m, n);
	COVER("done");
	for (size_t i = 0; i <= Max; ++i)
		x.erase(node[i]);
	Is(x, m, 0);
}

PROOF(C24_two_lists)
{
	Node a[2], b[2];
	Node* ma[3]; Node* mb[3];
	List x, y;
	vc_bounded("two lists of two nodes");
	size_t na = 2, nb = 2;
	for (size_t i = 0; i < 2; ++i)
	{
		x.push_back(a[i]); ma[i] = &a[i];
		y.push_back(b[i]); mb[i] = &b[i];
	}
	const size_t i = vc_pick(2);
	x.erase(a[i]);
	Cut(ma, na, i);
	y.push_back(a[i]);
	mb[nb++] = &a[i];
	Is(x, ma, na);
	Is(y, mb, nb);
	COVER("done");
	for (size_t k = 0; k < 2; ++k) { y.erase(b[k]); y.erase(a[k]); }
	Is(x, ma, 0); Is(y, mb, 0);
}
