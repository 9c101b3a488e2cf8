// The non-template part of libstdc++ that the verified templates call (normally in libstdc++.so): red-black tree, list links, hash
// policy.  Trusted text: written from the documented behaviour of each function.
#include <map>
#include <list>
#include <unordered_map>
#include <string.h>

namespace std _GLIBCXX_VISIBILITY(default)
{
	typedef _Rb_tree_node_base* P;
	typedef const _Rb_tree_node_base* CP;

	static P Inc(P x) throw()
	{
		if (x->_M_right)
		{
			x = x->_M_right;
			while (x->_M_left)
				x = x->_M_left;
			return x;
		}
		P y = x->_M_parent;
		while (x == y->_M_right)
		{
			x = y;
			y = y->_M_parent;
		}
		return x->_M_right != y ? y : x;
	}
	static P Dec(P x) throw()
	{
		if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
			return x->_M_right;
		if (x->_M_left)
		{
			P y = x->_M_left;
			while (y->_M_right)
				y = y->_M_right;
			return y;
		}
		P y = x->_M_parent;
		while (x == y->_M_left)
		{
			x = y;
			y = y->_M_parent;
		}
		return y;
	}
	P _Rb_tree_increment(P x) throw() { return Inc(x); }
	CP _Rb_tree_increment(CP x) throw() { return Inc(const_cast<P>(x)); }
	P _Rb_tree_decrement(P x) throw() { return Dec(x); }
	CP _Rb_tree_decrement(CP x) throw() { return Dec(const_cast<P>(x)); }

	static void RotL(P x, P& root)
	{
		P y = x->_M_right;
		x->_M_right = y->_M_left;
		if (y->_M_left)
			y->_M_left->_M_parent = x;
		y->_M_parent = x->_M_parent;
		if (x == root) root = y;
		else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
		else x->_M_parent->_M_right = y;
		y->_M_left = x;
		x->_M_parent = y;
	}
	static void RotR(P x, P& root)
	{
		P y = x->_M_left;
		x->_M_left = y->_M_right;
		if (y->_M_right)
			y->_M_right->_M_parent = x;
		y->_M_parent = x->_M_parent;
		if (x == root) root = y;
		else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
		else x->_M_parent->_M_left = y;
		y->_M_right = x;
		x->_M_parent = y;
	}

	void _Rb_tree_insert_and_rebalance(const bool left, P x, P p, _Rb_tree_node_base& h) throw()
	{
		P& root = h._M_parent;
		x->_M_parent = p;
		x->_M_left = x->_M_right = 0;
		x->_M_color = _S_red;
		if (left)
		{
			p->_M_left = x;
			if (p == &h) { h._M_parent = x; h._M_right = x; }
			else if (p == h._M_left) h._M_left = x;
		}
		else
		{
			p->_M_right = x;
			if (p == h._M_right) h._M_right = x;
		}
		while (x != root && x->_M_parent->_M_color == _S_red)
		{
			P g = x->_M_parent->_M_parent;
			if (x->_M_parent == g->_M_left)
			{
				P u = g->_M_right;
				if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
				else
				{
					if (x == x->_M_parent->_M_right) { x = x->_M_parent; RotL(x, root); }
					x->_M_parent->_M_color = _S_black;
					g->_M_color = _S_red;
					RotR(g, root);
				}
			}
			else
			{
				P u = g->_M_left;
				if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
				else
				{
					if (x == x->_M_parent->_M_left) { x = x->_M_parent; RotR(x, root); }
					x->_M_parent->_M_color = _S_black;
					g->_M_color = _S_red;
					RotL(g, root);
				}
			}
		}
		root->_M_color = _S_black;
	}

	P _Rb_tree_rebalance_for_erase(P const z, _Rb_tree_node_base& h) throw()
	{
		P& root = h._M_parent; P& leftmost = h._M_left; P& rightmost = h._M_right;
		P y = z, x = 0, xp = 0;
		if (!y->_M_left) x = y->_M_right;
		else if (!y->_M_right) x = y->_M_left;
		else
		{
			y = y->_M_right;
			while (y->_M_left) y = y->_M_left;
			x = y->_M_right;
		}
		if (y != z)
		{
			z->_M_left->_M_parent = y;
			y->_M_left = z->_M_left;
			if (y != z->_M_right)
			{
				xp = y->_M_parent;
				if (x) x->_M_parent = y->_M_parent;
				y->_M_parent->_M_left = x;
				y->_M_right = z->_M_right;
				z->_M_right->_M_parent = y;
			}
			else xp = y;
			if (root == z) root = y;
			else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
			else z->_M_parent->_M_right = y;
			y->_M_parent = z->_M_parent;
			_Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c;
			y = z;
		}
		else
		{
			xp = y->_M_parent;
			if (x) x->_M_parent = y->_M_parent;
			if (root == z) root = x;
			else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
			else z->_M_parent->_M_right = x;
			if (leftmost == z)
			{
				if (!z->_M_right) leftmost = z->_M_parent;
				else { P m = x; while (m->_M_left) m = m->_M_left; leftmost = m; }
			}
			if (rightmost == z)
			{
				if (!z->_M_left) rightmost = z->_M_parent;
				else { P m = x; while (m->_M_right) m = m->_M_right; rightmost = m; }
			}
		}
		if (y->_M_color != _S_red)
		{
			while (x != root && (!x || x->_M_color == _S_black))
				if (x == xp->_M_left)
				{
					P w = xp->_M_right;
					if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; RotL(xp, root); w = xp->_M_right; }
					if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black))
					{ w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
					else
					{
						if (!w->_M_right || w->_M_right->_M_color == _S_black)
						{ w->_M_left->_M_color = _S_black; w->_M_color = _S_red; RotR(w, root); w = xp->_M_right; }
						w->_M_color = xp->_M_color;
						xp->_M_color = _S_black;
						if (w->_M_right) w->_M_right->_M_color = _S_black;
						RotL(xp, root);
						break;
					}
				}
				else
				{
					P w = xp->_M_left;
					if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; RotR(xp, root); w = xp->_M_left; }
					if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black))
					{ w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
					else
					{
						if (!w->_M_left || w->_M_left->_M_color == _S_black)
						{ w->_M_right->_M_color = _S_black; w->_M_color = _S_red; RotL(w, root); w = xp->_M_left; }
						w->_M_color = xp->_M_color;
						xp->_M_color = _S_black;
						if (w->_M_left) w->_M_left->_M_color = _S_black;
						RotR(xp, root);
						break;
					}
				}
			if (x) x->_M_color = _S_black;
		}
		return y;
	}

	namespace __detail
	{
		void _List_node_base::_M_hook(_List_node_base* const pos) noexcept
		{
			_M_next = pos;
			_M_prev = pos->_M_prev;
			pos->_M_prev->_M_next = this;
			pos->_M_prev = this;
		}
		void _List_node_base::_M_unhook() noexcept
		{
			_List_node_base* const n = _M_next; _List_node_base* const p = _M_prev;
			p->_M_next = n;
			n->_M_prev = p;
		}
		void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
		{
			if (this != last)
			{
				last->_M_prev->_M_next = this;
				first->_M_prev->_M_next = last;
				_M_prev->_M_next = first;
				_List_node_base* const t = _M_prev;
				_M_prev = last->_M_prev;
				last->_M_prev = first->_M_prev;
				first->_M_prev = t;
			}
		}
		void _List_node_base::_M_reverse() noexcept
		{
			_List_node_base* t = this;
			do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
		}
		void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
		{
			if (x._M_next != &x)
			{
				if (y._M_next != &y)
				{
					_List_node_base* t = x._M_next; x._M_next = y._M_next; y._M_next = t;
					t = x._M_prev; x._M_prev = y._M_prev; y._M_prev = t;
					x._M_next->_M_prev = x._M_prev->_M_next = &x;
					y._M_next->_M_prev = y._M_prev->_M_next = &y;
				}
				else
				{
					y._M_next = x._M_next; y._M_prev = x._M_prev;
					y._M_next->_M_prev = y._M_prev->_M_next = &y;
					x._M_next = x._M_prev = &x;
				}
			}
			else if (y._M_next != &y)
			{
				x._M_next = y._M_next; x._M_prev = y._M_prev;
				x._M_next->_M_prev = x._M_prev->_M_next = &x;
				y._M_next = y._M_prev = &y;
			}
		}

		static const unsigned long Primes[] = { 2, 5, 11, 23, 47, 97, 197, 397 };
		size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
		{
			for (size_t i = 0; i < sizeof(Primes) / sizeof(Primes[0]); ++i)
				if (Primes[i] >= n)
				{
					_M_next_resize = Primes[i];
					return Primes[i];
				}
			_M_next_resize = n;
			return n;
		}
		pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nbkt, size_t nelt, size_t nins) const
		{
			if (nelt + nins > _M_next_resize)
				return pair<bool, size_t>(true, _M_next_bkt(nelt + nins + 1 > 2 * nbkt ? nelt + nins + 1 : 2 * nbkt));
			return pair<bool, size_t>(false, 0);
		}
	}
}

// thread-local errno: one cell
static int VcErrno;
extern "C" int* __errno_location() noexcept { return &VcErrno; }
