// Definitions of the few functions of libstdc++ that are not in its headers: what the containers need of them.
// (The trees are not rebalanced: that is not observable.)
#pragma once
#include <list>
#include <map>

namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept {
	_M_next = p; _M_prev = p->_M_prev;
	p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept {
	_M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
	if(this == last) return;
	last->_M_prev->_M_next = this;
	first->_M_prev->_M_next = last;
	_M_prev->_M_next = first;
	auto* const p = _M_prev;
	_M_prev = last->_M_prev;
	last->_M_prev = first->_M_prev;
	first->_M_prev = p;
}
void _List_node_base::_M_reverse() noexcept {
	auto* n = this;
	do {
		auto* const next = n->_M_next;
		n->_M_next = n->_M_prev; n->_M_prev = next;
		n = next;
	} while(n != this);
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
	const bool ex = x._M_next == &x, ey = y._M_next == &y;
	_List_node_base* xn = x._M_next; _List_node_base* xp = x._M_prev;
	if(ey) x._M_next = x._M_prev = &x;
	else { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
	if(ex) y._M_next = y._M_prev = &y;
	else { y._M_next = xn; y._M_prev = xp; xn->_M_prev = xp->_M_next = &y; }
}
} // namespace __detail

_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
	if(x->_M_right) {
		x = x->_M_right;
		while(x->_M_left) x = x->_M_left;
		return x;
	}
	auto* y = x->_M_parent;
	while(x == y->_M_right) { x = y; y = y->_M_parent; }
	return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept {
	return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
	if(x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;   // end()
	if(x->_M_left) {
		x = x->_M_left;
		while(x->_M_right) x = x->_M_right;
		return x;
	}
	auto* y = x->_M_parent;
	while(x == y->_M_left) { x = y; y = y->_M_parent; }
	return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept {
	return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
// all nodes are black but the header
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p,
		_Rb_tree_node_base& h) noexcept {
	x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
	if(left) {
		p->_M_left = x;
		if(p == &h) { h._M_parent = x; h._M_right = x; }
		else if(p == h._M_left) h._M_left = x;
	} else {
		p->_M_right = x;
		if(p == h._M_right) h._M_right = x;
	}
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
	auto put = [&](_Rb_tree_node_base* n) {      // n in the place of z
		if(h._M_parent == z) h._M_parent = n;
		else if(z->_M_parent->_M_left == z) z->_M_parent->_M_left = n;
		else z->_M_parent->_M_right = n;
		if(n) n->_M_parent = z->_M_parent;
	};
	auto* const next = _Rb_tree_increment(z);
	auto* const prev = z == h._M_left ? &h : _Rb_tree_decrement(z);
	if(h._M_left == z) h._M_left = next;
	if(h._M_right == z) h._M_right = prev;
	if(!z->_M_left) { put(z->_M_right); return z; }
	if(!z->_M_right) { put(z->_M_left); return z; }
	auto* const y = next;                        // the leftmost of the right subtree
	if(y->_M_parent != z) {
		y->_M_parent->_M_left = y->_M_right;
		if(y->_M_right) y->_M_right->_M_parent = y->_M_parent;
		y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
	}
	y->_M_left = z->_M_left; z->_M_left->_M_parent = y;
	put(y);
	return z;
}
} // namespace std
