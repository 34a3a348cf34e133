// models of the tree functions of the C++ runtime library (insertion without rebalancing keeps the order, which is all a caller can observe)
#include <bits/stl_tree.h>
namespace std {
    typedef _Rb_tree_node_base N;
    N* _Rb_tree_increment(N* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } N* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
    const N* _Rb_tree_increment(const N* x) throw() { return _Rb_tree_increment(const_cast<N*>(x)); }
    N* _Rb_tree_decrement(N* x) throw() {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
        if (x->_M_left) { N* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
        N* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
    }
    const N* _Rb_tree_decrement(const N* x) throw() { return _Rb_tree_decrement(const_cast<N*>(x)); }
    void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) throw() {
        x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
        if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
        else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    }
    N* _Rb_tree_rebalance_for_erase(N* const z, N& h) throw() {
        N* const p = z->_M_parent; N* r;                                       // r takes the place of z
        if (!z->_M_left) r = z->_M_right;
        else if (!z->_M_right) r = z->_M_left;
        else {
            r = z->_M_right; while (r->_M_left) r = r->_M_left;
            if (r->_M_parent != z) { N* q = r->_M_parent; q->_M_left = r->_M_right; if (r->_M_right) r->_M_right->_M_parent = q; r->_M_right = z->_M_right; z->_M_right->_M_parent = r; }
            r->_M_left = z->_M_left; z->_M_left->_M_parent = r;
        }
        if (h._M_left == z) h._M_left = r ? r : p;
        if (h._M_left == r && r) while (h._M_left->_M_left) h._M_left = h._M_left->_M_left;
        if (h._M_right == z) h._M_right = r ? r : p;
        if (h._M_right == r && r) while (h._M_right->_M_right) h._M_right = h._M_right->_M_right;
        if (r) r->_M_parent = p;
        if (h._M_parent == z) h._M_parent = r; else if (p->_M_left == z) p->_M_left = r; else p->_M_right = r;
        return z;
    }
}
