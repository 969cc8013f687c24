// Ordered-tree primitives of libstdc++ (red-black insertion).
#include <map>
namespace std {
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
    if (x->_M_right != y) x = y; return x;
}
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw () { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw () { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw () { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw () { return dec(const_cast<_Rb_tree_node_base*>(x)); }
static void rot(_Rb_tree_node_base* x, _Rb_tree_node_base*& root, bool left) {
    _Rb_tree_node_base* y = left ? x->_M_right : x->_M_left; _Rb_tree_node_base*& in = left ? x->_M_right : x->_M_left; _Rb_tree_node_base*& out = left ? y->_M_left : y->_M_right;
    in = out; if (out) out->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
    out = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw () {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    _Rb_tree_node_base*& root = h._M_parent;
    while (x != root && x->_M_parent->_M_color == _S_red) {
        _Rb_tree_node_base* g = x->_M_parent->_M_parent; bool l = x->_M_parent == g->_M_left; _Rb_tree_node_base* u = l ? g->_M_right : g->_M_left;
        if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; continue; }
        if (x == (l ? x->_M_parent->_M_right : x->_M_parent->_M_left)) { x = x->_M_parent; rot(x, root, l); }
        x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rot(g, root, !l);
    }
    root->_M_color = _S_black;
}
}
