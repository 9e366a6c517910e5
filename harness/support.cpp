// Parts of the C++ runtime library that the symbolic executor interprets instead of calling: explicit instantiations
// and re-implementations of out-of-line libstdc++ functions.  Linked into every harness module (not into the replays).
#include <cstring>
#include <string>
template class std::__cxx11::basic_string<char>;
#include <list>
#include <map>
#include <unordered_map>
namespace std {
// unbalanced trees are fine here
static bool is_header(const _Rb_tree_node_base* x) { return x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) {
        x = y;
        y = y->_M_parent;
    }
    if (x->_M_right != y) x = y;
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if (is_header(x)) return x->_M_right;
    if (x->_M_left) {
        x = x->_M_left;
        while (x->_M_right) x = x->_M_right;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) {
            h._M_parent = x;
            h._M_right = x;
        } else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
    _Rb_tree_node_base *l = z->_M_left, *r = z->_M_right, *p = z->_M_parent, *s;
    // replacement subtree: hang the left part below the smallest of the right part
    if (!r) s = l;
    else {
        s = r;
        if (l) {
            _Rb_tree_node_base* m = r;
            while (m->_M_left) m = m->_M_left;
            m->_M_left = l;
            l->_M_parent = m;
        }
    }
    if (s) s->_M_parent = p;
    if (h._M_parent == z) h._M_parent = s;
    else if (p->_M_left == z) p->_M_left = s;
    else p->_M_right = s;
    _Rb_tree_node_base* root = h._M_parent;
    if (!root) {
        h._M_left = h._M_right = &h;
    } else {
        h._M_left = root;
        while (h._M_left->_M_left) h._M_left = h._M_left->_M_left;
        h._M_right = root;
        while (h._M_right->_M_right) h._M_right = h._M_right->_M_right;
    }
    return z;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static const size_t primes[] = {1, 2, 5, 11, 29, 61, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043};
    for (size_t p : primes)
        if (p >= n) {
            _M_next_resize = p;
            return p;
        }
    return n | 1;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    if (elt + ins > _M_next_resize || elt + ins > bkt) {
        size_t want = elt + ins > 2 * bkt ? elt + ins : 2 * bkt;
        return {true, _M_next_bkt(want)};
    }
    return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
    _M_next = p;
    _M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    _M_next->_M_prev = _M_prev;
    _M_prev->_M_next = _M_next;
}
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept
{
    if (this == l) return;
    l->_M_prev->_M_next = this;
    f->_M_prev->_M_next = l;
    this->_M_prev->_M_next = f;
    _List_node_base* t = this->_M_prev;
    this->_M_prev = l->_M_prev;
    l->_M_prev = f->_M_prev;
    f->_M_prev = t;
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    if (x._M_next != &x) {
        if (y._M_next != &y) {
            std::swap(x._M_next, y._M_next);
            std::swap(x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
        } else {
            y._M_next = x._M_next;
            y._M_prev = x._M_prev;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x;
        }
    } else if (y._M_next != &y) {
        x._M_next = y._M_next;
        x._M_prev = y._M_prev;
        x._M_next->_M_prev = x._M_prev->_M_next = &x;
        y._M_next = y._M_prev = &y;
    }
}
void _List_node_base::_M_reverse() noexcept
{
    _List_node_base* t = this;
    do {
        std::swap(t->_M_next, t->_M_prev);
        t = t->_M_prev;
    } while (t != this);
}
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
    const unsigned char* c = (const unsigned char*)p;
    size_t h = seed;
    for (size_t k = 0; k < n; ++k) h = (h ^ c[k]) * 1099511628211ull;
    return h;
}
}  // namespace std
#include <cmath>
extern "C" {
double hypot(double a, double b) { return __builtin_sqrt(a * a + b * b); }
double fmod(double a, double b) { return a - __builtin_trunc(a / b) * b; }
double exp2(double a) { return __builtin_pow(2.0, a); }
double nearbyint(double a)
{
    double f = __builtin_floor(a), d = a - f;
    if (d < 0.5) return f;
    if (d > 0.5) return f + 1;
    double h = f / 2;
    return __builtin_floor(h) == h ? f : f + 1;
}
double rint(double a) { return nearbyint(a); }
}
