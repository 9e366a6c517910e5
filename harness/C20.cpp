//@ bound: DOF tables of up to 2 x 2 entries (and lists of up to 4) with values in 0..4 (numbering: of 1 to 4 and of 300 nodes), any holes and repetitions; all partitions of up to 5 DOFs in up to three lists in any order, empty lists included; tables of 17 to 34 (thorough: 66) x 2 entries with holes and repetitions, and five lists of that many DOFs
#include "arr.h"
using namespace GooseFEM::Mesh;
static size_t top(const I2& d)
{
    size_t t = 0;
    for (auto v : d) t = v > t ? v : t;
    return t;
}
extern "C" {
void h_dofs()
{
    size_t n = sym_size("nnode", 1, 5), d = sym_size("ndim", 1, 4);
    if (n == 5) n = 300;
    I2 r = dofs(n, d);
    sameShape(r, std::vector<size_t>{n, d}, "shape of dofs");
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < d; ++j) sym_equ(r(i, j), i * d + j, "DOFs are numbered node by node");
}
void h_renumber()
{
    size_t n = sym_size("nnode", 1, 2), d = sym_size("ndim", 1, 2);
    I2 a = symI2(n, d, 4, "dofs");
    concretizeAll(a);
    I2 r = renumber(a);
    Renumber o(a);
    sameU(o.apply(a), r, "Renumber agrees with renumber");
    I1 idx = o.index();
    sym_equ(idx.size(), top(a) + 1, "size of the renumber-index");
    size_t distinct = 0;
    for (size_t k = 0; k <= top(a); ++k) {
        bool hit = false;
        for (auto v : a) hit = hit | (v == k);
        if (hit) {
            sym_equ(idx(k), distinct, "numbers are consecutive and in the original order");
            ++distinct;
        }
    }
    sameShape(r, std::vector<size_t>{n, d}, "shape");
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < d; ++j) sym_equ(r(i, j), idx(a(i, j)), "every occurrence is renumbered with the index");
    // another list
    I1 l = xt::zeros<size_t>({size_t(2)});
    l(0) = a(n - 1, d - 1);
    l(1) = a(0, 0);
    I1 m = o.apply(l);
    sym_equ(m(0), idx(l(0)), "other list");
    sym_equ(m(1), idx(l(1)), "other list");
    GooseFEM::array_type::tensor<size_t, 3> z = xt::zeros<size_t>({size_t(2), n, d});
    for (size_t k = 0; k < 2; ++k)
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < d; ++j) z(k, i, j) = a(k ? n - 1 - i : i, j);
    auto w = o.apply(z);
    for (size_t k = 0; k < 2; ++k)
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < d; ++j) sym_equ(w(k, i, j), idx(z(k, i, j)), "array of rank 3");
}
void h_reorder()
{
    // 'who' tells in which list a DOF is (3: none), 'key' gives the order within the list
    size_t n = sym_size("ndof", 1, THOROUGH ? 5 : 4);
    std::vector<std::vector<size_t>> s(3);
    std::vector<size_t> who(n);
    for (size_t k = 0; k < n; ++k) {
        who[k] = sym_size("list", 0, 3);
        if (who[k] < 3) {
            size_t at = sym_size("position", 0, s[who[k]].size());
            s[who[k]].insert(s[who[k]].begin() + at, k);
        }
    }
    I1 l[3];
    size_t all = 0;
    for (size_t i = 0; i < 3; ++i) {
        l[i] = xt::zeros<size_t>({s[i].size()});
        for (size_t j = 0; j < s[i].size(); ++j) l[i](j) = s[i][j];
        all += s[i].size();
    }
    sym_assume(all > 0);
    Reorder o({l[0], l[1], l[2]});
    I1 idx = o.index();
    size_t next = 0, last = 0;
    for (size_t i = 0; i < 3; ++i)
        for (auto k : s[i]) {
            sym_equ(idx(k), next, "lists are numbered one after the other, in their own order");
            ++next;
            last = k > last ? k : last;
        }
    sym_equ(idx.size(), last + 1, "size of the index");
    I2 t = xt::zeros<size_t>({all, size_t(2)});
    size_t r = 0;
    for (size_t i = 3; i-- > 0;)
        for (auto k : s[i]) {
            t(r, 0) = k;
            t(r, 1) = s[i][0];
            ++r;
        }
    I2 u = o.apply(t);
    sameShape(u, std::vector<size_t>{all, 2}, "shape");
    for (size_t k = 0; k < all; ++k)
        for (size_t j = 0; j < 2; ++j) sym_equ(u(k, j), idx(t(k, j)), "apply uses the index for every item");
}
void h_reject()
{
    I1 a = symI1(3, 3, "a"), b = symI1(1, 4, "b");
    bool rep = false;
    for (size_t i = 0; i < 3; ++i)
        for (size_t j = 0; j < i; ++j) rep = rep | (a(i) == a(j));
    sym_assume(rep);
    SYM_THROWS(Reorder({b, a}), "a list with repeated items is rejected");
}
void h_large()
{
    // many DOFs, with holes and repetitions, in an irregular order
    size_t n = sym_size("nnode", 17, THOROUGH ? 66 : 34), step = sym_size("step", 1, 3);
    I2 a = xt::zeros<size_t>({n, size_t(2)});
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < 2; ++j) a(i, j) = step * ((i * 7 + 11 * j) % (n - n / 4)) + (i % 5 == 4);
    I2 r = renumber(a);
    Renumber o(a);
    sameU(o.apply(a), r, "Renumber agrees with renumber");
    I1 idx = o.index();
    sym_equ(idx.size(), top(a) + 1, "size of the renumber-index");
    size_t distinct = 0;
    for (size_t k = 0; k <= top(a); ++k) {
        bool hit = false;
        for (auto v : a) hit = hit | (v == k);
        if (hit) {
            sym_equ(idx(k), distinct, "numbers are consecutive and in the original order");
            ++distinct;
        }
    }
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < 2; ++j) sym_equ(r(i, j), idx(a(i, j)), "every occurrence is renumbered with the index");
    // five lists
    std::vector<I1> l(5);
    for (size_t q = 0; q < 5; ++q) {
        std::vector<size_t> v;
        for (size_t k = 0; k < n; ++k)
            if ((k * k + k / 3) % 5 == q) v.push_back(n - 1 - k);
        l[q] = xt::zeros<size_t>({v.size()});
        for (size_t k = 0; k < v.size(); ++k) l[q](k) = v[q % 2 ? k : v.size() - 1 - k];
    }
    Reorder e({l[0], l[1], l[2], l[3], l[4]});
    I1 ie = e.index();
    sym_equ(ie.size(), n, "size of the index");
    size_t next = 0;
    for (size_t q = 0; q < 5; ++q)
        for (auto k : l[q]) {
            sym_equ(ie(k), next, "lists are numbered one after the other, in their own order");
            ++next;
        }
    I1 all = xt::zeros<size_t>({n});
    for (size_t k = 0; k < n; ++k) all(k) = k;
    sameU(e.apply(all), ie, "apply uses the index for every item");
}
}
