// Helpers for harnesses on DOF/connectivity tables: symbolic index tables and definitions by case distinction.
#pragma once
#include "sym.h"
#include <GooseFEM/GooseFEM.h>
#include <vector>
typedef xt::xtensor<double, 1> D1;
typedef xt::xtensor<double, 2> D2;
typedef xt::xtensor<double, 3> D3;
typedef xt::xtensor<size_t, 1> I1;
typedef xt::xtensor<size_t, 2> I2;
inline I2 symI2(size_t n, size_t m, size_t hi, const char* name)
{
    I2 r = xt::zeros<size_t>({n, m});
    for (auto& v : r) v = sym_u64(name, 0, hi);
    return r;
}
inline I1 symI1(size_t n, size_t hi, const char* name)
{
    I1 r = xt::zeros<size_t>({n});
    for (auto& v : r) v = sym_u64(name, 0, hi);
    return r;
}
inline D1 symD1(size_t n, const char* name)
{
    D1 r = xt::zeros<double>({n});
    for (auto& v : r) v = sym_real(name, -1, 1);
    return r;
}
inline D2 symD2(size_t n, size_t m, const char* name)
{
    D2 r = xt::zeros<double>({n, m});
    for (auto& v : r) v = sym_real(name, -1, 1);
    return r;
}
inline D3 symD3(size_t n, size_t m, size_t k, const char* name)
{
    D3 r = xt::zeros<double>({n, m, k});
    for (auto& v : r) v = sym_real(name, -1, 1);
    return r;
}
// explore every value of every entry
template <class A> void concretizeAll(A& a)
{
    for (auto& v : a) v = sym_concretize(v);
}
template <class A, class B> void sameShape(const A& a, const B& b, const char* msg)
{
    sym_assert(a.dimension() == b.size(), msg);
    size_t k = 0;
    for (auto n : b) sym_assert(a.shape(k++) == (size_t)n, msg);
}
template <class A, class B> void same(const A& a, const B& b, const char* msg)
{
    sym_assert(a.dimension() == b.dimension() && a.size() == b.size(), msg);
    for (size_t k = 0; k < a.dimension(); ++k) sym_assert(a.shape(k) == b.shape(k), msg);
    auto i = a.begin();
    for (auto j = b.begin(); j != b.end(); ++j, ++i) sym_eq(*i, *j, msg);
}
template <class A, class B> void sameU(const A& a, const B& b, const char* msg)
{
    sym_assert(a.dimension() == b.dimension() && a.size() == b.size(), msg);
    for (size_t k = 0; k < a.dimension(); ++k) sym_assert(a.shape(k) == b.shape(k), msg);
    auto i = a.begin();
    for (auto j = b.begin(); j != b.end(); ++j, ++i) sym_equ(*i, *j, msg);
}
// a(i) by case distinction
inline double at(const D1& a, size_t i)
{
    double r = 0;
    for (size_t k = 0; k < a.size(); ++k) r = sym_ite(k == i, a(k), r);
    return r;
}
inline size_t atu(const I1& a, size_t i)
{
    size_t r = 0;
    for (size_t k = 0; k < a.size(); ++k) r = sym_iteu(k == i, a(k), r);
    return r;
}
// DOF of component i of node n (n symbolic)
inline size_t dofOf(const I2& dofs, size_t n, size_t i)
{
    size_t r = 0;
    for (size_t k = 0; k < dofs.shape(0); ++k) r = sym_iteu(k == n, dofs(k, i), r);
    return r;
}
inline double nodeVal(const D2& v, size_t n, size_t i)
{
    double r = 0;
    for (size_t k = 0; k < v.shape(0); ++k) r = sym_ite(k == n, v(k, i), r);
    return r;
}
// DOF table without gaps: every number below ndof occurs
inline I2 symDofs(size_t nnode, size_t ndim, size_t ndof, const char* name = "dofs")
{
    I2 d = symI2(nnode, ndim, ndof - 1, name);
    for (size_t k = 0; k < ndof; ++k) {
        bool hit = false;
        for (auto v : d) hit = hit | (v == k);
        sym_assume(hit);
    }
    return d;
}
// distinct entries below n
inline I1 symDistinct(size_t m, size_t n, const char* name)
{
    I1 r = symI1(m, n - 1, name);
    for (size_t a = 0; a < m; ++a)
        for (size_t b = 0; b < a; ++b) sym_assume(r(a) != r(b));
    return r;
}
inline D1 junk1(size_t n) { D1 r = xt::zeros<double>({n}); r.fill(7.5); return r; }
inline D2 junk2(size_t n, size_t m) { D2 r = xt::zeros<double>({n, m}); r.fill(7.5); return r; }
inline D3 junk3(size_t n, size_t m, size_t k) { D3 r = xt::zeros<double>({n, m, k}); r.fill(7.5); return r; }
struct Tables { I2 conn, dofs; size_t ndof; };
// a structured mesh of quadrilaterals with nodes and DOFs numbered irregularly; periodic: opposite edges share their DOFs
// (nz > 0: a mesh of hexahedra)
inline Tables gridTables(size_t nx, size_t ny, size_t ndim, bool periodic, size_t nz = 0)
{
    Tables s;
    size_t layers = nz ? nz : 1, nelem = nx * ny * layers, nnode = (nx + 1) * (ny + 1) * (nz + 1);
    size_t px = periodic ? nx : nx + 1, py = periodic ? ny : ny + 1, pz = periodic && nz ? nz : nz + 1;
    s.ndof = px * py * pz * ndim;
    auto shuffle = [](size_t k, size_t n) {
        size_t step = n > 11 ? 7 : 2;
        while (true) {  // a step that has no factor in common with n
            size_t a = n, b = step;
            while (b) { size_t t = a % b; a = b; b = t; }
            if (a == 1) break;
            ++step;
        }
        return (k * step + n / 2) % n;
    };
    auto node = [&](size_t x, size_t y, size_t z) { return shuffle((z * (ny + 1) + y) * (nx + 1) + x, nnode); };
    s.conn = xt::zeros<size_t>({nelem, size_t(nz ? 8 : 4)});
    s.dofs = xt::zeros<size_t>({nnode, ndim});
    for (size_t z = 0; z < layers; ++z)
        for (size_t y = 0; y < ny; ++y)
            for (size_t x = 0; x < nx; ++x)
                for (size_t k = 0; k < (nz ? 2 : 1); ++k) {
                    size_t e = (z * ny + y) * nx + x;
                    s.conn(e, 4 * k) = node(x, y, z + k);
                    s.conn(e, 4 * k + 1) = node(x + 1, y, z + k);
                    s.conn(e, 4 * k + 2) = node(x + 1, y + 1, z + k);
                    s.conn(e, 4 * k + 3) = node(x, y + 1, z + k);
                }
    for (size_t z = 0; z <= nz; ++z)
        for (size_t y = 0; y <= ny; ++y)
            for (size_t x = 0; x <= nx; ++x)
                for (size_t i = 0; i < ndim; ++i)
                    s.dofs(node(x, y, z), i) = shuffle(((z % pz * py + y % py) * px + x % px) * ndim + i, s.ndof);
    return s;
}
// quadrilaterals or hexahedra, periodic or not
inline Tables anyTables(size_t nx, size_t ny, size_t ndim)
{
    size_t kind = sym_size("mesh", 0, 3);
    return kind < 2 ? gridTables(nx, ny, ndim, kind) : gridTables(3, 2, 3, kind == 3, 2);
}
