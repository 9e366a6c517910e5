// Helpers for harnesses on system matrices: dense reference, and a solver that records what it is given.
#pragma once
#include "arr.h"
#include <GooseFEM/MatrixPartitioned.h>
#include <GooseFEM/MatrixPartitionedTyings.h>
#include <GooseFEM/TyingsPeriodic.h>
#include <GooseFEM/VectorPartitionedTyings.h>
struct Sys {
    size_t nelem, nne, nnode, ndim, ndof;
    I2 conn, dofs;
};
// every connectivity and every gap-free DOF table
inline Sys symSys(size_t nelem, size_t nne, size_t nnode, size_t ndim, size_t lo, size_t hi)
{
    Sys s;
    s.nelem = nelem; s.nne = nne; s.nnode = nnode; s.ndim = ndim;
    s.ndof = sym_size("ndof", lo, hi);
    s.conn = symI2(nelem, nne, nnode - 1, "conn");
    s.dofs = symDofs(nnode, ndim, s.ndof);
    concretizeAll(s.conn);
    concretizeAll(s.dofs);
    return s;
}
// a fixed chain of 2-node elements, with one DOF per node and component
inline Sys chain(size_t nelem, size_t ndim)
{
    Sys s;
    s.nelem = nelem; s.nne = 2; s.nnode = nelem + 1; s.ndim = ndim; s.ndof = s.nnode * ndim;
    s.conn = xt::zeros<size_t>({nelem, (size_t)2});
    s.dofs = xt::zeros<size_t>({s.nnode, ndim});
    for (size_t e = 0; e < nelem; ++e) { s.conn(e, 0) = e; s.conn(e, 1) = e + 1; }
    for (size_t m = 0; m < s.nnode; ++m)
        for (size_t i = 0; i < ndim; ++i) s.dofs(m, i) = m * ndim + i;
    return s;
}
inline Sys grid(size_t nx, size_t ny, size_t ndim)
{
    Tables t = anyTables(nx, ny, ndim);
    Sys s;
    s.nelem = t.conn.shape(0); s.nne = t.conn.shape(1); s.nnode = t.dofs.shape(0); s.ndim = t.dofs.shape(1); s.ndof = t.ndof;
    s.conn = t.conn;
    s.dofs = t.dofs;
    return s;
}
// element matrices: an entry next to the diagonal and one in the corner have any value in [-1, 1]; the others have a
// fixed sign (both signs occur), such that an implementation that skips zeros does not branch on every one of them
inline D3 symK(const Sys& s, const char* name)
{
    size_t n = s.nne * s.ndim;
    D3 r = xt::zeros<double>({s.nelem, n, n});
    for (size_t e = 0; e < s.nelem; ++e)
        for (size_t p = 0; p < n; ++p)
            for (size_t q = 0; q < n; ++q) {
                bool any = (e == 0 && p == 0 && q == 1) || (e + 1 == s.nelem && p + 1 == n && q == 0);
                bool neg = (e + p + q) % 3 == 1;
                r(e, p, q) = sym_real(name, any || neg ? -1 : 0.25, any || !neg ? 1 : -0.25);
            }
    return r;
}
// sizes and tables that every matrix reports
template <class M>
inline void sizes(const M& A, const Sys& s)
{
    sym_equ(A.ndof(), s.ndof, "ndof");
    sym_equ(A.nelem(), s.nelem, "nelem");
    sym_equ(A.nne(), s.nne, "nne");
    sym_equ(A.nnode(), s.nnode, "nnode");
    sym_equ(A.ndim(), s.ndim, "ndim");
    sameU(A.conn(), s.conn, "conn");
    sameU(A.dofs(), s.dofs, "dofs");
    size_t n = s.nne * s.ndim;
    std::array<size_t, 1> d = A.shape_dofval();
    std::array<size_t, 2> v = A.shape_nodevec();
    std::array<size_t, 3> m = A.shape_elemmat();
    sym_equ(d[0], s.ndof, "shape_dofval");
    sym_equ(v[0], s.nnode, "shape_nodevec");
    sym_equ(v[1], s.ndim, "shape_nodevec");
    sym_equ(m[0], s.nelem, "shape_elemmat");
    sym_equ(m[1], n, "shape_elemmat");
    sym_equ(m[2], n, "shape_elemmat");
}
inline D2 zero2(size_t n, size_t m) { return xt::zeros<double>({n, m}); }
inline D1 zero1(size_t n) { return xt::zeros<double>({n}); }
inline D2 dense(const Sys& s, const D3& K)
{
    D2 r = zero2(s.ndof, s.ndof);
    for (size_t e = 0; e < s.nelem; ++e)
        for (size_t m = 0; m < s.nne; ++m)
            for (size_t i = 0; i < s.ndim; ++i)
                for (size_t n = 0; n < s.nne; ++n)
                    for (size_t j = 0; j < s.ndim; ++j)
                        r(s.dofs(s.conn(e, m), i), s.dofs(s.conn(e, n), j)) += K(e, m * s.ndim + i, n * s.ndim + j);
    return r;
}
inline D1 mul(const D2& A, const D1& x)
{
    D1 r = zero1(A.shape(0));
    for (size_t i = 0; i < A.shape(0); ++i)
        for (size_t j = 0; j < A.shape(1); ++j) r(i) += A(i, j) * x(j);
    return r;
}
inline D2 mul2(const D2& A, const D2& B)
{
    D2 r = zero2(A.shape(0), B.shape(1));
    for (size_t i = 0; i < A.shape(0); ++i)
        for (size_t j = 0; j < A.shape(1); ++j)
            for (size_t k = 0; k < B.shape(1); ++k) r(i, k) += A(i, j) * B(j, k);
    return r;
}
inline D2 trans(const D2& A)
{
    D2 r = zero2(A.shape(1), A.shape(0));
    for (size_t i = 0; i < A.shape(0); ++i)
        for (size_t j = 0; j < A.shape(1); ++j) r(j, i) = A(i, j);
    return r;
}
inline D2 block(const D2& A, const I1& r, const I1& c)
{
    D2 b = zero2(r.size(), c.size());
    for (size_t i = 0; i < r.size(); ++i)
        for (size_t j = 0; j < c.size(); ++j) b(i, j) = A(r(i), c(j));
    return b;
}
inline D1 part(const D1& x, const I1& r)
{
    D1 b = zero1(r.size());
    for (size_t i = 0; i < r.size(); ++i) b(i) = x(r(i));
    return b;
}
inline D2 nodes(const Sys& s, const D1& x)
{
    D2 r = zero2(s.nnode, s.ndim);
    for (size_t m = 0; m < s.nnode; ++m)
        for (size_t i = 0; i < s.ndim; ++i) r(m, i) = x(s.dofs(m, i));
    return r;
}
inline I1 complement(const I1& a, size_t n)
{
    std::vector<size_t> v;
    for (size_t k = 0; k < n; ++k) {
        bool in = false;
        for (auto x : a) in = in || x == k;
        if (!in) v.push_back(k);
    }
    I1 r = xt::zeros<size_t>({v.size()});
    for (size_t k = 0; k < v.size(); ++k) r(k) = v[k];
    return r;
}
inline I1 range(size_t a, size_t b)
{
    I1 r = xt::zeros<size_t>({b - a});
    for (size_t k = a; k < b; ++k) r(k - a) = k;
    return r;
}
inline I1 none() { return xt::zeros<size_t>({(size_t)0}); }
template <class SP> D2 fromSparse(const SP& A)
{
    D2 r = zero2(A.rows(), A.cols());
    for (size_t i = 0; i < r.shape(0); ++i)
        for (size_t j = 0; j < r.shape(1); ++j) r(i, j) = A.coeff(i, j);
    return r;
}
inline Eigen::SparseMatrix<double> toSparse(const D2& A)
{
    Eigen::SparseMatrix<double> r(A.shape(0), A.shape(1));
    std::vector<Eigen::Triplet<double>> t;
    for (size_t i = 0; i < A.shape(0); ++i)
        for (size_t j = 0; j < A.shape(1); ++j) t.push_back(Eigen::Triplet<double>(i, j, A(i, j)));
    r.setFromTriplets(t.begin(), t.end());
    return r;
}
// Stands in for the linear solver: solve() may return anything, so what is checked is which system it was asked to
// solve (lastA, lastB) and what became of the answer (lastX).
struct Spy {
    Eigen::SparseMatrix<double> A;
    static D2 lastA;
    static D1 lastB, lastX;
    static size_t calls;
    Spy() = default;
    Spy& analyzePattern(const Eigen::SparseMatrix<double>&) { return *this; }
    Spy& factorize(const Eigen::SparseMatrix<double>& M) { A = M; return *this; }
    Spy& compute(const Eigen::SparseMatrix<double>& M) { A = M; return *this; }
    Eigen::ComputationInfo info() const { return Eigen::Success; }
    template <class V> Eigen::VectorXd solve(const V& b0) const
    {
        Eigen::VectorXd b = b0, x(b.size());
        lastA = fromSparse(A);
        lastB = zero1(b.size());
        lastX = symD1(b.size(), "x_solver");
        for (Eigen::Index i = 0; i < b.size(); ++i) {
            lastB(i) = b(i);
            x(i) = lastX(i);
        }
        ++calls;
        return x;
    }
    static void asked(const D2& A, const D1& b, const char* msg)
    {
        sym_assert(calls == 1, "solves once");
        calls = 0;
        same(lastA, A, msg);
        same(lastB, b, msg);
    }
};
D2 Spy::lastA;
D1 Spy::lastB, Spy::lastX;
size_t Spy::calls = 0;
// a system with a set of prescribed DOFs (any order)
struct PSys : Sys {
    I1 iip, iiu;
};
inline PSys symPSys(size_t nelem, size_t nne, size_t nnode, size_t ndim, size_t lo, size_t hi, bool fixConn = false, bool some = false)
{
    PSys s;
    s.nelem = nelem; s.nne = nne; s.nnode = nnode; s.ndim = ndim;
    s.ndof = sym_size("ndof", lo, hi);
    size_t nnp = sym_size("nnp", some ? 1 : 0, some ? s.ndof - 1 : s.ndof);
    s.conn = symI2(nelem, nne, nnode - 1, "conn");
    if (fixConn)
        for (size_t e = 0; e < nelem; ++e)
            for (size_t m = 0; m < nne; ++m) s.conn(e, m) = (e + m) % nnode;
    s.dofs = symDofs(nnode, ndim, s.ndof);
    s.iip = nnp ? symDistinct(nnp, s.ndof, "iip") : none();
    concretizeAll(s.conn);
    concretizeAll(s.dofs);
    concretizeAll(s.iip);
    s.iiu = complement(s.iip, s.ndof);
    return s;
}
inline PSys pchain(size_t nelem, size_t ndim, size_t nnp)
{
    PSys s;
    (Sys&)s = chain(nelem, ndim);
    s.iip = nnp ? symDistinct(nnp, s.ndof, "iip") : none();
    concretizeAll(s.iip);
    s.iiu = complement(s.iip, s.ndof);
    return s;
}
// every third DOF prescribed, in descending order
inline PSys pgrid(size_t nx, size_t ny, size_t ndim)
{
    PSys s;
    (Sys&)s = grid(nx, ny, ndim);
    s.iip = xt::zeros<size_t>({(s.ndof + 2) / 3});
    for (size_t k = 0; k < s.iip.size(); ++k) s.iip(k) = (s.iip.size() - 1 - k) * 3;
    s.iiu = complement(s.iip, s.ndof);
    return s;
}
inline bool contains(const I1& a, size_t k)
{
    for (auto v : a)
        if (v == k) return true;
    return false;
}
// a where p, else b (by DOF)
inline D1 mixDofs(const I1& p, const D1& a, const D1& b)
{
    D1 r = b;
    for (auto k : p) r(k) = a(k);
    return r;
}
inline D1 scatter(const I1& p, const D1& a, const D1& b)
{
    D1 r = b;
    for (size_t k = 0; k < p.size(); ++k) r(p(k)) = a(k);
    return r;
}
// a system with DOFs ordered [unknown, prescribed, dependent] and any tying coefficients
struct TSys : Sys {
    size_t nnu, nnp, nnd, nni;
    D2 Cdu, Cdp, Cdi;
    I1 iiu, iip, iii, iid;
};
inline TSys symTSys(size_t nelem, size_t nne, size_t nnode, size_t ndim, size_t hi, bool fixConn = true, bool unk = true)
{
    TSys s;
    s.nelem = nelem; s.nne = nne; s.nnode = nnode; s.ndim = ndim;
    s.ndof = sym_size("ndof", 1, hi);
    s.nnu = sym_size("nnu", unk ? 1 : 0, s.ndof);
    s.nnp = sym_size("nnp", 0, s.ndof - s.nnu);
    s.nni = s.nnu + s.nnp;
    s.nnd = s.ndof - s.nni;
    s.conn = symI2(nelem, nne, nnode - 1, "conn");
    if (fixConn)
        for (size_t e = 0; e < nelem; ++e)
            for (size_t m = 0; m < nne; ++m) s.conn(e, m) = (e + m) % nnode;
    s.dofs = symDofs(nnode, ndim, s.ndof);
    concretizeAll(s.conn);
    concretizeAll(s.dofs);
    s.Cdi = symD2(s.nnd, s.nni, "C");
    s.iiu = range(0, s.nnu);
    s.iip = range(s.nnu, s.nni);
    s.iii = range(0, s.nni);
    s.iid = range(s.nni, s.ndof);
    s.Cdu = block(s.Cdi, range(0, s.nnd), s.iiu);
    s.Cdp = block(s.Cdi, range(0, s.nnd), s.iip);
    return s;
}
inline TSys tgrid(size_t nx, size_t ny, size_t ndim)
{
    TSys s;
    (Sys&)s = grid(nx, ny, ndim);
    s.nnd = s.ndof / 4;
    s.nnp = s.ndof / 3;
    s.nnu = s.ndof - s.nnd - s.nnp;
    s.nni = s.nnu + s.nnp;
    s.Cdi = zero2(s.nnd, s.nni);
    for (size_t k = 0; k < s.nnd; ++k)
        for (size_t j = 0; j < 3; ++j) s.Cdi(k, (5 * k + j * (s.nni / 3)) % s.nni) = j ? sym_real("C", -1, 1) : 1.0;
    s.iiu = range(0, s.nnu);
    s.iip = range(s.nnu, s.nni);
    s.iii = range(0, s.nni);
    s.iid = range(s.nni, s.ndof);
    s.Cdu = block(s.Cdi, range(0, s.nnd), s.iiu);
    s.Cdp = block(s.Cdi, range(0, s.nnd), s.iip);
    return s;
}
inline D1 plus(const D1& a, const D1& b)
{
    D1 r = a;
    for (size_t k = 0; k < a.size(); ++k) r(k) += b(k);
    return r;
}
inline D1 minus(const D1& a, const D1& b)
{
    D1 r = a;
    for (size_t k = 0; k < a.size(); ++k) r(k) -= b(k);
    return r;
}
inline D2 plus2(const D2& a, const D2& b)
{
    D2 r = a;
    for (size_t k = 0; k < a.shape(0); ++k)
        for (size_t l = 0; l < a.shape(1); ++l) r(k, l) += b(k, l);
    return r;
}
// element matrices with only diagonal entries
inline D3 symKdiag(const Sys& s, const char* name, double lo = -1, double hi = 1)
{
    size_t n = s.nne * s.ndim;
    D3 K = xt::zeros<double>({s.nelem, n, n});
    for (size_t e = 0; e < s.nelem; ++e)
        for (size_t m = 0; m < n; ++m) {
            bool any = lo > 0 || (e == 0 && m == 0), neg = (e + m) % 2;
            K(e, m, m) = sym_real(name, any || neg ? lo : 0.1, any || !neg ? hi : -0.1);
        }
    return K;
}
inline D1 diagonal(const D2& A)
{
    D1 r = zero1(A.shape(0));
    for (size_t k = 0; k < r.size(); ++k) r(k) = A(k, k);
    return r;
}
inline D1 times(const D1& a, const D1& b)
{
    D1 r = a;
    for (size_t k = 0; k < a.size(); ++k) r(k) *= b(k);
    return r;
}
