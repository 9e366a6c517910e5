//@ bound: every connectivity and every gap-free DOF table (shared DOFs included) for 2 elements x 2 nodes on 3 nodes x 1 component and 1 element x 2 nodes on 2 nodes x 2 components (thorough: 1 x 3 on 2 x 2 and 3 elements x 2 nodes), every pair of distinct rows/columns, all matrix, right-hand side and solution values symbolic reals; a 12 x 11 (thorough: 16 x 14) mesh of quadrilaterals and a 3 x 2 x 2 mesh of hexahedra with an irregular numbering, with and without periodic DOFs
//@ assume: DOF numbers have no gaps; rows (columns) passed to set/add are distinct; right-hand sides on nodes are compatible with shared DOFs
//@ outside: the linear algebra inside the solver is covered for the default solver with up to 2 DOFs; otherwise the system handed to the solver is checked
#include "mat.h"
#include "decoy.h"
using GooseFEM::Matrix;
static void check(const Sys& s, const Matrix& A, const D2& ref)
{
    D2 d = A.Todense(), d2 = junk2(s.ndof, s.ndof);
    A.todense(d2);
    same(d, ref, "dense form");
    same(d2, ref, "dense form");
    same(fromSparse(A.data()), ref, "sparse form");
    D1 x = symD1(s.ndof, "x"), y = A.Dot(x), y2 = junk1(s.ndof), yr = mul(ref, x);
    A.dot(x, y2);
    same(y, yr, "product with DOF values");
    same(y2, yr, "product with DOF values");
    D2 xn = nodes(s, x), yn = A.Dot(xn), yn2 = junk2(s.nnode, s.ndim);
    A.dot(xn, yn2);
    same(yn, nodes(s, yr), "product with nodal vector");
    same(yn2, nodes(s, yr), "product with nodal vector");
}
static void assemble(const Sys& s)
{
    Matrix A(s.conn, s.dofs);
    decoy<Matrix>();
    sizes(A, s);
    D3 K0 = symK(s, "K0"), K = symK(s, "K");
    A.assemble(K0);
    check(s, A, dense(s, K0));
    A.assemble(K);
    check(s, A, dense(s, K));
}
static void edit()
{
    Sys s = chain(2, 1);
    Matrix A(s.conn, s.dofs);
    decoy<Matrix>();
    D3 K = symK(s, "K");
    bool before = sym_concretize(sym_bool("assemble_first"));
    D2 ref = zero2(3, 3);
    if (before) {
        A.assemble(K);
        ref = dense(s, K);
    }
    for (int k = 0; k < 2; ++k) {
        size_t n = sym_size("nrows", 1, 2), m = sym_size("ncols", 1, THOROUGH ? 2 : 1);
        I1 r = symDistinct(n, 3, "row"), c = symDistinct(m, 3, "col");
        concretizeAll(r);
        concretizeAll(c);
        D2 v = symD2(n, m, "v");
        if (k == 0 && sym_concretize(sym_bool("set"))) {
            A.set(r, c, v);
            ref = zero2(3, 3);
        } else A.add(r, c, v);
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < m; ++j) ref(r(i), c(j)) += v(i, j);
    }
    check(s, A, ref);
    A.assemble(K);
    check(s, A, dense(s, K));
}
static void solve(const Sys& s)
{
    Matrix A(s.conn, s.dofs);
    decoy<Matrix>();
    D3 K = symK(s, "K");
    A.assemble(K);
    D2 ref = dense(s, K);
    GooseFEM::MatrixSolver<Spy> S;
    D1 b = symD1(s.ndof, "b"), x = S.Solve(A, b), x2 = junk1(s.ndof);
    Spy::asked(ref, b, "system for DOF values");
    same(x, Spy::lastX, "solution for DOF values");
    S.solve(A, b, x2);
    Spy::asked(ref, b, "system for DOF values");
    same(x2, Spy::lastX, "solution for DOF values");
    D2 bn = nodes(s, b), xn = S.Solve(A, bn), xn2 = junk2(s.nnode, s.ndim);
    Spy::asked(ref, b, "system for a nodal vector");
    same(xn, nodes(s, Spy::lastX), "solution for a nodal vector");
    S.solve(A, bn, xn2);
    Spy::asked(ref, b, "system for a nodal vector");
    same(xn2, nodes(s, Spy::lastX), "solution for a nodal vector");
}
// the default solver, on any symmetric (also indefinite) matrix of two DOFs
static void symmetric()
{
    Sys s = chain(1, 1);
    Matrix A(s.conn, s.dofs);
    decoy<Matrix>();
    D3 K = symK(s, "K");
    double a = K(0, 0, 0), c = K(0, 0, 1), d = K(0, 1, 1);
    K(0, 1, 0) = c;
    sym_assume(a >= 0.1);
    sym_assume((a * d - c * c >= 0.01) | (a * d - c * c <= -0.01));
    sym_assume(d >= 0.1);
    A.assemble(K);
    GooseFEM::MatrixSolver<> S;
    D1 b = symD1(2, "b"), x = S.Solve(A, b);
    same(A.Dot(x), b, "the solution satisfies the system");
    D2 bn = nodes(s, b), xn = S.Solve(A, bn);
    same(A.Dot(xn), bn, "the nodal solution satisfies the system");
}
// three DOFs in a chain
static void symmetric3()
{
    Sys s = chain(2, 1);
    Matrix A(s.conn, s.dofs);
    decoy<Matrix>();
    D3 K = xt::zeros<double>({size_t(2), size_t(2), size_t(2)});
    for (size_t e = 0; e < 2; ++e) {
        K(e, 1, 0) = K(e, 0, 1) = sym_real("K", -0.45, 0.45);
        for (size_t i = 0; i < 2; ++i) K(e, i, i) = sym_real("K", 0.5, 1);
    }
    A.assemble(K);
    GooseFEM::MatrixSolver<> S;
    D1 b = symD1(3, "b"), x = S.Solve(A, b);
    same(A.Dot(x), b, "the solution satisfies the system");
}
extern "C" {
void h_assemble21() { assemble(symSys(2, 2, 3, 1, 1, 3)); }
void h_assemble12() { assemble(symSys(1, 2, 2, 2, 1, 4)); }
void ht_assemble31() { assemble(symSys(3, 2, 3, 1, 1, 3)); }
void ht_assemble13() { assemble(symSys(1, 3, 2, 2, 1, 4)); }
void h_edit() { edit(); }
void h_solve21() { solve(symSys(2, 2, 3, 1, 1, 3)); }
void h_solve12() { solve(symSys(1, 2, 2, 2, 1, 4)); }
void h_symmetric() { symmetric(); }
void h_symmetric3() { symmetric3(); }
void h_mesh() { assemble(grid(THOROUGH ? 16 : 12, THOROUGH ? 14 : 11, 1)); }
void h_mesh_solve() { solve(grid(THOROUGH ? 16 : 12, THOROUGH ? 14 : 11, 1)); }
}
