//@ bound: every connectivity and gap-free DOF table for 2 elements x 2 nodes on 3 nodes x 1 component and 1 element x 2 nodes on 2 nodes x 2 components, every sequence of up to 3 (thorough: 4) operations, all entries symbolic reals; a 12 x 11 (thorough: 16 x 14) mesh of quadrilaterals and a 3 x 2 x 2 mesh of hexahedra with an irregular numbering, with and without periodic DOFs
//@ assume: DOF numbers have no gaps; element matrices are diagonal; solving assumes a diagonal bounded away from zero
#include "mat.h"
#include "decoy.h"
using GooseFEM::MatrixDiagonal;
static void check(const Sys& s, MatrixDiagonal& A, const D1& ref)
{
    same(A.data(), ref, "diagonal");
    same(A.Todiagonal(), ref, "diagonal");
    D2 d = A.Todense(), d2 = junk2(s.ndof, s.ndof);
    A.todense(d2);
    for (size_t i = 0; i < s.ndof; ++i)
        for (size_t j = 0; j < s.ndof; ++j) {
            sym_eq(d(i, j), i == j ? ref(i) : 0, "dense form");
            sym_eq(d2(i, j), i == j ? ref(i) : 0, "dense form");
        }
    D1 x = symD1(s.ndof, "x"), y = A.Dot(x), y2 = junk1(s.ndof), yr = times(ref, x);
    A.dot(x, y2);
    same(y, yr, "product with DOF values");
    same(y2, yr, "product with DOF values");
    D2 xn = nodes(s, x), yn = A.Dot(xn), yn2 = junk2(s.nnode, s.ndim);
    A.dot(xn, yn2);
    same(yn, nodes(s, yr), "product with nodal vector");
    same(yn2, nodes(s, yr), "product with nodal vector");
}
static void solved(const Sys& s, MatrixDiagonal& A, const D1& ref, bool all)
{
    D1 b = symD1(s.ndof, "b"), x = A.Solve(b);
    same(times(ref, x), b, "solution for DOF values");
    if (!all) return;
    D1 x2 = junk1(s.ndof);
    A.solve(b, x2);
    same(times(ref, x2), b, "solution for DOF values");
    D2 bn = nodes(s, b), xn = A.Solve(bn), xn2 = junk2(s.nnode, s.ndim);
    A.solve(bn, xn2);
    same(xn, nodes(s, x), "solution for a nodal vector");
    same(xn2, nodes(s, x), "solution for a nodal vector");
}
static void assemble(const Sys& s)
{
    MatrixDiagonal A(s.conn, s.dofs);
    decoy<MatrixDiagonal>();
    sizes(A, s);
    D3 K0 = symKdiag(s, "K0"), K = symKdiag(s, "K", 0.1, 1);
    A.assemble(K0);
    check(s, A, diagonal(dense(s, K0)));
    A.assemble(K);
    D1 ref = diagonal(dense(s, K));
    check(s, A, ref);
    for (auto v : s.dofs) {
        bool reached = false;
        for (auto c : s.conn)
            for (size_t i = 0; i < s.ndim; ++i) reached = reached || s.dofs(c, i) == v;
        if (!reached) return;
    }
    solved(s, A, ref, true);
    ref = symD1(s.ndof, "set");
    for (auto v : ref) sym_assume(v >= 0.1);
    A.set(ref);
    same(A.data(), ref, "diagonal that is set");
    solved(s, A, ref, false);
}
static void history(size_t len)
{
    Sys s = chain(1, 1);
    MatrixDiagonal A(s.conn, s.dofs);
    decoy<MatrixDiagonal>();
    D1 ref = symD1(2, "first");
    for (auto v : ref) sym_assume(v >= 0.1);
    A.set(ref);
    check(s, A, ref);
    for (size_t k = 0; k < len; ++k) {
        switch (sym_size("op", 0, 4)) {
        case 0: { D3 K = symKdiag(s, "K", 0.1, 1); A.assemble(K); ref = diagonal(dense(s, K)); break; }
        case 1: { ref = symD1(2, "set"); for (auto v : ref) sym_assume(v >= 0.1); A.set(ref); break; }
        case 2: solved(s, A, ref, false); break;
        case 3: { D1 x = symD1(2, "x"); same(A.Dot(x), times(ref, x), "product"); break; }
        case 4: { MatrixDiagonal B = A; D1 o = symD1(2, "other"); for (auto v : o) sym_assume(v >= 0.1); B.set(o); solved(s, B, o, false); break; }
        }
    }
    check(s, A, ref);
    solved(s, A, ref, true);
}
extern "C" {
void h_assemble21() { assemble(symSys(2, 2, 3, 1, 1, 3)); }
void h_assemble12() { assemble(symSys(1, 2, 2, 2, 1, 4)); }
void h_history() { history(THOROUGH ? 4 : 3); }
void h_mesh() { assemble(grid(THOROUGH ? 16 : 12, THOROUGH ? 14 : 11, 2)); }
}
