//@ bound: every gap-free DOF table and every ordered set of prescribed DOFs (also none and all) for 1 element x 2 nodes on 2 nodes x 2 components (up to 3 DOFs, thorough 4), every connectivity as well on 3 nodes x 1 component, every sequence of up to 3 (thorough: 4) operations, all entries symbolic reals; a 12 x 11 (thorough: 16 x 14) mesh of quadrilaterals and a 3 x 2 x 2 mesh of hexahedra with an irregular numbering, with and without periodic DOFs
//@ assume: DOF numbers have no gaps; prescribed DOFs are distinct; element matrices are diagonal; solving assumes a diagonal bounded away from zero
#include "mat.h"
#include "decoy.h"
using GooseFEM::MatrixDiagonalPartitioned;
static void check(const PSys& s, MatrixDiagonalPartitioned& A, const D1& ref)
{
    same(A.data(), ref, "diagonal");
    same(A.Todiagonal(), ref, "diagonal");
    same(A.data_uu(), part(ref, s.iiu), "diagonal uu");
    same(A.data_pp(), part(ref, s.iip), "diagonal pp");
    D2 d = A.Todense(), d2 = junk2(s.ndof, s.ndof);
    A.todense(d2);
    for (size_t i = 0; i < s.ndof; ++i)
        for (size_t j = 0; j < s.ndof; ++j) {
            sym_eq(d(i, j), i == j ? ref(i) : 0, "dense form");
            sym_eq(d2(i, j), i == j ? ref(i) : 0, "dense form");
        }
    D1 x = symD1(s.ndof, "x"), y = A.Dot(x), y2 = junk1(s.ndof), yr = times(ref, x);
    A.dot(x, y2);
    same(y, yr, "product with DOF values");
    same(y2, yr, "product with DOF values");
    D2 xn = nodes(s, x), yn = A.Dot(xn), yn2 = junk2(s.nnode, s.ndim);
    A.dot(xn, yn2);
    same(yn, nodes(s, yr), "product with nodal vector");
    same(yn2, nodes(s, yr), "product with nodal vector");
    D1 xu = part(x, s.iiu), xp = part(x, s.iip), yu = A.Dot_u(xu, xp), yu2 = junk1(s.iiu.size()), yp = A.Dot_p(xu, xp), yp2 = junk1(s.iip.size());
    A.dot_u(xu, xp, yu2);
    A.dot_p(xu, xp, yp2);
    same(yu, part(yr, s.iiu), "product, unknown part");
    same(yu2, part(yr, s.iiu), "product, unknown part");
    same(yp, part(yr, s.iip), "product, prescribed part");
    same(yp2, part(yr, s.iip), "product, prescribed part");
    // reactions
    D1 b = symD1(s.ndof, "b"), br = mixDofs(s.iip, yr, b), b1 = A.Reaction(x, b), b2 = b;
    A.reaction(x, b2);
    same(b1, br, "reaction in DOF values");
    same(b2, br, "reaction in DOF values");
    D2 bn = nodes(s, b), bn1 = A.Reaction(xn, bn), bn2 = bn;
    A.reaction(xn, bn2);
    same(bn1, nodes(s, br), "reaction in nodal vector");
    same(bn2, nodes(s, br), "reaction in nodal vector");
    D1 bp = A.Reaction_p(xu, xp), bp2 = junk1(s.iip.size());
    A.reaction_p(xu, xp, bp2);
    same(bp, part(yr, s.iip), "reaction on prescribed DOFs");
    same(bp2, part(yr, s.iip), "reaction on prescribed DOFs");
}
static void solved(const PSys& s, MatrixDiagonalPartitioned& A, const D1& ref, bool all)
{
    D1 b = symD1(s.ndof, "b"), x0 = symD1(s.ndof, "x0"), x = x0;
    A.solve(b, x);
    for (auto k : s.iiu) sym_eq(ref(k) * x(k), b(k), "solution for DOF values");
    for (auto k : s.iip) sym_eq(x(k), x0(k), "prescribed values are kept");
    D1 bu = part(b, s.iiu), xp = part(x0, s.iip), xu = A.Solve_u(bu, xp), xu2 = junk1(s.iiu.size());
    A.solve_u(bu, xp, xu2);
    same(xu, part(x, s.iiu), "solution, unknown part");
    same(xu2, part(x, s.iiu), "solution, unknown part");
    if (!all) return;
    D2 bn = nodes(s, b), xn = nodes(s, x0);
    A.solve(bn, xn);
    same(xn, nodes(s, x), "solution for a nodal vector");
    D1 y = A.Solve(b);
    D2 yn = A.Solve(bn);
    for (auto k : s.iiu) sym_eq(y(k), x(k), "solution for DOF values");
    for (auto k : s.iip) sym_eq(y(k), 0, "prescribed values that are not given are zero");
    for (size_t m = 0; m < s.nnode; ++m)
        for (size_t i = 0; i < s.ndim; ++i)
            sym_eq(yn(m, i), contains(s.iiu, s.dofs(m, i)) ? x(s.dofs(m, i)) : 0, "solution for a nodal vector");
}
static void assemble(const PSys& s)
{
    MatrixDiagonalPartitioned A(s.conn, s.dofs, s.iip);
    decoy<MatrixDiagonalPartitioned>();
    sizes(A, s);
    sym_equ(A.nnu(), s.iiu.size(), "nnu");
    sym_equ(A.nnp(), s.iip.size(), "nnp");
    sameU(A.iiu(), s.iiu, "iiu");
    sameU(A.iip(), s.iip, "iip");
    D3 K0 = symKdiag(s, "K0"), K = symKdiag(s, "K", 0.1, 1);
    A.assemble(K0);
    A.assemble(K);
    D1 ref = diagonal(dense(s, K));
    check(s, A, ref);
    for (auto v : s.dofs) {
        bool reached = false;
        for (auto c : s.conn)
            for (size_t i = 0; i < s.ndim; ++i) reached = reached || s.dofs(c, i) == v;
        if (!reached) return;
    }
    solved(s, A, ref, true);
    ref = symD1(s.ndof, "set");
    for (auto v : ref) sym_assume(v >= 0.1);
    A.set(ref);
    check(s, A, ref);
    solved(s, A, ref, false);
}
static void history(size_t len)
{
    PSys s = pchain(1, 1, 1);
    MatrixDiagonalPartitioned A(s.conn, s.dofs, s.iip);
    decoy<MatrixDiagonalPartitioned>();
    D1 ref = symD1(2, "first");
    for (auto v : ref) sym_assume(v >= 0.1);
    A.set(ref);
    for (size_t k = 0; k < len; ++k) {
        switch (sym_size("op", 0, 4)) {
        case 0: { D3 K = symKdiag(s, "K", 0.1, 1); A.assemble(K); ref = diagonal(dense(s, K)); break; }
        case 1: { ref = symD1(2, "set"); for (auto v : ref) sym_assume(v >= 0.1); A.set(ref); break; }
        case 2: solved(s, A, ref, false); break;
        case 3: { D1 x = symD1(2, "x"); same(A.Dot(x), times(ref, x), "product"); break; }
        case 4: { MatrixDiagonalPartitioned B = A; D1 o = symD1(2, "other"); for (auto v : o) sym_assume(v >= 0.1); B.set(o); solved(s, B, o, false); break; }
        }
    }
    check(s, A, ref);
    solved(s, A, ref, true);
}
extern "C" {
void h_assemble12() { assemble(symPSys(1, 2, 2, 2, 1, THOROUGH ? 4 : 3, true)); }
void h_assemble11() { assemble(symPSys(1, 2, 3, 1, 1, 3)); }
void h_history() { history(THOROUGH ? 4 : 3); }
void h_mesh() { assemble(pgrid(THOROUGH ? 16 : 12, THOROUGH ? 14 : 11, 2)); }
}
