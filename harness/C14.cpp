//@ bound: every gap-free DOF table and every ordered set of prescribed DOFs (also none and all) for 1 element x 2 nodes on 2 nodes x 2 components (fixed connectivity), every connectivity as well on 3 nodes x 1 component (thorough: 2 elements), all matrix, right-hand side and solution values symbolic reals; a 12 x 11 (thorough: 16 x 14) mesh of quadrilaterals and a 3 x 2 x 2 mesh of hexahedra with an irregular numbering, with and without periodic DOFs
//@ assume: DOF numbers have no gaps; prescribed DOFs are distinct; rows (columns) passed to set/add are distinct; nodal vectors are compatible with shared DOFs
//@ outside: the linear algebra inside the solver is covered for the default solver with up to 2 unknown DOFs; otherwise the system handed to the solver is checked
#include "mat.h"
#include "decoy.h"
using GooseFEM::MatrixPartitioned;
static void check(const PSys& s, const MatrixPartitioned& A, const D2& ref)
{
    D2 d = A.Todense(), d2 = junk2(s.ndof, s.ndof);
    A.todense(d2);
    same(d, ref, "dense form");
    same(d2, ref, "dense form");
    same(fromSparse(A.data_uu()), block(ref, s.iiu, s.iiu), "block uu");
    same(fromSparse(A.data_up()), block(ref, s.iiu, s.iip), "block up");
    same(fromSparse(A.data_pu()), block(ref, s.iip, s.iiu), "block pu");
    same(fromSparse(A.data_pp()), block(ref, s.iip, s.iip), "block pp");
    D1 x = symD1(s.ndof, "x"), y = A.Dot(x), y2 = junk1(s.ndof), yr = mul(ref, x);
    A.dot(x, y2);
    same(y, yr, "product with DOF values");
    same(y2, yr, "product with DOF values");
    D2 xn = nodes(s, x), yn = A.Dot(xn), yn2 = junk2(s.nnode, s.ndim);
    A.dot(xn, yn2);
    same(yn, nodes(s, yr), "product with nodal vector");
    same(yn2, nodes(s, yr), "product with nodal vector");
    // reactions
    D1 b = symD1(s.ndof, "b"), br = mixDofs(s.iip, yr, b), b1 = A.Reaction(x, b), b2 = b;
    A.reaction(x, b2);
    same(b1, br, "reaction in DOF values");
    same(b2, br, "reaction in DOF values");
    D2 bn = nodes(s, b), bn1 = A.Reaction(xn, bn), bn2 = bn;
    A.reaction(xn, bn2);
    same(bn1, nodes(s, br), "reaction in nodal vector");
    same(bn2, nodes(s, br), "reaction in nodal vector");
    D1 xu = part(x, s.iiu), xp = part(x, s.iip), bp = A.Reaction_p(xu, xp), bp2 = junk1(s.iip.size());
    A.reaction_p(xu, xp, bp2);
    same(bp, part(yr, s.iip), "reaction on prescribed DOFs");
    same(bp2, part(yr, s.iip), "reaction on prescribed DOFs");
}
static void assemble(const PSys& s)
{
    MatrixPartitioned A(s.conn, s.dofs, s.iip);
    decoy<MatrixPartitioned>();
    sizes(A, s);
    sym_equ(A.nnu(), s.iiu.size(), "nnu");
    sym_equ(A.nnp(), s.iip.size(), "nnp");
    sameU(A.iiu(), s.iiu, "iiu");
    sameU(A.iip(), s.iip, "iip");
    D3 K0 = symK(s, "K0"), K = symK(s, "K");
    A.assemble(K0);
    A.assemble(K);
    check(s, A, dense(s, K));
}
static void edit()
{
    PSys s = pchain(2, 1, sym_size("nnp", 0, 3));
    MatrixPartitioned A(s.conn, s.dofs, s.iip);
    decoy<MatrixPartitioned>();
    D3 K = symK(s, "K");
    bool before = sym_concretize(sym_bool("assemble_first"));
    D2 ref = zero2(3, 3);
    if (before) {
        A.assemble(K);
        ref = dense(s, K);
    }
    size_t n = sym_size("nrows", 1, 2), m = sym_size("ncols", 1, 2);
    I1 r = symDistinct(n, 3, "row"), c = symDistinct(m, 3, "col");
    concretizeAll(r);
    concretizeAll(c);
    D2 v = symD2(n, m, "v");
    if (sym_concretize(sym_bool("set"))) {
        A.set(r, c, v);
        ref = zero2(3, 3);
    } else A.add(r, c, v);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < m; ++j) ref(r(i), c(j)) += v(i, j);
    check(s, A, ref);
}
static void solve(const PSys& s)
{
    MatrixPartitioned A(s.conn, s.dofs, s.iip);
    decoy<MatrixPartitioned>();
    D3 K = symK(s, "K");
    A.assemble(K);
    D2 ref = dense(s, K), Auu = block(ref, s.iiu, s.iiu), Aup = block(ref, s.iiu, s.iip);
    GooseFEM::MatrixPartitionedSolver<Spy> S;
    D1 b = symD1(s.ndof, "b"), x = symD1(s.ndof, "x"), bu = part(b, s.iiu), xp = part(x, s.iip), rhs = bu, a = mul(Aup, xp);
    for (size_t k = 0; k < rhs.size(); ++k) rhs(k) -= a(k);
    D1 y = S.Solve(A, b, x), y2 = x;
    Spy::asked(Auu, rhs, "system for DOF values");
    same(y, scatter(s.iiu, Spy::lastX, x), "solution for DOF values");
    S.solve(A, b, y2);
    Spy::asked(Auu, rhs, "system for DOF values");
    same(y2, scatter(s.iiu, Spy::lastX, x), "solution for DOF values");
    D2 bn = nodes(s, b), xn = nodes(s, x), yn = S.Solve(A, bn, xn), yn2 = xn;
    Spy::asked(Auu, rhs, "system for a nodal vector");
    same(yn, nodes(s, scatter(s.iiu, Spy::lastX, x)), "solution for a nodal vector");
    S.solve(A, bn, yn2);
    Spy::asked(Auu, rhs, "system for a nodal vector");
    same(yn2, nodes(s, scatter(s.iiu, Spy::lastX, x)), "solution for a nodal vector");
    D1 yu = S.Solve_u(A, bu, xp), yu2 = junk1(s.iiu.size());
    Spy::asked(Auu, rhs, "system for the unknown part");
    same(yu, Spy::lastX, "solution for the unknown part");
    S.solve_u(A, bu, xp, yu2);
    Spy::asked(Auu, rhs, "system for the unknown part");
    same(yu2, Spy::lastX, "solution for the unknown part");
}
// the default solver, on any matrix with a symmetric (also indefinite) unknown block of two DOFs
static void symmetric()
{
    PSys s = pchain(2, 1, 1);
    MatrixPartitioned A(s.conn, s.dofs, s.iip);
    decoy<MatrixPartitioned>();
    D3 K = symK(s, "K");
    for (size_t e = 0; e < 2; ++e) K(e, 1, 0) = K(e, 0, 1);
    D2 ref = dense(s, K), u = block(ref, s.iiu, s.iiu);
    sym_assume((u(0, 0) >= 0.1) | (u(0, 0) <= -0.1));
    double det = u(0, 0) * u(1, 1) - u(0, 1) * u(0, 1);
    sym_assume((det >= 0.01) | (det <= -0.01));
    sym_assume((u(1, 1) >= 0.1) | (u(1, 1) <= -0.1));
    A.assemble(K);
    GooseFEM::MatrixPartitionedSolver<> S;
    D1 b = symD1(3, "b"), x0 = symD1(3, "x"), x = S.Solve(A, b, x0), y = A.Dot(x);
    for (auto k : s.iiu) sym_eq(y(k), b(k), "the solution satisfies the unknown equations");
    for (auto k : s.iip) sym_eq(x(k), x0(k), "prescribed values are kept");
    D1 r = A.Reaction(x, b);
    same(A.Dot(x), r, "with the reaction the full system is satisfied");
}
extern "C" {
void h_assemble12() { assemble(symPSys(1, 2, 2, 2, 1, THOROUGH ? 4 : 3, true)); }
void h_assemble11() { assemble(symPSys(THOROUGH ? 2 : 1, 2, 3, 1, 1, 3)); }
void h_edit() { edit(); }
void h_solve12() { solve(symPSys(1, 2, 2, 2, 1, THOROUGH ? 4 : 3, true)); }
void h_solve11() { solve(symPSys(THOROUGH ? 2 : 1, 2, 3, 1, 1, 3)); }
void h_symmetric() { symmetric(); }
void h_mesh() { assemble(pgrid(THOROUGH ? 16 : 12, THOROUGH ? 14 : 11, 1)); }
void h_mesh_solve() { solve(pgrid(THOROUGH ? 16 : 12, THOROUGH ? 14 : 11, 1)); }
}
