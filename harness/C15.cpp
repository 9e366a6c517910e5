//@ bound: every gap-free DOF table with up to 3 DOFs (thorough: 4) on 2 nodes x 2 components and every connectivity with up to 3 DOFs on 3 nodes x 1 component, every split in unknown, prescribed and dependent DOFs, all matrix, tying, load and solution values symbolic reals; a 12 x 11 (thorough: 16 x 14) mesh of quadrilaterals and a 3 x 2 x 2 mesh of hexahedra with an irregular numbering, with and without periodic DOFs
//@ assume: DOFs are ordered unknown, prescribed, dependent, with at least one unknown; nodal vectors are compatible with shared DOFs
//@ outside: the linear algebra inside the solver is covered for the default solver with 1 or 2 unknown DOFs; otherwise the system handed to the solver is checked; products and reactions, which the class documents as not implemented, are required to throw
#include "mat.h"
#include "decoy.h"
using GooseFEM::MatrixPartitionedTyings;
static void check(const TSys& s, const MatrixPartitionedTyings& A, const D2& ref)
{
    D2 d = A.Todense(), d2 = junk2(s.ndof, s.ndof);
    A.todense(d2);
    same(d, ref, "dense form");
    same(d2, ref, "dense form");
    same(fromSparse(A.data_uu()), block(ref, s.iiu, s.iiu), "block uu");
    same(fromSparse(A.data_up()), block(ref, s.iiu, s.iip), "block up");
    same(fromSparse(A.data_ud()), block(ref, s.iiu, s.iid), "block ud");
    same(fromSparse(A.data_pu()), block(ref, s.iip, s.iiu), "block pu");
    same(fromSparse(A.data_pp()), block(ref, s.iip, s.iip), "block pp");
    same(fromSparse(A.data_pd()), block(ref, s.iip, s.iid), "block pd");
    same(fromSparse(A.data_du()), block(ref, s.iid, s.iiu), "block du");
    same(fromSparse(A.data_dp()), block(ref, s.iid, s.iip), "block dp");
    same(fromSparse(A.data_dd()), block(ref, s.iid, s.iid), "block dd");
}
static void assemble(const TSys& s)
{
    MatrixPartitionedTyings A(s.conn, s.dofs, toSparse(s.Cdu), toSparse(s.Cdp));
    decoy<MatrixPartitionedTyings>();
    sizes(A, s);
    sym_equ(A.nnu(), s.nnu, "nnu");
    sym_equ(A.nnp(), s.nnp, "nnp");
    sym_equ(A.nni(), s.nni, "nni");
    sym_equ(A.nnd(), s.nnd, "nnd");
    sameU(A.iiu(), s.iiu, "iiu");
    sameU(A.iip(), s.iip, "iip");
    sameU(A.iii(), s.iii, "iii");
    sameU(A.iid(), s.iid, "iid");
    D3 K0 = symK(s, "K0"), K = symK(s, "K");
    A.assemble(K0);
    A.assemble(K);
    check(s, A, dense(s, K));
}
static void solve(const TSys& s)
{
    MatrixPartitionedTyings A(s.conn, s.dofs, toSparse(s.Cdu), toSparse(s.Cdp));
    decoy<MatrixPartitionedTyings>();
    D3 K = symK(s, "K");
    A.assemble(K);
    D2 ref = dense(s, K), Cud = trans(s.Cdu), Aud = block(ref, s.iiu, s.iid), Add = block(ref, s.iid, s.iid);
    D2 ACuu = plus2(plus2(block(ref, s.iiu, s.iiu), mul2(Aud, s.Cdu)), mul2(Cud, plus2(block(ref, s.iid, s.iiu), mul2(Add, s.Cdu))));
    D2 ACup = plus2(plus2(block(ref, s.iiu, s.iip), mul2(Aud, s.Cdp)), mul2(Cud, plus2(block(ref, s.iid, s.iip), mul2(Add, s.Cdp))));
    GooseFEM::MatrixPartitionedTyingsSolver<Spy> S;
    D1 b = symD1(s.ndof, "b"), x = symD1(s.ndof, "x"), bu = part(b, s.iiu), bd = part(b, s.iid), xp = part(x, s.iip);
    D1 rhs = minus(plus(bu, mul(Cud, bd)), mul(ACup, xp));
    auto answer = [&]() {
        D1 xd = plus(mul(s.Cdu, Spy::lastX), mul(s.Cdp, xp));
        return scatter(s.iid, xd, scatter(s.iiu, Spy::lastX, x));
    };
    D2 bn = nodes(s, b), xn = nodes(s, x), yn = S.Solve(A, bn, xn), yn2 = xn;
    Spy::asked(ACuu, rhs, "system for a nodal vector");
    same(yn, nodes(s, answer()), "solution for a nodal vector");
    S.solve(A, bn, yn2);
    Spy::asked(ACuu, rhs, "system for a nodal vector");
    same(yn2, nodes(s, answer()), "solution for a nodal vector");
    D1 y = S.Solve(A, b, x), y2 = x;
    Spy::asked(ACuu, rhs, "system for DOF values");
    same(y, answer(), "solution for DOF values");
    S.solve(A, b, y2);
    Spy::asked(ACuu, rhs, "system for DOF values");
    same(y2, answer(), "solution for DOF values");
    D1 yu = S.Solve_u(A, bu, bd, xp), yu2 = junk1(s.nnu);
    Spy::asked(ACuu, rhs, "system for the unknown part");
    same(yu, Spy::lastX, "solution for the unknown part");
    S.solve_u(A, bu, bd, xp, yu2);
    Spy::asked(ACuu, rhs, "system for the unknown part");
    same(yu2, Spy::lastX, "solution for the unknown part");
}
static void unimplemented()
{
    TSys s = symTSys(1, 2, 2, 1, 2);
    MatrixPartitionedTyings A(s.conn, s.dofs, toSparse(s.Cdu), toSparse(s.Cdp));
    decoy<MatrixPartitionedTyings>();
    D3 K = symK(s, "K");
    A.assemble(K);
    D1 x = symD1(s.ndof, "x"), b = x;
    D2 n = nodes(s, x), m = n;
    SYM_THROWS(A.dot(x, b), "product is refused");
    SYM_THROWS(A.dot(n, m), "product is refused");
    SYM_THROWS(A.reaction(x, b), "reaction is refused");
    SYM_THROWS(A.reaction(n, m), "reaction is refused");
}
// the default solver: three nodes in a chain, the last tied to the others with any coefficients
static void spd(size_t nnp)
{
    TSys s;
    (Sys&)s = chain(2, 1);
    s.nnp = nnp; s.nnu = 2 - nnp; s.nni = 2; s.nnd = 1;
    s.Cdi = symD2(1, 2, "C");
    s.iiu = range(0, s.nnu);
    s.iip = range(s.nnu, 2);
    s.Cdu = block(s.Cdi, range(0, 1), s.iiu);
    s.Cdp = block(s.Cdi, range(0, 1), s.iip);
    D3 K = symK(s, "K");
    for (size_t e = 0; e < 2; ++e) K(e, 1, 0) = K(e, 0, 1);
    D2 ref = dense(s, K);
    // condensed matrix: T^T A T with T = [1; C]
    D2 Tm = zero2(3, 2);
    Tm(0, 0) = 1; Tm(1, 1) = 1; Tm(2, 0) = s.Cdi(0, 0); Tm(2, 1) = s.Cdi(0, 1);
    D2 c = mul2(trans(Tm), mul2(ref, Tm));
    sym_assume(c(0, 0) >= 0.1);
    if (s.nnu == 2) sym_assume(c(0, 0) * c(1, 1) - c(0, 1) * c(1, 0) >= 0.01);
    MatrixPartitionedTyings A(s.conn, s.dofs, toSparse(s.Cdu), toSparse(s.Cdp));
    decoy<MatrixPartitionedTyings>();
    A.assemble(K);
    GooseFEM::MatrixPartitionedTyingsSolver<> S;
    D1 b = symD1(3, "b"), x0 = symD1(3, "x");
    D2 xn = S.Solve(A, nodes(s, b), nodes(s, x0));
    D1 x = zero1(3);
    for (size_t k = 0; k < 3; ++k) x(k) = xn(k, 0);
    D1 r = mul(trans(Tm), minus(mul(ref, x), b));
    for (auto k : s.iiu) sym_eq(r(k), 0, "the condensed equations hold");
    for (auto k : s.iip) sym_eq(x(k), x0(k), "prescribed values are kept");
    sym_eq(x(2), s.Cdi(0, 0) * x(0) + s.Cdi(0, 1) * x(1), "the tying holds");
}
extern "C" {
void h_assemble12() { assemble(symTSys(1, 2, 2, 2, THOROUGH ? 4 : 3)); }
void h_assemble11() { assemble(symTSys(1, 2, 3, 1, 3, !THOROUGH)); }
void h_solve12() { solve(symTSys(1, 2, 2, 2, THOROUGH ? 4 : 3)); }
void h_solve11() { solve(symTSys(THOROUGH ? 2 : 1, 2, 3, 1, 3, false)); }
void h_unimplemented() { unimplemented(); }
void h_spd() { spd(1); }
void ht_spd2() { spd(0); }
void h_mesh() { assemble(tgrid(THOROUGH ? 16 : 12, THOROUGH ? 14 : 11, 1)); }
void h_mesh_solve() { solve(tgrid(THOROUGH ? 16 : 12, THOROUGH ? 14 : 11, 1)); }
}
