//@ bound: two matrices and two solvers of one kind (sparse, partitioned, tied, and diagonal), every sequence of 3 (thorough: 4) operations out of assembling, setting, adding, copying and solving in all combinations, followed by solving with all combinations; one 2-node element, all entries symbolic reals
//@ outside: longer histories; the linear algebra inside the solver
#include "mat.h"
template <class M> struct Ref {
    M A;
    D2 d;
};
template <class M> D2 condense(const Sys& s, const D2& d);
static I1 iip1() { I1 p = xt::zeros<size_t>({(size_t)1}); p(0) = 0; return p; }
static double C0, C1;  // tying coefficients: x2 = C0 x0 + C1 x1
struct KindM {
    typedef GooseFEM::Matrix M;
    typedef GooseFEM::MatrixSolver<Spy> S;
    static Sys sys() { return chain(1, 1); }
    static M make(const Sys& s) { return M(s.conn, s.dofs); }
    static void solve(const Sys& s, M& A, const D2& d, S& S)
    {
        D1 b = symD1(s.ndof, "b"), x = S.Solve(A, b);
        Spy::asked(d, b, "solves for the current matrix");
        same(x, Spy::lastX, "solution");
    }
};
struct KindP {
    typedef GooseFEM::MatrixPartitioned M;
    typedef GooseFEM::MatrixPartitionedSolver<Spy> S;
    static Sys sys() { return chain(2, 1); }
    static M make(const Sys& s) { return M(s.conn, s.dofs, iip1()); }
    static void solve(const Sys& s, M& A, const D2& d, S& S)
    {
        I1 u = complement(iip1(), s.ndof);
        D1 b = symD1(s.ndof, "b"), x0 = symD1(s.ndof, "x0"), x = S.Solve(A, b, x0);
        Spy::asked(block(d, u, u), minus(part(b, u), mul(block(d, u, iip1()), part(x0, iip1()))), "solves for the current matrix");
        same(part(x, u), Spy::lastX, "solution");
    }
};
struct KindT {
    typedef GooseFEM::MatrixPartitionedTyings M;
    typedef GooseFEM::MatrixPartitionedTyingsSolver<Spy> S;
    static Sys sys() { return chain(2, 1); }
    static M make(const Sys& s)
    {
        D2 u = zero2(1, 1), p = zero2(1, 1);
        u(0, 0) = C0; p(0, 0) = C1;
        return M(s.conn, s.dofs, toSparse(u), toSparse(p));
    }
    static void solve(const Sys& s, M& A, const D2& d, S& S)
    {
        D2 T = zero2(3, 2);
        T(0, 0) = 1; T(1, 1) = 1; T(2, 0) = C0; T(2, 1) = C1;
        D2 c = mul2(trans(T), mul2(d, T));
        D1 b = symD1(3, "b"), x0 = symD1(3, "x0"), bc = mul(trans(T), b), rhs = zero1(1);
        D2 x = S.Solve(A, nodes(s, b), nodes(s, x0)), a = zero2(1, 1);
        a(0, 0) = c(0, 0);
        rhs(0) = bc(0) - c(0, 1) * x0(1);
        Spy::asked(a, rhs, "solves for the current matrix");
        sym_eq(x(0, 0), Spy::lastX(0), "solution");
        sym_eq(x(2, 0), C0 * Spy::lastX(0) + C1 * x0(1), "solution");
    }
};
template <class M> void edit(M& A, D2& d, bool set)
{
    I1 r = range(0, 2), c = range(0, 2);
    D2 v = symD2(2, 2, "v");
    if (set) { A.set(r, c, v); d = zero2(d.shape(0), d.shape(1)); }
    else A.add(r, c, v);
    for (size_t i = 0; i < 2; ++i)
        for (size_t j = 0; j < 2; ++j) d(i, j) += v(i, j);
}
static void edit(GooseFEM::MatrixPartitionedTyings&, D2&, bool) { sym_assume(false); }
template <class Kind> void history(size_t len)
{
    Sys s = Kind::sys();
    C0 = sym_real("C0", -1, 1);
    C1 = sym_real("C1", -1, 1);
    auto A = Kind::make(s), B = Kind::make(s);
    typename Kind::S S, R;
    D3 K = symK(s, "KA"), L = symK(s, "KB");
    A.assemble(K);
    B.assemble(L);
    D2 a = dense(s, K), b = dense(s, L);
    for (size_t k = 0; k < len; ++k) {
        switch (sym_size("op", 0, 8)) {
        case 0: { D3 N = symK(s, "K"); A.assemble(N); a = dense(s, N); break; }
        case 1: { D3 N = symK(s, "K"); B.assemble(N); b = dense(s, N); break; }
        case 2: edit(A, a, false); break;
        case 3: edit(A, a, true); break;
        case 4: Kind::solve(s, A, a, S); break;
        case 5: Kind::solve(s, B, b, S); break;
        case 6: Kind::solve(s, A, a, R); break;
        case 7: Kind::solve(s, B, b, R); break;
        case 8: A = B; a = b; break;
        }
    }
    Kind::solve(s, A, a, S);
    Kind::solve(s, A, a, R);
    Kind::solve(s, B, b, S);
    Kind::solve(s, A, a, S);
}
// the diagonal matrices keep their own inverse
template <class M> void diag(M A, M B, const Sys& s, const I1& u, size_t len)
{
    auto val = [&](const char* n) { D1 v = symD1(2, n); for (auto x : v) sym_assume(x >= 0.1); return v; };
    D1 a = val("A"), b = val("B");
    A.set(a);
    B.set(b);
    auto solve = [&](M& X, const D1& d) {
        D1 r = symD1(2, "b"), x = symD1(2, "x0");
        X.solve(r, x);
        for (auto k : u) sym_eq(d(k) * x(k), r(k), "solves for the current matrix");
    };
    for (size_t k = 0; k < len; ++k) {
        switch (sym_size("op", 0, 5)) {
        case 0: { D3 N = symKdiag(s, "K", 0.1, 1); A.assemble(N); a = diagonal(dense(s, N)); break; }
        case 1: a = val("set"); A.set(a); break;
        case 2: b = val("set"); B.set(b); break;
        case 3: solve(A, a); break;
        case 4: solve(B, b); break;
        case 5: A = B; a = b; break;
        }
    }
    solve(A, a);
    solve(B, b);
    solve(A, a);
}
extern "C" {
void h_sparse() { history<KindM>(THOROUGH ? 4 : 3); }
void h_partitioned() { history<KindP>(THOROUGH ? 4 : 3); }
void h_tyings() { history<KindT>(THOROUGH ? 4 : 3); }
void h_diagonal() { Sys s = chain(1, 1); GooseFEM::MatrixDiagonal A(s.conn, s.dofs); diag(A, A, s, range(0, 2), THOROUGH ? 4 : 3); }
void h_diagonal_partitioned() { Sys s = chain(1, 1); GooseFEM::MatrixDiagonalPartitioned A(s.conn, s.dofs, iip1()); diag(A, A, s, range(1, 2), THOROUGH ? 4 : 3); }
}
