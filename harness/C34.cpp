//@ bound: Vector/VectorPartitioned/VectorPartitionedTyings/Matrix*/solvers: 1 or 2 elements of 2 nodes, 2 or 3 nodes, 1 or 2 components: every array argument has any shape within one of the right one in each direction (in-place operations: both arguments at once); constructors: connectivity of 1 x 2 entries, DOFs of 2 x 1 or 2 x 2, up to 2 prescribed DOFs, all entries any value up to beyond the valid range, tying matrices of up to 3 x 3; periodic tyings: 3 nodes (thorough: 4), up to 2 ties; element operations: 1 or 2 quads and hexahedra, every dimension of every argument within one of the right one; mesh functions: index tables of up to 4 entries with any value up to beyond the valid range
//@ outside: arguments of another rank (mostly a compile error); products of MatrixPartitionedTyings are not implemented (throw for any input); Stitch and Vstack check the first mesh when the second is added
#include "mat.h"
#include <GooseFEM/MeshTri3.h>
#include <GooseFEM/MeshQuad4.h>
#include <GooseFEM/MeshHex8.h>
using namespace GooseFEM;
// the call throws if and only if the input is not valid
#define REJECT(ok, expr, msg)            \
    do {                                 \
        bool thrown_ = false;            \
        try { expr; }                    \
        catch (...) { thrown_ = true; }  \
        sym_assert(thrown_ == !(ok), msg); \
    } while (0)
static size_t around(const char* name, size_t n) { return sym_size(name, n - 1, n + 1); }
static D1 any1(const char* name, size_t n) { return xt::ones<double>({around(name, n)}); }
static D2 any2(const char* name, size_t n, size_t m)
{
    size_t k = sym_size(name, 0, 8);
    return xt::ones<double>({n - 1 + k / 3, m - 1 + k % 3});
}
static D3 any3(const char* name, size_t n, size_t m, size_t k)
{
    size_t l = sym_size(name, 0, 26);
    return xt::ones<double>({n - 1 + l / 9, m - 1 + l / 3 % 3, k - 1 + l % 3});
}
static bool is(const D1& a, size_t n) { return a.shape(0) == n; }
static bool is(const D2& a, size_t n, size_t m) { return a.shape(0) == n && a.shape(1) == m; }
static bool is(const D3& a, size_t n, size_t m, size_t k) { return a.shape(0) == n && a.shape(1) == m && a.shape(2) == k; }
// nodes 0-1-2; DOFs shared by the outer nodes
static Sys system()
{
    Sys s = chain(2, sym_size("ndim", 1, 2));
    for (size_t i = 0; i < s.ndim; ++i) s.dofs(2, i) = s.dofs(0, i);
    s.ndof = 2 * s.ndim;
    return s;
}
extern "C" {
// ---------------------------------------------------------------- Vector
void h_vector()
{
    Sys s = system();
    Vector v(s.conn, s.dofs);
    size_t op = sym_size("op", 0, 9);
    if (op == 0) {
        D1 d = any1("d", s.ndof);
        REJECT(is(d, s.ndof), v.AsNode(d), "AsNode(dofval)");
        REJECT(is(d, s.ndof), v.AsElement(d), "AsElement(dofval)");
    }
    if (op == 1) {
        D2 n = any2("n", s.nnode, s.ndim);
        bool ok = is(n, s.nnode, s.ndim);
        REJECT(ok, v.AsDofs(n), "AsDofs(nodevec)");
        REJECT(ok, v.AsElement(n), "AsElement(nodevec)");
        REJECT(ok, v.AssembleDofs(n), "AssembleDofs(nodevec)");
    }
    if (op == 2) {
        D3 e = any3("e", s.nelem, s.nne, s.ndim);
        bool ok = is(e, s.nelem, s.nne, s.ndim);
        REJECT(ok, v.AsDofs(e), "AsDofs(elemvec)");
        REJECT(ok, v.AsNode(e), "AsNode(elemvec)");
        REJECT(ok, v.AssembleDofs(e), "AssembleDofs(elemvec)");
        REJECT(ok, v.AssembleNode(e), "AssembleNode(elemvec)");
    }
    if (op == 3) {
        D1 d = any1("d", s.ndof);
        D2 n = any2("n", s.nnode, s.ndim);
        bool ok = is(d, s.ndof) && is(n, s.nnode, s.ndim);
        REJECT(ok, v.asNode(d, n), "asNode(dofval)");
        REJECT(ok, v.asDofs(n, d), "asDofs(nodevec)");
        REJECT(ok, v.assembleDofs(n, d), "assembleDofs(nodevec)");
    }
    if (op == 4 || op == 5) {
        D1 d = any1("d", s.ndof);
        D3 e = any3("e", s.nelem, s.nne, s.ndim);
        bool ok = is(d, s.ndof) && is(e, s.nelem, s.nne, s.ndim);
        if (op == 4) {
            REJECT(ok, v.asElement(d, e), "asElement(dofval)");
            REJECT(ok, v.asDofs(e, d), "asDofs(elemvec)");
        }
        else REJECT(ok, v.assembleDofs(e, d), "assembleDofs(elemvec)");
    }
    if (op == 6 || op == 7) {
        D2 n = any2("n", s.nnode, s.ndim);
        D3 e = any3("e", s.nelem, s.nne, s.ndim);
        bool ok = is(n, s.nnode, s.ndim) && is(e, s.nelem, s.nne, s.ndim);
        if (op == 6) {
            REJECT(ok, v.asElement(n, e), "asElement(nodevec)");
            REJECT(ok, v.asNode(e, n), "asNode(elemvec)");
        }
        else REJECT(ok, v.assembleNode(e, n), "assembleNode(elemvec)");
    }
    if (op == 8 || op == 9) {
        D2 n = any2("n", s.nnode, s.ndim), m = any2("m", s.nnode, s.ndim);
        bool a = is(n, s.nnode, s.ndim), b = is(m, s.nnode, s.ndim);
        if (op == 8) REJECT(a && b, v.copy(n, m), "copy(nodevec)");
        else if (!a) REJECT(false, v.Copy(n, m), "Copy(nodevec)");
    }
}
void h_vector_construct()
{
    size_t ndim = sym_size("ndim", 1, 2);
    I2 conn = symI2(1, 2, 2, "conn"), dofs = symI2(2, ndim, 2 * ndim, "dofs");
    concretizeAll(conn);
    concretizeAll(dofs);
    bool ok = true;
    for (auto c : conn) ok = ok && c < 2;
    for (auto d : dofs) ok = ok && d < 2 * ndim;
    REJECT(ok, Vector(conn, dofs), "Vector: nodes and DOFs exist");
    REJECT(ok, Matrix(conn, dofs), "Matrix: nodes and DOFs exist");
    REJECT(ok, MatrixDiagonal(conn, dofs), "MatrixDiagonal: nodes and DOFs exist");
    if (!ok) return;
    // nothing out of bounds on whatever is accepted
    Vector v(conn, dofs);
    Matrix A(conn, dofs);
    MatrixDiagonal M(conn, dofs);
    D2 n = xt::ones<double>({(size_t)2, ndim});
    D3 e = xt::ones<double>({(size_t)1, (size_t)2, ndim}), K = xt::zeros<double>({(size_t)1, 2 * ndim, 2 * ndim});
    D1 d = v.AsDofs(n);
    v.AsElement(n); v.AssembleDofs(n); v.AsNode(d); v.AsElement(d); v.AsDofs(e); v.AsNode(e); v.AssembleDofs(e); v.AssembleNode(e);
    A.assemble(K); M.assemble(K);
    A.Dot(n); A.Dot(d); A.Todense(); M.Dot(n); M.Dot(d); M.Todense();
}
// ---------------------------------------------------------------- VectorPartitioned
void h_partitioned()
{
    Sys s = system();
    I1 iip = range(0, 1);
    VectorPartitioned v(s.conn, s.dofs, iip);
    size_t np = 1, nu = s.ndof - 1, op = sym_size("op", 0, 6);
    D1 u = op <= 3 ? any1("u", nu) : xt::ones<double>({nu}), p = op <= 4 ? any1("p", np) : xt::ones<double>({np});
    if (op == 0) {
        D1 d = any1("d", s.ndof);
        bool ok = is(u, nu) && is(p, np);
        REJECT(ok && is(d, s.ndof), v.dofsFromParitioned(u, p, d), "dofsFromParitioned");
        REJECT(ok, v.DofsFromParitioned(u, p), "DofsFromParitioned");
        REJECT(ok, v.NodeFromPartitioned(u, p), "NodeFromPartitioned");
        REJECT(ok, v.ElementFromPartitioned(u, p), "ElementFromPartitioned");
        REJECT(is(d, s.ndof) && is(u, nu), v.asDofs_u(d, u), "asDofs_u(dofval)");
        REJECT(is(d, s.ndof) && is(p, np), v.asDofs_p(d, p), "asDofs_p(dofval)");
        REJECT(is(d, s.ndof), v.AsDofs_u(d), "AsDofs_u(dofval)");
        REJECT(is(d, s.ndof), v.AsDofs_p(d), "AsDofs_p(dofval)");
    }
    if (op == 1) {
        D2 n = any2("n", s.nnode, s.ndim);
        REJECT(is(u, nu) && is(p, np) && is(n, s.nnode, s.ndim), v.nodeFromPartitioned(u, p, n), "nodeFromPartitioned");
    }
    if (op == 2) {
        D3 e = any3("e", s.nelem, s.nne, s.ndim);
        REJECT(is(u, nu) && is(p, np) && is(e, s.nelem, s.nne, s.ndim), v.elementFromPartitioned(u, p, e), "elementFromPartitioned");
    }
    if (op == 3) {
        D2 n = any2("n", s.nnode, s.ndim);
        bool ok = is(n, s.nnode, s.ndim);
        REJECT(ok && is(u, nu), v.asDofs_u(n, u), "asDofs_u(nodevec)");
        REJECT(ok && is(p, np), v.asDofs_p(n, p), "asDofs_p(nodevec)");
        REJECT(ok, v.AsDofs_u(n), "AsDofs_u(nodevec)");
        REJECT(ok, v.AsDofs_p(n), "AsDofs_p(nodevec)");
    }
    if (op == 4) {
        u = any1("u", nu);
        D3 e = any3("e", s.nelem, s.nne, s.ndim);
        bool ok = is(e, s.nelem, s.nne, s.ndim);
        REJECT(ok && is(u, nu), v.asDofs_u(e, u), "asDofs_u(elemvec)");
        REJECT(ok && is(p, np), v.asDofs_p(e, p), "asDofs_p(elemvec)");
        REJECT(ok, v.AsDofs_u(e), "AsDofs_u(elemvec)");
        REJECT(ok, v.AsDofs_p(e), "AsDofs_p(elemvec)");
    }
    if (op >= 5) {
        D2 n = any2("n", s.nnode, s.ndim), m = any2("m", s.nnode, s.ndim);
        bool ok = is(n, s.nnode, s.ndim) && is(m, s.nnode, s.ndim);
        if (op == 5) { REJECT(ok, v.copy_u(n, m), "copy_u"); REJECT(ok, v.Copy_u(n, m), "Copy_u"); }
        else { REJECT(ok, v.copy_p(n, m), "copy_p"); REJECT(ok, v.Copy_p(n, m), "Copy_p"); }
    }
}
void h_partitioned_construct()
{
    size_t ndim = sym_size("ndim", 1, THOROUGH ? 2 : 1), np = sym_size("nnp", 0, 2);
    I2 conn = symI2(1, 2, 2, "conn"), dofs = symI2(2, ndim, 2 * ndim, "dofs");
    I1 iip = symI1(np, 2 * ndim, "iip");
    concretizeAll(conn);
    concretizeAll(dofs);
    concretizeAll(iip);
    size_t top = 0;
    bool ok = true;
    for (auto c : conn) ok = ok && c < 2;
    for (auto d : dofs) { ok = ok && d < 2 * ndim; top = d > top ? d : top; }
    for (auto d : iip) ok = ok && d <= top;
    if (np == 2) ok = ok && iip(0) != iip(1);
    REJECT(ok, VectorPartitioned(conn, dofs, iip), "VectorPartitioned: nodes and DOFs exist, prescribed DOFs are unique");
    REJECT(ok, MatrixPartitioned(conn, dofs, iip), "MatrixPartitioned: nodes and DOFs exist, prescribed DOFs are unique");
    REJECT(ok, MatrixDiagonalPartitioned(conn, dofs, iip), "MatrixDiagonalPartitioned: nodes and DOFs exist, prescribed DOFs are unique");
    if (!ok) return;
    VectorPartitioned v(conn, dofs, iip);
    MatrixPartitioned A(conn, dofs, iip);
    MatrixDiagonalPartitioned M(conn, dofs, iip);
    D2 n = xt::ones<double>({(size_t)2, ndim});
    D3 e = xt::ones<double>({(size_t)1, (size_t)2, ndim}), K = xt::zeros<double>({(size_t)1, 2 * ndim, 2 * ndim});
    D1 d = v.AsDofs(n), u = v.AsDofs_u(n), p = v.AsDofs_p(n);
    v.AsDofs_u(e); v.AsDofs_p(e); v.AsDofs_u(d); v.AsDofs_p(d); v.DofsFromParitioned(u, p); v.NodeFromPartitioned(u, p); v.ElementFromPartitioned(u, p);
    A.assemble(K); M.assemble(K);
    A.Dot(n); A.Dot(d); A.Todense(); A.Reaction(n, n); A.Reaction(d, d); A.Reaction_p(u, p);
    M.Dot(n); M.Dot(d); M.Todense(); M.Reaction(n, n); M.Reaction(d, d); M.Reaction_p(u, p);
}
}
// ---------------------------------------------------------------- matrices
template <class M> static void matrix(M& A, const Sys& s, size_t op)
{
    size_t k = s.nne * s.ndim;
    if (op == 0) {
        D3 K = any3("K", s.nelem, k, k);
        for (auto& v : K) v = 0;
        REJECT(is(K, s.nelem, k, k), A.assemble(K), "assemble");
        D2 r = any2("r", s.ndof, s.ndof);
        REJECT(is(r, s.ndof, s.ndof), A.todense(r), "todense");
    }
    if (op == 1) {
        D1 x = any1("x", s.ndof), b = any1("b", s.ndof);
        REJECT(is(x, s.ndof), A.Dot(x), "Dot(dofval)");
        REJECT(is(x, s.ndof) && is(b, s.ndof), A.dot(x, b), "dot(dofval)");
    }
    if (op == 2) {
        D2 x = any2("x", s.nnode, s.ndim), b = any2("b", s.nnode, s.ndim);
        REJECT(is(x, s.nnode, s.ndim), A.Dot(x), "Dot(nodevec)");
        REJECT(is(x, s.nnode, s.ndim) && is(b, s.nnode, s.ndim), A.dot(x, b), "dot(nodevec)");
    }
}
template <class M> static void reaction(M& A, const Sys& s, size_t np, size_t op)
{
    if (op == 3) {
        D1 x = any1("x", s.ndof), b = any1("b", s.ndof);
        bool ok = is(x, s.ndof) && is(b, s.ndof);
        REJECT(ok, A.Reaction(x, b), "Reaction(dofval)");
        REJECT(ok, A.reaction(x, b), "reaction(dofval)");
    }
    if (op == 4) {
        D2 x = any2("x", s.nnode, s.ndim), b = any2("b", s.nnode, s.ndim);
        bool ok = is(x, s.nnode, s.ndim) && is(b, s.nnode, s.ndim);
        REJECT(ok, A.Reaction(x, b), "Reaction(nodevec)");
        REJECT(ok, A.reaction(x, b), "reaction(nodevec)");
    }
    if (op == 5) {
        size_t nu = s.ndof - np;
        D1 u = any1("u", nu), p = any1("p", np), b = any1("b", np);
        bool ok = is(u, nu) && is(p, np);
        REJECT(ok, A.Reaction_p(u, p), "Reaction_p");
        REJECT(ok && is(b, np), A.reaction_p(u, p, b), "reaction_p");
    }
}
template <class M> static void setadd(M& A, const Sys& s)
{
    size_t n = sym_size("nrow", 1, 2), m = sym_size("ncol", 1, 2);
    I1 r = symI1(n, s.ndof, "row"), c = symI1(m, s.ndof, "col");
    concretizeAll(r);
    concretizeAll(c);
    D2 v = any2("v", n, m);
    bool ok = is(v, n, m);
    for (auto k : r) ok = ok && k < s.ndof;
    for (auto k : c) ok = ok && k < s.ndof;
    REJECT(ok, A.set(r, c, v), "set: shapes, and DOFs exist");
    REJECT(ok, A.add(r, c, v), "add: shapes, and DOFs exist");
}
extern "C" {
void h_matrix()
{
    Sys s = system();
    Matrix A(s.conn, s.dofs);
    A.assemble(xt::eval(xt::zeros<double>({s.nelem, s.nne * s.ndim, s.nne * s.ndim})));
    matrix(A, s, sym_size("op", 0, 2));
}
void h_matrix_set()
{
    Sys s = chain(1, 1);
    Matrix A(s.conn, s.dofs);
    A.assemble(xt::eval(xt::zeros<double>({s.nelem, s.nne * s.ndim, s.nne * s.ndim})));
    setadd(A, s);
}
void h_matrixpartitioned()
{
    Sys s = system();
    MatrixPartitioned A(s.conn, s.dofs, range(0, 1));
    A.assemble(xt::eval(xt::zeros<double>({s.nelem, s.nne * s.ndim, s.nne * s.ndim})));
    size_t op = sym_size("op", 0, 5);
    matrix(A, s, op);
    reaction(A, s, 1, op);
}
void h_matrixpartitioned_set()
{
    Sys s = chain(1, 1);
    MatrixPartitioned A(s.conn, s.dofs, range(1, 2));
    A.assemble(xt::eval(xt::zeros<double>({s.nelem, s.nne * s.ndim, s.nne * s.ndim})));
    setadd(A, s);
}
}
template <class M> static void diag_ops(M& A, const Sys& s, size_t op)
{
    if (op == 6) {
        D1 x = any1("x", s.ndof), b = any1("b", s.ndof);
        REJECT(is(x, s.ndof), A.Solve(x), "Solve(dofval)");
        REJECT(is(x, s.ndof) && is(b, s.ndof), A.solve(x, b), "solve(dofval)");
        REJECT(is(x, s.ndof), A.set(x), "set(diagonal)");
    }
    if (op == 7) {
        D2 x = any2("x", s.nnode, s.ndim), b = any2("b", s.nnode, s.ndim);
        REJECT(is(x, s.nnode, s.ndim), A.Solve(x), "Solve(nodevec)");
        REJECT(is(x, s.nnode, s.ndim) && is(b, s.nnode, s.ndim), A.solve(x, b), "solve(nodevec)");
    }
}
extern "C" {
void h_matrixdiagonal()
{
    Sys s = system();
    MatrixDiagonal A(s.conn, s.dofs);
    A.set(xt::eval(xt::ones<double>({s.ndof})));
    size_t op = sym_size("op", 0, 7);
    matrix(A, s, op);
    diag_ops(A, s, op);
}
void h_matrixdiagonalpartitioned()
{
    Sys s = system();
    size_t np = 1, nu = s.ndof - np;
    MatrixDiagonalPartitioned A(s.conn, s.dofs, range(0, np));
    A.set(xt::eval(xt::ones<double>({s.ndof})));
    size_t op = sym_size("op", 0, 8);
    matrix(A, s, op);
    reaction(A, s, np, op);
    diag_ops(A, s, op);
    if (op == 8) {
        D1 u = any1("u", nu), p = any1("p", np), b = any1("b", nu), c = any1("c", np);
        bool ok = is(u, nu) && is(p, np);
        REJECT(ok, A.Dot_u(u, p), "Dot_u");
        REJECT(ok, A.Dot_p(u, p), "Dot_p");
        REJECT(ok && is(b, nu), A.dot_u(u, p, b), "dot_u");
        REJECT(ok && is(c, np), A.dot_p(u, p, c), "dot_p");
        REJECT(is(b, nu) && is(p, np), A.Solve_u(b, p), "Solve_u");
        REJECT(ok && is(b, nu), A.solve_u(b, p, u), "solve_u");
    }
}
}
// ---------------------------------------------------------------- tyings
// 3 DOFs on 3 nodes : unknown 0, prescribed 1, dependent 2
extern "C" {
void h_tyings()
{
    Sys s = chain(2, 1);
    VectorPartitionedTyings v(s.conn, s.dofs, toSparse(xt::ones<double>({1, 1})), toSparse(xt::ones<double>({1, 1})), toSparse(xt::ones<double>({1, 2})));
    MatrixPartitionedTyings A(s.conn, s.dofs, toSparse(xt::ones<double>({1, 1})), toSparse(xt::ones<double>({1, 1})));
    A.assemble(xt::eval(xt::ones<double>({s.nelem, s.nne * s.ndim, s.nne * s.ndim})));
    MatrixPartitionedTyingsSolver<Spy> solver;
    size_t op = sym_size("op", 0, 6);
    if (op == 0) {
        D2 n = any2("n", s.nnode, s.ndim);
        D1 d = any1("d", 2);
        bool ok = is(n, s.nnode, s.ndim);
        REJECT(ok, v.AsDofs_i(n), "AsDofs_i");
        REJECT(ok && is(d, 2), v.asDofs_i(n, d), "asDofs_i");
        REJECT(ok && is(d, 2), v.asDofs_i(n, d, false), "asDofs_i without tyings");
    }
    if (op == 1) {
        D1 a = any1("a", 3), b = any1("b", 3);
        bool ok = (is(a, 3) || is(a, 2)) && (is(b, 3) || is(b, 2));
        REJECT(ok, v.copy_p(a, b), "copy_p");
    }
    if (op == 2) {
        D3 K = any3("K", s.nelem, s.nne * s.ndim, s.nne * s.ndim);
        REJECT(is(K, s.nelem, s.nne * s.ndim, s.nne * s.ndim), A.assemble(K), "assemble");
    }
    if (op == 3) {
        D1 b = any1("b", s.ndof), x = any1("x", s.ndof);
        bool ok = is(b, s.ndof) && is(x, s.ndof);
        REJECT(ok, solver.Solve(A, b, x), "Solve(dofval)");
        REJECT(ok, solver.solve(A, b, x), "solve(dofval)");
    }
    if (op == 4) {
        D2 b = any2("b", s.nnode, s.ndim), x = any2("x", s.nnode, s.ndim);
        bool ok = is(b, s.nnode, s.ndim) && is(x, s.nnode, s.ndim);
        REJECT(ok, solver.Solve(A, b, x), "Solve(nodevec)");
        REJECT(ok, solver.solve(A, b, x), "solve(nodevec)");
    }
    if (op == 5) {
        D1 b = any1("b", 1), d = any1("d", 1), p = any1("p", 1), x = any1("x", 1);
        bool ok = is(b, 1) && is(d, 1) && is(p, 1);
        REJECT(ok, solver.Solve_u(A, b, d, p), "Solve_u");
        REJECT(ok && is(x, 1), solver.solve_u(A, b, d, p, x), "solve_u");
    }
    if (op == 6) {
        D2 n = any2("n", s.nnode, s.ndim);
        D1 d = any1("d", s.ndof);
        REJECT(false, A.Dot(n), "products are not implemented");
        REJECT(false, A.Dot(d), "products are not implemented");
    }
}
void h_tyings_construct()
{
    I2 c = symI2(1, 2, 2, "conn"), d = symI2(2, 1, 2, "dofs");
    if (!THOROUGH) c(0, 0) = 0;
    concretizeAll(c);
    concretizeAll(d);
    size_t k = sym_size("dependent", 0, 2), l = sym_size("dependent (Cdp)", k, k + 1), u = sym_size("unknown", 0, 2), p = sym_size("prescribed", 0, 1);
    size_t ndof = 0;
    bool nodes = true;
    for (auto i : d) ndof = i >= ndof ? i + 1 : ndof;
    for (auto i : c) nodes = nodes && i < 2;
    bool sizes = k == l && u + p + k == ndof;
    D2 Cdu = xt::ones<double>({k, u}), Cdp = xt::ones<double>({l, p});
    size_t which = sym_size("which", 0, 1);
    bool thrown = false;
    if (which == 0) {
        size_t m = sym_size("dependent (Cdi)", k, k + 1), i = sym_size("independent", u + p, u + p + 1);
        D2 Cdi = xt::ones<double>({m, i});
        try {
            VectorPartitionedTyings v(c, d, toSparse(Cdu), toSparse(Cdp), toSparse(Cdi));
            D2 n = xt::ones<double>({2, 1});
            v.AsDofs_i(n);
        }
        catch (...) {
            thrown = true;
        }
        if (m == k && i == u + p && sizes && nodes && ndof <= 2) sym_assert(!thrown, "VectorPartitionedTyings: accepts");
        else sym_assert(thrown, "VectorPartitionedTyings: sizes of the tying matrices, and nodes exist");
    }
    else {
        try {
            MatrixPartitionedTyings A(c, d, toSparse(Cdu), toSparse(Cdp));
            A.assemble(xt::eval(xt::ones<double>({1, 2, 2})));
        }
        catch (...) {
            thrown = true;
        }
        if (sizes && nodes && ndof <= 2) sym_assert(!thrown, "MatrixPartitionedTyings: accepts");
        else sym_assert(thrown, "MatrixPartitionedTyings: sizes of the tying matrices, and nodes exist");
    }
}
void h_solver()
{
    Sys s = system();
    size_t op = sym_size("op", 0, 5);
    Matrix A(s.conn, s.dofs);
    MatrixSolver<Spy> solver;
    MatrixPartitioned B(s.conn, s.dofs, range(0, 1));
    MatrixPartitionedSolver<Spy> psolver;
    D3 K = xt::ones<double>({s.nelem, s.nne * s.ndim, s.nne * s.ndim});
    if (op < 2) A.assemble(K);
    else B.assemble(K);
    if (op == 0) {
        D1 b = any1("b", s.ndof), x = any1("x", s.ndof);
        REJECT(is(b, s.ndof), solver.Solve(A, b), "Solve(dofval)");
        REJECT(is(b, s.ndof) && is(x, s.ndof), solver.solve(A, b, x), "solve(dofval)");
    }
    if (op == 1) {
        D2 b = any2("b", s.nnode, s.ndim), x = any2("x", s.nnode, s.ndim);
        REJECT(is(b, s.nnode, s.ndim), solver.Solve(A, b), "Solve(nodevec)");
        REJECT(is(b, s.nnode, s.ndim) && is(x, s.nnode, s.ndim), solver.solve(A, b, x), "solve(nodevec)");
    }
    if (op == 2) {
        D1 b = any1("b", s.ndof), x = any1("x", s.ndof);
        REJECT(is(b, s.ndof) && is(x, s.ndof), psolver.Solve(B, b, x), "partitioned Solve(dofval)");
        REJECT(is(b, s.ndof) && is(x, s.ndof), psolver.solve(B, b, x), "partitioned solve(dofval)");
    }
    if (op == 3) {
        D2 b = any2("b", s.nnode, s.ndim), x = any2("x", s.nnode, s.ndim);
        bool ok = is(b, s.nnode, s.ndim) && is(x, s.nnode, s.ndim);
        REJECT(ok, psolver.Solve(B, b, x), "partitioned Solve(nodevec)");
        REJECT(ok, psolver.solve(B, b, x), "partitioned solve(nodevec)");
    }
    if (op == 4) {
        size_t nu = s.ndof - 1;
        D1 b = any1("b", nu), p = any1("p", 1), x = any1("x", nu);
        bool ok = is(b, nu) && is(p, 1);
        REJECT(ok, psolver.Solve_u(B, b, p), "Solve_u");
        REJECT(ok && is(x, nu), psolver.solve_u(B, b, p, x), "solve_u");
    }
}
// the tying matrices are within bounds for any accepted ties, control DOFs, and prescribed DOFs
static void periodic(const I2& ties, const I2& control, const I1& iip, const I2& dofs)
{
    D2 coor = xt::zeros<double>({dofs.shape(0), (size_t)1});
    size_t n = dofs.shape(0);
    bool ok = control(0, 0) < n;
    for (size_t t = 0; t < ties.shape(0); ++t) {
        ok = ok && ties(t, 0) < n && ties(t, 1) < n && control(0, 0) != ties(t, 1);
        for (auto k : iip) ok = ok && k != ties(t, 1);
        for (size_t u = 0; u < ties.shape(0); ++u) ok = ok && ties(t, 0) != ties(u, 1) && (u == t || ties(t, 1) != ties(u, 1));
    }
    for (size_t k = 0; k < iip.size(); ++k) {
        ok = ok && iip(k) < n;
        for (size_t l = 0; l < k; ++l) ok = ok && iip(k) != iip(l);
    }
    bool thrown = false;
    try {
        Tyings::Periodic p(coor, dofs, control, ties, iip);
        p.Cdi();
        p.Cdu();
        p.Cdp();
    }
    catch (...) {
        thrown = true;
    }
    sym_assert(thrown == !ok, "Periodic: nodes and DOFs exist, ties are not nested, dependent DOFs are not prescribed");
}
void h_periodic()
{
    size_t n = THOROUGH ? 4 : 3;
    I2 dofs = xt::zeros<size_t>({n, (size_t)1});
    for (size_t i = 0; i < n; ++i) dofs(i, 0) = i;
    I2 ties = symI2(sym_size("ties", 0, 2), 2, n, "tie"), control = symI2(1, 1, n, "control");
    I1 iip = symI1(sym_size("prescribed", 0, THOROUGH ? 2 : 1), n, "iip");
    concretizeAll(ties);
    concretizeAll(control);
    concretizeAll(iip);
    periodic(ties, control, iip, dofs);
}
void h_periodic_shape()
{
    size_t dim = sym_size("ndim", 1, 2), n = 3;
    D2 coor = xt::zeros<double>({n, dim});
    size_t a = sym_size("rows", n - 1, n + 1), b = sym_size("columns", 1, 3), c = sym_size("rows (control)", 0, 3), d = sym_size("columns (control)", 0, 3), e = sym_size("columns (ties)", 1, 3);
    I2 dofs = xt::zeros<size_t>({a, b}), control = xt::zeros<size_t>({c, d}), ties = xt::zeros<size_t>({(size_t)1, e});
    for (size_t i = 0; i < a; ++i)
        for (size_t j = 0; j < b; ++j) dofs(i, j) = i * b + j;
    if (e > 1) ties(0, 1) = 1;
    for (size_t i = 0; i < c; ++i)
        for (size_t j = 0; j < d; ++j) control(i, j) = 2 * b + j % b;
    I1 iip = none();
    bool ok = a == n && b == dim && c == dim && d == dim && e == 2;
    bool thrown = false;
    try { Tyings::Periodic p(coor, dofs, control, ties, iip); }
    catch (...) { thrown = true; }
    sym_assert(thrown == !ok, "Periodic: shapes");
}
}
// ---------------------------------------------------------------- elements
template <class Quad> struct Dim { static const size_t d = 2, n = 4; };
template <> struct Dim<Element::Hex8::Quadrature> { static const size_t d = 3, n = 8; };
template <class Quad> static D3 grid(size_t nelem)
{
    D3 x = xt::zeros<double>({nelem, (size_t)Dim<Quad>::n, (size_t)Dim<Quad>::d});
    static const int S[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
    for (size_t e = 0; e < nelem; ++e)
        for (size_t m = 0; m < Dim<Quad>::n; ++m)
            for (size_t i = 0; i < Dim<Quad>::d; ++i) x(e, m, i) = S[m][i];
    return x;
}
typedef xt::xtensor<double, 4> D4;
typedef xt::xtensor<double, 6> D6;
template <size_t N> static std::array<size_t, N> vary(const char* name, const std::array<size_t, N>& s)
{
    // right; one direction off by one; two adjacent directions swapped (same size)
    std::array<size_t, N> r = s;
    size_t k = sym_size(name, 0, 3 * N - 1);
    if (k > 2 * N) std::swap(r[k - 2 * N - 1], r[k - 2 * N]);
    else if (k) r[(k - 1) / 2] += k % 2 ? 1 : -1;
    return r;
}
template <class T, class S> static bool has(const T& a, const S& s)
{
    for (size_t i = 0; i < s.size(); ++i)
        if (a.shape(i) != s[i]) return false;
    return true;
}
template <class Quad> static void element(bool general)
{
    const size_t nelem = 1;
    Quad q(grid<Quad>(nelem));
    auto se = q.shape_elemvec();
    auto sm = q.shape_elemmat();
    auto s0 = q.shape_qscalar();
    auto s2 = q.template shape_qtensor<2>();
    std::array<size_t, 3> s1{nelem, q.nip(), Dim<Quad>::d};
    size_t op = sym_size("op", 0, 9);
    D3 e = D3::from_shape(se), m = D3::from_shape(sm), v = D3::from_shape(s1);
    D2 s = D2::from_shape(s0);
    D4 t = D4::from_shape(s2);
    e.fill(1); m.fill(1); v.fill(1); s.fill(1); t.fill(1);
    if (op == 0 || op == 1 || op == 8) { e.resize(vary("e", se)); e.fill(1); }
    if (op == 2 || op == 3 || op == 9) { t.resize(vary("t", s2)); t.fill(1); }
    bool oe = has(e, se), ot = has(t, s2);
    if (op < 4) {
        if (op != 2) {
            if (op == 0) {
                REJECT(oe, q.GradN_vector(e), "GradN_vector");
                REJECT(oe, q.GradN_vector_T(e), "GradN_vector_T");
                REJECT(oe, q.SymGradN_vector(e), "SymGradN_vector");
            }
            REJECT(oe && ot, q.gradN_vector(e, t), "gradN_vector");
            REJECT(oe && ot, q.gradN_vector_T(e, t), "gradN_vector_T");
            REJECT(oe && ot, q.symGradN_vector(e, t), "symGradN_vector");
        }
        else REJECT(ot, q.Int_gradN_dot_tensor2_dV(t), "Int_gradN_dot_tensor2_dV");
        if (op != 0) REJECT(oe && ot, q.int_gradN_dot_tensor2_dV(t, e), "int_gradN_dot_tensor2_dV");
    }
    if (op == 4) {
        size_t k = sym_size("s", 0, 8);
        s.resize({s0[0] + k / 3 - 1, s0[1] + k % 3 - 1});
        s.fill(1);
        bool os = has(s, s0);
        D4 r = D4::from_shape(vary("r", s2));
        REJECT(os, q.Int_N_scalar_NT_dV(s), "Int_N_scalar_NT_dV");
        REJECT(os, q.int_N_scalar_NT_dV(s, m), "int_N_scalar_NT_dV");
        REJECT(os && r.shape(0) == s0[0] && r.shape(1) == s0[1], q.asTensor(s, r), "asTensor");
        REJECT(os, q.template AsTensor<2>(s), "AsTensor<rank>");
        REJECT(os, q.AsTensor(2, s), "AsTensor(rank)");
    }
    if (op == 5) {
        m.resize(vary("m", sm));
        m.fill(1);
        bool om = has(m, sm);
        REJECT(om, q.int_N_scalar_NT_dV(s, m), "int_N_scalar_NT_dV: elemmat");
        auto s4 = q.template shape_qtensor<4>();
        D6 c = D6::from_shape(s4);
        c.fill(1);
        REJECT(om, q.int_gradN_dot_tensor4_dot_gradNT_dV(c, m), "int_gradN_dot_tensor4_dot_gradNT_dV: elemmat");
    }
    if (op == 6) {
        auto s4 = q.template shape_qtensor<4>();
        D6 c = D6::from_shape(vary("c", s4));
        c.fill(1);
        bool oc = has(c, s4);
        REJECT(oc, q.Int_gradN_dot_tensor4_dot_gradNT_dV(c), "Int_gradN_dot_tensor4_dot_gradNT_dV");
        REJECT(oc, q.int_gradN_dot_tensor4_dot_gradNT_dV(c, m), "int_gradN_dot_tensor4_dot_gradNT_dV");
    }
    if (op == 7) {
        D3 x = grid<Quad>(nelem);
        auto sx = vary("x", se);
        D3 y = D3::from_shape(sx);
        y.fill(0);
        for (size_t a = 0; a < std::min(sx[0], se[0]); ++a)
            for (size_t b = 0; b < std::min(sx[1], se[1]); ++b)
                for (size_t d = 0; d < std::min(sx[2], se[2]); ++d) y(a, b, d) = x(a, b, d);
        bool ok = has(y, se);
        REJECT(ok, q.update_x(y), "update_x");
        if (sx[0] <= 1) REJECT(sx[1] == se[1] && sx[2] == se[2], Quad tmp(y), "Quadrature: positions");
    }
}
// number of components of the vector is free, except for the planar and axisymmetric elements
template <class Quad> static void vectors(bool free)
{
    const size_t nelem = 1;
    Quad q(grid<Quad>(nelem));
    size_t n = Dim<Quad>::d;
    std::array<size_t, 3> se{nelem, Dim<Quad>::n, n}, s1{nelem, q.nip(), n};
    auto we = vary("e", se), w1 = vary("v", s1);
    D3 e = D3::from_shape(we), v = D3::from_shape(w1);
    e.fill(1);
    v.fill(1);
    bool oe = we[0] == se[0] && we[1] == se[1] && (free || we[2] == n), ov = w1[0] == s1[0] && w1[1] == s1[1] && (free || w1[2] == n), same = we[2] == w1[2];
    REJECT(oe && ov && same, q.interpQuad_vector(e, v), "interpQuad_vector");
    REJECT(oe, q.InterpQuad_vector(e), "InterpQuad_vector");
}
template <class Quad> static void vectorsInt()
{
    const size_t nelem = 1;
    Quad q(grid<Quad>(nelem));
    size_t n = Dim<Quad>::d;
    std::array<size_t, 3> se{nelem, Dim<Quad>::n, n}, s1{nelem, q.nip(), n};
    auto we = vary("e", se), w1 = vary("v", s1);
    D3 e = D3::from_shape(we), v = D3::from_shape(w1);
    e.fill(1);
    v.fill(1);
    bool oe = we[0] == se[0] && we[1] == se[1], ov = w1[0] == s1[0] && w1[1] == s1[1], same = we[2] == w1[2];
    REJECT(oe && ov && same, q.int_N_vector_dV(v, e), "int_N_vector_dV");
    REJECT(ov, q.Int_N_vector_dV(v), "Int_N_vector_dV");
}
// own integration points: shapes have to agree
template <class Quad> static void scheme()
{
    size_t a = sym_size("nip", 1, 2), b = around("ndim", Dim<Quad>::d), w = sym_size("nw", 1, 3);
    D2 xi = xt::zeros<double>({a, b});
    D1 ww = xt::ones<double>({w});
    REJECT(b == Dim<Quad>::d && w == a, Quad(grid<Quad>(1), xi, ww), "Quadrature: integration points and weights");
}
extern "C" {
void h_quad4() { element<Element::Quad4::Quadrature>(true); }
void h_planar() { element<Element::Quad4::QuadraturePlanar>(true); }
void h_axisymmetric() { element<Element::Quad4::QuadratureAxisymmetric>(true); }
void h_hex8() { element<Element::Hex8::Quadrature>(true); }
void h_scheme()
{
    size_t k = sym_size("type", 0, 3);
    if (k == 0) scheme<Element::Quad4::Quadrature>();
    if (k == 1) scheme<Element::Quad4::QuadraturePlanar>();
    if (k == 2) scheme<Element::Quad4::QuadratureAxisymmetric>();
    if (k == 3) scheme<Element::Hex8::Quadrature>();
}
void h_elementvectors()
{
    size_t k = sym_size("type", 0, 3);
    if (k == 0) vectors<Element::Quad4::Quadrature>(false);
    if (k == 1) vectors<Element::Quad4::QuadraturePlanar>(true);
    if (k == 2) vectors<Element::Hex8::Quadrature>(true);
    if (k == 3) vectors<Element::Quad4::QuadratureAxisymmetric>(true);
}
void h_elementvectors_int()
{
    size_t k = sym_size("type", 0, 2);
    if (k == 0) vectorsInt<Element::Quad4::Quadrature>();
    if (k == 1) vectorsInt<Element::Quad4::QuadraturePlanar>();
    if (k == 2) vectorsInt<Element::Hex8::Quadrature>();
}
}
// ---------------------------------------------------------------- meshes
typedef xt::xtensor<size_t, 2> T2;
static I2 table(const char* name, size_t n, size_t m, size_t hi)
{
    I2 r = symI2(n, m, hi, name);
    concretizeAll(r);
    return r;
}
static bool below(const I2& a, size_t n)
{
    for (auto v : a)
        if (v >= n) return false;
    return true;
}
static bool below(const I1& a, size_t n)
{
    for (auto v : a)
        if (v >= n) return false;
    return true;
}
extern "C" {
void h_elementtools()
{
    size_t nnode = sym_size("nnode", 1, 2), nelem = sym_size("nelem", 1, 2);
    I2 conn = xt::zeros<size_t>({nelem, (size_t)2});
    if (sym_size("op", 0, 1) == 0) {
        conn = table("conn", nelem, 2, 2);
        D2 n = xt::ones<double>({nnode, (size_t)2});
        REJECT(below(conn, nnode), Element::asElementVector(conn, n), "asElementVector: nodes exist");
        return;
    }
    D3 e = any3("e", nelem, 2, 1);
    REJECT(e.shape(0) == nelem && e.shape(1) == 2, Element::assembleNodeVector(conn, e), "assembleNodeVector");
    if (nelem == 1 && nnode == 1) {
        D3 m = any3("m", 1, 2, 2);
        for (auto& v : m) v = 0;
        REJECT(m.shape(1) == m.shape(2), Element::isDiagonal(m), "isDiagonal: square");
    }
}
void h_renumber()
{
    I2 dofs = table("dofs", 1, 2, 3), list = table("list", 1, 2, 4);
    size_t top = std::max(dofs(0, 0), dofs(0, 1));
    Mesh::Renumber r(dofs);
    REJECT(below(list, top + 1), r.apply(list), "Renumber: DOFs exist");
    I1 a = xt::zeros<size_t>({(size_t)2});
    a(0) = dofs(0, 0);
    a(1) = dofs(0, 1);
    REJECT(a(0) != a(1), Mesh::Reorder r2({a}), "Reorder: unique");
    if (a(0) != a(1)) {
        Mesh::Reorder r2({a});
        REJECT(below(list, top + 1), r2.apply(list), "Reorder: DOFs exist");
    }
}
void h_nodaltyings()
{
    // DOFs shared in one direction only are rejected
    I2 dofs = table("dofs", 2, 2, 3);
    bool t0 = dofs(0, 0) == dofs(1, 0), t1 = dofs(0, 1) == dofs(1, 1), cross = dofs(0, 0) == dofs(0, 1) || dofs(1, 0) == dofs(1, 1) || dofs(0, 0) == dofs(1, 1) || dofs(0, 1) == dofs(1, 0);
    if (cross) return;
    REJECT(t0 == t1, Mesh::nodaltyings(dofs), "nodaltyings: all DOFs of a node are tied, or none");
}
void h_centers()
{
    size_t nnode = sym_size("nnode", 4, 5), w = around("nne", 4), d = around("ndim", 2);
    I2 conn = xt::zeros<size_t>({(size_t)1, w});
    for (size_t k = 0; k < w; ++k) conn(0, k) = k;
    conn(0, 0) = sym_size("n", 0, 5);
    D2 coor = xt::zeros<double>({nnode, d});
    for (size_t k = 0; k < nnode; ++k)
        for (size_t i = 0; i < d; ++i) coor(k, i) = i == 0 ? (k == 1 || k == 2) : (k == 2 || k == 3);
    bool ok = below(conn, nnode) && w == 4 && d == 2;
    auto type = Mesh::ElementType::Quad4;
    I1 map = xt::zeros<size_t>({sym_size("nmap", 0, 2)});
    for (auto& v : map) v = sym_size("map", 0, 1);
    REJECT(ok, Mesh::edgesize(coor, conn, type), "edgesize");
    REJECT(ok, Mesh::centers(coor, conn, type), "centers");
    REJECT(ok, Mesh::edgesize(coor, conn), "edgesize");
    REJECT(ok, Mesh::centers(coor, conn), "centers");
    REJECT(ok && map.size() == 1 && below(map, 1), Mesh::elemmap2nodemap(map, coor, conn, type), "elemmap2nodemap");
    REJECT(ok, Mesh::nodal_mass(coor, conn, type), "nodal_mass");
    REJECT(ok, Mesh::center_of_gravity(coor, conn, type), "center_of_gravity");
}
void h_stitch()
{
    size_t na = THOROUGH ? sym_size("nnode_a", 1, 2) : 2, nb = sym_size("nnode_b", 1, 2), db = sym_size("ndim_b", 1, 2), wb = sym_size("nne_b", 1, 2);
    I2 ca = table("conn_a", 1, 1, 2), cb = table("conn_b", 1, wb, 2);
    size_t ma = sym_size("n_a", 0, 1), mb = sym_size("n_b", 0, 1);
    I1 oa = symI1(ma, 2, "overlap_a"), ob = symI1(mb, 2, "overlap_b");
    concretizeAll(oa);
    concretizeAll(ob);
    bool check = THOROUGH ? sym_size("check", 0, 1) : ma;
    D2 xa = xt::zeros<double>({na, (size_t)1}), xb = xt::zeros<double>({nb, db});
    bool ok = db == 1 && wb == 1 && ma == mb && below(ca, na) && below(cb, nb) && below(oa, na) && below(ob, nb);
    REJECT(ok, Mesh::ManualStitch(xa, ca, oa, xb, cb, ob, check), "ManualStitch");
}
// nodes listed twice: nothing is read or written out of bounds
void h_stitchtwice()
{
    size_t na = 2, nb = sym_size("nnode_b", 1, 3), m = 2;
    I2 ca = xt::zeros<size_t>({(size_t)1, (size_t)1}), cb = ca;
    I1 oa = symI1(m, 2, "overlap_a"), ob = symI1(m, 3, "overlap_b");
    concretizeAll(oa);
    concretizeAll(ob);
    bool check = sym_size("check", 0, 1);
    D2 xa = xt::zeros<double>({na, (size_t)1}), xb = xt::zeros<double>({nb, (size_t)1});
    bool ok = below(oa, na) && below(ob, nb);
    if (ok && (oa(0) == oa(1) || ob(0) == ob(1))) {
        try { Mesh::ManualStitch m(xa, ca, oa, xb, cb, ob, check); } catch (...) {}
    }
    else REJECT(ok, Mesh::ManualStitch(xa, ca, oa, xb, cb, ob, check), "ManualStitch");
}
void h_stitchsets()
{
    D2 xa = xt::zeros<double>({(size_t)2, (size_t)1}), xb = xt::zeros<double>({(size_t)3, (size_t)1});
    xa(1, 0) = 1; xb(0, 0) = 1; xb(1, 0) = 2; xb(2, 0) = 3;
    I2 ca = xt::zeros<size_t>({(size_t)1, (size_t)2}), cb = xt::zeros<size_t>({(size_t)2, (size_t)2});
    ca(0, 1) = 1; cb(0, 1) = 1; cb(1, 0) = 1; cb(1, 1) = 2;
    I1 oa = range(1, 2), ob = range(0, 1);
    size_t nn[2] = {2, 3}, ne[2] = {1, 2}, mesh = sym_size("mesh", 0, 2), n = sym_size("n", 0, 2);
    I1 set = symI1(n, 3, "set");
    concretizeAll(set);
    bool on = mesh < 2 && below(set, nn[mesh % 2]), oe = mesh < 2 && below(set, ne[mesh % 2]);
    Mesh::ManualStitch m(xa, ca, oa, xb, cb, ob);
    REJECT(on, m.nodeset(set, mesh), "ManualStitch: nodeset");
    REJECT(oe, m.elemset(set, mesh), "ManualStitch: elemset");
    REJECT(mesh < 2, m.nodemap(mesh), "ManualStitch: nodemap");
    REJECT(mesh < 2, m.elemmap(mesh), "ManualStitch: elemmap");
    Mesh::Stitch s;
    s.push_back(xa, ca);
    s.push_back(xb, cb);
    REJECT(on, s.nodeset(set, mesh), "Stitch: nodeset");
    REJECT(oe, s.elemset(set, mesh), "Stitch: elemset");
    REJECT(mesh < 2, s.nodemap(mesh), "Stitch: nodemap");
    REJECT(mesh < 2, s.elemmap(mesh), "Stitch: elemmap");
    std::vector<I1> sets(mesh, set);
    REJECT(mesh == 2 && below(set, 2), s.nodeset(sets), "Stitch: nodeset of all");
    REJECT(mesh == 2 && below(set, 1), s.elemset(sets), "Stitch: elemset of all");
}
void h_stitchpush()
{
    size_t na = 2, nb = sym_size("nnode", 1, 2), d = sym_size("ndim", 1, 2), w = sym_size("nne", 1, 2);
    D2 xa = xt::zeros<double>({na, (size_t)2}), xb = xt::zeros<double>({nb, d});
    xa(1, 0) = 1;
    if (nb == 2) xb(1, 0) = 1;
    I2 ca = table("conn_a", 1, 2, 2), cb = table("conn_b", 1, w, 2);
    Mesh::Stitch s;
    s.push_back(xa, ca);
    REJECT(d == 2 && w == 2 && below(ca, na) && below(cb, nb), s.push_back(xb, cb), "Stitch: second mesh");
}
void h_vstack()
{
    D2 x = xt::zeros<double>({(size_t)2, (size_t)2});
    x(1, 1) = 1;
    I2 c = xt::zeros<size_t>({(size_t)1, (size_t)2});
    c(0, 1) = 1;
    I1 bot[2], top[2];
    bool check = sym_size("check", 0, 1);
    Mesh::Vstack s(check);
    for (size_t k = 0; k < 2; ++k) {
        bot[k] = symI1(k ? sym_size("nbot", 0, 1) : 1, 2, "bot");
        top[k] = symI1(sym_size("ntop", 0, 1), 2, "top");
        concretizeAll(bot[k]);
        concretizeAll(top[k]);
    }
    s.push_back(x, c, bot[0], top[0]);
    bool ok = top[0].size() == bot[1].size() && below(top[0], 2) && below(bot[1], 2) && below(top[1], 2);
    // at the same position
    if (check && ok && top[0].size() == 1) ok = x(top[0](0), 1) == x(bot[1](0), 1) + 1;
    REJECT(ok, s.push_back(x, c, bot[1], top[1]), "Vstack: second mesh");
}
void h_refine()
{
    Mesh::Quad4::Regular mesh(1, 2);
    Mesh::Quad4::Map::RefineRegular r(mesh, 2, 1);
    size_t n = around("n", 4), m = around("m", 4);
    D1 a = xt::ones<double>({n}), b = xt::ones<double>({m});
    REJECT(n == 4, r.meanToCoarse(a), "meanToCoarse");
    REJECT(n == 4 && m == 4, r.averageToCoarse(a, b), "averageToCoarse");
    D1 c = any1("c", 2);
    REJECT(c.size() == 2, r.mapToFine(c), "mapToFine");
    size_t k = around("k", 2), l = around("l", 2);
    D2 a2 = xt::ones<double>({n, k}), b2 = xt::ones<double>({m, l});
    REJECT(n == 4, r.meanToCoarse(a2), "meanToCoarse");
    REJECT(n == 4 && m == 4 && k == l, r.averageToCoarse(a2, b2), "averageToCoarse");
}
void h_finelayer2regular()
{
    Mesh::Quad4::FineLayer mesh(3, 3);
    Mesh::Quad4::Map::FineLayer2Regular r(mesh);
    D1 a = any1("a", mesh.nelem());
    REJECT(a.size() == mesh.nelem(), r.mapToRegular(a), "mapToRegular");
    D2 b = any2("b", mesh.nelem(), 2);
    REJECT(b.shape(0) == mesh.nelem(), r.mapToRegular(b), "mapToRegular");
}
void h_finelayer_replica()
{
    Mesh::Quad4::FineLayer mesh(2, 3);
    D2 coor = mesh.coor();
    I2 conn = mesh.conn();
    size_t n = around("nnode", coor.shape(0)), d = around("ndim", 2), e = sym_size("nelem", 0, conn.shape(0) + 1), w = around("nne", 4);
    D2 x = xt::zeros<double>({n, d});
    I2 c = xt::zeros<size_t>({e, w});
    for (size_t i = 0; i < n && i < coor.shape(0); ++i)
        for (size_t j = 0; j < d && j < 2; ++j) x(i, j) = coor(i, j);
    for (size_t i = 0; i < e && i < conn.shape(0); ++i)
        for (size_t j = 0; j < w && j < 4; ++j) c(i, j) = conn(i, j);
    REJECT(n == coor.shape(0) && d == 2 && e == conn.shape(0) && w == 4, Mesh::Quad4::FineLayer(x, c), "FineLayer from a mesh");
}
void h_tri3()
{
    size_t nnode = sym_size("nnode", 3, 4), d = around("ndim", 2), w = around("nne", 3), nelem = 1;
    D2 x = xt::zeros<double>({nnode, d});
    if (d > 1) { x(1, 0) = 1; x(2, 1) = 1; }
    I2 c = xt::zeros<size_t>({nelem, w});
    for (size_t k = 0; k < w; ++k) c(0, k) = k;
    c(0, 0) = sym_size("n", 0, 4);
    bool ok = d == 2 && w == 3 && below(c, nnode);
    REJECT(ok, Mesh::Tri3::getOrientation(x, c), "getOrientation");
    REJECT(ok, Mesh::Tri3::setOrientation(x, c), "setOrientation");
    xt::xtensor<int, 1> val = xt::ones<int>({around("nval", 1)});
    REJECT(d == 2 && w == 3 && val.size() == 1, Mesh::Tri3::setOrientation(x, c, val), "setOrientation: given orientation");
}
void h_meshsize()
{
    size_t nx = sym_size("nx", 0, 1), ny = sym_size("ny", 0, 1), nz = sym_size("nz", 0, 1);
    REJECT(nx && ny, Mesh::Quad4::Regular(nx, ny), "Quad4::Regular");
    REJECT(nx && ny, Mesh::Tri3::Regular(nx, ny), "Tri3::Regular");
    REJECT(nx && ny && nz, Mesh::Hex8::Regular(nx, ny, nz), "Hex8::Regular");
    REJECT(nx && ny, Mesh::Quad4::FineLayer(nx, ny), "Quad4::FineLayer");
    REJECT(nx && ny && nz, Mesh::Hex8::FineLayer(nx, ny, nz), "Hex8::FineLayer");
}
void h_elementgrid()
{
    Mesh::Quad4::FineLayer mesh(3, 3);
    size_t n = sym_size("n", 0, 3), which = sym_size("which", 0, 2), nr = which == 1 ? 0 : n, nc = which == 0 ? 0 : n;
    std::vector<size_t> r(nr), c(nc);
    // both: within the mesh
    for (auto& v : r) v = sym_size("row", 0, which == 2 ? 1 : 4);
    for (auto& v : c) v = sym_size("col", 0, which == 2 ? 1 : 4);
    bool ok = (nr == 0 || nr == 2) && (nc == 0 || nc == 2);
    if (nr == 2) ok = ok && r[0] <= 3 && r[1] <= 3;
    if (nc == 2) ok = ok && c[0] <= 3 && c[1] <= 3;
    // reversed ranges: only that nothing is read or written out of bounds
    if (ok && ((nr == 2 && r[0] > r[1]) || (nc == 2 && c[0] > c[1]))) {
        try { mesh.elementgrid_ravel(r, c); } catch (...) {}
        return;
    }
    REJECT(ok, mesh.elementgrid_ravel(r, c), "elementgrid_ravel: ranges");
    size_t l = sym_size("layer", 0, 3);
    REJECT(l < 3, mesh.elementsLayer(l), "elementsLayer: layer exists");
}
}
