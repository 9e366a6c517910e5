//@ bound: teams of 2 threads (thorough: 3) with every way to divide the iterations of each parallel loop in consecutive blocks: any two iterations are separated by one of them; 3 quads or hexahedra (thorough: 4 quads) at fixed irregular positions, all operators; vectors and matrices: 2 elements of 2 nodes with every connectivity of 3 nodes (quick: first entry fixed) and separate, shared, and periodic DOFs; 3 nodes with every DOF table of up to 3 DOFs; every set of prescribed DOFs; nodal and DOF values symbolic reals
//@ outside: memory operations of the OpenMP runtime itself; code that is not compiled with OpenMP (serial by construction)
//@ flags: -fopenmp
#include "mat.h"
#include "elem.h"
#include <GooseFEM/MatrixDiagonal.h>
#include <GooseFEM/MatrixDiagonalPartitioned.h>
#include <GooseFEM/VectorPartitioned.h>
using namespace GooseFEM;
// the result of a team equals that of one thread; conflicting accesses are reported by the executor
template <class F> static void par(F f, const char* msg)
{
    sym_threads(1);
    auto a = f();
    sym_threads(THOROUGH ? sym_size("threads", 2, 3) : 2);
    auto b = f();
    sym_threads(1);
    same(b, a, msg);
}
static double val(size_t k) { return (double)((k * 7 + 3) % 11) / 8.0 - 0.5; }
template <class A> static A filled(A a)
{
    size_t k = 0;
    for (auto& v : a) v = val(k++);
    return a;
}
static D1 num(const I1& a)
{
    D1 r = zero1(a.size());
    for (size_t i = 0; i < a.size(); ++i) r(i) = a(i);
    return r;
}
// a solver whose answer depends on the right-hand side only
struct Fixed {
    void compute(const Eigen::SparseMatrix<double>&) {}
    Eigen::ComputationInfo info() const { return Eigen::Success; }
    template <class V> Eigen::VectorXd solve(const V& b0) const
    {
        Eigen::VectorXd b = b0;
        for (Eigen::Index i = 0; i < b.size(); ++i) b(i) += 1 + i;
        return b;
    }
};
// ---------------------------------------------------------------- elements
template <class Quad> struct Dim { static const int d = 2, t = 2; };
template <> struct Dim<Element::Hex8::Quadrature> { static const int d = 3, t = 3; };
template <> struct Dim<Element::Quad4::QuadraturePlanar> { static const int d = 2, t = 3; };
template <> struct Dim<Element::Quad4::QuadratureAxisymmetric> { static const int d = 2, t = 3; };
template <class Quad> static D3 positions(size_t nelem, double f)
{
    const size_t D = Dim<Quad>::d, n = 1 << D;
    D3 x = xt::zeros<double>({nelem, n, D});
    for (size_t e = 0; e < nelem; ++e)
        for (size_t m = 0; m < n; ++m)
            for (size_t i = 0; i < D; ++i) x(e, m, i) = 3 + ref::SG[m][i] + f * val(e * n * D + m * D + i) + e;
    return x;
}
template <class Quad> static void element()
{
    const size_t D = Dim<Quad>::d, T = Dim<Quad>::t, n = 1 << D, nelem = THOROUGH && D == 2 ? 4 : 3, q = 1 << D;
    D3 x = positions<Quad>(nelem, 0.25), y = positions<Quad>(nelem, 0.125);
    sym_threads(1);
    Quad quad(x);
    D3 u = filled(xt::eval(xt::zeros<double>({nelem, n, D}))), qv = filled(xt::eval(xt::zeros<double>({nelem, q, D})));
    D2 qs = filled(xt::eval(xt::zeros<double>({nelem, q})));
    xt::xtensor<double, 4> q2 = filled(xt::eval(xt::zeros<double>({nelem, q, T, T})));
    size_t op = sym_size("op", 0, 11);
    if (op == 0) par([&]() { return xt::eval(Quad(y).dV()); }, "volumes");
    if (op == 1) par([&]() { return Quad(y).GradN_vector(u); }, "gradients");
    if (op == 2) par([&]() { Quad b = quad; b.update_x(y); return b.GradN_vector(u); }, "gradients after update");
    if (op == 3) par([&]() { Quad b = quad; b.update_x(y); return xt::eval(b.dV()); }, "volumes after update");
    if (op == 4) par([&]() { return quad.InterpQuad_vector(u); }, "InterpQuad_vector");
    if (op == 5) par([&]() { return quad.GradN_vector(u); }, "GradN_vector");
    if (op == 6) par([&]() { return quad.GradN_vector_T(u); }, "GradN_vector_T");
    if (op == 7) par([&]() { return quad.SymGradN_vector(u); }, "SymGradN_vector");
    if (op == 8) par([&]() { return quad.Int_N_vector_dV(qv); }, "Int_N_vector_dV");
    if (op == 9) par([&]() { return quad.Int_N_scalar_NT_dV(qs); }, "Int_N_scalar_NT_dV");
    if (op == 10) par([&]() { return quad.Int_gradN_dot_tensor2_dV(q2); }, "Int_gradN_dot_tensor2_dV");
    if (op == 11) {
        xt::xtensor<double, 6> q4 = filled(xt::eval(xt::zeros<double>({nelem, q, T, T, T, T})));
        par([&]() { return quad.Int_gradN_dot_tensor4_dot_gradNT_dV(q4); }, "Int_gradN_dot_tensor4_dot_gradNT_dV");
    }
}
// ---------------------------------------------------------------- vectors
// every connectivity; separate, shared, or periodic DOFs
static Sys byElement()
{
    Sys s;
    s.nelem = 2; s.nne = 2; s.nnode = 3; s.ndim = 1;
    s.conn = symI2(2, 2, 2, "conn");
    if (!THOROUGH) s.conn(0, 0) = 0;
    concretizeAll(s.conn);
    s.dofs = xt::zeros<size_t>({3, 1});
    size_t kind = sym_size("kind", 0, 2);
    if (kind == 0) { s.dofs(1, 0) = 1; s.dofs(2, 0) = 2; s.ndof = 3; }
    if (kind == 1) s.ndof = 1;
    if (kind == 2) { s.dofs(1, 0) = 1; s.ndof = 2; }
    return s;
}
// every DOF table
static Sys byNode() 
{
    Sys s = chain(2, 1);
    s.ndof = sym_size("ndof", 1, 3);
    s.dofs = symDofs(3, 1, s.ndof);
    concretizeAll(s.dofs);
    return s;
}
static I1 prescribed(size_t ndof)
{
    size_t set = sym_size("prescribed", 0, (1 << ndof) - 1), n = 0;
    for (size_t k = 0; k < ndof; ++k) n += set >> k & 1;
    I1 r = xt::zeros<size_t>({n});
    n = 0;
    for (size_t k = 0; k < ndof; ++k)
        if (set >> k & 1) r(n++) = k;
    return r;
}
extern "C" {
void h_quad4() { element<Element::Quad4::Quadrature>(); }
void h_planar() { element<Element::Quad4::QuadraturePlanar>(); }
void h_axisymmetric() { element<Element::Quad4::QuadratureAxisymmetric>(); }
void h_hex8() { element<Element::Hex8::Quadrature>(); }
void h_elementtools()
{
    I2 conn = symI2(2, 2, 2, "conn");
    concretizeAll(conn);
    conn(1, 1) = 2;  // (all nodes)
    D2 n = symD2(3, 2, "n");
    par([&]() { return Element::asElementVector(conn, n); }, "asElementVector");
    D3 e = symD3(2, 2, 2, "e");
    par([&]() { return Element::assembleNodeVector(conn, e); }, "assembleNodeVector");
}
void h_vector_elem()
{
    Sys s = byElement();
    Vector v(s.conn, s.dofs);
    D3 e = symD3(s.nelem, s.nne, s.ndim, "e");
    size_t op = sym_size("op", 0, 5);
    if (op == 0) par([&]() { return v.AsDofs(e); }, "AsDofs(elemvec)");
    if (op == 1) par([&]() { return v.AsNode(e); }, "AsNode(elemvec)");
    if (op == 2) par([&]() { return v.AssembleDofs(e); }, "AssembleDofs(elemvec)");
    if (op == 3) par([&]() { return v.AssembleNode(e); }, "AssembleNode(elemvec)");
    D1 d = symD1(s.ndof, "d");
    if (op == 4) par([&]() { return v.AsElement(d); }, "AsElement(dofval)");
    D2 n = symD2(s.nnode, s.ndim, "n");
    if (op == 5) par([&]() { return v.AsElement(n); }, "AsElement(nodevec)");
}
void h_vector_node()
{
    Sys s = byNode();
    Vector v(s.conn, s.dofs);
    D2 n = symD2(s.nnode, s.ndim, "n");
    D1 d = symD1(s.ndof, "d");
    size_t op = sym_size("op", 0, 3);
    if (op == 0) par([&]() { return v.AsDofs(n); }, "AsDofs(nodevec)");
    if (op == 1) par([&]() { return v.AssembleDofs(n); }, "AssembleDofs(nodevec)");
    if (op == 2) par([&]() { return v.AsNode(d); }, "AsNode(dofval)");
    if (op == 3) par([&]() { D2 r = junk2(3, 1); v.copy(n, r); return r; }, "copy(nodevec)");
}
void h_partitioned_elem()
{
    Sys s = byElement();
    size_t np = sym_size("nnp", 0, s.ndof);
    VectorPartitioned v(s.conn, s.dofs, range(0, np));
    D3 e = symD3(s.nelem, s.nne, s.ndim, "e");
    D1 u = symD1(s.ndof - np, "u"), p = symD1(np, "p");
    size_t op = sym_size("op", 0, 2);
    if (op == 0) par([&]() { return v.AsDofs_u(e); }, "AsDofs_u(elemvec)");
    if (op == 1) par([&]() { return v.AsDofs_p(e); }, "AsDofs_p(elemvec)");
    if (op == 2) par([&]() { return v.ElementFromPartitioned(u, p); }, "ElementFromPartitioned");
}
void h_partitioned_node()
{
    Sys s = byNode();
    I1 iip = prescribed(s.ndof);
    VectorPartitioned v(s.conn, s.dofs, iip);
    size_t np = iip.size(), nu = s.ndof - np;
    D2 n = symD2(s.nnode, s.ndim, "n"), k = symD2(s.nnode, s.ndim, "k");
    D1 d = symD1(s.ndof, "d"), u = symD1(nu, "u"), p = symD1(np, "p");
    size_t op = sym_size("op", 0, 9);
    if (op == 0) par([&]() { return v.AsDofs_u(n); }, "AsDofs_u(nodevec)");
    if (op == 1) par([&]() { return v.AsDofs_p(n); }, "AsDofs_p(nodevec)");
    if (op == 2) par([&]() { return v.AsDofs_u(d); }, "AsDofs_u(dofval)");
    if (op == 3) par([&]() { return v.AsDofs_p(d); }, "AsDofs_p(dofval)");
    if (op == 4) par([&]() { return v.DofsFromParitioned(u, p); }, "DofsFromParitioned");
    if (op == 5) par([&]() { return v.NodeFromPartitioned(u, p); }, "NodeFromPartitioned");
    if (op == 6) par([&]() { return v.Copy_u(n, k); }, "Copy_u");
    if (op == 7) par([&]() { return v.Copy_p(n, k); }, "Copy_p");
    if (op == 8) par([&]() { return xt::eval(xt::cast<double>(v.dofs_is_u())); }, "dofs_is_u");
    if (op == 9) par([&]() { return xt::eval(xt::cast<double>(v.dofs_is_p())); }, "dofs_is_p");
}
void h_tyings()
{
    TSys s = symTSys(1, 2, 3, 1, 3, true, false);
    VectorPartitionedTyings v(s.conn, s.dofs, toSparse(s.Cdu), toSparse(s.Cdp), toSparse(s.Cdi));
    D2 n = symD2(s.nnode, s.ndim, "n");
    D1 d = symD1(s.ndof, "d"), k = symD1(s.ndof, "k");
    size_t op = sym_size("op", 0, 6);
    if (op == 0) par([&]() { return v.AsDofs_i(n); }, "AsDofs_i");
    if (op == 1) par([&]() { D1 r = k; v.copy_p(d, r); return r; }, "copy_p");
    // the solver: what it is asked to solve, and what is made of the answer
    MatrixPartitionedTyings A(s.conn, s.dofs, toSparse(s.Cdu), toSparse(s.Cdp));
    A.assemble(symK(s, "K"));
    if (op == 2) par([&]() { MatrixPartitionedTyingsSolver<Spy> z; D1 r = k; z.solve(A, d, r); return Spy::lastB; }, "solve(dofval): right-hand side");
    if (op == 3) par([&]() { MatrixPartitionedTyingsSolver<Spy> z; D2 r = nodes(s, k); z.solve(A, n, r); return Spy::lastB; }, "solve(nodevec): right-hand side");
    if (op == 4) par([&]() { MatrixPartitionedTyingsSolver<Fixed> z; return z.Solve(A, d, k); }, "Solve(dofval)");
    if (op == 5) par([&]() { MatrixPartitionedTyingsSolver<Fixed> z; return z.Solve(A, n, n); }, "Solve(nodevec)");
    if (op == 6) par([&]() { return A.Todense(); }, "Todense");
}
// ---------------------------------------------------------------- matrices
void h_matrix()
{
    Sys s = byNode();
    Matrix A(s.conn, s.dofs);
    A.assemble(symK(s, "K"));
    D2 n = symD2(s.nnode, s.ndim, "n");
    D1 d = symD1(s.ndof, "d");
    size_t op = sym_size("op", 0, 5);
    if (op == 0) par([&]() { return A.Dot(n); }, "Dot(nodevec)");
    if (op == 1) par([&]() { return A.Dot(d); }, "Dot(dofval)");
    if (op == 2) par([&]() { MatrixSolver<Spy> z; z.Solve(A, n); return Spy::lastB; }, "Solve(nodevec): right-hand side");
    if (op == 3) par([&]() { MatrixSolver<Fixed> z; return z.Solve(A, n); }, "Solve(nodevec)");
    if (op == 4) par([&]() { MatrixSolver<Fixed> z; return z.Solve(A, d); }, "Solve(dofval)");
    if (op == 5) par([&]() { return A.Todense(); }, "Todense");
}
void h_matrixpartitioned()
{
    Sys s = byNode();
    I1 iip = prescribed(s.ndof);
    MatrixPartitioned A(s.conn, s.dofs, iip);
    A.assemble(symK(s, "K"));
    size_t np = iip.size(), nu = s.ndof - np;
    D2 n = symD2(s.nnode, s.ndim, "n"), k = symD2(s.nnode, s.ndim, "k");
    D1 d = symD1(s.ndof, "d"), l = symD1(s.ndof, "l"), u = symD1(nu, "u"), p = symD1(np, "p");
    size_t op = sym_size("op", 0, 9);
    if (op == 0) par([&]() { return A.Dot(n); }, "Dot(nodevec)");
    if (op == 1) par([&]() { return A.Dot(d); }, "Dot(dofval)");
    if (op == 2) par([&]() { return A.Reaction(n, k); }, "Reaction(nodevec)");
    if (op == 3) par([&]() { return A.Reaction(d, l); }, "Reaction(dofval)");
    if (op == 4) par([&]() { return A.Reaction_p(u, p); }, "Reaction_p");
    if (op == 5) par([&]() { MatrixPartitionedSolver<Spy> z; z.Solve(A, n, k); return Spy::lastB; }, "Solve(nodevec): right-hand side");
    if (op == 6) par([&]() { MatrixPartitionedSolver<Spy> z; z.Solve(A, d, l); return Spy::lastB; }, "Solve(dofval): right-hand side");
    if (op == 7) par([&]() { MatrixPartitionedSolver<Fixed> z; return z.Solve(A, n, k); }, "Solve(nodevec)");
    if (op == 8) par([&]() { MatrixPartitionedSolver<Fixed> z; return z.Solve(A, d, l); }, "Solve(dofval)");
    if (op == 9) par([&]() { return A.Todense(); }, "Todense");
}
void h_diagonal()
{
    Sys s = byNode();
    D1 a = zero1(s.ndof), d = symD1(s.ndof, "d");
    for (size_t i = 0; i < s.ndof; ++i) a(i) = 1 + i;
    D2 n = symD2(s.nnode, s.ndim, "n");
    size_t op = sym_size("op", 0, 4);
    MatrixDiagonal A(s.conn, s.dofs);
    A.set(a);
    if (op == 0) par([&]() { return A.Dot(n); }, "Dot(nodevec)");
    if (op == 1) par([&]() { return A.Dot(d); }, "Dot(dofval)");
    if (op == 2) par([&]() { MatrixDiagonal B = A; return B.Solve(n); }, "Solve(nodevec)");
    if (op == 3) par([&]() { MatrixDiagonal B = A; return B.Solve(d); }, "Solve(dofval)");
    if (op == 4) par([&]() { return A.Todense(); }, "Todense");
}
void h_diagonalpartitioned()
{
    Sys s = byNode();
    I1 iip = prescribed(s.ndof);
    D1 a = zero1(s.ndof), d = symD1(s.ndof, "d"), l = symD1(s.ndof, "l");
    for (size_t i = 0; i < s.ndof; ++i) a(i) = 1 + i;
    D2 n = symD2(s.nnode, s.ndim, "n"), k = symD2(s.nnode, s.ndim, "k");
    size_t np = iip.size(), nu = s.ndof - np;
    D1 u = symD1(nu, "u"), p = symD1(np, "p");
    size_t op = sym_size("op", 0, 12);
    MatrixDiagonalPartitioned A(s.conn, s.dofs, iip);
    A.set(a);
    if (op == 0) par([&]() { return A.Dot(n); }, "Dot(nodevec)");
    if (op == 1) par([&]() { return A.Dot(d); }, "Dot(dofval)");
    if (op == 2) par([&]() { MatrixDiagonalPartitioned B = A; return B.Solve(n); }, "Solve(nodevec)");
    if (op == 3) par([&]() { MatrixDiagonalPartitioned B = A; return B.Solve(d); }, "Solve(dofval)");
    if (op == 4) par([&]() { return A.Todense(); }, "Todense");
    if (op == 5) par([&]() { return A.Reaction(n, k); }, "Reaction(nodevec)");
    if (op == 6) par([&]() { return A.Reaction(d, l); }, "Reaction(dofval)");
    if (op == 7) par([&]() { return A.Reaction_p(u, p); }, "Reaction_p");
    if (op == 8) par([&]() { return A.Dot_u(u, p); }, "Dot_u");
    if (op == 9) par([&]() { return A.Dot_p(u, p); }, "Dot_p");
    if (op == 10) par([&]() { MatrixDiagonalPartitioned B = A; return B.Solve_u(u, p); }, "Solve_u");
    if (op == 11) par([&]() { return A.data(); }, "data");
    if (op == 12) par([&]() { MatrixDiagonalPartitioned B(s.conn, s.dofs, iip); B.set(a); return B.Dot(d); }, "set");
}
// assembly
void h_assemble()
{
    Sys s = byElement();
    D3 K = symK(s, "K"), M = xt::zeros<double>({2, 2, 2});
    for (size_t e = 0; e < 2; ++e)
        for (size_t m = 0; m < 2; ++m) M(e, m, m) = val(2 * e + m);
    size_t np = s.ndof - 1;
    size_t op = sym_size("op", 0, 3);
    if (op == 0) par([&]() { Matrix A(s.conn, s.dofs); A.assemble(K); return A.Todense(); }, "Matrix");
    if (op == 1) par([&]() { MatrixPartitioned A(s.conn, s.dofs, range(0, np)); A.assemble(K); return A.Todense(); }, "MatrixPartitioned");
    if (op == 2) par([&]() { MatrixDiagonal A(s.conn, s.dofs); A.assemble(M); return A.Todense(); }, "MatrixDiagonal");
    if (op == 3) par([&]() { MatrixDiagonalPartitioned A(s.conn, s.dofs, range(0, np)); A.assemble(M); return A.Todense(); }, "MatrixDiagonalPartitioned");
}
}
