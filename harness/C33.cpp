//@ bound: connectivities of up to 2 elements of 3 nodes over up to 3 nodes with up to 2 (2 elements of 2 nodes: 4) components, any node and element values; DOF tables of up to 2 x 2 entries in 0..4; up to 2 element matrices of 3 x 3 real entries; integer arrays of up to 4 entries; a 12 x 11 (thorough: 16 x 14) mesh of quadrilaterals and a 3 x 2 x 2 mesh of hexahedra, 17 element matrices of 8 x 8 entries, and 20 integers
//@ outside: isDiagonal compares off-diagonal entries with machine epsilon: entries in (0, 1e-12) in magnitude are not considered
#include "arr.h"
using namespace GooseFEM::Element;
extern "C" {
void h_elementvector()
{
    size_t nnode = sym_size("nnode", 1, 3), ndim = sym_size("ndim", 1, 2), nelem = sym_size("nelem", 1, 2), nne = sym_size("nne", 1, 3);
    I2 conn = symI2(nelem, nne, nnode - 1, "conn");
    concretizeAll(conn);
    D2 v = symD2(nnode, ndim, "v");
    D3 e = asElementVector(conn, v);
    sameShape(e, std::vector<size_t>{nelem, nne, ndim}, "shape of elemvec");
    for (size_t k = 0; k < nelem; ++k)
        for (size_t m = 0; m < nne; ++m)
            for (size_t i = 0; i < ndim; ++i) sym_eq(e(k, m, i), v(conn(k, m), i), "element value is that of its node");
    D3 f = symD3(nelem, nne, ndim, "f");
    D2 n = assembleNodeVector(conn, f);
    size_t top = 0;
    for (auto c : conn) top = c > top ? c : top;
    sameShape(n, std::vector<size_t>{top + 1, ndim}, "shape of nodevec");
    for (size_t a = 0; a <= top; ++a)
        for (size_t i = 0; i < ndim; ++i) {
            double s = 0;
            for (size_t k = 0; k < nelem; ++k)
                for (size_t m = 0; m < nne; ++m)
                    if (conn(k, m) == a) s += f(k, m, i);
            sym_eq(n(a, i), s, "node value is the sum of its element contributions");
        }
}
void h_elementvector_ndim()
{
    size_t ndim = sym_size("ndim", 3, 4);
    I2 conn = symI2(2, 2, 1, "conn");
    concretizeAll(conn);
    D2 v = symD2(2, ndim, "v");
    D3 e = asElementVector(conn, v), f = symD3(2, 2, ndim, "f");
    D2 n = assembleNodeVector(conn, f);
    sameShape(e, std::vector<size_t>{2, 2, ndim}, "shape of elemvec");
    for (size_t k = 0; k < 2; ++k)
        for (size_t m = 0; m < 2; ++m)
            for (size_t i = 0; i < ndim; ++i) sym_eq(e(k, m, i), v(conn(k, m), i), "element value is that of its node");
    for (size_t a = 0; a < n.shape(0); ++a)
        for (size_t i = 0; i < ndim; ++i) {
            double s = 0;
            for (size_t k = 0; k < 2; ++k)
                for (size_t m = 0; m < 2; ++m)
                    if (conn(k, m) == a) s += f(k, m, i);
            sym_eq(n(a, i), s, "node value is the sum of its element contributions");
        }
}
void h_sequential()
{
    size_t a = sym_size("nnode", 1, 2), b = sym_size("ndim", 1, 2);
    I2 d = symI2(a, b, 4, "dofs");
    concretizeAll(d);
    size_t top = 0;
    for (auto v : d) top = v > top ? v : top;
    bool all = true;
    for (size_t k = 0; k <= top; ++k) {
        bool hit = false;
        for (auto v : d) hit = hit | (v == k);
        all = all & hit;
    }
    sym_assert(isSequential(d) == all, "isSequential: every number up to the largest occurs");
}
void h_diagonal()
{
    size_t n = sym_size("nelem", 1, 2), m = sym_size("size", 1, 3);
    D3 e = symD3(n, m, m, "m");
    // any subset of entries is zero
    bool diag = true;
    for (size_t k = 0; k < n; ++k)
        for (size_t i = 0; i < m; ++i)
            for (size_t j = 0; j < m; ++j) {
                sym_assume(e(k, i, j) == 0 || e(k, i, j) > 1e-12 || e(k, i, j) < -1e-12);
                if (i != j) diag = diag & (e(k, i, j) == 0);
            }
    sym_assert(isDiagonal(e) == diag, "isDiagonal: every off-diagonal entry vanishes");
}
void h_unique()
{
    size_t n = sym_size("n", 1, 4);
    I1 a = symI1(n, 5, "a");
    bool u = true;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j) u = u & (a(i) != a(j));
    sym_assert(GooseFEM::is_unique(a) == u, "is_unique: no value occurs twice");
    I2 b = xt::zeros<size_t>({size_t(1), n});
    for (size_t i = 0; i < n; ++i) b(0, i) = a(i);
    sym_assert(GooseFEM::is_unique(b) == u, "is_unique: no value occurs twice");
}
void h_mesh()
{
    Tables t = anyTables(THOROUGH ? 16 : 12, THOROUGH ? 14 : 11, 2);
    size_t nelem = t.conn.shape(0), nnode = t.dofs.shape(0), nne = t.conn.shape(1), nd = t.dofs.shape(1);
    D2 v = symD2(nnode, nd, "v");
    D3 e = asElementVector(t.conn, v), f = symD3(nelem, nne, nd, "f");
    sameShape(e, std::vector<size_t>{nelem, nne, nd}, "shape of elemvec");
    D2 n = assembleNodeVector(t.conn, f), r = xt::zeros<double>({nnode, nd});
    for (size_t k = 0; k < nelem; ++k)
        for (size_t m = 0; m < nne; ++m)
            for (size_t i = 0; i < nd; ++i) {
                sym_eq(e(k, m, i), v(t.conn(k, m), i), "element value is that of its node");
                r(t.conn(k, m), i) += f(k, m, i);
            }
    same(n, r, "node value is the sum of its element contributions");
    sym_assert(isSequential(t.dofs), "isSequential: every number up to the largest occurs");
    size_t hole = sym_size("hole", 0, 2) * (t.ndof / 2 - 1);
    I2 d = t.dofs;
    for (auto& k : d) k = k == hole ? t.ndof : k;
    sym_assert(!isSequential(d), "isSequential: every number up to the largest occurs");
}
void h_many()
{
    // diagonal element matrices with at most one other entry, in any place
    size_t ne = 17, m = 8, at = sym_size("element", 0, ne), i = sym_size("row", 0, m - 1), j = sym_size("column", 0, m - 1);
    D3 K = xt::zeros<double>({ne, m, m});
    for (size_t k = 0; k < ne; ++k)
        for (size_t a = 0; a < m; ++a) K(k, a, a) = sym_real("K", 1, 2);
    if (at < ne) K(at, i, j) = sym_real("entry", -1, -1e-6);
    sym_assert(isDiagonal(K) == (at == ne || i == j), "isDiagonal: every off-diagonal entry vanishes");
    // one repetition at most, in any place
    I1 u = xt::zeros<size_t>({size_t(20)});
    for (size_t k = 0; k < 20; ++k) u(k) = (k * 7) % 20;
    if (at < ne) u(at + 3) = u(i);
    sym_assert(GooseFEM::is_unique(u) == (at == ne || at + 3 == i), "is_unique: no value occurs twice");
}
}
