//@ bound: all connectivities of up to 2 elements of 3 nodes (3 of 2) over up to 4 nodes, repeated nodes within an element included; all periodic DOF tables of up to 4 nodes x 2 components whose components tie the same nodes (with a connectivity of one 2-node element; two elements up to 3 nodes x 1 component; thorough: two elements throughout); meshes of 3 to 6 (thorough: 12) by 4 (6) quadrilaterals with an irregular numbering, with and without periodic DOFs
//@ assume: node numbers have no upper gap beyond the largest number used (the tables have one row per node up to that number)
#include "arr.h"
using namespace GooseFEM::Mesh;
typedef std::vector<std::vector<size_t>> VV;
static void row(const std::vector<size_t>& r, std::vector<size_t> e, const char* msg)
{
    sym_equ(r.size(), e.size(), msg);
    for (size_t k = 0; k < e.size(); ++k) sym_equ(r[k], e[k], msg);
}
// the same items in any order
static void items(const std::vector<size_t>& r, const std::vector<size_t>& e, size_t n, const char* msg)
{
    sym_equ(r.size(), e.size(), msg);
    for (size_t v = 0; v < n; ++v) {
        size_t a = 0, b = 0;
        for (auto k : r) a += (k == v);
        for (auto k : e) b += (k == v);
        sym_equ(a, b, msg);
    }
}
static void topology(const I2& conn)
{
    size_t n = 0;
    for (auto v : conn) n = v >= n ? v + 1 : n;
    I1 c = coordination(conn);
    VV e = elem2node(conn), f = elem2node(conn, false);
    sym_equ(c.size(), n, "number of nodes");
    sym_equ(e.size(), n, "number of nodes");
    sym_equ(f.size(), n, "number of nodes");
    VV d = node2dof(conn);
    sym_equ(d.size(), n, "number of DOFs");
    for (size_t k = 0; k < n; ++k) {
        std::vector<size_t> x;
        for (size_t i = 0; i < conn.shape(0); ++i)
            for (size_t j = 0; j < conn.shape(1); ++j)
                if (conn(i, j) == k) x.push_back(i);
        sym_equ(c(k), x.size(), "coordination: number of elements connected to the node");
        row(e[k], x, "elem2node: elements connected to the node, sorted");
        items(f[k], x, conn.shape(0), "elem2node: elements connected to the node");
        row(d[k], x, "node2dof: nodes connected to the DOF, sorted");
    }
}
static I1 classes(size_t n)
{
    I1 cls = xt::zeros<size_t>({n});
    size_t used = 0;
    bool rev = sym_size("reverse", 0, 1);
    for (size_t k = 0; k < n; ++k) {
        cls(k) = sym_size("class", 0, used);
        used += (cls(k) == used);
    }
    if (rev)
        for (auto& v : cls) v = used - 1 - v;
    return cls;
}
extern "C" {
void h_topology_3()
{
    size_t n = sym_size("nelem", 1, 2);
    I2 conn = symI2(n, 3, THOROUGH ? 4 : 3, "conn");
    concretizeAll(conn);
    topology(conn);
}
void h_topology_2()
{
    size_t n = sym_size("nelem", 1, 3);
    I2 conn = symI2(n, 2, THOROUGH ? 4 : 3, "conn");
    concretizeAll(conn);
    topology(conn);
}
void h_tyings()
{
    size_t n = sym_size("nnode", 1, 4), ndim = sym_size("ndim", 1, 2);
    I1 cls = classes(n);
    I2 d = xt::zeros<size_t>({n, ndim});
    for (size_t k = 0; k < n; ++k)
        for (size_t i = 0; i < ndim; ++i) d(k, i) = cls(k) * ndim + i;
    VV t = nodaltyings(d);
    sym_equ(t.size(), n, "one list per node");
    for (size_t k = 0; k < n; ++k) {
        std::vector<size_t> x;
        for (size_t j = 0; j < n; ++j)
            if (cls(j) == cls(k)) x.push_back(j);
        row(t[k], x, "nodaltyings: all nodes with the same DOFs, the node itself included");
    }
    // elements connected to a node or to a node it is tied to
    size_t nelem = sym_size("nelem", 1, (n > 3 || ndim > 1) && !THOROUGH ? 1 : 2);
    I2 conn = symI2(nelem, 2, n - 1, "conn");
    concretizeAll(conn);
    VV e = elem2node(conn, d), f = elem2node(conn, d, false);
    sym_equ(e.size(), n, "one list per node");
    sym_equ(f.size(), n, "one list per node");
    for (size_t k = 0; k < n; ++k) {
        std::vector<size_t> x;
        for (size_t i = 0; i < nelem; ++i)
            for (size_t j = 0; j < 2; ++j)
                if (cls(conn(i, j)) == cls(k)) x.push_back(i);
        row(e[k], x, "elem2node with DOFs: elements of all tied nodes, sorted");
        items(f[k], x, nelem, "elem2node with DOFs: elements of all tied nodes");
    }
}
void h_mesh()
{
    bool periodic = sym_size("periodic", 0, 1);
    size_t nx = sym_size("nx", 3, THOROUGH ? 12 : 6);
    Tables t = gridTables(nx, THOROUGH ? 6 : 4, 2, periodic);
    topology(t.conn);
    // classes of nodes of equal DOFs
    size_t n = t.dofs.shape(0), nelem = t.conn.shape(0);
    VV d = nodaltyings(t.dofs), e = elem2node(t.conn, t.dofs), f = elem2node(t.conn, t.dofs, false);
    sym_equ(d.size(), n, "one list per node");
    sym_equ(e.size(), n, "one list per node");
    sym_equ(f.size(), n, "one list per node");
    for (size_t k = 0; k < n; ++k) {
        std::vector<size_t> x, y;
        for (size_t j = 0; j < n; ++j)
            if (t.dofs(j, 0) == t.dofs(k, 0)) x.push_back(j);
        row(d[k], x, "nodaltyings: all nodes with the same DOFs, the node itself included");
        for (size_t i = 0; i < nelem; ++i)
            for (size_t j = 0; j < 4; ++j)
                if (t.dofs(t.conn(i, j), 0) == t.dofs(k, 0)) y.push_back(i);
        row(e[k], y, "elem2node with DOFs: elements of all tied nodes, sorted");
        items(f[k], y, nelem, "elem2node with DOFs: elements of all tied nodes");
    }
}
}
