//@ bound: 1 to 2 (thorough: 4) quadrilaterals of a structured topology with any local rotation of each element, either node order, one optional unconnected node; all node positions symbolic reals; every element map; a 5 x 4 (thorough: 7 x 4) mesh with an irregular numbering and node positions within 10% of a regular grid (centre of gravity: any one of the nodes)
//@ assume: for masses and the centre of gravity: convex elements (positive Jacobian determinant, > 0.01, at every corner)
//@ outside: element types other than Quad4 (rejected by the library)
#include "arr.h"
using namespace GooseFEM::Mesh;
struct Topo { I2 conn; size_t nnode; D2 hint; };
static Topo topo(bool extra, size_t nxmax, size_t nymax, size_t rotations = 3)
{
    size_t nx = sym_size("nx", 1, nxmax), ny = sym_size("ny", 1, nymax), pos = extra ? sym_size("unconnected node", 0, 2) : 0;
    size_t n = (nx + 1) * (ny + 1), tot = n + (pos > 0);
    bool rev = sym_size("reversed", 0, 1);
    I2 c = xt::zeros<size_t>({nx * ny, size_t(4)});
    for (size_t e = 0; e < nx * ny; ++e) {
        size_t x = e % nx, y = e / nx, k[4] = {y * (nx + 1) + x, y * (nx + 1) + x + 1, (y + 1) * (nx + 1) + x + 1, (y + 1) * (nx + 1) + x};
        size_t r = sym_size("rotation", 0, nx * ny > 2 ? 1 : rotations);
        for (size_t m = 0; m < 4; ++m) {
            size_t v = k[(m + r) % 4];
            c(e, m) = (rev ? n - 1 - v : v) + (pos == 1);
        }
    }
    D2 h = xt::zeros<double>({tot, size_t(2)});
    for (size_t k = 0; k < n; ++k) {
        size_t m = (rev ? n - 1 - k : k) + (pos == 1);
        h(m, 0) = 0.75 * (double)(k % (nx + 1)) - 0.8;
        h(m, 1) = 0.75 * (double)(k / (nx + 1)) - 0.8;
    }
    return Topo{c, tot, h};
}
static double cross(const D2& x, size_t o, size_t a, size_t b);
// positions of a mesh of convex elements
static D2 regular(const Topo& t)
{
    D2 x = t.hint;
    for (auto& v : x) v = sym_realh("x", -1, 1, v);
    for (size_t e = 0; e < t.conn.shape(0); ++e)
        for (size_t k = 0; k < 4; ++k) sym_assume(cross(x, t.conn(e, k), t.conn(e, (k + 1) % 4), t.conn(e, (k + 3) % 4)) > 0.01);
    return x;
}
static double cross(const D2& x, size_t o, size_t a, size_t b)
{
    return (x(a, 0) - x(o, 0)) * (x(b, 1) - x(o, 1)) - (x(a, 1) - x(o, 1)) * (x(b, 0) - x(o, 0));
}
extern "C" {
void h_edges()
{
    Topo t = topo(true, 2, THOROUGH ? 2 : 1);
    D2 x = symD2(t.nnode, 2, "x");
    D2 s = edgesize(x, t.conn), s2 = edgesize(x, t.conn, ElementType::Quad4);
    sameShape(s, std::vector<size_t>{t.conn.shape(0), 4}, "shape");
    for (size_t e = 0; e < t.conn.shape(0); ++e)
        for (size_t m = 0; m < 4; ++m) {
            size_t a = t.conn(e, m), b = t.conn(e, (m + 1) % 4);
            double dx = x(a, 0) - x(b, 0), dy = x(a, 1) - x(b, 1);
            sym_eq(s(e, m) * s(e, m), dx * dx + dy * dy, "edge size: distance between the nodes of the edge");
            sym_assert(s(e, m) >= 0, "edge size is not negative");
            sym_eq(s2(e, m) * s2(e, m), dx * dx + dy * dy, "edge size, type given");
        }
}
void h_centers()
{
    Topo t = topo(true, 2, 2);
    D2 x = symD2(t.nnode, 2, "x");
    D2 c = centers(x, t.conn), c2 = centers(x, t.conn, ElementType::Quad4);
    sameShape(c, std::vector<size_t>{t.conn.shape(0), 2}, "shape");
    for (size_t e = 0; e < t.conn.shape(0); ++e)
        for (size_t i = 0; i < 2; ++i) {
            double a = 0;
            for (size_t m = 0; m < 4; ++m) a += x(t.conn(e, m), i);
            sym_eq(4 * c(e, i), a, "centre: average of the nodes");
            sym_eq(4 * c2(e, i), a, "centre, type given");
        }
}
void h_mass()
{
    Topo t = topo(true, 2, 2);
    D2 x = regular(t);
    D2 m = nodal_mass(x, t.conn), m2 = nodal_mass(x, t.conn, ElementType::Quad4);
    sameShape(m, std::vector<size_t>{t.nnode, 2}, "shape");
    D1 mass = xt::zeros<double>({t.nnode});
    for (size_t e = 0; e < t.conn.shape(0); ++e)
        for (size_t k = 0; k < 4; ++k) mass(t.conn(e, k)) += 0.25 * cross(x, t.conn(e, k), t.conn(e, (k + 1) % 4), t.conn(e, (k + 3) % 4));
    double total = 0;
    for (size_t n = 0; n < t.nnode; ++n) {
        for (size_t i = 0; i < 2; ++i) {
            sym_eq(m(n, i), mass(n), "nodal mass: Jacobian determinants at the node, summed over its elements");
            sym_eq(m2(n, i), mass(n), "nodal mass, type given");
        }
        total += mass(n);
    }
    double area = 0;
    for (size_t e = 0; e < t.conn.shape(0); ++e) area += 0.5 * (cross(x, t.conn(e, 0), t.conn(e, 1), t.conn(e, 2)) + cross(x, t.conn(e, 0), t.conn(e, 2), t.conn(e, 3)));
    sym_eq(total, area, "the total mass is the area");
}
void h_gravity()
{
    Topo t = topo(true, 2, 1, 1);
    D2 x = regular(t);
    D2 m = nodal_mass(x, t.conn);
    double total = 0, sx = 0, sy = 0;
    for (size_t n = 0; n < t.nnode; ++n) {
        total += m(n, 0);
        sx += m(n, 0) * x(n, 0);
        sy += m(n, 0) * x(n, 1);
    }
    D1 g = center_of_gravity(x, t.conn), g2 = center_of_gravity(x, t.conn, ElementType::Quad4);
    sym_equ(g.size(), 2, "shape");
    sym_eq(g(0) * total, sx, "centre of gravity: mass average of the positions");
    sym_eq(g(1) * total, sy, "centre of gravity: mass average of the positions");
    sym_eq(g2(0) * total, sx, "centre of gravity, type given");
    sym_eq(g2(1) * total, sy, "centre of gravity, type given");
}
void h_nodemap()
{
    Topo t = topo(true, 2, THOROUGH ? 2 : 1);
    size_t nelem = t.conn.shape(0);
    I1 em = symI1(nelem, nelem - 1, "map");
    concretizeAll(em);
    D2 x = symD2(t.nnode, 2, "x");
    I1 r = elemmap2nodemap(em, x, t.conn), r2 = elemmap2nodemap(em, x, t.conn, ElementType::Quad4);
    sym_equ(r.size(), t.nnode, "one entry per node");
    sameU(r, r2, "type given");
    for (size_t n = 0; n < t.nnode; ++n) {
        bool connected = false, ok = false;
        for (size_t e = 0; e < nelem; ++e)
            for (size_t m = 0; m < 4; ++m)
                if (t.conn(e, m) == n) {
                    connected = true;
                    ok = ok | (r(n) == t.conn(em(e), m));
                }
        sym_assert(connected ? ok : r(n) == t.nnode, "node map: the node at the same place of the mapped element (number of nodes if unconnected)");
    }
}
void h_mesh()
{
    Tables g = gridTables(THOROUGH ? 7 : 5, 4, 2, false);
    size_t nx = THOROUGH ? 7 : 5, nelem = g.conn.shape(0), nnode = g.dofs.shape(0);
    D2 x = xt::zeros<double>({nnode, size_t(2)}), any = symD2(nnode, 2, "x");
    for (size_t e = 0; e < nelem; ++e)
        for (size_t m = 0; m < 4; ++m) {  // within 10% of a regular grid of unit squares
            x(g.conn(e, m), 0) = (double)(e % nx + (m == 1 || m == 2)) + 0.1 * any(g.conn(e, m), 0);
            x(g.conn(e, m), 1) = (double)(e / nx + (m > 1)) + 0.1 * any(g.conn(e, m), 1);
        }
    D2 s = edgesize(x, g.conn), c = centers(x, g.conn), m = nodal_mass(x, g.conn);
    D1 mass = xt::zeros<double>({nnode});
    for (size_t e = 0; e < nelem; ++e)
        for (size_t k = 0; k < 4; ++k) {
            size_t a = g.conn(e, k), b = g.conn(e, (k + 1) % 4), d = g.conn(e, (k + 3) % 4);
            double dx = x(a, 0) - x(b, 0), dy = x(a, 1) - x(b, 1);
            sym_eq(s(e, k) * s(e, k), dx * dx + dy * dy, "edge size: distance between the nodes of the edge");
            mass(a) += 0.25 * cross(x, a, b, d);
        }
    for (size_t e = 0; e < nelem; ++e)
        for (size_t i = 0; i < 2; ++i) {
            double a = 0;
            for (size_t k = 0; k < 4; ++k) a += x(g.conn(e, k), i);
            sym_eq(4 * c(e, i), a, "centre: average of the nodes");
        }
    for (size_t n = 0; n < nnode; ++n)
        for (size_t i = 0; i < 2; ++i) sym_eq(m(n, i), mass(n), "nodal mass: Jacobian determinants at the node, summed over its elements");
    // the elements in reversed order
    I1 em = xt::zeros<size_t>({nelem});
    for (size_t e = 0; e < nelem; ++e) em(e) = nelem - 1 - e;
    I1 r = elemmap2nodemap(em, x, g.conn);
    sym_equ(r.size(), nnode, "one entry per node");
    for (size_t n = 0; n < nnode; ++n) {
        bool ok = false;
        for (size_t e = 0; e < nelem; ++e)
            for (size_t k = 0; k < 4; ++k)
                if (g.conn(e, k) == n) ok = ok | (r(n) == g.conn(em(e), k));
        sym_assert(ok, "node map: the node at the same place of the mapped element");
    }
}
void h_mesh_gravity()
{
    // one of the nodes has any position within 10% of its place in a regular grid
    Tables g = gridTables(5, 4, 2, false);
    size_t nelem = g.conn.shape(0), nnode = g.dofs.shape(0), any = sym_size("node", 0, nnode - 1);
    D2 x = xt::zeros<double>({nnode, size_t(2)});
    for (size_t e = 0; e < nelem; ++e)
        for (size_t m = 0; m < 4; ++m) {
            x(g.conn(e, m), 0) = (double)(e % 5 + (m == 1 || m == 2)) + 0.0625 * ((e / 5 + m / 2) % 3);
            x(g.conn(e, m), 1) = (double)(e / 5 + (m > 1));
        }
    for (size_t i = 0; i < 2; ++i) x(any, i) += sym_real("x", -0.1, 0.1);
    D1 mass = xt::zeros<double>({nnode});
    double total = 0, q[2] = {0, 0};
    for (size_t e = 0; e < nelem; ++e)
        for (size_t k = 0; k < 4; ++k) mass(g.conn(e, k)) += 0.25 * cross(x, g.conn(e, k), g.conn(e, (k + 1) % 4), g.conn(e, (k + 3) % 4));
    for (size_t n = 0; n < nnode; ++n) {
        total += mass(n);
        for (size_t i = 0; i < 2; ++i) q[i] += mass(n) * x(n, i);
    }
    D1 c = center_of_gravity(x, g.conn);
    for (size_t i = 0; i < 2; ++i) sym_eq(c(i) * total, q[i], "centre of gravity: mass average of the positions");
}
}
