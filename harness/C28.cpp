//@ bound: mesh: 1 to 6 (thorough: 12) elements in each direction, and 7 to 24 (13 to 40) by 1 to 2 (3), edge size symbolic in [0.1, 10]; orientation: 1 triangle on 3 nodes, or 2 on 4 nodes, with any connectivity and any real positions; 24 to 27 (64 to 67) triangles in a strip of which the node positions vary by 10% of the edge, in three patterns of orientation
//@ assume: positive edge size
//@ outside: orientation of degenerate triangles (area zero), for which any of the two is accepted
#include "mesh.h"
using namespace GooseFEM::Mesh;
static const size_t MAX = THOROUGH ? 12 : 6;
typedef xt::xtensor<int, 1> O1;
// twice the signed area: positive if counter-clockwise
static double area(const D2& x, const I2& conn, size_t e) { return area2(x, conn(e, 0), conn(e, 1), conn(e, 2)); }
static I2 anyConn(size_t ne, size_t nn)
{
    I2 conn = symI2(ne, 3, nn - 1, "conn");
    if (ne > 1 && !THOROUGH)  // (without loss of generality: the positions are arbitrary)
        for (size_t m = 0; m < 3; ++m) conn(0, m) = m;
    for (size_t e = 0; e < ne; ++e) {
        sym_assume(conn(e, 0) != conn(e, 1));
        sym_assume(conn(e, 0) != conn(e, 2));
        sym_assume(conn(e, 1) != conn(e, 2));
    }
    concretizeAll(conn);
    return conn;
}
static void regular(size_t nx, size_t ny)
{
    double h = sym_real("h", 0.1, 10);
    Tri3::Regular mesh(nx, ny), scaled(nx, ny, h);
    Box b{2, {(double)nx, (double)ny, 0}};
    D2 c = mesh.coor();
    I2 conn = mesh.conn();
    checkCounts(mesh, c, conn, 3, 2);
    sym_equ(mesh.nelem(), 2 * nx * ny, "nelem");
    sym_equ(mesh.nelx(), nx, "nelx");
    sym_equ(mesh.nely(), ny, "nely");
    sym_eq(mesh.h(), 1, "the default edge size is 1");
    sym_eq(scaled.h(), h, "h");
    sym_assert(mesh.elementType() == ElementType::Tri3, "elementType");
    checkTiling2d(b, c, conn);
    for (size_t e = 0; e < conn.shape(0); ++e) sym_assert(area(c, conn, e) == 1, "two equal triangles per square");
    checkSets2d(mesh, b, c);
    checkPeriodic(mesh, b, c);
    checkScale(scaled.coor(), c, h);
    sameU(scaled.conn(), conn, "conn does not depend on h");
    sameU(scaled.nodesPeriodic(), mesh.nodesPeriodic(), "nodesPeriodic does not depend on h");
    O1 o = Tri3::getOrientation(scaled.coor(), conn);
    for (size_t e = 0; e < conn.shape(0); ++e) sym_assert(o(e) == o(0), "all triangles have the same orientation");
}
extern "C" {
void h_regular() { size_t nx = sym_size("nelx", 1, MAX); regular(nx, sym_size("nely", 1, MAX)); }
void h_slender()
{
    size_t n = sym_size("long", MAX + 1, THOROUGH ? 40 : 24), m = sym_size("short", 1, THOROUGH ? 3 : 2);
    if (sym_size("direction", 0, 1)) regular(n, m);
    else regular(m, n);
}
void h_reject()
{
    size_t nx = sym_size("nelx", 0, 2), ny = sym_size("nely", 0, 2);
    if (nx && ny) { Tri3::Regular ok(nx, ny); return; }
    SYM_THROWS(Tri3::Regular(nx, ny), "empty meshes are rejected");
}
void h_orientation()
{
    size_t ne = sym_size("nelem", 1, 2), nn = 4;
    I2 conn = ne == 1 ? anyConn(1, 3) : anyConn(ne, nn);
    int target = sym_size("target", 0, 1) ? 1 : -1;
    D2 x = symD2(nn, 2, "x");
    O1 o = Tri3::getOrientation(x, conn);
    sym_equ(o.size(), ne, "one per triangle");
    for (size_t e = 0; e < ne; ++e) {
        sym_assert(o(e) == 1 || o(e) == -1, "orientation is -1 or +1");
        double a = area(x, conn, e);
        sym_assert((a > 0) <= (o(e) == -1), "counter-clockwise: -1");
        sym_assert((a < 0) <= (o(e) == 1), "clockwise: +1");
    }
    I2 r = Tri3::setOrientation(x, conn, target), r2 = Tri3::setOrientation(x, conn, o, target);
    sameU(r, r2, "given the current orientation");
    sameShape(r, std::vector<size_t>{ne, 3}, "shape");
    for (size_t e = 0; e < ne; ++e) {
        sym_assert(r(e, 0) == conn(e, 0), "the first node stays");
        sym_assert((r(e, 1) == conn(e, 1) && r(e, 2) == conn(e, 2)) || (r(e, 1) == conn(e, 2) && r(e, 2) == conn(e, 1)), "elements keep their nodes");
        double a = area(x, r, e);
        sym_assert(target == -1 ? a >= 0 : a <= 0, "all elements have the requested orientation");
        bool keep = r(e, 1) == conn(e, 1);
        sym_assert((o(e) == target) == keep, "elements that have the orientation are not changed");
    }
    I2 d = Tri3::setOrientation(x, conn), d2 = Tri3::setOrientation(x, conn, o);
    sameU(d, d2, "given the current orientation, default target");
    for (size_t e = 0; e < ne; ++e) sym_assert(area(x, d, e) >= 0, "the default is counter-clockwise (-1)");
}
// many triangles, of which the orientation varies and is known: every one of them is treated by itself
void h_many()
{
    size_t ne = sym_size("nelem", THOROUGH ? 64 : 24, THOROUGH ? 67 : 27);
    size_t pattern = sym_size("pattern", 0, 2);
    int target = sym_size("target", 0, 1) ? 1 : -1;
    D2 x = symD2(2 * (ne + 1), 2, "x");
    for (size_t k = 0; k <= ne; ++k)  // two rows of nodes, a unit apart, and up to 0.1 from a regular grid
        for (size_t r = 0; r < 2; ++r) {
            x(2 * k + r, 0) = (double)k + 0.1 * x(2 * k + r, 0);
            x(2 * k + r, 1) = (double)r + 0.1 * x(2 * k + r, 1);
        }
    I2 conn = xt::zeros<size_t>({ne, size_t(3)}), flip = xt::zeros<size_t>({ne, size_t(3)});
    std::vector<bool> ccw(ne);
    for (size_t e = 0; e < ne; ++e) {
        size_t a[3] = {2 * e, 2 * e + 2, 2 * e + (e % 2 ? 3 : 1)};  // counter-clockwise
        ccw[e] = pattern == 0 ? e % 2 : pattern == 1 ? e % 5 < 3 : e + 1 == ne;
        for (size_t m = 0; m < 3; ++m) conn(e, m) = a[(m + e) % 3];
        if (!ccw[e]) std::swap(conn(e, 1), conn(e, 2));
        flip(e, 0) = conn(e, 0);
        flip(e, 1) = conn(e, 2);
        flip(e, 2) = conn(e, 1);
    }
    O1 o = Tri3::getOrientation(x, conn);
    sym_equ(o.size(), ne, "one per triangle");
    for (size_t e = 0; e < ne; ++e) sym_assert(o(e) == (ccw[e] ? -1 : 1), "orientation");
    I2 r = Tri3::setOrientation(x, conn, target), r2 = Tri3::setOrientation(x, conn, o, target), d = Tri3::setOrientation(x, conn);
    sameU(r, r2, "given the current orientation");
    for (size_t e = 0; e < ne; ++e)
        for (size_t m = 0; m < 3; ++m) {
            sym_equ(r(e, m), (ccw[e] ? -1 : 1) == target ? conn(e, m) : flip(e, m), "all elements have the requested orientation");
            sym_equ(d(e, m), ccw[e] ? conn(e, m) : flip(e, m), "the default is counter-clockwise");
        }
}
}
