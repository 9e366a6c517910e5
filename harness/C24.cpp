//@ bound: 1 to 7 (thorough: 12) elements in each direction, and 8 to 24 (13 to 40) by 1 to 2 (3); counts and corners: 1 to 1000000 elements (not enumerated); edge size symbolic in [0.1, 10]
//@ assume: positive edge size
#include "mesh.h"
using namespace GooseFEM::Mesh;
static const size_t MAX = THOROUGH ? 12 : 7;
static void regular(size_t nx, size_t ny)
{
    double h = sym_real("h", 0.1, 10);
    Quad4::Regular mesh(nx, ny), scaled(nx, ny, h);
    Box b{2, {(double)nx, (double)ny, 0}};
    D2 c = mesh.coor();
    I2 conn = mesh.conn();
    checkCounts(mesh, c, conn, 4, 2);
    sym_equ(mesh.nelem(), nx * ny, "nelem");
    sym_equ(mesh.nelx(), nx, "nelx");
    sym_equ(mesh.nely(), ny, "nely");
    sym_eq(mesh.h(), 1, "the default edge size is 1");
    sym_eq(scaled.h(), h, "h");
    sym_assert(mesh.elementType() == ElementType::Quad4, "elementType");
    checkTiling2d(b, c, conn);
    for (size_t e = 0; e < nx * ny; ++e)
        for (size_t m = 0; m < 4; ++m) {
            size_t a = conn(e, m), z = conn(e, (m + 1) % 4);
            double dx = c(z, 0) - c(a, 0), dy = c(z, 1) - c(a, 1);
            sym_assert(m == 0 ? dx == 1 && dy == 0 : m == 1 ? dx == 0 && dy == 1 : m == 2 ? dx == -1 && dy == 0 : dx == 0 && dy == -1, "elements are squares of edge h, starting at the bottom left");
        }
    checkSets2d(mesh, b, c);
    checkPeriodic(mesh, b, c);
    I2 grid = mesh.elementgrid();
    sameShape(grid, std::vector<size_t>{ny, nx}, "elementgrid");
    for (size_t iy = 0; iy < ny; ++iy)
        for (size_t ix = 0; ix < nx; ++ix) {
            sym_assert(grid(iy, ix) < nx * ny, "elementgrid");
            sym_assert(c(conn(grid(iy, ix), 0), 0) == ix && c(conn(grid(iy, ix), 0), 1) == iy, "elementgrid: element at its row and column");
        }
    checkScale(scaled.coor(), c, h);
    sameU(scaled.conn(), conn, "conn does not depend on h");
    checkSets2d(scaled, b, c);
    sameU(scaled.nodesPeriodic(), mesh.nodesPeriodic(), "nodesPeriodic does not depend on h");
    sameU(scaled.dofsPeriodic(), mesh.dofsPeriodic(), "dofsPeriodic does not depend on h");
}
extern "C" {
void h_regular() { size_t nx = sym_size("nelx", 1, MAX); regular(nx, sym_size("nely", 1, MAX)); }
void h_slender()
{
    size_t n = sym_size("long", MAX + 1, THOROUGH ? 40 : 24), m = sym_size("short", 1, THOROUGH ? 3 : 2);
    if (sym_size("direction", 0, 1)) regular(n, m);
    else regular(m, n);
}
// counts and corners for large meshes (sizes stay symbolic)
void h_large()
{
    size_t nx = sym_u64("nelx", 1, 1000000), ny = sym_u64("nely", 1, 1000000);
    Quad4::Regular mesh(nx, ny);
    size_t row = nx + 1, last = row * ny + nx;
    sym_equ(mesh.nnode(), last + 1, "nnode");
    sym_equ(mesh.nelem(), nx * ny, "nelem");
    sym_equ(mesh.nelx(), nx, "nelx");
    sym_equ(mesh.nely(), ny, "nely");
    sym_equ(mesh.nodesBottomLeftCorner(), 0, "first node");
    sym_equ(mesh.nodesBottomRightCorner(), nx, "last node of the first row");
    sym_equ(mesh.nodesTopLeftCorner(), row * ny, "first node of the last row");
    sym_equ(mesh.nodesTopRightCorner(), last, "last node");
    sym_equ(mesh.nodesOrigin(), 0, "nodesOrigin");
}
void h_reject()
{
    size_t nx = sym_size("nelx", 0, 2), ny = sym_size("nely", 0, 2);
    if (nx && ny) { Quad4::Regular ok(nx, ny); return; }
    SYM_THROWS(Quad4::Regular(nx, ny), "empty meshes are rejected");
}
}
