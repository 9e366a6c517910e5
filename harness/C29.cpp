//@ bound: 1 to 4 (thorough: 6) elements in each direction, and 5 to 12 (7 to 20) by 1 to 2 by 1 to 2, edge size symbolic in [0.1, 10]; counts and corners: 1 to 1000000 elements (not enumerated)
//@ assume: positive edge size
#include "mesh.h"
using namespace GooseFEM::Mesh;
static const size_t MAX = THOROUGH ? 6 : 4;
static void regular(size_t nx, size_t ny, size_t nz)
{
    double h = sym_real("h", 0.1, 10);
    Hex8::Regular mesh(nx, ny, nz), scaled(nx, ny, nz, h);
    Box b{3, {(double)nx, (double)ny, (double)nz}};
    D2 c = mesh.coor();
    I2 conn = mesh.conn();
    checkCounts(mesh, c, conn, 8, 3);
    sym_equ(mesh.nelem(), nx * ny * nz, "nelem");
    sym_equ(mesh.nelx(), nx, "nelx");
    sym_equ(mesh.nely(), ny, "nely");
    sym_equ(mesh.nelz(), nz, "nelz");
    sym_eq(mesh.h(), 1, "the default edge size is 1");
    sym_eq(scaled.h(), h, "h");
    sym_assert(mesh.elementType() == ElementType::Hex8, "elementType");
    checkTiling3d(b, c, conn);
    static const int S[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
    for (size_t e = 0; e < conn.shape(0); ++e)
        for (size_t m = 0; m < 8; ++m)
            for (size_t i = 0; i < 3; ++i) sym_assert(c(conn(e, m), i) == c(conn(e, 0), i) + S[m][i], "elements are cubes of edge h");
    checkSets3d(mesh, b, c);
    checkPeriodic(mesh, b, c);
    checkScale(scaled.coor(), c, h);
    sameU(scaled.conn(), conn, "conn does not depend on h");
    sameU(scaled.nodesPeriodic(), mesh.nodesPeriodic(), "nodesPeriodic does not depend on h");
}
extern "C" {
void h_regular()
{
    size_t nx = sym_size("nelx", 1, MAX), ny = sym_size("nely", 1, MAX);
    regular(nx, ny, sym_size("nelz", 1, MAX));
}
void h_slender()
{
    size_t n = sym_size("long", MAX + 1, THOROUGH ? 20 : 12), m = sym_size("short", 1, 2), k = sym_size("other", 1, 2), d = sym_size("direction", 0, 2);
    regular(d == 0 ? n : m, d == 1 ? n : d == 0 ? m : k, d == 2 ? n : k);
}
void h_large()
{
    size_t nx = sym_u64("nelx", 1, 1000000), ny = sym_u64("nely", 1, 1000000), nz = sym_u64("nelz", 1, 1000000);
    Hex8::Regular mesh(nx, ny, nz);
    sym_equ(mesh.nnode(), (nx + 1) * (ny + 1) * (nz + 1), "nnode");
    sym_equ(mesh.nelem(), nx * ny * nz, "nelem");
    sym_equ(mesh.nelx(), nx, "nelx");
    sym_equ(mesh.nely(), ny, "nely");
    sym_equ(mesh.nelz(), nz, "nelz");
    sym_equ(mesh.nodesOrigin(), 0, "nodesOrigin");
    sym_equ(mesh.nodesFrontBottomRightCorner(), nx, "end of the first row");
    sym_equ(mesh.nodesFrontTopLeftCorner(), (nx + 1) * ny, "start of the last row of the front");
    sym_equ(mesh.nodesFrontTopRightCorner(), (nx + 1) * (ny + 1) - 1, "end of the front");
    sym_equ(mesh.nodesBackBottomLeftCorner(), (nx + 1) * (ny + 1) * nz, "start of the back");
    sym_equ(mesh.nodesBackTopRightCorner(), (nx + 1) * (ny + 1) * (nz + 1) - 1, "end of the back");
}
void h_reject()
{
    size_t nx = sym_size("nelx", 0, 2), ny = sym_size("nely", 0, 2), nz = sym_size("nelz", 0, 2);
    if (nx && ny && nz) { Hex8::Regular ok(nx, ny, nz); return; }
    SYM_THROWS(Hex8::Regular(nx, ny, nz), "empty meshes are rejected");
}
}
