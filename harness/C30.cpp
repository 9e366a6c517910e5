//@ bound: 1 to 3, and 6 (thorough: also 9), by 1 to 12 by 1 to 3, and 6, elements, nfine 0 to 4; 3 by 23 or 32 by 3 elements with nfine 5 to 12 (thorough: 20), and more than the height; 3 or 9 by 13 to 33 by 3 or 9 elements (nfine 1), so that there are up to two transition layers in each direction on each side; 6x6, 6x9, 9x6, 12x3, 3x12, 4x9 (thorough: 18x3) by 27, 30 or 33; 27 by 107 by 1 or 3 (thorough: 9) elements and vice versa: three transition layers; edge size symbolic in [0.1, 10]
//@ assume: positive edge size
#include "mesh.h"
using namespace GooseFEM::Mesh;
typedef Hex8::FineLayer Fine;
static void check(size_t nx, size_t ny, size_t nz, size_t nfine, double h)
{
    Fine mesh(nx, ny, nz, 1, nfine), scaled(nx, ny, nz, h, nfine);
    D2 c = mesh.coor();
    I2 conn = mesh.conn();
    size_t H = mesh.nely();
    Box b{3, {(double)nx, (double)H, (double)nz}};
    checkCounts(mesh, c, conn, 8, 3);
    sym_equ(mesh.nelx(), nx, "nelx");
    sym_equ(mesh.nelz(), nz, "nelz");
    sym_eq(mesh.h(), 1, "h");
    sym_eq(scaled.h(), h, "h");
    sym_equ(H % 2, 1, "symmetric about the middle layer");
    sym_assert(H + 1 >= ny, "the height is at least the requested one (less one layer if that is even)");
    sym_assert(mesh.elementType() == ElementType::Hex8, "elementType");
    checkTiling3d(b, c, conn);
    checkSets3d(mesh, b, c);
    checkPeriodic(mesh, b, c);
    checkScale(scaled.coor(), c, h);
    sameU(scaled.conn(), conn, "conn does not depend on h");
    sameU(scaled.nodesPeriodic(), mesh.nodesPeriodic(), "nodesPeriodic does not depend on h");
    // extents of the elements
    size_t E = conn.shape(0);
    std::vector<double> lo(3 * E), hi(3 * E);
    for (size_t e = 0; e < E; ++e)
        for (size_t i = 0; i < 3; ++i) {
            lo[3 * e + i] = hi[3 * e + i] = c(conn(e, 0), i);
            for (size_t m = 1; m < 8; ++m) {
                double x = c(conn(e, m), i);
                if (x < lo[3 * e + i]) lo[3 * e + i] = x;
                if (x > hi[3 * e + i]) hi[3 * e + i] = x;
            }
        }
    // middle layer: elements of unit size, row by row in x
    I1 mid = mesh.elementsMiddleLayer();
    size_t m0 = (H - 1) / 2;
    sym_equ(mid.size(), nx * nz, "middle layer: number of elements");
    for (size_t k = 0; k < nx * nz; ++k) {
        double x = k % nx, z = k / nx;
        size_t e = mid(k);
        sym_assert(e < E, "middle layer: elements");
        sym_assert(lo[3 * e] == x && lo[3 * e + 1] == m0 && lo[3 * e + 2] == z && hi[3 * e] == x + 1 && hi[3 * e + 1] == m0 + 1 && hi[3 * e + 2] == z + 1, "middle layer: unit elements at half the height, in order");
    }
    // fine layers, and element sizes
    size_t want = nfine < H ? nfine : H;
    for (size_t e = 0; e < E; ++e) {
        double y = lo[3 * e + 1] < m0 ? m0 + 1 - hi[3 * e + 1] : lo[3 * e + 1] - m0;  // distance below/above the middle layer's far face
        double dy = hi[3 * e + 1] - lo[3 * e + 1];
        if (y > 0) sym_assert(dy <= y, "elements are not larger than their distance to the middle layer");
        if (2 * y + 1 <= (want | 1))  // symmetric: an even number is rounded up
            for (size_t i = 0; i < 3; ++i) sym_assert(hi[3 * e + i] - lo[3 * e + i] == 1, "the nfine layers around the middle are the smallest elements");
    }
    // elements are numbered layer by layer from bottom to top
    for (size_t e = 1; e < E; ++e) sym_assert(lo[3 * e + 1] >= lo[3 * e - 2] || hi[3 * e + 1] == hi[3 * e - 2] || hi[3 * e + 1] > lo[3 * e - 2], "elements from bottom to top");
    // the mesh is symmetric about the middle layer: mirrored nodes exist
    auto key = [&](size_t n, bool mirror) { return std::array<double, 3>{c(n, 0), mirror ? H - c(n, 1) : c(n, 1), c(n, 2)}; };
    std::vector<std::array<double, 3>> p(c.shape(0)), q(c.shape(0));
    for (size_t n = 0; n < c.shape(0); ++n) p[n] = key(n, false), q[n] = key(n, true);
    std::sort(p.begin(), p.end());
    std::sort(q.begin(), q.end());
    bool eq = true;
    for (size_t n = 0; n < c.shape(0); ++n)
        for (size_t i = 0; i < 3; ++i) eq = eq && p[n][i] == q[n][i];
    sym_assert(eq, "symmetric about the middle layer");
}
static const size_t SIZES[5] = {1, 2, 3, 6, 9};
extern "C" {
void h_small()
{
    size_t nx = SIZES[sym_size("nelx", 0, THOROUGH ? 4 : 3)], ny = sym_size("nely", 1, 12), nz = SIZES[sym_size("nelz", 0, THOROUGH ? 4 : 3)], nfine = sym_size("nfine", 0, THOROUGH ? 4 : 1);
    check(nx, ny, nz, nfine, sym_real("h", 0.1, 10));
}
void h_nfine()
{
    size_t nx = sym_size("nelx/3", 0, 1) ? 3 : 2, ny = sym_size("nely", 1, 12), nfine = sym_size("nfine", 2, 4);
    check(nx, ny, 3, nfine, sym_real("h", 0.1, 10));
}
void h_nfine_tall()
{
    size_t ny = sym_size("even", 0, 1) ? 32 : 23, nfine = sym_size("nfine", 5, THOROUGH ? 21 : 13);
    if (nfine == (THOROUGH ? 21 : 13)) nfine = 1000;
    check(3, ny, 3, nfine, sym_real("h", 0.1, 10));
}
void h_two()
{
    size_t nx = sym_size("nelx/9", 0, 1) ? 9 : 3, nz = sym_size("nelz/9", 0, 1) ? 9 : 3;
    size_t ny = THOROUGH ? sym_size("nely", 13, 33) : sym_size("nely/2", 7, 16) * 2 + 1;
    if (!THOROUGH) sym_assume(ny >= 25 || ny % 4 == 1);
    check(nx, ny, nz, 1, sym_real("h", 0.1, 10));
}
// sizes for which the number of elements in one of the directions limits the coarsening
void h_tall()
{
    static const size_t S[7][2] = {{6, 6}, {6, 9}, {9, 6}, {12, 3}, {3, 12}, {4, 9}, {18, 3}};
    size_t k = sym_size("nelx, nelz", 0, THOROUGH ? 6 : 5), ny = 27 + 3 * sym_size("(nely-27)/3", 0, 2);
    check(S[k][0], ny, S[k][1], 1, sym_real("h", 0.1, 10));
}
void h_three()
{
    size_t z = sym_size("along z", 0, 1);
    size_t o = sym_size("other", 0, THOROUGH ? 2 : 1), other = o == 0 ? 1 : o == 1 ? 3 : 9;
    check(z ? other : 27, THOROUGH ? sym_size("nely", 0, 1) * 18 + 89 : 107, z ? 27 : other, 1, sym_real("h", 0.1, 10));
}
void h_reject()
{
    size_t nx = sym_size("nelx", 0, 2), ny = sym_size("nely", 0, 2), nz = sym_size("nelz", 0, 2);
    if (nx && ny && nz) { Fine ok(nx, ny, nz); return; }
    SYM_THROWS(Fine(nx, ny, nz), "empty meshes are rejected");
}
}
