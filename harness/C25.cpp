//@ bound: 1 to 9 by 1 to 12 elements, and 9 (thorough also 18 and 27) by 27 to 33 elements, so that there are up to two transition layers on each side; 1 to 15 (21) by 24 (13) to 33 and 10 to 30 (48) by 4, 7, 10, or 13 elements; 27 by 89 to 107 (thorough: 170) elements: three transition layers; nfine 0 to 4; 3 or 9 (thorough: also 27) by 25, 32, 39, or 46 (thorough: and one more) elements with nfine 5 to 20 (thorough: 26), and more than the height; edge size symbolic in [0.1, 10]
//@ bound: reconstruction: the same sizes (nfine at its default), with edge sizes 1, 0.1, 1/3, 0.37, and 0.00082 in rounded double precision, and for a symbolic edge size (exact arithmetic) up to 3 by 5 elements
//@ assume: positive edge size
//@ outside: reconstruction of meshes with another nfine than the default (rejected by an exception)
#include "mesh.h"
using namespace GooseFEM::Mesh;
typedef Quad4::FineLayer Fine;
static double mean(const D2& c, const I2& conn, size_t e, size_t i)
{
    double r = 0;
    for (size_t m = 0; m < 4; ++m) r += 0.25 * c(conn(e, m), i);
    return r;
}
static double ext(const D2& c, const I2& conn, size_t e, size_t i, bool hi)
{
    double r = c(conn(e, 0), i);
    for (size_t m = 1; m < 4; ++m) r = hi ? std::max(r, (double)c(conn(e, m), i)) : std::min(r, (double)c(conn(e, m), i));
    return r;
}
static void check(size_t nx, size_t ny, size_t nfine, double h)
{
    Fine mesh(nx, ny, 1, nfine), scaled(nx, ny, h, nfine);
    D2 c = mesh.coor();
    I2 conn = mesh.conn();
    size_t H = mesh.nely(), R = mesh.elemrow_nhy().size();
    Box b{2, {(double)nx, (double)H, 0}};
    checkCounts(mesh, c, conn, 4, 2);
    sym_equ(mesh.nelx(), nx, "nelx");
    sym_eq(scaled.h(), h, "h");
    sym_equ(H % 2, 1, "symmetric about the middle layer");
    sym_assert(H + 1 >= ny, "the height is at least the requested one (less one layer if that is even)");
    sym_assert(mesh.elementType() == ElementType::Quad4, "elementType");
    checkTiling2d(b, c, conn);
    checkSets2d(mesh, b, c);
    checkPeriodic(mesh, b, c);
    checkScale(scaled.coor(), c, h);
    sameU(scaled.conn(), conn, "conn does not depend on h");
    sameU(scaled.nodesPeriodic(), mesh.nodesPeriodic(), "nodesPeriodic does not depend on h");
    // rows
    I1 nhx = mesh.elemrow_nhx(), nhy = mesh.elemrow_nhy(), nel = mesh.elemrow_nelem();
    auto type = mesh.elemrow_type();
    sym_equ(nhx.size(), R, "elemrow_nhx");
    sym_equ(nel.size(), R, "elemrow_nelem");
    sym_equ(type.size(), R, "elemrow_type");
    sym_equ(R % 2, 1, "symmetric about the middle layer");
    size_t y = 0, next = 0, fine = 0;
    for (size_t r = 0; r < R; ++r) {
        I1 el = mesh.elementsLayer(r);
        sym_equ(nhx(r), nhx(R - 1 - r), "symmetric about the middle layer");
        sym_equ(nhy(r), nhy(R - 1 - r), "symmetric about the middle layer");
        sym_equ(nhx(r) * nel(r), nx, "elemrow_nelem: blocks fill the row");
        bool trans = type(r) == 0;
        sym_assert(trans || type(r) == -1, "elemrow_type");
        sym_equ(el.size(), trans ? 4 * nel(r) : nel(r), "elementsLayer: number of elements");
        if (trans) {
            size_t in = r < R / 2 ? r + 1 : r - 1, out = r < R / 2 ? r - 1 : r + 1;
            sym_equ(nhx(in) * 3, nhx(r), "transition layers match three elements to one");
            if (out < R && type(out) != 0) sym_assert(nhx(out) == nhx(r), "transition layers match the next layer");
        }
        for (size_t k = 0; k < el.size(); ++k) {
            size_t e = el(k);
            sym_equ(e, next++, "elementsLayer: elements from bottom to top");
            double x0 = ext(c, conn, e, 0, false), x1 = ext(c, conn, e, 0, true), y0 = ext(c, conn, e, 1, false), y1 = ext(c, conn, e, 1, true);
            sym_assert(y0 >= y && y1 <= y + nhy(r), "elementsLayer: elements are in the layer");
            size_t blk = (trans ? k / 4 : k) * nhx(r);
            sym_assert(x0 >= blk && x1 <= blk + nhx(r), "elements follow each other from left to right, block by block");
            if (!trans) sym_assert(x0 == blk && x1 == blk + nhx(r) && y0 == y && y1 == y + nhy(r), "elements have the size of their row");
        }
        y += nhy(r);
        if (nhx(r) == 1 && nhy(r) == 1 && !trans) ++fine;
        // the size of the elements is not more than the distance to the middle layer
        if (r > R / 2) sym_assert(nhy(r) <= y - nhy(r) - (H - 1) / 2, "elements are not larger than their distance to the middle layer");
    }
    sym_equ(y, H, "the rows fill the height");
    sym_equ(next, conn.shape(0), "every element is in a layer");
    size_t want = nfine < H ? nfine : H;
    sym_assert(fine >= want, "at least nfine layers of the smallest elements");
    for (size_t r = 0; r < R; ++r) {
        size_t d = r < R / 2 ? R / 2 - r : r - R / 2;
        if (2 * d + 1 <= want) sym_assert(nhx(r) == 1 && nhy(r) == 1 && type(r) == -1, "the nfine layers are around the middle");
    }
    I1 mid = mesh.elementsMiddleLayer();
    sameU(mid, mesh.elementsLayer(R / 2), "middle layer");
    sym_equ(mid.size(), nx, "middle layer: number of elements");
    for (size_t k = 0; k < nx; ++k) sym_assert(mean(c, conn, mid(k), 1) == 0.5 * H && mean(c, conn, mid(k), 0) == k + 0.5, "middle layer: elements at half the height, from left to right");
    SYM_THROWS(mesh.elementsLayer(R), "layers that do not exist are rejected");
}
static void sameMesh(Fine& a, Fine& r)
{
    sameU(a.conn(), r.conn(), "conn");
    same(a.coor(), r.coor(), "coor");
    sameU(a.elementsMiddleLayer(), r.elementsMiddleLayer(), "elementsMiddleLayer");
    sameU(a.elemrow_nhx(), r.elemrow_nhx(), "elemrow_nhx");
    sameU(a.elemrow_nhy(), r.elemrow_nhy(), "elemrow_nhy");
    sym_eq(a.h(), r.h(), "h");
}
extern "C" {
void h_small()
{
    size_t nx = sym_size("nelx", 1, 9), ny = sym_size("nely", 1, 12), nfine = sym_size("nfine", 0, 4);
    check(nx, ny, nfine, sym_real("h", 0.1, 10));
}
void h_two()
{
    size_t nx = 9 * sym_size("nelx/9", 1, THOROUGH ? 3 : 1), ny = sym_size("nely", 27, 33), nfine = sym_size("nfine", 0, THOROUGH ? 4 : 1);
    check(nx, ny, nfine, sym_real("h", 0.1, 10));
}
// sizes for which the number of elements in x limits the coarsening
void h_tall()
{
    size_t nx = sym_size("nelx", 1, THOROUGH ? 21 : 15), ny = sym_size("nely", THOROUGH ? 13 : 24, 33);
    if (nx == 9 || nx == 18) return;
    check(nx, ny, 1, sym_real("h", 0.1, 10));
}
void h_wide()
{
    size_t nx = sym_size("nelx", 10, THOROUGH ? 48 : 30), ny = sym_size("nely", 1, 4);
    check(nx, 3 * ny + 1, 1, sym_real("h", 0.1, 10));
}
void h_three()
{
    size_t ny = sym_size("nely", 0, THOROUGH ? 9 : 2);
    check(27, 89 + 9 * ny, 1, sym_real("h", 0.1, 10));
}
void h_nfine()
{
    static const size_t X[3] = {3, 9, 27};
    size_t nx = X[sym_size("nelx", 0, THOROUGH ? 2 : 1)], ny = 25 + 7 * sym_size("(nely-25)/7", 0, 3) + sym_size("even", 0, THOROUGH), nfine = sym_size("nfine", 5, THOROUGH ? 27 : 21);
    if (nfine == (THOROUGH ? 27 : 21)) nfine = 1000;
    check(nx, ny, nfine, sym_real("h", 0.1, 10));
}
void h_replica()
{
    sym_ieee(true);
    bool two = sym_size("two transition layers", 0, 1);
    size_t nx = two ? 9 : sym_size("nelx", 1, 9), ny = two ? sym_size("nely", 27, 33) : sym_size("nely", 1, 12);
    static const double hs[5] = {1, 0.1, 1. / 3, 0.37, 0.82e-3};
    Fine mesh(nx, ny, hs[sym_size("h", 0, 4)]);
    Fine r(mesh.coor(), mesh.conn());
    sameMesh(mesh, r);
}
void h_replica_sym()
{
    size_t nx = sym_size("nelx", 1, 3), ny = sym_size("nely", 1, 5);
    double h = sym_realh("h", 0.1, 10, 1);
    Fine mesh(nx, ny, h);
    Fine r(mesh.coor(), mesh.conn());
    sameMesh(mesh, r);
}
void h_reject()
{
    size_t nx = sym_size("nelx", 0, 2), ny = sym_size("nely", 0, 2);
    if (nx && ny) { Fine ok(nx, ny); return; }
    SYM_THROWS(Fine(nx, ny), "empty meshes are rejected");
}
}
