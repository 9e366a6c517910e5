//@ bound: meshes of 1 to 6 and 9 by 1 to 12 elements, 6, 9, 18 (thorough: 12, 27) by 27 or (9, 18; thorough: all) 31 elements; 9 by 25 and 22 (thorough: 18 by 32) elements with nfine 12 and 7 (14); all rows and columns; all elements of the mesh as anchor, box sizes 0 to 4 and up to beyond the height and the width of the mesh; roll by 0 to 4 (of the coarsest elements), and by 1000; roll also of 18 by 31, 27 by 31, 27 by 89, 54 by 107 elements, by 0 to 7
//@ assume: selections: first row (column) not larger than the last one
//@ outside: periodic = false (rejected, not implemented); anchors outside the middle layer (idem)
#include "mesh.h"
using namespace GooseFEM::Mesh;
typedef Quad4::FineLayer Fine;
struct Geo {
    size_t nx, H, E, hmax;
    std::vector<size_t> x0, x1, y0, y1, hx;  // extent of the element; width of the block it belongs to
    std::vector<double> cx, cy;
};
static Geo geo(const Fine& mesh)
{
    D2 c = mesh.coor();
    I2 conn = mesh.conn();
    Geo g;
    g.nx = mesh.nelx();
    g.H = mesh.nely();
    g.E = conn.shape(0);
    g.hmax = 1;
    I1 nhx = mesh.elemrow_nhx();
    for (size_t r = 0; r < nhx.size(); ++r) {
        I1 el = mesh.elementsLayer(r);
        if (nhx(r) > g.hmax) g.hmax = nhx(r);
        for (size_t k = 0; k < el.size(); ++k) g.hx.push_back(nhx(r));
    }
    for (size_t e = 0; e < g.E; ++e) {
        double lo[2], hi[2], m[2] = {0, 0};
        for (size_t i = 0; i < 2; ++i) {
            lo[i] = hi[i] = c(conn(e, 0), i);
            for (size_t n = 0; n < 4; ++n) {
                double x = c(conn(e, n), i);
                m[i] += 0.25 * x;
                if (x < lo[i]) lo[i] = x;
                if (x > hi[i]) hi[i] = x;
            }
        }
        g.x0.push_back(lo[0]), g.x1.push_back(hi[0]), g.y0.push_back(lo[1]), g.y1.push_back(hi[1]);
        g.cx.push_back(m[0]), g.cy.push_back(m[1]);
    }
    return g;
}
// rows of the layer of every element
static void layers(const Fine& mesh, std::vector<size_t>& lo, std::vector<size_t>& hi)
{
    I1 nhy = mesh.elemrow_nhy();
    size_t y = 0;
    for (size_t r = 0; r < nhy.size(); ++r) {
        I1 el = mesh.elementsLayer(r);
        for (size_t k = 0; k < el.size(); ++k) lo.push_back(y), hi.push_back(y + nhy(r));
        y += nhy(r);
    }
}
static std::vector<size_t> count(const I1& s, size_t E)
{
    std::vector<size_t> n(E, 0);
    for (size_t k = 0; k < s.size(); ++k) {
        sym_assert(s(k) < E, "selected elements exist");
        n[s(k)]++;
    }
    return n;
}
static void mesh_size(size_t& nx, size_t& ny, size_t& nfine, bool big)
{
    nfine = 1;
    if (big) {
        size_t k = sym_size("nelx", 0, THOROUGH ? 7 : 4);
        if (k > (THOROUGH ? 4 : 2)) {
            // thick fine layers, and transition layers directly after each other
            static const size_t N[3][3] = {{9, 25, 12}, {9, 22, 7}, {18, 32, 14}};
            const size_t* n = N[k - (THOROUGH ? 5 : 3)];
            nx = n[0], ny = n[1], nfine = n[2];
            return;
        }
        nx = k == 0 ? 6 : k == 1 ? 9 : k == 2 ? 18 : k == 3 ? 12 : 27;
        ny = nx == 18 ? 31 : 27 + 4 * sym_size("(nely-27)/4", 0, nx == 9 || THOROUGH);
        return;
    }
    size_t k = sym_size("nelx", 1, THOROUGH ? 9 : 7);
    nx = k == 7 ? 9 : k == 8 ? 12 : k == 9 ? 18 : k;
    ny = sym_size("nely", 1, 12);
}
static void ravel(bool big)
{
    size_t nx, ny, nfine;
    mesh_size(nx, ny, nfine, big);
    Fine mesh(nx, ny, 1, nfine);
    Geo g = geo(mesh);
    std::vector<size_t> l0, l1;
    layers(mesh, l0, l1);
    size_t r0 = sym_u64("row0", 0, 100);
    sym_assume(r0 <= g.H);
    r0 = sym_concretize(r0);
    for (size_t r1 = r0; r1 <= g.H; ++r1) {
        size_t dx = 1;
        for (size_t e = 0; e < g.E; ++e)
            if (l0[e] < r1 && l1[e] > r0 && g.hx[e] > dx) dx = g.hx[e];
        for (size_t c0 = 0; c0 <= g.nx; ++c0)
            for (size_t c1 = c0; c1 <= g.nx; ++c1) {
                if (big && (c0 + 2 * c1) % 4 > 1 && (c0 % dx || c1 % dx)) continue;
                std::vector<size_t> n = count(mesh.elementgrid_ravel({r0, r1}, {c0, c1}), g.E);
                bool aligned = c0 % dx == 0 && c1 % dx == 0;
                size_t a0 = c0 - c0 % dx, a1 = c1 - c1 % dx;
                for (size_t e = 0; e < g.E; ++e) {
                    bool row = r0 < r1 && l0[e] < r1 && l1[e] > r0;
                    bool in = row && g.x0[e] >= c0 && g.x1[e] <= a1 && c0 < c1;
                    if (aligned) sym_equ(n[e], in, "exactly the elements in the columns, of the layers that overlap the rows");
                    else {
                        if (in) sym_equ(n[e], 1, "elements that are entirely in the columns are selected, once");
                        sym_assert(!n[e] || (row && g.x0[e] >= a0 && g.x1[e] <= c1), "only elements that overlap the rows and columns, rounded to the coarsest elements, are selected");
                    }
                }
            }
    }
    if (r0 == 0) {
        std::vector<size_t> n = count(mesh.elementgrid_ravel({}, {}), g.E);
        for (size_t e = 0; e < g.E; ++e) sym_equ(n[e], 1, "by default all elements are selected");
        SYM_THROWS(mesh.elementgrid_ravel({0, g.H + 1}, {}), "rows outside the mesh are rejected");
        SYM_THROWS(mesh.elementgrid_ravel({}, {0, g.nx + 1}), "columns outside the mesh are rejected");
        SYM_THROWS(mesh.elementgrid_ravel({0}, {}), "rows: start and stop");
        SYM_THROWS(mesh.elementgrid_ravel({}, {0, 0, 0}), "columns: start and stop");
    }
}
// selected elements: those overlapping the (periodic) box, and no others than in the smallest box of the coarsest elements
static void box(const Geo& g, const std::vector<size_t>& l0, const std::vector<size_t>& l1, const I1& sel, size_t x, size_t left, size_t right, size_t y0, size_t y1)
{
    std::vector<size_t> n = count(sel, g.E);
    size_t dx = 1;
    for (size_t e = 0; e < g.E; ++e)
        if (l0[e] < y1 && l1[e] > y0 && g.hx[e] > dx) dx = g.hx[e];
    // columns (blocks of dx) that overlap [x - left, x + right]
    size_t nb = g.nx / dx;
    std::vector<bool> blk(nb, false);
    for (size_t k = 0; k <= left + right && k <= 2 * g.nx; ++k) blk[(x + 1000 * g.nx - left + k) % g.nx / dx] = true;
    for (size_t e = 0; e < g.E; ++e) sym_equ(n[e], l0[e] < y1 && l1[e] > y0 && blk[g.x0[e] / dx], "exactly the elements of the periodic box, rounded outwards to the coarsest elements");
}
static void around(bool big)
{
    size_t nx, ny, nfine;
    mesh_size(nx, ny, nfine, big);
    Fine mesh(nx, ny, 1, nfine);
    Geo g = geo(mesh);
    std::vector<size_t> l0, l1;
    layers(mesh, l0, l1);
    size_t e = sym_u64("element", 0, 1000);
    sym_assume(e < g.E);
    e = sym_concretize(e);
    size_t mid = (g.H - 1) / 2;
    size_t max = g.H > g.nx ? g.H : g.nx;
    for (size_t size = 0; size <= max + 1; ++size) {
        if (g.y0[e] != mid || g.y1[e] != mid + 1) {
            SYM_THROWS(mesh.elementgrid_around_ravel(e, size), "elements outside the middle layer are rejected");
            continue;
        }
        if (size > 4 && 2 * size + 2 < g.H && 2 * size + 2 < g.nx && size % 3) continue;
        I1 sel = mesh.elementgrid_around_ravel(e, size);
        box(g, l0, l1, sel, g.x0[e], size, size, mid > size ? mid - size : 0, mid + size + 1);
    }
}
static void roll(size_t nx, size_t ny, size_t n, size_t nfine = 1)
{
    Fine mesh(nx, ny, 1, nfine);
    Geo g = geo(mesh);
    I1 map = mesh.roll(n);
    sym_equ(map.size(), g.E, "roll: all elements");
    double shift = n * g.hmax % g.nx;
    for (size_t e = 0; e < g.E; ++e) {
        sym_assert(map(e) < g.E, "roll: elements exist");
        double x = g.cx[e] - shift;
        if (x < 0) x += g.nx;
        sym_assert(g.cx[map(e)] == x && g.cy[map(e)] == g.cy[e] && g.y0[map(e)] == g.y0[e] && g.y1[map(e)] == g.y1[e], "roll: the element that is n of the coarsest elements to the left, periodically");
    }
}
extern "C" {
void h_ravel() { ravel(false); }
void h_ravel_big() { ravel(true); }
void h_around() { around(false); }
void h_around_big() { around(true); }
void h_leftright()
{
    size_t nx, ny, nfine;
    mesh_size(nx, ny, nfine, false);
    Fine mesh(nx, ny, 1, nfine);
    Geo g = geo(mesh);
    std::vector<size_t> l0, l1;
    layers(mesh, l0, l1);
    size_t e = sym_u64("element", 0, 1000);
    sym_assume(e < g.E);
    e = sym_concretize(e);
    size_t mid = (g.H - 1) / 2;
    for (size_t left = 0; left <= nx + 1; ++left)
        for (size_t right = 0; right <= nx + 1; ++right) {
            if (g.y0[e] != mid || g.y1[e] != mid + 1) {
                SYM_THROWS(mesh.elementgrid_leftright(e, left, right), "elements outside the middle layer are rejected");
                continue;
            }
            box(g, l0, l1, mesh.elementgrid_leftright(e, left, right), g.x0[e], left, right, mid, mid + 1);
        }
}
void h_roll()
{
    size_t nx, ny, nfine;
    mesh_size(nx, ny, nfine, sym_size("two transition layers", 0, 1));
    size_t n = sym_size("roll", 0, 5);
    if (n == 5) n = 1000;
    roll(nx, ny, n, nfine);
}
// two and three levels of transition, with more than one of the coarsest elements
void h_roll_big()
{
    static const size_t S[4][2] = {{18, 31}, {27, 31}, {27, 89}, {54, 107}};
    size_t k = sym_size("nelx, nely", 0, 3);
    roll(S[k][0], S[k][1], sym_size("roll", 0, 7));
}
void h_nonperiodic()
{
    size_t nx = sym_size("nelx", 1, 6), ny = sym_size("nely", 1, 9);
    Fine mesh(nx, ny);
    size_t e = mesh.elementsMiddleLayer()(0);
    SYM_THROWS(mesh.elementgrid_around_ravel(e, 0, false), "not implemented: rejected");
    SYM_THROWS(mesh.elementgrid_leftright(e, 0, 0, false), "not implemented: rejected");
}
}
