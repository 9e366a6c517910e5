//@ bound: refinement: coarse meshes of 1 to 3 by 1 to 3 elements, 1 to 4 (thorough: 6) by 1 to 4 (6) fine elements per coarse element, and 5 to 12 of either of these by 1 to 2 of the others, symbolic edge size; fields: 1 to 2 by 1 to 2 coarse elements, 1 to 3 by 1 to 2 fine elements each, symbolic values of rank 1, 2, and 3
//@ bound: fine layer: 1 to 9 by 1 to 12, and 6, 9, 18 by 27 or 31 elements; 6 or 9 by 18, 25, or 32 elements with nfine 2, 4, ..., 16 (thorough: 2 to 17); fields: 1 to 3 by 1 to 9 elements and 6 by 9 elements, symbolic values of rank 1, 2, and 4
//@ assume: averageToCoarse: weights in [0.1, 10]
#include "mesh.h"
using namespace GooseFEM::Mesh;
typedef Quad4::Map::RefineRegular Refine;
typedef Quad4::Map::FineLayer2Regular ToRegular;
// area of the part of polygon p (convex, counter-clockwise) that is in the unit cell at (x, y)
static double overlap(const std::vector<std::array<double, 2>>& poly, double x, double y)
{
    std::vector<std::array<double, 2>> p = poly, q;
    for (int s = 0; s < 4; ++s) {
        size_t i = s / 2;
        double lim = (i ? y : x) + (s % 2);
        auto in = [&](const std::array<double, 2>& a) { return s % 2 ? lim - a[i] : a[i] - lim; };
        q.clear();
        for (size_t k = 0; k < p.size(); ++k) {
            auto &a = p[k], &b = p[(k + 1) % p.size()];
            double da = in(a), db = in(b);
            if (da >= 0) q.push_back(a);
            if ((da > 0 && db < 0) || (da < 0 && db > 0)) {
                double t = da / (da - db);
                q.push_back({a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])});
            }
        }
        p = q;
        if (p.empty()) return 0;
    }
    double r = 0;
    for (size_t k = 0; k < p.size(); ++k) {
        auto &a = p[k], &b = p[(k + 1) % p.size()];
        r += 0.5 * (a[0] * b[1] - a[1] * b[0]);
    }
    return r;
}
// overlap[e][r] of the elements of the fine-layer mesh with those of the regular mesh
static std::vector<std::vector<double>> overlaps(const Quad4::FineLayer& fine, const Quad4::Regular& reg)
{
    D2 c = fine.coor(), r = reg.coor();
    I2 conn = fine.conn(), rc = reg.conn();
    std::vector<std::vector<double>> ret(conn.shape(0), std::vector<double>(rc.shape(0), 0));
    for (size_t e = 0; e < conn.shape(0); ++e) {
        std::vector<std::array<double, 2>> p;
        double lo[2] = {1e9, 1e9}, hi[2] = {-1, -1};
        for (size_t m = 0; m < 4; ++m) {
            p.push_back({c(conn(e, m), 0), c(conn(e, m), 1)});
            for (int i = 0; i < 2; ++i) {
                if (p[m][i] < lo[i]) lo[i] = p[m][i];
                if (p[m][i] > hi[i]) hi[i] = p[m][i];
            }
        }
        for (size_t k = 0; k < rc.shape(0); ++k) {
            double x = r(rc(k, 0), 0), y = r(rc(k, 0), 1);
            if (x >= hi[0] || y >= hi[1] || x + 1 <= lo[0] || y + 1 <= lo[1]) continue;
            ret[e][k] = overlap(p, x, y);
        }
    }
    return ret;
}
static void sizes(size_t& nx, size_t& ny, bool& big)
{
    big = sym_size("two transition layers", 0, 1);
    size_t k = big ? sym_size("nelx", 0, 2) : 0;
    nx = big ? (k == 0 ? 9 : k == 1 ? 6 : 18) : sym_size("nelx", 1, 9);
    ny = big ? 27 + 4 * sym_size("(nely-27)/4", 0, 1) : sym_size("nely", 1, 12);
}
static void refine(size_t cx, size_t cy, size_t nx, size_t ny)
{
    double h = sym_real("h", 0.1, 10);
    Quad4::Regular coarse(cx, cy, h);
    Refine map(coarse, nx, ny);
    sym_equ(map.nx(), nx, "nx");
    sym_equ(map.ny(), ny, "ny");
    Quad4::Regular c = map.coarseMesh(), f = map.fineMesh(), unit(cx, cy), fu(cx * nx, cy * ny);
    sym_equ(c.nelx(), cx, "coarse mesh");
    sym_equ(c.nely(), cy, "coarse mesh");
    sym_eq(c.h(), h, "coarse mesh");
    sym_equ(f.nelx(), cx * nx, "fine mesh");
    sym_equ(f.nely(), cy * ny, "fine mesh");
    sym_equ(map.getCoarseMesh().nelem(), c.nelem(), "coarse mesh");
    sym_equ(map.getFineMesh().nelem(), f.nelem(), "fine mesh");
    const I2& m = map.map();
    sameU(map.getMap(), m, "map");
    sameShape(m, std::vector<size_t>{cx * cy, nx * ny}, "map");
    D2 xc = unit.coor(), xf = fu.coor();
    I2 ec = unit.conn(), ef = fu.conn();
    std::vector<size_t> n(cx * cy * nx * ny, 0);
    for (size_t e = 0; e < cx * cy; ++e)
        for (size_t k = 0; k < nx * ny; ++k) {
            sym_assert(m(e, k) < n.size(), "map: elements of the fine mesh");
            n[m(e, k)]++;
            // in units of the fine elements
            double x0 = xc(ec(e, 0), 0) * nx, y0 = xc(ec(e, 0), 1) * ny;
            for (size_t a = 0; a < 4; ++a) {
                double x = xf(ef(m(e, k), a), 0), y = xf(ef(m(e, k), a), 1);
                sym_assert(x >= x0 && x <= x0 + nx && y >= y0 && y <= y0 + ny, "map: the fine elements are inside their coarse element");
            }
        }
    for (size_t k : n) sym_equ(k, 1, "map: every fine element belongs to one coarse element");
}
extern "C" {
void h_refine()
{
    size_t cx = sym_size("nelx", 1, 3), cy = sym_size("nely", 1, 3), nx = sym_size("nx", 1, THOROUGH ? 6 : 4);
    refine(cx, cy, nx, sym_size("ny", 1, THOROUGH ? 6 : 4));
}
void h_refine_large()
{
    size_t a = sym_size("long", 5, 12), b = sym_size("short", 1, 2), c = sym_size("other", 1, 2), d = sym_size("which", 0, 3);
    refine(d == 0 ? a : b, d == 1 ? a : c, d == 2 ? a : b, d == 3 ? a : c);
}
void h_refine_domain()
{
    size_t cx = sym_size("nelx", 1, 2), nx = sym_size("nx = ny", 1, 3);
    double h = sym_real("h", 0.1, 10);
    Refine map(Quad4::Regular(cx, 1, h), nx, nx);
    sym_eq(map.fineMesh().h() * nx, h, "the fine elements subdivide the coarse elements");
}
void h_refine_fields()
{
    size_t cx = sym_size("nelx", 1, 2), cy = sym_size("nely", 1, 2), nx = sym_size("nx", 1, 3), ny = sym_size("ny", 1, 2), C = cx * cy, F = C * nx * ny;
    Refine map(Quad4::Regular(cx, cy), nx, ny);
    const I2& m = map.map();
    auto data = [&](auto shape, const char* name, double lo, double hi) {
        auto r = xt::xtensor<double, std::tuple_size<decltype(shape)>::value>::from_shape(shape);
        for (size_t k = 0; k < r.size(); ++k) r.flat(k) = sym_real(name, lo, hi);
        return r;
    };
    auto run = [&](auto shape, size_t S) {
        shape[0] = C;
        auto c = data(shape, "coarse", -10, 10);
        shape[0] = F;
        auto f = data(shape, "fine", -10, 10), w = data(shape, "weight", 0.1, 10);
        auto up = map.mapToFine(c), mean = map.meanToCoarse(f), ave = map.averageToCoarse(f, w);
        sameShape(up, std::vector<size_t>(f.shape().begin(), f.shape().end()), "mapToFine");
        sameShape(mean, std::vector<size_t>(c.shape().begin(), c.shape().end()), "meanToCoarse");
        sameShape(ave, std::vector<size_t>(c.shape().begin(), c.shape().end()), "averageToCoarse");
        for (size_t e = 0; e < C; ++e)
            for (size_t s = 0; s < S; ++s) {
                double sf = 0, sw = 0, sfw = 0;
                for (size_t k = 0; k < nx * ny; ++k) {
                    size_t i = m(e, k) * S + s;
                    sym_eq(up.flat(i), c.flat(e * S + s), "mapToFine copies the values");
                    sf += f.flat(i);
                    sw += w.flat(i);
                    sfw += f.flat(i) * w.flat(i);
                }
                sym_eq(mean.flat(e * S + s) * (nx * ny), sf, "meanToCoarse: mean of the fine elements");
                sym_eq(ave.flat(e * S + s) * sw, sfw, "averageToCoarse: weighted average of the fine elements");
            }
    };
    size_t rank = sym_size("rank", 1, 3);
    if (rank == 1) run(std::array<size_t, 1>{0}, 1);
    else if (rank == 2) run(std::array<size_t, 2>{0, 2}, 2);
    else run(std::array<size_t, 3>{0, 2, 2}, 4);
}
static void finelayer(size_t nx, size_t ny, size_t nfine)
{
    double h = sym_real("h", 0.1, 10);
    Quad4::FineLayer fine(nx, ny, h, nfine), unit(nx, ny, 1, nfine);
    ToRegular map(fine);
    Quad4::Regular reg = map.regularMesh(), ureg(nx, unit.nely());
    sym_equ(reg.nelx(), nx, "regular mesh: same size");
    sym_equ(reg.nely(), fine.nely(), "regular mesh: same size");
    sym_eq(reg.h(), h, "regular mesh: same size");
    sym_equ(map.getRegularMesh().nelem(), reg.nelem(), "regular mesh: same size");
    sym_equ(map.fineLayerMesh().nelem(), fine.nelem(), "fine-layer mesh");
    sym_equ(map.getFineLayerMesh().nelem(), fine.nelem(), "fine-layer mesh");
    auto o = overlaps(unit, ureg);
    auto el = map.map();
    auto frac = map.mapFraction();
    sym_assert(map.getMapFraction() == frac, "mapFraction");
    sym_equ(el.size(), fine.nelem(), "map: all elements");
    sym_equ(frac.size(), fine.nelem(), "mapFraction: all elements");
    for (size_t e = 0; e < el.size(); ++e) {
        sym_equ(el[e].size(), frac[e].size(), "map and mapFraction correspond");
        std::vector<double> f(reg.nelem(), 0);
        std::vector<size_t> n(reg.nelem(), 0);
        for (size_t k = 0; k < el[e].size(); ++k) {
            sym_assert(el[e][k] < reg.nelem(), "map: elements of the regular mesh");
            n[el[e][k]]++;
            f[el[e][k]] += frac[e][k];
        }
        for (size_t r = 0; r < reg.nelem(); ++r) {
            sym_equ(n[r], o[e][r] > 0, "map: the elements that overlap, each once");
            sym_eq(f[r], o[e][r], "mapFraction: the area of the overlap");
        }
    }
}
void h_finelayer()
{
    size_t nx, ny;
    bool big;
    sizes(nx, ny, big);
    finelayer(nx, ny, 1);
}
// (thick fine layers: also transition layers directly after each other)
void h_finelayer_nfine()
{
    finelayer(sym_size("nelx/9", 0, 1) ? 9 : 6, 18 + 7 * sym_size("(nely-18)/7", 0, 2), sym_size("nfine/2", 1, 8) * 2 + (THOROUGH ? sym_size("odd", 0, 1) : 0));
}
void h_finelayer_fields()
{
    size_t nx = sym_size("nelx", 1, 4), ny = sym_size("nely", 1, 9), rank = sym_size("rank", 1, 3);
    if (nx == 4) nx = 6;
    if (nx == 6) sym_assume(ny == 9 && rank == 1);
    if (rank == 3) sym_assume(ny % 2 == 1);
    Quad4::FineLayer fine(nx, ny);
    ToRegular map(fine);
    auto o = overlaps(fine, map.regularMesh());
    size_t N = fine.nelem(), R = map.regularMesh().nelem();
    auto run = [&](auto shape, size_t S) {
        shape[0] = N;
        auto d = xt::xtensor<double, std::tuple_size<decltype(shape)>::value>::from_shape(shape);
        for (size_t k = 0; k < d.size(); ++k) d.flat(k) = sym_real("data", -10, 10);
        auto r = map.mapToRegular(d);
        shape[0] = R;
        sameShape(r, std::vector<size_t>(shape.begin(), shape.end()), "mapToRegular");
        for (size_t s = 0; s < S; ++s) {
            double sum = 0, want = 0;
            for (size_t k = 0; k < R; ++k) {
                double x = 0;
                for (size_t e = 0; e < N; ++e)
                    if (o[e][k] != 0) x += o[e][k] * d.flat(e * S + s);
                sym_eq(r.flat(k * S + s), x, "mapToRegular: average, weighted by the overlap");
                sum += r.flat(k * S + s);
            }
            for (size_t e = 0; e < N; ++e) {
                double a = 0;
                for (size_t k = 0; k < R; ++k) a += o[e][k];
                want += a * d.flat(e * S + s);
            }
            sym_eq(sum, want, "mapToRegular conserves the integral");
        }
    };
    if (rank == 1) run(std::array<size_t, 1>{0}, 1);
    else if (rank == 2) run(std::array<size_t, 2>{0, 2}, 2);
    else run(std::array<size_t, 4>{0, 2, 1, 2}, 4);
}
}
