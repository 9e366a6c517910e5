//@ bound: overlapping: up to 3 x 3 points in 2 dimensions; manual stitching of meshes of up to 3 nodes and 2 two-node elements with up to 2 overlapping pairs; stitching of two or three meshes of 2 nodes and one two-node element each with any of the coincidences; a chain of 5 (thorough: 6) meshes of 2 to 4 nodes; two meshes of 3 nodes in 1 and 3 dimensions; three (thorough: four) boxes of 2 to 8 hexahedra next to each other in any direction; user-set tolerances with two meshes of which one node differs by any distance; stacking of up to three (thorough: four) quadrilaterals; stacking, and stitching side by side, of three (thorough: four) grids of 2 (4) by 1 to 3 elements
//@ assume: two nodes either coincide exactly or are at least 0.01 apart in some direction (quick tier, more than four points, and stitching: in columns at least 0.2 apart); nodes of one mesh do not coincide; for Vstack the bottom nodes are at y = 0; with user-set tolerances the distance is not within 1e-6 of the tolerance, nor between the larger and the sum of the absolute and the relative tolerance
#include "arr.h"
using namespace GooseFEM::Mesh;
static bool same2(const D2& a, size_t i, const D2& b, size_t j)
{
    return (a(i, 0) == b(j, 0)) & (a(i, 1) == b(j, 1));
}
static bool far(const D2& a, size_t i, const D2& b, size_t j)
{
    double dx = a(i, 0) - b(j, 0), dy = a(i, 1) - b(j, 1);
    return (dx > 0.01) | (dx < -0.01) | (dy > 0.01) | (dy < -0.01);
}
// positions with a given pattern of coincidences: p(k) = index of the distinct point
static D2 points(const D2& pts, const std::vector<size_t>& p)
{
    D2 r = xt::zeros<double>({p.size(), size_t(2)});
    for (size_t k = 0; k < p.size(); ++k)
        for (size_t i = 0; i < 2; ++i) r(k, i) = pts(p[k], i);
    return r;
}
static D2 distinct(size_t n)
{
    D2 x = symD2(n, 2, "x");
    for (size_t a = 0; a < n; ++a)
        for (size_t b = 0; b < a; ++b) sym_assume(far(x, a, x, b));
    return x;
}
// (positions for the longer histories: separated columns, two rows)
static D2 spaced(size_t n)
{
    D2 x = symD2(n, 2, "x");
    for (size_t a = 0; a < n; ++a) {
        x(a, 0) = (a % 2 ? -0.4 : 0.4) * (double)(a + 1) + 0.1 * x(a, 0);
        x(a, 1) = a > 1 ? x(a - 2, 1) : 0.5 * (double)a + 0.1 * x(a, 1);
    }
    return x;
}
// grids of different sizes on top of each other, or next to each other
static void grids(bool stack)
{
    size_t nm = THOROUGH ? 4 : 3, n = THOROUGH ? 4 : 2;
    std::vector<size_t> len(nm);
    for (auto& v : len) v = sym_size("rows", 1, 3);
    double h = sym_real("h", 0.5, 2);
    Vstack v;
    Stitch t;
    Stitch& s = stack ? v : t;
    std::vector<Quad4::Regular> m;
    size_t start = 0;
    std::vector<I1> nsets, esets;
    for (size_t i = 0; i < nm; ++i) {
        m.push_back(stack ? Quad4::Regular(n, len[i], h) : Quad4::Regular(len[i], n, h));
        D2 x = m[i].coor();
        if (stack) v.push_back(x, m[i].conn(), m[i].nodesBottomEdge(), m[i].nodesTopEdge());
        else {
            for (size_t k = 0; k < x.shape(0); ++k) x(k, 0) += h * (double)start;
            t.push_back(x, m[i].conn());
        }
        start += len[i];
        esets.push_back(I1{m[i].nelem() - 1, 0});
        nsets.push_back(I1{m[i].nnode() - 1, m[i].nnode() - 2});
    }
    sym_equ(s.nmesh(), nm, "nmesh");
    sym_equ(s.nelem(), start * n, "every element is kept");
    sym_equ(s.nnode(), (start + 1) * (n + 1), "interfaces are merged");
    D2 x = s.coor();
    I2 c = s.conn();
    sameShape(x, std::vector<size_t>{s.nnode(), 2}, "shape of coor");
    sameShape(c, std::vector<size_t>{s.nelem(), 4}, "shape of conn");
    size_t off = 0;
    start = 0;
    std::vector<I1> nd, el;
    for (size_t i = 0; i < nm; ++i) {
        I1 a = s.nodemap(i), e = s.elemmap(i);
        D2 xi = m[i].coor();
        I2 ci = m[i].conn();
        sym_equ(a.size(), xi.shape(0), "nodemap");
        sym_equ(e.size(), ci.shape(0), "elemmap");
        for (size_t k = 0; k < a.size(); ++k) {
            sym_assert(a(k) < s.nnode(), "nodemap: nodes exist");
            sym_eq(x(a(k), 0), xi(k, 0) + (stack ? 0. : h * (double)start), "positions are preserved");
            sym_eq(x(a(k), 1), xi(k, 1) + (stack ? h * (double)start : 0.), "positions are preserved");
        }
        for (size_t k = 0; k < e.size(); ++k) {
            sym_equ(e(k), off + k, "elements follow each other mesh by mesh");
            for (size_t j = 0; j < 4; ++j) sym_equ(c(off + k, j), a(ci(k, j)), "elements keep their nodes");
        }
        sameU(s.elemset(esets[i], i), I1{off + ci.shape(0) - 1, off}, "element set");
        sameU(s.nodeset(nsets[i], i), I1{a(a.size() - 1), a(a.size() - 2)}, "node set");
        off += ci.shape(0);
        start += len[i];
        nd.push_back(a);
        el.push_back(e);
    }
    I1 es = s.elemset(esets);
    sym_equ(es.size(), 2 * nm, "combined element set");
    for (size_t i = 0; i < nm; ++i)
        for (size_t k = 0; k < 2; ++k) sym_equ(es(2 * i + k), el[i](esets[i](k)), "combined element set");
    auto nm2 = s.nodemap();
    auto em2 = s.elemmap();
    for (size_t i = 0; i < nm; ++i) {
        sameU(nm2[i], nd[i], "nodemap");
        sameU(em2[i], el[i], "elemmap");
    }
}
extern "C" {
void h_vstack_grids() { grids(true); }
void h_stitch_grids() { grids(false); }
void h_overlapping()
{
    size_t na = sym_size("na", 1, 3), nb = sym_size("nb", 1, THOROUGH ? 3 : 2);
    // which of the distinct points each node is (a node of b: one of those of a, or its own)
    std::vector<size_t> pa, pb;
    size_t used = 0;
    for (size_t k = 0; k < na; ++k) {
        pa.push_back(sym_size("point", 0, used));
        used += pa[k] == used;
    }
    for (size_t k = 0; k < nb; ++k) {
        pb.push_back(sym_size("point", 0, used));
        used += pb[k] == used;
    }
    D2 x = THOROUGH || na < 3 ? distinct(used) : spaced(used), a = points(x, pa), b = points(x, pb);
    I2 r = overlapping(a, b);
    std::vector<size_t> ea, eb;
    for (size_t i = 0; i < na; ++i)
        for (size_t j = 0; j < nb; ++j)
            if (pa[i] == pb[j]) {
                ea.push_back(i);
                eb.push_back(j);
            }
    sameShape(r, std::vector<size_t>{2, ea.size()}, "exactly the coinciding pairs");
    for (size_t k = 0; k < ea.size(); ++k) {
        sym_equ(r(0, k), ea[k], "exactly the coinciding pairs");
        sym_equ(r(1, k), eb[k], "exactly the coinciding pairs");
    }
}
void h_tolerance()
{
    // a user-set tolerance: one coordinate differs
    D2 a = symD2(1, 2, "a"), b = a;
    double d = sym_real("d", -0.5, 0.5), tol = sym_real("atol", 0, 0.5);
    size_t i = sym_size("component", 0, 1);
    b(0, i) += d;
    sym_assume(d < tol - 1e-6 || d > tol + 1e-6);
    sym_assume(-d < tol - 1e-6 || -d > tol + 1e-6);
    I2 r = overlapping(a, b, 0.0, tol);
    bool in = (d <= tol) & (-d <= tol);
    sym_assert((r.shape(1) == 1) == in, "nodes overlap if they are closer than the tolerance");
}
void h_tolerance_stitch()
{
    // two meshes of which one node is almost at the same position: user-set tolerances
    double tol = sym_real("atol", 0, 0.05), rtol = sym_size("relative", 0, 1) ? sym_real("rtol", 0, 0.05) : 0;
    double d = sym_real("d", -0.1, 0.1), p = sym_real("position", 0.1, 2), q = p + d;
    double r = rtol * (d < 0 ? q : p), lo = r < tol ? tol : r, hi = tol + rtol * (d < 0 ? p : q), m = d < 0 ? -d : d;
    sym_assume(q > 0.05);
    sym_assume((m < lo - 1e-6) | (m > hi + 1e-6));
    bool in = m < lo;
    size_t i = sym_size("component", 0, 1), kind = sym_size("class", 0, 2);
    if (kind < 2) {
        D2 a = xt::zeros<double>({size_t(2), size_t(2)}), b = xt::zeros<double>({size_t(2), size_t(2)});
        a(0, i) = -3;
        a(1, i) = p;
        b(0, i) = q;
        b(1, i) = 6;
        I2 c = I2{{0, 1}};
        size_t n = 0;
        if (kind == 0) {
            Stitch s(rtol, tol);
            s.push_back(a, c);
            s.push_back(b, c);
            n = s.nnode();
            sym_assert((n == 3) == in, "Stitch: nodes are merged if they are closer than the tolerance");
            sym_assert((s.nodemap(1)(0) == 1) == in, "Stitch: the node of the first mesh is kept");
            sym_equ(s.nodemap(1)(1), n - 1, "Stitch: other nodes are appended");
            sym_eq(s.coor()(1, i), p, "Stitch: the node of the first mesh stays");
            if (n == 4) sym_eq(s.coor()(2, i), q, "Stitch: the node is added");
        }
        else {
            bool ok = true;
            try {
                ManualStitch s(a, c, I1{1}, b, c, I1{0}, true, rtol, tol);
                n = s.nnode();
                sym_eq(s.coor()(1, i), p, "ManualStitch: the node of the first mesh stays");
            }
            catch (const std::exception&) { ok = false; }
            sym_assert(ok == in, "ManualStitch: nodes further apart than the tolerance are rejected, others accepted");
            if (ok) sym_equ(n, 3, "ManualStitch: nodes are merged");
        }
        return;
    }
    // stacking: the left bottom node of the second layer is displaced horizontally
    D2 a = D2{{0, 0}, {6, 0}, {6, 1}, {0, 1}}, b = a;
    I2 c = I2{{0, 1, 2, 3}};
    a(3, 0) = p;
    b(0, 0) = q;
    Vstack s(true, rtol, tol);
    s.push_back(a, c, I1{0, 1}, I1{3, 2});
    bool ok = true;
    try { s.push_back(b, c, I1{0, 1}, I1{3, 2}); }
    catch (const std::exception&) { ok = false; }
    sym_assert(ok == in, "Vstack: interfaces that do not match within the tolerance are rejected, others accepted");
    if (ok) sym_equ(s.nnode(), 6, "Vstack: the interface is merged");
}
void h_dimensions()
{
    // two meshes in 1 or 3 dimensions: the first two nodes differ in one component or not at all
    size_t ndim = sym_size("one dimension", 0, 1) ? 1 : 3, same = sym_size("coincide", 0, 1), comp = sym_size("component", 0, ndim - 1);
    D2 a = xt::zeros<double>({size_t(3), ndim}), b = a;
    double d = sym_real("d", 0.01, 2);
    for (size_t i = 0; i < ndim; ++i) {
        a(0, i) = sym_real("x", -1, 1);
        a(1, i) = -4;
        a(2, i) = 4;
        b(1, i) = a(0, i) + (i == comp && !same ? d : 0.0);
        b(0, i) = -8;
        b(2, i) = 8;
    }
    I2 o = overlapping(a, b), c = I2{{0, 1}, {2, 0}};
    sameShape(o, std::vector<size_t>{2, same}, "exactly the coinciding pairs");
    if (same) {
        sym_equ(o(0, 0), 0, "exactly the coinciding pairs");
        sym_equ(o(1, 0), 1, "exactly the coinciding pairs");
    }
    Stitch s;
    s.push_back(a, c);
    s.push_back(b, c);
    size_t map[3] = {3, same ? 0ul : 4ul, same ? 4ul : 5ul};
    sym_equ(s.ndim(), ndim, "number of dimensions");
    sym_equ(s.nne(), 2, "nodes per element");
    sym_equ(s.nnode(), 6 - same, "overlapping nodes are merged and no others");
    sameU(s.dofs(), dofs(6 - same, ndim), "dofs");
    for (size_t k = 0; k < 3; ++k) {
        sym_equ(s.nodemap(1)(k), map[k], "nodemap");
        for (size_t i = 0; i < ndim; ++i) sym_eq(s.coor()(map[k], i), b(k, i), "positions are preserved");
        for (size_t i = 0; i < ndim; ++i) sym_eq(s.coor()(k, i), a(k, i), "positions are preserved");
    }
    for (size_t e = 0; e < 2; ++e)
        for (size_t m = 0; m < 2; ++m) {
            sym_equ(s.conn()(e, m), c(e, m), "elements of the first mesh");
            sym_equ(s.conn()(2 + e, m), map[c(e, m)], "elements of the second mesh");
        }
    // a pair given by hand, at the same position or not
    I1 pa = I1{0}, pb = I1{1};
    bool ok = true;
    try { ManualStitch m(a, c, pa, b, c, pb); }
    catch (const std::exception&) { ok = false; }
    sym_assert(ok == (same == 1), "overlapping nodes at different positions are rejected");
    I1 n = s.nodeset({I1{2, 0}, I1{1, 2}}), e = s.elemset({I1{1}, I1{0, 1}});
    std::vector<size_t> r = same ? std::vector<size_t>{0, 2, 4} : std::vector<size_t>{0, 2, 4, 5};
    sym_equ(n.size(), r.size(), "combined node set");
    for (size_t k = 0; k < r.size(); ++k) sym_equ(n(k), r[k], "combined node set");
    sameU(e, I1{1, 2, 3}, "combined element set");
}
void h_boxes()
{
    // boxes of hexahedra next to each other in any direction
    size_t dir = sym_size("direction", 0, 2), at = 0, nm = THOROUGH ? 4 : 3;
    double h = sym_real("h", 0.5, 2);
    Stitch s;
    std::vector<Hex8::Regular> m;
    std::vector<size_t> start;
    for (size_t k = 0; k < nm; ++k) {
        size_t n = sym_size("layers", 1, 2), l[3] = {2, 2, 1};
        l[dir] = n;
        m.push_back(Hex8::Regular(l[0], l[1], l[2], h));
        D2 x = m[k].coor();
        for (size_t j = 0; j < x.shape(0); ++j) x(j, dir) += h * (double)at;
        s.push_back(x, m[k].conn());
        start.push_back(at);
        at += n;
    }
    size_t area = dir == 2 ? 4 : 2, nodes = dir == 2 ? 9 : 6;
    sym_equ(s.nelem(), area * at, "every element is kept");
    sym_equ(s.nnode(), nodes * (at + 1), "interfaces are merged");
    D2 x = s.coor();
    I2 c = s.conn();
    sameShape(c, std::vector<size_t>{area * at, 8}, "shape of conn");
    size_t off = 0;
    for (size_t k = 0; k < nm; ++k) {
        D2 y = m[k].coor();
        I2 d = m[k].conn();
        I1 map = s.nodemap(k), el = s.elemmap(k);
        for (size_t j = 0; j < y.shape(0); ++j)
            for (size_t i = 0; i < 3; ++i) sym_eq(x(map(j), i), y(j, i) + (i == dir ? h * (double)start[k] : 0.), "positions are preserved");
        for (size_t e = 0; e < d.shape(0); ++e) {
            sym_equ(el(e), off + e, "elements follow each other mesh by mesh");
            for (size_t j = 0; j < 8; ++j) sym_equ(c(off + e, j), map(d(e, j)), "elements keep their nodes");
        }
        off += d.shape(0);
    }
}
void h_manual()
{
    size_t na = sym_size("na", 2, 3), nb = sym_size("nb", 2, 3), ela = sym_size("ela", 1, 2), elb = 3 - ela, n = sym_size("pairs", 1, 2);
    // overlapping pairs: distinct nodes
    I1 oa = symDistinct(n, na, "overlap a"), ob = symDistinct(n, nb, "overlap b");
    concretizeAll(oa);
    concretizeAll(ob);
    I2 ca = xt::zeros<size_t>({ela, size_t(2)}), cb = xt::zeros<size_t>({elb, size_t(2)});
    for (size_t e = 0; e < ela; ++e) { ca(e, 0) = e; ca(e, 1) = na - 1 - e; }
    for (size_t e = 0; e < elb; ++e) { cb(e, 0) = nb - 1 - e; cb(e, 1) = e; }
    bool check = sym_size("check position", 0, 1), matching = sym_size("matching", 0, 1);
    D2 a = symD2(na, 2, "a"), b = symD2(nb, 2, "b");
    if (matching)
        for (size_t k = 0; k < n; ++k)
            for (size_t i = 0; i < 2; ++i) b(ob(k), i) = a(oa(k), i);
    else {
        sym_assume(far(a, oa(n - 1), b, ob(n - 1)));
        if (check) {
            SYM_THROWS(ManualStitch(a, ca, oa, b, cb, ob), "overlapping nodes at different positions are rejected");
            return;
        }
    }
    ManualStitch s = check ? ManualStitch(a, ca, oa, b, cb, ob) : ManualStitch(a, ca, oa, b, cb, ob, false);
    std::vector<size_t> map(nb);
    size_t next = na;
    for (size_t k = 0; k < nb; ++k) {
        map[k] = nb + na;
        for (size_t j = 0; j < n; ++j)
            if (ob(j) == k) map[k] = oa(j);
        if (map[k] == nb + na) map[k] = next++;
    }
    sym_equ(s.nmesh(), 2, "nmesh");
    sym_equ(s.nelem(), 3, "nelem");
    sym_equ(s.nnode(), next, "nnode: overlapping nodes are merged");
    sym_equ(s.nne(), 2, "nne");
    sym_equ(s.ndim(), 2, "ndim");
    sameShape(s.coor(), std::vector<size_t>{next, 2}, "shape of coor");
    sameShape(s.conn(), std::vector<size_t>{3, 2}, "shape of conn");
    sameU(s.dofs(), dofs(next, 2), "dofs");
    for (size_t k = 0; k < na; ++k)
        for (size_t i = 0; i < 2; ++i) sym_eq(s.coor()(k, i), a(k, i), "nodes of the first mesh stay");
    for (size_t k = 0; k < nb; ++k)
        if (map[k] >= na)
            for (size_t i = 0; i < 2; ++i) sym_eq(s.coor()(map[k], i), b(k, i), "other nodes of the second mesh are appended in order");
    for (size_t m = 0; m < 2; ++m) {
        for (size_t e = 0; e < ela; ++e) sym_equ(s.conn()(e, m), ca(e, m), "elements of the first mesh");
        for (size_t e = 0; e < elb; ++e) sym_equ(s.conn()(ela + e, m), map[cb(e, m)], "elements of the second mesh");
    }
    auto nm = s.nodemap();
    auto em = s.elemmap();
    sym_equ(nm.size(), 2, "nodemaps");
    sym_equ(em.size(), 2, "elemmaps");
    sameU(nm[0], s.nodemap(0), "nodemap");
    sameU(nm[1], s.nodemap(1), "nodemap");
    sameU(em[0], s.elemmap(0), "elemmap");
    sameU(em[1], s.elemmap(1), "elemmap");
    sym_equ(nm[0].size(), na, "nodemap");
    sym_equ(nm[1].size(), nb, "nodemap");
    sym_equ(em[0].size(), ela, "elemmap");
    sym_equ(em[1].size(), elb, "elemmap");
    I1 pick = I1{nb - 1, 0}, picka = I1{na - 1, 0}, el = I1{elb - 1}, ela1 = I1{ela - 1};
    for (size_t k = 0; k < na; ++k) sym_equ(nm[0](k), k, "nodemap of the first mesh");
    for (size_t k = 0; k < nb; ++k) sym_equ(nm[1](k), map[k], "nodemap of the second mesh");
    for (size_t e = 0; e < ela; ++e) sym_equ(em[0](e), e, "elemmap of the first mesh");
    for (size_t e = 0; e < elb; ++e) sym_equ(em[1](e), ela + e, "elemmap of the second mesh");
    I1 ns = s.nodeset(pick, 1), ns0 = s.nodeset(picka, 0), es = s.elemset(el, 1), es0 = s.elemset(ela1, 0);
    sym_equ(ns(0), map[nb - 1], "node set of the second mesh");
    sym_equ(ns(1), map[0], "node set of the second mesh");
    sameU(ns0, picka, "node set of the first mesh");
    sym_equ(es(0), ela + elb - 1, "element set of the second mesh");
    sameU(es0, ela1, "element set of the first mesh");
}
void h_stitch()
{
    size_t nm = sym_size("meshes", 2, 3);
    // which distinct point each node of each mesh is
    std::vector<std::vector<size_t>> p(nm);
    std::vector<std::vector<bool>> flip(nm);
    size_t used = 0;
    for (size_t i = 0; i < nm; ++i) {
        size_t n = i == 1 ? 3 : 2;
        for (size_t k = 0; k < n; ++k) {
            size_t q = sym_size("point", 0, used);
            for (auto o : p[i]) sym_assume(o != q);
            p[i].push_back(q);
            used += q == used;
        }
    }
    D2 x = THOROUGH && nm == 2 ? distinct(used) : spaced(used);
    Stitch s;
    std::vector<I2> conns(nm);
    size_t nelem = 0;
    for (size_t i = 0; i < nm; ++i) {
        size_t n = p[i].size();
        I2 c = xt::zeros<size_t>({n - 1, size_t(2)});
        for (size_t e = 0; e + 1 < n; ++e) { c(e, 0) = e + 1; c(e, 1) = e; }
        conns[i] = c;
        nelem += n - 1;
        s.push_back(points(x, p[i]), c);
    }
    sym_equ(s.nmesh(), nm, "nmesh");
    sym_equ(s.nelem(), nelem, "every element is kept");
    sym_equ(s.nnode(), used, "coinciding nodes are merged, and no others");
    sym_equ(s.nne(), 2, "nne");
    sym_equ(s.ndim(), 2, "ndim");
    sameU(s.dofs(), dofs(used, 2), "dofs");
    auto nmap = s.nodemap();
    auto emap = s.elemmap();
    sym_equ(nmap.size(), nm, "nodemaps");
    sym_equ(emap.size(), nm, "elemmaps");
    size_t off = 0;
    std::vector<I1> nsets(nm), esets(nm);
    std::vector<bool> inset(used, false);
    std::vector<size_t> eall;
    for (size_t i = 0; i < nm; ++i) {
        size_t n = p[i].size();
        sameU(nmap[i], s.nodemap(i), "nodemap");
        sameU(emap[i], s.elemmap(i), "elemmap");
        sym_equ(nmap[i].size(), n, "nodemap");
        sym_equ(emap[i].size(), n - 1, "elemmap");
        for (size_t k = 0; k < n; ++k)
            for (size_t d = 0; d < 2; ++d) sym_eq(s.coor()(nmap[i](k), d), x(p[i][k], d), "positions are preserved");
        for (size_t e = 0; e + 1 < n; ++e) {
            sym_equ(emap[i](e), off + e, "elements follow each other mesh by mesh");
            for (size_t m = 0; m < 2; ++m) sym_equ(s.conn()(off + e, m), nmap[i](conns[i](e, m)), "elements keep their nodes");
        }
        nsets[i] = I1{n - 1, 0};
        esets[i] = I1{n - 2};
        sameU(s.nodeset(nsets[i], i), I1{nmap[i](n - 1), nmap[i](0)}, "node set");
        sameU(s.elemset(esets[i], i), I1{off + n - 2}, "element set");
        inset[nmap[i](n - 1)] = inset[nmap[i](0)] = true;
        eall.push_back(off + n - 2);
        off += n - 1;
    }
    I1 ns = s.nodeset(nsets), es = s.elemset(esets);
    size_t c = 0;
    for (size_t k = 0; k < used; ++k)
        if (inset[k]) {
            sym_assert(c < ns.size(), "combined node set: every node once");
            sym_equ(ns(c), k, "combined node set: every node once, sorted");
            ++c;
        }
    sym_equ(ns.size(), c, "combined node set: every node once");
    sym_equ(es.size(), nm, "combined element set");
    for (size_t i = 0; i < nm; ++i) sym_equ(es(i), eall[i], "combined element set");
}
// a longer history: every mesh of a chain shares its first node with the last node of another one
void h_stitch_chain()
{
    size_t nm = THOROUGH ? 6 : 5;
    Stitch s;
    std::vector<std::vector<size_t>> map(nm);
    std::vector<size_t> off(nm);
    std::vector<D2> pos(nm);
    size_t nnode = 0, nelem = 0, back = sym_size("attached to", 1, 2);
    D1 row = symD1(4, "row");
    for (size_t k = 0; k < 4; ++k) row(k) = (double)k + 0.1 * row(k);
    for (size_t i = 0; i < nm; ++i) {
        size_t n = 2 + (i * 2 + 1) % 3;  // 3, 2, 4, 3, ... nodes
        D2 x = symD2(n, 2, "x");
        for (size_t k = 0; k < n; ++k) {
            x(k, 0) = 4.0 * (double)i + (double)k + 0.1 * x(k, 0);
            x(k, 1) = row(k);
            if (k == 0 && i >= back)
                for (size_t d = 0; d < 2; ++d) x(k, d) = pos[i - back](pos[i - back].shape(0) - 1, d);
            map[i].push_back(k == 0 && i >= back ? map[i - back].back() : nnode++);
        }
        I2 c = xt::zeros<size_t>({n - 1, size_t(2)});
        for (size_t e = 0; e + 1 < n; ++e) { c(e, 0) = e + 1; c(e, 1) = e; }
        s.push_back(x, c);
        pos[i] = x;
        off[i] = nelem;
        nelem += n - 1;
    }
    sym_equ(s.nmesh(), nm, "nmesh");
    sym_equ(s.nelem(), nelem, "every element is kept");
    sym_equ(s.nnode(), nnode, "coinciding nodes are merged, and no others");
    std::vector<I1> nsets(nm), esets(nm);
    for (size_t i = 0; i < nm; ++i) {
        size_t n = map[i].size();
        I1 nd = s.nodemap(i), el = s.elemmap(i);
        sym_equ(nd.size(), n, "nodemap");
        sym_equ(el.size(), n - 1, "elemmap");
        for (size_t k = 0; k < n; ++k) {
            sym_equ(nd(k), map[i][k], "nodemap");
            for (size_t d = 0; d < 2; ++d) sym_eq(s.coor()(nd(k), d), pos[i](k, d), "positions are preserved");
        }
        for (size_t e = 0; e + 1 < n; ++e) {
            sym_equ(el(e), off[i] + e, "elements follow each other mesh by mesh");
            for (size_t m = 0; m < 2; ++m) sym_equ(s.conn()(off[i] + e, m), map[i][m ? e : e + 1], "elements keep their nodes");
        }
        nsets[i] = I1{n - 1};
        esets[i] = I1{n - 2};
    }
    I1 es = s.elemset(esets), ns = s.nodeset(nsets);
    sym_equ(ns.size(), nm, "combined node set");
    sym_equ(es.size(), nm, "combined element set");
    for (size_t i = 0; i < nm; ++i) {
        sym_equ(ns(i), map[i].back(), "combined node set");
        sym_equ(es(i), off[i] + map[i].size() - 2, "combined element set");
    }
}
void h_vstack()
{
    size_t nm = sym_size("meshes", 1, THOROUGH ? 4 : 3);
    bool check = sym_size("check", 0, 1), wrong = nm > 1 && check && sym_size("mismatch", 0, 1);
    std::vector<bool> rev(nm);
    for (size_t i = 0; i < nm; ++i) rev[i] = sym_size("reversed numbering", 0, 1);
    double w0 = sym_real("left", -1, 1), w1 = sym_real("right", -1, 1), y = 0;
    sym_assume(w1 > w0 + 0.1);
    Vstack s(check);
    std::vector<D2> pos(nm);
    std::vector<I1> bot(nm), top(nm);
    I2 conn = xt::zeros<size_t>({size_t(1), size_t(4)});
    for (size_t i = 0; i < nm; ++i) {
        double h = sym_real("height", 0.1, 1);
        D2 x = xt::zeros<double>({size_t(4), size_t(2)});
        size_t k[4] = {0, 1, 2, 3};
        if (rev[i])
            for (auto& v : k) v = 3 - v;
        // corners: bottom left, bottom right, top right, top left
        x(k[0], 0) = w0;
        x(k[1], 0) = wrong && i + 1 == nm ? w1 + 0.05 : w1;
        x(k[2], 0) = w1;
        x(k[3], 0) = w0;
        x(k[2], 1) = h;
        x(k[3], 1) = h;
        for (size_t m = 0; m < 4; ++m) conn(0, m) = k[m];
        bot[i] = I1{k[0], k[1]};
        top[i] = I1{k[3], k[2]};
        pos[i] = x;
        for (size_t m = 0; m < 4; ++m) pos[i](m, 1) += y;
        if (wrong && i + 1 == nm) {
            SYM_THROWS(s.push_back(x, conn, bot[i], top[i]), "non-matching interface is rejected");
            return;
        }
        s.push_back(x, conn, bot[i], top[i]);
        y += h;
    }
    sym_equ(s.nmesh(), nm, "nmesh");
    sym_equ(s.nelem(), nm, "nelem");
    sym_equ(s.nnode(), 2 * (nm + 1), "interfaces are merged");
    for (size_t i = 0; i < nm; ++i) {
        I1 map = s.nodemap(i), em = s.elemmap(i);
        sym_equ(map.size(), 4, "nodemap");
        sym_equ(em.size(), 1, "elemmap");
        sym_equ(em(0), i, "elemmap");
        for (size_t m = 0; m < 4; ++m) {
            size_t n = s.conn()(i, m);
            for (size_t d = 0; d < 2; ++d) {
                sym_eq(s.coor()(map(m), d), pos[i](m, d), "layers are on top of each other");
                sym_eq(s.coor()(n, d), pos[i](rev[i] ? 3 - m : m, d), "elements keep their corners");
            }
        }
        if (i)
            for (size_t k = 0; k < 2; ++k) sym_equ(s.nodemap(i)(bot[i](k)), s.nodemap(i - 1)(top[i - 1](k)), "the bottom nodes are the top nodes of the layer below");
    }
}
}
