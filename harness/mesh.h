// Structured meshes: what a valid mesh of a box is, and which nodes a named set has to contain.
// Topology and sets are checked on the mesh with unit edge (integer positions); the mesh with a symbolic edge size h
// has to have the same connectivity and sets, and its positions have to be h times those of the unit mesh.
#pragma once
#include "arr.h"
#include <algorithm>
#include <array>
struct Box { size_t d; double L[3]; };
inline bool contains(const char* s, const char* w)
{
    for (; *s; ++s) {
        size_t k = 0;
        while (w[k] && s[k] == w[k]) ++k;
        if (!w[k]) return true;
    }
    return false;
}
// value that the axis has to have for this name: -1 if any, else 0/1 (low/high)
inline int side(const char* name, size_t axis)
{
    static const char* lo[3] = {"Left", "Bottom", "Front"};
    static const char* hi[3] = {"Right", "Top", "Back"};
    return contains(name, lo[axis]) ? 0 : contains(name, hi[axis]) ? 1 : -1;
}
inline bool inSet(const Box& b, const D2& c, size_t n, const char* name)
{
    bool open = contains(name, "Open") || contains(name, "Face");
    for (size_t i = 0; i < b.d; ++i) {
        int s = side(name, i);
        if (s == 0 && c(n, i) != 0) return false;
        if (s == 1 && c(n, i) != b.L[i]) return false;
        if (s == -1 && open && (c(n, i) == 0 || c(n, i) == b.L[i])) return false;
    }
    return true;
}
// a set of nodes contains exactly the nodes with the positions of its name, each once
inline void checkSet(const Box& b, const D2& c, const I1& set, const char* name)
{
    std::vector<size_t> cnt(c.shape(0), 0);
    for (size_t k = 0; k < set.size(); ++k) {
        sym_assert(set(k) < c.shape(0), name);
        cnt[set(k)]++;
    }
    for (size_t n = 0; n < c.shape(0); ++n) sym_equ(cnt[n], inSet(b, c, n, name), name);
}
inline void checkSet(const Box& b, const D2& c, size_t node, const char* name)
{
    I1 s = xt::zeros<size_t>({size_t(1)});
    s(0) = node;
    checkSet(b, c, s, name);
}
// the k-th nodes of opposite sets differ only in the given direction
inline void checkOpposite(const Box& b, const D2& c, const I1& lo, const I1& hi, size_t axis, const char* name)
{
    sym_equ(lo.size(), hi.size(), name);
    for (size_t k = 0; k < lo.size(); ++k)
        for (size_t i = 0; i < b.d; ++i) sym_assert(i == axis ? c(hi(k), i) == c(lo(k), i) + b.L[i] : c(hi(k), i) == c(lo(k), i), name);
}
inline double wrap(const Box& b, double x, size_t i) { return x == b.L[i] ? 0 : x; }
inline bool samePeriodic(const Box& b, const D2& c, size_t n, size_t m)
{
    for (size_t i = 0; i < b.d; ++i)
        if (wrap(b, c(n, i), i) != wrap(b, c(m, i), i)) return false;
    return true;
}
template <class M> void checkPeriodic(const M& mesh, const Box& b, const D2& c)
{
    size_t N = c.shape(0), d = b.d;
    sym_equ(mesh.nodesOrigin(), [&] { size_t r = N; for (size_t n = 0; n < N; ++n) { bool o = true; for (size_t i = 0; i < d; ++i) o = o && c(n, i) == 0; if (o) r = n; } return r; }(), "nodesOrigin");
    I2 per = mesh.nodesPeriodic();
    sym_equ(per.shape(1), 2, "nodesPeriodic: pairs");
    std::vector<size_t> dep(N, 0);
    for (size_t k = 0; k < per.shape(0); ++k) {
        sym_assert(per(k, 0) < N && per(k, 1) < N, "nodesPeriodic: nodes");
        dep[per(k, 1)]++;
        sym_assert(samePeriodic(b, c, per(k, 0), per(k, 1)), "nodesPeriodic: the nodes of a pair are at the same position, apart from the period");
        for (size_t i = 0; i < d; ++i) sym_assert(c(per(k, 0), i) != b.L[i], "nodesPeriodic: independent nodes are not on the right, top or back");
    }
    for (size_t n = 0; n < N; ++n) {
        bool high = false;
        for (size_t i = 0; i < d; ++i) high = high || c(n, i) == b.L[i];
        sym_equ(dep[n], high, "nodesPeriodic: every node on the right, top or back once");
    }
    I2 dofs = mesh.dofs(), pd = mesh.dofsPeriodic();
    sameShape(dofs, std::vector<size_t>{N, d}, "dofs");
    sameShape(pd, std::vector<size_t>{N, d}, "dofsPeriodic");
    std::vector<bool> seen(N * d, false);
    size_t cnt = 0;
    for (size_t n = 0; n < N; ++n) {
        size_t rep = 0;
        while (!samePeriodic(b, c, rep, n)) ++rep;
        for (size_t i = 0; i < d; ++i) {
            sym_equ(dofs(n, i), n * d + i, "dofs: one DOF per node and direction");
            sym_equ(pd(n, i), pd(rep, i), "dofsPeriodic: periodic nodes share their DOFs");
            if (rep == n) {
                sym_assert(pd(n, i) < N * d && !seen[pd(n, i)], "dofsPeriodic: other nodes have their own DOFs");
                seen[pd(n, i)] = true;
                ++cnt;
            }
        }
    }
    for (size_t k = 0; k < cnt; ++k) sym_assert(seen[k], "dofsPeriodic: no gaps");
}
// positions of the mesh with edge size h: those of the unit mesh times h
inline void checkScale(const D2& ch, const D2& c, double h)
{
    sameShape(ch, std::vector<size_t>{c.shape(0), c.shape(1)}, "coor");
    for (size_t n = 0; n < c.shape(0); ++n)
        for (size_t i = 0; i < c.shape(1); ++i) sym_eq(ch(n, i), h * c(n, i), "positions scale with h");
}
inline double area2(const D2& c, size_t o, size_t a, size_t b) { return (c(a, 0) - c(o, 0)) * (c(b, 1) - c(o, 1)) - (c(a, 1) - c(o, 1)) * (c(b, 0) - c(o, 0)); }
inline void checkNodes(const Box& b, const D2& c, const I2& conn)
{
    size_t N = c.shape(0);
    std::vector<bool> used(N, false);
    for (size_t e = 0; e < conn.shape(0); ++e)
        for (size_t m = 0; m < conn.shape(1); ++m) {
            sym_assert(conn(e, m) < N, "conn: nodes exist");
            used[conn(e, m)] = true;
        }
    for (size_t n = 0; n < N; ++n) {
        sym_assert(used[n], "every node belongs to an element");
        for (size_t i = 0; i < b.d; ++i) sym_assert(c(n, i) >= 0 && c(n, i) <= b.L[i], "nodes are in the domain");
    }
    std::vector<size_t> order(N);
    for (size_t n = 0; n < N; ++n) order[n] = n;
    auto cmp = [&](size_t n, size_t m) {
        for (size_t i = 0; i + 1 < b.d; ++i)
            if (c(n, i) != c(m, i)) return c(n, i) < c(m, i);
        return c(n, b.d - 1) < c(m, b.d - 1);
    };
    std::sort(order.begin(), order.end(), cmp);
    for (size_t k = 1; k < N; ++k) sym_assert(cmp(order[k - 1], order[k]), "no two nodes at the same position");
}
// conforming tiling of the box by counter-clockwise convex polygons
inline void checkTiling2d(const Box& b, const D2& c, const I2& conn)
{
    size_t N = c.shape(0), nne = conn.shape(1);
    checkNodes(b, c, conn);
    std::vector<uint8_t> edge(N * N, 0);
    double area = 0;
    for (size_t e = 0; e < conn.shape(0); ++e)
        for (size_t m = 0; m < nne; ++m) {
            size_t o = conn(e, m), a = conn(e, (m + 1) % nne), z = conn(e, (m + nne - 1) % nne);
            sym_assert(area2(c, o, a, z) > 0, "elements are convex and right-handed");
            area += c(o, 0) * c(a, 1) - c(o, 1) * c(a, 0);
            sym_assert(!edge[o * N + a], "elements do not overlap");
            edge[o * N + a] = 1;
        }
    sym_assert(area == 2 * b.L[0] * b.L[1], "elements fill the domain");
    for (size_t p = 0; p < N; ++p)
        for (size_t q = 0; q < N; ++q)
            if (edge[p * N + q] && !edge[q * N + p]) {
                bool on = false;
                for (size_t i = 0; i < 2; ++i) on = on || (c(p, i) == c(q, i) && (c(p, i) == 0 || c(p, i) == b.L[i]));
                sym_assert(on, "the mesh is conforming: edges are shared, or on the boundary");
            }
}
#define SET(name) checkSet(b, c, mesh.name(), #name)
template <class M> void checkSets2d(const M& mesh, const Box& b, const D2& c)
{
    SET(nodesBottomEdge); SET(nodesTopEdge); SET(nodesLeftEdge); SET(nodesRightEdge);
    SET(nodesBottomOpenEdge); SET(nodesTopOpenEdge); SET(nodesLeftOpenEdge); SET(nodesRightOpenEdge);
    SET(nodesBottomLeftCorner); SET(nodesBottomRightCorner); SET(nodesTopLeftCorner); SET(nodesTopRightCorner);
    SET(nodesLeftBottomCorner); SET(nodesLeftTopCorner); SET(nodesRightBottomCorner); SET(nodesRightTopCorner);
    checkOpposite(b, c, mesh.nodesBottomEdge(), mesh.nodesTopEdge(), 1, "bottom and top edge correspond");
    checkOpposite(b, c, mesh.nodesLeftEdge(), mesh.nodesRightEdge(), 0, "left and right edge correspond");
    checkOpposite(b, c, mesh.nodesBottomOpenEdge(), mesh.nodesTopOpenEdge(), 1, "bottom and top open edge correspond");
    checkOpposite(b, c, mesh.nodesLeftOpenEdge(), mesh.nodesRightOpenEdge(), 0, "left and right open edge correspond");
}

// conforming tiling of the box by hexahedra with positive Jacobian determinant
inline double det3(const double a[3], const double b[3], const double c[3])
{
    return a[0] * (b[1] * c[2] - b[2] * c[1]) - a[1] * (b[0] * c[2] - b[2] * c[0]) + a[2] * (b[0] * c[1] - b[1] * c[0]);
}
inline void checkTiling3d(const Box& b, const D2& c, const I2& conn)
{
    checkNodes(b, c, conn);
    static const int S[8][3] = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}};
    static const size_t F[6][4] = {{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}};
    std::vector<std::array<size_t, 4>> faces;
    double vol = 0;
    for (size_t e = 0; e < conn.shape(0); ++e) {
        // Jacobian determinant in the points {0, 1/2, 1}^3: positive, and integrated by Simpson's rule (exact)
        for (int p = 0; p < 27; ++p) {
            int q[3] = {p % 3, p / 3 % 3, p / 9};
            double J[3][3] = {};
            for (size_t m = 0; m < 8; ++m)
                for (int i = 0; i < 3; ++i) {
                    double w = S[m][i] ? 1 : -1;
                    for (int j = 0; j < 3; ++j)
                        if (j != i) w *= S[m][j] ? 0.5 * q[j] : 1 - 0.5 * q[j];
                    for (int k = 0; k < 3; ++k) J[i][k] += w * c(conn(e, m), k);
                }
            double det = det3(J[0], J[1], J[2]), w = 1;
            for (int j = 0; j < 3; ++j) w *= q[j] == 1 ? 4 : 1;
            sym_assert(det > 0, "elements are right-handed");
            vol += w * det;
        }
        for (auto& f : F) {
            // start with the smallest node
            size_t r = 0;
            for (size_t k = 1; k < 4; ++k)
                if (conn(e, f[k]) < conn(e, f[r])) r = k;
            faces.push_back({conn(e, f[r]), conn(e, f[(r + 1) % 4]), conn(e, f[(r + 2) % 4]), conn(e, f[(r + 3) % 4])});
        }
    }
    sym_assert(vol == 216 * b.L[0] * b.L[1] * b.L[2], "elements fill the domain");
    std::vector<std::vector<size_t>> byNode(c.shape(0));
    for (size_t f = 0; f < faces.size(); ++f) byNode[faces[f][0]].push_back(f);
    for (size_t f = 0; f < faces.size(); ++f) {
        auto& a = faces[f];
        size_t same = 0, back = 0;
        for (size_t g : byNode[a[0]]) {
            auto& o = faces[g];
            same += o == a;
            back += o[1] == a[3] && o[2] == a[2] && o[3] == a[1];
        }
        sym_equ(same, 1, "elements do not overlap");
        bool on = false;
        for (size_t i = 0; i < 3; ++i) {
            bool all = true;
            for (size_t k = 1; k < 4; ++k) all = all && c(a[k], i) == c(a[0], i);
            on = on || (all && (c(a[0], i) == 0 || c(a[0], i) == b.L[i]));
        }
        sym_equ(back, !on, "the mesh is conforming: faces are shared, or on the boundary");
    }
}
template <class M> void checkSets3d(const M& mesh, const Box& b, const D2& c)
{
        SET(nodesBottom); SET(nodesTop); SET(nodesLeft); SET(nodesRight); SET(nodesFront); SET(nodesBack); SET(nodesFrontBottomEdge);
    SET(nodesFrontTopEdge); SET(nodesFrontLeftEdge); SET(nodesFrontRightEdge); SET(nodesBackBottomEdge); SET(nodesBackTopEdge);
    SET(nodesBackLeftEdge); SET(nodesBackRightEdge); SET(nodesBottomLeftEdge); SET(nodesBottomRightEdge); SET(nodesTopLeftEdge);
    SET(nodesTopRightEdge); SET(nodesBottomFrontEdge); SET(nodesBottomBackEdge); SET(nodesTopFrontEdge); SET(nodesTopBackEdge);
    SET(nodesLeftBottomEdge); SET(nodesLeftFrontEdge); SET(nodesLeftBackEdge); SET(nodesLeftTopEdge); SET(nodesRightBottomEdge);
    SET(nodesRightTopEdge); SET(nodesRightFrontEdge); SET(nodesRightBackEdge); SET(nodesFrontFace); SET(nodesBackFace); SET(nodesLeftFace);
    SET(nodesRightFace); SET(nodesBottomFace); SET(nodesTopFace); SET(nodesFrontBottomOpenEdge); SET(nodesFrontTopOpenEdge);
    SET(nodesFrontLeftOpenEdge); SET(nodesFrontRightOpenEdge); SET(nodesBackBottomOpenEdge); SET(nodesBackTopOpenEdge); SET(nodesBackLeftOpenEdge);
    SET(nodesBackRightOpenEdge); SET(nodesBottomLeftOpenEdge); SET(nodesBottomRightOpenEdge); SET(nodesTopLeftOpenEdge); SET(nodesTopRightOpenEdge);
    SET(nodesBottomFrontOpenEdge); SET(nodesBottomBackOpenEdge); SET(nodesTopFrontOpenEdge); SET(nodesTopBackOpenEdge); SET(nodesLeftBottomOpenEdge);
    SET(nodesLeftFrontOpenEdge); SET(nodesLeftBackOpenEdge); SET(nodesLeftTopOpenEdge); SET(nodesRightBottomOpenEdge); SET(nodesRightTopOpenEdge);
    SET(nodesRightFrontOpenEdge); SET(nodesRightBackOpenEdge); SET(nodesFrontBottomLeftCorner); SET(nodesFrontBottomRightCorner);
    SET(nodesFrontTopLeftCorner); SET(nodesFrontTopRightCorner); SET(nodesBackBottomLeftCorner); SET(nodesBackBottomRightCorner);
    SET(nodesBackTopLeftCorner); SET(nodesBackTopRightCorner); SET(nodesFrontLeftBottomCorner); SET(nodesBottomFrontLeftCorner);
    SET(nodesBottomLeftFrontCorner); SET(nodesLeftFrontBottomCorner); SET(nodesLeftBottomFrontCorner); SET(nodesFrontRightBottomCorner);
    SET(nodesBottomFrontRightCorner); SET(nodesBottomRightFrontCorner); SET(nodesRightFrontBottomCorner); SET(nodesRightBottomFrontCorner);
    SET(nodesFrontLeftTopCorner); SET(nodesTopFrontLeftCorner); SET(nodesTopLeftFrontCorner); SET(nodesLeftFrontTopCorner);
    SET(nodesBackLeftBottomCorner); SET(nodesBackLeftTopCorner); SET(nodesBackRightBottomCorner); SET(nodesBackRightTopCorner);
    SET(nodesBottomBackLeftCorner); SET(nodesBottomBackRightCorner); SET(nodesBottomLeftBackCorner); SET(nodesBottomRightBackCorner);
    SET(nodesFrontRightTopCorner); SET(nodesLeftBackBottomCorner); SET(nodesLeftBackTopCorner); SET(nodesLeftBottomBackCorner);
    SET(nodesLeftTopBackCorner); SET(nodesLeftTopFrontCorner); SET(nodesRightBackBottomCorner); SET(nodesRightBackTopCorner);
    SET(nodesRightBottomBackCorner); SET(nodesRightFrontTopCorner); SET(nodesRightTopBackCorner); SET(nodesRightTopFrontCorner);
    SET(nodesTopBackLeftCorner); SET(nodesTopBackRightCorner); SET(nodesTopFrontRightCorner); SET(nodesTopLeftBackCorner);
    SET(nodesTopRightBackCorner); SET(nodesTopRightFrontCorner);
    checkOpposite(b, c, mesh.nodesBottom(), mesh.nodesTop(), 1, "nodesBottom and nodesTop correspond");
    checkOpposite(b, c, mesh.nodesLeft(), mesh.nodesRight(), 0, "nodesLeft and nodesRight correspond");
    checkOpposite(b, c, mesh.nodesFront(), mesh.nodesBack(), 2, "nodesFront and nodesBack correspond");
    checkOpposite(b, c, mesh.nodesFrontBottomEdge(), mesh.nodesFrontTopEdge(), 1, "nodesFrontBottomEdge and nodesFrontTopEdge correspond");
    checkOpposite(b, c, mesh.nodesFrontBottomEdge(), mesh.nodesBackBottomEdge(), 2, "nodesFrontBottomEdge and nodesBackBottomEdge correspond");
    checkOpposite(b, c, mesh.nodesFrontTopEdge(), mesh.nodesBackTopEdge(), 2, "nodesFrontTopEdge and nodesBackTopEdge correspond");
    checkOpposite(b, c, mesh.nodesFrontLeftEdge(), mesh.nodesFrontRightEdge(), 0, "nodesFrontLeftEdge and nodesFrontRightEdge correspond");
    checkOpposite(b, c, mesh.nodesFrontLeftEdge(), mesh.nodesBackLeftEdge(), 2, "nodesFrontLeftEdge and nodesBackLeftEdge correspond");
    checkOpposite(b, c, mesh.nodesFrontRightEdge(), mesh.nodesBackRightEdge(), 2, "nodesFrontRightEdge and nodesBackRightEdge correspond");
    checkOpposite(b, c, mesh.nodesBackBottomEdge(), mesh.nodesBackTopEdge(), 1, "nodesBackBottomEdge and nodesBackTopEdge correspond");
    checkOpposite(b, c, mesh.nodesBackLeftEdge(), mesh.nodesBackRightEdge(), 0, "nodesBackLeftEdge and nodesBackRightEdge correspond");
    checkOpposite(b, c, mesh.nodesBottomLeftEdge(), mesh.nodesBottomRightEdge(), 0, "nodesBottomLeftEdge and nodesBottomRightEdge correspond");
    checkOpposite(b, c, mesh.nodesBottomLeftEdge(), mesh.nodesTopLeftEdge(), 1, "nodesBottomLeftEdge and nodesTopLeftEdge correspond");
    checkOpposite(b, c, mesh.nodesBottomRightEdge(), mesh.nodesTopRightEdge(), 1, "nodesBottomRightEdge and nodesTopRightEdge correspond");
    checkOpposite(b, c, mesh.nodesTopLeftEdge(), mesh.nodesTopRightEdge(), 0, "nodesTopLeftEdge and nodesTopRightEdge correspond");
    checkOpposite(b, c, mesh.nodesBottomFrontEdge(), mesh.nodesTopFrontEdge(), 1, "nodesBottomFrontEdge and nodesTopFrontEdge correspond");
    checkOpposite(b, c, mesh.nodesBottomFrontEdge(), mesh.nodesBottomBackEdge(), 2, "nodesBottomFrontEdge and nodesBottomBackEdge correspond");
    checkOpposite(b, c, mesh.nodesBottomBackEdge(), mesh.nodesTopBackEdge(), 1, "nodesBottomBackEdge and nodesTopBackEdge correspond");
    checkOpposite(b, c, mesh.nodesTopFrontEdge(), mesh.nodesTopBackEdge(), 2, "nodesTopFrontEdge and nodesTopBackEdge correspond");
    checkOpposite(b, c, mesh.nodesLeftBottomEdge(), mesh.nodesRightBottomEdge(), 0, "nodesLeftBottomEdge and nodesRightBottomEdge correspond");
    checkOpposite(b, c, mesh.nodesLeftBottomEdge(), mesh.nodesLeftTopEdge(), 1, "nodesLeftBottomEdge and nodesLeftTopEdge correspond");
    checkOpposite(b, c, mesh.nodesLeftFrontEdge(), mesh.nodesRightFrontEdge(), 0, "nodesLeftFrontEdge and nodesRightFrontEdge correspond");
    checkOpposite(b, c, mesh.nodesLeftFrontEdge(), mesh.nodesLeftBackEdge(), 2, "nodesLeftFrontEdge and nodesLeftBackEdge correspond");
    checkOpposite(b, c, mesh.nodesLeftBackEdge(), mesh.nodesRightBackEdge(), 0, "nodesLeftBackEdge and nodesRightBackEdge correspond");
    checkOpposite(b, c, mesh.nodesLeftTopEdge(), mesh.nodesRightTopEdge(), 0, "nodesLeftTopEdge and nodesRightTopEdge correspond");
    checkOpposite(b, c, mesh.nodesRightBottomEdge(), mesh.nodesRightTopEdge(), 1, "nodesRightBottomEdge and nodesRightTopEdge correspond");
    checkOpposite(b, c, mesh.nodesRightFrontEdge(), mesh.nodesRightBackEdge(), 2, "nodesRightFrontEdge and nodesRightBackEdge correspond");
    checkOpposite(b, c, mesh.nodesFrontFace(), mesh.nodesBackFace(), 2, "nodesFrontFace and nodesBackFace correspond");
    checkOpposite(b, c, mesh.nodesLeftFace(), mesh.nodesRightFace(), 0, "nodesLeftFace and nodesRightFace correspond");
    checkOpposite(b, c, mesh.nodesBottomFace(), mesh.nodesTopFace(), 1, "nodesBottomFace and nodesTopFace correspond");
    checkOpposite(b, c, mesh.nodesFrontBottomOpenEdge(), mesh.nodesFrontTopOpenEdge(), 1, "nodesFrontBottomOpenEdge and nodesFrontTopOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesFrontBottomOpenEdge(), mesh.nodesBackBottomOpenEdge(), 2, "nodesFrontBottomOpenEdge and nodesBackBottomOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesFrontTopOpenEdge(), mesh.nodesBackTopOpenEdge(), 2, "nodesFrontTopOpenEdge and nodesBackTopOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesFrontLeftOpenEdge(), mesh.nodesFrontRightOpenEdge(), 0, "nodesFrontLeftOpenEdge and nodesFrontRightOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesFrontLeftOpenEdge(), mesh.nodesBackLeftOpenEdge(), 2, "nodesFrontLeftOpenEdge and nodesBackLeftOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesFrontRightOpenEdge(), mesh.nodesBackRightOpenEdge(), 2, "nodesFrontRightOpenEdge and nodesBackRightOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesBackBottomOpenEdge(), mesh.nodesBackTopOpenEdge(), 1, "nodesBackBottomOpenEdge and nodesBackTopOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesBackLeftOpenEdge(), mesh.nodesBackRightOpenEdge(), 0, "nodesBackLeftOpenEdge and nodesBackRightOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesBottomLeftOpenEdge(), mesh.nodesBottomRightOpenEdge(), 0, "nodesBottomLeftOpenEdge and nodesBottomRightOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesBottomLeftOpenEdge(), mesh.nodesTopLeftOpenEdge(), 1, "nodesBottomLeftOpenEdge and nodesTopLeftOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesBottomRightOpenEdge(), mesh.nodesTopRightOpenEdge(), 1, "nodesBottomRightOpenEdge and nodesTopRightOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesTopLeftOpenEdge(), mesh.nodesTopRightOpenEdge(), 0, "nodesTopLeftOpenEdge and nodesTopRightOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesBottomFrontOpenEdge(), mesh.nodesTopFrontOpenEdge(), 1, "nodesBottomFrontOpenEdge and nodesTopFrontOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesBottomFrontOpenEdge(), mesh.nodesBottomBackOpenEdge(), 2, "nodesBottomFrontOpenEdge and nodesBottomBackOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesBottomBackOpenEdge(), mesh.nodesTopBackOpenEdge(), 1, "nodesBottomBackOpenEdge and nodesTopBackOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesTopFrontOpenEdge(), mesh.nodesTopBackOpenEdge(), 2, "nodesTopFrontOpenEdge and nodesTopBackOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesLeftBottomOpenEdge(), mesh.nodesRightBottomOpenEdge(), 0, "nodesLeftBottomOpenEdge and nodesRightBottomOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesLeftBottomOpenEdge(), mesh.nodesLeftTopOpenEdge(), 1, "nodesLeftBottomOpenEdge and nodesLeftTopOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesLeftFrontOpenEdge(), mesh.nodesRightFrontOpenEdge(), 0, "nodesLeftFrontOpenEdge and nodesRightFrontOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesLeftFrontOpenEdge(), mesh.nodesLeftBackOpenEdge(), 2, "nodesLeftFrontOpenEdge and nodesLeftBackOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesLeftBackOpenEdge(), mesh.nodesRightBackOpenEdge(), 0, "nodesLeftBackOpenEdge and nodesRightBackOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesLeftTopOpenEdge(), mesh.nodesRightTopOpenEdge(), 0, "nodesLeftTopOpenEdge and nodesRightTopOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesRightBottomOpenEdge(), mesh.nodesRightTopOpenEdge(), 1, "nodesRightBottomOpenEdge and nodesRightTopOpenEdge correspond");
    checkOpposite(b, c, mesh.nodesRightFrontOpenEdge(), mesh.nodesRightBackOpenEdge(), 2, "nodesRightFrontOpenEdge and nodesRightBackOpenEdge correspond");
}
template <class M> void checkCounts(const M& mesh, const D2& c, const I2& conn, size_t nne, size_t ndim)
{
    sym_equ(mesh.nnode(), c.shape(0), "nnode");
    sym_equ(mesh.nelem(), conn.shape(0), "nelem");
    sym_equ(mesh.nne(), nne, "nne");
    sym_equ(mesh.ndim(), ndim, "ndim");
    sym_equ(c.shape(1), ndim, "ndim");
    sym_equ(conn.shape(1), nne, "nne");
}
