//@ bound: 3 or 4 nodes in 2 dimensions, 4 in 1, 3 in 3, plus control nodes; every set of up to 2 ties (any pairing), up to 2 prescribed DOFs in any order (none included), symbolic real positions and DOF values; DOF tables: one DOF per component in ascending or descending order, in 1 dimension every table (up to 3 nodes; thorough: 4); all periodic ties of a 6 x 5 (thorough: 10 x 8) mesh of quadrilaterals with an irregular numbering, with up to 6 control and corner DOFs prescribed
//@ assume: dependent nodes are tied once, do not serve as the independent node of another tie, share no DOFs with other nodes, and are not prescribed
#include "mat.h"
#include <GooseFEM/TyingsPeriodic.h>
using GooseFEM::Tyings::Control;
using GooseFEM::Tyings::Periodic;
static bool in(const std::vector<size_t>& v, size_t k)
{
    for (auto a : v)
        if (a == k) return true;
    return false;
}
static size_t find(const I2& table, const I2& from, size_t k)
{
    for (size_t n = 0; n < from.shape(0); ++n)
        for (size_t i = 0; i < from.shape(1); ++i)
            if (from(n, i) == k) return table(n, i);
    sym_assert(false, "harness: DOF not found");
    return 0;
}
static void check(const I2& d, const I2& ties, const I1& iip, const std::vector<size_t>& dep, const D2& x, bool empty)
{
    size_t nnode = d.shape(0), ndim = d.shape(1), ndof = 0, nties = ties.shape(0), nprescribed = iip.size();
    for (auto v : d) ndof = v >= ndof ? v + 1 : ndof;
    std::vector<size_t> iipv(iip.begin(), iip.end());
    // control nodes
    Control c(x, d);
    I2 cd = c.controlDofs(), dofs = c.dofs();
    D2 coor = c.coor();
    sameShape(cd, std::vector<size_t>{ndim, ndim}, "control DOFs");
    sameShape(dofs, std::vector<size_t>{nnode + ndim, ndim}, "DOFs with control nodes");
    sameShape(coor, std::vector<size_t>{nnode + ndim, ndim}, "positions with control nodes");
    sym_equ(c.controlNodes().size(), ndim, "control nodes");
    for (size_t i = 0; i < ndim; ++i) {
        sym_equ(c.controlNodes()(i), nnode + i, "control nodes follow the nodes");
        for (size_t j = 0; j < ndim; ++j) {
            sym_equ(cd(i, j), ndof + i * ndim + j, "control DOFs follow the DOFs");
            sym_equ(dofs(nnode + i, j), cd(i, j), "control DOFs are those of the control nodes");
            sym_eq(coor(nnode + i, j), 0.0, "control nodes are in the origin");
        }
    }
    for (size_t n = 0; n < nnode; ++n)
        for (size_t i = 0; i < ndim; ++i) {
            sym_equ(dofs(n, i), d(n, i), "DOFs of the nodes are kept");
            sym_eq(coor(n, i), x(n, i), "positions of the nodes are kept");
        }
    Periodic p = nprescribed || empty ? Periodic(coor, dofs, cd, ties, iip) : Periodic(coor, dofs, cd, ties);
    size_t ntot = ndof + ndim * ndim, nd = dep.size(), np = nprescribed;
    size_t ni = ntot - nd, nu = ni - np;
    sym_equ(p.nnd(), nd, "number of dependent DOFs");
    sym_equ(p.nni(), ni, "number of independent DOFs");
    sym_equ(p.nnp(), np, "number of prescribed DOFs");
    sym_equ(p.nnu(), nu, "number of unknown DOFs");
    sameU(p.iiu(), range(0, nu), "unknown DOFs come first");
    sameU(p.iip(), range(nu, ni), "prescribed DOFs follow");
    sameU(p.iii(), range(0, ni), "independent DOFs: unknown and prescribed");
    sameU(p.iid(), range(ni, ni + nd), "dependent DOFs come last");
    sameU(p.nodal_tyings(), ties, "tyings are kept");
    // renumbering
    I2 q = p.dofs();
    sameShape(q, dofs.shape(), "shape of the DOFs");
    std::vector<size_t> num(ntot);
    size_t next = 0;
    for (size_t k = 0; k < ntot; ++k)
        if (!in(dep, k) && !in(iipv, k)) num[k] = next++;
    for (auto k : iipv) num[k] = next++;
    for (auto k : dep) num[k] = next++;
    for (size_t n = 0; n < nnode + ndim; ++n)
        for (size_t i = 0; i < ndim; ++i) sym_equ(q(n, i), num[dofs(n, i)], "numbering: unknown (ascending), prescribed (as listed), dependent (tie by tie)");
    I2 pc = p.control();
    sameShape(pc, cd.shape(), "control DOFs");
    for (size_t i = 0; i < ndim; ++i)
        for (size_t j = 0; j < ndim; ++j) sym_equ(pc(i, j), num[cd(i, j)], "control DOFs are renumbered alike");
    // kinematics
    D2 Cdi = fromSparse(p.Cdi()), Cdu = fromSparse(p.Cdu()), Cdp = fromSparse(p.Cdp());
    sameShape(Cdi, std::vector<size_t>{nd, ni}, "Cdi");
    sameShape(Cdu, std::vector<size_t>{nd, nu}, "Cdu");
    sameShape(Cdp, std::vector<size_t>{nd, np}, "Cdp");
    for (size_t r = 0; r < nd; ++r)
        for (size_t k = 0; k < ni; ++k) sym_eq(Cdi(r, k), k < nu ? Cdu(r, k) : Cdp(r, k - nu), "Cdi is Cdu and Cdp side by side");
    D1 u = symD1(ni, "u");
    D1 ud = mul(Cdi, u);
    for (size_t t = 0; t < nties; ++t)
        for (size_t j = 0; j < ndim; ++j) {
            size_t a = ties(t, 0), b = ties(t, 1);
            double e = u(q(a, j));
            for (size_t k = 0; k < ndim; ++k) e += u(pc(j, k)) * (x(b, k) - x(a, k));
            sym_eq(ud(q(b, j) - ni), e, "dependent displacement: that of the independent node plus the gradient times the distance");
        }
}
static void run(const I2& d, size_t nties, size_t nprescribed, bool pinned)
{
    size_t nnode = d.shape(0), ndim = d.shape(1), ndof = 0;
    for (auto v : d) ndof = v >= ndof ? v + 1 : ndof;
    // ties
    I2 ties = symI2(nties, 2, nnode - 1, "tie");
    concretizeAll(ties);
    std::vector<size_t> dep;
    for (size_t t = 0; t < nties; ++t) {
        for (size_t s = 0; s < nties; ++s) sym_assume(ties(s, 0) != ties(t, 1) && (s == t || ties(s, 1) != ties(t, 1)));
        for (size_t i = 0; i < ndim; ++i) {
            size_t k = d(ties(t, 1), i), count = 0;
            for (auto v : d) count += (v == k);
            sym_assume(count == 1);
            dep.push_back(k);
        }
    }
    // prescribed DOFs: pinned = control DOFs only
    I1 iip = symI1(nprescribed, ndof + ndim * ndim - 1, "iip");
    for (size_t a = 0; a < nprescribed; ++a) {
        if (pinned) sym_assume(iip(a) >= ndof - 1);
        for (size_t b = 0; b < a; ++b) sym_assume(iip(a) != iip(b));
        for (auto k : dep) sym_assume(iip(a) != k);
    }
    concretizeAll(iip);
    check(d, ties, iip, dep, symD2(nnode, ndim, "x"), nprescribed == 0 && sym_size("pass an empty list", 0, 1));
}
static I2 table(size_t nnode, size_t ndim)
{
    I2 d = xt::zeros<size_t>({nnode, ndim});
    bool rev = sym_size("descending", 0, 1);
    size_t k = 0, n = nnode * ndim;
    for (auto& v : d) { v = rev ? n - 1 - k : k; ++k; }
    return d;
}
extern "C" {
void h_1d()
{
    size_t n = sym_size("nnode", 2, 4), t = sym_size("ties", 1, n > 3 ? 2 : 1), p = sym_size("prescribed", 0, n > 3 && !THOROUGH ? 1 : 2);
    I2 d = n > 3 && !THOROUGH ? table(n, 1) : symDofs(n, 1, sym_size("ndof", 2, n));
    concretizeAll(d);
    run(d, t, p, false);
}
void h_2d_none() { run(table(4, 2), sym_size("ties", 1, THOROUGH ? 3 : 2), 0, false); }
void h_2d_one() { run(table(4, 2), sym_size("ties", 1, 2), 1, !THOROUGH); }
void h_2d_two() { run(table(3, 2), 1, 2, false); }
void h_3d() { run(table(3, 3), 1, sym_size("prescribed", 0, 1), false); }
// all periodic ties of a structured mesh
void h_mesh()
{
    size_t nx = THOROUGH ? 10 : 6, ny = THOROUGH ? 8 : 5, n = (nx + 1) * (ny + 1);
    Tables g = gridTables(nx, ny, 2, false);
    std::vector<size_t> row, col, dep;
    // node numbers of the grid, from the connectivity
    std::vector<size_t> node(n);
    for (size_t e = 0; e < nx * ny; ++e) {
        size_t X = e % nx, Y = e / nx, q[4] = {Y * (nx + 1) + X, Y * (nx + 1) + X + 1, (Y + 1) * (nx + 1) + X + 1, (Y + 1) * (nx + 1) + X};
        for (size_t m = 0; m < 4; ++m) node[q[m]] = g.conn(e, m);
    }
    I2 ties = xt::zeros<size_t>({nx + ny + 1, size_t(2)});
    size_t t = 0;
    for (size_t Y = 1; Y < ny; ++Y, ++t) { ties(t, 0) = node[Y * (nx + 1)]; ties(t, 1) = node[Y * (nx + 1) + nx]; }
    for (size_t X = 1; X < nx; ++X, ++t) { ties(t, 0) = node[X]; ties(t, 1) = node[ny * (nx + 1) + X]; }
    size_t corner[3] = {nx, ny * (nx + 1) + nx, ny * (nx + 1)};
    for (size_t k = 0; k < 3; ++k, ++t) { ties(t, 0) = node[0]; ties(t, 1) = node[corner[k]]; }
    for (size_t k = 0; k < t; ++k)
        for (size_t i = 0; i < 2; ++i) dep.push_back(g.dofs(ties(k, 1), i));
    // prescribed: the control DOFs, in either order, and the corner
    size_t np = sym_size("prescribed", 0, 6);
    bool rev = sym_size("reversed", 0, 1);
    I1 iip = xt::zeros<size_t>({np});
    for (size_t k = 0; k < np; ++k) {
        size_t q = rev ? np - 1 - k : k;
        iip(k) = q < 4 ? g.ndof + q : g.dofs(node[0], q - 4);
    }
    D2 x = symD2(n, 2, "x");
    check(g.dofs, ties, iip, dep, x, false);
}
}
