//@ bound: 1 element x 2 nodes on 2 nodes x 2 components and on 3 nodes x 1 component (thorough: also 2 elements on 3 x 1, partition on 5 x 1), every gap-free DOF table, every ordered subset of prescribed DOFs (also none and all), all values symbolic reals; a 10 x 8 (thorough: 12 x 10) mesh of quadrilaterals and a 3 x 2 x 2 mesh of hexahedra with an irregular numbering, with and without periodic DOFs, a third of them prescribed
//@ assume: DOF numbers have no gaps; prescribed DOFs are distinct existing DOFs
#include "arr.h"
#include "decoy.h"
using GooseFEM::VectorPartitioned;
struct S {
    size_t nelem, nne, nnode, ndim, ndof, nnp, nnu;
    I2 conn, dofs;
    I1 iip;
};
static S setup(size_t nelem, size_t nne, size_t nnode, size_t ndim, size_t lo, size_t hi, bool fixConn = false)
{
    S s;
    s.nelem = nelem; s.nne = nne; s.nnode = nnode; s.ndim = ndim;
    s.ndof = sym_size("ndof", lo, hi);
    s.nnp = sym_size("nnp", 0, s.ndof);
    s.nnu = s.ndof - s.nnp;
    s.conn = symI2(nelem, nne, nnode - 1, "conn");
    if (fixConn)
        for (size_t m = 0; m < nne; ++m) s.conn(0, m) = m;
    s.dofs = symDofs(nnode, ndim, s.ndof);
    s.iip = s.nnp ? symDistinct(s.nnp, s.ndof, "iip") : I1(xt::zeros<size_t>({(size_t)0}));
    concretizeAll(s.conn); concretizeAll(s.dofs); concretizeAll(s.iip);
    return s;
}
static bool isP(const S& s, size_t d)
{
    bool r = false;
    for (auto v : s.iip) r = r | (v == d);
    return r;
}
static size_t dof(const S& s, size_t e, size_t m, size_t i) { return dofOf(s.dofs, s.conn(e, m), i); }
static void partition(const S& s)
{
    VectorPartitioned v(s.conn, s.dofs, s.iip);
    decoy<VectorPartitioned>();
    sym_equ(v.ndof(), s.ndof, "ndof");
    sym_equ(v.nnp(), s.nnp, "number of prescribed DOFs");
    sym_equ(v.nnu(), s.nnu, "number of unknown DOFs");
    sym_assert(v.iip().size() == s.nnp && v.iiu().size() == s.nnu, "sizes of the DOF sets");
    sameU(v.iip(), s.iip, "prescribed DOFs are kept in order");
    for (size_t k = 0; k < s.nnu; ++k) {
        sym_assert(v.iiu()(k) < s.ndof, "unknown DOFs exist");
        sym_assert(!isP(s, v.iiu()(k)), "unknown DOFs are not prescribed");
        if (k) sym_assert(v.iiu()(k - 1) < v.iiu()(k), "unknown DOFs are listed once, in order");
    }
    auto u = v.dofs_is_u(), p = v.dofs_is_p();
    sameShape(u, v.shape_nodevec(), "shape of dofs_is_u");
    sameShape(p, v.shape_nodevec(), "shape of dofs_is_p");
    for (size_t m = 0; m < s.nnode; ++m)
        for (size_t i = 0; i < s.ndim; ++i) {
            bool q = isP(s, s.dofs(m, i));
            sym_assert(p(m, i) == q, "dofs_is_p");
            sym_assert(u(m, i) == !q, "dofs_is_u");
        }
    // copying one part
    D2 a = symD2(s.nnode, s.ndim, "a"), b = symD2(s.nnode, s.ndim, "b"), cu = v.Copy_u(a, b), cp = v.Copy_p(a, b), iu = b, ip = b;
    v.copy_u(a, iu);
    v.copy_p(a, ip);
    for (size_t m = 0; m < s.nnode; ++m)
        for (size_t i = 0; i < s.ndim; ++i) {
            bool q = isP(s, s.dofs(m, i));
            sym_eq(cu(m, i), sym_ite(q, b(m, i), a(m, i)), "Copy_u copies unknown DOFs only");
            sym_eq(cp(m, i), sym_ite(q, a(m, i), b(m, i)), "Copy_p copies prescribed DOFs only");
            sym_eq(iu(m, i), sym_ite(q, b(m, i), a(m, i)), "copy_u copies unknown DOFs only");
            sym_eq(ip(m, i), sym_ite(q, a(m, i), b(m, i)), "copy_p copies prescribed DOFs only");
        }
}
static void convert(const S& s)
{
    VectorPartitioned v(s.conn, s.dofs, s.iip);
    decoy<VectorPartitioned>();
    D1 d = symD1(s.ndof, "d");
    D1 u = v.AsDofs_u(d), p = v.AsDofs_p(d), u2 = junk1(s.nnu), p2 = junk1(s.nnp);
    sym_assert(u.size() == s.nnu && p.size() == s.nnp, "sizes of the parts");
    v.asDofs_u(d, u2);
    v.asDofs_p(d, p2);
    same(u2, u, "in-place form equals allocating form");
    same(p2, p, "in-place form equals allocating form");
    for (size_t k = 0; k < s.nnu; ++k) sym_eq(u(k), at(d, v.iiu()(k)), "unknown part of DOF values");
    for (size_t k = 0; k < s.nnp; ++k) sym_eq(p(k), at(d, s.iip(k)), "prescribed part of DOF values");
    // the parts of a compatible nodal / element vector
    D2 n = v.AsNode(d);
    D3 e = v.AsElement(d);
    D1 nu = v.AsDofs_u(n), np = v.AsDofs_p(n), eu = v.AsDofs_u(e), ep = v.AsDofs_p(e);
    D1 nu2 = junk1(s.nnu), np2 = junk1(s.nnp), eu2 = nu2, ep2 = np2;
    v.asDofs_u(n, nu2);
    v.asDofs_p(n, np2);
    v.asDofs_u(e, eu2);
    v.asDofs_p(e, ep2);
    same(nu2, nu, "in-place form equals allocating form");
    same(np2, np, "in-place form equals allocating form");
    same(eu2, eu, "in-place form equals allocating form");
    same(ep2, ep, "in-place form equals allocating form");
    same(nu, u, "unknown part of a nodal vector");
    same(np, p, "prescribed part of a nodal vector");
    auto reached = [&](size_t k) {
        bool r = false;
        for (size_t a = 0; a < s.nelem; ++a)
            for (size_t m = 0; m < s.nne; ++m)
                for (size_t i = 0; i < s.ndim; ++i) r = r | (dof(s, a, m, i) == k);
        return r;
    };
    for (size_t k = 0; k < s.nnu; ++k) sym_eq(eu(k), sym_ite(reached(v.iiu()(k)), u(k), 0.0), "unknown part of an element vector");
    for (size_t k = 0; k < s.nnp; ++k) sym_eq(ep(k), sym_ite(reached(s.iip(k)), p(k), 0.0), "prescribed part of an element vector");
    // and back
    D1 r = v.DofsFromParitioned(u, p), r2 = junk1(s.ndof);
    v.dofsFromParitioned(u, p, r2);
    same(r, d, "both parts give back the DOF values");
    same(r2, d, "both parts give back the DOF values");
    D2 m = v.NodeFromPartitioned(u, p), m2 = junk2(s.nnode, s.ndim);
    v.nodeFromPartitioned(u, p, m2);
    same(m, n, "both parts give back the nodal vector");
    same(m2, n, "both parts give back the nodal vector");
    D3 f = v.ElementFromPartitioned(u, p), f2 = junk3(s.nelem, s.nne, s.ndim);
    v.elementFromPartitioned(u, p, f2);
    same(f, e, "both parts give back the element vector");
    same(f2, e, "both parts give back the element vector");
}
extern "C" {
void h_partition() { partition(setup(1, 2, 2, 2, 1, 4, true)); }
void h_convert() { convert(setup(1, 2, 2, 2, 1, 4)); }
void h_partition1() { partition(setup(1, 2, 3, 1, 1, 3, true)); }
void h_convert1() { convert(setup(1, 2, 3, 1, 1, 3)); }
void ht_convert2() { convert(setup(2, 2, 3, 1, 1, 3)); }
void ht_partition() { partition(setup(1, 2, 5, 1, 1, 5, true)); }
static S mesh(size_t ndim)
{
    Tables t = anyTables(THOROUGH ? 12 : 10, THOROUGH ? 10 : 8, ndim);
    S s;
    s.nelem = t.conn.shape(0); s.nne = t.conn.shape(1); s.nnode = t.dofs.shape(0); s.ndim = t.dofs.shape(1); s.ndof = t.ndof;
    s.nnp = (t.ndof + 2) / 3;
    s.nnu = s.ndof - s.nnp;
    s.conn = t.conn;
    s.dofs = t.dofs;
    s.iip = xt::zeros<size_t>({s.nnp});
    for (size_t k = 0; k < s.nnp; ++k) s.iip(k) = (s.nnp - 1 - k) * 3;
    return s;
}
void h_mesh_partition() { partition(mesh(2)); }
void h_mesh_convert() { convert(mesh(2)); }
}
