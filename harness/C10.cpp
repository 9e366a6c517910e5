//@ bound: up to 2 elements x 2 nodes (3 in the thorough tier), 3 nodes x 2 components (quick: also 2 x 3), DOF and connectivity tables fully symbolic (every value), all nodal/element/DOF values symbolic reals; a 10 x 8 (thorough: 12 x 10) mesh of quadrilaterals and a 3 x 2 x 2 mesh of hexahedra with an irregular numbering, with and without periodic DOFs
//@ outside: larger tables (the loops treat every entry alike)
#include "arr.h"
#include "decoy.h"
using GooseFEM::Vector;
struct S {
    size_t nelem, nne, nnode, ndim, ndof;
    I2 conn, dofs;
};
static S setup(size_t nelem, size_t nne, size_t nnode, size_t ndim, size_t maxdof)
{
    S s{nelem, nne, nnode, ndim, 0, symI2(nelem, nne, nnode - 1, "conn"), symI2(nnode, ndim, maxdof - 1, "dofs")};
    size_t n = sym_size("ndof", 1, maxdof);  // = highest DOF number + 1
    bool hit = false;
    for (auto v : s.dofs) {
        sym_assume(v < n);
        hit = hit | (v == n - 1);
    }
    sym_assume(hit);
    s.ndof = n;
    return s;
}
static size_t dof(const S& s, size_t e, size_t m, size_t i)
{
    size_t r = 0;
    for (size_t n = 0; n < s.nnode; ++n) r = sym_iteu(s.conn(e, m) == n, s.dofs(n, i), r);
    return r;
}
static void meta(const S& s, const Vector& v)
{
    sym_equ(v.nelem(), s.nelem, "nelem");
    sym_equ(v.nne(), s.nne, "nne");
    sym_equ(v.nnode(), s.nnode, "nnode");
    sym_equ(v.ndim(), s.ndim, "ndim");
    sym_equ(v.ndof(), s.ndof, "ndof is the highest DOF number plus one");
    sameU(v.conn(), s.conn, "connectivity is kept");
    sameU(v.dofs(), s.dofs, "DOF numbers are kept");
}
static void gather(const S& s)
{
    Vector v(s.conn, s.dofs);
    decoy<Vector>();
    meta(s, v);
    D1 d = symD1(s.ndof, "d");
    D2 n = symD2(s.nnode, s.ndim, "n");
    D2 nd = v.AsNode(d), nd2 = junk2(s.nnode, s.ndim);
    v.asNode(d, nd2);
    sameShape(nd, v.shape_nodevec(), "shape of nodevec");
    for (size_t m = 0; m < s.nnode; ++m)
        for (size_t i = 0; i < s.ndim; ++i) {
            sym_eq(nd(m, i), at(d, s.dofs(m, i)), "node value is the value of its DOF");
            sym_eq(nd2(m, i), nd(m, i), "in-place form equals allocating form");
        }
    D3 ed = v.AsElement(d), ed2 = junk3(s.nelem, s.nne, s.ndim), en = v.AsElement(n), en2 = ed2;
    v.asElement(d, ed2);
    v.asElement(n, en2);
    sameShape(ed, v.shape_elemvec(), "shape of elemvec");
    sameShape(en, v.shape_elemvec(), "shape of elemvec");
    for (size_t e = 0; e < s.nelem; ++e)
        for (size_t m = 0; m < s.nne; ++m)
            for (size_t i = 0; i < s.ndim; ++i) {
                double r = 0;
                for (size_t k = 0; k < s.nnode; ++k) r += sym_ite(s.conn(e, m) == k, n(k, i), 0.0);
                sym_eq(ed(e, m, i), at(d, dof(s, e, m, i)), "element value is the value of the node's DOF");
                sym_eq(ed2(e, m, i), ed(e, m, i), "in-place form equals allocating form");
                sym_eq(en(e, m, i), r, "element value is the value of its node");
                sym_eq(en2(e, m, i), en(e, m, i), "in-place form equals allocating form");
            }
    // copies
    D2 c = v.Copy(n, nd), c2 = junk2(s.nnode, s.ndim);
    v.copy(n, c2);
    same(c, n, "copy of a nodal vector");
    same(c2, n, "in-place copy of a nodal vector");
}
// overwriting conversions: any value of an entry that occurs more than once; exact for compatible vectors; zero where none
static void overwrite(const S& s, bool compatible)
{
    Vector v(s.conn, s.dofs);
    decoy<Vector>();
    D1 d = symD1(s.ndof, "d");
    D2 n = compatible ? v.AsNode(d) : symD2(s.nnode, s.ndim, "n");
    D3 el = compatible ? v.AsElement(d) : symD3(s.nelem, s.nne, s.ndim, "e");
    D1 a = v.AsDofs(n), b = v.AsDofs(el), a2 = junk1(s.ndof), b2 = a2;
    v.asDofs(n, a2);
    v.asDofs(el, b2);
    sameShape(a, v.shape_dofval(), "shape of dofval");
    same(a2, a, "in-place form equals allocating form");
    same(b2, b, "in-place form equals allocating form");
    for (size_t k = 0; k < s.ndof; ++k) {
        bool any = false, ok = false;
        for (size_t m = 0; m < s.nnode; ++m)
            for (size_t i = 0; i < s.ndim; ++i) {
                bool h = s.dofs(m, i) == k;
                any = any | h;
                ok = ok | (h & (a(k) == n(m, i)));
            }
        sym_assert(ok | (!any & (a(k) == 0)), "DOF value is that of one of its nodes (or zero without any)");
        if (compatible) sym_assert(!any | (a(k) == d(k)), "DOF values survive the round trip through nodes");
        any = ok = false;
        for (size_t e = 0; e < s.nelem; ++e)
            for (size_t m = 0; m < s.nne; ++m)
                for (size_t i = 0; i < s.ndim; ++i) {
                    bool h = dof(s, e, m, i) == k;
                    any = any | h;
                    ok = ok | (h & (b(k) == el(e, m, i)));
                }
        sym_assert(ok | (!any & (b(k) == 0)), "DOF value is that of one of its element nodes (or zero without any)");
        if (compatible) sym_assert(!any | (b(k) == d(k)), "DOF values survive the round trip through elements");
    }
    D2 en = v.AsNode(el), en2 = junk2(s.nnode, s.ndim);
    v.asNode(el, en2);
    sameShape(en, v.shape_nodevec(), "shape of nodevec");
    same(en2, en, "in-place form equals allocating form");
    for (size_t k = 0; k < s.nnode; ++k)
        for (size_t i = 0; i < s.ndim; ++i) {
            bool any = false, ok = false;
            for (size_t e = 0; e < s.nelem; ++e)
                for (size_t m = 0; m < s.nne; ++m) {
                    bool h = s.conn(e, m) == k;
                    any = any | h;
                    ok = ok | (h & (en(k, i) == el(e, m, i)));
                }
            sym_assert(ok | (!any & (en(k, i) == 0)), "node value is that of one of its elements (or zero without any)");
        }
}
static void assembly(const S& s)
{
    Vector v(s.conn, s.dofs);
    decoy<Vector>();
    D2 n = symD2(s.nnode, s.ndim, "n");
    D3 el = symD3(s.nelem, s.nne, s.ndim, "e");
    D1 a = v.AssembleDofs(n), b = v.AssembleDofs(el), a2 = junk1(s.ndof), b2 = a2;
    D2 c = v.AssembleNode(el), c2 = junk2(s.nnode, s.ndim);
    v.assembleDofs(n, a2);
    v.assembleDofs(el, b2);
    v.assembleNode(el, c2);
    sameShape(a, v.shape_dofval(), "shape of dofval");
    sameShape(c, v.shape_nodevec(), "shape of nodevec");
    double t0 = 0, t1 = 0, sn = 0, se = 0;
    for (auto x : n) sn += x;
    for (auto x : el) se += x;
    for (size_t k = 0; k < s.ndof; ++k) {
        double r = 0, q = 0;
        for (size_t m = 0; m < s.nnode; ++m)
            for (size_t i = 0; i < s.ndim; ++i) r += sym_ite(s.dofs(m, i) == k, n(m, i), 0.0);
        for (size_t e = 0; e < s.nelem; ++e)
            for (size_t m = 0; m < s.nne; ++m)
                for (size_t i = 0; i < s.ndim; ++i) q += sym_ite(dof(s, e, m, i) == k, el(e, m, i), 0.0);
        sym_eq(a(k), r, "DOF gets the sum over its nodes");
        sym_eq(b(k), q, "DOF gets the sum over its elements");
        sym_eq(a2(k), r, "in-place DOF assembly from nodes");
        sym_eq(b2(k), q, "in-place DOF assembly from elements");
        t0 += a(k);
        t1 += b(k);
    }
    for (size_t k = 0; k < s.nnode; ++k)
        for (size_t i = 0; i < s.ndim; ++i) {
            double q = 0;  // all contributions to the node's DOF
            for (size_t j = 0; j < s.ndof; ++j) q += sym_ite(s.dofs(k, i) == j, b(j), 0.0);
            sym_eq(c(k, i), q, "node gets everything assembled on its DOF");
            sym_eq(c2(k, i), q, "in-place nodal assembly");
        }
    sym_eq(t0, sn, "assembly conserves the total");
    sym_eq(t1, se, "assembly conserves the total");
}
// arrays of dynamic rank take the same path as fixed rank
static void dynamic(const S& s)
{
    typedef xt::xarray<double> X;
    Vector v(s.conn, s.dofs);
    decoy<Vector>();
    D1 d = symD1(s.ndof, "d");
    D2 n = symD2(s.nnode, s.ndim, "n");
    D3 e = symD3(s.nelem, s.nne, s.ndim, "e");
    X xd = d, xn = n, xe = e;
    same(v.AsDofs(xn), v.AsDofs(n), "dynamic rank: dofs from nodes");
    same(v.AsDofs(xe), v.AsDofs(e), "dynamic rank: dofs from elements");
    same(v.AsNode(xd), v.AsNode(d), "dynamic rank: nodes from dofs");
    same(v.AsNode(xe), v.AsNode(e), "dynamic rank: nodes from elements");
    same(v.AsElement(xd), v.AsElement(d), "dynamic rank: elements from dofs");
    same(v.AsElement(xn), v.AsElement(n), "dynamic rank: elements from nodes");
    same(v.AssembleDofs(xn), v.AssembleDofs(n), "dynamic rank: assemble dofs from nodes");
    same(v.AssembleDofs(xe), v.AssembleDofs(e), "dynamic rank: assemble dofs from elements");
    same(v.AssembleNode(xe), v.AssembleNode(e), "dynamic rank: assemble nodes from elements");
    bool t = false;
    SYM_THROWS(v.AsDofs(xd), "a DOF vector cannot be converted to DOFs");
    SYM_THROWS(v.AsNode(xn), "a nodal vector cannot be converted to nodes");
    SYM_THROWS(v.AsElement(xe), "an element vector cannot be converted to elements");
    SYM_THROWS(v.AssembleDofs(xd), "a DOF vector cannot be assembled to DOFs");
    SYM_THROWS(v.AssembleNode(xd), "a DOF vector cannot be assembled to nodes");
    SYM_THROWS(v.AssembleNode(xn), "a nodal vector cannot be assembled to nodes");
    (void)t;
}
#define NE (THOROUGH ? 3 : 2)
extern "C" {
void h_gather() { gather(setup(NE, 2, 3, 2, 4)); }
void h_gather3() { gather(setup(1, 3, 2, 3, 6)); }
void h_overwrite() { overwrite(setup(NE, 2, 3, 2, 4), false); }
void h_compatible() { overwrite(setup(NE, 2, 3, 2, 4), true); }
void h_compatible3() { overwrite(setup(1, 3, 2, 3, 5), true); }
void h_assembly() { assembly(setup(NE, 2, 3, 2, 4)); }
void h_assembly3() { assembly(setup(1, 3, 2, 3, 5)); }
void h_dynamic() { dynamic(setup(1, 2, 2, 2, 3)); }
void h_allocate()
{
    S s{sym_size("nelem", 1, 3), sym_size("nne", 1, 3), sym_size("nnode", 1, 3), sym_size("ndim", 1, 3), 0, I2(), I2()};
    s.ndof = sym_size("ndof", 1, s.nnode * s.ndim);
    s.conn = xt::zeros<size_t>({s.nelem, s.nne});
    s.dofs = xt::zeros<size_t>({s.nnode, s.ndim});
    s.dofs(s.nnode - 1, s.ndim - 1) = s.ndof - 1;
    Vector v(s.conn, s.dofs);
    decoy<Vector>();
    meta(s, v);
    double x = sym_real("val", -10, 10);
    size_t k = s.nne * s.ndim;
    D1 d = v.allocate_dofval(x);
    D2 n = v.allocate_nodevec(x);
    D3 e = v.allocate_elemvec(x), m = v.allocate_elemmat(x);
    sameShape(d, std::vector<size_t>{s.ndof}, "shape of allocated dofval");
    sameShape(n, std::vector<size_t>{s.nnode, s.ndim}, "shape of allocated nodevec");
    sameShape(e, std::vector<size_t>{s.nelem, s.nne, s.ndim}, "shape of allocated elemvec");
    sameShape(m, std::vector<size_t>{s.nelem, k, k}, "shape of allocated elemmat");
    sameShape(v.allocate_dofval(), v.shape_dofval(), "shape of allocated dofval");
    sameShape(v.allocate_nodevec(), v.shape_nodevec(), "shape of allocated nodevec");
    sameShape(v.allocate_elemvec(), v.shape_elemvec(), "shape of allocated elemvec");
    sameShape(v.allocate_elemmat(), v.shape_elemmat(), "shape of allocated elemmat");
    for (auto y : d) sym_eq(y, x, "allocated dofval is filled");
    for (auto y : n) sym_eq(y, x, "allocated nodevec is filled");
    for (auto y : e) sym_eq(y, x, "allocated elemvec is filled");
    for (auto y : m) sym_eq(y, x, "allocated elemmat is filled");
}
static S mesh(size_t ndim)
{
    Tables t = anyTables(THOROUGH ? 12 : 10, THOROUGH ? 10 : 8, ndim);
    return S{t.conn.shape(0), t.conn.shape(1), t.dofs.shape(0), t.dofs.shape(1), t.ndof, t.conn, t.dofs};
}
void h_mesh_gather() { gather(mesh(2)); }
void h_mesh_overwrite() { overwrite(mesh(2), sym_size("compatible", 0, 1)); }
void h_mesh_assembly() { assembly(mesh(2)); }
}
