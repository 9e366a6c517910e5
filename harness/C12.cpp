//@ bound: every gap-free DOF table with up to 4 DOFs on 2 nodes x 2 components and 3 DOFs on 3 nodes x 1 component, every split in unknown, prescribed and dependent DOFs, all tying coefficients and nodal values symbolic reals; a 12 x 11 (thorough: 16 x 14) mesh of quadrilaterals and a 3 x 2 x 2 mesh of hexahedra with an irregular numbering, with and without periodic DOFs
//@ assume: nodal vectors are compatible with shared DOFs; DOFs are ordered unknown, prescribed, dependent
#include "mat.h"
#include "decoy.h"
using GooseFEM::VectorPartitionedTyings;
static void run(const TSys& s)
{
    VectorPartitionedTyings v(s.conn, s.dofs, toSparse(s.Cdu), toSparse(s.Cdp), toSparse(s.Cdi));
    decoy<VectorPartitionedTyings>();
    sym_equ(v.nnu(), s.nnu, "nnu");
    sym_equ(v.nnp(), s.nnp, "nnp");
    sym_equ(v.nni(), s.nni, "nni");
    sym_equ(v.nnd(), s.nnd, "nnd");
    sameU(v.iiu(), s.iiu, "iiu");
    sameU(v.iip(), s.iip, "iip");
    sameU(v.iii(), s.iii, "iii");
    sameU(v.iid(), s.iid, "iid");
    D1 d = symD1(s.ndof, "d"), di = part(d, s.iii), dd = part(d, s.iid);
    D2 n = nodes(s, d);
    D1 tied = plus(di, mul(trans(s.Cdi), dd)), r = v.AsDofs_i(n), r2 = junk1(s.nni), r3 = junk1(s.nni), r4 = junk1(s.nni);
    v.asDofs_i(n, r2);
    v.asDofs_i(n, r3, true);
    v.asDofs_i(n, r4, false);
    same(r, tied, "independent DOFs with tyings applied");
    same(r2, tied, "independent DOFs with tyings applied");
    same(r3, tied, "independent DOFs with tyings applied");
    same(r4, di, "independent DOFs without tyings");
    // copying prescribed DOFs
    D1 a = symD1(s.ndof, "a"), b = symD1(s.ndof, "b"), c = b;
    v.copy_p(a, c);
    same(c, mixDofs(s.iip, a, b), "copy_p copies prescribed DOFs only");
    D1 ci = part(b, s.iii);
    v.copy_p(a, ci);
    same(ci, part(mixDofs(s.iip, a, b), s.iii), "copy_p on independent DOFs");
    D1 ai = part(a, s.iii), e = b;
    v.copy_p(ai, e);
    same(e, mixDofs(s.iip, a, b), "copy_p from independent DOFs");
}
extern "C" {
void h_vec12() { run(symTSys(1, 2, 2, 2, 4)); }
void h_vec11() { run(symTSys(1, 2, 3, 1, 3, !THOROUGH, false)); }
void ht_vec14() { run(symTSys(1, 2, 4, 1, 4, true, false)); }
void h_mesh() { run(tgrid(THOROUGH ? 16 : 12, THOROUGH ? 14 : 11, 2)); }
}
