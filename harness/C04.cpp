//@ bound: 1-2 elements, nodal coordinates, displacements and all components of the tangent symbolic reals; Gauss rule (Hex8: one symbolic-geometry point, all Gauss points on nine concrete distorted elements); 35 quadrilaterals of given irregular geometry with symbolic tangents
//@ assume: the Jacobian at every integration point is > 0.05 (elements are not inverted)
//@ outside: degenerate or inverted elements; accumulated rounding
#include "elem.h"
using namespace ref;
typedef Element::Quad4::Quadrature Q4;
typedef Element::Quad4::QuadraturePlanar QP;
typedef Element::Quad4::QuadratureAxisymmetric QA;
typedef Element::Hex8::Quadrature H8;
static A6 symTangent(size_t E, size_t P, size_t T)
{
    A6 c = xt::zeros<double>({E, P, T, T, T, T});
    for (auto& v : c) v = sym_real("C", -1, 1);
    return c;
}
// K . du == internal force of the stress sigma_ij = C_ijkl (grad du)_lk, for every unit displacement
template <class Q> static void stiffness(const Q& q, const A6& C)
{
    const size_t E = q.nelem(), P = q.nip(), M = q.nne(), D = q.ndim(), T = q.tdim();
    A3 K = q.Int_gradN_dot_tensor4_dot_gradNT_dV(C);
    A3 K2 = 3.0 * xt::ones<double>({E, M * D, M * D});
    q.int_gradN_dot_tensor4_dot_gradNT_dV(C, K2);
    sym_assert(K.shape(0) == E && K.shape(1) == M * D && K.shape(2) == M * D, "shape");
    for (size_t n = 0; n < M; ++n)
        for (size_t k = 0; k < D; ++k) {
            A3 du = xt::zeros<double>({E, M, D});
            for (size_t e = 0; e < E; ++e) du(e, n, k) = 1;
            A4 g = q.GradN_vector(du), s = xt::zeros<double>({E, P, T, T});
            for (size_t e = 0; e < E; ++e)
                for (size_t p = 0; p < P; ++p)
                    for (size_t a = 0; a < T; ++a)
                        for (size_t b = 0; b < T; ++b)
                            for (size_t c = 0; c < T; ++c)
                                for (size_t d = 0; d < T; ++d) s(e, p, a, b) += C(e, p, a, b, c, d) * g(e, p, d, c);
            A3 f = q.Int_gradN_dot_tensor2_dV(s);
            for (size_t e = 0; e < E; ++e)
                for (size_t m = 0; m < M; ++m)
                    for (size_t j = 0; j < D; ++j) {
                        sym_eq(K(e, m * D + j, n * D + k), f(e, m, j), "stiffness is the derivative of the internal force");
                        sym_eq(K2(e, m * D + j, n * D + k), K(e, m * D + j, n * D + k), "in-place version");
                    }
        }
}
// rigid translations produce no force; a tangent with major symmetry gives a symmetric matrix
template <class Q> static void nullspace(const Q& q, A6 C)
{
    const size_t E = q.nelem(), P = q.nip(), M = q.nne(), D = q.ndim(), T = q.tdim();
    for (size_t e = 0; e < E; ++e)
        for (size_t p = 0; p < P; ++p)
            for (size_t a = 0; a < T; ++a)
                for (size_t b = 0; b < T; ++b)
                    for (size_t c = 0; c < T; ++c)
                        for (size_t d = 0; d < T; ++d)
                            // K(mj, nk) = dN(m,i) C(i,j,k,l) dN(n,l): symmetric when C_ijkl = C_lkji
                            if (std::make_pair(a, b) < std::make_pair(d, c)) C(e, p, a, b, c, d) = C(e, p, d, c, b, a);
    A3 K = q.Int_gradN_dot_tensor4_dot_gradNT_dV(C);
    for (size_t e = 0; e < E; ++e) {
        for (size_t i = 0; i < M * D; ++i)
            for (size_t j = 0; j < i; ++j) sym_eq(K(e, i, j), K(e, j, i), "symmetric stiffness");
        for (size_t i = 0; i < M * D; ++i)
            for (size_t d = 0; d < D; ++d) {
                double s = 0;
                for (size_t m = 0; m < M; ++m) s += K(e, i, m * D + d);
                sym_eqtol(s, 0, 1e-8, "a translation produces no force");
            }
    }
}
extern "C" {
void h_quad4()
{
    A3 x = symX<2>(2, "x");
    assumeRegular<2>(x, Element::Quad4::Gauss::xi());
    Q4 q(x);
    stiffness(q, symTangent(2, 4, 2));
}
void h_quad4_null()
{
    A3 x = symX<2>(1, "x");
    assumeRegular<2>(x, Element::Quad4::MidPoint::xi());
    Q4 q(x, Element::Quad4::MidPoint::xi(), Element::Quad4::MidPoint::w());
    nullspace(q, symTangent(1, 1, 2));
}
void h_planar()
{
    A3 x = symX<2>(1, "x");
    assumeRegular<2>(x, Element::Quad4::Gauss::xi());
    QP q(x, sym_real("thick", 0.5, 2));
    stiffness(q, symTangent(1, 4, 3));
}
void h_planar_two()
{
    A3 x = distorted<2>(2);
    QP q(x, 2.0);
    A6 C = symTangent(2, 4, 3);
    stiffness(q, C);
    nullspace(q, C);
}
void h_axisymmetric()
{
    A3 x = symX<2>(1, "x", 3);
    assumeRegular<2>(x, Element::Quad4::Gauss::xi());
    QA q(x);
    stiffness(q, symTangent(1, 4, 3));
}
void h_axisymmetric_two()
{
    A3 x = distorted<2>(2);
    QA q(x);
    stiffness(q, symTangent(2, 4, 3));
}
void h_hex8()
{
    A3 x = symX<3>(1, "x");
    A2 xi = xt::zeros<double>({1, 3});
    for (int k = 0; k < 3; ++k) xi(0, k) = 0.25 * (k - 1);
    assumeRegular<3>(x, xi);
    H8 q(x, xi, xt::xtensor<double, 1>(2.0 * xt::ones<double>({1})));
    stiffness(q, symTangent(1, 1, 3));
}
void h_hex8_two()
{
    A3 x = distorted<3>(9);
    H8 q(x);
    A6 C = symTangent(9, 8, 3);
    A3 K = q.Int_gradN_dot_tensor4_dot_gradNT_dV(C);
    auto g = q.GradN();
    auto v = q.dV();
    for (size_t m = 0; m < 8; ++m)
        for (size_t n = 0; n < 8; ++n)
            for (size_t j = 0; j < 3; ++j)
                for (size_t k = 0; k < 3; ++k)
                    for (size_t e = 0; e < 9; ++e) {
                        double s = 0;
                        for (size_t p = 0; p < 8; ++p)
                            for (size_t i = 0; i < 3; ++i)
                                for (size_t l = 0; l < 3; ++l) s += g(e, p, m, i) * C(e, p, i, j, k, l) * g(e, p, n, l) * v(e, p);
                        sym_eq(K(e, m * 3 + j, n * 3 + k), s, "stiffness of a hexahedron");
                    }
}
void h_many()
{
    A3 x = distorted<2>(35);
    size_t type = sym_size("type", 0, 2);
    if (type == 0) { Q4 q(x); stiffness(q, symTangent(x.shape(0), 4, 2)); }
    if (type == 1) { QP q(x); stiffness(q, symTangent(x.shape(0), 4, 3)); }
    if (type == 2) { QA q(x); stiffness(q, symTangent(x.shape(0), 4, 3)); }
}
}
