//@ bound: 2 elements (Hex8: 1-2), nodal coordinates, densities and fields symbolic reals; Gauss, nodal and mid-point rules; vector fields with 1 to 4 components; 35 quadrilaterals (17 hexahedra) of given irregular geometry with symbolic fields
//@ assume: the Jacobian at every integration point is > 0.05 (elements are not inverted)
//@ outside: degenerate or inverted elements; accumulated rounding
#include "elem.h"
using namespace ref;
typedef Element::Quad4::Quadrature Q4;
typedef Element::Quad4::QuadraturePlanar QP;
typedef Element::Quad4::QuadratureAxisymmetric QA;
typedef Element::Hex8::Quadrature H8;
template <int DD, class Q> static void mass(const Q& q, const A2& xi)
{
    const size_t E = q.nelem(), P = q.nip(), M = q.nne(), D = q.ndim();
    A2 rho = xt::zeros<double>({E, P});
    for (auto& r : rho) r = sym_real("rho", 0, 2);
    A3 K = q.Int_N_scalar_NT_dV(rho);
    A3 K2 = 3.0 * xt::ones<double>({E, M * D, M * D});
    q.int_N_scalar_NT_dV(rho, K2);
    sym_assert(K.shape(0) == E && K.shape(1) == M * D && K.shape(2) == M * D, "shape");
    auto v = q.dV();
    for (size_t e = 0; e < E; ++e) {
        for (size_t m = 0; m < M; ++m)
            for (size_t n = 0; n < M; ++n)
                for (size_t i = 0; i < D; ++i)
                    for (size_t j = 0; j < D; ++j) {
                        double s = 0;
                        if (i == j)
                            for (size_t p = 0; p < P; ++p) s += N<DD>(m, &xi(p, 0)) * N<DD>(n, &xi(p, 0)) * rho(e, p) * v(e, p);
                        sym_eq(K(e, m * D + i, n * D + j), s, "mass matrix is the integral of N rho N");
                        sym_eq(K2(e, m * D + i, n * D + j), K(e, m * D + i, n * D + j), "in-place version");
                    }
        double tot = 0, ref = 0;
        for (size_t m = 0; m < M; ++m)
            for (size_t n = 0; n < M; ++n) tot += K(e, m * D, n * D);
        for (size_t p = 0; p < P; ++p) ref += rho(e, p) * v(e, p);
        sym_eqtol(tot, ref, 1e-7, "total mass");
    }
}
template <int DD, class Q> static void body(const Q& q, const A2& xi, size_t nc)
{
    const size_t E = q.nelem(), P = q.nip(), M = q.nne();
    A3 t = xt::zeros<double>({E, P, nc});
    for (auto& r : t) r = sym_real("t", -1, 1);
    A3 f = q.Int_N_vector_dV(t);
    A3 f2 = 3.0 * xt::ones<double>({E, M, nc});
    q.int_N_vector_dV(t, f2);
    sym_assert(f.shape(0) == E && f.shape(1) == M && f.shape(2) == nc, "shape");
    auto v = q.dV();
    for (size_t e = 0; e < E; ++e)
        for (size_t i = 0; i < nc; ++i)
            for (size_t m = 0; m < M; ++m) {
                double s = 0;
                for (size_t p = 0; p < P; ++p) s += N<DD>(m, &xi(p, 0)) * t(e, p, i) * v(e, p);
                sym_eq(f(e, m, i), s, "nodal load is the integral of N t");
                sym_eq(f2(e, m, i), f(e, m, i), "in-place version");
            }
}
extern "C" {
void h_quad4()
{
    A3 x = symX<2>(2, "x");
    A2 xi = Element::Quad4::Gauss::xi();
    assumeRegular<2>(x, xi);
    Q4 q(x);
    mass<2>(q, xi);
    body<2>(q, xi, 2);
    body<2>(q, xi, 1);
    body<2>(q, xi, 3);
}
void h_planar()
{
    A3 x = symX<2>(2, "x");
    A2 xi = Element::Quad4::Gauss::xi();
    assumeRegular<2>(x, xi);
    QP q(x, sym_real("thick", 0.5, 2));
    mass<2>(q, xi);
    body<2>(q, xi, 2);
    body<2>(q, xi, 3);
}
void h_axisymmetric()
{
    A3 x = symX<2>(2, "x", 3);
    A2 xi = Element::Quad4::Gauss::xi();
    assumeRegular<2>(x, xi);
    QA q(x);
    mass<2>(q, xi);
    body<2>(q, xi, 2);
}
void h_quad4_nodal()
{
    A3 x = symX<2>(2, "x");
    A2 xi = Element::Quad4::Nodal::xi();
    assumeRegular<2>(x, xi);
    Q4 q(x, xi, Element::Quad4::Nodal::w());
    mass<2>(q, xi);
    body<2>(q, xi, 2);
    QP p(x, xi, Element::Quad4::Nodal::w());
    mass<2>(p, xi);
    // lumped: the matrix of the nodal rule is diagonal
    A3 K = q.Int_N_scalar_NT_dV(xt::xtensor<double, 2>(xt::ones<double>({2, 4})));
    for (size_t e = 0; e < 2; ++e)
        for (size_t i = 0; i < 8; ++i)
            for (size_t j = 0; j < 8; ++j)
                if (i != j) sym_eq(K(e, i, j), 0, "nodal rule gives a diagonal mass matrix");
}
void h_quad4_midpoint()
{
    A3 x = symX<2>(2, "x");
    A2 xi = Element::Quad4::MidPoint::xi();
    assumeRegular<2>(x, xi);
    Q4 q(x, xi, Element::Quad4::MidPoint::w());
    mass<2>(q, xi);
    body<2>(q, xi, 4);
}
void h_hex8()
{
    A3 x = symX<3>(1, "x");
    A2 xi = xt::zeros<double>({1, 3});
    for (int k = 0; k < 3; ++k) xi(0, k) = 0.25 * (k - 1);
    assumeRegular<3>(x, xi);
    H8 q(x, xi, xt::xtensor<double, 1>(2.0 * xt::ones<double>({1})));
    mass<3>(q, xi);
    body<3>(q, xi, 3);
}
void h_hex8_two()
{
    A3 x = distorted<3>(2);
    A2 xi = Element::Hex8::Gauss::xi();
    H8 q(x);
    mass<3>(q, xi);
    body<3>(q, xi, 3);
    body<3>(q, xi, 1);
    A2 xn = Element::Hex8::Nodal::xi();
    H8 n(x, xn, Element::Hex8::Nodal::w());
    mass<3>(n, xn);
    A3 K = n.Int_N_scalar_NT_dV(xt::xtensor<double, 2>(xt::ones<double>({2, 8})));
    for (size_t e = 0; e < 2; ++e)
        for (size_t i = 0; i < 24; ++i)
            for (size_t j = 0; j < 24; ++j)
                if (i != j) sym_eq(K(e, i, j), 0, "nodal rule gives a diagonal mass matrix");
}
void h_many()
{
    A3 x = distorted<2>(35);
    A2 xi = Element::Quad4::Gauss::xi();
    Q4 q(x);
    mass<2>(q, xi);
    body<2>(q, xi, 2);
    QP p(x);
    mass<2>(p, xi);
    QA a(x);
    mass<2>(a, xi);
}
void h_many_hex()
{
    A3 x = distorted<3>(17);
    A2 xi = Element::Hex8::Gauss::xi();
    H8 q(x);
    mass<3>(q, xi);
    body<3>(q, xi, 3);
}
}
