//@ bound: 2 elements (Hex8: 1-2), nodal coordinates, nodal vectors and gradients symbolic reals; all integration rules of the library; 35 quadrilaterals (17 hexahedra) of given irregular geometry with symbolic fields
//@ assume: the Jacobian at every integration point is > 0.05 (elements are not inverted)
//@ outside: degenerate or inverted elements; accumulated rounding
#include "elem.h"
using namespace ref;
typedef Element::Quad4::Quadrature Q4;
typedef Element::Quad4::QuadraturePlanar QP;
typedef Element::Quad4::QuadratureAxisymmetric QA;
typedef Element::Hex8::Quadrature H8;

// operators against their definition in terms of the shape functions and their gradients
template <int D, class Q> static void operators(Q& q, const A3& u, const A2& xi)
{
    const size_t nne = 1 << D, E = q.nelem(), P = q.nip(), T = q.tdim();
    auto g = q.GradN();
    A4 G = q.GradN_vector(u), GT = q.GradN_vector_T(u), S = q.SymGradN_vector(u);
    A3 I = q.InterpQuad_vector(u);
    sym_assert(G.shape(0) == E && G.shape(1) == P && G.shape(2) == T && G.shape(3) == T && S.shape(3) == T && GT.shape(3) == T, "shape of the gradients");
    // overwriting versions must not depend on the previous content
    A4 G2 = q.template AsTensor<2>(xt::xtensor<double, 2>(xt::ones<double>({E, P}))), GT2 = 3.0 * G2, S2 = 5.0 * G2;
    A3 I2 = 7.0 * xt::ones<double>({E, P, (size_t)D});
    q.gradN_vector(u, G2);
    q.gradN_vector_T(u, GT2);
    q.symGradN_vector(u, S2);
    q.interpQuad_vector(u, I2);
    for (size_t e = 0; e < E; ++e)
        for (size_t p = 0; p < P; ++p) {
            for (size_t i = 0; i < T; ++i)
                for (size_t j = 0; j < T; ++j) {
                    double r = 0;
                    if (i < D && j < D)
                        for (size_t m = 0; m < nne; ++m) r += g(e, p, m, i) * u(e, m, j);
                    sym_eq(G(e, p, i, j), r, "grad(i,j) = d u_j / d x_i");
                    sym_eq(GT(e, p, j, i), r, "transposed gradient");
                    sym_eq(S(e, p, i, j), 0.5 * (G(e, p, i, j) + G(e, p, j, i)), "symmetric part");
                    sym_eq(G2(e, p, i, j), G(e, p, i, j), "in-place gradient");
                    sym_eq(GT2(e, p, i, j), GT(e, p, i, j), "in-place transposed gradient");
                    sym_eq(S2(e, p, i, j), S(e, p, i, j), "in-place symmetric gradient");
                }
            for (size_t i = 0; i < D; ++i) {
                double r = 0;
                for (size_t m = 0; m < nne; ++m) r += N<D>(m, &xi(p, 0)) * u(e, m, i);
                sym_eq(I(e, p, i), r, "interpolation");
                sym_eq(I2(e, p, i), r, "in-place interpolation");
            }
        }
}
// exactness for linear fields: u_j = a_j + b_kj x_k
template <int D, class Q> static void linear(Q& q, const A3& x, const A2& xi)
{
    const size_t nne = 1 << D, E = q.nelem(), P = q.nip(), T = q.tdim();
    double a[3], b[3][3];
    for (int j = 0; j < D; ++j) {
        a[j] = sym_real("a", -1, 1);
        for (int k = 0; k < D; ++k) b[k][j] = sym_real("b", -1, 1);
    }
    A3 u = xt::zeros<double>({E, nne, (size_t)D});
    for (size_t e = 0; e < E; ++e)
        for (size_t m = 0; m < nne; ++m)
            for (int j = 0; j < D; ++j) {
                u(e, m, j) = a[j];
                for (int k = 0; k < D; ++k) u(e, m, j) += b[k][j] * x(e, m, k);
            }
    A4 G = q.GradN_vector(u), S = q.SymGradN_vector(u);
    A3 I = q.InterpQuad_vector(u), X = q.InterpQuad_vector(x);
    for (size_t e = 0; e < E; ++e)
        for (size_t p = 0; p < P; ++p) {
            for (size_t i = 0; i < T; ++i)
                for (size_t j = 0; j < T; ++j) {
                    bool in = i < D && j < D;
                    sym_eq(G(e, p, i, j), in ? b[i][j] : 0.0, "gradient of a linear field is its constant gradient");
                    sym_eq(S(e, p, i, j), in ? 0.5 * (b[i][j] + b[j][i]) : 0.0, "strain of a linear field");
                }
            for (int j = 0; j < D; ++j) {
                double r = a[j];
                for (int k = 0; k < D; ++k) r += b[k][j] * X(e, p, k);
                sym_eq(I(e, p, j), r, "interpolation of a linear field is exact");
            }
        }
}
// interpolation of nodal vectors with any number of components (the shared implementation)
template <int D, class Q> static void components(const Q& q, const A2& xi, size_t n)
{
    const size_t nne = 1 << D, E = q.nelem(), P = q.nip();
    A3 f = symElemvec(E, nne, n, "f");
    A3 I = q.InterpQuad_vector(f);
    sym_assert(I.shape(0) == E && I.shape(1) == P && I.shape(2) == n, "shape of the interpolated vector");
    for (size_t e = 0; e < E; ++e)
        for (size_t p = 0; p < P; ++p)
            for (size_t i = 0; i < n; ++i) {
                double r = 0;
                for (size_t m = 0; m < nne; ++m) r += N<D>(m, &xi(p, 0)) * f(e, m, i);
                sym_eq(I(e, p, i), r, "interpolation of n components");
            }
}
extern "C" {
void h_components()
{
    size_t n = sym_size("n", 1, 4);
    A3 x = symX<2>(2, "x", 3), y = symX<3>(2, "y");
    A2 xi = Element::Quad4::Gauss::xi(), yi = Element::Hex8::Gauss::xi();
    assumeRegular<2>(x, xi);
    assumeRegular<3>(y, yi);
    components<2>(QP(x), xi, n);
    components<2>(QA(x), xi, n);
    components<3>(H8(y), yi, n);
}
void h_quad4()
{
    A3 x = symX<2>(2, "x");
    A2 xi = Element::Quad4::Gauss::xi();
    assumeRegular<2>(x, xi);
    Q4 q(x);
    operators<2>(q, symElemvec(2, 4, 2, "u"), xi);
    linear<2>(q, x, xi);
}
void h_quad4_rules()
{
    A3 x = symX<2>(2, "x"), u = symElemvec(2, 4, 2, "u");
    for (int k = 0; k < 2; ++k) {
        A2 xi = k ? Element::Quad4::Nodal::xi() : Element::Quad4::MidPoint::xi();
        A1 w = k ? Element::Quad4::Nodal::w() : Element::Quad4::MidPoint::w();
        assumeRegular<2>(x, xi);
        Q4 q(x, xi, w);
        operators<2>(q, u, xi);
        QP p(x, xi, w, 2.0);
        operators<2>(p, u, xi);
    }
}
void h_planar()
{
    A3 x = symX<2>(2, "x");
    A2 xi = Element::Quad4::Gauss::xi();
    assumeRegular<2>(x, xi);
    QP q(x, sym_real("thick", 0.5, 2));
    sym_assert(q.tdim() == 3, "tensors are three-dimensional");
    operators<2>(q, symElemvec(2, 4, 2, "u"), xi);
    linear<2>(q, x, xi);
}
void h_axisymmetric()
{
    A3 x = symX<2>(2, "x", 3), u = symElemvec(2, 4, 2, "u");
    A2 xi = Element::Quad4::Gauss::xi();
    assumeRegular<2>(x, xi);
    QA q(x);
    auto& B = q.B();
    A4 G = q.GradN_vector(u), GT = q.GradN_vector_T(u), S = q.SymGradN_vector(u);
    A4 G2 = 2.0 * xt::ones<double>(G.shape()), GT2 = G2, S2 = G2;
    q.gradN_vector(u, G2);
    q.gradN_vector_T(u, GT2);
    q.symGradN_vector(u, S2);
    for (size_t e = 0; e < 2; ++e)
        for (size_t p = 0; p < 4; ++p)
            for (size_t i = 0; i < 3; ++i)
                for (size_t j = 0; j < 3; ++j) {
                    double r = 0;  // gradu(i,j) = sum_m B(m,i,j,k) u(m,perm(k)): k = 0 -> radial (1), k = 2 -> axial (0)
                    for (size_t m = 0; m < 4; ++m) r += B(e, p, m, i, j, 0) * u(e, m, 1) + B(e, p, m, i, j, 2) * u(e, m, 0);
                    sym_eq(G(e, p, i, j), r, "gradient from B");
                    sym_eq(GT(e, p, j, i), r, "transposed gradient");
                    sym_eq(S(e, p, i, j), 0.5 * (G(e, p, i, j) + G(e, p, j, i)), "symmetric part");
                    sym_eq(G2(e, p, i, j), G(e, p, i, j), "in-place gradient");
                    sym_eq(GT2(e, p, i, j), GT(e, p, i, j), "in-place transposed gradient");
                    sym_eq(S2(e, p, i, j), S(e, p, i, j), "in-place symmetric gradient");
                }
    A3 I = q.InterpQuad_vector(u);
    for (size_t e = 0; e < 2; ++e)
        for (size_t p = 0; p < 4; ++p)
            for (size_t i = 0; i < 2; ++i) {
                double r = 0;
                for (size_t m = 0; m < 4; ++m) r += N<2>(m, &xi(p, 0)) * u(e, m, i);
                sym_eq(I(e, p, i), r, "interpolation");
            }
}
void h_axisymmetric_linear()
{
    // u_z = a + b z + c r, u_r = d z + f r: constant gradient, hoop strain u_r / r
    A3 x = symX<2>(1, "x", 3);
    A2 xi = Element::Quad4::Gauss::xi();
    assumeRegular<2>(x, xi);
    QA q(x);
    double a = sym_real("a", -1, 1), b = sym_real("b", -1, 1), c = sym_real("c", -1, 1), d = sym_real("d", -1, 1), f = sym_real("f", -1, 1);
    A3 u = xt::zeros<double>({1, 4, 2});
    for (int m = 0; m < 4; ++m) {
        u(0, m, 0) = a + b * x(0, m, 0) + c * x(0, m, 1);
        u(0, m, 1) = d * x(0, m, 0) + f * x(0, m, 1);
    }
    A4 G = q.GradN_vector(u);
    for (int p = 0; p < 4; ++p) {
        double r = 0, ur = 0;
        for (int m = 0; m < 4; ++m) {
            r += N<2>(m, &xi(p, 0)) * x(0, m, 1);
            ur += N<2>(m, &xi(p, 0)) * u(0, m, 1);
        }
        sym_eq(G(0, p, 0, 0), f, "d u_r / d r");
        sym_eq(G(0, p, 0, 2), c, "d u_z / d r");
        sym_eq(G(0, p, 2, 0), d, "d u_r / d z");
        sym_eq(G(0, p, 2, 2), b, "d u_z / d z");
        sym_eq(G(0, p, 1, 1) * r, ur, "hoop strain is u_r / r");
    }
}
void h_hex8()
{
    A3 x = symX<3>(1, "x");
    A2 xi = Element::Hex8::Gauss::xi();
    assumeRegular<3>(x, xi);
    H8 q(x);
    operators<3>(q, symElemvec(1, 8, 3, "u"), xi);
}
void h_hex8_linear()
{
    A3 x = symX<3>(1, "x");
    A2 xi = xt::zeros<double>({1, 3});
    for (int k = 0; k < 3; ++k) xi(0, k) = 0.25 * (k - 1);
    assumeRegular<3>(x, xi);
    H8 q(x, xi, xt::xtensor<double, 1>(xt::ones<double>({1})));
    linear<3>(q, x, xi);
}
void h_hex8_two()
{
    A3 x = distorted<3>(2);
    H8 q(x);
    A2 xi = Element::Hex8::Gauss::xi();
    operators<3>(q, symElemvec(2, 8, 3, "u"), xi);
    linear<3>(q, x, xi);
}
void h_many()
{
    A3 x = distorted<2>(35), u = symElemvec(35, 4, 2, "u");
    A2 xi = Element::Quad4::Gauss::xi();
    Q4 q(x);
    operators<2>(q, u, xi);
    QP p(x);
    operators<2>(p, u, xi);
    QA a(x);
    components<2>(a, xi, 2);
}
void h_many_hex()
{
    A3 x = distorted<3>(17);
    A2 xi = Element::Hex8::Gauss::xi();
    H8 q(x);
    operators<3>(q, symElemvec(17, 8, 3, "u"), xi);
}
}
