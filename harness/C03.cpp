//@ bound: 2 elements (Hex8: 1-2), nodal coordinates, nodal vectors and stresses symbolic reals; 35 quadrilaterals (17 hexahedra) of given irregular geometry with symbolic fields
//@ assume: the Jacobian at every integration point is > 0.05 (elements are not inverted)
//@ outside: degenerate or inverted elements; accumulated rounding
#include "elem.h"
using namespace ref;
typedef Element::Quad4::Quadrature Q4;
typedef Element::Quad4::QuadraturePlanar QP;
typedef Element::Quad4::QuadratureAxisymmetric QA;
typedef Element::Hex8::Quadrature H8;
template <class Q> static A4 symStress(const Q& q, const char* name)
{
    A4 s = xt::zeros<double>({(size_t)q.nelem(), (size_t)q.nip(), (size_t)q.tdim(), (size_t)q.tdim()});
    for (auto& v : s) v = sym_real(name, -1, 1);
    return s;
}
// nodal force of one unit virtual displacement at a time: f(m, j) = sum_q sigma : grad(delta u) dV
template <class Q> static void duality(const Q& q, const A4& sig)
{
    const size_t E = q.nelem(), P = q.nip(), M = q.nne(), D = q.ndim(), T = q.tdim();
    A3 f = q.Int_gradN_dot_tensor2_dV(sig);
    A3 f2 = 3.0 * xt::ones<double>({E, M, D});
    q.int_gradN_dot_tensor2_dV(sig, f2);
    sym_assert(f.shape(0) == E && f.shape(1) == M && f.shape(2) == D, "shape");
    auto v = q.dV();
    for (size_t m = 0; m < M; ++m)
        for (size_t j = 0; j < D; ++j) {
            A3 du = xt::zeros<double>({E, M, D});
            for (size_t e = 0; e < E; ++e) du(e, m, j) = 1;
            A4 g = q.GradN_vector(du);
            for (size_t e = 0; e < E; ++e) {
                double w = 0;
                for (size_t p = 0; p < P; ++p)
                    for (size_t a = 0; a < T; ++a)
                        for (size_t b = 0; b < T; ++b) w += sig(e, p, a, b) * g(e, p, a, b) * v(e, p);
                sym_eq(f(e, m, j), w, "internal force is the virtual work of the stress");
                sym_eq(f2(e, m, j), f(e, m, j), "in-place version");
            }
        }
}
template <class Q> static void balance(const Q& q, const A4& sig)
{
    A3 f = q.Int_gradN_dot_tensor2_dV(sig);
    for (size_t e = 0; e < q.nelem(); ++e)
        for (size_t j = 0; j < q.ndim(); ++j) {
            double s = 0;
            for (size_t m = 0; m < q.nne(); ++m) s += f(e, m, j);
            sym_eqtol(s, 0, 1e-8, "element forces are in equilibrium");
        }
}
// moment balance for symmetric stress: sum_m x_m x f_m = 0
template <class Q> static void moment(const Q& q, const A3& x, A4 sig)
{
    const size_t T = q.tdim(), D = q.ndim();
    for (size_t e = 0; e < q.nelem(); ++e)
        for (size_t p = 0; p < q.nip(); ++p)
            for (size_t i = 0; i < T; ++i)
                for (size_t j = 0; j < i; ++j) sig(e, p, i, j) = sig(e, p, j, i);
    A3 f = q.Int_gradN_dot_tensor2_dV(sig);
    for (size_t e = 0; e < q.nelem(); ++e)
        for (size_t i = 0; i < D; ++i)
            for (size_t j = 0; j < i; ++j) {
                double s = 0;
                for (size_t m = 0; m < q.nne(); ++m) s += x(e, m, i) * f(e, m, j) - x(e, m, j) * f(e, m, i);
                sym_eqtol(s, 0, 1e-8, "no net moment from a symmetric stress");
            }
}
extern "C" {
void h_quad4()
{
    A3 x = symX<2>(2, "x");
    assumeRegular<2>(x, Element::Quad4::Gauss::xi());
    Q4 q(x);
    A4 s = symStress(q, "s");
    duality(q, s);
    balance(q, s);
    moment(q, x, s);
}
void h_quad4_rules()
{
    A3 x = symX<2>(2, "x");
    A2 xi = Element::Quad4::Nodal::xi(), xm = Element::Quad4::MidPoint::xi();
    assumeRegular<2>(x, xi);
    assumeRegular<2>(x, xm);
    Q4 q(x, xi, Element::Quad4::Nodal::w()), m(x, xm, Element::Quad4::MidPoint::w());
    duality(q, symStress(q, "s"));
    duality(m, symStress(m, "t"));
}
void h_planar()
{
    A3 x = symX<2>(2, "x");
    assumeRegular<2>(x, Element::Quad4::Gauss::xi());
    QP q(x, sym_real("thick", 0.5, 2));
    A4 s = symStress(q, "s");
    duality(q, s);
    balance(q, s);
    moment(q, x, s);
}
void h_axisymmetric()
{
    A3 x = symX<2>(2, "x", 3);
    assumeRegular<2>(x, Element::Quad4::Gauss::xi());
    QA q(x);
    A4 s = symStress(q, "s");
    duality(q, s);
    // axial equilibrium
    A3 f = q.Int_gradN_dot_tensor2_dV(s);
    for (size_t e = 0; e < 2; ++e) sym_eqtol(f(e, 0, 0) + f(e, 1, 0) + f(e, 2, 0) + f(e, 3, 0), 0, 1e-7, "axial forces are in equilibrium");
}
void h_hex8()
{
    A3 x = symX<3>(1, "x");
    A2 xi = xt::zeros<double>({2, 3});
    for (int k = 0; k < 3; ++k) {
        xi(0, k) = 0.25 * (k - 1);
        xi(1, k) = -0.5 + 0.125 * k;
    }
    assumeRegular<3>(x, xi);
    H8 q(x, xi, xt::xtensor<double, 1>(2.0 * xt::ones<double>({2})));
    A4 s = symStress(q, "s");
    duality(q, s);
    balance(q, s);
}
void h_hex8_gauss()
{
    A3 x = distorted<3>(2);
    H8 q(x);
    A4 s = symStress(q, "s");
    duality(q, s);
    balance(q, s);
    moment(q, x, s);
}
void h_many()
{
    A3 x = distorted<2>(35);
    Q4 q(x);
    duality(q, symStress(q, "s"));
    QP p(x);
    duality(p, symStress(p, "s"));
    QA a(x);
    duality(a, symStress(a, "s"));
}
void h_many_hex()
{
    A3 x = distorted<3>(17);
    H8 q(x);
    duality(q, symStress(q, "s"));
}
}
