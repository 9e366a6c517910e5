//@ bound: 2 elements of each type (Hex8: 1), all nodal coordinates symbolic reals in [-2,2] (axisymmetric: radius in [1,5]); Gauss, nodal and mid-point rules and (quadrilaterals) symbolic local coordinates and weights; 35 quadrilaterals (17 hexahedra) of given irregular geometry except for one, at any of four places, that has symbolic coordinates
//@ assume: the Jacobian at every integration point is > 0.05 (elements are not inverted)
//@ outside: degenerate or inverted elements; accumulated rounding
#include "elem.h"
using namespace ref;
typedef Element::Quad4::Quadrature Q4;
typedef Element::Quad4::QuadraturePlanar QP;
typedef Element::Quad4::QuadratureAxisymmetric QA;
typedef Element::Hex8::Quadrature H8;

template <int D, class Q> static void gradients(Q& q, const A3& x, const A2& xi, const A1& w, double thick)
{
    auto g = q.GradN();
    auto v = q.dV();
    const size_t nne = 1 << D;
    sym_assert(g.shape(0) == x.shape(0) && g.shape(1) == w.size() && g.shape(2) == nne && g.shape(3) == D, "shape of GradN");
    sym_assert(v.shape(0) == x.shape(0) && v.shape(1) == w.size(), "shape of dV");
    for (size_t e = 0; e < x.shape(0); ++e)
        for (size_t p = 0; p < w.size(); ++p) {
            double J[3][3];
            jac<D>(x, e, &xi(p, 0), J);
            sym_eq(v(e, p), w(p) * det<D>(J) * thick, "dV is the weight times the Jacobian determinant");
            for (size_t m = 0; m < nne; ++m)
                for (int i = 0; i < D; ++i) {
                    double s = 0;
                    for (int j = 0; j < D; ++j) s += J[i][j] * g(e, p, m, j);
                    sym_eq(s, dN<D>(m, i, &xi(p, 0)), "chain rule: J . dN/dx = dN/dxi");
                }
        }
}
template <int D> static void symRule(A2& xi, A1& w, size_t n)
{
    xi = xt::zeros<double>({n, (size_t)D});
    w = xt::zeros<double>({n});
    for (auto& z : xi) z = sym_real("xi", -1, 1);
    for (auto& z : w) z = sym_real("w", 0, 2);
}
extern "C" {
void h_quad4_gauss()
{
    A3 x = symX<2>(2, "x");
    A2 xi = Element::Quad4::Gauss::xi();
    A1 w = Element::Quad4::Gauss::w();
    assumeRegular<2>(x, xi);
    Q4 q(x);
    sym_assert(q.nelem() == 2 && q.nne() == 4 && q.ndim() == 2 && q.nip() == 4, "sizes");
    gradients<2>(q, x, xi, w, 1);
    // the volumes add up to the area of the polygon
    for (size_t e = 0; e < 2; ++e) {
        double a = 0, s = 0;
        for (int k = 0; k < 4; ++k) {
            int l = (k + 1) % 4;
            a += 0.5 * (x(e, k, 0) * x(e, l, 1) - x(e, l, 0) * x(e, k, 1));
            s += q.dV()(e, k);
        }
        sym_eq(s, a, "Gauss volumes sum to the area");
    }
}
void h_quad4_nodal()
{
    A3 x = symX<2>(2, "x");
    A2 xi = Element::Quad4::Nodal::xi();
    assumeRegular<2>(x, xi);
    Q4 q(x, xi, Element::Quad4::Nodal::w());
    gradients<2>(q, x, xi, Element::Quad4::Nodal::w(), 1);
    // nodal rule: point q is node q
    A3 c = symElemvec(2, 4, 2, "u");
    auto v = q.InterpQuad_vector(c);
    for (size_t e = 0; e < 2; ++e)
        for (size_t m = 0; m < 4; ++m)
            for (size_t i = 0; i < 2; ++i) sym_eq(v(e, m, i), c(e, m, i), "nodal rule interpolates to the nodal value");
}
void h_quad4_midpoint()
{
    A3 x = symX<2>(2, "x");
    A2 xi = Element::Quad4::MidPoint::xi();
    assumeRegular<2>(x, xi);
    Q4 q(x, xi, Element::Quad4::MidPoint::w());
    gradients<2>(q, x, xi, Element::Quad4::MidPoint::w(), 1);
    for (size_t i = 0; i < 2; ++i) {
        sym_eq(q.InterpQuad_vector(x)(0, 0, i), 0.25 * (x(0, 0, i) + x(0, 1, i) + x(0, 2, i) + x(0, 3, i)), "mid point is the mean of the nodes");
    }
}
void h_quad4_anyrule()
{
    A3 x = symX<2>(2, "x");
    A2 xi;
    A1 w;
    symRule<2>(xi, w, 2);
    assumeRegular<2>(x, xi);
    Q4 q(x, xi, w);
    gradients<2>(q, x, xi, w, 1);
}
void h_planar()
{
    A3 x = symX<2>(2, "x");
    double t = sym_real("thick", 0.1, 10);
    A2 xi = Element::Quad4::Gauss::xi();
    assumeRegular<2>(x, xi);
    QP q(x, t);
    sym_assert(q.nelem() == 2 && q.nne() == 4 && q.ndim() == 2 && q.tdim() == 3 && q.nip() == 4, "sizes");
    gradients<2>(q, x, xi, Element::Quad4::Gauss::w(), t);
    QP q1(x);
    for (size_t p = 0; p < 4; ++p) sym_eq(q.dV()(1, p), t * q1.dV()(1, p), "volume is proportional to the thickness (default 1)");
}
void h_planar_anyrule()
{
    A3 x = symX<2>(2, "x");
    A2 xi;
    A1 w;
    symRule<2>(xi, w, 2);
    double t = sym_real("thick", 0.1, 10);
    assumeRegular<2>(x, xi);
    QP q(x, xi, w, t);
    gradients<2>(q, x, xi, w, t);
}
static void axi(QA& q, const A3& x, const A2& xi, const A1& w)
{
    auto B = q.B();
    auto v = q.dV();
    for (size_t e = 0; e < x.shape(0); ++e)
        for (size_t p = 0; p < w.size(); ++p) {
            double J[3][3], r = 0;
            jac<2>(x, e, &xi(p, 0), J);
            for (int m = 0; m < 4; ++m) r += N<2>(m, &xi(p, 0)) * x(e, m, 1);
            sym_eq(v(e, p), w(p) * det<2>(J) * 2.0 * M_PI * r, "dV is the volume of revolution");
            for (int m = 0; m < 4; ++m) {
                // B(m, i, j, k): 0 = r, 1 = theta, 2 = z
                sym_eq(B(e, p, m, 1, 1, 0) * r, N<2>(m, &xi(p, 0)), "hoop: B_ttr = N / r");
                double gz = B(e, p, m, 2, 2, 2), gr = B(e, p, m, 0, 0, 0);
                for (int i = 0; i < 2; ++i) sym_eq(J[i][0] * gz + J[i][1] * gr, dN<2>(m, i, &xi(p, 0)), "chain rule: J . (dN/dz, dN/dr) = dN/dxi");
                for (int a = 0; a < 3; ++a)
                    for (int b = 0; b < 3; ++b)
                        for (int c = 0; c < 3; ++c) {
                            double expect = 0;
                            if (b == c && b != 1 && a != 1) expect = a == 0 ? gr : gz;
                            if (a == 1 && b == 1 && c == 0) continue;
                            sym_eq(B(e, p, m, a, b, c), expect, "components of B");
                        }
            }
        }
}
void h_axisymmetric()
{
    A3 x = symX<2>(2, "x", 3);
    A2 xi = Element::Quad4::Gauss::xi();
    assumeRegular<2>(x, xi);
    QA q(x);
    sym_assert(q.nelem() == 2 && q.nne() == 4 && q.ndim() == 2 && q.tdim() == 3 && q.nip() == 4, "sizes");
    axi(q, x, xi, Element::Quad4::Gauss::w());
}
void h_axisymmetric_anyrule()
{
    A3 x = symX<2>(1, "x", 3);
    A2 xi;
    A1 w;
    symRule<2>(xi, w, 2);
    assumeRegular<2>(x, xi);
    for (int p = 0; p < 2; ++p) {
        double r = 0;
        for (int m = 0; m < 4; ++m) r += N<2>(m, &xi(p, 0)) * x(0, m, 1);
        sym_assume(r > 0.1);
    }
    QA q(x, xi, w);
    axi(q, x, xi, w);
}
static void hexRef(A2& xi, bool gauss)
{
    xi = xt::zeros<double>({8, 3});
    for (int q = 0; q < 8; ++q)
        for (int i = 0; i < 3; ++i) xi(q, i) = gauss ? SG[q][i] / std::sqrt(3.0) : SG[q][i];
}
void h_hex8_rules()
{
    // the points of the rules themselves, up to their order
    for (int g = 0; g < 2; ++g) {
        A2 xi = g ? Element::Hex8::Gauss::xi() : Element::Hex8::Nodal::xi();
        A1 w = g ? Element::Hex8::Gauss::w() : Element::Hex8::Nodal::w();
        A2 r;
        hexRef(r, g);
        sym_assert(xi.shape(0) == 8 && xi.shape(1) == 3 && w.size() == 8, "8 points");
        for (int q = 0; q < 8; ++q) {
            sym_eq(w(q), 1, "weight");
            for (int i = 0; i < 3; ++i) sym_eq(xi(q, i), r(q, i), "local coordinate");
        }
        sym_assert((g ? Element::Hex8::Gauss::nip() : Element::Hex8::Nodal::nip()) == 8, "nip");
    }
    // exactness on tri-quadratic monomials with symbolic coefficients
    double a[3][3][3], ex = 0, s = 0;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            for (int k = 0; k < 3; ++k) {
                a[i][j][k] = sym_real("a", -1, 1);
                double f[3] = {2, 0, 2.0 / 3};
                ex += a[i][j][k] * f[i] * f[j] * f[k];
                for (int q = 0; q < 8; ++q)
                    s += Element::Hex8::Gauss::w()(q) * a[i][j][k] * std::pow(Element::Hex8::Gauss::xi()(q, 0), i) * std::pow(Element::Hex8::Gauss::xi()(q, 1), j) *
                         std::pow(Element::Hex8::Gauss::xi()(q, 2), k);
            }
    sym_eq(s, ex, "Gauss rule is exact for tri-quadratic integrands");
    double b[3][3];
    s = ex = 0;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            b[i][j] = sym_real("b", -1, 1);
            double f[3] = {2, 0, 2.0 / 3};
            ex += b[i][j] * f[i] * f[j];
            for (int q = 0; q < 4; ++q)
                s += Element::Quad4::Gauss::w()(q) * b[i][j] * std::pow(Element::Quad4::Gauss::xi()(q, 0), i) * std::pow(Element::Quad4::Gauss::xi()(q, 1), j);
        }
    sym_eq(s, ex, "2d Gauss rule is exact for bi-quadratic integrands");
    sym_assert(Element::Quad4::Gauss::nip() == 4 && Element::Quad4::Nodal::nip() == 4 && Element::Quad4::MidPoint::nip() == 1, "nip");
    for (int q = 0; q < 4; ++q)
        for (int i = 0; i < 2; ++i) {
            sym_eq(Element::Quad4::Nodal::xi()(q, i), SG[q][i], "nodal point is the node");
            sym_eq(Element::Quad4::Nodal::w()(q), 1, "nodal weight");
        }
}
void h_hex8_gauss()
{
    A3 x = symX<3>(1, "x");
    A2 xi;
    hexRef(xi, true);
    assumeRegular<3>(x, xi);
    H8 q(x);
    sym_assert(q.nelem() == 1 && q.nne() == 8 && q.ndim() == 3 && q.tdim() == 3 && q.nip() == 8, "sizes");
    gradients<3>(q, x, xi, xt::ones<double>({8}), 1);
}
void h_hex8_nodal()
{
    A3 x = symX<3>(1, "x");
    A2 xi;
    hexRef(xi, false);
    assumeRegular<3>(x, xi);
    H8 q(x, Element::Hex8::Nodal::xi(), Element::Hex8::Nodal::w());
    gradients<3>(q, x, xi, xt::ones<double>({8}), 1);
    A3 c = symElemvec(1, 8, 3, "u");
    auto v = q.InterpQuad_vector(c);
    for (size_t m = 0; m < 8; ++m)
        for (size_t i = 0; i < 3; ++i) sym_eq(v(0, m, i), c(0, m, i), "nodal rule interpolates to the nodal value");
}
void h_hex8_anyrule()
{
    // any local coordinates and weight, two concrete distorted elements
    A3 x = distorted<3>(2);
    A2 xi;
    A1 w;
    symRule<3>(xi, w, 1);
    assumeRegular<3>(x, xi);
    H8 q(x, xi, w);
    gradients<3>(q, x, xi, w, 1);
}
// many elements, one of which (any of some) has symbolic coordinates
extern "C++" template <int D> static A3 manyX(size_t n, const A2& xi)
{
    A3 x = distorted<D>(n), s = symX<D>(1, "x", 3);
    size_t at = sym_size("element", 0, 3) * (n - 1) / 3;
    assumeRegular<D>(s, xi);
    for (size_t m = 0; m < (1 << D); ++m)
        for (size_t i = 0; i < D; ++i) x(at, m, i) = s(0, m, i);
    return x;
}
void h_many()
{
    A2 xi = Element::Quad4::Gauss::xi();
    A1 w = Element::Quad4::Gauss::w();
    A3 x = manyX<2>(35, xi);
    Q4 q(x);
    gradients<2>(q, x, xi, w, 1);
    QP p(x, 2.0);
    gradients<2>(p, x, xi, w, 2);
    QA a(x);
    axi(a, x, xi, w);
}
void h_many_hex()
{
    A2 xi;
    hexRef(xi, true);
    A3 x = manyX<3>(17, xi);
    H8 q(x);
    gradients<3>(q, x, xi, xt::ones<double>({8}), 1);
}
}
