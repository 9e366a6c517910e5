//@ bound: two objects of different rule, size and geometry used alternately; 2 elements (Hex8: 1), every history of up to three geometry updates of one object, nodal coordinates of every configuration symbolic reals; 35 quadrilaterals (17 hexahedra) of given irregular geometry with symbolic fields, any of which changes in an update
//@ assume: the Jacobian at every integration point is > 0.05 in every configuration
//@ outside: longer histories (each update depends only on the object's stored rule and the new coordinates)
#include "elem.h"
using namespace ref;
typedef Element::Quad4::Quadrature Q4;
typedef Element::Quad4::QuadraturePlanar QP;
typedef Element::Quad4::QuadratureAxisymmetric QA;
typedef Element::Hex8::Quadrature H8;
template <class A> static void same(const A& a, const A& b, const char* msg)
{
    sym_assert(a.size() == b.size() && a.shape() == b.shape(), msg);
    auto i = a.begin();
    for (auto j = b.begin(); j != b.end(); ++j, ++i) sym_eq(*i, *j, msg);
}
template <class Q> static void sameState(const Q& a, const Q& b, const A3& u)
{
    same(a.dV(), b.dV(), "volume after an update equals that of a fresh object");
    same(a.GradN_vector(u), b.GradN_vector(u), "gradient after an update");
    same(a.SymGradN_vector(u), b.SymGradN_vector(u), "strain after an update");
    same(a.InterpQuad_vector(u), b.InterpQuad_vector(u), "interpolation after an update");
    A4 s = a.GradN_vector(u);
    same(a.Int_gradN_dot_tensor2_dV(s), b.Int_gradN_dot_tensor2_dV(s), "force after an update");
    A2 r = a.dV();
    same(a.Int_N_scalar_NT_dV(r), b.Int_N_scalar_NT_dV(r), "mass after an update");
}
template <class Q, class F> static void history(F make, const A3& x0, const A3& x1, const A3& u)
{
    size_t n = sym_size("updates", 0, 3);
    Q q = make(x0);
    const A3* cur = &x0;
    for (size_t k = 0; k < n; ++k) {
        const A3* nx = sym_size("which", 0, 1) ? &x1 : &x0;
        q.update_x(*nx);
        cur = nx;
    }
    sameState(q, make(*cur), u);
    // a copy is independent of the original
    Q c = q;
    c.update_x(x1);
    sameState(q, make(*cur), u);
}
extern "C" {
void h_quad4()
{
    A3 x0 = symX<2>(2, "x"), x1 = symX<2>(2, "y"), u = symElemvec(2, 4, 2, "u");
    A2 xi = Element::Quad4::Gauss::xi();
    assumeRegular<2>(x0, xi);
    assumeRegular<2>(x1, xi);
    history<Q4>([](const A3& x) { return Q4(x); }, x0, x1, u);
}
void h_planar()
{
    A3 x0 = symX<2>(2, "x"), x1 = symX<2>(2, "y"), u = symElemvec(2, 4, 2, "u");
    A2 xi = Element::Quad4::Gauss::xi();
    assumeRegular<2>(x0, xi);
    assumeRegular<2>(x1, xi);
    double t = sym_real("thick", 0.5, 2);
    history<QP>([=](const A3& x) { return QP(x, t); }, x0, x1, u);
}
void h_axisymmetric()
{
    A3 x0 = symX<2>(2, "x", 3), x1 = symX<2>(2, "y", 3), u = symElemvec(2, 4, 2, "u");
    A2 xi = Element::Quad4::Gauss::xi();
    assumeRegular<2>(x0, xi);
    assumeRegular<2>(x1, xi);
    history<QA>([](const A3& x) { return QA(x); }, x0, x1, u);
}
void h_hex8()
{
    A3 x0 = symX<3>(1, "x"), x1 = distorted<3>(1), u = symElemvec(1, 8, 3, "u");
    A2 xi = Element::Hex8::Gauss::xi();
    assumeRegular<3>(x0, xi);
    history<H8>([](const A3& x) { return H8(x); }, x0, x1, u);
}
void h_quad4_rules()
{
    A3 x0 = symX<2>(2, "x"), x1 = symX<2>(2, "y"), u = symElemvec(2, 4, 2, "u");
    A2 xi = Element::Quad4::Nodal::xi();
    assumeRegular<2>(x0, xi);
    assumeRegular<2>(x1, xi);
    history<Q4>([=](const A3& x) { return Q4(x, xi, Element::Quad4::Nodal::w()); }, x0, x1, u);
}
}
// small displacements: any new geometry within 1/16 of a given one, in each coordinate
template <class Q, int D> static void small(size_t nne)
{
    A3 x0 = distorted<D>(1), x1 = x0, u = symElemvec(1, nne, D, "u");
    for (auto& v : x1) v += sym_realh("d", -0.0625, 0.0625, 0.001);
    Q q(x0);
    q.update_x(x1);
    sameState(q, Q{x1}, u);
    q.update_x(x0);
    sameState(q, Q{x0}, u);
}
extern "C" {
void h_near()
{
    switch (sym_size("type", 0, 3)) {
    case 0: return small<Q4, 2>(4);
    case 1: return small<QP, 2>(4);
    case 2: return small<QA, 2>(4);
    default: return small<H8, 3>(8);
    }
}
// many elements, of which some have other positions after the update
extern "C++" template <class Q, int D> static void many(size_t n)
{
    A3 x = distorted<D>(n), y = x, u = symElemvec(n, 1 << D, D, "u");
    size_t from = sym_size("first changed", 0, 3) * (n - 1) / 3;
    for (size_t e = from; e < n; e += 5)
        for (size_t m = 0; m < (1 << D); ++m)
            for (size_t i = 0; i < D; ++i) y(e, m, i) = 1.5 * x(e, m, i) + 0.03125 * ((m * 5 + i * 3 + e) % 7);
    Q q(x);
    q.update_x(y);
    sameState(q, Q{y}, u);
}
void h_many()
{
    switch (sym_size("type", 0, 3)) {
    case 0: return many<Q4, 2>(35);
    case 1: return many<QP, 2>(35);
    case 2: return many<QA, 2>(35);
    default: return many<H8, 3>(17);
    }
}
}
// several objects, of different rules and sizes, that are used and updated alternately
template <class Q> struct State {
    A2 v, m;
    A3 I, f, n;
    A4 G, T, S;
    State(const Q& q, const A3& u) : v(q.dV()), m(), I(q.InterpQuad_vector(u)), G(q.GradN_vector(u)), T(q.GradN_vector_T(u)), S(q.SymGradN_vector(u))
    {
        f = q.Int_gradN_dot_tensor2_dV(G);
        n = q.Int_N_scalar_NT_dV(v);
    }
    void operator==(const State& o) const
    {
        same(v, o.v, "volume, with another object in use");
        same(I, o.I, "interpolation, with another object in use");
        same(G, o.G, "gradient, with another object in use");
        same(T, o.T, "transposed gradient, with another object in use");
        same(S, o.S, "strain, with another object in use");
        same(f, o.f, "force, with another object in use");
        same(n, o.n, "mass, with another object in use");
    }
};
template <class Q, int D, class F> static void two(F make, const A2& xa, const A1& wa, const A2& xb, const A1& wb)
{
    A3 x = distorted<D>(1), y = distorted<D>(3), x1 = 1.5 * x, y1 = 1.25 * y;
    A3 ua = symElemvec(1, 1 << D, D, "u"), ub = symElemvec(3, 1 << D, D, "u");
    Q a = make(x, xa, wa, 0);
    State<Q> sa(a, ua);
    Q b = make(y, xb, wb, 1);
    State<Q> sb(b, ub);
    State<Q>(a, ua) == sa;
    State<Q>(b, ub) == sb;
    a.update_x(x1);
    State<Q>(b, ub) == sb;
    b.update_x(y1);
    a.update_x(x);
    State<Q>(a, ua) == sa;
    b.update_x(y);
    State<Q>(b, ub) == sb;
    Q c = a;
    a = b;
    b.update_x(y1);
    State<Q>(a, ub) == sb;
    State<Q>(c, ua) == sa;
    c.update_x(x1);
    c.update_x(x);
    State<Q>(c, ua) == sa;
}
extern "C" {
void h_two()
{
    namespace E4 = Element::Quad4;
    namespace E8 = Element::Hex8;
    switch (sym_size("type", 0, 3)) {
    case 0: return two<Q4, 2>([](const A3& x, const A2& xi, const A1& w, int) { return Q4(x, xi, w); }, E4::Gauss::xi(), E4::Gauss::w(), E4::Nodal::xi(), E4::Nodal::w());
    case 1: return two<QP, 2>([](const A3& x, const A2& xi, const A1& w, int k) { return QP(x, xi, w, k ? 2.0 : 0.5); }, E4::Nodal::xi(), E4::Nodal::w(), E4::MidPoint::xi(), E4::MidPoint::w());
    case 2: return two<QA, 2>([](const A3& x, const A2& xi, const A1& w, int) { return QA(x, xi, w); }, E4::MidPoint::xi(), E4::MidPoint::w(), E4::Gauss::xi(), E4::Gauss::w());
    default: return two<H8, 3>([](const A3& x, const A2& xi, const A1& w, int) { return H8(x, xi, w); }, E8::Gauss::xi(), E8::Gauss::w(), E8::Nodal::xi(), E8::Nodal::w());
    }
}
}
