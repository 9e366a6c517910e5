//@ bound: element objects of 0 to 3 elements with 1 to 5 integration points, ranks 0 to 4, other tensor dimensions 0 to 4; AsTensor: arguments of rank 1 to 3 with 0 to 3 entries per axis, tensor ranks 0 to 4, 1 to 3 components per axis; as3d: 0 to 4 vectors; all field values symbolic
//@ outside: arguments without strides (lazy expressions do not compile)
#include "arr.h"
#include "elem.h"
using namespace GooseFEM;
using namespace GooseFEM::Element;
using namespace ref;
static std::vector<size_t> vec(std::initializer_list<size_t> a, size_t rank = 0, size_t n = 0)
{
    std::vector<size_t> r(a);
    r.insert(r.end(), rank, n);
    return r;
}
template <class A> static void filled(const A& a, double val, const std::vector<size_t>& shape, const char* msg)
{
    sameShape(a, shape, msg);
    for (auto v : a) sym_eq(v, val, "allocated with the requested value");
}
template <size_t rank, class Q> static void qtensor(const Q& q, size_t nelem, size_t nip, size_t tdim, size_t arg, double val)
{
    auto s = vec({nelem, nip}, rank, tdim), t = vec({nelem, nip}, rank, arg);
    auto same1 = [](auto a, const std::vector<size_t>& b, const char* m) {
        sym_equ(a.size(), b.size(), m);
        for (size_t k = 0; k < b.size(); ++k) sym_equ(a[k], b[k], m);
    };
    same1(q.template shape_qtensor<rank>(), s, "shape_qtensor");
    same1(q.shape_qtensor(rank), s, "shape_qtensor");
    same1(q.template shape_qtensor<rank>(rank, arg), t, "shape_qtensor of another size");
    same1(q.shape_qtensor(rank, arg), t, "shape_qtensor of another size");
    sameShape(q.template allocate_qtensor<rank, double>(), s, "allocate_qtensor");
    sameShape(q.template allocate_qtensor<double>(rank), s, "allocate_qtensor");
    filled(q.template allocate_qtensor<rank>(val), val, s, "allocate_qtensor");
    filled(q.allocate_qtensor(rank, val), val, s, "allocate_qtensor");
    A2 arr = A2::from_shape({nelem, nip});
    for (auto& v : arr) v = sym_real("scalar", -1, 1);
    auto a = q.template AsTensor<rank>(arr);
    auto b = q.AsTensor(rank, arr);
    auto c = q.template allocate_qtensor<rank, double>();
    q.asTensor(arr, c);
    sameShape(a, s, "AsTensor");
    sameShape(b, s, "AsTensor");
    size_t n = 1;
    for (size_t k = 0; k < rank; ++k) n *= tdim;
    for (size_t k = 0; k < arr.size(); ++k)
        for (size_t i = 0; i < n; ++i) {
            sym_eq(a.flat(k * n + i), arr.flat(k), "AsTensor: every component has the value of the integration point");
            sym_eq(b.flat(k * n + i), arr.flat(k), "AsTensor: every component has the value of the integration point");
            sym_eq(c.flat(k * n + i), arr.flat(k), "asTensor: every component has the value of the integration point");
        }
}
template <class Q, class... X> static void run(size_t nne, size_t ndim, size_t tdim, X... extra)
{
    size_t nelem = sym_size("nelem", 0, 3), nip = sym_size("nip", 1, 5), arg = sym_size("arg", 0, 4);
    if (arg != 3) sym_assume(nip == 2);
    A3 x = xt::zeros<double>({nelem, nne, ndim});
    for (size_t e = 0; e < nelem; ++e)
        for (size_t m = 0; m < nne; ++m)
            for (size_t i = 0; i < ndim; ++i) x(e, m, i) = SG[m][i] + 3;
    A2 xi = xt::zeros<double>({nip, ndim});
    A1 w = xt::ones<double>({nip});
    for (size_t k = 0; k < nip; ++k) xi(k, 0) = 0.1 * k;
    Q q(x, xi, w, extra...);
    double val = sym_real("value", -1, 1);
    sym_equ(q.nelem(), nelem, "nelem");
    sym_equ(q.nne(), nne, "nne");
    sym_equ(q.ndim(), ndim, "ndim");
    sym_equ(q.tdim(), tdim, "tdim");
    sym_equ(q.nip(), nip, "nip");
    auto same1 = [](auto a, const std::vector<size_t>& b, const char* m) {
        sym_equ(a.size(), b.size(), m);
        for (size_t k = 0; k < b.size(); ++k) sym_equ(a[k], b[k], m);
    };
    same1(q.shape_elemvec(), {nelem, nne, ndim}, "shape_elemvec");
    same1(q.shape_elemvec(arg), {nelem, nne, arg}, "shape_elemvec of another size");
    same1(q.shape_elemmat(), {nelem, nne * ndim, nne * ndim}, "shape_elemmat");
    same1(q.shape_qscalar(), {nelem, nip}, "shape_qscalar");
    same1(q.shape_qvector(), {nelem, nip, tdim}, "shape_qvector");
    same1(q.shape_qvector(arg), {nelem, nip, arg}, "shape_qvector of another size");
    sameShape(q.template allocate_elemvec<double>(), vec({nelem, nne, ndim}), "allocate_elemvec");
    filled(q.allocate_elemvec(val), val, vec({nelem, nne, ndim}), "allocate_elemvec");
    sameShape(q.template allocate_elemmat<double>(), vec({nelem, nne * ndim, nne * ndim}), "allocate_elemmat");
    filled(q.allocate_elemmat(val), val, vec({nelem, nne * ndim, nne * ndim}), "allocate_elemmat");
    sameShape(q.template allocate_qscalar<double>(), vec({nelem, nip}), "allocate_qscalar");
    filled(q.allocate_qscalar(val), val, vec({nelem, nip}), "allocate_qscalar");
    sameShape(q.dV(), vec({nelem, nip}), "dV");
    qtensor<0>(q, nelem, nip, tdim, arg, val);
    qtensor<1>(q, nelem, nip, tdim, arg, val);
    qtensor<2>(q, nelem, nip, tdim, arg, val);
    qtensor<3>(q, nelem, nip, tdim, arg, val);
    if (nelem < 2) qtensor<4>(q, nelem, nip, tdim, arg, val);
    if (nelem) {
        A2 bad = xt::zeros<double>({nelem, nip + 1});
        auto r = q.template allocate_qtensor<2, double>();
        SYM_THROWS(q.asTensor(bad, r), "asTensor: rejects other shapes");
    }
}
// every way to broadcast one argument
template <size_t rank, class A> static void broadcast(const A& a, const std::vector<double>& val, const std::vector<size_t>& shape, size_t n)
{
    std::vector<size_t> s = shape;
    s.insert(s.end(), rank, n);
    size_t N = 1;
    for (size_t k = 0; k < rank; ++k) N *= n;
    auto check = [&](const auto& r, const char* msg) {
        sameShape(r, s, msg);
        sym_equ(r.size(), val.size() * N, msg);
        for (size_t k = 0; k < val.size(); ++k)
            for (size_t i = 0; i < N; ++i) sym_eq(r.flat(k * N + i), val[k], msg);
    };
    check(AsTensor(rank, a, n), "AsTensor(rank, arg, n)");
    check(AsTensor(a, std::vector<size_t>(rank, n)), "AsTensor(arg, shape)");
    xt::xarray<double> r = xt::xarray<double>::from_shape(s);
    asTensor(a, r);
    check(r, "asTensor(arg, ret)");
    if constexpr (xt::has_fixed_rank_t<A>::value) {
        if constexpr (std::is_same<A, D1>::value || std::is_same<A, D2>::value || std::is_same<A, D3>::value || std::is_same<A, xt::xtensor<double, 2, xt::layout_type::column_major>>::value) {
            check(AsTensor<rank>(a, n), "AsTensor<rank>(arg, n)");
            std::array<size_t, rank> sh;
            sh.fill(n);
            check(AsTensor(a, sh), "AsTensor(arg, shape)");
            if constexpr (rank == 2) check(AsTensor(a, {n, n}), "AsTensor(arg, {...})");
            constexpr size_t R = std::decay_t<decltype(a.shape())>(std::decay_t<decltype(a.shape())>()).size();
            auto f = xt::xtensor<double, R + rank>();
            f.resize(AsTensor<rank>(a, n).shape());
            asTensor(a, f);
            check(f, "asTensor(arg, ret)");
            if (s.size() && s.back() && val.size()) {
                auto bad = f.shape();
                bad[0] += 1;
                f.resize(bad);
                SYM_THROWS(asTensor(a, f), "asTensor: other shapes are rejected");
            }
        }
    }
    if (val.size()) {
        auto bad = s;
        bad[0] += 1;
        auto q = xt::xarray<double>::from_shape(bad);
        SYM_THROWS(asTensor(a, q), "asTensor: other shapes are rejected");
        xt::xarray<double> low = 0.0;
        SYM_THROWS(asTensor(a, low), "asTensor: a lower rank is rejected");
    }
}
template <class A> static void allRanks(const A& a, const std::vector<double>& val, const std::vector<size_t>& shape)
{
    size_t rank = sym_size("rank", 0, 4), n = sym_size("components", 1, 3);
    if (rank == 0) broadcast<0>(a, val, shape, n);
    if (rank == 1) broadcast<1>(a, val, shape, n);
    if (rank == 2) broadcast<2>(a, val, shape, n);
    if (rank == 3) broadcast<3>(a, val, shape, n);
    if (rank == 4) broadcast<4>(a, val, shape, n);
}
template <class A> static std::vector<double> fill(A& a)
{
    std::vector<double> v;
    for (auto i = a.template begin<xt::layout_type::row_major>(); i != a.template end<xt::layout_type::row_major>(); ++i) {
        *i = sym_real("arg", -1, 1);
        v.push_back(*i);
    }
    return v;
}
extern "C" {
void h_quad4() { run<Quad4::Quadrature>(4, 2, 2); }
void h_planar() { run<Quad4::QuadraturePlanar>(4, 2, 3); }
void h_axisymmetric() { run<Quad4::QuadratureAxisymmetric>(4, 2, 3); }
void h_hex8() { run<Hex8::Quadrature>(8, 3, 3); }
void h_tensor()
{
    size_t d = sym_size("dimension", 1, 3), n = sym_size("n", 0, 3), m = d > 1 ? sym_size("m", 1, 3) : 1, k = d > 2 ? sym_size("k", 1, 2) : 1;
    if (d == 1) { D1 a = D1::from_shape({n}); auto v = fill(a); allRanks(a, v, {n}); }
    if (d == 2) { D2 a = D2::from_shape({n, m}); auto v = fill(a); allRanks(a, v, {n, m}); }
    if (d == 3) { D3 a = D3::from_shape({n, m, k}); auto v = fill(a); allRanks(a, v, {n, m, k}); }
}
void h_array()
{
    size_t n = sym_size("n", 1, 3), m = sym_size("m", 1, 3);
    xt::xarray<double> a = xt::xarray<double>::from_shape({n, m});
    auto v = fill(a);
    allRanks(a, v, {n, m});
}
void h_column_major()
{
    size_t n = sym_size("n", 1, 3), m = sym_size("m", 1, 3);
    xt::xtensor<double, 2, xt::layout_type::column_major> a(std::array<size_t, 2>{n, m});
    auto v = fill(a);
    allRanks(a, v, {n, m});
}
void h_view()
{
    size_t i = sym_size("i", 0, 1), o = sym_size("offset", 0, 2), m = sym_size("m", 1, 2);
    D3 a = symD3(2, 3, 4, "arg");
    auto b = xt::view(a, i, xt::all(), xt::range(o, o + m));
    std::vector<double> v;
    for (size_t j = 0; j < 3; ++j)
        for (size_t k = 0; k < m; ++k) v.push_back(a(i, j, o + k));
    size_t n = sym_size("components", 1, 3);
    auto r = AsTensor(2, b, n);
    sameShape(r, std::vector<size_t>{3, m, n, n}, "AsTensor of a view");
    for (size_t k = 0; k < r.size(); ++k) sym_eq(r.flat(k), v[k / (n * n)], "AsTensor of a view");
}
void h_as3d()
{
    size_t n = sym_size("n", 0, 4), d = sym_size("d", 0, 4);
    D2 a = symD2(n, d, "vector");
    xt::xarray<double> b = a;
    if (d == 0 || d > 3) {
        SYM_THROWS(as3d(a), "as3d: only one to three dimensions");
        SYM_THROWS(as3d(b), "as3d: only one to three dimensions");
        return;
    }
    D2 r = as3d(a);
    xt::xarray<double> s = as3d(b);
    sameShape(r, std::vector<size_t>{n, 3}, "as3d");
    sameShape(s, std::vector<size_t>{n, 3}, "as3d");
    for (size_t k = 0; k < n; ++k)
        for (size_t i = 0; i < 3; ++i) {
            sym_eq(r(k, i), i < d ? a(k, i) : 0, "as3d: padded with zeros");
            sym_eq(s(k, i), i < d ? a(k, i) : 0, "as3d: padded with zeros");
        }
    D1 f = xt::zeros<double>({n});
    SYM_THROWS(as3d(xt::xarray<double>(f)), "as3d: only lists of vectors");
}
}
