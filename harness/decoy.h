// another object of the same class, of other sizes, that is created and used in between: objects are independent of each other
#pragma once
#include <Eigen/Eigen>
#include <type_traits>
#include <xtensor/xtensor.hpp>
template <class V> constexpr auto hasAsElement(int) -> decltype(std::declval<V&>().AsElement(xt::xtensor<double, 2>()), bool()) { return true; }
template <class V> constexpr bool hasAsElement(long) { return false; }
template <class V> void decoy()
{
    typedef xt::xtensor<size_t, 2> I2;
    typedef xt::xtensor<size_t, 1> I1;
    typedef Eigen::SparseMatrix<double> SM;
    I2 conn = {{2, 0, 1}, {1, 3, 2}}, dofs = {{2, 0}, {1, 3}, {5, 4}, {0, 6}};
    auto use = [&](V& v) {
        if constexpr (hasAsElement<V>(0)) {
            xt::xtensor<double, 2> u = 3.0 * xt::ones<double>({4, 2});
            auto e = v.AsElement(u);
            v.AssembleDofs(e);
        }
        else {
            xt::xtensor<double, 3> m = xt::zeros<double>({2, 6, 6});
            for (size_t e = 0; e < 2; ++e)
                for (size_t i = 0; i < 6; ++i) m(e, i, i) = double(i + 7);
            v.assemble(m);
        }
    };
    if constexpr (std::is_constructible<V, I2, I2, SM, SM, SM>::value) {
        SM a(1, 5), b(1, 1), c(1, 6);
        a.insert(0, 2) = 0.5;
        V v(conn, dofs, a, b, c);
        use(v);
    }
    else if constexpr (std::is_constructible<V, I2, I2, SM, SM>::value) {
        SM a(1, 5), b(1, 1);
        a.insert(0, 2) = 0.5;
        V v(conn, dofs, a, b);
        use(v);
    }
    else if constexpr (std::is_constructible<V, I2, I2, I1>::value) {
        V v(conn, dofs, I1{6, 1});
        use(v);
    }
    else {
        V v(conn, dofs);
        use(v);
    }
}
