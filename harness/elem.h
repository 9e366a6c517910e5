// Element harness helpers: independent (textbook) definitions of the isoparametric quad and hexahedron.
#pragma once
#include "sym.h"
#include <GooseFEM/Element.h>
#include <GooseFEM/ElementQuad4.h>
#include <GooseFEM/ElementHex8.h>
#include <GooseFEM/ElementQuad4.h>
#include <GooseFEM/ElementQuad4Axisymmetric.h>
#include <GooseFEM/ElementQuad4Planar.h>
#include <cmath>
#include <vector>
namespace ref {
typedef xt::xtensor<double, 1> A1;
typedef xt::xtensor<double, 2> A2;
typedef xt::xtensor<double, 3> A3;
typedef xt::xtensor<double, 4> A4;
typedef xt::xtensor<double, 6> A6;
static const double SG[8][3] = {{-1, -1, -1}, {1, -1, -1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, 1}, {-1, 1, 1}};
template <int D> double N(int m, const double* z)
{
    double r = 1;
    for (int k = 0; k < D; ++k) r *= 0.5 * (1 + SG[m][k] * z[k]);
    return r;
}
template <int D> double dN(int m, int i, const double* z)
{
    double r = 0.5 * SG[m][i];
    for (int k = 0; k < D; ++k)
        if (k != i) r *= 0.5 * (1 + SG[m][k] * z[k]);
    return r;
}
template <int D> void jac(const A3& x, size_t e, const double* z, double J[3][3])
{
    for (int i = 0; i < D; ++i)
        for (int j = 0; j < D; ++j) {
            J[i][j] = 0;
            for (int m = 0; m < (1 << D); ++m) J[i][j] += dN<D>(m, i, z) * x(e, m, j);
        }
}
template <int D> double det(double J[3][3])
{
    if (D == 2) return J[0][0] * J[1][1] - J[0][1] * J[1][0];
    return J[0][0] * (J[1][1] * J[2][2] - J[1][2] * J[2][1]) - J[0][1] * (J[1][0] * J[2][2] - J[1][2] * J[2][0]) + J[0][2] * (J[1][0] * J[2][1] - J[1][1] * J[2][0]);
}
// nodal positions: any, around the reference shape (offset keeps axisymmetric radii positive)
template <int D> A3 symX(size_t nelem, const char* name, double offset = 0)
{
    A3 x = xt::zeros<double>({nelem, (size_t)(1 << D), (size_t)D});
    for (size_t e = 0; e < nelem; ++e)
        for (int m = 0; m < (1 << D); ++m)
            for (int j = 0; j < D; ++j) x(e, m, j) = offset + sym_realh(name, -2, 2, SG[m][j] * (1 + 0.125 * e));
    return x;
}
// elements are not inverted at the integration points
template <int D> void assumeRegular(const A3& x, const A2& xi)
{
    for (size_t e = 0; e < x.shape(0); ++e)
        for (size_t q = 0; q < xi.shape(0); ++q) {
            double J[3][3];
            jac<D>(x, e, &xi(q, 0), J);
            sym_assume(det<D>(J) > 0.05);
        }
}
inline A3 symElemvec(size_t nelem, size_t nne, size_t nd, const char* name)
{
    A3 u = xt::zeros<double>({nelem, nne, nd});
    for (auto& v : u) v = sym_real(name, -1, 1);
    return u;
}
// concrete distorted geometry
template <int D> A3 distorted(size_t nelem)
{
    A3 x = xt::zeros<double>({nelem, (size_t)(1 << D), (size_t)D});
    unsigned s = 7;
    for (size_t e = 0; e < nelem; ++e)
        for (int m = 0; m < (1 << D); ++m)
            for (int j = 0; j < D; ++j) {
                s = s * 1103515245u + 12345u;
                x(e, m, j) = SG[m][j] * (1 + 0.25 * (double)(e % 8)) + (double)((s >> 16) % 17) / 64.0 + 3;
            }
    return x;
}
}  // namespace ref
using namespace GooseFEM;
