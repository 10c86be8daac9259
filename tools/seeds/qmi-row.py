prop = 'P15'
needs = 'a coefficient matrix that is square but not symmetric'
breaks = 'a lazily computed row takes row i of the constant term instead of column i when the matrix is square'
subs = [('lib/src/qmi_oracle.cpp', '            ROW(this->_Fx, i) = COLUMN(this->_F0, i);\n', '            if (this->_n == this->_m)\n            {\n                ROW(this->_Fx, i) = ROW(this->_F0, i);\n            }\n            else\n            {\n                ROW(this->_Fx, i) = COLUMN(this->_F0, i);\n            }\n')]
srcs = ['qmi_oracle.cpp', 'ldlt_ext.cpp']
demo = r'''
#include <ellcpp/oracles/qmi_oracle.hpp>
#include <cmath>
#include <cstdio>
#include <vector>
using Arr = xt::xarray<double, xt::layout_type::row_major>;

int main()
{
    // F(x) = F0 - x F1 at x = 0: F0'F0 = diag(0, 4) but F0 F0' = diag(4, 0) reversed
    std::vector<Arr> F {Arr {{1., 0.}, {0., 1.}}};
    qmi_oracle Q(gsl::span<const Arr>(F.data(), 1), Arr {{0., 2.}, {0., 1.}});
    Q.update(4.5);
    Arr x {0.};
    // F0'F0 = [[0,0],[0,5]]: 4.5 I - F0'F0 is not positive definite
    auto r = Q(x);
    if (!r) return std::printf("accepted\n"), 1;
    // z = 1: F = [[-1,2],[0,0]], F'F = [[1,-2],[-2,4]], largest eigenvalue 5 > 4.5 ; z = 0.5: F'F=[[.25,-1],[-1,4.25]]
    double g = std::get<0>(*r)(0), ep = std::get<1>(*r);
    double want = 5 - 4.5;   // v = e2
    if (std::abs(ep - want) > 1e-9) return std::printf("offset %g, expected %g\n", ep, want), 1;
    if (std::abs(g + 2) > 1e-9) return std::printf("gradient %g\n", g), 1;
}
'''
