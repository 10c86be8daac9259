prop = 'P14'
needs = 'the oracle without a constant term, a rejection on a row after the first'
breaks = 'the gradient keeps its sign right only when the rejected block is the first row'
subs = [('lib/src/lmi0_oracle.cpp', '        g(i) = -_Q.sym_quad(this->_F[i]);', '        g(i) = ep > 0. ? -_Q.sym_quad(this->_F[i]) : _Q.sym_quad(this->_F[i]);')]
srcs = ['lmi0_oracle.cpp', 'ldlt_ext.cpp']
demo = r'''
#include <ellcpp/oracles/lmi0_oracle.hpp>
#include <cmath>
#include <cstdio>
#include <vector>
using Arr = xt::xarray<double, xt::layout_type::row_major>;

int main()
{
    std::vector<Arr> F {Arr {{1., 0.}, {0., 0.}}, Arr {{0., 0.}, {0., 1.}}};
    lmi0_oracle O(gsl::span<const Arr>(F.data(), 2));
    auto r = O(Arr {1., 0.});           // diag(1, 0): singular
    if (!r) return std::printf("accepted\n"), 1;
    auto& g = std::get<0>(*r);
    // z = (1, 1) is feasible: g'(z - x) + ep <= 0
    double v = g(1) * 1. + std::get<1>(*r);
    if (v > 0) return std::printf("the cut removes a feasible point: %g\n", v), 1;
}
'''
