prop = 'P05'
needs = 'a factored shape whose triangular factor is not the identity in at least two columns of a row'
breaks = 'the forward substitution multiplies by the direction instead of by the part already solved for'
subs = [('lib/src/ell_stable.cpp', 'this->_Q(i, j) = this->_Q(j, i) * invLg(j);', 'this->_Q(i, j) = this->_Q(j, i) * g(j);')]
srcs = ['ell.cpp', 'ell_stable.cpp']
demo = r'''
#include <cmath>
#include <cstdio>
#include <ellcpp/ell_stable.hpp>
#include <xtensor/xarray.hpp>
using Arr = xt::xarray<double, xt::layout_type::row_major>;
struct E : ell_stable {
    using ell_stable::ell_stable;
    void put() { _Q(0, 1) = 1.; _Q(0, 2) = 2.; _Q(1, 2) = 1.; }
};
int main()
{
    Arr x = xt::zeros<double>({3});
    E e(4.0, x);
    e.put();
    Arr g {1., 1., 1.};
    // L = [[1,0,0],[1,1,0],[2,1,1]], inv(L) g = (1, 0, -1): size = 4 * 2
    auto [s, t] = e.update(std::make_tuple(g, 1e6));
    if (std::fabs(t - 8.) > 1e-9) { std::printf("size %g\n", t); return 1; }
    return 0;
}
'''
