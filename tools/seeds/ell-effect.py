prop = 'P02'
needs = 'a slab around the centre that is too wide to shrink the ellipsoid (n times the product of the depths between -n and -1)'
breaks = 'the no-effect threshold of the parallel cut loses the dimension, so a slab too wide to help yields a stretched ellipsoid that loses feasible points'
subs = [('lib/src/ell.cpp', 'if (ELL_UNLIKELY(this->_nFloat * b0b1n < -1.))', 'if (ELL_UNLIKELY(b0b1n < -1.))')]
srcs = ['ell.cpp']
demo = r'''
#include <ellcpp/cut_config.hpp>
#include <ellcpp/ell.hpp>
#include <cmath>
#include <cstdio>
using Arr = xt::xarray<double, xt::layout_type::row_major>;
int main()
{
    const double b0 = -0.8, b1 = 0.9;
    ell E {1., Arr {0., 0.}};
    E.update(std::tuple<Arr, Arr> {Arr {1., 0.}, Arr {b0, b1}});
    auto M = [&](double a, double b) { auto c = E.copy(); return std::get<1>(c.update(std::tuple<Arr, double> {Arr {a, b}, -1e9})); };
    double m00 = M(1, 0), m11 = M(0, 1);
    Arr c = E.xc();
    for (double s : {-b0, 0., -b1}) {
        double dx = s - c(0), dy = std::sqrt(1 - s * s) - c(1);
        double q = dx * dx / m00 + dy * dy / m11;
        if (!(q <= 1 + 1e-9)) return std::printf("lost the point at s=%g: %g\n", s, q), 1;
    }
}
'''
