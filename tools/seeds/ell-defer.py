prop = 'P01'
needs = 'the no_defer_trick option and at least two successive updates'
breaks = 'with the scale folded into the shape matrix, the scale factor is reset to the step ratio instead of one, so the second update works on another ellipsoid'
subs = [('lib/src/ell.cpp', '''        this->_Q *= this->_kappa;
        this->_kappa = 1.;''', '''        this->_Q *= this->_kappa;
        this->_kappa = std::min(1., this->_kappa);''')]
srcs = ['ell.cpp']
demo = r'''
#include <ellcpp/cut_config.hpp>
#include <ellcpp/ell.hpp>
#include <cmath>
#include <cstdio>
using Arr = xt::xarray<double, xt::layout_type::row_major>;
int main()
{
    for (double a : {0.25, 1., 4.}) {
        ell E {a, Arr {0., 0.}}, F {a, Arr {0., 0.}};
        E.no_defer_trick = true;
        for (int k = 0; k < 3; ++k) {
            Arr g {1., k - .5};
            auto r = E.update(std::tuple<Arr, double> {g, 0.05});
            auto q = F.update(std::tuple<Arr, double> {g, 0.05});
            if (std::abs(std::get<1>(r) - std::get<1>(q)) > 1e-9) return std::printf("size differs: %g %g\n", std::get<1>(r), std::get<1>(q)), 1;
        }
    }
}
'''
