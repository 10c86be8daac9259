prop = 'P18'
needs = 'a second input quantity below one half'
breaks = 'the quantity of the second input is rounded to zero: the evaluated point is not a whole number of at least one'
subs = [('lib/src/profit_oracle.cpp', '        if (x[1] == 0.)\n', '        if (x[1] == 0. && x[0] == 1.)\n')]
srcs = ['profit_oracle.cpp']
demo = r'''
#include <ellcpp/oracles/profit_oracle.hpp>
#include <cmath>
#include <cstdio>
using Arr = xt::xarray<double, xt::layout_type::row_major>;

int main()
{
    profit_q_oracle P(20., 40., 30.5, Arr {0.1, 0.4}, Arr {10., 35.});
    double t = 0.;
    auto r = P(Arr {1.1, -2.}, t, false);
    auto& yd = std::get<1>(r);
    if (yd(0) != std::log(3.) || yd(1) != 0.) return std::printf("evaluated at (%g, %g)\n", yd(0), yd(1)), 1;
}
'''
