prop = 'P17'
needs = 'a log-input with two negative coordinates'
breaks = 'the worst-case elasticity of the second input is the best case when both log-inputs are negative: the value reported is not the worst case'
subs = [('lib/include/ellcpp/oracles/profit_oracle.hpp', 'a_rb[1] += y[1] > 0. ?', 'a_rb[1] += (y[1] > 0. || y[0] < 0.) ?')]
srcs = ['profit_oracle.cpp']
demo = r'''
#include <ellcpp/oracles/profit_oracle.hpp>
#include <cmath>
#include <cstdio>
using Arr = xt::xarray<double, xt::layout_type::row_major>;

int main()
{
    profit_rb_oracle P(20., 40., 30.5, Arr {0.1, 0.4}, Arr {10., 35.}, Arr {0.003, 0.007}, 1.);
    double t = 0.;
    Arr y {-0.5, -0.5};
    auto r = P(y, t);
    double want = 19. * 40. * std::exp(-0.103 * 0.5 - 0.407 * 0.5) - 11. * std::exp(-0.5) - 36. * std::exp(-0.5);
    if (!std::get<1>(r) || std::abs(t - want) > 1e-9) return std::printf("profit %.12g, worst case is %.12g\n", t, want), 1;
}
'''
