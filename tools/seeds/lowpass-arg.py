prop = 'P16'
needs = 'a stopband scan that starts past the first row (after an earlier stopband cut) and meets every bound'
breaks = 'the row of the largest response is recorded as the turn number of the scan, not as the row: the objective cut is that of another row'
subs = [('lib/src/lowpass_oracle.cpp', '            imax = k;\n', '            imax = i;\n')]
srcs = ['lowpass_oracle.cpp']
demo = r'''
#include <ellcpp/oracles/lowpass_oracle.hpp>
#include <cstdio>
using Arr = xt::xarray<double, xt::layout_type::row_major>;

int main()
{
    Arr Ap {{1., 0.}}, As {{1., 1.}, {0., 1.}, {1., 2.}}, Anr {{1., 0.}};
    lowpass_oracle P(Ap, As, Anr, 0., 10.);
    double S = 2;
    P(Arr {1.5, 1.}, S);       // row 0 is above the bound: the next scan starts at row 1
    S = 9;
    auto r = P(Arr {1., 2.}, S);   // responses 3, 2, 5
    if (!std::get<1>(r) || S != 5.) return std::printf("bound %g\n", S), 1;
    auto& g = std::get<0>(std::get<0>(r));
    if (g(0) != 1. || g(1) != 2.) return std::printf("objective cut (%g, %g), expected (1, 2)\n", g(0), g(1)), 1;
}
'''
