prop = 'P09'
needs = 'a discrete oracle that has more than one alternative cut'
breaks = 'the search gives up after the first alternative cut without effect although the oracle has more'
subs = [('lib/include/ellcpp/cutting_plane.hpp', '            if (!more_alt)\n', '            if (retry || !more_alt)\n')]
srcs = ['ell1d.cpp']
demo = r'''
#include <ellcpp/cut_config.hpp>
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell1d.hpp>
#include <cstdio>
int main()
{
    ell1d I(0., 8.);
    double t = 0;
    int k = 0;
    auto oracle = [&](double x, double& t, bool retry) {
        ++k;
        // two dead cuts, then a live one that improves
        if (k <= 2) return std::make_tuple(std::make_tuple(1., -100.), x, false, true);
        if (k == 3) { t = 7; return std::make_tuple(std::make_tuple(1., 0.), x, true, true); }
        return std::make_tuple(std::make_tuple(1., 100.), x, false, false);
    };
    auto [x, info] = cutting_plane_q(oracle, I, t, Options());
    if (!info.feasible || t != 7 || x != 4) return std::printf("stopped after %d queries, t = %g\n", k, t), 1;
}
'''
