prop = 'P05'
needs = 'a cut that is too shallow to help (status no-effect) given to ell_stable, after a successful one'
breaks = 'ell_stable::update goes on after a no-effect answer and applies the parameters of the previous cut'
subs = [('lib/src/ell_stable.cpp', 'if (status != CUTStatus::success)', 'if (status == CUTStatus::nosoln || status == CUTStatus::smallenough)')]
srcs = ['ell.cpp', 'ell_stable.cpp']
demo = r'''
#include <cmath>
#include <cstdio>
#include <ellcpp/ell_stable.hpp>
#include <xtensor/xarray.hpp>
using Arr = xt::xarray<double, xt::layout_type::row_major>;
int main()
{
    Arr x = xt::zeros<double>({3});
    ell_stable e(4.0, x);
    Arr g {1., 0., 0.};
    auto [s1, t1] = e.update(std::make_tuple(g, 0.25));
    Arr c = e.xc();
    Arr h {0., 1., 0.};
    auto [s2, t2] = e.update(std::make_tuple(h, -1.9));
    if (s2 != CUTStatus(3)) { std::puts("status"); return 1; }
    for (int i = 0; i != 3; ++i)
        if (std::fabs(e.xc()(i) - c(i)) > 1e-12) { std::puts("centre moved"); return 1; }
    auto [s3, t3] = e.update(std::make_tuple(h, 1e6));
    if (std::fabs(t3 - t2) > 1e-9) { std::puts("size changed"); return 1; }
    return 0;
}
'''
