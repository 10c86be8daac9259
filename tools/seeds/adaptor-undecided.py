prop = 'P11'
needs = 'a feasibility search that ends undecided (iteration limit or tolerance)'
breaks = 'the stored search space is moved although no feasible point was found'
subs = [('lib/include/ellcpp/cutting_plane.hpp', '        if (ell_info.feasible)\n        {\n            this->_S.set_xc', '        if (ell_info.status != CUTStatus::nosoln)\n        {\n            this->_S.set_xc')]
srcs = ['ell1d.cpp', 'ell.cpp']
demo = r'''
#include <ellcpp/cut_config.hpp>
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell.hpp>
#include <cstdio>
#include <optional>
using Arr = xt::xarray<double, xt::layout_type::row_major>;
struct Oracle
{
    double t = 0;
    void update(double x) { t = x; }
    std::optional<std::tuple<Arr, double>> operator()(const Arr& x)
    {
        if (x(0) >= t) return {};
        return std::make_tuple(Arr {-1., 0.}, 0.);
    }
};
int main()
{
    Oracle P;
    ell S(4., Arr {0., 0.});
    Options opt;
    opt.max_it = 4;
    bsearch_adaptor<Oracle, ell> A(P, S, opt);
    if (A(1.99999)) return 1;                       // three central cuts do not get that far
    if (S.xc()(0) != 0. || S.xc()(1) != 0.) return std::printf("centre moved to %g\n", S.xc()(0)), 1;
    if (!A(1.)) return 2;
    if (S.xc()(0) < 1.) return 3;
}
'''
