prop = 'P13'
needs = 'the quadratic form asked for after a rejection whose block starts after a zero pivot'
breaks = 'the quadratic form runs over all rows up to the end of the block, including stale witness entries before the block'
subs = [('lib/src/ldlt_ext.cpp', '    for (auto i = start; i != stop; ++i)\n    {\n        auto s = double {};', '    for (auto i = start / 2; i != stop; ++i)\n    {\n        auto s = double {};')]
srcs = ['ldlt_ext.cpp']
demo = r'''
#include <ellcpp/oracles/ldlt_ext.hpp>
#include <cmath>
#include <cstdio>
using Arr = xt::xarray<double, xt::layout_type::row_major>;
int main()
{
    ldlt_ext Q {4};
    Arr A {{1., 0., 0., 0.}, {0., 1., 2., 0.}, {0., 2., 3., 0.}, {0., 0., 0., 1.}};
    Arr B {{0., 0., 0., 0.}, {0., 0., 0., 0.}, {0., 0., 1., 2.}, {0., 0., 2., 3.}};
    auto get = [&](const Arr& M) { auto f = [&](size_t i, size_t j) { return M(i, j); }; return Q.factor<decltype(f)&, true>(f); };
    if (get(A)) return 1;
    Q.witness();
    if (get(B)) return 1;
    double ep = Q.witness();
    Arr C {{1., 1., 1., 1.}, {1., 1., 1., 1.}, {1., 1., 1., 2.}, {1., 1., 2., 3.}};
    double q = Q.sym_quad(C), w = 0;
    for (size_t i = Q.p.first; i < Q.p.second; ++i) for (size_t j = Q.p.first; j < Q.p.second; ++j) w += Q.v(i) * C(i, j) * Q.v(j);
    (void)ep;
    if (std::abs(q - w) > 1e-9) return std::printf("sym_quad=%g, v'Cv=%g\n", q, w), 1;
}
'''
