prop = 'P13'
needs = 'the variant that allows semidefinite matrices, used again on one object, with a zero pivot before the rejection'
breaks = 'after a zero pivot the elimination still uses the rows before the restart, whose entries were left by the previous matrix'
subs = [('lib/include/ellcpp/oracles/ldlt_ext.hpp', 'for (auto k = start; k != s; ++k)', 'for (size_t k = 0U; k != s; ++k)')]
srcs = ['ldlt_ext.cpp']
demo = r'''
#include <ellcpp/oracles/ldlt_ext.hpp>
#include <cmath>
#include <cstdio>
using Arr = xt::xarray<double, xt::layout_type::row_major>;
int main()
{
    ldlt_ext Q {3};
    Arr A {{2., 1., 1.}, {1., 3., 1.}, {1., 1., 4.}};
    Arr B {{0., 0., 0.}, {0., 1., 2.}, {0., 2., 3.}};
    auto get = [&](const Arr& M) { auto f = [&](size_t i, size_t j) { return M(i, j); }; return Q.factor<decltype(f)&, true>(f); };
    get(A);
    if (get(B)) return std::printf("accepted\n"), 1;
    double ep = Q.witness();
    double q = Q.sym_quad(B);
    if (std::abs(q + ep) > 1e-9 || ep < 0) return std::printf("q=%g ep=%g\n", q, ep), 1;
}
'''
