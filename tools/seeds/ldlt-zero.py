prop = 'P12'
needs = 'an exactly singular matrix'
breaks = 'a zero pivot on the last row is accepted'
subs = [('lib/include/ellcpp/oracles/ldlt_ext.hpp', '                if (d <= 0.)\n                {', '                if (d < 0. || (d == 0. && i + 1 != this->n))\n                {')]
srcs = ['ldlt_ext.cpp']
demo = r'''
#include <ellcpp/oracles/ldlt_ext.hpp>
#include <cstdio>
using Arr = xt::xarray<double, xt::layout_type::row_major>;
int main()
{
    ldlt_ext Q {2};
    Arr A {{1., 2.}, {2., 4.}};
    if (Q.factorize(A)) return std::printf("singular matrix accepted\n"), 1;
}
'''
