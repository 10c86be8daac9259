prop = 'P14'
needs = 'the variant that forms the whole matrix, used with a coefficient of zero first'
breaks = 'variables after a zero one are left out of the matrix'
subs = [('lib/src/lmi_old_oracle.cpp', '        A -= this->_F[k] * x(k);', '        if (x(k) == 0.)\n        {\n            break;\n        }\n        A -= this->_F[k] * x(k);')]
srcs = ['lmi_old_oracle.cpp', 'ldlt_ext.cpp']
demo = r'''
#include <ellcpp/oracles/lmi_old_oracle.hpp>
#include <cmath>
#include <cstdio>
#include <vector>
using Arr = xt::xarray<double, xt::layout_type::row_major>;

int main()
{
    std::vector<Arr> F {Arr {{1., 0.}, {0., 1.}}, Arr {{1., 0.}, {0., 1.}}};
    lmi_old_oracle O(gsl::span<const Arr>(F.data(), 2), Arr {{1., 0.}, {0., 1.}});
    if (!O(Arr {0., 2.})) return std::printf("accepted, but the matrix is -I\n"), 1;
}
'''
