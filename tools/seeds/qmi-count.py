prop = 'P15'
needs = 'two calls at different points with an acceptance in between'
breaks = 'the rows cached by an accepted call are reused by the next call with the same number of variables when only the threshold is updated in between'
subs = [('lib/src/qmi_oracle.cpp', '    this->_count = 0;\n    this->_nx = x.shape()[0];\n', '    if (this->_nx != x.shape()[0] || !this->_Q.is_spd() || this->_count != this->_m)\n    {\n        this->_count = 0;\n        this->_nx = x.shape()[0];\n    }\n    else\n    {\n        this->_count = this->_m - 1; // the last row changes\n    }\n')]
srcs = ['qmi_oracle.cpp', 'ldlt_ext.cpp']
demo = r'''
#include <ellcpp/oracles/qmi_oracle.hpp>
#include <cmath>
#include <cstdio>
#include <vector>
using Arr = xt::xarray<double, xt::layout_type::row_major>;

int main()
{
    std::vector<Arr> F {Arr {{1., 0.}, {0., 0.}}};
    qmi_oracle Q(gsl::span<const Arr>(F.data(), 1), Arr {{0., 0.}, {0., 0.}});
    Q.update(2.);
    if (Q(Arr {0.5})) return std::printf("rejected\n"), 1;
    auto r = Q(Arr {3.});   // 2 I - 9 I
    if (!r) return std::printf("accepted\n"), 1;
    if (std::abs(std::get<1>(*r) - 7) > 1e-9) return std::printf("offset %g\n", std::get<1>(*r)), 1;
}
'''
