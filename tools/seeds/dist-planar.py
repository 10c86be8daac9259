prop = 'P27'
needs = 'sites with three or more coordinates'
breaks = 'the distance of two sites uses only the first two coordinates'
subs = [('lib/src/lsq_corr_ell.cpp', '            auto d = std::sqrt(xt::linalg::dot(h, h)());\n', '            auto d = (s.shape()[1] == 1) ? std::abs(h(0)) : std::sqrt(h(0) * h(0) + h(1) * h(1));\n')]
srcs = ['ell.cpp', 'lmi_oracle.cpp', 'lmi0_oracle.cpp', 'ldlt_ext.cpp', 'qmi_oracle.cpp']
demo = r'''
#include <xtensor-blas/xlinalg.hpp>
#include <../src/lsq_corr_ell.cpp>
#include <cmath>
#include <cstdio>

int main()
{
    Arr s {{0., 0., 0.}, {1., 2., 2.}};
    Arr D = construct_distance_matrix(s);
    if (std::abs(D(0, 1) - 3.) > 1e-12) return std::printf("distance %g, expected 3\n", D(0, 1)), 1;
}
'''
