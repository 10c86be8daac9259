prop = 'P26'
needs = 'a covariance estimate and a data matrix that do not commute, so that their product is not symmetric'
breaks = 'the gradient of the negative log-likelihood pairs rows with rows: it is the gradient only when S Y is symmetric'
subs = [('lib/src/lsq_corr_ell.cpp', 'xt::view(SY, xt::all(), k))();', 'xt::view(SY, k, xt::all()))();')]
srcs = ['ell.cpp', 'lmi_oracle.cpp', 'lmi0_oracle.cpp', 'ldlt_ext.cpp', 'qmi_oracle.cpp']
demo = r'''
#include <xtensor-blas/xlinalg.hpp>
#include <../src/lsq_corr_ell.cpp>
#include <cmath>
#include <cstdio>

int main()
{
    std::vector<Arr> F {Arr {{1., 0.}, {0., 2.}}, Arr {{0., 1.}, {1., 0.}}};
    Arr Y {{3., 1.}, {1., 2.}};
    auto nll = [&](double a, double b) {
        double det = 2 * a * a - b * b;
        return std::log(det) + (2 * a * 3 - 2 * b * 1 + a * 2) / det;
    };
    mle_oracle P(F, Y);
    double t = 1e100;
    Arr x {2., .5};
    auto r = P(x, t);
    if (!std::get<1>(r) || std::abs(t - nll(2., .5)) > 1e-9) return std::printf("value %g, expected %g\n", t, nll(2., .5)), 1;
    auto& g = std::get<0>(std::get<0>(r));
    double h = 1e-5, d0 = (nll(2. + h, .5) - nll(2. - h, .5)) / (2 * h), d1 = (nll(2., .5 + h) - nll(2., .5 - h)) / (2 * h);
    if (std::abs(g(0) - d0) > 1e-5 || std::abs(g(1) - d1) > 1e-5) return std::printf("gradient (%g, %g), expected (%g, %g)\n", g(0), g(1), d0, d1), 1;
}
'''
