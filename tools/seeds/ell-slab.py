prop = 'P02'
needs = 'a slab whose first plane lies behind the centre (both offsets of opposite sign)'
breaks = 'a first plane behind the centre is treated as if it went through the centre, so the points between the plane and the centre are lost'
subs = [('lib/src/ell.cpp', 'if (b0 == 0.) // central cut', 'if (b0 <= 0.) // central cut')]
srcs = ['ell.cpp']
demo = r'''
#include <ellcpp/cut_config.hpp>
#include <ellcpp/ell.hpp>
#include <cmath>
#include <cstdio>
using Arr = xt::xarray<double, xt::layout_type::row_major>;
int main()
{
    for (double b1 : {0.2, 0.5, 0.7}) {
        const double b0 = -0.3;
        ell E {1., Arr {0., 0.}};
        E.update(std::tuple<Arr, Arr> {Arr {1., 0.}, Arr {b0, b1}});
        auto M = [&](double a, double b) { auto c = E.copy(); return std::get<1>(c.update(std::tuple<Arr, double> {Arr {a, b}, -1e9})); };
        double m00 = M(1, 0), m11 = M(0, 1);
        Arr c = E.xc();
        for (double s : {-b0, -b1, -b1 / 2}) {
            double dx = s - c(0), dy = std::sqrt(1 - s * s) - c(1);
            double q = dx * dx / m00 + dy * dy / m11;
            if (!(q <= 1 + 1e-9)) return std::printf("b1=%g: lost the point at s=%g: %g\n", b1, s, q), 1;
        }
    }
}
'''
