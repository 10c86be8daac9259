prop = 'P04'
needs = 'a parallel cut whose planes lie on opposite sides of the centre, too far out to have an effect'
breaks = 'the no-effect test for parallel cuts compares against the wrong threshold, so pairs that would shrink the ellipsoid are refused as having no effect'
subs = [('lib/src/ell.cpp', 'if (ELL_UNLIKELY(this->_nFloat * b0b1n < -1.))', 'if (ELL_UNLIKELY(this->_nPlus1 * b0b1n < -1.))')]
srcs = ['ell.cpp']
demo = r'''
#include <ellcpp/cut_config.hpp>
#include <ellcpp/ell.hpp>
#include <cstdio>
using Arr = xt::xarray<double, xt::layout_type::row_major>;
int main()
{
    // n=2, offsets -0.6 and 0.7: n*u*v = -0.84 > -1, so the slab does shrink the disc
    ell E {1., Arr {0., 0.}};
    auto r = E.update(std::tuple<Arr, Arr> {Arr {1., 0.}, Arr {-0.6, 0.7}});
    if (std::get<0>(r) != CUTStatus::success) return std::puts("a slab that shrinks the disc is refused"), 1;
}
'''
