prop = 'P06'
needs = 'a cut that touches the interval in exactly one end point'
breaks = 'no solution is reported although the end point satisfies the cut'
subs = [('lib/src/ell1d.cpp', '    if (beta > tau)\n', '    if (beta >= tau)\n')]
srcs = ['ell1d.cpp']
demo = r'''
#include <ellcpp/cut_config.hpp>
#include <ellcpp/ell1d.hpp>
#include <cstdio>
int main()
{
    ell1d I(0., 4.);
    auto [s, t] = I.update({2., 4.});               // 2 (x - 2) + 4 <= 0: exactly x = 0
    if (s != CUTStatus::success || I.xc() != 0.) return std::printf("status %d centre %g\n", int(s), I.xc()), 1;
}
'''
