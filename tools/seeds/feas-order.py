prop = 'P07'
needs = 'a search space already below the tolerance when the cut shows that nothing is left'
breaks = 'small enough is reported for an update that answered no solution'
subs = [('lib/include/ellcpp/cutting_plane.hpp', '''        const auto [cutstatus, tsq] = S.update(*cut); // update S
        if (cutstatus != CUTStatus::success)
        {
            status = cutstatus;
            break;
        }
        if (tsq < options.tol)
        { // no more
            status = CUTStatus::smallenough;
            break;
        }
''', '''        const auto [cutstatus, tsq] = S.update(*cut); // update S
        if (tsq < options.tol)
        { // no more
            status = CUTStatus::smallenough;
            break;
        }
        if (cutstatus != CUTStatus::success)
        {
            status = cutstatus;
            break;
        }
''')]
srcs = ['ell1d.cpp']
demo = r'''
#include <ellcpp/cut_config.hpp>
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell1d.hpp>
#include <cstdio>
#include <optional>
int main()
{
    ell1d I(0., 1e-6);
    auto oracle = [](double) { return std::optional<std::tuple<double, double>>(std::make_tuple(1., 1.)); };
    auto info = cutting_plane_feas(oracle, I, Options());
    if (info.feasible || info.status != CUTStatus::nosoln) return std::printf("status %d\n", int(info.status)), 1;
}
'''
