prop = 'P08'
needs = 'an improving query whose cut ends the search (no solution or no effect left)'
breaks = 'the best point is recorded only after a successful update, so the value improved last comes without its point'
subs = [('lib/include/ellcpp/cutting_plane.hpp', '''        const auto [cut, shrunk] = Omega(S.xc(), t);
        if (shrunk)
        { // best t obtained
            x_best = S.xc();
        }
        const auto [cutstatus, tsq] = S.update(cut);
        if (cutstatus != CUTStatus::success) // ???
        {
            status = cutstatus;
            break;
        }
''', '''        const auto xc = S.xc();
        const auto [cut, shrunk] = Omega(xc, t);
        const auto [cutstatus, tsq] = S.update(cut);
        if (cutstatus != CUTStatus::success) // ???
        {
            status = cutstatus;
            break;
        }
        if (shrunk)
        { // best t obtained
            x_best = xc;
        }
''')]
srcs = ['ell1d.cpp']
demo = r'''
#include <ellcpp/cut_config.hpp>
#include <ellcpp/cutting_plane.hpp>
#include <ellcpp/ell1d.hpp>
#include <cstdio>
int main()
{
    // minimise |x| over [-1, 3]: queried at 1, 0 ..., with a cut that leaves nothing once the optimum is hit
    ell1d I(-1., 3.);
    double t = 1e100;
    auto oracle = [](double x, double& t) {
        double f = x < 0 ? -x : x, g = x < 0 ? -1. : 1.;
        if (f == 0) { t = 0; return std::make_tuple(std::make_tuple(1., 100.), true); }
        if (f < t) { t = f; return std::make_tuple(std::make_tuple(g, 0.), true); }
        return std::make_tuple(std::make_tuple(g, f - t), false);
    };
    auto [x, info] = cutting_plane_dc(oracle, I, t, Options());
    if (!info.feasible) return std::printf("not feasible\n"), 1;
    if (!((x < 0 ? -x : x) == t)) return std::printf("point %g for value %g\n", x, t), 1;
}
'''
