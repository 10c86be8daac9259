prop = 'P20'
needs = 'an iteration limit that the search reaches'
breaks = 'the limit is compared after the turn is counted, so the search makes one turn less than allowed and may stop with a reducible parameter'
srcs = []
subs = [('lib/include/netoptim/parametric.hpp', '    for (; niter != max_iter; ++niter)\n    {\n', '    while (++niter < max_iter)\n    {\n')]
demo = r'''
#include <netoptim/min_cycle_ratio.hpp>
#include <cstdio>
#include <utility>
#include <vector>
struct G {
    using node_t = int;
    using edge_t = int;
    std::vector<int> N, Ed;
    std::vector<std::pair<int, int>> E;
    G(int n, std::vector<std::pair<int, int>> e) : E(e)
    {
        for (int i = 0; i < n; ++i) N.push_back(i);
        for (size_t k = 0; k < e.size(); ++k) Ed.push_back(int(k));
    }
    auto begin() const { return N.begin(); }
    auto end() const { return N.end(); }
    const std::vector<int>& edges() const { return Ed; }
    std::pair<int, int> end_points(int e) const { return E[size_t(e)]; }
    static int null_vertex() { return -1; }
};
int main()
{
    G g(2, {{0, 1}, {1, 0}});
    double cost[] = {1., 2.};
    std::vector<double> d {0., 0.};
    double r = 100.;
    auto C = min_cycle_ratio(g, r, [&](int e) { return cost[e]; }, [&](int) { return 1.; }, d, 1);
    if (C.size() != 2 || r != 1.5) return std::printf("ratio %g\n", r), 1;
}
'''
