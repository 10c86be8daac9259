prop = 'P20'
needs = 'whole-number times with fractional costs'
breaks = 'the total time is accumulated in the type of the costs and the total cost in that of the times, which truncates fractional costs when times are whole numbers'
srcs = []
subs = [('lib/include/netoptim/min_cycle_ratio.hpp', '        auto total_cost = cost_T(0);\n        auto total_time = time_T(0);\n', '        auto total_time = cost_T(0);\n        auto total_cost = time_T(0);\n')]
demo = r'''
#include <netoptim/min_cycle_ratio.hpp>
#include <cstdio>
#include <utility>
#include <vector>
struct G {
    using node_t = int;
    using edge_t = int;
    std::vector<int> N, Ed;
    std::vector<std::pair<int, int>> E;
    G(int n, std::vector<std::pair<int, int>> e) : E(e)
    {
        for (int i = 0; i < n; ++i) N.push_back(i);
        for (size_t k = 0; k < e.size(); ++k) Ed.push_back(int(k));
    }
    auto begin() const { return N.begin(); }
    auto end() const { return N.end(); }
    const std::vector<int>& edges() const { return Ed; }
    std::pair<int, int> end_points(int e) const { return E[size_t(e)]; }
    static int null_vertex() { return -1; }
};
int main()
{
    G g(2, {{0, 1}, {1, 0}});
    double cost[] = {1.5, 1.75};
    int tm[] = {1, 1};
    std::vector<double> d {0., 0.};
    double r = 100.;
    auto C = min_cycle_ratio(g, r, [&](int e) { return cost[e]; }, [&](int e) { return tm[e]; }, d, 1);
    if (C.size() != 2 || r != 3.25 / 2) return std::printf("ratio %g\n", r), 1;
}
'''
