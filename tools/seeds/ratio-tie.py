prop = 'P21'
needs = 'a feasible point whose value equals the best value'
breaks = 'a point that only equals the best value is reported as an improvement'
srcs = []
subs = [('lib/include/ellcpp/oracles/cycle_ratio_oracle.hpp', 'if (fj >= 0)', 'if (fj > 0)')]
demo = r'''
#include <ellcpp/oracles/cycle_ratio_oracle.hpp>
#include <cstdio>
#include <utility>
#include <vector>
struct G {
    using node_t = int;
    using edge_t = int;
    std::vector<int> N, Ed;
    std::vector<std::pair<int, int>> E;
    G(int n, std::vector<std::pair<int, int>> e) : E(e)
    {
        for (int i = 0; i < n; ++i) N.push_back(i);
        for (size_t k = 0; k < e.size(); ++k) Ed.push_back(int(k));
    }
    auto begin() const { return N.begin(); }
    auto end() const { return N.end(); }
    const std::vector<int>& edges() const { return Ed; }
    std::pair<int, int> end_points(int e) const { return E[size_t(e)]; }
    static int null_vertex() { return -1; }
};
int main()
{
    G g(2, {{0, 1}, {1, 0}});
    std::vector<double> u {0., 0.};
    auto c = [](int) { return 5.; };
    auto t = [](int) { return 1.; };
    cycle_ratio_oracle<G, std::vector<double>, decltype(c), decltype(t)> P(g, u, c, t);
    double best = 2.;
    auto r = P(2., best);
    if (std::get<1>(r)) return std::printf("equal value reported as an improvement\n"), 1;
}
'''
