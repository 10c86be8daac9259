prop = 'P21'
needs = 'a best value already set and a feasible point that is worse'
breaks = 'the offset of the objective cut is kept nonnegative against the wrong side, so the cut for a worse point stops at the point and better points survive only by chance'
srcs = []
subs = [('lib/include/ellcpp/oracles/optscaling_oracle.hpp', '        return {{Arr {1., -1.}, fj}, false};\n', '        return {{Arr {1., -1.}, std::max(fj, s)}, false};\n')]
demo = r'''
#include <ellcpp/oracles/optscaling_oracle.hpp>
#include <algorithm>
#include <cstdio>
#include <utility>
#include <vector>
struct G {
    using node_t = int;
    using edge_t = int;
    std::vector<int> N, Ed;
    std::vector<std::pair<int, int>> E;
    G(int n, std::vector<std::pair<int, int>> e) : E(e)
    {
        for (int i = 0; i < n; ++i) N.push_back(i);
        for (size_t k = 0; k < e.size(); ++k) Ed.push_back(int(k));
    }
    auto begin() const { return N.begin(); }
    auto end() const { return N.end(); }
    const std::vector<int>& edges() const { return Ed; }
    std::pair<int, int> end_points(int e) const { return E[size_t(e)]; }
    static int null_vertex() { return -1; }
};
int main()
{
    G g(2, {{0, 1}, {1, 0}});
    std::vector<double> u {0., 0.};
    auto c = [](int) { return 0.; };
    optscaling_oracle<G, std::vector<double>, decltype(c)> P(g, u, c);
    double best = 3.;
    Arr x {4., -4.};
    auto r = P(x, best);
    // better feasible point (1, -1)
    auto& g0 = std::get<0>(std::get<0>(r));
    double v = g0(0) * (1. - x(0)) + g0(1) * (-1. - x(1)) + std::get<1>(std::get<0>(r));
    if (std::get<1>(r) || v > 1e-9) return std::printf("the cut removes a better feasible point: %g\n", v), 1;
}
'''
