prop = 'P19'
needs = 'a negative self-loop and no other change in the round'
breaks = 'a relaxation along a self-loop does not count as a change, so a graph whose only negative cycle is a self-loop gets an empty answer'
srcs = []
subs = [('lib/include/netoptim/neg_cycle.hpp', '                changed = true;\n', '                changed = changed || u != v;\n')]
demo = r'''
#include <netoptim/neg_cycle.hpp>
#include <cstdio>
#include <utility>
#include <vector>
struct G {
    using node_t = int;
    using edge_t = int;
    std::vector<int> N, Ed;
    std::vector<std::pair<int, int>> E;
    G(int n, std::vector<std::pair<int, int>> e) : E(e)
    {
        for (int i = 0; i < n; ++i) N.push_back(i);
        for (size_t k = 0; k < e.size(); ++k) Ed.push_back(int(k));
    }
    auto begin() const { return N.begin(); }
    auto end() const { return N.end(); }
    const std::vector<int>& edges() const { return Ed; }
    std::pair<int, int> end_points(int e) const { return E[size_t(e)]; }
    static int null_vertex() { return -1; }
};
int main()
{
    G g(2, {{0, 1}, {1, 1}});
    double w[] = {1., -1.};
    std::vector<double> d {0., 0.};
    negCycleFinder<G> S(g);
    auto C = S.find_neg_cycle(d, [&](int e) { return w[e]; });
    if (C.size() != 1 || C[0] != 1) return std::printf("%zu edges\n", C.size()), 1;
}
'''
