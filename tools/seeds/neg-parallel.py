prop = 'P19'
needs = 'parallel edges of different weight, the lighter one relaxed later'
breaks = 'the policy edge of a node is kept when its predecessor does not change, so with parallel edges the answer names an edge that was not relaxed last'
srcs = []
subs = [('lib/include/netoptim/neg_cycle.hpp', '                this->_pred[v] = u;\n                this->_edge[v] = e; // ???\n', '                if (!this->_pred.contains(v) || this->_pred[v] != u)\n                {\n                    this->_pred[v] = u;\n                    this->_edge[v] = e; // ???\n                }\n')]
demo = r'''
#include <netoptim/neg_cycle.hpp>
#include <cstdio>
#include <utility>
#include <vector>
struct G {
    using node_t = int;
    using edge_t = int;
    std::vector<int> N, Ed;
    std::vector<std::pair<int, int>> E;
    G(int n, std::vector<std::pair<int, int>> e) : E(e)
    {
        for (int i = 0; i < n; ++i) N.push_back(i);
        for (size_t k = 0; k < e.size(); ++k) Ed.push_back(int(k));
    }
    auto begin() const { return N.begin(); }
    auto end() const { return N.end(); }
    const std::vector<int>& edges() const { return Ed; }
    std::pair<int, int> end_points(int e) const { return E[size_t(e)]; }
    static int null_vertex() { return -1; }
};
int main()
{
    G g(2, {{0, 1}, {0, 1}, {1, 0}});
    double w[] = {2., -3., 1.};
    std::vector<double> d {0., 5.};
    negCycleFinder<G> S(g);
    auto C = S.find_neg_cycle(d, [&](int e) { return w[e]; });
    double s = 0;
    for (int e : C) s += w[e];
    if (C.size() != 2 || s >= 0) return std::printf("weight %g\n", s), 1;
}
'''
