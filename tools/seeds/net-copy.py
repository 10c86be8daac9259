prop = 'P21'
needs = 'an accepted point whose potentials are read afterwards'
breaks = 'the search works on a copy of the potentials, so an accepting answer does not leave satisfying potentials behind'
srcs = []
subs = [('lib/include/ellcpp/oracles/network_oracle.hpp', '        auto C = this->_S.find_neg_cycle(this->_u, get_weight);\n', '        auto u = this->_u;\n        auto C = this->_S.find_neg_cycle(u, get_weight);\n')]
demo = r'''
#include <ellcpp/oracles/network_oracle.hpp>
#include <cstdio>
#include <utility>
#include <vector>
struct G {
    using node_t = int;
    using edge_t = int;
    std::vector<int> N, Ed;
    std::vector<std::pair<int, int>> E;
    G(int n, std::vector<std::pair<int, int>> e) : E(e)
    {
        for (int i = 0; i < n; ++i) N.push_back(i);
        for (size_t k = 0; k < e.size(); ++k) Ed.push_back(int(k));
    }
    auto begin() const { return N.begin(); }
    auto end() const { return N.end(); }
    const std::vector<int>& edges() const { return Ed; }
    std::pair<int, int> end_points(int e) const { return E[size_t(e)]; }
    static int null_vertex() { return -1; }
};
struct H {
    double eval(int e, const double& x) const { return e == 0 ? -2. + x : 3.; }
    double grad(int e, const double&) const { return e == 0 ? 1. : 0.; }
    void update(double) {}
};
int main()
{
    G g(2, {{0, 1}, {1, 0}});
    std::vector<double> u {0., 0.};
    network_oracle<G, std::vector<double>, H> P(g, u, H {});
    auto c = P(0.);
    if (c || u[1] > u[0] - 2. || u[0] > u[1] + 3.) return std::printf("potentials %g %g\n", u[0], u[1]), 1;
}
'''
