prop = 'P20'
needs = 'a violating cycle whose value does not improve the parameter'
breaks = 'the cycle is recorded before it is known to improve the parameter, so the returned cycle is not the one the parameter was computed from'
srcs = []
subs = [('lib/include/netoptim/parametric.hpp', '        const auto& r_min = zero_cancel(C_min);\n        if (r_min >= r_opt)\n        {\n            break;\n        }\n\n        C_opt = C_min;\n', '        const auto& r_min = zero_cancel(C_min);\n        C_opt = C_min;\n        if (r_min >= r_opt)\n        {\n            break;\n        }\n\n')]
demo = r'''
#include <netoptim/parametric.hpp>
#include <cstdio>
#include <utility>
#include <vector>
struct G {
    using node_t = int;
    using edge_t = int;
    std::vector<int> N, Ed;
    std::vector<std::pair<int, int>> E;
    G(int n, std::vector<std::pair<int, int>> e) : E(e)
    {
        for (int i = 0; i < n; ++i) N.push_back(i);
        for (size_t k = 0; k < e.size(); ++k) Ed.push_back(int(k));
    }
    auto begin() const { return N.begin(); }
    auto end() const { return N.end(); }
    const std::vector<int>& edges() const { return Ed; }
    std::pair<int, int> end_points(int e) const { return E[size_t(e)]; }
    static int null_vertex() { return -1; }
};
int main()
{
    G g(2, {{0, 1}, {1, 0}});
    std::vector<double> d {0., 0.};
    double r = 1.;
    auto C = max_parametric(g, r, [](double, int) { return -1.; }, [](const std::vector<int>&) { return 2.; }, d, 100);
    if (!(r == 1.) || !C.empty()) return std::printf("r %g, %zu edges returned\n", r, C.size()), 1;
}
'''
