// Bounded companion for P28: the graph adaptor against the edge list the graph was made from.
#include "h.hpp"
#include <boost/graph/adjacency_list.hpp>
#include <boost/graph/graph_traits.hpp>
#include <algorithm>
#include <map>
#include <set>
#include <py2cpp/nx2bgl.hpp>
using namespace h;
using graph_t = boost::adjacency_list<boost::listS, boost::vecS, boost::directedS, boost::no_property, boost::property<boost::edge_weight_t, int>>;
using PE = std::pair<size_t, size_t>;
int main(int argc, char** argv)
{
    return run(argc, argv, [](const std::string&, Rng& r, long) {
        const auto n = size_t(r.in(1, 6));
        const auto m0 = size_t(r.in(0, 8)), m1 = size_t(r.in(0, 4));
        std::vector<PE> es;
        graph_t base(n);
        for (size_t i = 0; i < m0; ++i) { es.push_back({size_t(r.in(0, int(n) - 1)), size_t(r.in(0, int(n) - 1))}); boost::add_edge(es.back().first, es.back().second, base); }
        xn::grAdaptor<graph_t> G {std::move(base)};
        for (size_t i = 0; i < m1; ++i) {
            PE e {size_t(r.in(0, int(n) - 1)), size_t(r.in(0, int(n) - 1))};
            es.push_back(e);
            const auto d = G.add_edge(e.first, e.second).first;
            check(G.end_points(d) == e, "end points of the edge just added");
        }
        std::string all;
        for (auto& e : es) all += std::to_string(e.first) + ">" + std::to_string(e.second) + " ";
        input(n, " nodes, edges ", all);
        check(G.number_of_nodes() == n && G.number_of_edges() == es.size(), "numbers of nodes and edges: ", G.number_of_nodes(), ", ", G.number_of_edges());
        std::vector<size_t> nodes, cnodes;
        for (auto v : G) { nodes.push_back(v); check(nodes.size() <= n, "iteration over the nodes goes on"); }
        for (auto it = G.cbegin(); it != G.cend(); ++it) { cnodes.push_back(*it); check(cnodes.size() <= n, "iteration over the nodes goes on"); }
        std::sort(nodes.begin(), nodes.end()); std::sort(cnodes.begin(), cnodes.end());
        check(nodes.size() == n && nodes == cnodes, "nodes seen: ", nodes.size(), ", ", cnodes.size());
        for (size_t i = 0; i < n; ++i) { check(nodes[i] == i, "node ", i, " is not seen exactly once"); check(nodes[i] != G.null_vertex(), "node ", i, " is the null node"); }
        auto want = es; std::sort(want.begin(), want.end());
        for (int c = 0; c < 2; ++c) {
            std::vector<PE> got;
            auto E = G.edges();
            auto it = c ? E.cbegin() : E.begin(); const auto end = c ? E.cend() : E.end();
            for (; it != end; ++it) {
                const auto e = *it;
                const auto p = G.end_points(e);
                check(p.first == G.source(e) && p.second == G.target(e), "end points and source/target differ");
                got.push_back(p);
                check(got.size() <= want.size(), "iteration over the edges goes on");
            }
            std::sort(got.begin(), got.end());
            check(got == want, "edges seen differ from those of the graph");
            for (size_t v = 0; v < n; ++v) {
                std::vector<PE> out, mine;
                auto N = G.neighbors(v);
                auto o = c ? N.cbegin() : N.begin(); const auto oe = c ? N.cend() : N.end();
                for (; o != oe; ++o) { out.push_back(G.end_points(*o)); check(out.size() <= want.size(), "iteration over a node's edges goes on"); }
                for (auto& e : want) if (e.first == v) mine.push_back(e);
                std::sort(out.begin(), out.end());
                check(out == mine, "edges of node ", v, " differ from its outgoing edges");
            }
        }
    });
}
