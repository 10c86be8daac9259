prop = 'P28'
needs = 'a node whose first outgoing edge is a self loop'
breaks = 'the edges of a node leave out a self loop that comes first'
subs = [('lib/include/py2cpp/nx2bgl.hpp', '        return boost::out_edges(this->_v, this->G).first;\n    }\n\n    /*!\n     * @brief\n     *\n     * @return auto\n     */\n    auto end() const', '        auto range = boost::out_edges(this->_v, this->G);\n        if (range.first != range.second &&\n            boost::target(*range.first, this->G) == this->_v)\n        {\n            ++range.first;\n        }\n        return range.first;\n    }\n\n    /*!\n     * @brief\n     *\n     * @return auto\n     */\n    auto end() const')]
srcs = []
demo = r'''
#include <boost/graph/adjacency_list.hpp>
#include <py2cpp/nx2bgl.hpp>
#include <cstdio>
using graph_t = boost::adjacency_list<boost::listS, boost::vecS, boost::directedS, boost::no_property, boost::property<boost::edge_weight_t, int>>;
int main()
{
    graph_t g(3);
    boost::add_edge(1, 1, g);
    boost::add_edge(1, 2, g);
    xn::grAdaptor<graph_t> G {std::move(g)};
    int n = 0;
    for (auto e : G.neighbors(1)) { if (G.source(e) != 1) return 2; ++n; }
    if (n != 2) return std::printf("%d edges\n", n), 1;
}
'''
