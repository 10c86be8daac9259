prop = 'P28'
needs = 'a graph to which a second edge between the same two nodes is added through the adaptor'
breaks = 'adding a parallel edge returns the edge already there, so the graph has fewer edges than were added'
subs = [('lib/include/py2cpp/nx2bgl.hpp', '        return boost::add_edge(u, v, *this);', '        auto known = boost::edge(u, v, *this);\n        if (known.second)\n        {\n            return known; // already there\n        }\n        return boost::add_edge(u, v, *this);')]
srcs = []
demo = r'''
#include <boost/graph/adjacency_list.hpp>
#include <py2cpp/nx2bgl.hpp>
#include <cstdio>
using graph_t = boost::adjacency_list<boost::listS, boost::vecS, boost::directedS, boost::no_property, boost::property<boost::edge_weight_t, int>>;
int main()
{
    xn::grAdaptor<graph_t> G {graph_t(3)};
    G.add_edge(0, 1);
    G.add_edge(1, 2);
    G.add_edge(0, 1);
    int n = 0;
    for (auto e : G.edges()) { (void)e; ++n; }
    if (n != 3 || G.number_of_edges() != 3) return std::printf("%d edges\n", n), 1;
}
'''
