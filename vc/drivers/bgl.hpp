// What a user of the graph adaptor writes; the obligations are about these functions.
using bgl_t = boost::adjacency_list<boost::listS, boost::vecS, boost::directedS, boost::no_property, boost::property<boost::edge_weight_t, int>>;
using bg = xn::grAdaptor<bgl_t>;
auto g_vbegin(const bg& g) { return g.begin(); }
auto g_vend(const bg& g) { return g.end(); }
auto g_vcbegin(const bg& g) { return g.cbegin(); }
auto g_vcend(const bg& g) { return g.cend(); }
auto g_ebegin(const bg& g) { return g.edges().begin(); }
auto g_eend(const bg& g) { return g.edges().end(); }
auto g_ecbegin(const bg& g) { return g.edges().cbegin(); }
auto g_ecend(const bg& g) { return g.edges().cend(); }
auto g_nbegin(const bg& g, bg::node_t v) { return g.neighbors(v).begin(); }
auto g_nend(const bg& g, bg::node_t v) { return g.neighbors(v).end(); }
auto g_ncbegin(const bg& g, bg::node_t v) { return g.neighbors(v).cbegin(); }
auto g_ncend(const bg& g, bg::node_t v) { return g.neighbors(v).cend(); }
auto g_ends(const bg& g, const bg::edge_t& e) { return g.end_points(e); }
auto g_source(const bg& g, const bg::edge_t& e) { return g.source(e); }
auto g_target(const bg& g, const bg::edge_t& e) { return g.target(e); }
auto g_null() { return bg::null_vertex(); }
auto g_nodes(const bg& g) { return g.number_of_nodes(); }
auto g_edges(const bg& g) { return g.number_of_edges(); }
auto g_add(bg& g, size_t u, size_t v) { return g.add_edge(u, v); }
auto g_wrap(bgl_t& g) { return bg {std::move(g)}; }
