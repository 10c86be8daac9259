// Instantiates the network-optimisation templates with abstract types: each
// has declarations only, and its behaviour is whatever its contract says.
enum class AbsNode : unsigned long {};
enum class AbsEdge : unsigned long {};
struct AbsEdgeIter {
    bool operator!=(const AbsEdgeIter&) const;
    bool operator==(const AbsEdgeIter&) const;
    AbsEdge operator*() const;
    AbsEdgeIter& operator++();
};
struct AbsEdges { AbsEdgeIter begin() const; AbsEdgeIter end() const; };
struct AbsNodeIter {
    bool operator!=(const AbsNodeIter&) const;
    bool operator==(const AbsNodeIter&) const;
    AbsNode operator*() const;
    AbsNodeIter& operator++();
};
struct AbsGraph {
    using node_t = AbsNode;
    using edge_t = AbsEdge;
    AbsEdges edges() const;
    std::pair<AbsNode, AbsNode> end_points(const AbsEdge&) const;
    static AbsNode null_vertex();
    AbsNodeIter begin() const;
    AbsNodeIter end() const;
    unsigned long number_of_nodes() const;
    unsigned long number_of_edges() const;
    AbsNode source(const AbsEdge&) const;
    AbsNode target(const AbsEdge&) const;
};
struct AbsDist { double& operator[](AbsNode); const double& operator[](AbsNode) const; };
struct AbsWeight { double operator()(const AbsEdge&) const; };
struct AbsParamWeight { double operator()(const double&, const AbsEdge&) const; };
struct AbsZeroCancel { double operator()(const std::vector<AbsEdge>&) const; };
struct AbsCost { double operator()(const AbsEdge&) const; };
struct AbsTime { double operator()(const AbsEdge&) const; };
struct AbsCostI { long operator()(const AbsEdge&) const; };
struct AbsTimeI { long operator()(const AbsEdge&) const; };
struct AbsH {
    double eval(const AbsEdge&, const double&) const;
    double grad(const AbsEdge&, const double&) const;
    void update(const double&);
};
struct AbsHV {
    double eval(const AbsEdge&, const Arr&) const;
    Arr grad(const AbsEdge&, const Arr&) const;
    void update(const double&);
};
std::vector<AbsEdge> drv_neg(AbsGraph& G, AbsDist& D, AbsWeight W)
{
    negCycleFinder<AbsGraph> S(G);
    return S.find_neg_cycle(D, W);
}
std::vector<AbsEdge> drv_param(AbsGraph& G, AbsDist& D, AbsParamWeight PW, AbsZeroCancel ZC, double& r, size_t n)
{
    return max_parametric(G, r, PW, ZC, D, n);
}
std::vector<AbsEdge> drv_ratio(AbsGraph& G, AbsDist& D, AbsCost C, AbsTime Tm, double& r, size_t n)
{
    return min_cycle_ratio(G, r, C, Tm, D, n);
}
std::vector<AbsEdge> drv_ratio2(AbsGraph& G, AbsDist& D, AbsCostI C, AbsTime Tm, double& r, size_t n)
{
    return min_cycle_ratio(G, r, C, Tm, D, n);
}
std::vector<AbsEdge> drv_ratio3(AbsGraph& G, AbsDist& D, AbsCost C, AbsTimeI Tm, double& r, size_t n)
{
    return min_cycle_ratio(G, r, C, Tm, D, n);
}
void drv_network(AbsGraph& G, AbsDist& D, AbsH H, AbsHV HV, double x, const Arr& xv)
{
    network_oracle<AbsGraph, AbsDist, AbsH> n1(G, D, H);
    n1.update(x);
    auto r1 = n1(x);
    network_oracle<AbsGraph, AbsDist, AbsHV> n2(G, D, HV);
    n2.update(x);
    auto r2 = n2(xv);
}
void drv_oracles(AbsGraph& G, AbsDist& D, AbsCost C, AbsTime Tm, double& r, double x, const Arr& xv)
{
    optscaling_oracle<AbsGraph, AbsDist, AbsCost> os(G, D, C);
    auto r3 = os(xv, r);
    cycle_ratio_oracle<AbsGraph, AbsDist, AbsCost, AbsTime> cr(G, D, C, Tm);
    auto r4 = cr(x, r);
}
