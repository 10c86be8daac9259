// Abstract oracles and search spaces: declarations only, behaviour by contract.
struct AbsX { };
struct AbsCut { };
struct AbsFeasOracle { std::optional<AbsCut> operator()(const AbsX&); };
struct AbsOptOracle { std::tuple<AbsCut, bool> operator()(const AbsX&, double&); };
struct AbsQOracle { std::tuple<AbsCut, AbsX, bool, bool> operator()(const AbsX&, double&, bool); };
struct AbsParOracle { void update(const double&); std::optional<AbsCut> operator()(const AbsX&); };
struct AbsSpace {
    AbsX xc() const;
    void set_xc(const AbsX&);
    AbsSpace copy() const;
    std::tuple<CUTStatus, double> update(const AbsCut&);
};
struct AbsPred { bool operator()(const double&); };
struct AbsPredI { bool operator()(const long&); };
void vrf_driver(AbsFeasOracle& F, AbsOptOracle& O, AbsQOracle& Q, AbsSpace& S, double& t, const Options& opt, AbsPred& P,
    AbsPredI& PI, AbsParOracle& PO)
{
    auto a = cutting_plane_feas(F, S, opt);
    auto b = cutting_plane_dc(O, S, t, opt);
    auto c = cutting_plane_q(Q, S, t, opt);
    auto I = std::make_pair(0., 1.);
    auto d = bsearch(P, I, opt);
    auto J = std::make_pair(0L, 1L);
    auto e = bsearch(PI, J, opt);
    bsearch_adaptor<AbsParOracle, AbsSpace> A(PO, S, opt);
    bsearch_adaptor<AbsParOracle, AbsSpace> A2(PO, S);
    auto f = A(t);
    auto g = A.x_best();
}
