// Bounded companion for P19, P20, P21: small random graphs (parallel edges, self loops, several components)
// through a plain graph type and through the boost adaptor, against direct computations.
#include "h.hpp"
#include <boost/graph/adjacency_list.hpp>
#include <py2cpp/nx2bgl.hpp>
#include <netoptim/neg_cycle.hpp>
#include <netoptim/min_cycle_ratio.hpp>
#include <xtensor/xarray.hpp>
#include <ellcpp/oracles/network_oracle.hpp>
#include <ellcpp/oracles/optscaling_oracle.hpp>
#include <ellcpp/oracles/cycle_ratio_oracle.hpp>
using namespace h;
using Arr = xt::xarray<double, xt::layout_type::row_major>;
struct Plain {
    using node_t = int;
    using edge_t = int;
    std::vector<int> N;
    std::vector<int> Ed;
    std::vector<std::pair<int, int>> E;
    auto begin() const { return N.begin(); }
    auto end() const { return N.end(); }
    const std::vector<int>& edges() const { return Ed; }
    std::pair<int, int> end_points(int e) const { return E[size_t(e)]; }
    static int null_vertex() { return -1; }
    int source(int e) const { return E[size_t(e)].first; }
    int target(int e) const { return E[size_t(e)].second; }
    size_t number_of_nodes() const { return N.size(); }
    size_t number_of_edges() const { return E.size(); }
};
using bg = boost::adjacency_list<boost::vecS, boost::vecS, boost::directedS, boost::no_property, boost::property<boost::edge_index_t, int>>;
using Boost = xn::grAdaptor<bg>;
struct Shape { int n; std::vector<std::pair<int, int>> E; };
static Shape shape(Rng& r, bool loops)
{
    Shape s;
    s.n = r.in(1, 6);
    int m = r.in(0, r.coin(.3) ? 14 : 2 * s.n);
    for (int k = 0; k < m; ++k) {
        int a = r.in(0, s.n - 1), b = r.in(0, s.n - 1);
        if (a == b && (!loops || r.coin(.6))) { if (s.n == 1) continue; b = (a + 1) % s.n; }
        s.E.emplace_back(a, b);
    }
    std::ostringstream o;
    for (auto& e : s.E) o << e.first << ">" << e.second << " ";
    input("nodes ", s.n, " edges ", o.str());
    return s;
}
static Plain make(const Shape& s, Plain*)
{
    Plain g;
    for (int i = 0; i < s.n; ++i) g.N.push_back(i);
    for (size_t k = 0; k < s.E.size(); ++k) g.Ed.push_back(int(k));
    g.E = s.E;
    return g;
}
static Boost make(const Shape& s, Boost*)
{
    bg g {size_t(s.n)};
    for (size_t k = 0; k < s.E.size(); ++k) boost::add_edge(size_t(s.E[k].first), size_t(s.E[k].second), boost::property<boost::edge_index_t, int>(int(k)), g);
    return Boost {std::move(g)};
}
static int idx(const Plain&, int e) { return e; }
static int idx(const Boost& g, const Boost::edge_t& e) { return boost::get(boost::edge_index, g, e); }
using W = std::vector<double>;
// is there a cycle of negative weight?  (Floyd-Warshall on small graphs, weights exact)
static bool negative(const Shape& s, const W& w, double eps = 0)
{
    std::vector<std::vector<double>> d(size_t(s.n), std::vector<double>(size_t(s.n), 1e300));
    for (size_t k = 0; k < s.E.size(); ++k) { auto& x = d[size_t(s.E[k].first)][size_t(s.E[k].second)]; x = std::min(x, w[k]); }
    for (int k = 0; k < s.n; ++k) for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) {
        auto a = d[size_t(i)][size_t(k)], b = d[size_t(k)][size_t(j)];
        if (a < 1e299 && b < 1e299) {
            d[size_t(i)][size_t(j)] = std::max(-1e15, std::min(d[size_t(i)][size_t(j)], a + b));
        }
    }
    for (int i = 0; i < s.n; ++i) if (d[size_t(i)][size_t(i)] < -eps) return true;
    return false;
}
// the answer as edge indices, checked to be a simple cycle of the graph (listed against its direction)
template <class G, class C> static std::vector<int> cycle(const Shape& s, const G& g, const C& c)
{
    std::vector<int> r;
    for (auto&& e : c) { r.push_back(idx(g, e)); check(r.back() >= 0 && size_t(r.back()) < s.E.size(), "an entry of the answer is no edge of the graph"); check(r.size() <= size_t(s.n), "the answer is longer than a simple cycle"); }
    std::set<int> seen;
    for (size_t t = 0; t < r.size(); ++t) {
        auto& a = s.E[size_t(r[t])];
        auto& b = s.E[size_t(r[(t + 1) % r.size()])];
        check(a.first == b.second, "the edges of the answer do not join up at position ", t);
        check(seen.insert(a.second).second, "the answer visits node ", a.second, " twice");
    }
    return r;
}
static double total(const std::vector<int>& c, const W& w) { double s = 0; for (int e : c) s += w[size_t(e)]; return s; }
template <class D> static void satisfied(const Shape& s, const D& d, const W& w, double eps, const char* what)
{
    for (size_t k = 0; k < s.E.size(); ++k)
        check(d[size_t(s.E[k].second)] <= d[size_t(s.E[k].first)] + w[k] + eps, what, ": edge ", k, " is violated by the potentials");
}
static W weights(Rng& r, size_t m, int lo, int hi)
{
    W w(m);
    for (auto& x : w) x = r.in(lo, hi) / (r.coin(.3) ? 4. : 1.);
    input("weights ", strv(w));
    return w;
}
static W pots(Rng& r, int n)
{
    W d(size_t(n), 0.);
    if (r.coin(.6)) for (auto& x : d) x = r.in(-6, 6) / 2.;
    input("potentials ", strv(d));
    return d;
}
template <class G> static void p19(Rng& r)
{
    Shape s = shape(r, true);
    G g = make(s, (G*)nullptr);
    check(size_t(g.number_of_nodes()) == size_t(s.n) && size_t(g.number_of_edges()) == s.E.size(), "size of the graph");
    negCycleFinder<G> S(g);
    W d = pots(r, s.n);
    int lo = r.in(-5, 0);
    for (int rep = r.in(1, 3); rep > 0; --rep) {
        W w = weights(r, s.E.size(), lo, 6);
        bool neg = negative(s, w);
        if (neg) ++nontrivial();
        const W d0 = d;
        auto C = S.find_neg_cycle(d, [&](const typename G::edge_t& e) -> double { return w[size_t(idx(g, e))]; });
        auto c = cycle(s, g, C);
        if (c.empty()) {
            satisfied(s, d, w, 0, "empty answer");
            check(!neg, "empty answer although there is a negative cycle");
        } else {
            check(total(c, w) < 0, "the cycle returned has weight ", total(c, w));
            check(neg, "harness: negative cycle not found by the reference");
        }
        for (int i = 0; i < s.n; ++i) check(d[size_t(i)] <= d0[size_t(i)], "a potential went up");
        if (r.coin(.3)) d = pots(r, s.n);
        lo = r.in(-5, 1);
    }
}
// exact rationals, so that the search is judged by its logic and not by rounding
struct Big {};
struct Q {
    __int128 n = 0, d = 1;
    Q() = default;
    Q(double x) { double m = x * 64; n = (long long)m; d = 64; norm(); }
    Q(int x) : n(x) {}
    Q(__int128 a, __int128 b) : n(a), d(b) { norm(); }
    void norm()
    {
        if (d < 0) { n = -n; d = -d; }
        __int128 a = n < 0 ? -n : n, b = d;
        while (b) { auto t = a % b; a = b; b = t; }
        if (a > 1) { n /= a; d /= a; }
        const __int128 lim = (__int128)1 << 60;
        if (n > lim || -n > lim || d > lim) throw Big {};
    }
    explicit operator double() const { return double(n) / double(d); }
    friend Q operator+(Q a, Q b) { return Q(a.n * b.d + b.n * a.d, a.d * b.d); }
    friend Q operator-(Q a, Q b) { return Q(a.n * b.d - b.n * a.d, a.d * b.d); }
    friend Q operator*(Q a, Q b) { return Q(a.n * b.n, a.d * b.d); }
    friend Q operator/(Q a, Q b) { return Q(a.n * b.d, a.d * b.n); }
    Q& operator+=(Q b) { return *this = *this + b; }
    Q& operator-=(Q b) { return *this = *this - b; }
    friend bool operator<(Q a, Q b) { return a.n * b.d < b.n * a.d; }
    friend bool operator>(Q a, Q b) { return b < a; }
    friend bool operator>=(Q a, Q b) { return !(a < b); }
    friend bool operator<=(Q a, Q b) { return !(b < a); }
    friend bool operator==(Q a, Q b) { return a.n == b.n && a.d == b.d; }
    friend bool operator!=(Q a, Q b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, Q a) { return o << (long long)a.n << "/" << (long long)a.d; }
};
static Q total(const std::vector<int>& c, const std::vector<Q>& w) { Q s; for (int e : c) s += w[size_t(e)]; return s; }
static bool negativeQ(const Shape& s, const std::vector<Q>& w)
{
    std::vector<Q> d(size_t(s.n));
    for (int k = 0; k <= s.n; ++k) {
        bool ch = false;
        for (size_t e = 0; e < w.size(); ++e) {
            Q v = d[size_t(s.E[e].first)] + w[e];
            if (v < d[size_t(s.E[e].second)]) { d[size_t(s.E[e].second)] = v; ch = true; }
        }
        if (!ch) return false;
    }
    return true;
}
template <class G> static void p20x(Rng& r);
template <class G> static void p20(Rng& r)
{
    try { p20x<G>(r); } catch (const Big&) {}
}
template <class G> static void p20x(Rng& r)
{
    Shape s = shape(r, true);
    G g = make(s, (G*)nullptr);
    auto d0 = pots(r, s.n);
    auto c0 = weights(r, s.E.size(), -5, 9);
    std::vector<Q> d(d0.begin(), d0.end()), cost(c0.begin(), c0.end()), tim(s.E.size());
    for (auto& x : tim) { x = Q(r.in(1, 5), r.coin(.3) ? 2 : 1); input("time ", x); }
    const Q r0 = r.coin(.5) ? Q(1000) : Q(4 * r.in(-8, 10) + 1, 4);
    Q rr = r0;
    std::vector<int> icost(s.E.size()), itime(s.E.size());
    std::vector<double> dcost(s.E.size()), dtime(s.E.size());      // exact in these ranges
    for (size_t k = 0; k < dcost.size(); ++k) { dcost[k] = double(cost[k]); dtime[k] = double(tim[k]); }
    size_t lim = r.coin(.2) ? size_t(r.in(0, 2)) : 1000, calls = 0;
    int variant = r.in(0, 4);
    input("initial ", r0, " limit ", lim, " variant ", variant);
    using edge_t = typename G::edge_t;
    std::vector<edge_t> C;
    Q shift;
    std::vector<std::pair<std::vector<int>, Q>> seen;
    if (variant == 0) {
        C = min_cycle_ratio(g, rr, [&](const edge_t& e) { return cost[size_t(idx(g, e))]; }, [&](const edge_t& e) { return tim[size_t(idx(g, e))]; }, d, lim);
    } else if (variant == 3) {
        for (size_t k = 0; k < icost.size(); ++k) { icost[k] = r.in(-5, 9); cost[k] = Q(icost[k]); input("whole cost ", icost[k]); }
        C = min_cycle_ratio(g, rr, [&](const edge_t& e) { return icost[size_t(idx(g, e))]; }, [&](const edge_t& e) { return dtime[size_t(idx(g, e))]; }, d, lim);
    } else if (variant == 4) {
        for (size_t k = 0; k < itime.size(); ++k) { itime[k] = r.in(1, 5); tim[k] = Q(itime[k]); input("whole time ", itime[k]); }
        C = min_cycle_ratio(g, rr, [&](const edge_t& e) { return dcost[size_t(idx(g, e))]; }, [&](const edge_t& e) { return itime[size_t(idx(g, e))]; }, d, lim);
    } else {
        // a general parametric problem, whose cycle value may fail to improve
        shift = Q(variant == 2 ? r.in(0, 3) : 0);
        auto dd = [&](const Q& p, const edge_t& e) { return cost[size_t(idx(g, e))] - p * tim[size_t(idx(g, e))]; };
        auto zc = [&](const std::vector<edge_t>& c) {
            ++calls;
            auto ix = cycle(s, g, c);
            Q v = total(ix, cost) / total(ix, tim) + shift;
            seen.emplace_back(ix, v);
            return v;
        };
        C = max_parametric(g, rr, dd, zc, d, lim);
        check(calls <= lim, "more rounds than the limit");
    }
    auto c = cycle(s, g, C);
    check(rr <= r0, "the parameter went up from ", r0, " to ", rr);
    std::vector<Q> w(s.E.size());
    for (size_t k = 0; k < w.size(); ++k) w[k] = cost[k] - rr * tim[k];
    if (c.empty()) check(rr == r0, "the parameter changed to ", rr, " but no cycle is returned");
    else {
        ++nontrivial();
        check(total(c, cost) / total(c, tim) + shift == rr, "the parameter is ", rr, " but the returned cycle has value ", total(c, cost) / total(c, tim) + shift);
        check(rr < r0, "a cycle is returned but the parameter did not change");
    }
    if (lim >= 1000) {
        bool neg = negativeQ(s, w);
        if (variant != 2) check(!neg, "a cycle with a smaller ratio than ", rr, " exists");
        else if (neg) check(!seen.empty() && seen.back().second >= rr && total(seen.back().first, w) < Q(0), "stopped although a violating cycle allows a smaller value");
    }
}
template <class G> struct HV {
    const G& g; const std::vector<W>& co; double* p;
    double eval(const typename G::edge_t& e, const Arr& x) const { auto& c = co[size_t(idx(g, e))]; return c[0] - *p * c[4] + c[1] * x(0) + c[2] * x(1) - c[3] * x(0) * x(0); }
    Arr grad(const typename G::edge_t& e, const Arr& x) const { auto& c = co[size_t(idx(g, e))]; return Arr {c[1] - 2 * c[3] * x(0), c[2]}; }
    void update(const double& t) { *p = t; }
};
template <class G> struct HS {
    const G& g; const std::vector<W>& co; double* p;
    double eval(const typename G::edge_t& e, const double& x) const { auto& c = co[size_t(idx(g, e))]; return c[0] - *p * c[4] + c[1] * x - c[3] * x * x; }
    double grad(const typename G::edge_t& e, const double& x) const { auto& c = co[size_t(idx(g, e))]; return c[1] - 2 * c[3] * x; }
    void update(const double& t) { *p = t; }
};
static double pt(Rng& r) { return r.in(-16, 16) / 4.; }
template <class G> static void network(Rng& r)
{
    Shape s = shape(r, true);
    G g = make(s, (G*)nullptr);
    W d = pots(r, s.n);
    std::vector<W> co;
    for (size_t k = 0; k < s.E.size(); ++k) co.push_back({r.in(-3, 6) / 1., r.in(-2, 2) / 1., r.in(-2, 2) / 1., r.coin(.3) ? r.in(0, 2) / 2. : 0., r.in(0, 2) / 2.});
    for (auto& c : co) input(strv(c));
    double pv = 0, ps = 0;
    HV<G> hv {g, co, &pv};
    HS<G> hs {g, co, &ps};
    network_oracle<G, W, HV<G>> ov(g, d, hv);
    network_oracle<G, W, HS<G>> os(g, d, hs);
    double p = 0;
    for (int rep = 3; rep > 0; --rep) {
        if (r.coin()) { p = r.in(-2, 3); ov.update(p); os.update(p); check(pv == p && ps == p, "update does not reach the edge function"); input("update ", p); }
        Arr x {pt(r), pt(r)};
        double y = pt(r);
        input("point ", x(0), " ", x(1), " scalar ", y);
        auto wv = [&](const Arr& z) { W w; for (auto& c : co) w.push_back(c[0] - p * c[4] + c[1] * z(0) + c[2] * z(1) - c[3] * z(0) * z(0)); return w; };
        auto wsc = [&](double z) { W w; for (auto& c : co) w.push_back(c[0] - p * c[4] + c[1] * z - c[3] * z * z); return w; };
        auto cut = ov(x);
        check(bool(cut) == negative(s, wv(x)), cut ? "rejects a point admitting potentials" : "accepts a point without potentials");
        if (!cut) satisfied(s, d, wv(x), 0, "accepted point");
        else {
            ++nontrivial();
            auto& gr = std::get<0>(*cut);
            double f = std::get<1>(*cut);
            check(f > 0, "the cut is not violated at the point: ", f);
            check(gr.size() == 2, "dimension of the cut");
            for (int k = 0; k < 30; ++k) {
                Arr z {pt(r), pt(r)};
                if (!negative(s, wv(z))) check(gr(0) * (z(0) - x(0)) + gr(1) * (z(1) - x(1)) + f <= 1e-9, "the cut removes the feasible point ", z(0), " ", z(1));
            }
        }
        auto c2 = os(y);
        check(bool(c2) == negative(s, wsc(y)), c2 ? "rejects a scalar point admitting potentials" : "accepts a scalar point without potentials");
        if (!c2) satisfied(s, d, wsc(y), 0, "accepted scalar point");
        else {
            double gr = std::get<0>(*c2), f = std::get<1>(*c2);
            check(f > 0, "the scalar cut is not violated at the point: ", f);
            for (int k = 0; k < 30; ++k) {
                double z = pt(r);
                if (!negative(s, wsc(z))) check(gr * (z - y) + f <= 1e-9, "the scalar cut removes the feasible point ", z);
            }
        }
    }
}
template <class G> static void scaling(Rng& r)
{
    Shape s = shape(r, false);
    G g = make(s, (G*)nullptr);
    W d = pots(r, s.n), cost = weights(r, s.E.size(), -4, 4);
    auto gc = [&](const typename G::edge_t& e) { return cost[size_t(idx(g, e))]; };
    optscaling_oracle<G, W, decltype(gc)> P(g, d, gc);
    auto ws = [&](const Arr& x) { W w; for (size_t k = 0; k < s.E.size(); ++k) w.push_back(s.E[k].first < s.E[k].second ? x(0) - cost[k] : cost[k] - x(1)); return w; };
    double t = r.coin() ? 1e100 : r.in(-2, 12);
    for (int rep = 4; rep > 0; --rep) {
        Arr x {pt(r) * 2, pt(r) * 2};
        input("point ", x(0), " ", x(1), " best ", t);
        const double told = t;
        auto res = P(x, t);
        auto& gr = std::get<0>(std::get<0>(res));
        double f = std::get<1>(std::get<0>(res));
        bool shr = std::get<1>(res), ok = !negative(s, ws(x));
        if (shr) {
            ++nontrivial();
            check(ok, "improvement at an infeasible point");
            satisfied(s, d, ws(x), 0, "improvement");
            check(t == x(0) - x(1), "the best value is not that of the point");
            check(t < told, "improvement to a value that is not better");
        } else check(t == told, "the best value changed without an improvement");
        check(f >= 0, "the cut is not violated at the point: ", f);
        for (int k = 0; k < 40; ++k) {
            Arr z {pt(r) * 2, pt(r) * 2};
            if (!negative(s, ws(z)) && z(0) - z(1) < t) check(gr(0) * (z(0) - x(0)) + gr(1) * (z(1) - x(1)) + f <= 1e-9, "the cut removes the better feasible point ", z(0), " ", z(1));
        }
        if (!shr && f == 0) check(!ok || x(0) - x(1) >= told, "no improvement although the point is feasible and better");
    }
}
template <class G> static void ratio(Rng& r)
{
    Shape s = shape(r, true);
    G g = make(s, (G*)nullptr);
    W d = pots(r, s.n), cost = weights(r, s.E.size(), -4, 8), tim(s.E.size());
    for (auto& x : tim) x = r.in(1, 4);
    input("times ", strv(tim));
    auto gc = [&](const typename G::edge_t& e) { return cost[size_t(idx(g, e))]; };
    auto gt = [&](const typename G::edge_t& e) { return tim[size_t(idx(g, e))]; };
    cycle_ratio_oracle<G, W, decltype(gc), decltype(gt)> P(g, d, gc, gt);
    auto ws = [&](double x) { W w; for (size_t k = 0; k < s.E.size(); ++k) w.push_back(cost[k] - tim[k] * x); return w; };
    double t = r.coin() ? -1e100 : r.in(-6, 3);
    for (int rep = 4; rep > 0; --rep) {
        double x = pt(r);
        input("point ", x, " best ", t);
        const double told = t;
        auto res = P(x, t);
        double gr = std::get<0>(std::get<0>(res)), f = std::get<1>(std::get<0>(res));
        bool shr = std::get<1>(res), ok = !negative(s, ws(x));
        if (shr) {
            ++nontrivial();
            check(ok, "improvement at an infeasible point");
            satisfied(s, d, ws(x), 0, "improvement");
            check(t == x && t > told, "the best value is not that of the point, or not better");
        } else {
            check(t == told, "the best value changed without an improvement");
            check(!ok || x <= told, "no improvement although the point is feasible and better");
        }
        check(f >= 0, "the cut is not violated at the point: ", f);
        for (int k = 0; k < 40; ++k) {
            double z = pt(r);
            if (!negative(s, ws(z)) && z > t) check(gr * (z - x) + f <= 1e-9, "the cut removes the better feasible point ", z);
        }
    }
}
int main(int argc, char** argv)
{
    return run(argc, argv, [](const std::string& p, Rng& r, long k) {
        bool b = k % 3 == 1;
        if (b) input("boost graph");
        if (p == "P19") b ? p19<Boost>(r) : p19<Plain>(r);
        else if (p == "P20") b ? p20<Boost>(r) : p20<Plain>(r);
        else switch (r.in(0, 2)) {
            case 0: b ? network<Boost>(r) : network<Plain>(r); break;
            case 1: b ? scaling<Boost>(r) : scaling<Plain>(r); break;
            default: b ? ratio<Boost>(r) : ratio<Plain>(r);
        }
    });
}
