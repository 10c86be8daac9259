// Bounded companion for P05: the factored ellipsoid against the plain one, cut by cut.
#include "h.hpp"
#include <ellcpp/cut_config.hpp>
#include <ellcpp/ell.hpp>
#include <ellcpp/ell_stable.hpp>
#include <memory>
#include <xtensor/xarray.hpp>
using namespace h;
using Arr = xt::xarray<double, xt::layout_type::row_major>;
using V = std::vector<double>;
using M = std::vector<V>;
static Arr arr(const V& v)
{
    Arr a = xt::zeros<double>({v.size()});
    for (size_t i = 0; i < v.size(); ++i) a(i) = v[i];
    return a;
}
// a factored shape of one's own, where the class still stores it as it did
struct Open : ell_stable {
    using ell_stable::ell_stable;
    template <class T> auto put(T& e, const M& Q, int) -> decltype(e._Q(0, 0) = 0., bool())
    {
        for (size_t i = 0; i < Q.size(); ++i)
            for (size_t j = 0; j < Q.size(); ++j) e._Q(i, j) = Q[i][j];
        return true;
    }
    template <class T> bool put(T&, const M&, long) { return false; }
};
template <class E> static double size(const E& e, const V& g)
{
    E c(e);
    auto [s, t] = c.update(std::make_tuple(arr(g), 1e12));
    check(s == CUTStatus::nosoln, "size probe: status ", int(s));
    return t;
}
template <class E> static M probe(const E& e, size_t n)
{
    M S(n, V(n));
    for (size_t i = 0; i < n; ++i) {
        V g(n);
        g[i] = 1;
        S[i][i] = size(e, g);
    }
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j) {
            V g(n), k(n);
            g[i] = g[j] = k[i] = 1;
            k[j] = -1;
            S[i][j] = S[j][i] = (size(e, g) - size(e, k)) / 4;
        }
    return S;
}
struct Shape {          // M = L^-T D L^-1
    V D;
    M L;
    V low(const V& g) const
    {
        V p(g);
        for (size_t i = 0; i < p.size(); ++i)
            for (size_t k = 0; k < i; ++k) p[i] -= L[i][k] * p[k];
        return p;
    }
    V up(V v) const
    {
        for (size_t i = v.size(); i-- > 0;)
            for (size_t k = i + 1; k < v.size(); ++k) v[i] -= L[k][i] * v[k];
        return v;
    }
    V mul(const V& g) const
    {
        V p = low(g);
        for (size_t i = 0; i < p.size(); ++i) p[i] *= D[i];
        return up(p);
    }
    M full(double kappa) const
    {
        size_t n = D.size();
        M S(n, V(n));
        for (size_t j = 0; j < n; ++j) {
            V e(n);
            e[j] = 1;
            V c = mul(e);
            for (size_t i = 0; i < n; ++i) S[i][j] = kappa * c[i];
        }
        return S;
    }
};
static bool same(const M& a, const M& b)
{
    double sc = 0;
    for (auto& r : b)
        for (double x : r) sc = std::max(sc, std::fabs(x));
    for (size_t i = 0; i < a.size(); ++i)
        for (size_t j = 0; j < a.size(); ++j)
            if (!(std::fabs(a[i][j] - b[i][j]) <= 1e-7 * sc)) return false;
    return true;
}
static bool same(const Arr& a, const V& b, double sc)
{
    for (size_t i = 0; i < b.size(); ++i)
        if (!(std::fabs(a(i) - b[i]) <= 1e-7 * (sc + std::fabs(b[i])))) return false;
    return true;
}
static std::string strm(const M& m)
{
    std::string s = "{";
    for (auto& r : m) s += strv(r);
    return s + "}";
}
int main(int argc, char** argv)
{
    return run(argc, argv, [](const std::string&, Rng& r, long) {
        const size_t n = r.coin(.5) ? 2 : r.in(2, 5);
        const bool exact = r.coin(.15);            // powers of two: the limits of the cases are hit exactly
        Shape sh {V(n, 1.), M(n, V(n))};
        for (size_t i = 0; i < n; ++i) sh.L[i][i] = 1;
        double kappa = 1;
        V x0(n);
        for (auto& v : x0) v = r.in(-8, 8) / 4.;
        std::unique_ptr<Open> ep;
        if (exact || r.coin(.4)) {
            kappa = exact ? std::pow(4., r.in(-2, 2)) : r.in(1, 40) / 4.;
            ep = std::make_unique<Open>(kappa, arr(x0));
            input("ell_stable(", kappa, ", ", strv(x0), ")");
        } else {
            for (auto& v : sh.D) v = r.in(1, 24) / 4.;
            ep = std::make_unique<Open>(arr(sh.D), arr(x0));
            input("ell_stable(", strv(sh.D), ", ", strv(x0), ")");
        }
        Open& e = *ep;
        if (!exact && r.coin(.5)) {
            M Q(n, V(n));
            Shape s2 = sh;
            for (size_t i = 0; i < n; ++i) {
                Q[i][i] = s2.D[i] = r.in(1, 16) / 4.;
                for (size_t j = 0; j < n; ++j)
                    if (i < j) Q[i][j] = s2.L[j][i] = r.in(-6, 6) / 4.;
                    else if (j < i) Q[i][j] = r.in(-6, 6) / 4.;   // scratch
            }
            if (e.put(e, Q, 0)) { sh = s2; input(" factored shape ", strm(Q)); }
        }
        e.use_parallel_cut = r.coin(.8);
        if (r.coin(.2)) e.no_defer_trick = true;
        M S = sh.full(kappa);
        check(same(probe(e, n), S), "represented ellipsoid at the start ", strm(probe(e, n)), ", expected ", strm(S));
        for (int round = r.in(1, 5); round-- > 0;) {
            V g(n);
            if (exact || r.coin(.2)) g[r.in(0, int(n) - 1)] = std::pow(2., r.in(-2, 2)) * (r.coin() ? 1 : -1);
            else
                do for (auto& v : g) v = r.coin(.15) ? 0 : r.in(-16, 16) / 8.;
                while (std::all_of(g.begin(), g.end(), [](double v) { return v == 0; }));
            V Mg = sh.mul(g);
            double om = 0;
            for (size_t i = 0; i < n; ++i) om += g[i] * Mg[i];
            const double tsq = kappa * om, tau = std::sqrt(tsq);
            const int kind = r.in(0, 3);           // one plane, array of one, two planes
            double u = exact ? (r.coin() ? -1. / double(n) : r.in(-4, 3) / 4.) : r.in(-40, 44) / 37. + .001;
            double v = exact ? std::max(u + .25, r.in(-2, 6) / 4.) : u + r.in(1, 60) / 41.;
            if (r.coin(.15) && !exact) u = -v;
            if (!exact && std::fabs(std::fabs(v) - 1) < 1e-6) continue;
            const double b0 = tau * u, b1 = tau * v;
            input(" g=", strv(g), " beta=", b0, kind > 1 ? cat(",", b1) : std::string(kind == 1 ? "(array)" : ""));
            // the same cut on a plain ball: position along the cut, scale, contraction
            ell P(1., arr(V(n)));
            P.use_parallel_cut = e.use_parallel_cut;
            V pg(n);
            pg[0] = tau;
            auto go = [&](auto& E, const V& d) {
                if (kind == 0) return E.update(std::make_tuple(arr(d), b0));
                return E.update(std::make_tuple(arr(d), kind == 1 ? arr({b0}) : arr({b0, b1})));
            };
            auto [ps, pt] = go(P, pg);
            const Arr xb = e.xc();
            auto [s, t] = go(e, g);
            check(close(t, tsq), "size ", t, ", expected ", tsq);
            if (exact && s != ps) return;
            check(s == ps, "status ", int(s), ", the plain update reports ", int(ps));
            M now = probe(e, n);
            V xo(n);
            double sc = 0;
            for (size_t i = 0; i < n; ++i) { xo[i] = xb(i); sc = std::max(sc, std::sqrt(S[i][i])); }
            if (s != CUTStatus::success) {
                check(same(now, S), "an unsuccessful update changes the ellipsoid to ", strm(now));
                check(same(e.xc(), xo, sc), "an unsuccessful update moves the centre");
                continue;
            }
            ++nontrivial();
            V e0(n), e1(n);
            e0[0] = e1[1] = 1;
            const double delta = size(P, e1), sigma = 1 - size(P, e0) / delta, rho = -tau * P.xc()(0);
            if (!(delta > 1e-6) || !(sigma < 1 - 1e-6)) return;    // (nearly) a point: nothing left to compare
            // centre
            V p = sh.low(g), Dp(n), good(n), wrong(n), vw(n);
            for (size_t i = 0; i < n; ++i) { Dp[i] = p[i] * sh.D[i]; good[i] = xo[i] - rho / om * Mg[i]; }
            vw = Dp;
            for (size_t i = n - 1; i > 0; --i)
                for (size_t j = i; j < n; ++j) vw[i - 1] -= (i == j ? sh.D[i] : sh.L[j][i]) * vw[j];
            double ws = sc;
            for (size_t i = 0; i < n; ++i) { wrong[i] = xo[i] - rho / om * vw[i]; ws = std::max(ws, std::fabs(rho / om * vw[i])); }
            if (!same(e.xc(), good, sc)) {
                V c(n);
                for (size_t i = 0; i < n; ++i) c[i] = e.xc()(i);
                check(same(e.xc(), wrong, ws), "centre ", strv(c), ", the plain update gives ", strv(good));
                known().insert("centre-step");
            }
            // shape
            Shape a = sh, b = sh;
            double t0 = (1 - sigma) * om;
            V w(g);
            for (size_t j = 0; j < n; ++j) {
                const double t1 = t0 + sigma * p[j] * Dp[j], be = sigma * Dp[j] / t1;
                a.D[j] = b.D[j] = sh.D[j] * t0 / t1;
                for (size_t l = j + 1; l < n; ++l) {
                    w[l] -= sh.L[l][j] * p[j];
                    a.L[l][j] += be * w[l];
                    b.L[l][j] += be * sh.L[l][j] * p[j];
                }
                t0 = t1;
            }
            M G = S;
            for (size_t i = 0; i < n; ++i)
                for (size_t j = 0; j < n; ++j) G[i][j] = delta * (S[i][j] - sigma / om * kappa * Mg[i] * Mg[j]);
            kappa *= delta;
            if (same(now, G)) sh = a;
            else {
                check(same(now, b.full(kappa)), "represented ellipsoid ", strm(now), ", the plain update gives ", strm(G));
                known().insert("tri-factor");
                sh = b;
            }
            S = sh.full(kappa);
            for (auto& row : S)
                for (double q : row)
                    if (!(std::fabs(q) < 1e6)) return;
        }
    });
}
