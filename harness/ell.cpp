// P01-P04 through the public interface only: the represented ellipsoid is read back as
// M(i,j) = kappa*Q(i,j) from the squared size that update returns for a cut far too shallow to act.
#include "h.hpp"
#include <ellcpp/cut_config.hpp>
#include <ellcpp/ell.hpp>
#include <tuple>
using Arr = xt::xarray<double, xt::layout_type::row_major>;
using Vec = std::vector<double>;
using Mat = std::vector<Vec>;
static Arr arr(const Vec& v) {
    Arr a = xt::zeros<double>({v.size()});
    for (size_t i = 0; i < v.size(); ++i) a(i) = v[i];
    return a;
}
static double quad(const ell& E, const Vec& g) {
    auto c = E.copy();
    return std::get<1>(c.update(std::tuple<Arr, double> {arr(g), -1e100}));
}
struct Rep {
    int n;
    Vec x;
    Mat M;
};
static Rep rep(const ell& E) {
    Arr xc = E.xc();
    int n = int(xc.size());
    Rep r {n, Vec(size_t(n)), Mat(size_t(n), Vec(size_t(n)))};
    for (int i = 0; i < n; ++i) r.x[size_t(i)] = xc(size_t(i));
    for (int i = 0; i < n; ++i) {
        Vec g(size_t(n), 0.);
        g[size_t(i)] = 1;
        r.M[size_t(i)][size_t(i)] = quad(E, g);
    }
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < i; ++j) {
            Vec g(size_t(n), 0.);
            g[size_t(i)] = g[size_t(j)] = 1;
            double q = quad(E, g);
            r.M[size_t(i)][size_t(j)] = r.M[size_t(j)][size_t(i)] = (q - r.M[size_t(i)][size_t(i)] - r.M[size_t(j)][size_t(j)]) / 2;
        }
    return r;
}
static bool chol(const Mat& A, Mat& L) {
    size_t n = A.size();
    L = Mat(n, Vec(n, 0.));
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j <= i; ++j) {
            double s = A[i][j];
            for (size_t k = 0; k < j; ++k) s -= L[i][k] * L[j][k];
            if (i == j) {
                if (!(s > 0)) return false;
                L[i][i] = std::sqrt(s);
            } else
                L[i][j] = s / L[j][j];
        }
    return true;
}
static double logdet(const Mat& L) {
    double s = 0;
    for (size_t i = 0; i < L.size(); ++i) s += 2 * std::log(L[i][i]);
    return s;
}
static double mnorm(const Mat& L, const Vec& d) { // d' M^-1 d
    Vec y(d);
    double s = 0;
    for (size_t i = 0; i < y.size(); ++i) {
        for (size_t k = 0; k < i; ++k) y[i] -= L[i][k] * y[k];
        y[i] /= L[i][i];
        s += y[i] * y[i];
    }
    return s;
}
static std::string show(const Rep& r) {
    std::string s = "xc=" + h::strv(r.x) + " kappaQ=";
    for (auto& row : r.M) s += h::strv(row);
    return s;
}
static bool same(const Rep& a, const Rep& b, double tol) {
    double sc = 0;
    for (auto& r : a.M)
        for (double v : r) sc = std::max(sc, std::fabs(v));
    for (int i = 0; i < a.n; ++i) {
        if (!(std::fabs(a.x[size_t(i)] - b.x[size_t(i)]) <= tol * (std::fabs(a.x[size_t(i)]) + std::sqrt(sc)))) return false;
        for (int j = 0; j < a.n; ++j)
            if (!(std::fabs(a.M[size_t(i)][size_t(j)] - b.M[size_t(i)][size_t(j)]) <= tol * sc)) return false;
    }
    return true;
}
static void one(const std::string& P, h::Rng& r, long k) {
    int n = r.coin(.4) ? 2 : r.coin(.5) ? r.in(3, 5) : r.in(6, 9);
    size_t N = size_t(n);
    Vec x0(N), val(N);
    for (auto& v : x0) v = r.coin(.3) ? 0 : r.u(-3, 3);
    for (auto& v : val) v = r.u(.3, 4);
    bool ball = r.coin();
    double alpha = r.u(.2, 5);
    ell E = ball ? ell(alpha, arr(x0)) : ell(arr(val), arr(x0));
    h::input("n=", n, ball ? h::cat(" ball alpha=", alpha) : " diag " + h::strv(val), " x0=", h::strv(x0));
    if (P == "P04") {
        Rep a = rep(E);
        for (size_t i = 0; i < N; ++i) {
            h::check(a.x[i] == x0[i], "constructor: centre differs from the given point");
            for (size_t j = 0; j < N; ++j)
                h::check(h::close(a.M[i][j], i != j ? 0. : ball ? alpha : val[i], 1e-12), "constructor: shape differs from the given one");
        }
    }
    E.use_parallel_cut = !r.coin(.15);
    E.no_defer_trick = r.coin(.3);
    h::input("use_parallel_cut=", E.use_parallel_cut, " no_defer_trick=", E.no_defer_trick);
    int steps = r.in(1, 6);
    for (int step = 0; step < steps; ++step) {
        Rep old = rep(E);
        Mat L;
        if (!chol(old.M, L)) return; // a touching cut left a point
        double mx = 0, mn = 1e300;
        for (size_t i = 0; i < N; ++i) mx = std::max(mx, L[i][i]), mn = std::min(mn, L[i][i]);
        if (mn < 1e-3 * mx || mn < 1e-4) return; // keep the arithmetic well conditioned
        Vec g(N);
        double gn = 0;
        do {
            gn = 0;
            for (auto& v : g) v = r.coin(.2) ? 0. : r.g(), gn += v * v;
        } while (gn < 1e-2);
        double tsq = 0;
        for (size_t i = 0; i < N; ++i)
            for (size_t j = 0; j < N; ++j) tsq += g[i] * old.M[i][j] * g[j];
        double tau = std::sqrt(tsq);
        int form = r.in(0, 3); // 0 number, 1 one-element, 2,3 pair
        static const Vec special {0, 0, 1e-3, -1e-3, .5, -.05, .9, -.9, .99, 1.2, -1.2, 3, -3};
        double u = r.coin(.4) ? r.pick(special) : r.u(-1.1, 1.1);
        if (r.coin(.15)) u = -1. / n + r.pick(Vec {0.02, -0.02, 0.001, -0.001});
        double v = r.coin(.3) ? r.pick(special) : r.u(-1.2, 1.3);
        int rel = r.in(0, 7);
        if (rel == 0) v = -u;
        if (rel == 1) v = u + r.u(.01, .3);
        if (rel == 2) u = 0, v = r.u(.02, 1.1);
        if (rel == 3) v = 0;
        if (rel == 4) v = u - r.u(.01, .3);
        if (rel == 5) u = -r.u(.02, .7), v = r.u(.02, std::min(1.1, 1.3 / n / std::fabs(u)));
        double b0 = u * tau, b1 = v * tau;
        u = b0 / tau, v = b1 / tau;
        bool two = form >= 2;
        if (two && std::fabs(u - v) < 1e-4) continue;
        h::input("step ", step, ": g=", h::strv(g), two ? " beta={" : " beta=", b0, two ? h::cat(",", b1, "}") : std::string(form == 1 ? " (one-element)" : ""),
            " (u=", u, two ? h::cat(" v=", v) : std::string(), ") of ", show(old));
        bool upc = E.use_parallel_cut, ndt = E.no_defer_trick;
        ell keep = E.copy();
        std::tuple<CUTStatus, double> ret;
        if (form == 0)
            ret = E.update(std::tuple<Arr, double> {arr(g), b0});
        else {
            Arr b = form == 1 ? arr({b0}) : arr({b0, b1});
            ret = E.update(std::tuple<Arr, Arr> {arr(g), b});
        }
        auto st = std::get<0>(ret);
        Rep nw = rep(E);
        h::input("status ", int(st));
        if (st == CUTStatus::success) ++h::nontrivial();
        const double eps = 1e-9;
        bool in = two && upc && std::fabs(v) <= 1; // really a parallel cut
        if (P == "P04") {
            h::check(h::close(std::get<1>(ret), tsq, 1e-9), "returned size ", std::get<1>(ret), " is not the quadratic form ", tsq);
            h::check(E.use_parallel_cut == upc && E.no_defer_trick == ndt, "update changes an option");
            h::check(same(rep(keep), old, 1e-9), "a copy changes with its original");
            if (st == CUTStatus::nosoln)
                h::check(u >= 1 - eps || (two && (v <= u + eps || v <= -1 + eps)), "no solution reported although points of the ellipsoid satisfy the cut");
            else if (st == CUTStatus::noeffect)
                h::check(n * u < -1 + eps || (two && n * u * v < -1 + eps), "no effect reported for a cut deep enough to shrink the ellipsoid");
            else if (st == CUTStatus::success) {
                h::check(in ? u <= v + eps : u <= 1 + eps, "success reported for a cut that misses the ellipsoid");
                h::check(n * u >= -1 - eps || (in && n * u * v >= -1 - eps), "success reported for a cut too shallow to shrink the ellipsoid");
            } else
                h::check(false, "unexpected status");
            if (st != CUTStatus::success) {
                h::check(same(old, nw, 1e-12), "an unsuccessful update changes the ellipsoid: ", show(nw));
            }
            // set_xc moves the centre only
            ell c = E.copy();
            Vec y(N);
            for (auto& t : y) t = r.u(-2, 2);
            c.set_xc(arr(y));
            Rep a = rep(c);
            h::check(a.x == y, "set_xc does not set the centre");
            a.x = nw.x;
            h::check(same(nw, a, 1e-12), "set_xc changes the shape");
            h::check(same(rep(E), nw, 1e-12), "changing a copy changes the original");
            // the copy taken before behaves like the original
            ell c2 = keep.copy();
            c2.update(std::tuple<Arr, double> {arr(g), .1 * tau});
            h::check(same(rep(keep), old, 1e-9), "updating a copy changes the original");
        }
        if (st != CUTStatus::success) continue;
        bool single = !two || !in;
        Mat L2;
        bool pd = chol(nw.M, L2);
        if (P == "P03") {
            if ((single && u > 1 - 1e-6) || (!single && (v < -1 + 1e-6 || u > 1 - 1e-6))) return;
            h::check(pd, "the new shape is not positive definite: ", show(nw));
            double dl = logdet(L2) - logdet(L);
            if (single) {
                double ref = (n - 1) * std::log(double(n) * n * (1 - u * u) / (double(n) * n - 1)) + 2 * std::log(n * (1 - u) / (n + 1));
                h::check(std::fabs(dl - ref) < 1e-6 * (1 + std::fabs(ref)), "volume factor squared exp(", dl, ") is not the minimum exp(", ref, ")");
            } else {
                h::check(dl <= 1e-9, "the volume grows: log of squared factor ", dl);
                if (n * u * v > -1 + 1e-3) h::check(dl < -1e-12, "the volume does not shrink");
            }
        }
        if (P == "P01" ? !two : P == "P02" ? two : false) {
            for (double t : nw.x) h::check(std::isfinite(t), "centre not finite: ", show(nw));
            for (auto& row : nw.M)
                for (double t : row) h::check(std::isfinite(t), "shape not finite: ", show(nw));
            bool touch = single ? u > 1 - 1e-6 : (v < -1 + 1e-6 || u > 1 - 1e-6);
            if (touch) return;
            h::check(pd, "the new shape is not positive definite: ", show(nw));
            if (P == "P02" && single) { // the result is that of the single cut
                ell c = keep.copy();
                c.update(std::tuple<Arr, double> {arr(g), b0});
                h::check(same(rep(c), nw, 1e-9), "differs from the single cut with the first plane");
            }
            // points of the old ellipsoid on and behind the cut: xc + L*w, s = component along L'g
            Vec q(N, 0.);
            for (size_t i = 0; i < N; ++i)
                for (size_t j = i; j < N; ++j) q[i] += L[j][i] * g[j] / tau;
            double hi = std::min(1., -u), lo = !two ? -1. : std::max(-1., -v);
            if (hi < lo) return;
            for (int t = 0; t < 24; ++t) {
                double s = t < 6 ? hi : t < 12 ? lo : r.u(lo, hi);
                Vec w(N);
                double dot = 0, nn = 0;
                for (auto& z : w) z = r.g();
                for (size_t i = 0; i < N; ++i) dot += w[i] * q[i];
                for (size_t i = 0; i < N; ++i) w[i] -= dot * q[i], nn += w[i] * w[i];
                double c = nn > 1e-12 ? std::sqrt(std::max(0., 1 - s * s) / nn) : 0;
                for (size_t i = 0; i < N; ++i) w[i] = w[i] * c + s * q[i];
                Vec d(N);
                for (size_t i = 0; i < N; ++i) {
                    d[i] = old.x[i] - nw.x[i];
                    for (size_t j = 0; j <= i; ++j) d[i] += L[i][j] * w[j];
                }
                double m = mnorm(L2, d);
                h::check(m <= 1 + 1e-6, "a point at ", s, " half-widths along the cut lies in the old ellipsoid and satisfies the cut but has distance ", m, " > 1 from the new one: ", show(nw));
            }
        }
    }
}
int main(int c, char** v) { return h::run(c, v, one); }
