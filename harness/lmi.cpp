// Bounded companion for P14, P15: random matrix inequalities built around a feasible point.
#include "h.hpp"
#include <ellcpp/oracles/lmi0_oracle.hpp>
#include <ellcpp/oracles/lmi_old_oracle.hpp>
#include <ellcpp/oracles/lmi_oracle.hpp>
#include <ellcpp/oracles/qmi_oracle.hpp>
#include "mat.hpp"
static Mat sym(Rng& r, int n) { Mat A = mat(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) A[i][j] = A[j][i] = r.coin(.2) ? 0 : r.g(); return A; }
static Mat psd(Rng& r, int n)
{
    const int k = r.in(1, n + 1);
    Mat B = mat(n, k), A = mat(n, n);
    for (auto& x : B) for (auto& y : x) y = r.g();
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) for (int q = 0; q < k; ++q) A[i][j] += B[i][q] * B[j][q];
    return A;
}
template <class O, class M>
static void probe(Rng& r, O& oracle, int n, const Vec& x, const std::vector<Vec>& good, M matrix, const char* name)
{
    input(name, " x=", strv(x));
    Mat A = matrix(x);
    double rs = 0;
    int s = sign(A, &rs);
    auto res = oracle(arr(x));
    if (s) { ++nontrivial(); check(!res == (s > 0), res ? "rejected, but positive definite" : "accepted, but not positive definite"); }
    if (!res) return;
    auto [g, ep] = *res;
    check(g.dimension() == 1 && g.shape()[0] == size_t(n), "shape of the gradient");
    check(ep >= 0, "the cut is slack at the point: offset ", ep);
    if (!s) return;
    for (auto& z : good) {
        double v = ep, sc = std::fabs(ep) + 1 + rs;
        for (int k = 0; k < n; ++k) { v += g(k) * (z[k] - x[k]); sc += std::fabs(g(k) * (z[k] - x[k])); }
        check(v <= 1e-8 * sc, "the cut removes a feasible point z=", strv(z), ": g'(z-x)+ep = ", v);
    }
    (void)r;
}
int main(int argc, char** argv)
{
    return run(argc, argv, [](const std::string& prop, Rng& r, long) {
        const int n = r.in(1, 4);
        Vec z0(n);
        for (auto& v : z0) v = r.g();
        auto point = [&]() { Vec x = z0; double w = std::pow(10., r.u(-2, 1)); for (auto& v : x) v += w * r.g(); if (r.coin(.1)) for (auto& v : x) v = 0; if (r.coin(.3)) x[r.in(0, n - 1)] = 0; return x; };
        const int rounds = r.in(1, 4);
        if (prop == "P14") {
            const int m = r.in(1, 5);
            std::vector<Mat> F(n);
            for (auto& f : F) f = sym(r, m);
            Mat P = psd(r, m), B = mat(m, m);
            const int kind = r.in(0, 2);
            if (kind == 1) {    // homogeneous: sum F_k z0_k = P
                if (std::fabs(z0[n - 1]) < .1) z0[n - 1] = 1;
                for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { double s = P[i][j]; for (int k = 0; k < n - 1; ++k) s -= F[k][i][j] * z0[k]; F[n - 1][i][j] = s / z0[n - 1]; }
                for (int i = 0; i < m; ++i) for (int j = 0; j < i; ++j) F[n - 1][j][i] = F[n - 1][i][j];
            } else {
                for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) { B[i][j] = P[i][j]; for (int k = 0; k < n; ++k) B[i][j] += F[k][i][j] * z0[k]; }
                for (int i = 0; i < m; ++i) for (int j = 0; j < i; ++j) B[j][i] = B[i][j];
            }
            std::vector<Arr> Fa;
            for (int k = 0; k < n; ++k) { Fa.push_back(arr(F[k])); input("F", k, "=", str(F[k])); }
            if (kind != 1) input("B=", str(B));
            auto matrix = [&](const Vec& x) { Mat A = B; for (int i = 0; i < m; ++i) for (int j = 0; j < m; ++j) for (int k = 0; k < n; ++k) A[i][j] += (kind == 1 ? 1 : -1) * F[k][i][j] * x[k]; return A; };
            std::vector<Vec> good {z0};
            if (kind == 1) { Vec z = z0; for (auto& v : z) v *= 5; good.push_back(z); good.push_back(Vec(n, 0)); }
            for (int q = 0; q < 6; ++q) { Vec z = point(); if (sign(matrix(z)) > 0) good.push_back(z); }
            gsl::span<const Arr> sp(Fa.data(), Fa.size());
            auto go = [&](auto& o, const char* nm) { for (int q = 0; q < rounds; ++q) probe(r, o, n, r.coin(.2) ? r.pick(good) : point(), good, matrix, nm); };
            if (kind == 0) { lmi_oracle o(sp, arr(B)); go(o, "lmi"); }
            else if (kind == 1) { lmi0_oracle o(sp); go(o, "lmi0"); }
            else { lmi_old_oracle o(sp, arr(B)); go(o, "lmi_old"); }
        } else {
            const int nr = r.in(1, 4), nc = r.in(1, 4);
            std::vector<Mat> F(n);
            Mat B = mat(nr, nc);
            for (auto& f : F) { f = mat(nr, nc); for (auto& a : f) for (auto& v : a) v = r.g(); }
            const double w = r.coin() ? 0 : r.u(0, 2);
            for (int a = 0; a < nr; ++a) for (int b = 0; b < nc; ++b) { B[a][b] = w * r.g(); for (int k = 0; k < n; ++k) B[a][b] += F[k][a][b] * z0[k]; }
            std::vector<Arr> Fa;
            for (int k = 0; k < n; ++k) { Fa.push_back(arr(F[k])); input("F", k, "=", str(F[k])); }
            input("F0=", str(B));
            auto gram = [&](const Vec& x) {
                Mat f = B, A = mat(nc, nc);
                for (int a = 0; a < nr; ++a) for (int b = 0; b < nc; ++b) for (int k = 0; k < n; ++k) f[a][b] -= F[k][a][b] * x[k];
                for (int a = 0; a < nc; ++a) for (int b = 0; b < nc; ++b) for (int q = 0; q < nr; ++q) A[a][b] += f[q][a] * f[q][b];
                return A;
            };
            qmi_oracle o(gsl::span<const Arr>(Fa.data(), Fa.size()), arr(B));
            double t = 0;
            if (r.coin(.9)) t = std::pow(10., r.u(-1, 1.5)), o.update(t);
            for (int q = 0; q < rounds; ++q) {
                if (q && r.coin(.5)) { t = r.coin() ? t * r.u(.3, 1) : std::pow(10., r.u(-1, 2)); o.update(t); }
                input("t=", t);
                auto matrix = [&](const Vec& x) { Mat A = gram(x); for (int a = 0; a < nc; ++a) for (int b = 0; b < nc; ++b) A[a][b] = (a == b ? t : 0) - A[a][b]; return A; };
                std::vector<Vec> good;
                for (int p = 0; p < 8; ++p) { Vec z = p ? point() : z0; if (sign(matrix(z)) > 0) good.push_back(z); }
                probe(r, o, n, !good.empty() && r.coin(.2) ? r.pick(good) : point(), good, matrix, "qmi");
            }
        }
    });
}
