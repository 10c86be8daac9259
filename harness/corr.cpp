// Bounded companion for P26, P27: random correlation models built around a feasible point.
#include <../src/lsq_corr_ell.cpp>
#include "mat.hpp"
static Mat symm(Rng& r, int N)
{
    Mat A = mat(N, N);
    for (int i = 0; i < N; ++i)
        for (int j = 0; j <= i; ++j) A[i][j] = A[j][i] = r.in(-4, 4) / 2.;
    return A;
}
static Mat spd(Rng& r, int N)
{
    Mat B = symm(r, N), A = mat(N, N);
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j) {
            for (int k = 0; k < N; ++k) A[i][j] += B[i][k] * B[j][k] / 4;
            if (i == j) A[i][j] += r.u(.2, 1.5);
        }
    return A;
}
static Mat at(const std::vector<Mat>& F, const Vec& x)
{
    Mat A = mat(int(F[0].size()), int(F[0].size()));
    for (size_t k = 0; k < F.size(); ++k)
        for (size_t i = 0; i < A.size(); ++i)
            for (size_t j = 0; j < A.size(); ++j) A[i][j] += x[k] * F[k][i][j];
    return A;
}
static Mat minus(const Mat& A, const Mat& B)
{
    Mat C = A;
    for (size_t i = 0; i < A.size(); ++i)
        for (size_t j = 0; j < A.size(); ++j) C[i][j] -= B[i][j];
    return C;
}
static Mat within(const Mat& A, double t)   // t - A'A
{
    const int N = int(A.size());
    Mat C = mat(N, N);
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j) {
            C[i][j] = i == j ? t : 0;
            for (int k = 0; k < N; ++k) C[i][j] -= A[k][i] * A[k][j];
        }
    return C;
}
static double nll(const Mat& A0, const Mat& Y)
{
    const int N = int(A0.size());
    std::vector<std::vector<long double>> A(N, std::vector<long double>(2 * N, 0));
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j) A[i][j] = A0[i][j], A[i][N + j] = Y[i][j];
    long double ld = 0, tr = 0;
    for (int k = 0; k < N; ++k) {      // A positive definite
        ld += std::log((double)A[k][k]);
        for (int j = 2 * N - 1; j >= k; --j) A[k][j] /= A[k][k];
        for (int i = 0; i < N; ++i)
            if (i != k)
                for (int j = 2 * N - 1; j >= k; --j) A[i][j] -= A[i][k] * A[k][j];
    }
    for (int k = 0; k < N; ++k) tr += A[k][N + k];
    return double(ld + tr);
}
static void models(Rng& r)
{
    int n = r.in(1, 6), d = r.in(1, 3), m = r.in(1, 6);
    Mat s = mat(n, d);
    for (auto& p : s) for (auto& c : p) c = r.in(-8, 8) / 2.;
    input("sites=", str(s), " m=", m);
    Arr D = construct_distance_matrix(arr(s));
    check(D.dimension() == 2 && int(D.shape()[0]) == n && int(D.shape()[1]) == n, "shape of the distance matrix");
    std::vector<Arr> S = construct_poly_matrix(arr(s), size_t(m));
    check(int(S.size()) == m, S.size(), " matrices for degree ", m);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            double q = 0;
            for (int k = 0; k < d; ++k) q += (s[i][k] - s[j][k]) * (s[i][k] - s[j][k]);
            check(close(D(i, j), std::sqrt(q)), "distance of sites ", i, " and ", j, " is ", D(i, j), ", not ", std::sqrt(q));
            double p = 1;
            for (int k = 0; k < m; ++k, p *= std::sqrt(q)) check(close(S[k](i, j), p), "matrix ", k, " at ", i, ",", j, " is ", S[k](i, j), ", not ", p);
        }
    ++nontrivial();
}
int main(int argc, char** argv)
{
    return run(argc, argv, [](const std::string& P, Rng& r, long) {
        if (P == "P27") return models(r);
        const int N = r.in(1, 4), n = r.in(1, 4);
        std::vector<Mat> F {spd(r, N)};
        for (int k = 1; k < n; ++k) F.push_back(symm(r, N));
        Mat Y = r.coin() ? spd(r, N) : symm(r, N);
        std::string fs;
        std::vector<Arr> FA;
        for (auto& A : F) FA.push_back(arr(A)), fs += str(A);
        Arr YA = arr(Y);
        input("F=", fs, " Y=", str(Y));
        lsq_oracle L(FA, YA);
        mle_oracle M(FA, YA);
        double t = r.coin() ? 1e100 : r.u(0, 60), tm = r.coin() ? 1e100 : r.u(-3, 12);
        for (int round = r.in(1, 4); round > 0; --round) {
            Vec x(n);
            for (auto& c : x) c = r.in(-6, 12) / 8.;
            double b = r.coin() ? r.u(0, 60) : r.u(0, 5);
            input(" x=", strv(x));
            Mat Fx = at(F, x);
            double sc = 1;
            if (r.coin()) {
                Vec y = x;
                y.push_back(b);
                input(" bound=", b, " t=", t);
                double t0 = t;
                auto [cut, imp] = L(arr(y), t);
                auto& [g, f] = cut;
                int s1 = sign(Fx, &sc), s2 = sign(within(minus(Y, Fx), b), &sc);
                if (s1 == 0 || (s1 > 0 && s2 == 0)) continue;
                check(int(g.size()) == n + 1, "gradient size ", g.size());
                check(f >= -1e-7 * sc, "offset ", f);
                if (imp) {
                    check(s1 > 0, "improvement although the correlation matrix is not positive definite");
                    check(s2 > 0, "improvement although the residual exceeds the bound");
                    check(t == b && t <= t0, "best value ", t, " from ", t0);
                    ++nontrivial();
                } else {
                    check(t == t0, "best value changed to ", t, " without improvement");
                    check(s1 < 0 || s2 < 0 || b > t0, "no improvement at a better feasible point");
                }
                for (int q = 0; q < 12; ++q) {      // better feasible points
                    Vec z(n);
                    for (auto& c : z) c = r.in(-8, 16) / 8.;
                    if (r.coin()) z[0] += r.u(0, 8);
                    if (sign(at(F, z)) <= 0) continue;
                    double tz = r.u(0, 4);
                    while (sign(within(minus(Y, at(F, z)), tz)) <= 0) tz = tz * 2 + .1;
                    if (s1 > 0 && s2 > 0 && tz > t) continue;
                    double v = f + g(n) * (tz - b), m = std::fabs(f) + std::fabs(g(n)) * (tz + b);
                    for (int k = 0; k < n; ++k) v += g(k) * (z[k] - x[k]), m += std::fabs(g(k)) * (std::fabs(z[k]) + std::fabs(x[k]));
                    check(v <= 1e-9 * (m + sc + 1), "the cut removes the feasible point ", strv(z), " bound ", tz, " by ", v);
                }
                continue;
            }
            input(" t=", tm);
            double t0 = tm;
            auto [cut, imp] = M(arr(x), tm);
            auto& [g, f] = cut;
            Mat Y2 = Y;
            for (auto& q : Y2) for (auto& c : q) c *= 2;
            int s1 = sign(Fx, &sc), s2 = sign(minus(Y2, Fx), &sc);
            if (s1 == 0 || s2 == 0) continue;
            check(int(g.size()) == n, "gradient size ", g.size());
            if (s1 < 0 || s2 < 0) {
                check(!imp && tm == t0, "improvement although a matrix constraint fails");
                check(f >= -1e-7 * sc, "offset ", f);
                for (int q = 0; q < 12; ++q) {
                    Vec z(n);
                    for (auto& c : z) c = r.in(-8, 16) / 8.;
                    z[0] += r.u(0, 1);
                    if (sign(at(F, z)) <= 0 || sign(minus(Y2, at(F, z))) <= 0) continue;
                    double v = f, m = std::fabs(f);
                    for (int k = 0; k < n; ++k) v += g(k) * (z[k] - x[k]), m += std::fabs(g(k)) * (std::fabs(z[k]) + std::fabs(x[k]));
                    check(v <= 1e-9 * (m + sc + 1), "the cut removes the feasible point ", strv(z), " by ", v);
                    ++nontrivial();
                }
                continue;
            }
            double val = nll(Fx, Y), tol = 1e-7 * (1 + std::fabs(val));
            if (std::fabs(val) > 1e5) continue;
            if (imp) {
                check(std::fabs(tm - val) <= tol, "best value ", tm, ", the negative log-likelihood is ", val);
                check(tm < t0, "no better than before");
                check(f == 0, "offset ", f);
                ++nontrivial();
            } else {
                check(tm == t0, "best value changed without improvement");
                check(val >= t0 - tol, "no improvement although ", val, " < ", t0);
                check(std::fabs(f - (val - t0)) <= tol, "offset ", f, ", expected ", val - t0);
            }
            for (int k = 0; k < n; ++k) {
                Vec a = x, c = x;
                double e = 1e-5;
                a[k] += e;
                c[k] -= e;
                if (sign(at(F, a)) <= 0 || sign(at(F, c)) <= 0) continue;
                double d1 = (nll(at(F, a), Y) - nll(at(F, c), Y)) / (2 * e);
                e *= 8;
                Vec a2 = x, c2 = x;
                a2[k] += e, c2[k] -= e;
                if (sign(at(F, a2)) <= 0 || sign(at(F, c2)) <= 0) continue;
                double d2 = (nll(at(F, a2), Y) - nll(at(F, c2), Y)) / (2 * e);
                if (std::fabs(d1 - d2) > 1e-4 * (1 + std::fabs(d1))) continue;
                check(std::fabs(g(k) - d1) <= 1e-2 * (1 + std::fabs(d1)), "direction component ", k, " is ", g(k), ", the gradient is ", d1);
            }
        }
    });
}
