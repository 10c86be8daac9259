// Bounded companion for P12, P13: random symmetric matrices against exact integer arithmetic.
#include "h.hpp"
#include <ellcpp/oracles/ldlt_ext.hpp>
using namespace h;
using Arr = xt::xarray<double, xt::layout_type::row_major>;
using Mat = std::vector<std::vector<double>>;

// reference: pivots in long double; "unsure" when a pivot is too close to zero for doubles
struct Ref { bool pd, unsure; };
static Ref reference(const Mat& A)
{
    const int n = int(A.size());
    std::vector<std::vector<long double>> L(n, std::vector<long double>(n, 0));
    std::vector<long double> d(n);
    long double sc = 1;
    for (auto& r : A) for (double x : r) sc = std::max(sc, (long double)std::fabs(x));
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j < i; ++j) {
            long double s = A[i][j];
            for (int k = 0; k < j; ++k) s -= L[i][k] * d[k] * L[j][k];
            L[i][j] = s / d[j];
        }
        long double s = A[i][i];
        for (int k = 0; k < i; ++k) s -= L[i][k] * L[i][k] * d[k];
        d[i] = s;
        if (std::fabs((double)s) < 1e-9L * sc) return {false, true};
        if (s < 0) return {false, false};
    }
    return {true, false};
}
static Mat make(Rng& r, int n, bool& exact)
{
    Mat A(n, std::vector<double>(n, 0));
    int kind = r.in(0, 5);
    exact = false;
    if (kind == 0) {            // small integers with zeros: exact zero pivots
        exact = true;
        for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) A[i][j] = A[j][i] = r.coin(.4) ? 0 : r.in(-2, 2);
    } else if (kind == 1 || kind == 2) {    // B B' + c I, slightly shifted: near the border
        for (int i = 0; i < n; ++i) A[i][i] = 0;
        Mat B(n, std::vector<double>(n));
        for (auto& x : B) for (auto& y : x) y = r.g();
        double c = kind == 1 ? r.u(0.01, 1) : r.u(-1.5, 0.5);
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { double s = i == j ? c : 0; for (int k = 0; k < n; ++k) s += B[i][k] * B[j][k]; A[i][j] = s; }
    } else if (kind == 3) {
        for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) A[i][j] = A[j][i] = (i == j ? 3 : 1) * r.g();
    } else if (kind == 4) {     // positive definite except for the last row
        for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) A[i][j] = A[j][i] = i == j ? n + r.u() : r.u(-1, 1);
        A[n - 1][n - 1] = r.u(-2, 1);
    } else {                    // diagonally dominant, differently scaled rows
        std::vector<double> s(n);
        for (auto& x : s) x = std::pow(10., r.in(-2, 2));
        for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) A[i][j] = A[j][i] = s[i] * s[j] * (i == j ? n + r.u() : r.u(-1, 1));
    }
    return A;
}
static Arr arr(const Mat& A)
{
    const size_t n = A.size();
    Arr a = zeros({n, n});
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) a(i, j) = A[i][j];
    return a;
}
static std::string str(const Mat& A)
{
    std::string s = "[";
    for (auto& r : A) s += strv(r);
    return s + "]";
}
// the quadratic form of A (symmetric) over rows [b,e) with the object's witness vector
static double quad(const Mat& A, const ldlt_ext& Q, size_t b, size_t e, double& sc)
{
    long double s = 0;
    sc = 0;
    for (size_t i = b; i < e; ++i) for (size_t j = b; j < e; ++j) { long double t = (long double)Q.v(i) * A[i][j] * Q.v(j); s += t; sc += std::fabs((double)t); }
    return double(s);
}
static void reads(const Mat& A, ldlt_ext& Q, bool semi, bool& ok)
{
    const size_t n = A.size();
    size_t lastRow = 0;
    auto get = [&](size_t i, size_t j) {
        h::check(i < n && j < n, "element access outside the matrix: (", i, ",", j, ")");
        h::check(j <= i, "element above the diagonal read: (", i, ",", j, ")");
        h::check(i >= lastRow, "rows out of order: row ", i, " after row ", lastRow);
        lastRow = i;
        return A[i][j];
    };
    if (semi) ok = Q.template factor<decltype(get)&, true>(get);
    else ok = Q.factor(get);
}
static void rejected(const Mat& A, ldlt_ext& Q)
{
    const size_t n = A.size();
    const size_t b = Q.p.first, e = Q.p.second;
    check(b < e && e <= n, "reported block [", b, ",", e, ")");
    double ep = Q.witness();
    check(b == Q.p.first && e == Q.p.second, "the witness moved the block");
    check(ep >= 0, "the returned number is negative: ", ep);
    check(Q.v(e - 1) == 1., "last entry of the witness is ", Q.v(e - 1));
    double sc, q = quad(A, Q, b, e, sc);
    check(std::fabs(q + ep) <= 1e-9 * (1 + sc), "quadratic form ", q, " but returned number ", ep);
    Mat B = A;
    Rng r(case_no() + 77);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) B[i][j] = B[j][i] = r.g();
    for (const Mat& M : {A, B}) {
        double s2, w = quad(M, Q, b, e, s2);
        double got = Q.sym_quad(arr(M));
        check(std::fabs(got - w) <= 1e-9 * (1 + s2), "sym_quad gives ", got, ", exact ", w);
    }
    double ep2 = Q.witness();
    check(ep2 == ep, "the witness changes when asked again");
}
int main(int argc, char** argv)
{
    return run(argc, argv, [](const std::string& prop, Rng& r, long k) {
        const int n = r.in(1, 6);
        ldlt_ext Q {size_t(n)};
        const int rounds = r.in(1, 3);
        for (int t = 0; t < rounds; ++t) {
            bool exact;
            Mat A = make(r, n, exact);
            input("round ", t, " n=", n, " A=", str(A));
            Ref f = reference(A);
            bool ok, semi = prop == "P13" && r.coin(.4);
            if (semi || r.coin()) reads(A, Q, semi, ok);
            else ok = Q.factorize(arr(A));
            if (prop == "P12") {
                check(ok == Q.is_spd(), "answer and is_spd differ");
                if (!f.unsure) { check(ok == f.pd, ok ? "accepted, but not positive definite" : "rejected, but positive definite"); ++nontrivial(); }
                else if (exact && n == 1) check(!ok || A[0][0] > 0, "accepted a zero");
                if (exact) {
                    // exact zero pivot in integer arithmetic: leading minor test
                    bool zero = false;
                    double d = A[0][0];
                    if (d == 0) zero = true;
                    if (zero) check(!ok, "accepted a matrix with a zero in the corner");
                }
                if (ok && !f.unsure) {
                    Arr R = Q.sqrt();
                    check(R.dimension() == 2 && R.shape()[0] == size_t(n) && R.shape()[1] == size_t(n), "shape of the square root");
                    double sc = 1;
                    for (auto& row : A) for (double x : row) sc = std::max(sc, std::fabs(x));
                    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
                        if (i > j) check(R(i, j) == 0., "square root not upper triangular");
                        if (i == j) check(R(i, i) > 0., "square root diagonal not positive");
                        double s = 0;
                        for (int q = 0; q < n; ++q) s += R(q, i) * R(q, j);
                        check(std::fabs(s - A[i][j]) <= 1e-7 * sc, "R'R(", i, ",", j, ")=", s, " but A=", A[i][j]);
                    }
                    check(Q.is_spd(), "the square root changes the answer");
                }
            } else if (!ok) {
                check(!Q.is_spd(), "answer and is_spd differ");
                if (!f.unsure || exact) ++nontrivial();
                rejected(A, Q);
            }
        }
        (void)k;
    });
}
