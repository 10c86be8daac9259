// small dense matrices for the companions
#pragma once
#include "h.hpp"
#include <ellcpp/utility.hpp>
#include <xtensor/xarray.hpp>
using namespace h;
using Arr = xt::xarray<double, xt::layout_type::row_major>;
using Mat = std::vector<std::vector<double>>;
using Vec = std::vector<double>;
static Mat mat(int r, int c) { return Mat(r, Vec(c, 0)); }
static Arr arr(const Mat& A)
{
    Arr a = zeros({A.size(), A[0].size()});
    for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < A[0].size(); ++j) a(i, j) = A[i][j];
    return a;
}
static Arr arr(const Vec& v)
{
    Arr a = zeros({v.size()});
    for (size_t i = 0; i < v.size(); ++i) a(i) = v[i];
    return a;
}
static std::string str(const Mat& A)
{
    std::string s = "[";
    for (auto& r : A) s += strv(r);
    return s + "]";
}
// 1 positive definite, -1 not, 0 too close to call; on -1 the rounding scale sum |v_i A_ij v_j| of the witness
static int sign(const Mat& A, double* scale = nullptr)
{
    const int n = int(A.size());
    std::vector<std::vector<long double>> L(n, std::vector<long double>(n, 0));
    std::vector<long double> d(n);
    long double sc = 1;
    for (auto& r : A) for (double x : r) sc = std::max(sc, (long double)std::fabs(x));
    for (int i = 0; i < n; ++i) {
        for (int j = 0; j < i; ++j) {
            long double s = A[i][j];
            for (int k = 0; k < j; ++k) s -= L[i][k] * d[k] * L[j][k];
            L[i][j] = s / d[j];
        }
        long double s = A[i][i];
        for (int k = 0; k < i; ++k) s -= L[i][k] * L[i][k] * d[k];
        d[i] = s;
        if (std::fabs((double)s) < 1e-9L * sc) return 0;
        if (s < 0) {
            if (scale) {
                std::vector<long double> v(i + 1, 0);
                v[i] = 1;
                for (int a = i - 1; a >= 0; --a) for (int k = a + 1; k <= i; ++k) v[a] -= L[k][a] * v[k];
                long double t = 0, m = 0;
                for (auto& row : A) for (double x : row) m = std::max(m, (long double)std::fabs(x));
                for (auto x : v) t += std::fabs((double)x);
                *scale = double(t * t * m);
            }
            return -1;
        }
    }
    return 1;
}
