// Bounded companion for P16: small sample matrices with integer entries, histories of calls on one object.
#include "mat.hpp"
#include <ellcpp/oracles/lowpass_oracle.hpp>
static double resp(const Vec& row, const Vec& x)
{
    double v = 0;
    for (size_t j = 0; j < x.size(); ++j) v += row[j] * x[j];
    return v;
}
int main(int argc, char** argv)
{
    return run(argc, argv, [](const std::string&, Rng& r, long) {
        const int n = r.in(1, 4);
        auto rows = [&](int lo) {
            Mat m = mat(r.in(lo, 5), n);
            for (auto& q : m) for (auto& e : q) e = r.in(-2, 3);
            return m;
        };
        Mat Ap = rows(1), As = rows(1), Anr = rows(1);
        const double Lp = r.in(-1, 3), Up = Lp + r.in(0, 6);
        input("Ap=", str(Ap), " As=", str(As), " Anr=", str(Anr), " Lp=", Lp, " Up=", Up);
        Arr aAp = arr(Ap), aAs = arr(As), aAnr = arr(Anr);
        lowpass_oracle o(aAp, aAs, aAnr, Lp, Up);
        double S = r.in(0, 12);
        for (int call = r.in(1, 6); call > 0; --call) {
            if (r.coin(.4)) S = r.in(0, 12);
            Vec x(n);
            for (auto& e : x) e = r.in(-1, 3) * (r.coin(.2) ? .5 : 1);
            input("call x=", strv(x), " bound=", S);
            double S2 = S;
            auto res = o(arr(x), S2);
            Arr g = std::get<0>(std::get<0>(res)), f = std::get<1>(std::get<0>(res));
            bool imp = std::get<1>(res);
            check(int(g.shape()[0]) == n, "gradient of ", int(g.shape()[0]), " entries");
            check(f.shape()[0] == 1 || f.shape()[0] == 2, "cut with ", int(f.shape()[0]), " offsets");
            auto meets = [&](const Vec& z, double s, bool strict) {
                if (strict && z[0] < 0) return false;
                if (z[0] < 0) return false;
                for (auto& q : Ap) if (resp(q, z) < Lp || resp(q, z) > Up) return false;
                for (auto& q : As) if (resp(q, z) < 0 || resp(q, z) > s) return false;
                for (auto& q : Anr) if (resp(q, z) < 0) return false;
                return true;
            };
            if (imp) {
                check(S2 <= S, "the bound rises from ", S, " to ", S2);
                check(meets(x, S2, true), "improvement to ", S2, " at a point that violates a specification");
                double w = -1e300;
                for (auto& q : As) w = std::max(w, resp(q, x));
                check(w == S2, "new bound ", S2, " but the largest stopband response is ", w);
                check(f(0) >= 0, "objective cut keeps more than a half-space: ", f(0));
                ++nontrivial();
            } else {
                check(S2 == S, "bound changed without improvement");
                check(!meets(x, S, true), "cut although every specification is met");
                check(f(0) > 0, "violation ", f(0));
            }
            for (int t = 0; t < 60; ++t) {
                Vec z(n);
                for (auto& e : z) e = r.in(-2, 8) * .5;
                if (!meets(z, S2, false)) continue;
                double v = 0;
                for (int j = 0; j < n; ++j) v += g(j) * (z[j] - x[j]);
                check(v + f(0) <= 1e-9, "cut removes the better filter ", strv(z), " by ", v + f(0));
                if (f.shape()[0] == 2) check(v + f(1) >= -1e-9, "second plane removes the better filter ", strv(z), " by ", v + f(1));
            }
            S = S2;
        }
    });
}
