// Bounded companion for P06: histories of cuts on small dyadic intervals.
#include "h.hpp"
#include <ellcpp/cut_config.hpp>
#include <ellcpp/ell1d.hpp>
using namespace h;
int main(int argc, char** argv)
{
    return run(argc, argv, [](const std::string&, Rng& r, long) {
        double l = r.in(-64, 64) / 4., u = l + r.in(0, 64) / 4.;
        input("l=", l, " u=", u);
        ell1d I(l, u);
        const int rounds = r.in(1, 6);
        auto where = [&](double l, double u, const char* when) {
            check(close(I.xc(), (l + u) / 2), "centre ", I.xc(), " ", when, ", expected ", (l + u) / 2);
            ell1d J(I);
            auto [s, t] = J.update({1., 1e6});   // answers 'no solution'; reports the square of the half-width
            check(s == CUTStatus::nosoln, "half-width probe");
            check(close(std::sqrt(t), (u - l) / 2), "half-width ", std::sqrt(t), " ", when, ", expected ", (u - l) / 2);
        };
        where(l, u, "at the start");
        for (int k = 0; k < rounds; ++k) {
            if (r.coin(.15)) { double x = r.in(-40, 40) / 4., w = (u - l) / 2; I.set_xc(x); l = x - w; u = x + w; input(" centre=", x); where(l, u, "after set_xc"); }
            double g = std::pow(2., r.in(-3, 3)) * (r.coin() ? 1 : -1), c = (l + u) / 2, h = (u - l) / 2;
            double beta = r.coin(.2) ? 0 : r.coin(.3) ? (r.coin() ? 1 : -1) * std::fabs(g) * h : g * h * r.in(-12, 12) / 8.;
            input(" g=", g, " beta=", beta);
            auto [s, tsq] = I.update({g, beta});
            check(close(tsq, g * g * h * h), "size ", tsq);
            // g (z - c) + beta <= 0
            double e = c - beta / g, l2 = g > 0 ? l : std::max(l, e), u2 = g > 0 ? std::min(u, e) : u;
            double tol = 1e-9 * (1 + std::fabs(l) + std::fabs(u));
            if (s == CUTStatus::success) {
                check(l2 <= u2 + tol, "success although no point satisfies the cut");
                l = l2; u = std::max(l2, u2);
                ++nontrivial();
                where(l, u, "after a successful update");
            } else {
                if (s == CUTStatus::nosoln) check(l2 > u2, "'no solution' although points satisfy the cut");
                else if (s == CUTStatus::noeffect) check(l2 <= l + tol && u2 >= u - tol, "'no effect' although the cut removes points");
                else check(false, "status ", int(s));
                where(l, u, "after an unsuccessful update");
            }
        }
    });
}
