// Bounded companion for P17, P18: random parameters, query points and best values.
#include "mat.hpp"
#include <ellcpp/oracles/profit_oracle.hpp>
struct Pm { double p, A, k, a[2], v[2], e[2], e3; };
static Pm params(Rng& r)
{
    Pm m;
    m.p = r.u(5, 40);
    m.A = r.u(5, 60);
    m.k = r.u(2, 40);
    for (int i = 0; i < 2; ++i) { m.a[i] = r.u(.05, .6); m.v[i] = r.u(1, 40); m.e[i] = r.u(0, .05); }
    m.e3 = r.u(0, 1);
    return m;
}
int main(int argc, char** argv)
{
    return run(argc, argv, [](const std::string& P, Rng& r, long) {
        Pm m = params(r);
        const bool rb = P == "P17" && r.coin();
        const double e3 = rb ? m.e3 : 0;
        input("p=", m.p, " A=", m.A, " k=", m.k, " a=", strv({m.a[0], m.a[1]}), " v=", strv({m.v[0], m.v[1]}), rb ? cat(" e=", strv({m.e[0], m.e[1]}), " e3=", m.e3) : "");
        const Arr a {m.a[0], m.a[1]}, v {m.v[0], m.v[1]}, e {m.e[0], m.e[1]};
        // worst elasticity at z
        auto el = [&](int i, double z) { return rb ? m.a[i] + (z > 0 ? -m.e[i] : m.e[i]) : m.a[i]; };
        auto profit = [&](const Vec& z) {
            return (m.p - e3) * m.A * std::exp(el(0, z[0]) * z[0] + el(1, z[1]) * z[1]) - (m.v[0] + e3) * std::exp(z[0]) - (m.v[1] + e3) * std::exp(z[1]);
        };
        const double lk = std::log(m.k - e3);
        double t = r.coin(.3) ? 0 : r.u(0, 300);
        auto point = [&] { return Vec {r.u(-1.5, 4), r.u(-1.5, 4)}; };
        auto cutcheck = [&](const Arr& g, double f, bool imp, double t0, const Vec& y, const Vec& q) {
            check(std::isfinite(g(0)) && std::isfinite(g(1)) && std::isfinite(f), "cut is not finite");
            if (imp) {
                check(y[0] <= lk + 1e-9, "improvement above the limit");
                check(close(t, profit(y)), "new best value ", t, " but the profit is ", profit(y));
                check(t >= t0, "best value falls from ", t0, " to ", t);
                ++nontrivial();
            } else {
                check(t == t0, "best value changed");
                check(y[0] > lk - 1e-9 || profit(y) <= t + 1e-6, "no improvement although the profit is ", profit(y), " against ", t);
            }
            (void)q;
            for (int s = 0; s < 25; ++s) {
                Vec z = r.coin(.3) ? Vec {y[0] + r.u(-.2, .2), y[1] + r.u(-.2, .2)} : point();
                if (z[0] > lk || profit(z) < t) continue;
                double c = g(0) * (z[0] - q[0]) + g(1) * (z[1] - q[1]) + f;
                check(c <= 1e-6, "cut removes the better input ", strv(z), " of profit ", profit(z), " by ", c);
            }
        };
        if (P == "P17") {
            profit_oracle o(m.p, m.A, m.k, a, v);
            profit_rb_oracle ob(m.p, m.A, m.k, a, v, e, m.e3);
            for (int call = r.in(1, 5); call > 0; --call) {
                Vec y = point();
                double t0 = t;
                input("call y=", strv(y), " t=", t);
                auto res = rb ? ob(arr(y), t) : o(arr(y), t);
                auto& cut = std::get<0>(res);
                cutcheck(std::get<0>(cut), std::get<1>(cut), std::get<1>(res), t0, y, y);
                check(std::get<1>(res) || std::get<1>(cut) >= -1e-9, "the cut is not violated at the point: ", std::get<1>(cut));
            }
            return;
        }
        profit_q_oracle o(m.p, m.A, m.k, a, v);
        profit_oracle ref(m.p, m.A, m.k, a, v);
        Vec yd0;
        for (int call = r.in(1, 6); call > 0; --call) {
            Vec y = point();
            bool retry = !yd0.empty() && r.coin(.4);
            double t0 = t, tr = t;
            input("call y=", strv(y), " t=", t, " retry=", int(retry));
            auto res = o(arr(y), t, retry);
            auto& cut = std::get<0>(res);
            const Arr& yd = std::get<1>(res);
            check(yd.shape()[0] == 2, "evaluated point has ", int(yd.shape()[0]), " entries");
            Vec d {yd(0), yd(1)};
            for (int i = 0; i < 2; ++i) {
                if (retry) { check(d[i] == yd0[i], "an alternative does not reuse the evaluated point"); continue; }
                double x = std::exp(d[i]), n = std::round(x), w = std::exp(y[i]);
                check(std::fabs(x - n) < 1e-9 * (1 + x) && n >= 1, "evaluated quantity ", x, " is not a whole number of at least one");
                check(std::fabs(n - w) <= .5 + 1e-9 || (n == 1 && w < 1), "evaluated quantity ", n, " is not the nearest to ", w);
            }
            yd0 = d;
            check(std::get<3>(res) == !retry, "alternatives offered: ", int(std::get<3>(res)));
            auto rr = ref(arr(d), tr);
            auto& rc = std::get<0>(rr);
            check(std::get<2>(res) == std::get<1>(rr) && close(t, tr), "not the answer of the profit oracle at the evaluated point");
            const Arr &g = std::get<0>(cut), &gr = std::get<0>(rc);
            check(close(g(0), gr(0)) && close(g(1), gr(1)), "gradient differs from that at the evaluated point");
            double sh = g(0) * (d[0] - y[0]) + g(1) * (d[1] - y[1]), h = std::get<1>(cut), hr = std::get<1>(rc);
            if (!close(h, hr - sh)) {
                // recorded finding: the shift enters with the wrong sign
                check(close(h, hr + sh), "offset ", h, " for the query point, expected ", hr - sh);
                known().insert("shift-sign");
            }
            if (std::get<2>(res)) {
                check(close(t, profit(d)), "new best value ", t, " but the profit is ", profit(d));
                check(d[0] <= lk + 1e-9, "improvement above the limit");
                ++nontrivial();
            } else
                check(t == t0, "best value changed");
        }
    });
}
