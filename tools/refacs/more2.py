LP = 'lib/src/lowpass_oracle.cpp'
CS = 'lib/src/csd.cpp'
CP = 'lib/include/ellcpp/cutting_plane.hpp'
PR = 'lib/src/profit_oracle.cpp'
E1 = 'lib/src/ell1d.cpp'
ST = 'lib/src/ell_stable.cpp'
EL = 'lib/src/ell.cpp'
LX = 'lib/src/ldlt_ext.cpp'
LH = 'lib/include/ellcpp/oracles/ldlt_ext.hpp'
LQ = 'lib/src/lsq_corr_ell.cpp'
QM = 'lib/src/qmi_oracle.cpp'
L0 = 'lib/src/lmi0_oracle.cpp'
CR = 'lib/include/ellcpp/oracles/cycle_ratio_oracle.hpp'
NC = 'lib/include/netoptim/neg_cycle.hpp'
CASES = {
    'mo2-ell-ifinit': ('P01 P02 P03 P04', [(EL, '''    auto status = this->_update_cut(beta);
    if (status != CUTStatus::success)
    {
        return {status, this->_tsq};
    }

    this->_xc -= (this->_rho / omega) * Qg; // n
''', '''    if (const auto failed = this->_update_cut(beta);
        failed != CUTStatus::success)
    {
        return {failed, this->_tsq};
    }

    this->_xc -= (this->_rho / omega) * Qg; // n
'''), (EL, '''    return {status, this->_tsq}; // g++-7 is ok
''', '''    return std::make_tuple(CUTStatus::success, this->_tsq);
''')]),
    'mo2-ell-anon': ('P01 P02 P03 P04', [(EL, '''using Arr = xt::xarray<double, xt::layout_type::row_major>;

''', '''using Arr = xt::xarray<double, xt::layout_type::row_major>;

namespace
{
constexpr auto half = 0.5;

auto discriminant(double t0n, double t1n, double tempn) -> double
{
    return std::sqrt(t0n * t1n + tempn * tempn);
}
} // namespace
'''), (EL, '''    const auto bav = bsum / 2.;
''', '''    const auto bav = half * bsum;
'''), (EL, '''    const auto xi = std::sqrt(t0n * t1n + tempn * tempn);
''', '''    const auto xi = discriminant(t0n, t1n, tempn);
''')]),
    'mo2-ell-cuts': ('P01 P02 P03 P04', [(EL, '''    const auto tau = std::sqrt(this->_tsq);

    const auto bdiff = tau - beta;
    if (bdiff < 0.)
    {
        return CUTStatus::nosoln; // no sol'n
    }

    if (beta == 0.)
    {
        this->_calc_cc(tau);
        return CUTStatus::success;
    }

    const auto gamma = tau + this->_nFloat * beta;
    if (ELL_UNLIKELY(gamma < 0))
    {
        return CUTStatus::noeffect; // no effect
    }

    this->_mu''', '''    const auto tau = std::sqrt(this->_tsq);
    const auto bdiff = tau - beta;
    const auto gamma = tau + this->_nFloat * beta;
    auto status = CUTStatus::success;
    if (tau < beta)
    {
        status = CUTStatus::nosoln; // no sol'n
    }
    else if (gamma < 0)
    {
        status = CUTStatus::noeffect; // no effect
    }
    else if (beta == 0.)
    {
        this->_calc_cc(tau);
        return status;
    }
    if (status != CUTStatus::success)
    {
        return status;
    }

    this->_mu''')]),
    'mo2-ldlt-return': ('P12 P13 P14', [(LH, '''        this->p = {0U, 0U};
        auto& [start, stop] = this->p;
''', '''        size_t start = 0U;
        size_t stop = 0U;
'''), (LH, '''        return this->is_spd();
    }
''', '''        this->p = {start, stop};
        return stop == 0U;
    }
''')]),
    'mo2-ldlt-early': ('P12 P13 P14', [(LH, '''                if (d <= 0.)
                {
                    stop = i + 1;
                    break;
                }
            }
        }

        return this->is_spd();
''', '''                if (!(d > 0.))
                {
                    stop = i + 1;
                    return false;
                }
            }
        }

        return this->is_spd();
''')]),
    'mo2-ldlt-rowdot': ('P12 P13 P14', [(LH, '''                this->T(j, i) = d;
                this->T(i, j) = d / this->T(j, j); // note: T(j, i) here!
                auto s = j + 1;
                d = getA(i, s);
                for (auto k = start; k != s; ++k)
                {
                    d -= this->T(i, k) * this->T(k, s);
                }
''', '''                this->T(j, i) = d;
                this->T(i, j) = d / this->T(j, j); // note: T(j, i) here!
                const auto s = j + 1;
                const auto product = [&]() {
                    auto sum = 0.;
                    for (auto k = start; k < s; ++k)
                    {
                        sum += this->T(i, k) * this->T(k, s);
                    }
                    return sum;
                };
                d = getA(i, s) - product();
''')]),
    'mo2-lsq-ifinit': ('P26 P27', [(LQ, '''        if (const auto cut0 = this->_lmi0(xt::view(x, xt::range(0, n - 1))))
        {
            const auto& [g0, f0] = *cut0;
            xt::view(g, xt::range(0, n - 1)) = g0;
            g(n - 1) = 0.;
            return {{std::move(g), f0}, false};
        }
        this->_qmi.update(x(n - 1));
''', '''        const auto last = n - 1;
        const Arr coef = xt::view(x, xt::range(0, last));
        if (const auto cut0 = this->_lmi0(coef); cut0.has_value())
        {
            xt::view(g, xt::range(0, last)) = std::get<0>(*cut0);
            return {{std::move(g), std::get<1>(*cut0)}, false};
        }
        this->_qmi.update(x(last));
'''), (LQ, '''        const auto f0 = x(n - 1) - t;
        if (f0 > 0)
        {
            return {{std::move(g), f0}, false};
        }

        t = x(n - 1);
        return {{std::move(g), 0.}, true};
''', '''        const auto f0 = x(last) - t;
        const auto better = !(f0 > 0);
        if (better)
        {
            t = x(last);
        }
        return {{std::move(g), better ? 0. : f0}, better};
''')]),
    'mo2-mle-grad': ('P26', [(LQ, '''            auto SFsi = dot(S, this->_Sig[i]);
            g(i) = xt::linalg::trace(SFsi)();
            for (auto k = 0U; k != m; ++k)
            {
                g(i) -= dot(
                    xt::view(SFsi, k, xt::all()), xt::view(SY, xt::all(), k))();
            }
''', '''            auto SFsi = Arr {dot(S, this->_Sig[i])};
            auto gi = xt::linalg::trace(SFsi)();
            gi -= xt::linalg::trace(dot(SFsi, SY))();
            g(i) = gi;
'''), (LQ, '''        auto m = this->_Y.shape()[0];

        const auto& R''', '''        const auto& R''')]),
    'mo2-dist-index': ('P27', [(LQ, '''            auto h = xt::view(s, j, xt::all()) - xt::view(s, i, xt::all());
            auto d = std::sqrt(xt::linalg::dot(h, h)());
            D1(i, j) = d;
            D1(j, i) = d;
''', '''            auto dsq = 0.;
            for (auto k = 0U; k != s.shape()[1]; ++k)
            {
                const auto h = s(i, k) - s(j, k);
                dsq += h * h;
            }
            D1(i, j) = D1(j, i) = std::sqrt(dsq);
'''), (LQ, '''    auto D = Arr {xt::ones<double>({n, n})};
    auto Sig = std::vector<Arr> {D};
    Sig.reserve(m);

    for (auto i = 0U; i != m - 1; ++i)
    {
        D *= D1;
        Sig.push_back(D);
    }
    return Sig;
''', '''    auto Sig = std::vector<Arr> {};
    Sig.reserve(m);
    Sig.push_back(xt::ones<double>({n, n}));
    for (auto i = 1U; i < m; ++i)
    {
        Sig.push_back(Sig.back() * D1);
    }
    return Sig;
''')]),
    'mo2-lmi0': ('P14 P26', [(L0, '''    auto ep = this->_Q.witness();
    auto g = zeros(x);
    for (auto i = 0U; i != n; ++i)
    {
        g(i) = -_Q.sym_quad(this->_F[i]);
    }
    return {{std::move(g), ep}};
''', '''    auto& Q = this->_Q;
    Cut cut {zeros(x), Q.witness()};
    auto& g = std::get<0>(cut);
    for (auto i = n; i > 0; --i)
    {
        g(i - 1) = -Q.sym_quad(this->_F[i - 1]);
    }
    return cut;
''')]),
    'mo2-profit-cobb': ('P17 P18', [(PR, '''    const auto f1 = y[0] - this->_log_k;
    if (f1 > 0.)
    {
        return {{Arr {1., 0.}, f1}, false};
    }

    const auto log_Cobb = this->_log_pA + xt::linalg::dot(this->_a, y)();
    const auto x = Arr {xt::exp(y)};
    const auto vx = xt::linalg::dot(this->_v, x)();
''', '''    if (y[0] > this->_log_k)
    {
        return {{Arr {1., 0.}, y[0] - this->_log_k}, false};
    }

    const auto log_Cobb =
        this->_a[0] * y[0] + this->_a[1] * y[1] + this->_log_pA;
    const auto x = Arr {std::exp(y[0]), std::exp(y[1])};
    const auto vx = this->_v[0] * x[0] + this->_v[1] * x[1];
''')]),
    'mo2-ratio': ('P21', [(CR, '''        auto fj = t - x;
        if (fj >= 0)
        {
            return {{-1., fj}, false};
        }
        const auto cut = this->_network(x);
        if (cut)
        {
            return {*cut, false};
        }
        t = x;
        return {{-1., 0.}, true};
''', '''        if (x <= t)
        {
            return {Cut {-1., t - x}, false};
        }
        if (const auto cut = this->_network(x))
        {
            return {cut.value(), false};
        }
        t = x;
        return std::make_tuple(Cut {-1., 0.}, true);
''')]),
    'mo2-neg-walk': ('P19', [(NC, '''        auto v = handle;
        auto cycle = std::vector<edge_t> {}; // ???
        do
        {
            const auto& u = this->_pred[v];
            cycle.push_back(this->_edge[v]); // ???
            v = u;
        } while (v != handle);
        return cycle;
''', '''        auto cycle = std::vector<edge_t> {this->_edge[handle]};
        for (auto v = this->_pred[handle]; v != handle; v = this->_pred[v])
        {
            cycle.emplace_back(this->_edge.at(v));
        }
        return cycle;
''')]),
    'mo2-neg-nodes': ('P19', [(NC, '''        for (auto&& v : this->_G)
        {
            if (visited.contains(v))
            {
                continue;
            }
            auto u = v;
            while (true)
            {
                visited[u] = v;
                if (!this->_pred.contains(u))
                {
                    break;
                }
                u = this->_pred[u];
                if (visited.contains(u))
                {
                    if (visited[u] == v)
                    {
                        // if (this->_is_negative(u)) {
                        // should be "yield u";
                        return u;
                        // }
                    }
                    break;
                }
            }
        }
''', '''        for (const auto v : this->_G)
        {
            auto u = v;
            while (!visited.contains(u))
            {
                visited[u] = v;
                if (!this->_pred.contains(u))
                {
                    break;
                }
                u = this->_pred[u];
                if (visited.contains(u) && visited[u] == v)
                {
                    return u;
                }
            }
        }
''')]),
    'mo2-ell1d': ('P06', [(E1, '''    if (beta == 0.)
    {
        this->_r /= 2;
        this->_xc += g > 0. ? -this->_r : this->_r;
        return {CUTStatus::success, tsq};
    }
    if (beta > tau)
    {
        return {CUTStatus::nosoln, tsq}; // no sol'n
    }
    if (ELL_UNLIKELY(beta < -tau))
    {
        return {CUTStatus::noeffect, tsq}; // no effect
    }
''', '''    if (std::fabs(beta) > tau && beta != 0.)
    {
        const auto status =
            beta > 0. ? CUTStatus::nosoln : CUTStatus::noeffect;
        return {status, tsq};
    }
    if (beta == 0.)
    {
        const auto half = algo::half_nonnegative(this->_r);
        this->_xc -= std::copysign(half, g);
        this->_r = half;
        return {CUTStatus::success, tsq};
    }
''')]),
    'mo2-csd-lam': ('P23 P24', [(CS, '''    auto csd_str = string {n == 0 ? "0" : ""};
    auto limit = pow(2., n) / 3.;
    while (n > -places)
    {
        if (n == 0)
        {
            csd_str += '.';
        }
        n -= 1;
        if (num > limit)
        {
            csd_str += '+';
            num -= 1.5 * limit;
        }
        else if (num < -limit)
        {
            csd_str += '-';
            num += 1.5 * limit;
        }
        else
        {
            csd_str += '0';
        }
        limit /= 2.;
    }
    return csd_str;
}


''', '''    string csd_str;
    if (n == 0)
    {
        csd_str = "0";
    }
    auto step = pow(2., n - 1);
    for (; n > -places; --n)
    {
        if (n == 0)
        {
            csd_str.push_back('.');
        }
        const auto limit = step * 2. / 3.;
        if (num > limit)
        {
            csd_str.push_back('+');
            num -= step;
        }
        else if (num < -limit)
        {
            csd_str.push_back('-');
            num += step;
        }
        else
        {
            csd_str.push_back('0');
        }
        step /= 2.;
    }
    return csd_str;
}


''')]),
    'mo2-cut-space': ('P08', [(CP, '''    const auto t_orig = t;
    decltype(S.xc()) x_best;
    auto status = CUTStatus::success;

    auto niter = 0U;
    while (++niter < options.max_it)
    {
        const auto [cut, shrunk] = Omega(S.xc(), t);
        if (shrunk)
        { // best t obtained
            x_best = S.xc();
        }
''', '''    const auto t_orig = t;
    decltype(S.xc()) x_best;
    auto status = CUTStatus::success;
    const auto max_it = options.max_it;

    auto niter = 0U;
    while (++niter < max_it)
    {
        const auto x = S.xc();
        const auto answer = Omega(x, t);
        const auto& cut = std::get<0>(answer);
        if (std::get<1>(answer))
        { // best t obtained
            x_best = x;
        }
''')]),
}
