E1 = 'lib/src/ell.cpp'
H1 = 'lib/include/ellcpp/ell.hpp'
A = 'P01 P02 P03 P04'
CASES = {
    'ell-algebra': (A + ' P05', [(E1, 'const auto b1sqn = b1 * (b1 / this->_tsq);', 'const auto b1sqn = b1 * b1 / this->_tsq;'),
                         (E1, 'this->_rho = this->_sigma * bav;', 'this->_rho = this->_sigma * bsum / 2.;'),
                         (E1, 'const auto bav = bsum / 2.;\n', '')]),
    'ell-outer': (A, [(E1, '''        for (auto j = 0; j < i; ++j)
        {
            this->_Q(i, j) -= rQg * Qg(j);
            this->_Q(j, i) = this->_Q(i, j);
        }
        this->_Q(i, i) -= rQg * Qg(i);
''', '''        for (auto j = 0; j != this->_n; ++j)
        {
            this->_Q(i, j) -= rQg * Qg(j);
        }
''')]),
    'ell-while': (A, [(E1, '''        for (auto j = 0; j < i; ++j)
        {
            this->_Q(i, j) -= rQg * Qg(j);
            this->_Q(j, i) = this->_Q(i, j);
        }
''', '''        auto j = 0;
        while (j < i)
        {
            const auto q = this->_Q(i, j) - rQg * Qg(j);
            this->_Q(j, i) = q;
            this->_Q(i, j) = q;
            ++j;
        }
''')]),
    'ell-upper': (A, [(E1, '''        for (auto j = 0; j < i; ++j)
        {
            this->_Q(i, j) -= rQg * Qg(j);
            this->_Q(j, i) = this->_Q(i, j);
        }
        this->_Q(i, i) -= rQg * Qg(i);
''', '''        this->_Q(i, i) -= rQg * Qg(i);
        for (auto j = i + 1; j < this->_n; ++j)
        {
            this->_Q(i, j) -= rQg * Qg(j);
            this->_Q(j, i) = this->_Q(i, j);
        }
''')]),
    'ell-xouter': (A, [(E1, '''    const auto r = this->_sigma / omega;
    for (auto i = 0; i != this->_n; ++i)
    {
        const auto rQg = r * Qg(i);
        for (auto j = 0; j < i; ++j)
        {
            this->_Q(i, j) -= rQg * Qg(j);
            this->_Q(j, i) = this->_Q(i, j);
        }
        this->_Q(i, i) -= rQg * Qg(i);
    }
''', '''    this->_Q -= (this->_sigma / omega) * xt::linalg::outer(Qg, Qg);
''')]),
    'ell-helper': (A + ' P05', [(E1, '''    this->_kappa *= this->_delta;

    if (this->no_defer_trick)
    {
        this->_Q *= this->_kappa;
        this->_kappa = 1.;
    }
    return {status, this->_tsq}; // g++-7 is ok
''', '''    this->_scale();
    return {status, this->_tsq}; // g++-7 is ok
'''), (H1, '''  protected:
    auto _update_cut(const double& beta) -> CUTStatus
''', '''  protected:
    void _scale()
    {
        this->_kappa *= this->_delta;
        if (!this->no_defer_trick)
        {
            return;
        }
        this->_Q *= this->_kappa;
        this->_kappa = 1.;
    }

    auto _update_cut(const double& beta) -> CUTStatus
''')]),
    'ell-order': (A, [(E1, '''    this->_mu = (bdiff / gamma) * this->_halfNminus1;
    this->_rho = gamma / this->_nPlus1;
    this->_sigma = 2. * this->_rho / (tau + beta);
    this->_delta = this->_c1 * (1. - beta * (beta / this->_tsq));
''', '''    this->_delta = this->_c1 * (1. - beta * (beta / this->_tsq));
    this->_sigma = 2. * (gamma / this->_nPlus1) / (tau + beta);
    this->_rho = gamma / this->_nPlus1;
    this->_mu = (bdiff / gamma) * this->_halfNminus1;
'''), (E1, '''    if (bdiff < 0.)
    {
        return CUTStatus::nosoln; // no sol'n
    }

    if (beta == 0.)''', '''    if (beta > tau)
    {
        return CUTStatus::nosoln; // no sol'n
    }

    if (beta == 0.)''')]),
    'ell-switch': (A + ' P05', [(E1, '''    auto status = this->_update_cut(beta);
    if (status != CUTStatus::success)
    {
        return {status, this->_tsq};
    }

    this->_xc -= (this->_rho / omega) * Qg; // n
''', '''    switch (const auto status0 = this->_update_cut(beta))
    {
        case CUTStatus::success:
            break;
        default:
            return {status0, this->_tsq};
    }
    const auto status = CUTStatus::success;
    const auto step = this->_rho / omega;
    for (auto k = 0; k != this->_n; ++k)
    {
        this->_xc(k) -= step * Qg(k);
    }
''')]),
    'ell-nested': (A, [(E1, '''    if (b0 == 0.) // central cut
    {
        this->_calc_ll_cc(b1, b1sqn);
        return CUTStatus::success;
    }

    const auto b0b1n = b0 * (b1 / this->_tsq);
    if (ELL_UNLIKELY(this->_nFloat * b0b1n < -1.))
    {
        return CUTStatus::noeffect; // no effect
    }

    // const auto t0 = this->_tsq - b0 * b0;
''', '''    const auto b0b1n = b0 * (b1 / this->_tsq);
    if (b0 == 0.) // central cut
    {
        this->_calc_ll_cc(b1, b1sqn);
        return CUTStatus::success;
    }
    else if (ELL_UNLIKELY(this->_nFloat * b0b1n < -1.))
    {
        return CUTStatus::noeffect; // no effect
    }

    // const auto t0 = this->_tsq - b0 * b0;
''')]),
    'ell-inline': (A + ' P05', [(E1, '''    if (beta == 0.)
    {
        this->_calc_cc(tau);
        return CUTStatus::success;
    }
''', '''    if (beta == 0.)
    {
        this->_mu = this->_halfNminus1;
        this->_sigma = this->_c2;
        this->_rho = tau / this->_nPlus1;
        this->_delta = this->_c1;
        return CUTStatus::success;
    }
''')]),
    'ell-omega': (A, [(E1, '''    const auto omega = xt::linalg::dot(g, Qg)();        // n
''', '''    auto omega = 0.;
    for (auto i = 0; i != this->_n; ++i)
    {
        omega += g(i) * Qg(i);
    }
''')]),
    'ell-Qg': (A, [(E1, '''    const auto Qg = Arr {xt::linalg::dot(this->_Q, g)}; // n^2
''', '''    auto Qg = Arr {xt::zeros<double>({this->_n})};
    for (auto i = 0; i != this->_n; ++i)
    {
        for (auto j = 0; j != this->_n; ++j)
        {
            Qg(i) += this->_Q(i, j) * g(j);
        }
    }
''')]),
    'ell-size': (A + ' P05', [(H1, '''        if (beta.shape()[0] < 2)
        {
            return this->_calc_dc(beta[0]);
        }
        return this->_calc_ll_core(beta[0], beta[1]);
''', '''        return beta.size() >= 2 ? this->_calc_ll_core(beta[0], beta[1])
                                : this->_calc_dc(beta[0]);
''')]),
    'ell-quad': (A, [(E1, '''    const auto xi = std::sqrt(t0n * t1n + tempn * tempn);
''', '''    const auto disc = t0n * t1n + tempn * tempn;
    const auto xi = std::sqrt(disc);
'''), (E1, '''    const auto t0n = 1. - b0 * (b0 / this->_tsq);
''', '''    const auto t0n = (this->_tsq - b0 * b0) / this->_tsq;
'''), (E1, '''    const auto t1n = 1. - b1sqn;
    if (t1n < 0. || !this->use_parallel_cut)
''', '''    const auto t1n = 1. - b1sqn;
    const auto single = !this->use_parallel_cut || t1n < 0.;
    if (single)
''')]),
    'ell1d-min': ('P06', [('lib/src/ell1d.cpp', '''    const auto bound = this->_xc - beta / g;
    const auto u = g > 0. ? bound : this->_xc + this->_r;
    const auto l = g > 0. ? this->_xc - this->_r : bound;

    this->_r = algo::half_nonnegative(u - l);
    this->_xc = l + this->_r;
''', '''    auto l = this->_xc - this->_r;
    auto u = this->_xc + this->_r;
    const auto bound = this->_xc - beta / g;
    if (g > 0.)
    {
        u = bound;
    }
    else
    {
        l = bound;
    }
    const auto half = algo::half_nonnegative(u - l);
    this->_xc = l + half;
    this->_r = half;
''')]),
    'ell1d-helper': ('P06', [('lib/src/ell1d.cpp', '''    if (beta == 0.)
    {
        this->_r /= 2;
        this->_xc += g > 0. ? -this->_r : this->_r;
        return {CUTStatus::success, tsq};
    }
    if (beta > tau)
    {
        return {CUTStatus::nosoln, tsq}; // no sol'n
    }
    if (ELL_UNLIKELY(beta < -tau))
''', '''    const auto move = [this](double s) { this->_xc += s; };
    if (beta > tau)
    {
        return {CUTStatus::nosoln, tsq}; // no sol'n
    }
    if (beta == 0.)
    {
        this->_r *= 0.5;
        if (g > 0.)
        {
            move(-this->_r);
        }
        else
        {
            move(this->_r);
        }
        return {CUTStatus::success, tsq};
    }
    if (ELL_UNLIKELY(beta + tau < 0.))
''')]),
}
