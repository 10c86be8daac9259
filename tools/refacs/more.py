LP = 'lib/src/lowpass_oracle.cpp'
CS = 'lib/src/csd.cpp'
NC = 'lib/include/netoptim/neg_cycle.hpp'
CP = 'lib/include/ellcpp/cutting_plane.hpp'
HN = 'lib/include/ellcpp/half_nonnegative.hpp'
PM = 'lib/include/netoptim/parametric.hpp'
MR = 'lib/include/netoptim/min_cycle_ratio.hpp'
NO = 'lib/include/ellcpp/oracles/network_oracle.hpp'
OS = 'lib/include/ellcpp/oracles/optscaling_oracle.hpp'
PR = 'lib/src/profit_oracle.cpp'
FR = 'lib/include/py2cpp/fractions.hpp'
E1 = 'lib/src/ell1d.cpp'
LM = 'lib/src/lmi_oracle.cpp'
LO = 'lib/src/lmi_old_oracle.cpp'
ST = 'lib/src/ell_stable.cpp'
EL = 'lib/src/ell.cpp'
PY = 'lib/include/py2cpp/py2cpp.hpp'
LX = 'lib/src/ldlt_ext.cpp'
LH = 'lib/include/ellcpp/oracles/ldlt_ext.hpp'
CASES = {
    'more-lp-mod': ('P16', [(LP, '''    auto k = this->_i_Ap;
    for (auto i = 0U; i != N; ++i, ++k)
    {
        if (k == N)
        {
            k = 0; // round robin
        }
        auto v = dot(xt::view(this->_Ap, k, xt::all()), x)();
''', '''    const auto first = this->_i_Ap;
    for (auto i = 0U; i != N; ++i)
    {
        const auto k = (first + i) % N; // round robin
        auto v = dot(xt::view(this->_Ap, k, xt::all()), x)();
'''), (LP, '''    k = this->_i_As;
    for (auto''', '''    auto k = this->_i_As;
    for (auto''')]),
    'more-lp-lambda': ('P16', [(LP, '''    auto k = this->_i_Ap;
    for (auto i = 0U; i != N; ++i, ++k)
    {
        if (k == N)
        {
            k = 0; // round robin
        }
''', '''    const auto wrap = [](size_t& row, size_t rows) {
        if (row == rows)
        {
            row = 0; // round robin
        }
    };

    auto k = this->_i_Ap;
    for (auto i = 0U; i != N; ++i, ++k)
    {
        wrap(k, N);
'''), (LP, '''    k = this->_i_As;
    for (auto i = 0U; i != N; ++i, ++k)
    {
        if (k == N)
        {
            k = 0; // round robin
        }
''', '''    k = this->_i_As;
    for (auto i = 0U; i != N; ++i, ++k)
    {
        wrap(k, N);
'''), (LP, '''    k = this->_i_Anr;
    for (auto i = 0U; i != N; ++i, ++k)
    {
        if (k == N)
        {
            k = 0; // round robin
        }
''', '''    k = this->_i_Anr;
    for (auto i = 0U; i != N; ++i, ++k)
    {
        wrap(k, N);
''')]),
    'more-lp-upper': ('P16', [(LP, '''            Arr g = xt::view(this->_Ap, k, xt::all());
            Arr f {v - this->_Upsq, v - this->_Lpsq};
            this->_i_Ap = k + 1;
            return {{std::move(g), std::move(f)}, false};
''', '''            this->_i_Ap = k + 1;
            return {ParallelCut {xt::view(this->_Ap, k, xt::all()),
                        Arr {v - this->_Upsq, v - this->_Lpsq}},
                false};
'''), (LP, '''    // case 1,
    if (x[0] < 0)
    {
        auto g = zeros(x);
        g[0] = -1.;
        auto f = Arr {-x[0]};
        return {{std::move(g), std::move(f)}, false};
    }
''', '''    // case 1,
    const auto first = x[0];
    if (first < 0.)
    {
        auto g = zeros(x);
        g[0] = -1.;
        return {{std::move(g), Arr {-first}}, false};
    }
''')]),
    'more-csd-max': ('P23 P24', [(CS, '''    auto absnum = fabs(num);
    auto n = absnum * 1.5 <= 1. ? 0 : int(ceil(log2(absnum * 1.5)));
''', '''    const auto upper = 1.5 * fabs(num);
    auto n = 0;
    if (upper > 1.)
    {
        n = static_cast<int>(std::ceil(std::log2(upper)));
    }
''')]),
    'more-csd-digit': ('P23 P24', [(CS, '''        n -= 1;
        if (num > limit)
        {
            csd_str += '+';
            num -= 1.5 * limit;
        }
        else if (num < -limit)
        {
            csd_str += '-';
            num += 1.5 * limit;
        }
        else
        {
            csd_str += '0';
        }
        limit /= 2.;
    }
    return csd_str;
}


''', '''        --n;
        const auto digit = num > limit ? '+' : num < -limit ? '-' : '0';
        csd_str.push_back(digit);
        if (digit == '+')
        {
            num -= 1.5 * limit;
        }
        if (digit == '-')
        {
            num += 1.5 * limit;
        }
        limit *= 0.5;
    }
    return csd_str;
}


''')]),
    'more-csd-budget': ('P23 P24', [(CS, '''    while (n > 0 || (nnz > 0 && num != 0.))
    {
        if (nnz == 0)
        {
            num = 0;
        }
''', '''    while (true)
    {
        if (n <= 0 && (nnz == 0 || num == 0.))
        {
            break;
        }
        if (nnz == 0)
        {
            num = 0.;
        }
'''), (CS, '''            num -= 1.5 * limit;
            nnz -= 1;
''', '''            num -= 1.5 * limit;
            --nnz;
''')]),
    'more-csd-dec': ('P23 P24', [(CS, '''    for (auto c : csd_str)
    {
        switch (c)
        {
            case '0':
                num *= 2.;
                break;
            case '+':
                num *= 2.;
                num += 1.;
                break;
            case '-':
                num *= 2.;
                num -= 1.;
                break;
            case '.':
                loc = i + 1;
                break;
            default:
                break; // ignore
        }
        ++i;
    }
''', '''    for (const char c : csd_str)
    {
        ++i;
        if (c == '.')
        {
            loc = i;
        }
        else if (c == '+')
        {
            num = 2. * num + 1.;
        }
        else if (c == '-')
        {
            num = 2. * num - 1.;
        }
        else if (c == '0')
        {
            num += num;
        }
    }
''')]),
    'more-neg-bind': ('P19 P20 P21', [(NC, '''            const auto vs = this->_G.end_points(e);
            const auto& u = vs.first;
            const auto& v = vs.second;
            const auto wt = get_weight(e);
            const auto d = dist[u] + wt;

            if (dist[v] > d)
            {
                this->_pred[v] = u;
                this->_edge[v] = e; // ???
                dist[v] = d;
                changed = true;
            }
''', '''            const auto [u, v] = this->_G.end_points(e);
            const auto d = dist[u] + get_weight(e);
            if (!(dist[v] > d))
            {
                continue;
            }
            dist[v] = d;
            this->_edge[v] = e;
            this->_pred[v] = u;
            changed = true;
''')]),
    'more-neg-forever': ('P19 P20 P21', [(NC, '''        while (this->_relax(dist, get_weight))
        {
            const auto v = this->_find_cycle();
            if (v != this->_G.null_vertex())
            {
                assert(this->_is_negative(v, dist, get_weight));
                return this->_cycle_list(v);
            }
        }
        return std::vector<edge_t> {}; // ???
''', '''        auto cycle = std::vector<edge_t> {};
        for (;;)
        {
            if (!this->_relax(dist, get_weight))
            {
                break;
            }
            const auto v = this->_find_cycle();
            if (v == this->_G.null_vertex())
            {
                continue;
            }
            cycle = this->_cycle_list(v);
            break;
        }
        return cycle;
''')]),
    'more-neg-colour': ('P19 P20 P21', [(NC, '''            auto u = v;
            while (true)
            {
                visited[u] = v;
                if (!this->_pred.contains(u))
                {
                    break;
                }
                u = this->_pred[u];
                if (visited.contains(u))
                {
                    if (visited[u] == v)
                    {
                        // if (this->_is_negative(u)) {
                        // should be "yield u";
                        return u;
                        // }
                    }
                    break;
                }
            }
''', '''            auto u = v;
            visited[u] = v;
            while (this->_pred.contains(u))
            {
                u = this->_pred[u];
                if (!visited.contains(u))
                {
                    visited[u] = v;
                    continue;
                }
                if (visited[u] == v)
                {
                    return u;
                }
                break;
            }
''')]),
    'more-cut-early': ('P07 P11', [(CP, '''    auto feasible = false;
    auto status = CUTStatus::success;

    auto niter = 0U;
    while (++niter < options.max_it)
    {
        const auto cut = Omega(S.xc()); // query the oracle at S.xc()
        if (!cut)
        { // feasible sol'n obtained
            feasible = true;
            break;
        }
        const auto [cutstatus, tsq] = S.update(*cut); // update S
        if (cutstatus != CUTStatus::success)
        {
            status = cutstatus;
            break;
        }
        if (tsq < options.tol)
        { // no more
            status = CUTStatus::smallenough;
            break;
        }
    }
    return {feasible, niter, status};
''', '''    auto niter = 0U;
    while (++niter < options.max_it)
    {
        const auto cut = Omega(S.xc()); // query the oracle at S.xc()
        if (!cut)
        { // feasible sol'n obtained
            return {true, niter, CUTStatus::success};
        }
        const auto [cutstatus, tsq] = S.update(*cut); // update S
        if (cutstatus != CUTStatus::success)
        {
            return {false, niter, cutstatus};
        }
        if (tsq < options.tol)
        { // no more
            return {false, niter, CUTStatus::smallenough};
        }
    }
    return {false, niter, CUTStatus::success};
''')]),
    'more-dc-flag': ('P08', [(CP, '''        const auto [cutstatus, tsq] = S.update(cut);
        if (cutstatus != CUTStatus::success) // ???
        {
            status = cutstatus;
            break;
        }
        if (tsq < options.tol)
        { // no more
            status = CUTStatus::smallenough;
            break;
        }
    }
    return std::make_tuple(
        std::move(x_best), CInfo {t != t_orig, niter, status});
} // END

/*!
    Cutting''', '''        const auto result = S.update(cut);
        status = std::get<0>(result);
        if (status == CUTStatus::success && std::get<1>(result) < options.tol)
        { // no more
            status = CUTStatus::smallenough;
        }
        if (status != CUTStatus::success)
        {
            break;
        }
    }
    const auto feasible = t != t_orig;
    return std::make_tuple(std::move(x_best), CInfo {feasible, niter, status});
} // END

/*!
    Cutting''')]),
    'more-q-switch': ('P09', [(CP, '''        status = cutstatus;
        if (cutstatus == CUTStatus::noeffect)
        {
            if (!more_alt)
            {
                break; // no more alternative cut
            }
        }
        if (cutstatus == CUTStatus::nosoln)
        {
            break;
        }
        if (tsq < options.tol)
''', '''        status = cutstatus;
        const auto given_up = cutstatus == CUTStatus::noeffect && !more_alt;
        if (given_up || cutstatus == CUTStatus::nosoln)
        {
            break;
        }
        if (tsq < options.tol)
''')]),
    'more-bs-while': ('P10', [(CP, '''    for (; niter != options.max_it; ++niter)
    {
        auto tau = algo::half_nonnegative(upper - lower);
        if (tau < options.tol)
        {
            status = CUTStatus::smallenough;
            break;
        }

        auto t = lower; // l may be `int` or `Fraction`
        t += tau;
        if (Omega(t))
        { // feasible sol'n obtained
            upper = t;
        }
        else
        {
            lower = t;
        }
    }
''', '''    while (niter < options.max_it)
    {
        const auto tau = algo::half_nonnegative(upper - lower);
        if (tau < options.tol)
        {
            status = CUTStatus::smallenough;
            break;
        }

        auto t = lower; // l may be `int` or `Fraction`
        t += tau;
        auto& end = Omega(t) ? upper : lower;
        end = t;
        ++niter;
    }
''')]),
    'more-half': ('P10 P06', [(HN, '''    using UN = typename std::make_unsigned<N>::type;
    return static_cast<N>(static_cast<UN>(n) / 2);
''', '''    return static_cast<N>(n >> 1);
''')]),
    'more-par-early': ('P20 P21', [(PM, '''    auto niter = 0U;
    for (; niter != max_iter; ++niter)
    {
        const auto& C_min =
            S.find_neg_cycle(std::forward<Container>(dist), get_weight);
        if (C_min.empty())
        {
            break;
        }

        const auto& r_min = zero_cancel(C_min);
        if (r_min >= r_opt)
        {
            break;
        }

        C_opt = C_min;
        r_opt = r_min;

        // update ???
        for (auto&& edge : C_opt)
        {
            const auto e = G.end_points(edge);
            dist[e.first] = dist[e.second] - get_weight(edge);
        }
    }
''', '''    for (auto niter = size_t {0}; niter < max_iter; ++niter)
    {
        auto C_min =
            S.find_neg_cycle(std::forward<Container>(dist), get_weight);
        if (C_min.empty())
        {
            return C_opt;
        }

        const auto r_min = zero_cancel(C_min);
        if (!(r_min < r_opt))
        {
            return C_opt;
        }

        r_opt = r_min;
        C_opt = std::move(C_min);

        // update ???
        for (const auto& edge : C_opt)
        {
            const auto [u, v] = G.end_points(edge);
            dist[u] = dist[v] - get_weight(edge);
        }
    }
''')]),
    'more-ratio-acc': ('P20 P21', [(MR, '''        auto total_cost = cost_T(0);
        auto total_time = time_T(0);
        for (auto&& e : C)
        {
            total_cost += get_cost(e);
            total_time += get_time(e);
        }
        return T(total_cost) / total_time;
''', '''        const auto total_cost = std::accumulate(C.begin(), C.end(), cost_T(0),
            [&](const auto& s, const auto& e) { return s + get_cost(e); });
        const auto total_time = std::accumulate(C.begin(), C.end(), time_T(0),
            [&](const auto& s, const auto& e) { return s + get_time(e); });
        return T(total_cost) / total_time;
''')]),
    'more-net-sum': ('P21', [(NO, '''        auto g = zeros(x);
        auto f = 0.;
        for (auto&& e : C)
        {
            f -= this->_h.eval(e, x);
            g -= this->_h.grad(e, x);
        }
        return {{std::move(g), f}};
''', '''        auto g = zeros(x);
        for (const auto& e : C)
        {
            g -= this->_h.grad(e, x);
        }
        auto f = 0.;
        for (const auto& e : C)
        {
            f += this->_h.eval(e, x);
        }
        return std::make_tuple(std::move(g), -f);
''')]),
    'more-scaling-g': ('P21', [(OS, '''        auto s = x(0) - x(1);
        auto fj = s - t;
        if (fj < 0)
        {
            t = s;
            return {{Arr {1., -1.}, 0.}, true};
        }
        return {{Arr {1., -1.}, fj}, false};
''', '''        const auto s = x(0) - x(1);
        const auto shrunk = s < t;
        const auto fj = shrunk ? 0. : s - t;
        if (shrunk)
        {
            t = s;
        }
        return {{Arr {1., -1.}, fj}, shrunk};
'''), (OS, '''            return (u < v) ? x(0) - cost : cost - x(1);
''', '''            if (u < v)
            {
                return x(0) - cost;
            }
            return -(x(1) - cost);
'''), (OS, '''            return (u < v) ? Arr {1., 0.} : Arr {0., -1.};
''', '''            auto g = zeros(x);
            if (u < v)
            {
                g(0) = 1.;
            }
            else
            {
                g(1) = -1.;
            }
            return g;
''')]),
    'more-profit-flow': ('P17 P18', [(PR, '''    auto te = t + vx;

    auto fj = std::log(te) - log_Cobb;
    if (fj < 0.)
    {
        te = std::exp(log_Cobb);
        t = te - vx;
        auto g = Arr {(this->_v * x) / te - this->_a};
        return {{std::move(g), 0.}, true};
    }
    auto g = Arr {(this->_v * x) / te - this->_a};
    return {{std::move(g), fj}, false};
''', '''    auto te = t + vx;
    auto fj = std::log(te) - log_Cobb;
    const auto shrunk = fj < 0.;
    if (shrunk)
    {
        te = std::exp(log_Cobb);
        t = te - vx;
        fj = 0.;
    }
    auto g = Arr {(this->_v * x) / te - this->_a};
    return {{std::move(g), fj}, shrunk};
''')]),
    'more-profit-lambda': ('P17 P18', [(PR, '''    auto te = t + vx;

    auto fj = std::log(te) - log_Cobb;
    if (fj < 0.)
    {
        te = std::exp(log_Cobb);
        t = te - vx;
        auto g = Arr {(this->_v * x) / te - this->_a};
        return {{std::move(g), 0.}, true};
    }
    auto g = Arr {(this->_v * x) / te - this->_a};
    return {{std::move(g), fj}, false};
''', '''    const auto gradient = [&](double revenue) -> Arr {
        return (this->_v * x) / revenue - this->_a;
    };
    const auto te = t + vx;
    const auto fj = std::log(te) - log_Cobb;
    if (fj >= 0.)
    {
        return {{gradient(te), fj}, false};
    }
    const auto revenue = std::exp(log_Cobb);
    t = revenue - vx;
    return {{gradient(revenue), 0.}, true};
'''), (PR, '''        auto x = Arr {xt::round(xt::exp(y))};
        if (x[0] == 0.)
        {
            x[0] = 1.; // nearest integer than 0
        }
        if (x[1] == 0.)
        {
            x[1] = 1.;
        }
''', '''        auto x = Arr {xt::round(xt::exp(y))};
        for (auto i = 0U; i != 2; ++i)
        {
            if (x[i] < 1.)
            {
                x[i] = 1.; // nearest integer than 0
            }
        }
''')]),
    'more-frac-cross': ('P22', [(FR, '''        if (this->_denominator == rhs._denominator)
        {
            return this->_numerator == rhs._numerator;
        }

        return (this->_numerator * rhs._denominator) ==
            (this->_denominator * rhs._numerator);
''', '''        return this->_numerator == rhs._numerator &&
            this->_denominator == rhs._denominator;
'''), (FR, '''        if (this->_denominator == rhs._denominator)
        {
            return this->_numerator < rhs._numerator;
        }

        return (this->_numerator * rhs._denominator) <
            (this->_denominator * rhs._numerator);
''', '''        return this->cmp(rhs) < Z(0);
''')]),
    'more-frac-norm': ('P22', [(FR, '''        auto common = gcd(this->_numerator, this->_denominator);
        // if (common == Z(0)) [[unlikely]] return; // both num and den are zero
        if (this->_denominator < Z(0))
        {
            common = -common;
        }
        if (common == Z(1))
        {
            return;
        }
        this->_numerator /= common;
        this->_denominator /= common;
''', '''        const auto common = gcd(this->_numerator, this->_denominator);
        const auto sign = this->_denominator < Z(0) ? Z(-1) : Z(1);
        this->_numerator = sign * (this->_numerator / common);
        this->_denominator = sign * (this->_denominator / common);
'''), (FR, '''        const auto common = gcd(this->_numerator, i);
        if (common == Z(1))
        {
            this->_denominator *= i;
        }
        // else if (common == Z(0)) [[unlikely]] // both i and num are zero
        // {
        //     this->_denominator = Z(0);
        // }
        else
        {
            this->_denominator *= (i / common);
            this->_numerator /= common;
        }
        if (this->_denominator < Z(0)) // keep the denominator positive
        {
            this->_numerator = -this->_numerator;
            this->_denominator = -this->_denominator;
        }
        return *this;
''', '''        this->_denominator *= i;
        this->normalize();
        return *this;
''')]),
    'more-ell1d-sides': ('P06', [(E1, '''    const auto bound = this->_xc - beta / g;
    const auto u = g > 0. ? bound : this->_xc + this->_r;
    const auto l = g > 0. ? this->_xc - this->_r : bound;

    this->_r = algo::half_nonnegative(u - l);
    this->_xc = l + this->_r;
    return {CUTStatus::success, tsq};
''', '''    const auto bound = this->_xc - beta / g;
    auto l = this->_xc - this->_r;
    auto u = this->_xc + this->_r;
    (g > 0. ? u : l) = bound;

    this->_r = (u - l) / 2;
    this->_xc = (u + l) / 2;
    return {CUTStatus::success, tsq};
''')]),
    'more-lmi-range': ('P14 P26', [(LM, '''        auto a = this->_F0(i, j);
        for (auto k = 0U; k != n; ++k)
        {
            a -= this->_F[k](i, j) * x(k);
        }
        return a;
''', '''        auto a = 0.;
        auto k = size_t {0};
        while (k < n)
        {
            a += this->_F[k](i, j) * x(k);
            ++k;
        }
        return this->_F0(i, j) - a;
'''), (LM, '''    if (this->_Q.factor(getA))
    {
        return {};
    }
    auto ep = this->_Q.witness();
    auto g = zeros(x);
    for (auto i = 0U; i != n; ++i)
    {
        g(i) = this->_Q.sym_quad(this->_F[i]);
    }
    return {{std::move(g), ep}};
''', '''    const auto feasible = this->_Q.factor(getA);
    if (!feasible)
    {
        const auto ep = this->_Q.witness();
        auto g = zeros(x);
        auto i = 0U;
        for (const auto& Fi : this->_F)
        {
            g(i++) = this->_Q.sym_quad(Fi);
        }
        return std::make_optional(Cut {std::move(g), ep});
    }
    return std::nullopt;
''')]),
    'more-ell-gamma': ('P01 P02 P03 P04', [(EL, '''    this->_mu = (bdiff / gamma) * this->_halfNminus1;
    this->_rho = gamma / this->_nPlus1;
''', '''    const auto rho = gamma / this->_nPlus1;
    this->_rho = rho;
    this->_mu = this->_halfNminus1 * bdiff / gamma;
'''), (EL, '''    this->_sigma = 2. * this->_rho / (tau + beta);
    this->_delta = this->_c1 * (1. - beta * (beta / this->_tsq));
    return CUTStatus::success;
}
''', '''    this->_sigma = 2. * rho / (tau + beta);
    this->_delta = this->_c1 * (this->_tsq - beta * beta) / this->_tsq;
    return CUTStatus::success;
}
''')]),
    'more-ldlt-acc': ('P12 P13 P14', [(LX, '''        this->v(i - 1) = 0.;
        for (auto k = i; k != n; ++k)
        {
            this->v(i - 1) -= this->T(k, i - 1) * this->v(k);
        }
''', '''        auto acc = 0.;
        for (auto k = i; k < n; ++k)
        {
            acc += this->T(k, i - 1) * this->v(k);
        }
        this->v(i - 1) = -acc;
'''), (LX, '''        auto s = double {};
        for (auto j = i + 1; j != stop; ++j)
        {
            s += A(i, j) * v(j);
        }
        res += v(i) * (A(i, i) * v(i) + 2 * s);
''', '''        auto s = A(i, i) * v(i);
        for (auto j = i + 1; j < stop; ++j)
        {
            s += 2. * A(i, j) * v(j);
        }
        res += v(i) * s;
''')]),
    'more-py-swap': ('P25', [(PY, '''    stop = std::max(stop, start);
    // if (stop < start) {
    //     stop = start;
    // }
    return iterable_wrapper {start, stop};
''', '''    if (stop < start)
    {
        stop = start;
    }
    return iterable_wrapper {start, stop};
'''), (PY, '''            return this->stop == this->start;
''', '''            return !(this->start < this->stop);
'''), (PY, '''            return !(n < this->start) && n < this->stop;
''', '''            if (n < this->start)
            {
                return false;
            }
            return this->stop > n;
''')]),
}
BG = 'lib/include/py2cpp/nx2bgl.hpp'
CASES.update({
    'more-bgl': ('P28', [(BG, '''        auto s = boost::source(e, *this);
        auto t = boost::target(e, *this);
        return std::make_pair(s, t);
''', '''        return std::pair<Vertex, Vertex> {this->source(e), this->target(e)};
'''), (BG, '''        // auto [e_iter, e_end] = boost::edges(_G);
        // return e_iter;
        return boost::edges(this->G).first;
    }

    /*!
     * @brief
     *
     * @return auto
     */
    [[nodiscard]] auto end() const
    {
        // auto [e_iter, e_end] = boost::edges(_G);
        // return e_end;
        return boost::edges(this->G).second;
    }
''', '''        auto [e_iter, e_end] = boost::edges(this->G);
        return e_iter;
    }

    /*!
     * @brief
     *
     * @return auto
     */
    [[nodiscard]] auto end() const
    {
        const auto range = boost::edges(this->G);
        return std::get<1>(range);
    }
'''), (BG, '''        // auto [v_iter, v_end] = boost::vertices(*this);
        // return v_iter;
        return boost::vertices(*this).first;
    }

    /*!
     * @brief
     *
     * @return auto
     */
    [[nodiscard]] auto cend() const
''', '''        return this->begin();
    }

    /*!
     * @brief
     *
     * @return auto
     */
    [[nodiscard]] auto cend() const
'''), (BG, '''        return boost::num_vertices(*this);
''', '''        const Graph& graph = *this;
        return boost::num_vertices(graph);
''')]),
})
