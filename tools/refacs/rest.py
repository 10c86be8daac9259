CP = 'lib/include/ellcpp/cutting_plane.hpp'
NC = 'lib/include/netoptim/neg_cycle.hpp'
PM = 'lib/include/netoptim/parametric.hpp'
MR = 'lib/include/netoptim/min_cycle_ratio.hpp'
NO = 'lib/include/ellcpp/oracles/network_oracle.hpp'
OS = 'lib/include/ellcpp/oracles/optscaling_oracle.hpp'
CR = 'lib/include/ellcpp/oracles/cycle_ratio_oracle.hpp'
FR = 'lib/include/py2cpp/fractions.hpp'
PY = 'lib/include/py2cpp/py2cpp.hpp'
LQ = 'lib/src/lsq_corr_ell.cpp'
G = 'P19 P20 P21'
CASES = {
    'cut-feas-for': ('P07 P11', [(CP, '''    auto feasible = false;
    auto status = CUTStatus::success;

    auto niter = 0U;
    while (++niter < options.max_it)
    {
        const auto cut = Omega(S.xc()); // query the oracle at S.xc()
        if (!cut)
        { // feasible sol'n obtained
            feasible = true;
            break;
        }
        const auto [cutstatus, tsq] = S.update(*cut); // update S
        if (cutstatus != CUTStatus::success)
        {
            status = cutstatus;
            break;
        }
        if (tsq < options.tol)
        { // no more
            status = CUTStatus::smallenough;
            break;
        }
    }
    return {feasible, niter, status};
''', '''    auto niter = 1U;
    for (; niter < options.max_it; ++niter)
    {
        const auto cut = Omega(S.xc()); // query the oracle at S.xc()
        if (!cut)
        { // feasible sol'n obtained
            return {true, niter, CUTStatus::success};
        }
        const auto [cutstatus, tsq] = S.update(*cut); // update S
        if (cutstatus != CUTStatus::success)
        {
            return {false, niter, cutstatus};
        }
        if (tsq < options.tol)
        { // no more
            return {false, niter, CUTStatus::smallenough};
        }
    }
    return {false, niter, CUTStatus::success};
''')]),
    'cut-feas-get': ('P07 P11', [(CP, '''        const auto [cutstatus, tsq] = S.update(*cut); // update S
        if (cutstatus != CUTStatus::success)
        {
            status = cutstatus;
            break;
        }
        if (tsq < options.tol)
        { // no more
            status = CUTStatus::smallenough;
            break;
        }
    }
    return {feasible, niter, status};
''', '''        const auto result = S.update(cut.value()); // update S
        status = std::get<0>(result);
        if (status == CUTStatus::success && std::get<1>(result) < options.tol)
        {
            status = CUTStatus::smallenough;
        }
        if (status != CUTStatus::success)
        {
            break;
        }
    }
    return CInfo {feasible, niter, status};
''')]),
    'cut-dc': ('P08', [(CP, '''        const auto [cut, shrunk] = Omega(S.xc(), t);
        if (shrunk)
        { // best t obtained
            x_best = S.xc();
        }
        const auto [cutstatus, tsq] = S.update(cut);
        if (cutstatus != CUTStatus::success) // ???
        {
            status = cutstatus;
            break;
        }
''', '''        const auto xc = S.xc();
        const auto [cut, shrunk] = Omega(xc, t);
        if (shrunk)
        { // best t obtained
            x_best = xc;
        }
        const auto [cutstatus, tsq] = S.update(cut);
        status = cutstatus;
        if (status != CUTStatus::success) // ???
        {
            break;
        }
'''), (CP, '''    return std::make_tuple(
        std::move(x_best), CInfo {t != t_orig, niter, status});
} // END

/*!
    Cutting-plane method for solving''', '''    const auto info = CInfo {t != t_orig, niter, status};
    return std::make_tuple(std::move(x_best), info);
} // END

/*!
    Cutting-plane method for solving''')]),
    'cut-q': ('P09', [(CP, '''        status = cutstatus;
        if (cutstatus == CUTStatus::noeffect)
        {
            if (!more_alt)
            {
                break; // no more alternative cut
            }
        }
        if (cutstatus == CUTStatus::nosoln)
        {
            break;
        }
''', '''        status = cutstatus;
        const auto exhausted = cutstatus == CUTStatus::noeffect && !more_alt;
        if (exhausted || cutstatus == CUTStatus::nosoln)
        {
            break; // no more alternative cut
        }
'''), (CP, '''        auto retry = (status == CUTStatus::noeffect);
        const auto [cut, x0, shrunk, more_alt] = Omega(S.xc(), t, retry);
''', '''        const auto [cut, x0, shrunk, more_alt] =
            Omega(S.xc(), t, status == CUTStatus::noeffect);
''')]),
    'cut-bsearch': ('P10', [(CP, '''        if (Omega(t))
        { // feasible sol'n obtained
            upper = t;
        }
        else
        {
            lower = t;
        }
''', '''        (Omega(t) ? upper : lower) = t;
'''), (CP, '''    for (; niter != options.max_it; ++niter)
    {
        auto tau = algo::half_nonnegative(upper - lower);
        if (tau < options.tol)
        {
            status = CUTStatus::smallenough;
            break;
        }

        auto t = lower; // l may be `int` or `Fraction`
        t += tau;
''', '''    while (niter != options.max_it)
    {
        const auto tau = algo::half_nonnegative(upper - lower);
        if (tau < options.tol)
        {
            status = CUTStatus::smallenough;
            break;
        }
        ++niter;

        auto t = lower; // l may be `int` or `Fraction`
        t += tau;
''')]),
    'cut-bsearch2': ('P10', [(CP, '''        if (Omega(t))
        { // feasible sol'n obtained
            upper = t;
        }
        else
        {
            lower = t;
        }
''', '''        const bool ok = Omega(t);
        auto& end = ok ? upper : lower;
        end = t;
''')]),
    'cut-adaptor': ('P11 P10', [(CP, '''        Space S = this->_S.copy();
        this->_P.update(t);
        const auto ell_info = cutting_plane_feas(this->_P, S, this->_options);
        if (ell_info.feasible)
        {
            this->_S.set_xc(S.xc());
        }
        return ell_info.feasible;
''', '''        this->_P.update(t);
        auto S = Space {this->_S.copy()};
        const auto found =
            cutting_plane_feas(this->_P, S, this->_options).feasible;
        if (!found)
        {
            return false;
        }
        this->_S.set_xc(S.xc());
        return true;
''')]),
    'neg-relax': (G, [(NC, '''            const auto vs = this->_G.end_points(e);
            const auto& u = vs.first;
            const auto& v = vs.second;
            const auto wt = get_weight(e);
            const auto d = dist[u] + wt;

            if (dist[v] > d)
            {
                this->_pred[v] = u;
                this->_edge[v] = e; // ???
                dist[v] = d;
                changed = true;
            }
''', '''            const auto [u, v] = this->_G.end_points(e);
            const auto d = dist[u] + get_weight(e);
            if (!(d < dist[v]))
            {
                continue;
            }
            dist[v] = d;
            this->_edge[v] = e; // ???
            this->_pred[v] = u;
            changed = true;
''')]),
    'neg-cycle-list': (G, [(NC, '''        auto v = handle;
        auto cycle = std::vector<edge_t> {}; // ???
        do
        {
            const auto& u = this->_pred[v];
            cycle.push_back(this->_edge[v]); // ???
            v = u;
        } while (v != handle);
        return cycle;
''', '''        auto cycle = std::vector<edge_t> {}; // ???
        auto v = handle;
        while (true)
        {
            cycle.push_back(this->_edge[v]); // ???
            v = this->_pred[v];
            if (v == handle)
            {
                return cycle;
            }
        }
''')]),
    'neg-find': (G, [(NC, '''        while (this->_relax(dist, get_weight))
        {
            const auto v = this->_find_cycle();
            if (v != this->_G.null_vertex())
            {
                assert(this->_is_negative(v, dist, get_weight));
                return this->_cycle_list(v);
            }
        }
        return std::vector<edge_t> {}; // ???
''', '''        for (;;)
        {
            if (!this->_relax(dist, get_weight))
            {
                return std::vector<edge_t> {}; // ???
            }
            const auto v = this->_find_cycle();
            if (v == this->_G.null_vertex())
            {
                continue;
            }
            assert(this->_is_negative(v, dist, get_weight));
            return this->_cycle_list(v);
        }
''')]),
    'neg-walk': (G, [(NC, '''            auto u = v;
            while (true)
            {
                visited[u] = v;
                if (!this->_pred.contains(u))
                {
                    break;
                }
                u = this->_pred[u];
                if (visited.contains(u))
                {
                    if (visited[u] == v)
                    {
                        // if (this->_is_negative(u)) {
                        // should be "yield u";
                        return u;
                        // }
                    }
                    break;
                }
            }
''', '''            auto u = v;
            visited[u] = v;
            while (this->_pred.contains(u))
            {
                u = this->_pred[u];
                if (visited.contains(u))
                {
                    if (visited[u] != v)
                    {
                        break;
                    }
                    return u;
                }
                visited[u] = v;
            }
''')]),
    'par-while': ('P20 P21', [(PM, '''    auto niter = 0U;
    for (; niter != max_iter; ++niter)
    {
        const auto& C_min =
            S.find_neg_cycle(std::forward<Container>(dist), get_weight);
        if (C_min.empty())
        {
            break;
        }

        const auto& r_min = zero_cancel(C_min);
        if (r_min >= r_opt)
        {
            break;
        }

        C_opt = C_min;
        r_opt = r_min;

        // update ???
        for (auto&& edge : C_opt)
''', '''    for (auto niter = 0U; niter < max_iter; ++niter)
    {
        const auto C_min = S.find_neg_cycle(dist, get_weight);
        if (C_min.empty())
        {
            return C_opt;
        }

        const auto r_min = zero_cancel(C_min);
        if (!(r_min < r_opt))
        {
            break;
        }

        r_opt = r_min;
        C_opt = C_min;

        // update ???
        for (const auto& edge : C_min)
''')]),
    'ratio-sums': ('P20', [(MR, '''        auto total_cost = cost_T(0);
        auto total_time = time_T(0);
        for (auto&& e : C)
        {
            total_cost += get_cost(e);
            total_time += get_time(e);
        }
        return T(total_cost) / total_time;
''', '''        cost_T total_cost {0};
        time_T total_time {0};
        for (auto it = C.begin(); it != C.end(); ++it)
        {
            total_cost = total_cost + get_cost(*it);
            total_time = total_time + get_time(*it);
        }
        return T(total_cost) / total_time;
''')]),
    'net-oracle': ('P21', [(NO, '''        auto C = this->_S.find_neg_cycle(this->_u, get_weight);
        if (C.empty())
        {
            return {};
        }

        auto g = zeros(x);
        auto f = 0.;
        for (auto&& e : C)
        {
            f -= this->_h.eval(e, x);
            g -= this->_h.grad(e, x);
        }
        return {{std::move(g), f}};
''', '''        const auto C = this->_S.find_neg_cycle(this->_u, get_weight);
        if (C.size() == 0)
        {
            return std::nullopt;
        }

        auto f = 0.;
        auto g = zeros(x);
        for (const auto& e : C)
        {
            g -= this->_h.grad(e, x);
            f -= get_weight(e);
        }
        return {{std::move(g), f}};
''')]),
    'net-scaling': ('P21', [(OS, '''        auto s = x(0) - x(1);
        auto fj = s - t;
        if (fj < 0)
        {
            t = s;
            return {{Arr {1., -1.}, 0.}, true};
        }
        return {{Arr {1., -1.}, fj}, false};
''', '''        const auto s = x(0) - x(1);
        auto g = Arr {1., -1.};
        if (s >= t)
        {
            return {{std::move(g), s - t}, false};
        }
        t = s;
        return {{std::move(g), 0.}, true};
'''), (OS, '''            return (u < v) ? x(0) - cost : cost - x(1);
''', '''            if (u < v)
            {
                return x(0) - cost;
            }
            return cost - x(1);
''')]),
    'net-ratio': ('P21', [(CR, '''        auto fj = t - x;
        if (fj >= 0)
        {
            return {{-1., fj}, false};
        }
        const auto cut = this->_network(x);
        if (cut)
        {
            return {*cut, false};
        }
        t = x;
        return {{-1., 0.}, true};
''', '''        if (x <= t)
        {
            return {{-1., t - x}, false};
        }
        if (const auto cut = this->_network(x); cut)
        {
            return {*cut, false};
        }
        t = x;
        return {Cut {-1., 0.}, true};
'''), (CR, '''            return this->_get_cost(e) - this->_get_time(e) * x;
''', '''            const auto time = this->_get_time(e);
            return this->_get_cost(e) - x * time;
''')]),
    'frac-loop': ('P22', [(FR, '''    return _m == 0 ? abs(_n) : _n == 0 ? abs(_m) : gcd(_n, _m % _n);
''', '''    if (_n == 0)
    {
        return abs(_m);
    }
    return _m == 0 ? abs(_n) : gcd(_n, _m % _n);
''')]),
    'frac-while': ('P22', [(FR, '''    return _m == 0 ? abs(_n) : _n == 0 ? abs(_m) : gcd(_n, _m % _n);
''', '''    while (_n != 0)
    {
        const Mn r = _m % _n;
        _m = _n;
        _n = r;
    }
    return abs(_m);
''')]),
    'frac-ops': ('P22', [(FR, '''        auto d = _denominator * frac._denominator;
        auto n =
            frac._denominator * _numerator + _denominator * frac._numerator;
        return Fraction(n, d);
''', '''        return Fraction(
            _numerator * frac._denominator + frac._numerator * _denominator,
            _denominator * frac._denominator);
'''), (FR, '''        frac.reciprocal();
        return *this * frac;
''', '''        return Fraction(_numerator * frac._denominator,
            _denominator * frac._numerator);
'''), (FR, '''        auto res = Fraction(*this);
        res._numerator = -res._numerator;
        return res;
''', '''        return Fraction(-_numerator, _denominator);
''')]),
    'frac-inc': ('P22', [(FR, '''        const auto common = gcd(i, this->_denominator);
        if (common == Z(1))
        {
            this->_numerator *= i;
        }
        // else if (common == Z(0)) [[unlikely]] // both i and den are zero
        // {
        //     this->_numerator = Z(0);
        // }
        else
        {
            this->_numerator *= (i / common);
            this->_denominator /= common;
        }
        return *this;
''', '''        this->_numerator *= i;
        this->normalize();
        return *this;
'''), (FR, '''        if (common == Z(1))
        {
            return;
        }
        this->_numerator /= common;
        this->_denominator /= common;
    }
''', '''        if (common != Z(1))
        {
            this->_numerator /= common;
            this->_denominator /= common;
        }
    }
''')]),
    'py-contains': ('P25', [(PY, '''        if (!contains(key))
        {
            return default_value;
        }
        return (*this)[key];
''', '''        const auto it = this->find(key);
        if (it == Base::end())
        {
            return default_value;
        }
        return it->second;
'''), (PY, '''            return !(n < this->start) && n < this->stop;
''', '''            return this->start <= n && n < this->stop;
''')]),
    'py-count': ('P25', [(PY, '''    stop = std::max(stop, start);
''', '''    if (stop < start)
    {
        stop = start;
    }
''')]),
    'corr-views': ('P26 P27', [(LQ, '''            const auto& [start, stop] = Q.p;
            const auto v = xt::view(Q.v, xt::range(start, stop));
            xt::view(g, xt::range(0, n - 1)) = g1;
            g(n - 1) = -xt::linalg::dot(v, v)();
''', '''            auto s = 0.;
            for (auto i = Q.p.first; i != Q.p.second; ++i)
            {
                s += Q.v(i) * Q.v(i);
            }
            xt::view(g, xt::range(0, n - 1)) = g1;
            g(n - 1) = -s;
''')]),
    'corr-mle': ('P26 P27', [(LQ, '''            g(i) = xt::linalg::trace(SFsi)();
            for (auto k = 0U; k != m; ++k)
            {
                g(i) -= dot(
                    xt::view(SFsi, k, xt::all()), xt::view(SY, xt::all(), k))();
            }
''', '''            auto gi = xt::linalg::trace(SFsi)();
            for (auto k = 0U; k < m; ++k)
            {
                gi -= dot(
                    xt::view(SFsi, k, xt::all()), xt::view(SY, xt::all(), k))();
            }
            g(i) = gi;
'''), (LQ, '''        auto f = f1 - t;
        auto shrunk = false;

        if (f < 0)
        {
            t = f1;
            f = 0.;
            shrunk = true;
        }
''', '''        const auto shrunk = f1 < t;
        const auto f = shrunk ? 0. : f1 - t;
        if (shrunk)
        {
            t = f1;
        }
''')]),
    'corr-dist': ('P26 P27', [(LQ, '''    for (auto i = 0U; i != n; ++i)
    {
        for (auto j = i + 1; j != n; ++j)
        {
            auto h = xt::view(s, j, xt::all()) - xt::view(s, i, xt::all());
            auto d = std::sqrt(xt::linalg::dot(h, h)());
            D1(i, j) = d;
            D1(j, i) = d;
        }
    }
''', '''    for (auto i = 0U; i != n; ++i)
    {
        for (auto j = 0U; j != i; ++j)
        {
            const auto h = xt::view(s, i, xt::all()) - xt::view(s, j, xt::all());
            D1(i, j) = std::sqrt(xt::linalg::dot(h, h)());
            D1(j, i) = D1(i, j);
        }
    }
'''), (LQ, '''    auto D = Arr {xt::ones<double>({n, n})};
    auto Sig = std::vector<Arr> {D};
    Sig.reserve(m);

    for (auto i = 0U; i != m - 1; ++i)
    {
        D *= D1;
        Sig.push_back(D);
    }
''', '''    auto D = Arr {xt::ones<double>({n, n})};
    auto Sig = std::vector<Arr> {};
    Sig.push_back(D);
    for (auto i = 1U; i < m; ++i)
    {
        D = D * D1;
        Sig.push_back(D);
    }
''')]),
    'corr-lsq-order': ('P26 P27', [(LQ, '''        g(n - 1) = 1.;

        const auto f0 = x(n - 1) - t;
        if (f0 > 0)
        {
            return {{std::move(g), f0}, false};
        }

        t = x(n - 1);
        return {{std::move(g), 0.}, true};
''', '''        const auto last = n - 1;
        g(last) = 1.;
        if (x(last) > t)
        {
            return {{std::move(g), x(last) - t}, false};
        }
        t = x(last);
        return {{std::move(g), 0.}, true};
''')]),
}
