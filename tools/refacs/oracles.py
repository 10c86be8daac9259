D = 'lib/src/ldlt_ext.cpp'
DH = 'lib/include/ellcpp/oracles/ldlt_ext.hpp'
S = 'lib/src/ell_stable.cpp'
LD = 'P12 P13 P14'
CASES = {
    'ldlt-witness-up': (LD, [(D, '''    for (auto i = m; i > start; --i)
    {
        this->v(i - 1) = 0.;
        for (auto k = i; k != n; ++k)
        {
            this->v(i - 1) -= this->T(k, i - 1) * this->v(k);
        }
    }
    return -this->T(m, m);
''', '''    auto i = m;
    while (i > start)
    {
        auto s = 0.;
        for (auto k = i; k < n; ++k)
        {
            s += this->T(k, i - 1) * this->v(k);
        }
        this->v(i - 1) = -s;
        --i;
    }
    return -this->T(m, m);
''')]),
    'ldlt-symquad': (LD, [(D, '''    for (auto i = start; i != stop; ++i)
    {
        auto s = double {};
        for (auto j = i + 1; j != stop; ++j)
        {
            s += A(i, j) * v(j);
        }
        res += v(i) * (A(i, i) * v(i) + 2 * s);
    }
''', '''    for (auto i = start; i != stop; ++i)
    {
        res += A(i, i) * v(i) * v(i);
        for (auto j = i + 1; j < stop; ++j)
        {
            res += 2. * v(i) * A(i, j) * v(j);
        }
    }
''')]),
    'ldlt-sqrt': ('P12 P13', [(D, '''        M(i, i) = std::sqrt(this->T(i, i));
        for (auto j = i + 1; j != this->n; ++j)
        {
            M(i, j) = this->T(j, i) * M(i, i);
        }
''', '''        const auto d = std::sqrt(this->T(i, i));
        M(i, i) = d;
        for (auto j = i + 1; j < this->n; ++j)
        {
            M(i, j) = d * this->T(j, i);
        }
''')]),
    'ldlt-factor-acc': (LD, [(DH, '''                d = getA(i, s);
                for (auto k = start; k != s; ++k)
                {
                    d -= this->T(i, k) * this->T(k, s);
                }
''', '''                auto acc = 0.;
                for (auto k = start; k != s; ++k)
                {
                    acc += this->T(i, k) * this->T(k, s);
                }
                d = getA(i, s) - acc;
''')]),
    'ldlt-factor-flow': (LD, [(DH, '''            if constexpr (Allow_semidefinite)
            {
                if (d < 0.)
                {
                    // this->stop = i + 1;
                    stop = i + 1;
                    break;
                }
                if (ELL_UNLIKELY(d == 0.))
                {
                    start = i + 1;
                    // restart at i + 1, special as an LMI oracle
                }
            }
            else // not Allow_semidefinite
            {
                if (d <= 0.)
                {
                    stop = i + 1;
                    break;
                }
            }
        }

        return this->is_spd();
''', '''            if (d > 0.)
            {
                continue;
            }
            if (Allow_semidefinite && d == 0.)
            {
                start = i + 1;
                continue;
            }
            stop = i + 1;
            return false;
        }

        return true;
''')]),
    'ldlt-factor-helper': (LD, [(DH, '''                auto s = j + 1;
                d = getA(i, s);
                for (auto k = start; k != s; ++k)
                {
                    d -= this->T(i, k) * this->T(k, s);
                }
''', '''                d = this->_reduced(getA, i, j + 1);
'''), (DH, '''    /*!
     * @brief Is $A$ symmetric positive definite (spd)
     *
     * @return true''', '''    template <typename Callable>
    auto _reduced(Callable& getA, size_t i, size_t s) const -> double
    {
        double d = getA(i, s);
        for (auto k = this->p.first; k != s; ++k)
        {
            d -= this->T(i, k) * this->T(k, s);
        }
        return d;
    }

    /*!
     * @brief Is $A$ symmetric positive definite (spd)
     *
     * @return true''')]),
    'ldlt-noref': (LD, [(DH, '''        this->p = {0U, 0U};
        auto& [start, stop] = this->p;
''', '''        this->p.first = 0U;
        this->p.second = 0U;
        auto& start = this->p.first;
        auto& stop = this->p.second;
''')]),
    'lmi-std': ('P14 P15 P26', [('lib/src/lmi_oracle.cpp', '''        auto a = this->_F0(i, j);
        for (auto k = 0U; k != n; ++k)
        {
            a -= this->_F[k](i, j) * x(k);
        }
        return a;
''', '''        auto s = 0.;
        for (auto k = 0U; k < n; ++k)
        {
            s += x(k) * this->_F[k](i, j);
        }
        return this->_F0(i, j) - s;
'''), ('lib/src/lmi_oracle.cpp', '''    if (this->_Q.factor(getA))
    {
        return {};
    }
    auto ep = this->_Q.witness();
    auto g = zeros(x);
''', '''    const auto spd = this->_Q.factor(getA);
    if (spd)
    {
        return std::nullopt;
    }
    const auto ep = this->_Q.witness();
    auto g = Arr {xt::zeros<double>({n})};
''')]),
    'lmi-matrix': ('P14 P26', [('lib/src/lmi_oracle.cpp', '''    auto getA = [&, this](size_t i, size_t j) -> double
    {
        auto a = this->_F0(i, j);
        for (auto k = 0U; k != n; ++k)
        {
            a -= this->_F[k](i, j) * x(k);
        }
        return a;
    };

    if (this->_Q.factor(getA))
''', '''    auto A = Arr {this->_F0};
    for (auto k = 0U; k != n; ++k)
    {
        A -= this->_F[k] * x(k);
    }

    if (this->_Q.factorize(A))
''')]),
    'lmi-old-lazy': ('P14 P15', [('lib/src/lmi_old_oracle.cpp', '''    auto A = Arr {this->_F0};
    for (auto k = 0U; k != n; ++k)
    {
        A -= this->_F[k] * x(k);
    }

    if (this->_Q.factorize(A))
''', '''    auto getA = [&, this](size_t i, size_t j) -> double
    {
        auto a = this->_F0(i, j);
        for (auto k = 0U; k != n; ++k)
        {
            a -= this->_F[k](i, j) * x(k);
        }
        return a;
    };
    if (this->_Q.factor(getA))
''')]),
    'lmi0-members': ('P14 P15 P26', [('lib/src/lmi0_oracle.cpp', '''    auto g = zeros(x);
    for (auto i = 0U; i != n; ++i)
    {
        g(i) = -_Q.sym_quad(this->_F[i]);
    }
    return {{std::move(g), ep}};
''', '''    auto g = zeros(x);
    auto i = 0U;
    for (const auto& Fi : this->_F)
    {
        if (i == n)
        {
            break;
        }
        g(i) -= this->_Q.sym_quad(Fi);
        ++i;
    }
    return std::make_optional(Cut {std::move(g), ep});
''')]),
    'qmi-eager': ('P14 P15 P26', [('lib/src/qmi_oracle.cpp', '''        g(k) = -2 * dot(dot(v, Fkp), Av)();
''', '''        const auto vF = Arr {dot(v, Fkp)};
        g(k) = -(2. * dot(vF, Av)());
'''), ('lib/src/qmi_oracle.cpp', '''        auto a = -dot(ROW(this->_Fx, i), ROW(this->_Fx, j))();
        if (i == j)
        {
            a += this->_t;
        }
        return a;
''', '''        const auto a = dot(ROW(this->_Fx, i), ROW(this->_Fx, j))();
        return i == j ? this->_t - a : -a;
''')]),
    'stable-local': ('P05', [(S, '''            this->_Q(i, j) = this->_Q(j, i) * invLg(j); 
            // keep for rank-one update
            invLg(i) -= this->_Q(i, j);
''', '''            const auto Lg = this->_Q(j, i) * invLg(j);
            // keep for rank-one update
            this->_Q(i, j) = Lg;
            invLg(i) -= Lg;
'''), (S, '''    auto gQg = Arr {invDinvLg}; // initially
    auto omega = 0.;              // initially
    for (auto i = 0; i != this->_n; ++i)
    {
        gQg(i) *= invLg(i);
        omega += gQg(i);
    }
''', '''    auto gQg = Arr {invLg * invDinvLg};
    auto omega = 0.;              // initially
    for (auto i = 0; i < this->_n; ++i)
    {
        omega += gQg(i);
    }
''')]),
    'stable-fuse': ('P05', [(S, '''    // calculate inv(D)*inv(L)*g: n
    auto invDinvLg = Arr {invLg}; // initially
    for (auto i = 0; i != this->_n; ++i)
    {
        invDinvLg(i) *= this->_Q(i, i);
    }

    // calculate omega: n
    auto gQg = Arr {invDinvLg}; // initially
    auto omega = 0.;              // initially
    for (auto i = 0; i != this->_n; ++i)
    {
        gQg(i) *= invLg(i);
        omega += gQg(i);
    }
''', '''    auto invDinvLg = Arr {invLg}; // initially
    auto gQg = Arr {invLg}; // initially
    auto omega = 0.;              // initially
    for (auto i = 0; i != this->_n; ++i)
    {
        invDinvLg(i) = invLg(i) * this->_Q(i, i);
        gQg(i) = invDinvLg(i) * invLg(i);
        omega += gQg(i);
    }
''')]),
    'stable-rank1': ('P05', [(S, '''        const auto beta2 = sigma * invDinvLg(j) / t;
        this->_Q(j, j) *= oldt / t; // update invD
        for (auto l = j + 1; l != this->_n; ++l)
        {
            // v(l) -= p * this->_Q(j, l);
            this->_Q(j, l) += beta2 * this->_Q(l, j);
        }
        oldt = t;
''', '''        const auto ratio = oldt / t;
        this->_Q(j, j) = ratio * this->_Q(j, j); // update invD
        for (auto l = this->_n - 1; l > j; --l)
        {
            this->_Q(j, l) += sigma / t * invDinvLg(j) * this->_Q(l, j);
        }
        oldt = t;
''')]),
    'stable-lastrow': ('P05', [(S, '''    const auto m = this->_n - 1;
    for (auto j = 0; j != m; ++j)
''', '''    const auto m = this->_n - 1;
    for (auto j = 0; j < this->_n - 1; ++j)
'''), (S, '''    const auto t = oldt + sigma * gQg(m);
    this->_Q(m, m) *= oldt / t; // update invD
''', '''    this->_Q(m, m) *= oldt / (oldt + sigma * gQg(m)); // update invD
''')]),
    'stable-back': ('P05', [(S, '''    for (auto i = this->_n - 1; i > 0; --i)
    { // backward subsituition
        for (auto j = i; j != this->_n; ++j)
        {
            Qg(i - 1) -= this->_Q(i, j) * Qg(j); // ???
        }
    }
''', '''    for (auto i = this->_n - 2; i >= 0; --i)
    { // backward subsituition
        for (auto j = i + 1; j != this->_n; ++j)
        {
            Qg(i) -= this->_Q(i + 1, j) * Qg(j); // ???
        }
    }
''')]),
    'lowpass-for': ('P16', [('lib/src/lowpass_oracle.cpp', '''    auto k = this->_i_Ap;
    for (auto i = 0U; i != N; ++i, ++k)
    {
        if (k == N)
        {
            k = 0; // round robin
        }
        auto v = dot(xt::view(this->_Ap, k, xt::all()), x)();
''', '''    auto k = this->_i_Ap;
    for (auto i = 0U; i < N; ++i, ++k)
    {
        k = k == N ? 0 : k; // round robin
        const auto row = xt::view(this->_Ap, k, xt::all());
        const auto v = dot(row, x)();
'''), ('lib/src/lowpass_oracle.cpp', '''        if (v < 0)
        {
            // f = v - Spsq;
            Arr g = -xt::view(this->_As, k, xt::all());
            Arr f {-v, -v + Spsq};
''', '''        if (v < 0)
        {
            Arr g = -1. * xt::view(this->_As, k, xt::all());
            Arr f {-v, Spsq - v};
''')]),
    'lowpass-max': ('P16', [('lib/src/lowpass_oracle.cpp', '''    Spsq = fmax;
    Arr f {0., fmax}; // ???
    // f = 0
    Arr g = xt::view(this->_As, imax, xt::all());
    return {{std::move(g), std::move(f)}, true};
''', '''    Arr g = xt::view(this->_As, imax, xt::all());
    Arr f {0., fmax};
    Spsq = fmax;
    auto cut = ParallelCut {std::move(g), std::move(f)};
    return {std::move(cut), true};
'''), ('lib/src/lowpass_oracle.cpp', '''        auto v = dot(xt::view(this->_Anr, k, xt::all()), x)();
        if (v < 0.)
        {
            Arr f {-v};
            Arr g = -xt::view(this->_Anr, k, xt::all());
            this->_i_Anr = k + 1;
            return {{std::move(g), std::move(f)}, false};
        }
''', '''        const auto v = dot(xt::view(this->_Anr, k, xt::all()), x)();
        if (!(v < 0.))
        {
            continue;
        }
        this->_i_Anr = k + 1;
        Arr f {-v};
        Arr g = -xt::view(this->_Anr, k, xt::all());
        return {{std::move(g), std::move(f)}, false};
''')]),
    'lowpass-while': ('P16', [('lib/src/lowpass_oracle.cpp', '''    k = this->_i_Anr;
    for (auto i = 0U; i != N; ++i, ++k)
    {
        if (k == N)
        {
            k = 0; // round robin
        }
        auto v = dot(xt::view(this->_Anr, k, xt::all()), x)();
''', '''    k = this->_i_Anr;
    for (auto i = 0U; i != N; ++i)
    {
        if (k == N)
        {
            k = 0; // round robin
        }
        const auto row = k++;
        auto v = dot(xt::view(this->_Anr, row, xt::all()), x)();
'''), ('lib/src/lowpass_oracle.cpp', '''            Arr g = -xt::view(this->_Anr, k, xt::all());
            this->_i_Anr = k + 1;
''', '''            Arr g = -xt::view(this->_Anr, row, xt::all());
            this->_i_Anr = k;
''')]),
    'profit-hoist': ('P17 P18', [('lib/src/profit_oracle.cpp', '''    auto fj = std::log(te) - log_Cobb;
    if (fj < 0.)
    {
        te = std::exp(log_Cobb);
        t = te - vx;
        auto g = Arr {(this->_v * x) / te - this->_a};
        return {{std::move(g), 0.}, true};
    }
    auto g = Arr {(this->_v * x) / te - this->_a};
    return {{std::move(g), fj}, false};
''', '''    auto fj = std::log(te) - log_Cobb;
    const auto shrunk = fj < 0.;
    if (shrunk)
    {
        te = std::exp(log_Cobb);
        t = te - vx;
        fj = 0.;
    }
    auto g = Arr {(this->_v * x) / te - this->_a};
    return {{std::move(g), fj}, shrunk};
''')]),
    'profit-round': ('P17 P18', [('lib/src/profit_oracle.cpp', '''        if (x[0] == 0.)
        {
            x[0] = 1.; // nearest integer than 0
        }
        if (x[1] == 0.)
        {
            x[1] = 1.;
        }
        this->_yd = xt::log(x);
''', '''        for (auto& xi : x)
        {
            if (xi == 0.)
            {
                xi = 1.; // nearest integer than 0
            }
        }
        this->_yd = xt::log(x);
''')]),
    'profit-round2': ('P17 P18', [('lib/src/profit_oracle.cpp', '''        if (x[0] == 0.)
        {
            x[0] = 1.; // nearest integer than 0
        }
        if (x[1] == 0.)
        {
            x[1] = 1.;
        }
''', '''        for (auto i = 0; i != 2; ++i)
        {
            x[i] = x[i] < 1. ? 1. : x[i];
        }
'''), ('lib/src/profit_oracle.cpp', '''    auto [cut, shrunk] = this->_P(this->_yd, t);
    auto& [g, h] = cut;
    h += xt::linalg::dot(g, this->_yd - y)();
    return {std::move(cut), this->_yd, shrunk, !retry};
''', '''    auto result = this->_P(this->_yd, t);
    auto& cut = std::get<0>(result);
    const auto shrunk = std::get<1>(result);
    const auto d = Arr {this->_yd - y};
    std::get<1>(cut) += xt::linalg::dot(std::get<0>(cut), d)();
    return {std::move(cut), this->_yd, shrunk, !retry};
''')]),
    'profit-rb': ('P17', [('lib/include/ellcpp/oracles/profit_oracle.hpp', '''        a_rb[0] += y[0] > 0. ? -this->_uie[0] : this->_uie[0];
        a_rb[1] += y[1] > 0. ? -this->_uie[1] : this->_uie[1];
''', '''        for (auto i : {0U, 1U})
        {
            if (y[i] > 0.)
            {
                a_rb[i] -= this->_uie[i];
            }
            else
            {
                a_rb[i] += this->_uie[i];
            }
        }
''')]),
    'csd-if': ('P23 P24', [('lib/src/csd.cpp', '''        switch (c)
        {
            case '0':
                num *= 2.;
                break;
            case '+':
                num *= 2.;
                num += 1.;
                break;
            case '-':
                num *= 2.;
                num -= 1.;
                break;
            case '.':
                loc = i + 1;
                break;
            default:
                break; // ignore
        }
        ++i;
''', '''        if (c == '.')
        {
            loc = i + 1;
        }
        else if (c == '0' || c == '+' || c == '-')
        {
            num = 2. * num + (c == '+' ? 1. : c == '-' ? -1. : 0.);
        }
        ++i;
''')]),
    'csd-index': ('P23 P24', [('lib/src/csd.cpp', '''    auto i = 0U;
    for (auto c : csd_str)
    {
        switch (c)''', '''    for (auto i = 0U; i != csd_str.size(); ++i)
    {
        const auto c = csd_str[i];
        switch (c)'''), ('lib/src/csd.cpp', '''                break; // ignore
        }
        ++i;
''', '''                break; // ignore
        }
''')]),
    'csd-for': ('P23 P24', [('lib/src/csd.cpp', '''    while (n > -places)
    {
        if (n == 0)
        {
            csd_str += '.';
        }
        n -= 1;
''', '''    for (; n > -places; --n)
    {
        if (n == 0)
        {
            csd_str.push_back('.');
        }
'''), ('lib/src/csd.cpp', '''    while (n > 0 || (nnz > 0 && num != 0.))
    {
        if (nnz == 0)
        {
            num = 0;
        }
''', '''    for (;;)
    {
        if (n <= 0 && (nnz == 0 || num == 0.))
        {
            break;
        }
        num = nnz == 0 ? 0. : num;
''')]),
    'csd-step': ('P23 P24', [('lib/src/csd.cpp', '''    auto absnum = fabs(num);
    auto n = absnum * 1.5 <= 1. ? 0 : int(ceil(log2(absnum * 1.5)));
    auto csd_str = string {n == 0 ? "0" : ""};
    auto limit = pow(2., n) / 3.;
    while (n > -places)
''', '''    const auto scaled = 1.5 * fabs(num);
    auto n = 0;
    if (scaled > 1.)
    {
        n = int(ceil(log2(scaled)));
    }
    string csd_str;
    if (n == 0)
    {
        csd_str = "0";
    }
    auto limit = pow(2., n) / 3.;
    while (n > -places)
''')]),
}
