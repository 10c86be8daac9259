// Bounded companion for P23, P24: dyadic numbers (exact in double), places, budgets, digit strings.
#include "h.hpp"
#include <string_view>
using namespace h;
extern auto to_csd(double num, int places) noexcept -> std::string;
extern auto to_decimal(std::string_view csd_str) noexcept -> double;
extern auto to_csdfixed(double num, unsigned int nnz) noexcept -> std::string;
// value by position, independent of the code: weight 2^k for the k-th digit left of the point
static double value(const std::string& s)
{
    size_t pt = s.find('.');
    double whole = pt == std::string::npos ? double(s.size()) : double(pt), v = 0, k = whole;
    for (size_t i = 0; i < s.size(); ++i) {
        if (i == pt) continue;
        k -= 1;
        v += (s[i] == '+' ? 1 : s[i] == '-' ? -1 : 0) * std::pow(2., k);
    }
    return v;
}
static void shape(const std::string& s)
{
    int pts = 0;
    char last = '0';
    check(!s.empty(), "empty string");
    for (char c : s) {
        if (c == '.') { ++pts; continue; }
        check(c == '0' || c == '+' || c == '-', "strange character in ", s);
        check(c == '0' || last == '0', "adjacent non-zero digits in ", s);
        last = c;
    }
    check(pts <= 1, "several points in ", s);
}
static double number(Rng& r)
{
    if (r.coin(.05)) return 0;
    double x = double(1 + r.next() % (uint64_t(1) << r.in(1, 30)));
    return std::ldexp(r.coin() ? x : -x, -r.in(0, 30));
}
int main(int argc, char** argv)
{
    return run(argc, argv, [](const std::string& P, Rng& r, long) {
        if (P == "P24") {
            double x = number(r);
            unsigned b = r.coin(.1) ? 0 : unsigned(r.in(0, 12));
            input("x=", x, " budget=", b);
            std::string s = to_csdfixed(x, b);
            if (x == 0) { check(s == "0", "zero is written ", s); return; }
            shape(s);
            unsigned nz = 0;
            for (char c : s) nz += c == '+' || c == '-';
            check(nz <= b, nz, " non-zero digits in ", s);
            double e = x - value(s);
            if (nz < b) check(e == 0, s, " is not exact although the budget is not exhausted, error ", e);
            // the digits are those of the canonical expansion
            std::string t = to_csdfixed(x, 100);
            shape(t);
            check(value(t) == x, "unlimited expansion ", t);
            size_t p = s.find('.'), q = t.find('.');
            check((p == std::string::npos ? s.size() : p) == (q == std::string::npos ? t.size() : q), "whole part of ", s, " and ", t);
            unsigned k = 0;
            for (size_t i = 0; i < s.size(); ++i) {
                char c = i < t.size() ? t[i] : '0';
                if (c == '+' || c == '-') c = ++k <= b ? c : '0';
                check(s[i] == c || (s[i] == '.' && i >= t.size()), "digit ", int(i), " of ", s, " against the full expansion ", t);
            }
            if (nz == b && b > 0) ++nontrivial();
            return;
        }
        if (r.coin()) {
            double x = number(r);
            int p = r.in(0, 20);
            if (r.coin(.3)) x = std::ldexp(std::round(std::ldexp(x, p)), -p);
            input("x=", x, " places=", p);
            std::string s = to_csd(x, p);
            if (x == 0) { check(s == "0", "zero is written ", s); return; }
            shape(s);
            size_t pt = s.find('.');
            check((pt == std::string::npos ? 0 : int(s.size() - pt) - 1) == p && (pt != std::string::npos) == (p > 0), "digits after the point in ", s);
            double e = std::fabs(x - value(s)), u = std::ldexp(1., -p);
            check(e <= 2. / 3. * u * (1 + 1e-12), s, " is off by ", e / u, " of the last place");
            if (std::ldexp(x, p) == std::floor(std::ldexp(x, p))) { check(e == 0, s, " does not reproduce a multiple of the last place"); ++nontrivial(); }
            check(to_decimal(s) == value(s), "decoding ", s, " gives ", to_decimal(s));
            return;
        }
        std::string s;
        int n = r.in(0, 24), at = r.coin(.7) ? r.in(0, n) : -1;
        for (int i = 0; i <= n; ++i) {
            if (i == at) s += '.';
            if (i < n) s += "0+-"[r.in(0, 2)];
        }
        input("string=", s);
        check(to_decimal(s) == value(s), "decoding gives ", to_decimal(s), ", the positional value is ", value(s));
        ++nontrivial();
    });
}
