// Bounded companion for P22: random rationals against exact wide arithmetic.
#include "h.hpp"
#include <py2cpp/fractions.hpp>
using namespace h;
using W = __int128;
using FR = fun::Fraction<long>;
static W wabs(W a) { return a < 0 ? -a : a; }
static W wgcd(W a, W b) { a = wabs(a); b = wabs(b); while (b) { W t = a % b; a = b; b = t; } return a; }
static std::string s(const FR& f) { return cat(f._numerator, "/", f._denominator); }
// f is N/D in lowest terms
static void is(const FR& f, W N, W D, const char* what)
{
    if (D < 0) { N = -N; D = -D; }
    W g = wgcd(N, D);
    if (g) { N /= g; D /= g; }
    check(W(f.numerator()) == N && W(f.denominator()) == D, what, ": ", s(f), ", expected ", (long)N, "/", (long)D);
}
static long num(Rng& r, long m)
{
    long v;
    switch (r.in(0, 3)) {
    case 0: v = r.in(-6, 6); break;
    case 1: v = 12 * long(r.in(-8, 8)); break;
    default: v = long(r.next() % uint64_t(2 * m + 1)) - m;
    }
    return v;
}
int main(int argc, char** argv)
{
    return run(argc, argv, [](const std::string&, Rng& r, long) {
        const long M = r.coin(.3) ? 20000 : 60;
        long an = num(r, M), ad = num(r, M), bn = num(r, M), bd = num(r, M), i = num(r, M);
        if (!ad) ad = -1;
        if (!bd) bd = -4;
        if (r.coin(.2)) { bd = ad; }
        if (r.coin(.1)) { bn = an; bd = ad; }
        if (r.coin(.2)) i = ad ? an / ad : 0;
        input("a=", an, "/", ad, " b=", bn, "/", bd, " i=", i);
        FR a(an, ad), b(bn, bd);
        is(a, an, ad, "construction"); is(FR(long(bn), long(bd)), bn, bd, "construction from temporaries");
        is(FR(i), i, 1, "construction from an integer"); is(FR(long(i)), i, 1, "construction from an integer");
        is(-a, -W(an), ad, "-a"); is(a.abs(), wabs(an), wabs(ad), "abs");
        is(a + b, W(an) * bd + W(bn) * ad, W(ad) * bd, "a + b"); is(a - b, W(an) * bd - W(bn) * ad, W(ad) * bd, "a - b");
        is(a * b, W(an) * bn, W(ad) * bd, "a * b");
        if (bn) is(a / b, W(an) * bd, W(ad) * bn, "a / b");
        is(a + i, W(an) + W(i) * ad, ad, "a + i"); is(a - i, W(an) - W(i) * ad, ad, "a - i"); is(a * i, W(an) * i, ad, "a * i");
        is(i + a, W(an) + W(i) * ad, ad, "i + a"); is(i - a, W(i) * ad - an, ad, "i - a"); is(i * a, W(an) * i, ad, "i * a");
        if (i) is(a / i, an, W(ad) * i, "a / i");
        is(2 + a, W(an) + 2 * W(ad), ad, "2 + a"); is(2 - a, 2 * W(ad) - an, ad, "2 - a"); is(2 * a, 2 * W(an), ad, "2 * a");
        // in place, and operands that are the object itself
        { FR m(a); m += b; is(m, W(an) * bd + W(bn) * ad, W(ad) * bd, "a += b"); is(b, bn, bd, "b after a += b"); }
        { FR m(a); m -= b; is(m, W(an) * bd - W(bn) * ad, W(ad) * bd, "a -= b"); }
        { FR m(a); m *= b; is(m, W(an) * bn, W(ad) * bd, "a *= b"); }
        if (bn) { FR m(a); m /= b; is(m, W(an) * bd, W(ad) * bn, "a /= b"); is(b, bn, bd, "b after a /= b"); }
        { FR m(a); m += i; is(m, W(an) + W(i) * ad, ad, "a += i"); }
        { FR m(a); m -= i; is(m, W(an) - W(i) * ad, ad, "a -= i"); }
        { FR m(a); m *= i; is(m, W(an) * i, ad, "a *= i"); }
        if (i) { FR m(a); m /= i; is(m, an, W(ad) * i, "a /= i"); }
        { FR m(a); m += m; is(m, 2 * W(an), ad, "a += a"); }
        { FR m(a); m -= m; is(m, 0, 1, "a -= a"); }
        { FR m(a); m *= m; is(m, W(an) * an, W(ad) * ad, "a *= a"); }
        { FR m(a); m *= m.numerator(); is(m, W(an) * a.numerator(), ad, "a *= numerator"); }
        { FR m(a); m *= m.denominator(); is(m, W(an) * a.denominator(), ad, "a *= denominator"); }
        { FR m(a); m /= m.denominator(); is(m, an, W(ad) * a.denominator(), "a /= denominator"); }
        if (an) {
            { FR m(a); m /= m; is(m, 1, 1, "a /= a"); }
            { FR m(a); m /= m.numerator(); is(m, an, W(ad) * a.numerator(), "a /= numerator"); }
            { FR m(a); m.reciprocal(); is(m, ad, an, "reciprocal"); }
        }
        { FR m(a); m.normalize(); is(m, an, ad, "normalize"); }
        // order
        W x = W(a.numerator()) * b.denominator(), y = W(b.numerator()) * a.denominator(), z = W(i) * a.denominator(), n = a.numerator();
        check((a == b) == (x == y) && (a != b) == (x != y) && (a < b) == (x < y) && (a > b) == (x > y) && (a <= b) == (x <= y) && (a >= b) == (x >= y), "order of two rationals");
        check((a == i) == (n == z) && (a != i) == (n != z) && (a < i) == (n < z) && (a > i) == (n > z) && (a <= i) == (n <= z) && (a >= i) == (n >= z), "order of a rational and an integer");
        check((i == a) == (z == n) && (i != a) == (z != n) && (i < a) == (z < n) && (i > a) == (z > n) && (i <= a) == (z <= n) && (i >= a) == (z >= n), "order of an integer and a rational");
        long c = a.cmp(b);
        check((c < 0) == (x < y) && (c == 0) == (x == y), "cmp");
        if (x < y) ++nontrivial();
        // gcd, lcm
        W g = wgcd(an, i), l = an && i ? wabs(W(an) * i) / g : 0;
        check(W(fun::gcd(an, i)) == g && W(fun::gcd<long long>(an, i)) == g && W(fun::gcd<int>(int(an), int(i))) == g, "gcd");
        check(W(fun::lcm(an, i)) == l && W(fun::lcm<long long>(an, i)) == l && W(fun::lcm<int>(int(an), int(i))) == l, "lcm");
        long k = 1L << r.in(0, 30);
        input(" k=", k);
        check(W(fun::gcd(an * k, i * k)) == g * k, "gcd of long numbers");
        check(W(fun::lcm(an * k, i)) == (an && i ? wabs(W(an) * k / wgcd(W(an) * k, i) * i) : 0), "lcm of long numbers");
        is(FR(an * k, ad), W(an) * k, ad, "construction from long numbers");
        is(FR(an * k, ad).abs(), wabs(W(an) * k), wabs(ad), "abs of long numbers");
    });
}
