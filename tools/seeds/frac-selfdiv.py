prop = 'P22'
needs = 'a rational divided by itself in place'
breaks = 'in-place division reads the divisor after the numerator has been overwritten'
subs = [('lib/include/py2cpp/fractions.hpp', '        return *this = *this / frac;\n', '        this->_numerator *= frac._denominator;\n        this->_denominator *= frac._numerator;\n        this->normalize();\n        return *this;\n')]
demo = r'''
#include <py2cpp/fractions.hpp>
#include <cstdio>
int main()
{
    using F = fun::Fraction<int>;
    F a(3, 4), b(-5, 2);
    a /= b;
    if (a != F(-3, 10)) return std::printf("quotient\n"), 1;
    b /= b;
    if (b != F(1, 1)) return std::printf("x /= x gives %d/%d\n", b.numerator(), b.denominator()), 1;
}
'''
