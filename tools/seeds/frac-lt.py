prop = 'P22'
needs = 'two negative rationals with the same numerator and different denominators'
breaks = 'a shortcut for equal numerators compares the denominators the wrong way round for negative numbers'
subs = [('lib/include/py2cpp/fractions.hpp', '            return this->_numerator < rhs._numerator;\n        }\n', '            return this->_numerator < rhs._numerator;\n        }\n        if (this->_numerator == rhs._numerator)\n        {\n            return rhs._denominator < this->_denominator;\n        }\n')]
demo = r'''
#include <py2cpp/fractions.hpp>
#include <cstdio>
int main()
{
    using F = fun::Fraction<int>;
    F a(-1, 3), b(-1, 2);
    if (a < b || !(b < a) || !(a > b) || a <= b) return std::printf("-1/3 < -1/2\n"), 1;
    F c(1, 3), d(1, 2);
    if (!(c < d) || d < c) return 1;
}
'''
