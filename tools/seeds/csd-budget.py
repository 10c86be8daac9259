prop = 'P24'
needs = 'a number with negative digits behind the point and a budget that runs out there'
breaks = 'negative digits behind the point are not charged to the budget'
srcs = ['csd.cpp']
subs = [('lib/src/csd.cpp', '''            num += 1.5 * limit;
            nnz -= 1;
''', '''            num += 1.5 * limit;
            nnz -= n < 0 ? 0 : 1;
''')]
demo = r'''
#include <string>
#include <cstdio>
extern auto to_csdfixed(double num, unsigned int nnz) noexcept -> std::string;
int main()
{
    for (double x : {28.5, -0.5, 5., 21., -85.25, 0.8125, -3.40625})
        for (unsigned b = 0; b < 6; ++b) {
            auto s = to_csdfixed(x, b);
            unsigned k = 0;
            for (char c : s) k += c == '+' || c == '-';
            if (k > b) return std::printf("%g with budget %u gives %s\n", x, b, s.c_str()), 1;
        }
}
'''
