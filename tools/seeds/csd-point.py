prop = 'P23'
needs = 'a digit string that starts with the point'
breaks = 'the fractional scaling is skipped when the point is the first character'
srcs = ['csd.cpp']
subs = [('lib/src/csd.cpp', '    if (loc != 0)\n', '    if (loc > 1)\n')]
demo = r'''
#include <string_view>
#include <cstdio>
extern auto to_decimal(std::string_view csd_str) noexcept -> double;
int main()
{
    if (to_decimal("+0.-") != 1.5 || to_decimal("0.+0") != .5) return 1;
    if (to_decimal(".+0-") != .375) return std::printf(".+0- decodes to %g\n", to_decimal(".+0-")), 1;
}
'''
