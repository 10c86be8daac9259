prop = 'P25'
needs = 'a range that starts above zero and stops below its start'
breaks = 'a stop below a positive start is no longer raised to the start, so the range is not empty'
srcs = []
subs = [('lib/include/py2cpp/py2cpp.hpp', '    stop = std::max(stop, start);\n', '    stop = std::max(stop, T(0) < start ? T(0) : start);\n')]
demo = r'''
#include <py2cpp/py2cpp.hpp>
#include <cstdio>
int main()
{
    auto r = py::range(-2, 1), e = py::range(-2, -5), f = py::range(5, 2);
    if (r.size() != 3 || !e.empty()) return 1;
    if (!f.empty() || f.size() != 0) return std::printf("range(5, 2) is not empty\n"), 1;
}
'''
