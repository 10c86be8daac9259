prop = 'P25'
needs = 'a lookup with a default of a key that is missing, and a later look at the keys'
breaks = 'looking up a missing key with a default stores the default in the dictionary'
srcs = []
subs = [('lib/include/py2cpp/py2cpp.hpp', '''        if (!contains(key))
        {
            return default_value;
        }
        return (*this)[key];
''', '''        return this->try_emplace(key, default_value).first->second;
''')]
demo = r'''
#include <py2cpp/py2cpp.hpp>
#include <cstdio>
int main()
{
    py::dict<int, double> d {{1, 2.}};
    if (d.get(1, 5.) != 2. || d.get(3, 5.) != 5.) return 1;
    if (d.contains(3) || py::len(d) != 1) return std::printf("get stored the default\n"), 1;
}
'''
