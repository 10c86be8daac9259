// Bounded companion for P25: the containers against straightforward references.
#include "h.hpp"
#include <py2cpp/py2cpp.hpp>
using namespace h;
template <class T> static void range_case(long a, long b, Rng& r)
{
    std::vector<T> want, got;
    for (long i = a; i < b; ++i) want.push_back(T(i));
    auto R = py::range(T(a), T(b));
    for (auto x : R) { got.push_back(x); check(got.size() <= want.size(), "range(", a, ",", b, ") goes on beyond its stop"); }
    check(got == want, "range(", a, ",", b, ") enumerates ", got.size(), " values, or other ones");
    check(R.size() == want.size(), "range(", a, ",", b, ").size() = ", R.size());
    check(R.empty() == want.empty(), "range(", a, ",", b, ").empty() = ", R.empty());
    for (size_t i = 0; i < want.size(); ++i) check(R[i] == want[i], "range(", a, ",", b, ")[", i, "] = ", R[i]);
    for (long x = a - 3; x < b + 3; ++x) {
        if (std::is_unsigned<T>::value && x < 0) continue;
        check(R.contains(T(x)) == (x >= a && x < b), "range(", a, ",", b, ").contains(", x, ")");
    }
    check((R.begin() == R.end()) == want.empty() && (R.begin() != R.end()) == !want.empty(), "begin/end comparison");
    if (a == 0) {
        std::vector<T> one;
        for (auto x : py::range(T(b))) { one.push_back(x); check(one.size() <= want.size(), "range(", b, ") goes on beyond its stop"); }
        check(one == want, "range(", b, ")");
    }
    (void)r;
}
int main(int argc, char** argv)
{
    return run(argc, argv, [](const std::string&, Rng& r, long) {
        long a = r.coin(.3) ? 0 : r.in(-9, 9), b = a + r.in(-6, 12);
        input("range(", a, ",", b, ")");
        range_case<int>(a, b, r); range_case<long>(a, b, r);
        if (a >= 0 && b >= 0) { range_case<size_t>(a, b, r); range_case<unsigned>(a, b, r); }
        // enumerate
        std::vector<double> v(size_t(r.in(0, 6)));
        for (auto& x : v) x = r.in(-5, 5);
        const auto v0 = v;
        size_t n = 0;
        for (auto&& e : py::enumerate(v)) { check(n < v.size() && std::get<0>(e) == n && std::get<1>(e) == v0[n] && &std::get<1>(e) == &v[n], "enumerate, element ", n); ++n; }
        check(n == v.size() && v == v0, "enumerate: number of elements");
        n = 0;
        for (auto&& e : py::enumerate(v0)) { check(n < v.size() && std::get<0>(e) == n && std::get<1>(e) == v0[n], "enumerate, element ", n); ++n; }
        // sets and dictionaries along a random history
        std::vector<int> init;
        for (int i = r.in(0, 4); i > 0; --i) init.push_back(r.in(0, 9));
        std::set<int> rs(init.begin(), init.end());
        py::set<int> s(init.begin(), init.end());
        py::dict<int, double> d; std::map<int, double> rd;
        if (r.coin()) {
            int p = r.in(0, 3), q = r.in(0, 3);
            py::set<int> two {p, q}; std::set<int> rtwo {p, q};
            py::dict<int, double> dl {{p, 1.5}, {q, 2.5}}; std::map<int, double> rl {{p, 1.5}, {q, 2.5}};
            for (int k = -1; k < 5; ++k) {
                check(two.contains(k) == (rtwo.count(k) > 0), "set from a list: contains(", k, ")");
                check(dl.contains(k) == (rl.count(k) > 0), "dict from a list: contains(", k, ")");
                check(dl.get(k, 9.) == (rl.count(k) ? rl[k] : 9.), "dict from a list: get(", k, ")");
            }
            check(py::len(two) == rtwo.size() && py::len(dl) == rl.size(), "len of a container from a list");
        }
        auto same = [&](const py::set<int>& x, const std::set<int>& y, const char* w) {
            check(py::len(x) == y.size(), w, ": len ", py::len(x));
            for (int k = -1; k < 11; ++k) check(x.contains(k) == (y.count(k) > 0) && (k < x) == (y.count(k) > 0), w, ": key ", k);
        };
        auto samed = [&](const py::dict<int, double>& x, const std::map<int, double>& y, const char* w) {
            check(py::len(x) == y.size(), w, ": len ", py::len(x), ", expected ", y.size());
            std::set<int> keys;
            for (auto k : x) check(keys.insert(k).second, w, ": key ", k, " listed twice");
            check(keys.size() == y.size(), w, ": iteration lists ", keys.size(), " keys");
            for (int k = -1; k < 11; ++k) {
                check(x.contains(k) == (y.count(k) > 0) && (k < x) == (y.count(k) > 0) && keys.count(k) == y.count(k), w, ": key ", k);
                if (y.count(k)) check(x[k] == y.at(k) && x.items().at(k) == y.at(k), w, ": value at ", k);
            }
        };
        same(s, rs, "set");
        for (int t = r.in(0, 14); t > 0; --t) {
            int k = r.in(0, 9); double x = r.in(1, 9);
            switch (r.in(0, 7)) {
            case 0: s.insert(k); rs.insert(k); input("insert ", k); break;
            case 1: { auto c = s.copy(); same(c, rs, "copied set"); c.insert(k); same(s, rs, "set after its copy changed"); break; }
            case 2: d[k] = x; rd[k] = x; input("d[", k, "]=", x); break;
            case 3: { double y = d.get(k, -x); input("get ", k); check(y == (rd.count(k) ? rd[k] : -x), "get(", k, ", ", -x, ") = ", y); break; }
            case 4: { double y = d[k]; double z = rd[k]; input("d[", k, "]"); check(y == z, "d[", k, "] = ", y); break; }
            case 5: { auto c = d.copy(); samed(c, rd, "copied dict"); c[k] = 77; samed(d, rd, "dict after its copy changed"); break; }
            case 6: { auto c = d.copy(); auto rc = rd; d[k] = x + .5; rd[k] = x + .5; samed(c, rc, "copy after the dict changed"); break; }
            default: d.items()[k] = x; rd[k] = x; input("items()[", k, "]=", x);
            }
            same(s, rs, "set"); samed(d, rd, "dict");
        }
        auto m = std::move(s); same(m, rs, "moved set");
        auto md = std::move(d); samed(md, rd, "moved dict");
        if (rd.size() && b > a) ++nontrivial();
    });
}
