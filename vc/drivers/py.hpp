// What a user of the Python-style containers writes; the obligations are about these functions.
std::vector<int> d_range(int a, int b) { std::vector<int> out; for (auto x : py::range(a, b)) { out.push_back(x); } return out; }
std::vector<int> d_range1(int b) { std::vector<int> out; for (auto x : py::range(b)) { out.push_back(x); } return out; }
size_t d_size(int a, int b) { return py::range(a, b).size(); }
bool d_empty(int a, int b) { return py::range(a, b).empty(); }
int d_at(int a, int b, size_t n) { return py::range(a, b)[n]; }
bool d_in(int a, int b, int x) { return py::range(a, b).contains(x); }
bool d_itereq(int a, int b, int c, int d) { return py::range(a, b).begin() == py::range(c, d).begin(); }
bool d_iterend(int a, int b, int c, int d) { return py::range(a, b).end() != py::range(c, d).end(); }
std::vector<double> d_enum(std::vector<double>& v, std::vector<size_t>& pos)
{
    std::vector<double> out;
    for (auto&& e : py::enumerate(v)) { pos.push_back(std::get<0>(e)); out.push_back(std::get<1>(e)); }
    return out;
}
bool s_contains(const py::set<int>& s, int k) { return s.contains(k); }
bool s_lt(const py::set<int>& s, int k) { return k < s; }
size_t s_len(const py::set<int>& s) { return py::len(s); }
py::set<int> s_copy(const py::set<int>& s) { return s.copy(); }
bool s_copy_insert(const py::set<int>& s, int k, int x) { auto c = s.copy(); c.insert(k); return s.contains(x); }
bool s_empty(int x) { py::set<int> s; return s.contains(x); }
bool s_list(int a, int b, int x) { py::set<int> s {a, b}; return s.contains(x); }
size_t s_listlen(int a, int b) { py::set<int> s {a, b}; return py::len(s); }
py::set<int> s_range(std::vector<int>& v) { py::set<int> s(v.begin(), v.end()); return s; }
py::set<int> s_move(py::set<int>& s) { auto t = std::move(s); return t; }
bool d_contains(const py::dict<int, double>& d, int k) { return d.contains(k); }
bool d_lt(const py::dict<int, double>& d, int k) { return k < d; }
size_t d_len(const py::dict<int, double>& d) { return py::len(d); }
double d_get(py::dict<int, double>& d, int k, double x) { return d.get(k, x); }
void d_put(py::dict<int, double>& d, int k, double x) { d[k] = x; }
double d_sub(py::dict<int, double>& d, int k) { return d[k]; }
double d_csub(const py::dict<int, double>& d, int k) { return d[k]; }
py::dict<int, double> d_copy(const py::dict<int, double>& d) { return d.copy(); }
double d_copy_put(py::dict<int, double>& d, int k, double x, int y) { auto c = d.copy(); c[k] = x; return d.get(y, 7.); }
double d_put_copy(py::dict<int, double>& d, int k, double x, int y) { auto c = d.copy(); d[k] = x; return c.get(y, 7.); }
double d_list(int a, int b, double x, double y, int k) { py::dict<int, double> d {{a, x}, {b, y}}; return d.get(k, 7.); }
size_t d_listlen(int a, int b, double x, double y) { py::dict<int, double> d {{a, x}, {b, y}}; return py::len(d); }
bool d_fresh(int k) { py::dict<int, double> d; return d.contains(k); }
std::vector<int> d_keys(const py::dict<int, double>& d) { std::vector<int> out; for (auto k : d) { out.push_back(k); } return out; }
double d_items(py::dict<int, double>& d, int k) { return d.items().at(k); }
double d_citems(const py::dict<int, double>& d, int k) { return d.items().at(k); }
