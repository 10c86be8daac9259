// every public operation on rationals, as a user writes it
using Z = long;
using FR = fun::Fraction<Z>;
FR u_make(const Z& n, const Z& d) { return FR(n, d); }
FR u_make_rv(const Z& n, const Z& d) { return FR(Z(n), Z(d)); }
FR u_int(const Z& n) { return FR(n); }
FR u_int_rv(const Z& n) { return FR(Z(n)); }
Z u_num(const FR& a) { return a.numerator(); }
Z u_den(const FR& a) { return a.denominator(); }
FR u_neg(const FR& a) { return -a; }
FR u_abs(const FR& a) { return a.abs(); }
FR u_add(const FR& a, const FR& b) { return a + b; }
FR u_sub(const FR& a, const FR& b) { return a - b; }
FR u_mul(const FR& a, const FR& b) { return a * b; }
FR u_div(const FR& a, const FR& b) { return a / b; }
FR u_addi(const FR& a, const Z& i) { return a + i; }
FR u_subi(const FR& a, const Z& i) { return a - i; }
FR u_muli(const FR& a, const Z& i) { return a * i; }
FR u_divi(const FR& a, const Z& i) { return a / i; }
FR u_iadd(const FR& a, const Z& i) { return i + a; }
FR u_isub(const FR& a, const Z& i) { return i - a; }
FR u_imul(const FR& a, const Z& i) { return i * a; }
FR u_ladd(const FR& a) { return 2 + a; }
FR u_lsub(const FR& a) { return 2 - a; }
FR u_lmul(const FR& a) { return 2 * a; }
void u_asgadd(FR& m, const FR& b) { m += b; }
void u_asgsub(FR& m, const FR& b) { m -= b; }
void u_asgmul(FR& m, const FR& b) { m *= b; }
void u_asgdiv(FR& m, const FR& b) { m /= b; }
void u_asgaddi(FR& m, const Z& i) { m += i; }
void u_asgsubi(FR& m, const Z& i) { m -= i; }
void u_asgmuli(FR& m, const Z& i) { m *= i; }
void u_asgdivi(FR& m, const Z& i) { m /= i; }
void u_selfadd(FR& m) { m += m; }
void u_selfsub(FR& m) { m -= m; }
void u_selfmul(FR& m) { m *= m; }
void u_selfdiv(FR& m) { m /= m; }
void u_selfmuln(FR& m) { m *= m.numerator(); }
void u_selfmuld(FR& m) { m *= m.denominator(); }
void u_selfdivn(FR& m) { m /= m.numerator(); }
void u_selfdivd(FR& m) { m /= m.denominator(); }
void u_recip(FR& m) { m.reciprocal(); }
void u_norm(FR& m) { m.normalize(); }
bool c_eq(const FR& a, const FR& b) { return a == b; }
bool c_ne(const FR& a, const FR& b) { return a != b; }
bool c_lt(const FR& a, const FR& b) { return a < b; }
bool c_gt(const FR& a, const FR& b) { return a > b; }
bool c_le(const FR& a, const FR& b) { return a <= b; }
bool c_ge(const FR& a, const FR& b) { return a >= b; }
bool ci_eq(const FR& a, const Z& i) { return a == i; }
bool ci_ne(const FR& a, const Z& i) { return a != i; }
bool ci_lt(const FR& a, const Z& i) { return a < i; }
bool ci_gt(const FR& a, const Z& i) { return a > i; }
bool ci_le(const FR& a, const Z& i) { return a <= i; }
bool ci_ge(const FR& a, const Z& i) { return a >= i; }
bool ic_eq(const FR& a, const Z& i) { return i == a; }
bool ic_ne(const FR& a, const Z& i) { return i != a; }
bool ic_lt(const FR& a, const Z& i) { return i < a; }
bool ic_gt(const FR& a, const Z& i) { return i > a; }
bool ic_le(const FR& a, const Z& i) { return i <= a; }
bool ic_ge(const FR& a, const Z& i) { return i >= a; }
Z v_cmp(const FR& a, const FR& b) { return a.cmp(b); }
Z v_gcd(const Z& a, const Z& b) { return fun::gcd(a, b); }
Z v_lcm(const Z& a, const Z& b) { return fun::lcm(a, b); }
int v_gcd_int(const int& a, const int& b) { return fun::gcd(a, b); }
int v_lcm_int(const int& a, const int& b) { return fun::lcm(a, b); }
long long v_gcd_ll(const long long& a, const long long& b) { return fun::gcd(a, b); }
long long v_lcm_ll(const long long& a, const long long& b) { return fun::lcm(a, b); }
