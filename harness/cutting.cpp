// Bounded companion for P07-P11: scripted oracles and spaces, every call recorded.
#include "h.hpp"
#include <ellcpp/cut_config.hpp>
#include <ellcpp/cutting_plane.hpp>
#include <memory>
#include <optional>
using namespace h;
struct X { long id = -7; bool operator==(const X& o) const { return id == o.id; } };
struct Cut { long id; };
struct Log {
    Rng r;
    unsigned limit;
    double tol;
    long queries = 0, pending = -1, nextcut = 1, space = 1, nextspace = 2, last = -1, bestid = -7;
    double tsq = 0, t = 0, cand = 0;
    bool accepted = false, shrunk = false, alt = false, par = false;
    double pacc, pshr, pfail, palt, psmall;
    bool q = false;
    explicit Log(Rng& s) : r(s.next()), limit(unsigned(s.in(0, 12))), tol(s.coin() ? 0.5 : 1e-3),
        pacc(s.pick(std::vector<double> {0, .1, .5})), pshr(s.u()), pfail(s.pick(std::vector<double> {0, .1, .4})), palt(s.u()), psmall(s.pick(std::vector<double> {0, .1})) { }
};
struct Space {
    Log* L;
    long s = 1, moved = 0;
    bool orig = true;
    X xc() const { return X {moved ? moved : 1000 + s}; }
    void set_xc(const X& x) { moved = x.id; }
    Space copy() const { Space c = *this; c.orig = false; return c; }
    std::tuple<CUTStatus, double> update(const Cut& c)
    {
        check(c.id == L->pending, "a cut is applied that the oracle did not just return");
        check(s == L->space, "the cut is applied to another space");
        L->pending = -1;
        double u = L->r.u();
        CUTStatus st = u < L->pfail / 2 ? CUTStatus::nosoln : u < L->pfail ? CUTStatus::noeffect : CUTStatus::success;
        L->last = long(st);
        L->tsq = L->r.coin(L->psmall) ? L->tol / 2 : L->r.coin(.1) ? L->tol : L->tol * L->r.u(1, 3);
        if (st == CUTStatus::success) { s = L->nextspace++; moved = 0; }
        L->space = s;
        return {st, L->tsq};
    }
};
static void query(Log& L, const X& x, long centre)
{
    check(x.id == centre, "a query away from the current centre");
    check(L.pending < 0, "a query while a returned cut is not applied");
    check(!L.accepted, "a query after an acceptance");
    check(L.last < 0 || L.last == long(CUTStatus::success) || (L.q && L.last == long(CUTStatus::noeffect) && L.alt), "a query after the search should have stopped");
    check(L.last < 0 || !(L.tsq < L.tol), "a query although the size is below the tolerance");
    check(L.queries < long(L.limit), "more queries than the limit");
    ++L.queries;
}
struct Feas {
    Log* L;
    void update(double t) { check(L->queries == 0, "the candidate is set during the search"); L->par = true; L->cand = t; }
    std::optional<Cut> operator()(const X& x)
    {
        query(*L, x, 1000 + L->space);
        if (L->r.coin(L->pacc)) { L->accepted = true; return {}; }
        return Cut {L->pending = L->nextcut++};
    }
};
struct Opt {
    Log* L;
    std::tuple<Cut, bool> operator()(const X& x, double& t)
    {
        query(*L, x, 1000 + L->space);
        check(t == L->t, "a query with another value than the best one");
        bool b = L->r.coin(L->pshr);
        if (b) { t = L->t = L->r.coin(.1) ? t : t - L->r.u(); L->bestid = x.id; L->shrunk = true; }
        return {Cut {L->pending = L->nextcut++}, b};
    }
};
struct Q {
    Log* L;
    std::tuple<Cut, X, bool, bool> operator()(const X& x, double& t, bool retry)
    {
        query(*L, x, 1000 + L->space);
        check(t == L->t, "a query with another value than the best one");
        check(retry == (L->last == long(CUTStatus::noeffect)), "alternative cut asked for: ", retry, ", last status ", L->last);
        bool b = L->r.coin(L->pshr);
        X x0 {50000 + L->queries};
        if (b) { t = L->t = t - L->r.u(); L->bestid = x0.id; L->shrunk = true; }
        L->alt = L->r.coin(L->palt);
        return {Cut {L->pending = L->nextcut++}, x0, b, L->alt};
    }
};
static void finish(Log& L, const CInfo& i, bool dead, const Space& S)
{
    const bool small = L.last >= 0 && L.tsq < L.tol && !dead;
    const bool stop = L.accepted || dead || small;
    check(L.pending < 0, "a cut is left unapplied");
    check(S.s == L.space, "the space handed back is another one");
    check(stop || L.queries + 1 >= long(L.limit), "stopped without a reason");
    check(long(i.num_iters) == L.queries + (stop ? 0 : 1), "reported ", i.num_iters, " iterations after ", L.queries, " queries");
    if (dead) check(long(i.status) == L.last, "status ", int(i.status), " but the space answered ", L.last);
    else if (small && !L.accepted) check(i.status == CUTStatus::smallenough, "status ", int(i.status), " instead of small enough");
    else if (L.q && L.last >= 0) check(long(i.status) == L.last, "status ", int(i.status), " but the last update answered ", L.last);
    else if (!L.q) check(i.status == CUTStatus::success, "status ", int(i.status), " instead of success");
}
template <class T> static void bs(Rng& r)
{
    T lo = T(r.in(-50, 50)), up = lo + T(r.in(0, 64));
    if (!std::is_integral<T>::value) { lo /= 4; up /= 4; if (up < lo) std::swap(lo, up); }
    double th = double(lo) + r.u(-.2, 1.2) * double(up - lo);
    Options o;
    o.max_it = unsigned(r.in(0, 12));
    o.tol = r.pick(std::vector<double> {1e-8, 0.3, 1, 2});
    input("bracket [", lo, ",", up, "] threshold ", th, " limit ", o.max_it, " tolerance ", o.tol);
    T a = lo, b = up;
    long q = 0;
    auto half = [&]() { return std::is_integral<T>::value ? double((long long)(b - a) / 2) : double(b - a) / 2; };
    auto pred = [&](const T& t) {
        check(q < long(o.max_it), "more queries than the limit");
        check(a <= t && t <= b, "query ", t, " outside [", a, ",", b, "]");
        check(std::fabs(double(t - a) - double(b - t)) <= (std::is_integral<T>::value ? 1 : 1e-12), "query ", t, " does not halve [", a, ",", b, "]");
        check(!(half() < o.tol), "query although half the bracket is below the tolerance");
        ++q;
        bool yes = double(t) >= th;
        (yes ? b : a) = t;
        return yes;
    };
    auto I = std::make_pair(lo, up);
    CInfo i = bsearch(pred, I, o);
    check(I.first == a && I.second == b, "bracket [", I.first, ",", I.second, "], the answers give [", a, ",", b, "]");
    check(i.feasible == (I.second != up), "feasible = ", i.feasible);
    check(long(i.num_iters) == q + 1, "reported ", i.num_iters, " after ", q, " queries");
    if (i.status == CUTStatus::smallenough) check(half() < o.tol, "small enough, but half the bracket is ", half());
    else check(i.status == CUTStatus::success && q == long(o.max_it), "status ", int(i.status));
    if (q > 2) ++nontrivial();
}
int main(int argc, char** argv)
{
    return run(argc, argv, [](const std::string& prop, Rng& r, long) {
        if (prop == "P10") { if (r.coin()) bs<double>(r); else bs<long>(r); return; }
        Log L(r);
        Options o;
        o.max_it = L.limit;
        o.tol = L.tol;
        Space S {&L};
        input("limit ", L.limit, " tolerance ", L.tol, " p(accept)=", L.pacc, " p(improve)=", L.pshr, " p(no success)=", L.pfail, " p(alternative)=", L.palt, " p(small)=", L.psmall);
        if (prop == "P07") {
            Feas F {&L};
            CInfo i = cutting_plane_feas(F, S, o);
            check(i.feasible == L.accepted, "feasible = ", i.feasible);
            if (L.accepted) check(S.xc().id == 1000 + L.space, "centre moved after the acceptance");
            finish(L, i, !L.accepted && L.last >= 0 && L.last != long(CUTStatus::success), S);
        } else if (prop == "P08" || prop == "P09") {
            double t0 = L.t = r.in(-3, 3), t = t0;
            X x;
            CInfo i {};
            if (prop == "P08") { Opt F {&L}; std::tie(x, i) = cutting_plane_dc(F, S, t, o); }
            else { Q F {&L}; L.q = true; std::tie(x, i) = cutting_plane_q(F, S, t, o); }
            check(t == L.t, "best value ", t, ", the oracle reported ", L.t);
            if (L.shrunk) check(x.id == L.bestid, "point ", x.id, ", the last improvement was at ", L.bestid);
            check(i.feasible == (t != t0), "feasible = ", i.feasible);
            bool dead = L.last == long(CUTStatus::nosoln) || (L.last == long(CUTStatus::noeffect) && !(L.q && L.alt));
            finish(L, i, dead, S);
        } else {
            Feas F {&L};
            bsearch_adaptor<Feas, Space> A(F, S, o);
            check(A.x_best().id == S.xc().id, "best point");
            double t = r.in(-5, 5);
            bool yes = A(t);
            check(L.par && L.cand == t, "the oracle was not given the candidate");
            check(yes == L.accepted, "answer ", yes);
            check(S.s == 1, "the stored space was cut");
            check(S.moved == (yes ? 1000 + L.space : 0), "the stored centre is ", S.xc().id);
            check(A.x_best().id == S.xc().id, "best point");
            const bool stop = L.accepted || (L.last >= 0 && (L.last != long(CUTStatus::success) || L.tsq < L.tol));
            check(stop || L.queries + 1 >= long(L.limit), "stopped without a reason");
        }
        if (L.queries > 2) ++nontrivial();
    });
}
