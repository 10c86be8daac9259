// Bounded companion: a seeded search for a concrete failing input, run against the real code.
// usage: prog PROPERTY SEED BUDGET_SECONDS [CASE]
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/resource.h>
#include <sys/time.h>
#include <ctime>
#include <unistd.h>
#include <utility>
#include <vector>
namespace h {
struct Fail : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567ull) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int in(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); }
    double u(double a = 0, double b = 1) { return a + (b - a) * double(next() >> 11) / 9007199254740992.0; }
    bool coin(double p = .5) { return u() < p; }
    double g() {
        double s = 0;
        for (int i = 0; i < 12; ++i) s += u();
        return s - 6;
    }
    template <class T> const T& pick(const std::vector<T>& v) { return v[size_t(next() % v.size())]; }
};
inline std::ostringstream& log() {
    static std::ostringstream o;
    return o;
}
inline long& case_no() { static long k; return k; }
inline std::string& prop() { static std::string p; return p; }
inline uint64_t& seed() { static uint64_t s; return s; }
inline long& nontrivial() { static long k; return k; }
inline std::set<std::string>& known() { static std::set<std::string> k; return k; }
inline std::vector<std::string>& samples() { static std::vector<std::string> v; return v; }
inline std::string strv(const std::vector<double>& v) {
    std::ostringstream o;
    o.precision(17);
    o << "{";
    for (size_t i = 0; i < v.size(); ++i) o << (i ? "," : "") << v[i];
    o << "}";
    return o.str();
}
template <class... A> std::string cat(const A&... a) {
    std::ostringstream o;
    o.precision(17);
    (void)std::initializer_list<int> {((o << a), 0)...};
    return o.str();
}
template <class... A> void check(bool ok, const A&... a) {
    if (!ok) throw Fail(cat(a...));
}
inline bool close(double a, double b, double tol = 1e-8, double sc = 0) {
    if (a == b) return true;
    return std::fabs(a - b) <= tol * (1 + std::max({std::fabs(a), std::fabs(b), sc}));
}
// input: the case's input written out, for the report
template <class... A> void input(const A&... a) {
    log() << cat(a...) << "; ";
}
inline void crash(int sig) {
    char b[4096];
    int n = snprintf(b, sizeof b, "\nFAIL property=%s seed=%llu case=%ld : %s; input: %.3500s\n", prop().c_str(), (unsigned long long)seed(), case_no(),
        sig == SIGVTALRM ? "does not terminate (20 s of processor time)" : sig == SIGABRT ? "aborts (assertion or uncaught exception)" : "crashes", log().str().c_str());
    if (n > 0) { ssize_t r = write(1, b, size_t(n)); (void)r; }
    _exit(1);
}
inline void noclutter() { setvbuf(stdout, nullptr, _IOLBF, 0); }
inline int run(int argc, char** argv, const std::function<void(const std::string&, Rng&, long)>& f) {
    prop() = argc > 1 ? argv[1] : "";
    seed() = argc > 2 ? strtoull(argv[2], nullptr, 10) : 1;
    double budget = argc > 3 ? atof(argv[3]) : 3;
    long only = argc > 4 ? atol(argv[4]) : -1;
    noclutter();
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM}) signal(s, crash);
#ifndef __SANITIZE_ADDRESS__
    rlimit rl {4ull << 30, 4ull << 30};   // a runaway case ends as an exception, not by exhausting the machine
    setrlimit(RLIMIT_AS, &rl);
#endif
    timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    long evals = 0;
    for (long k = only >= 0 ? only : 0;; ++k) {
        clock_gettime(CLOCK_MONOTONIC, &t1);
        double el = double(t1.tv_sec - t0.tv_sec) + 1e-9 * double(t1.tv_nsec - t0.tv_nsec);
        if (only < 0 && el > budget && k >= 200) break;
        if (only < 0 && el > 6 * budget + 10) break;
        case_no() = k;
        log().str("");
        Rng r(seed() * 1000003ull + uint64_t(k));
        itimerval it {};
        it.it_value.tv_sec = 20;
        setitimer(ITIMER_VIRTUAL, &it, nullptr);
        try {
            f(prop(), r, k);
        } catch (const Fail& e) {
            printf("FAIL property=%s seed=%llu case=%ld : %s; input: %s\n", prop().c_str(), (unsigned long long)seed(), k, e.what(), log().str().c_str());
            return 1;
        } catch (const std::exception& e) {
            printf("FAIL property=%s seed=%llu case=%ld : exception %s; input: %s\n", prop().c_str(), (unsigned long long)seed(), k, e.what(), log().str().c_str());
            return 1;
        }
        ++evals;
        if (samples().size() < 3 && k % 7 == 0 && !log().str().empty()) samples().push_back(cat("case ", k, ": ", log().str().substr(0, 600)));
        if (only >= 0) break;
    }
    for (auto& s : samples()) printf("SAMPLE %s\n", s.c_str());
    for (auto& s : known()) printf("KNOWN %s\n", s.c_str());
    printf("OK evals=%ld nontrivial=%ld\n", evals, nontrivial());
    return 0;
}
} // namespace h
