//@ bound: every history of up to 3 operations (insert any real, NaN, +infinity or -infinity; reset; reset to another length) on windows of up to 3 residuals, followed by a query for any real tolerance, infinity or NaN; up to 5 insertions of reals in windows of up to 4; thorough: 4 operations, windows of up to 3; windows of 20 to 22 (thorough: 40 to 42) residuals after up to 3 more insertions than that, falling by any amounts with at most one rise at any position
//@ assume: windows of at least one residual; slots that have not been filled since the last reset count as +infinity (documented: reset sets all residuals to infinity)
#include "sym.h"
#include <GooseFEM/GooseFEM.h>
#include <GooseFEM/Iterate.h>
#include <limits>
#include <vector>
typedef std::vector<double> V;
static const double inf = std::numeric_limits<double>::infinity();
// kind 0: NaN, 1: +infinity, 2: -infinity, otherwise a real
static double value(const char* name)
{
    size_t k = sym_size(name, 0, 3);
    if (k == 0) return std::numeric_limits<double>::quiet_NaN();
    if (k == 1) return inf;
    if (k == 2) return -inf;
    return sym_real("residual", -10, 10);
}
static void check(const GooseFEM::Iterate::StopList& s, const V& w, double tol)
{
    sym_equ(s.data().size(), w.size(), "number of residuals");
    sym_equ(s.get().size(), w.size(), "number of residuals");
    sym_assert(&s.get() == &s.data() || s.get() == s.data(), "the same residuals");
    bool less = true, desc = true, nan = false;
    for (size_t k = 0; k < w.size(); ++k) {
        double d = s.data()[k];
        sym_assert(d == w[k] || (d != d && w[k] != w[k]), "the window holds the last residuals, oldest first");
        less = less & (w[k] < tol);
        if (k) desc = desc & (w[k] <= w[k - 1]);
        nan = nan | (w[k] != w[k]);
    }
    sym_assert(s.all_less(tol) == less, "all_less: every residual of the window is below the tolerance");
    if (w.size() == 1) desc = s.descending();
    sym_assert(s.descending() == desc, "descending: no residual exceeds its predecessor");
    if (w.size() == 1) sym_assert(s.descending(), "a single residual is in order");
}
static void run(size_t nops, size_t nmax)
{
    size_t n = sym_size("n", 1, nmax);
    GooseFEM::Iterate::StopList s(n);
    V w(n, inf);
    size_t ops = sym_size("operations", 0, nops);
    for (size_t k = 0; k < ops; ++k) {
        size_t op = sym_size("op", 0, 2);
        if (op == 0) {
            double r = value("kind");
            s.roll_insert(r);
            for (size_t j = 0; j + 1 < w.size(); ++j) w[j] = w[j + 1];
            w[w.size() - 1] = r;
        }
        else if (op == 1) {
            s.reset();
            w = V(w.size(), inf);
        }
        else {
            size_t m = sym_size("m", 1, nmax);
            s.reset(m);
            w = V(m, inf);
        }
    }
    check(s, w, value("tolerance kind"));
}
extern "C" {
void h_default()
{
    GooseFEM::Iterate::StopList s;
    check(s, V(1, inf), sym_real("tol", -10, 10));
    double r = value("kind");
    s.roll_insert(r);
    check(s, V(1, r), value("tolerance kind"));
}
void h_history() { run(3, 3); }
void ht_history() { run(4, 3); }
void h_insert()
{
    size_t n = sym_size("n", 1, 4), m = sym_size("insertions", 0, 5);
    GooseFEM::Iterate::StopList s(n);
    V w(n, inf);
    for (size_t k = 0; k < m; ++k) {
        double r = sym_real("residual", -10, 10);
        s.roll_insert(r);
        for (size_t j = 0; j + 1 < n; ++j) w[j] = w[j + 1];
        w[n - 1] = r;
    }
    check(s, w, sym_real("tol", -10, 10));
}
void h_long()
{
    // a falling sequence of residuals in a long window, with one or no exception
    size_t n = sym_size("n", THOROUGH ? 40 : 20, THOROUGH ? 42 : 22), m = sym_size("extra", 0, 3), bad = sym_size("exception", 0, n + 2);
    GooseFEM::Iterate::StopList s(n);
    V w(n, inf);
    double r = sym_real("first", 50, 100);
    for (size_t k = 0; k < n + m; ++k) {
        double q = k == bad ? r + sym_real("rise", 0.5, 1) : r - sym_real("drop", 0, 1);
        r = q;
        s.roll_insert(q);
        for (size_t j = 0; j + 1 < n; ++j) w[j] = w[j + 1];
        w[n - 1] = q;
    }
    for (size_t k = 0; k < n; ++k) sym_eq(s.data()[k], w[k], "the window holds the last residuals, oldest first");
    bool in = bad > m && bad < n + m;  // the rise is between two residuals of the window
    sym_assert(s.descending() == !in, "descending: no residual exceeds its predecessor");
    sym_assert(s.all_less(200), "all_less: every residual of the window is below the tolerance");
    sym_assert(!s.all_less(w[bad >= m && bad < n + m ? bad - m : 0]), "all_less: every residual of the window is below the tolerance");
}
}
