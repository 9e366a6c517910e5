// Native runtime of the harness interface: runs a harness entry on the real, natively compiled code with the
// inputs of a replay file.  Exit: 0 passed, 1 assertion failed, 3 uncaught exception, 77 assumption not met.
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
static std::map<std::string, std::string> in;
static std::map<std::string, int> cnt;
static bool validate = false;
static int failures = 0;
static int nvals = 0;
static std::string next(const char* name, bool& have)
{
    std::string n = name;
    int k = cnt[n]++;
    if (k) n += "#" + std::to_string(k);
    auto it = in.find(n);
    have = it != in.end();
    return have ? it->second : "";
}
static double real(const std::string& s)
{
    size_t p = s.find('/');
    if (p == std::string::npos) return strtod(s.c_str(), nullptr);
    return strtod(s.substr(0, p).c_str(), nullptr) / strtod(s.substr(p + 1).c_str(), nullptr);
}
static void fail(const char* msg)
{
    printf("FAILED: %s\n", msg);
    fflush(stdout);
    ++failures;
}
extern "C" {
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t hi)
{
    if (lo == hi) { cnt[name]++; return lo; }
    bool h;
    std::string s = next(name, h);
    uint64_t v = h ? strtoull(s.c_str(), nullptr, 10) : lo;
    if (v < lo) v = lo;
    if (v > hi) v = hi;
    printf("input %s = %llu\n", name, (unsigned long long)v);
    return v;
}
double sym_real(const char* name, double lo, double hi)
{
    bool h;
    std::string s = next(name, h);
    double v = h ? real(s) : lo;
    if (!(v >= lo)) v = lo;
    if (!(v <= hi)) v = hi;
    printf("input %s = %.17g\n", name, v);
    return v;
}
double sym_realh(const char* name, double lo, double hi, double) { return sym_real(name, lo, hi); }
bool sym_bool(const char* name)
{
    bool h;
    std::string s = next(name, h);
    bool v = h && (s == "1" || s == "true");
    printf("input %s = %d\n", name, v);
    return v;
}
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_assume(bool c)
{
    if (!c) {
        printf("assumption not met\n");
        fflush(stdout);
        if (failures) _Exit(1);
        _Exit(77);
    }
}
void sym_assert(bool c, const char* msg)
{
    if (!c) fail(msg);
}
void sym_eqtol(double a, double b, double tol, const char* msg)
{
    printf("value %d %.17g %.17g %s\n", nvals++, a, b, msg);
    double t = validate ? std::max(tol, 1e-7) * (1 + std::fabs(a) + std::fabs(b)) : tol * 0.5;
    if (!(std::fabs(a - b) <= t) && !(a == b)) fail(msg);
}
void sym_eq(double a, double b, const char* msg) { sym_eqtol(a, b, 1e-9, msg); }
double sym_ite(bool c, double a, double b) { return c ? a : b; }
uint64_t sym_iteu(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
void sym_equ(uint64_t a, uint64_t b, const char* msg)
{
    if (a != b) {
        printf("%llu vs %llu\n", (unsigned long long)a, (unsigned long long)b);
        fail(msg);
    }
}
__attribute__((weak)) void sym_threads(uint64_t) {}
__attribute__((weak)) int omp_get_thread_num(void) { return 0; }
__attribute__((weak)) int omp_get_num_threads(void) { return 1; }
__attribute__((weak)) int omp_get_max_threads(void) { return 1; }
__attribute__((weak)) int omp_get_num_procs(void) { return 1; }
__attribute__((weak)) int omp_in_parallel(void) { return 0; }
__attribute__((weak)) void omp_set_num_threads(int) {}
void sym_ieee(bool) {}
}
int main(int argc, char** argv)
{
    if (argc < 3) {
        fprintf(stderr, "usage: %s entry replay-file [validate]\n", argv[0]);
        return 2;
    }
    validate = argc > 3;
    std::ifstream f(argv[2]);
    std::string line;
    while (std::getline(f, line)) {
        if (line.rfind("input ", 0)) continue;
        size_t p = line.rfind(' ');  // (names may contain spaces)
        if (p > 6) in[line.substr(6, p - 6)] = line.substr(p + 1);
    }
    void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) {
        fprintf(stderr, "no entry %s\n", argv[1]);
        return 2;
    }
    try {
        fn();
    }
    catch (std::exception& e) {
        printf("uncaught exception: %s\n", e.what());
        fflush(stdout);
        return failures ? 1 : 3;
    }
    catch (...) {
        printf("uncaught exception\n");
        return failures ? 1 : 3;
    }
    printf("done: %d failed\n", failures);
    return failures ? 1 : 0;
}
