// Interface between the harnesses and the symbolic executor (or the native replay runtime).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t sym_u64(const char* name, uint64_t lo, uint64_t hi);   // any value in [lo, hi]
double sym_real(const char* name, double lo, double hi);        // any real in [lo, hi]
double sym_realh(const char* name, double lo, double hi, double hint);
bool sym_bool(const char* name);
uint64_t sym_concretize(uint64_t v);                            // one path per feasible value
void sym_assume(bool c);
void sym_assert(bool c, const char* msg);
void sym_eq(double a, double b, const char* msg);               // equal (1e-9)
void sym_eqtol(double a, double b, double tol, const char* msg);
void sym_equ(uint64_t a, uint64_t b, const char* msg);
double sym_ite(bool c, double a, double b);  // c ? a : b, without forking
uint64_t sym_iteu(bool c, uint64_t a, uint64_t b);
void sym_threads(uint64_t n);                                   // team size for parallel regions
void sym_ieee(bool on);                                         // round operations on constants, instead of exact arithmetic
}
// size that is explored value by value
inline size_t sym_size(const char* name, size_t lo, size_t hi) { return sym_concretize(sym_u64(name, lo, hi)); }
#define SYM_THROWS(expr, msg)        \
    do {                             \
        bool thrown_ = false;        \
        try { expr; }                \
        catch (...) { thrown_ = true; } \
        sym_assert(thrown_, msg);    \
    } while (0)
