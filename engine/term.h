// Values and real-number terms of the symbolic executor.
#pragma once
#include <gmpxx.h>
#include <z3++.h>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

struct RNode {
    enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, DIV, NEG, ITE } op;
    uint32_t id;
    RNode *a = nullptr, *b = nullptr;
    Z3_ast cond = nullptr;  // ITE
    mpq_class q;            // CONST
    std::string name;       // VAR
    bool hasDiv = false;
    uint32_t uses = 0;
    // caches
    int fr = -1;          // index into fraction table
};

struct Val {
    enum K : uint8_t { U, I, S, D, R, AGG } k = U;
    union {
        uint64_t i;
        double d;
        Z3_ast s;
        RNode* r;
        std::vector<Val>* agg;
    };
    Val() : k(U), i(0) {}
    static Val Int(uint64_t x) { Val v; v.k = I; v.i = x; return v; }
    static Val Dbl(double x) { Val v; v.k = D; v.d = x; return v; }
    static Val Sym(Z3_ast x) { Val v; v.k = S; v.s = x; return v; }
    static Val Real(RNode* x) { Val v; v.k = R; v.r = x; return v; }
    static Val Agg(std::vector<Val>* x) { Val v; v.k = AGG; v.agg = x; return v; }
};

z3::context& C();
// keep a z3 ast alive for the rest of the process, and wrap it again
Z3_ast keep(const z3::expr& e);
inline z3::expr E(Z3_ast a) { return z3::expr(C(), a); }

struct Terms {
    std::vector<RNode*> all;
    std::unordered_map<std::string, RNode*> tab;
    RNode* mk(RNode::Op op, RNode* a, RNode* b, Z3_ast cond = nullptr);
    RNode* constant(const mpq_class& q);
    RNode* constant(double d);
    RNode* var(const std::string& name);
    RNode* add(RNode* a, RNode* b);
    RNode* sub(RNode* a, RNode* b);
    RNode* mul(RNode* a, RNode* b);
    RNode* div(RNode* a, RNode* b);
    RNode* neg(RNode* a);
    RNode* ite(const z3::expr& c, RNode* a, RNode* b);

    // polynomial normal form: exact rational coefficients over atoms (inputs, ite-terms, opaque quotients)
    typedef std::u16string Mono;  // sorted atom ids, repeated for powers
    struct MonoLess {  // graded lexicographic
        bool operator()(const Mono& a, const Mono& b) const { return a.size() != b.size() ? a.size() < b.size() : a < b; }
    };
    typedef std::map<Mono, mpq_class, MonoLess> Poly;
    static bool divide(Poly p, const Poly& f, Poly& quot);  // exact division
    std::vector<Z3_ast> atoms;           // z3 term of each atom
    std::unordered_map<uint32_t, uint32_t> atomOfNode;
    uint32_t atomFor(uint32_t key, const z3::expr& e);
    struct PC2 { std::unordered_map<uint32_t, Poly*> cache; };
    PC2 cA, cO;
    bool opaque = false;  // large shared products are atoms as well (cache cO)
    const Poly& polyO(RNode* n);
    const Poly& poly(RNode* n);  // quotients are opaque atoms
    void expand(RNode* n, const mpq_class& c, Poly& acc, int depth);
    z3::expr toZ3(const Poly& p);
    static void addTo(Poly& acc, const Poly& p, const mpq_class& c);
    static Poly mulP(const Poly& a, const Poly& b);

    // (A) every quotient is an opaque fresh variable (a generalisation: unsat is sound)
    z3::expr lowerA(RNode* n);
    z3::expr diffA(RNode* a, RNode* b);
    // (B) exact: value == num/den with den a product of divisors
    struct Frac {
        Poly num;
        std::map<uint32_t, int> den;  // divisor (RNode id) -> power
    };
    std::vector<Frac*> frs;
    const Frac& lowerB(RNode* n);
    const Poly& factor(uint32_t id) { return factorNum.at(id); }
    std::map<uint32_t, Poly> factorNum;  // divisor id -> polynomial numerator of divisor
    Poly powMul(Poly p, uint32_t id, int k);
    Poly denPoly(const std::map<uint32_t, int>& d);
    void common(const Frac& x, const Frac& y, Poly& nx, Poly& ny, std::map<uint32_t, int>& den);
    // exact comparisons as z3 booleans
    z3::expr eq(RNode* a, RNode* b);
    z3::expr lt(RNode* a, RNode* b);  // a < b
    z3::expr le(RNode* a, RNode* b);
    // a - b = num / prod(divisors ^ power)
    struct Diff {
        Poly num;
        std::map<uint32_t, int> den;
    };
    Diff diff(RNode* a, RNode* b);
    z3::expr sign(const Diff& d, bool strict);           // d < 0 (strict) or d <= 0
    z3::expr beyond(const Diff& d, const mpq_class& m);  // |d| > m
    double bound(const Poly& p);                         // upper bound of |p| over the input boxes, inf if unknown
    std::map<uint32_t, double> atomBound;                // atom -> bound of |atom|
    std::unordered_map<std::string, double> varBound;    // input name -> bound
    double evalP(const Poly& p, const std::function<double(uint32_t)>& at);
    z3::expr numZ3(RNode* n) { return toZ3(lowerB(n).num); }
    z3::expr denZ3(RNode* n) { return toZ3(denPoly(lowerB(n).den)); }
};
extern Terms T;
z3::expr z3q(const mpq_class& q);
mpq_class fromDouble(double d);
