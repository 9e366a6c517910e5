// Path condition and solver queries.
#pragma once
#include "term.h"
#include <atomic>
#include <semaphore.h>

// statistics shared between the (forked) path processes
struct Shared {
    sem_t tokens;
    std::atomic<uint64_t> paths_ok, paths_throw, paths_infeasible, paths_err, instrs, forks;
    std::atomic<uint64_t> q_sat, q_unsat, q_unknown, solver_us;
    std::atomic<uint64_t> asserts, trivially, discharged, byIdentity, byGuards, byTolerance, assertUnknown;
    std::atomic<uint64_t> violations, unsupported, divzero, uninit, covers, models, maxpath;
    std::atomic<int> stop;
    std::atomic<uint64_t> funcSeen[4096 / 64 * 8];
};
extern Shared* SH;

enum Res { SAT, UNSAT, UNKNOWN };

struct Constraint {
    z3::expr e;
    std::set<unsigned> vars;
    bool real;
};

struct PC {
    std::vector<Constraint> cs;
    std::vector<z3::model> cex;  // recently seen models of (a slice of) the path condition
    std::unique_ptr<z3::solver> bv;
    unsigned bvCount = 0;
    bool falsified = false, hintInit = false;
    void add(const z3::expr& e);
    Res check(const z3::expr& extra, unsigned timeout_ms, std::unique_ptr<z3::model>* m = nullptr, bool full = false, const z3::expr* about = nullptr);
    // quick: is extra true in a cached model of everything?
    bool cachedValue(const z3::expr& e, uint64_t& v);
    bool cachedSat(const z3::expr& extra);
};
void collectVars(const z3::expr& e, std::set<unsigned>& out, bool& real);
Res timedCheck(z3::solver& s, unsigned ms);
