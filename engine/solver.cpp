#include "solver.h"
#include <chrono>
#include <csignal>
#include <memory>
#include <sys/time.h>

static std::unordered_map<unsigned, std::pair<std::vector<unsigned>, bool>> g_vars;
static std::unordered_map<unsigned, Z3_ast> g_keepv;

static const std::pair<std::vector<unsigned>, bool>& varsOf(const z3::expr& top)
{
    std::vector<std::pair<Z3_ast, int>> st{{(Z3_ast)top, 0}};
    while (!st.empty()) {
        auto [a, s] = st.back();
        unsigned id = Z3_get_ast_id(C(), a);
        if (g_vars.count(id)) {
            st.pop_back();
            continue;
        }
        z3::expr e = E(a);
        if (e.is_app()) {
            unsigned n = e.num_args();
            if (s == 0) {
                st.back().second = 1;
                for (unsigned k = 0; k < n; ++k) {
                    z3::expr x = e.arg(k);
                    if (!g_vars.count(Z3_get_ast_id(C(), x))) st.push_back({(Z3_ast)x, 0});
                }
                continue;
            }
            std::pair<std::vector<unsigned>, bool> r{{}, e.is_real()};
            std::set<unsigned> u;
            if (n == 0 && e.decl().decl_kind() == Z3_OP_UNINTERPRETED) {
                u.insert(id);
            }
            if (n > 4 || !u.empty()) {
                for (unsigned k = 0; k < n; ++k) {
                    auto& c = g_vars[Z3_get_ast_id(C(), e.arg(k))];
                    u.insert(c.first.begin(), c.first.end());
                    r.second |= c.second;
                }
            } else {
                for (unsigned k = 0; k < n; ++k) {
                    auto& c = g_vars[Z3_get_ast_id(C(), e.arg(k))];
                    u.insert(c.first.begin(), c.first.end());
                    r.second |= c.second;
                }
            }
            r.first.assign(u.begin(), u.end());
            Z3_inc_ref(C(), a);  // ids must stay valid
            g_vars[id] = std::move(r);
            st.pop_back();
        } else {
            Z3_inc_ref(C(), a);
            g_vars[id] = {{}, false};
            st.pop_back();
        }
    }
    return g_vars[Z3_get_ast_id(C(), top)];
}
void collectVars(const z3::expr& e, std::set<unsigned>& out, bool& real)
{
    auto& v = varsOf(e);
    out.insert(v.first.begin(), v.first.end());
    real = real || v.second;
}

Res timedCheck(z3::solver& s, unsigned ms)
{
    // no solver timer threads (they would not survive fork): an interval timer interrupts the context
    auto arm = [](unsigned t) {
        itimerval tv{};
        tv.it_value.tv_sec = t / 1000;
        tv.it_value.tv_usec = (t % 1000) * 1000;
        setitimer(ITIMER_REAL, &tv, nullptr);
    };
    static bool installed = false;
    if (!installed) {
        struct sigaction sa {};
        sa.sa_handler = [](int) {
            Z3_interrupt(C());
            itimerval tv{};
            tv.it_value.tv_usec = 200000;  // again, in case the flag was reset in between
            setitimer(ITIMER_REAL, &tv, nullptr);
        };
        sa.sa_flags = SA_RESTART;
        sigaction(SIGALRM, &sa, nullptr);
        installed = true;
    }
    arm(ms);
    auto t0 = std::chrono::steady_clock::now();
    z3::check_result r;
    try {
        r = s.check();
    }
    catch (z3::exception& e) {
        r = z3::unknown;
    }
    arm(0);
    SH->solver_us += std::chrono::duration_cast<std::chrono::microseconds>(
                         std::chrono::steady_clock::now() - t0)
                         .count();
    if (r == z3::sat) { SH->q_sat++; return SAT; }
    if (r == z3::unsat) { SH->q_unsat++; return UNSAT; }
    SH->q_unknown++;
    return UNKNOWN;
}

void PC::add(const z3::expr& e0)
{
    z3::expr e = e0;
    if (e.is_true()) return;
    if (e.is_false()) { falsified = true; return; }
    if (e.is_and()) {
        for (unsigned k = 0; k < e.num_args(); ++k) add(e.arg(k));
        return;
    }
    Constraint c{e, {}, false};
    collectVars(e, c.vars, c.real);
    cs.push_back(c);
    // keep only cached models that satisfy the new constraint; repair the first one where that is cheap
    std::vector<z3::model> nm;
    bool first = true;
    for (auto& m : cex) {
        if (m.eval(e, true).is_true()) nm.push_back(m);
        else if (first) {
            std::set<unsigned> vs = cs.back().vars;
            bool anyreal = cs.back().real;
            std::vector<char> in(cs.size(), 0);
            in.back() = 1;
            bool ch = true;
            while (ch) {
                ch = false;
                for (size_t k = 0; k < cs.size(); ++k) {
                    if (in[k]) continue;
                    for (unsigned v : cs[k].vars)
                        if (vs.count(v)) {
                            in[k] = 1;
                            ch = true;
                            vs.insert(cs[k].vars.begin(), cs[k].vars.end());
                            anyreal |= cs[k].real;
                            break;
                        }
                }
            }
            if (!anyreal || vs.size() <= 6) {
                z3::solver s(C());
                for (size_t k = 0; k < cs.size(); ++k)
                    if (in[k]) s.add(cs[k].e);
                if (timedCheck(s, anyreal ? 500 : 3000) == SAT) {
                    z3::model r = s.get_model();
                    z3::model n(C(), Z3_mk_model(C()));
                    std::set<unsigned> have;
                    auto copy = [&](const z3::model& src, bool fromSlice) {
                        for (unsigned k = 0; k < src.num_consts(); ++k) {
                            z3::func_decl fd = src.get_const_decl(k);
                            z3::expr c = fd();
                            unsigned id = Z3_get_ast_id(C(), c);
                            if (fromSlice != (vs.count(id) > 0) || have.count(id)) continue;
                            have.insert(id);
                            z3::expr v = src.get_const_interp(fd);
                            n.add_const_interp(fd, v);
                        }
                    };
                    copy(r, true);
                    copy(m, false);
                    bool ok = true;
                    for (auto& c2 : cs)
                        if (!n.eval(c2.e, true).is_true()) { ok = false; break; }
                    if (ok) nm.push_back(n);
                }
            }
        }
        first = false;
    }
    cex.swap(nm);
}
bool PC::cachedValue(const z3::expr& e, uint64_t& v)
{
    return !cex.empty() && cex[0].eval(e, true).is_numeral_u64(v);
}
bool PC::cachedSat(const z3::expr& extra)
{
    for (auto& m : cex) {
        if (m.eval(extra, true).is_true()) return true;
    }
    return false;
}

Res PC::check(const z3::expr& extra0, unsigned ms, std::unique_ptr<z3::model>* mout, bool full, const z3::expr* about)
{
    if (falsified) return UNSAT;
    z3::expr extra = extra0.simplify();
    if (extra.is_false()) return UNSAT;
    if (extra.is_true() && !mout && !full) return SAT;
    std::set<unsigned> vs;
    bool real = false;
    collectVars(extra, vs, real);
    if (about) collectVars(*about, vs, real);
    // slice: constraints sharing symbols (transitively)
    std::vector<char> in(cs.size(), full ? 1 : 0);
    bool anyreal = real;
    if (!full) {
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t k = 0; k < cs.size(); ++k) {
                if (in[k]) continue;
                bool hit = false;
                for (unsigned v : cs[k].vars)
                    if (vs.count(v)) { hit = true; break; }
                if (hit) {
                    in[k] = 1;
                    ch = true;
                    vs.insert(cs[k].vars.begin(), cs[k].vars.end());
                }
            }
        }
    }
    for (size_t k = 0; k < cs.size(); ++k)
        if (in[k]) anyreal |= cs[k].real;
    if (!anyreal && !mout) {
        // bit-vector only: incremental solver
        if (!bv) {
            bv.reset(new z3::solver(C()));
            bvCount = 0;
        }
        for (; bvCount < cs.size(); ++bvCount)
            if (!cs[bvCount].real) bv->add(cs[bvCount].e);
        bv->push();
        bv->add(extra);
        uint64_t unk = SH->q_unknown;
        Res r = timedCheck(*bv, std::min(ms, 250u));
        bv->pop();
        if (r != UNKNOWN) return r;
        if (SH->q_unknown > unk) SH->q_unknown--;
        z3::tactic t = z3::tactic(C(), "simplify") & z3::tactic(C(), "propagate-values") & z3::tactic(C(), "solve-eqs") &
                       z3::tactic(C(), "bit-blast") & z3::tactic(C(), "simplify") & z3::tactic(C(), "sat");
        z3::solver s = t.mk_solver();
        for (size_t k = 0; k < cs.size(); ++k)
            if (in[k]) s.add(cs[k].e);
        s.add(extra);
        return timedCheck(s, ms);
    }
    auto run = [&](z3::solver& s) {
        for (size_t k = 0; k < cs.size(); ++k)
            if (in[k]) s.add(cs[k].e);
        s.add(extra);
        Res r = timedCheck(s, ms);
        if (r == SAT && mout) mout->reset(new z3::model(s.get_model()));
        return r;
    };
    z3::params sp(C());
    sp.set("elim_and", true);
    if (anyreal && !mout) {
        // monomials as independent symbols: a relaxation, so only "unsat" counts
        z3::params np(C());
        np.set("arith.nl", false);
        z3::tactic t = z3::with(z3::tactic(C(), "simplify"), sp) & z3::with(z3::tactic(C(), "smt"), np);
        z3::solver s = t.mk_solver();
        uint64_t us = SH->q_sat;
        Res r = run(s);
        if (r == UNSAT) return r;
        if (r == SAT && SH->q_sat > us) SH->q_sat--;
    }
    {
        z3::tactic t = z3::with(z3::tactic(C(), "simplify"), sp) & z3::tactic(C(), "smt");
        z3::solver s = t.mk_solver();
        Res r = run(s);
        if (r != UNKNOWN) return r;
    }
    if (anyreal) {
        try {
            z3::tactic t = z3::with(z3::tactic(C(), "simplify"), sp) &
                           z3::tactic(C(), "propagate-values") & z3::tactic(C(), "solve-eqs") &
                           z3::tactic(C(), "qfnra-nlsat");
            z3::solver s = t.mk_solver();
            Res r = run(s);
            if (r != UNKNOWN) return r;
        }
        catch (z3::exception&) {
        }
    }
    return UNKNOWN;
}
