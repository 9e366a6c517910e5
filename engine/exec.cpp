// Symbolic executor for LLVM IR (one process per path, states split with fork()).
#include "exec.h"
#include <chrono>
#include <csignal>
#include <cxxabi.h>
#include <fcntl.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <iostream>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;

Shared* SH;
static Module* M;
static const DataLayout* DL;
static PC pc;
static std::vector<Frame> stk;
static std::map<uint64_t, Obj*> objs;
static uint64_t nextAddr = 0x100000;
static std::unordered_map<const GlobalValue*, uint64_t> gaddr;
static std::unordered_map<uint64_t, Function*> faddr;
static std::unordered_map<uint64_t, std::string> typeName;
static std::unordered_map<Function*, FuncInfo*> finfo;
static std::vector<FuncInfo*> fis;
static std::vector<pid_t> kids;
static bool ownsToken = true;
static int outFd = 1;
static std::string entryName;
static uint64_t instrs = 0, maxInstrs = 2000000000ull;
static unsigned branchMs = 20000, assertMs = 60000;
static std::string lastWhat;
static std::chrono::steady_clock::time_point t0;
static uint64_t nUninit = 0, hintSeed = 42;
static bool initDone = false;
static bool expectUninitOk = false;
static uint64_t sampleLimit = 3;
static int maxViol = 3;

// ---------------------------------------------------------------- inputs
struct Input { std::string name; char type; Z3_ast e; std::string lo, hi; };
static std::vector<Input> inputs;
static std::map<std::string, int> inputCount;

struct Pending { bool isEq; RNode *a, *b; Z3_ast c; std::string msg; double tol; };
static std::vector<Pending> pending;
static std::vector<std::pair<std::string, std::pair<RNode*, RNode*>>> sampleVals;

static std::string jesc(const std::string& s)
{
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static void emit(const std::string& line)
{
    std::string l = line + "\n";
    (void)!write(outFd, l.data(), l.size());
}
static std::string demangle(const std::string& n)
{
    int st;
    char* d = abi::__cxa_demangle(n.c_str(), 0, 0, &st);
    std::string r = st == 0 ? d : n;
    free(d);
    return r;
}
static std::string where()
{
    std::string r;
    int n = 0;
    for (size_t k = stk.size(); k-- > 0 && n < 6;) {
        std::string d = demangle(stk[k].fi->name);
        if (d.size() > 110) d = d.substr(0, 110) + "...";
        if (d.find("GooseFEM") != std::string::npos || k + 3 > stk.size()) {
            r += (r.empty() ? "" : " < ") + d;
            ++n;
        }
    }
    return r;
}

// ---------------------------------------------------------------- path end
[[noreturn]] static void finishProcess()
{
    SH->instrs += instrs;
    if (ownsToken) sem_post(&SH->tokens);
    for (pid_t p : kids) {
        int st;
        waitpid(p, &st, 0);
    }
    _exit(0);
}
static void flushAsserts();
[[noreturn]] static void endPath(const char* kind)
{
    std::string k = kind;
    if (k == "ok") { flushAsserts(); SH->paths_ok++; }
    else if (k == "infeasible") SH->paths_infeasible++;
    else SH->paths_err++;
    finishProcess();
}
[[noreturn]] static void unsupported(const std::string& s)
{
    SH->unsupported++;
    emit("{\"type\":\"unsupported\",\"entry\":\"" + entryName + "\",\"what\":\"" + jesc(s + " @ " + where()) + "\"}");
    endPath("unsupported");
}

static bool forkPath()  // true in the child
{
    if (SH->stop) finishProcess();
    SH->forks++;
    if (sem_trywait(&SH->tokens) == 0) {
        pid_t p = fork();
        if (p < 0) { sem_post(&SH->tokens); unsupported("fork failed"); }
        if (p == 0) {
            kids.clear();
            ownsToken = true;
            instrs = 0;
            return true;
        }
        kids.push_back(p);
        return false;
    }
    pid_t p = fork();
    if (p < 0) unsupported("fork failed");
    if (p == 0) {
        kids.clear();
        ownsToken = false;
        instrs = 0;
        return true;
    }
    int st;
    waitpid(p, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
        SH->unsupported++;
        emit("{\"type\":\"unsupported\",\"entry\":\"" + entryName + "\",\"what\":\"path process died\"}");
    }
    if (SH->stop) finishProcess();
    return false;
}

static std::string ratToDec(const z3::expr& v)
{
    if (v.is_numeral()) return v.get_decimal_string(25);
    if (v.is_algebraic()) return v.get_decimal_string(25);
    return "0";
}
static std::string modelInputs(const z3::model& m)
{
    std::string r = "{";
    for (auto& in : inputs) {
        z3::expr v = m.eval(E(in.e), true);
        std::string s;
        if (in.type == 'r') {
            s = ratToDec(v);
            if (!s.empty() && s.back() == '?') s.pop_back();
        } else {
            if (v.is_bool()) s = v.is_true() ? "1" : "0";
            else { uint64_t u = 0; s = v.is_numeral_u64(u) ? std::to_string(u) : "0"; }
        }
        r += (r.size() > 1 ? "," : "") + ("\"" + jesc(in.name) + "\":\"" + s + "\"");
    }
    return r + "}";
}
static void reportViolation(const std::string& kind, const std::string& msg, const std::string& ins)
{
    SH->violations++;
    emit("{\"type\":\"violation\",\"entry\":\"" + entryName + "\",\"kind\":\"" + kind + "\",\"msg\":\"" + jesc(msg) +
         "\",\"where\":\"" + jesc(where()) + "\",\"inputs\":" + ins + "}");
    if ((int)SH->violations >= maxViol) SH->stop = 1;
}
// a counterexample with short binary fractions, if there is one: the native run then rounds nothing
static void shorten(const z3::expr& extra, std::unique_ptr<z3::model>& m)
{
    bool any = false;
    for (auto& in : inputs) any |= in.type == 'r';
    if (!any) return;
    auto holds = [&](const z3::model& n) {
        if (!n.eval(extra, true).is_true()) return false;
        for (auto& c : pc.cs)
            if (!n.eval(c.e, true).is_true()) return false;
        return true;
    };
    for (double g : {64.0, 1024.0, 65536.0}) {
        z3::model n(C(), Z3_mk_model(C()));
        for (auto& in : inputs) {
            z3::expr e = E(in.e);
            if (e.num_args() == 2) e = e.arg(1);  // zero-extended narrow symbol
            if (!e.is_const()) continue;
            z3::expr v = m->eval(e, true);
            z3::func_decl fd = e.decl();
            if (in.type == 'r') {
                double y = 0;
                try { y = std::stod(ratToDec(v)); } catch (...) {}
                v = z3q(fromDouble(std::round(y * g) / g));
            }
            n.add_const_interp(fd, v);
        }
        if (holds(n)) { m.reset(new z3::model(n)); return; }
    }
    for (int g : {1 << 10, 1 << 30}) {
        z3::expr grid = extra;
        int count = 0;
        for (auto& in : inputs) {
            if (in.type != 'r') continue;
            if (++count > 12) return;
            z3::expr k = C().int_const(("grid!" + std::to_string(count)).c_str());
            grid = grid && E(in.e) * g == z3::to_real(k);
        }
        std::unique_ptr<z3::model> n;
        if (pc.check(grid, 2000, &n, true) == SAT && holds(*n)) { m.reset(n.release()); return; }
    }
}
// report a violation that holds under PC && extra
static bool reportUnder(const std::string& kind, const std::string& msg, const z3::expr& extra)
{
    std::unique_ptr<z3::model> m;
    Res r = pc.check(extra, assertMs, &m, true);
    if (r == UNSAT) return false;
    if (r == SAT) {
        shorten(extra, m);
        reportViolation(kind, msg, modelInputs(*m));
        return true;
    }
    // fall back on the slice only
    r = pc.check(extra, assertMs, &m, false);
    if (r == SAT) { reportViolation(kind, msg, modelInputs(*m)); return true; }
    if (r == UNSAT) return false;
    SH->assertUnknown++;
    emit("{\"type\":\"unknown\",\"entry\":\"" + entryName + "\",\"msg\":\"" + jesc(kind + ": " + msg) + "\"}");
    return true;
}
[[noreturn]] static void hardError(const std::string& kind, const std::string& msg)
{
    flushAsserts();
    reportUnder(kind, msg, C().bool_val(true));
    endPath("error");
}

// ---------------------------------------------------------------- helpers on values
static z3::expr bvval(uint64_t v, unsigned w) { return C().bv_val((uint64_t)v, w); }
static inline uint64_t maskw(uint64_t v, unsigned w) { return w >= 64 ? v : (v & ((1ull << w) - 1)); }
static inline int64_t sext(uint64_t v, unsigned w)
{
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    return (int64_t)((maskw(v, w) ^ m) - m);
}
static Val fromExpr(const z3::expr& e0)
{
    z3::expr e = e0.simplify();
    if (e.is_bool()) {
        if (e.is_true()) return Val::Int(1);
        if (e.is_false()) return Val::Int(0);
    } else if (e.is_numeral()) {
        uint64_t u;
        if (e.is_numeral_u64(u)) return Val::Int(u);
    }
    return Val::Sym(keep(e));
}
static Val freshInt(unsigned w)
{
    SH->uninit++;
    std::string n = "uninit!" + std::to_string(nUninit++);
    if (w == 1) return Val::Sym(keep(C().bool_const(n.c_str())));
    return Val::Sym(keep(C().bv_const(n.c_str(), w)));
}
static RNode* freshReal()
{
    SH->uninit++;
    return T.var("uninit!" + std::to_string(nUninit++));
}
static z3::expr bvOf(const Val& v, unsigned w)
{
    switch (v.k) {
    case Val::I: return bvval(maskw(v.i, w), w);
    case Val::S: {
        z3::expr e = E(v.s);
        if (e.is_bool()) return z3::ite(e, bvval(1, w), bvval(0, w));
        return e;
    }
    case Val::U: return E(freshInt(w).s);
    default: unsupported("integer operation on a floating-point bit pattern");
    }
}
static z3::expr boolOf(const Val& v)
{
    if (v.k == Val::I) return C().bool_val(v.i & 1);
    if (v.k == Val::S) {
        z3::expr e = E(v.s);
        if (e.is_bool()) return e;
        return e.extract(0, 0) == bvval(1, 1);
    }
    if (v.k == Val::U) return E(freshInt(1).s);
    unsupported("boolean from floating-point");
}
static bool special(const Val& v) { return v.k == Val::D && !std::isfinite(v.d); }
static RNode* realOf(const Val& v)
{
    if (v.k == Val::R) return v.r;
    if (v.k == Val::D) {
        if (!std::isfinite(v.d)) unsupported("non-finite value mixed with a symbolic one");
        return T.constant(v.d);
    }
    if (v.k == Val::U) return freshReal();
    if (v.k == Val::I) { double d; memcpy(&d, &v.i, 8); return T.constant(d); }
    unsupported("real from symbolic bits");
}
static Val fromReal(RNode* n)
{
    if (n->op == RNode::CONST) {
        double d = n->q.get_d();
        if (std::isfinite(d) && fromDouble(d) == n->q) return Val::Dbl(d);
    }
    return Val::Real(n);
}
// a value loaded/produced as double
static Val asDouble(const Val& v)
{
    if (v.k == Val::I) { double d; memcpy(&d, &v.i, 8); return Val::Dbl(d); }
    return v;
}

// ---------------------------------------------------------------- small-domain integers
struct Rng { uint64_t lo, hi; };
static std::unordered_map<unsigned, Rng> symRange;     // narrow symbols
static std::unordered_map<unsigned, Rng> rngMemo;
static uint64_t maxw(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static unsigned hold(const z3::expr& e) { return Z3_get_ast_id(C(), E(keep(e))); }
static bool numeral(const z3::expr& e, uint64_t& v) { return e.is_numeral() && e.is_numeral_u64(v); }
static Rng irange(const z3::expr& e)
{
    unsigned w = e.get_sort().bv_size();
    Rng full{0, maxw(w)};
    if (w > 64 || !e.is_app()) return full;
    uint64_t k;
    if (numeral(e, k)) return {k, k};
    unsigned id = Z3_get_ast_id(C(), e);
    auto it = rngMemo.find(id);
    if (it != rngMemo.end()) return it->second;
    Rng r = full;
    unsigned n = e.num_args();
    switch (e.decl().decl_kind()) {
    case Z3_OP_UNINTERPRETED: {
        auto s = symRange.find(id);
        if (s != symRange.end()) r = s->second;
        break;
    }
    case Z3_OP_CONCAT: {
        bool zero = true;
        for (unsigned j = 0; j + 1 < n; ++j) zero = zero && numeral(e.arg(j), k) && k == 0;
        if (zero) r = irange(e.arg(n - 1));
        break;
    }
    case Z3_OP_ITE: {
        Rng a = irange(e.arg(1)), b = irange(e.arg(2));
        r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)};
        break;
    }
    case Z3_OP_BADD: {
        Rng t{0, 0};
        bool ok = true;
        for (unsigned j = 0; j < n && ok; ++j) {
            Rng a = irange(e.arg(j));
            if (a.hi > full.hi - t.hi) ok = false;
            else t = {t.lo + a.lo, t.hi + a.hi};
        }
        if (ok) r = t;
        break;
    }
    case Z3_OP_BMUL: {
        Rng t{1, 1};
        bool ok = true;
        for (unsigned j = 0; j < n && ok; ++j) {
            Rng a = irange(e.arg(j));
            if (t.hi && a.hi > full.hi / t.hi) ok = false;
            else t = {t.lo * a.lo, t.hi * a.hi};
        }
        if (ok) r = t;
        break;
    }
    case Z3_OP_EXTRACT: {
        Z3_func_decl d = Z3_get_app_decl(C(), Z3_to_app(C(), e));
        unsigned lo = Z3_get_decl_int_parameter(C(), d, 1);
        Rng a = irange(e.arg(0));
        if (lo == 0 && a.hi <= full.hi) r = a;
        break;
    }
    default: break;
    }
    rngMemo[hold(e)] = r;
    return r;
}
typedef std::pair<unsigned, uint64_t> EqKey;
struct EqHash { size_t operator()(const EqKey& k) const { return k.first * 1000003ull ^ (k.second * 0x9e3779b97f4a7c15ull); } };
static std::unordered_map<EqKey, Z3_ast, EqHash> eqMemo, ltMemo;
// SYMIR_SELFCHECK=1: the rewriting below is compared with z3's own meaning (debugging aid)
static void selfCheck(const z3::expr& e, const z3::expr& got, const z3::expr& want)
{
    static const bool on = getenv("SYMIR_SELFCHECK") != nullptr;
    if (!on) return;
    z3::solver s(C());
    for (auto& c : pc.cs)
        if (!c.real) s.add(c.e);
    s.add(got != want);
    if (s.check() == z3::sat) std::cerr << "SELFCHECK " << e << " got " << got << " want " << want << "\n";
}
// e == k
static z3::expr eqc(const z3::expr& e, uint64_t k)
{
    unsigned w = e.get_sort().bv_size();
    k &= maxw(w);
    uint64_t v;
    if (w > 64) return (e == bvval(k, w)).simplify();
    if (numeral(e, v)) return C().bool_val(v == k);
    Rng r = irange(e);
    if (k < r.lo || k > r.hi) return C().bool_val(false);
    unsigned id = hold(e);
    auto it = eqMemo.find({id, k});
    if (it != eqMemo.end()) return E(it->second);
    z3::expr res(C());
    unsigned n = e.num_args();
    bool done = false;
    if (e.is_app()) switch (e.decl().decl_kind()) {
    case Z3_OP_ITE:
        res = z3::ite(e.arg(0), eqc(e.arg(1), k), eqc(e.arg(2), k)).simplify();
        done = true;
        break;
    case Z3_OP_CONCAT: {
        bool zero = true;
        for (unsigned j = 0; j + 1 < n; ++j) zero = zero && numeral(e.arg(j), v) && v == 0;
        if (zero) { res = eqc(e.arg(n - 1), k); done = true; }
        break;
    }
    case Z3_OP_BADD:
        if (numeral(e.arg(0), v)) {
            z3::expr t = e.arg(1);
            for (unsigned j = 2; j < n; ++j) t = t + e.arg(j);
            res = eqc(t.simplify(), k - v);
            done = true;
        }
        break;
    case Z3_OP_BMUL:
        if (n == 2 && numeral(e.arg(0), v) && v) {
            Rng a = irange(e.arg(1));
            if (a.hi <= maxw(w) / v) {
                res = k % v ? C().bool_val(false) : eqc(e.arg(1), k / v);
                done = true;
            }
        }
        break;
    default: break;
    }
    if (!done) res = (e == bvval(k, w)).simplify();
    selfCheck(e, res, e == bvval(k, w));
    eqMemo[{id, k}] = keep(res);
    return res;
}
// e < k (unsigned)
static z3::expr ltc(const z3::expr& e, uint64_t k)
{
    unsigned w = e.get_sort().bv_size();
    uint64_t v;
    if (w > 64) return z3::ult(e, bvval(k, w)).simplify();
    if (numeral(e, v)) return C().bool_val(v < k);
    Rng r = irange(e);
    if (r.hi < k) return C().bool_val(true);
    if (r.lo >= k) return C().bool_val(false);
    if (r.hi - r.lo == 1) return eqc(e, r.lo);
    unsigned id = hold(e);
    auto it = ltMemo.find({id, k});
    if (it != ltMemo.end()) return E(it->second);
    z3::expr res(C());
    unsigned n = e.num_args();
    bool done = false;
    if (e.is_app()) switch (e.decl().decl_kind()) {
    case Z3_OP_ITE:
        res = z3::ite(e.arg(0), ltc(e.arg(1), k), ltc(e.arg(2), k)).simplify();
        done = true;
        break;
    case Z3_OP_CONCAT: {
        bool zero = true;
        for (unsigned j = 0; j + 1 < n; ++j) zero = zero && numeral(e.arg(j), v) && v == 0;
        if (zero) { res = ltc(e.arg(n - 1), k); done = true; }
        break;
    }
    case Z3_OP_BADD:
        if (numeral(e.arg(0), v)) {
            z3::expr t = e.arg(1);
            for (unsigned j = 2; j < n; ++j) t = t + e.arg(j);
            t = t.simplify();
            Rng a = irange(t);
            if (a.hi <= maxw(w) - v) { res = k <= v ? C().bool_val(false) : ltc(t, k - v); done = true; }
        }
        break;
    case Z3_OP_BMUL:
        if (n == 2 && numeral(e.arg(0), v) && v) {
            Rng a = irange(e.arg(1));
            if (a.hi <= maxw(w) / v) { res = ltc(e.arg(1), (k + v - 1) / v); done = true; }
        }
        break;
    default: break;
    }
    if (!done) res = z3::ult(e, bvval(k, w)).simplify();
    selfCheck(e, res, z3::ult(e, bvval(k, w)));
    ltMemo[{id, k}] = keep(res);
    return res;
}

static bool decide(const z3::expr& c0)
{
    // branch on c: forks if both are feasible
    z3::expr c = c0.simplify();
    if (c.is_true()) return true;
    if (c.is_false()) return false;
    bool t = pc.cachedSat(c), f = pc.cachedSat(!c);
    std::unique_ptr<z3::model> m;
    bool tu = false, fu = false;
    if (!t) {
        Res r = pc.check(c, branchMs);
        t = r != UNSAT;
        tu = r == UNKNOWN;
        if (!t) { pc.add(!c); return false; }
    }
    if (!f) {
        Res r = pc.check(!c, branchMs);
        f = r != UNSAT;
        fu = r == UNKNOWN;
        if (!f) { pc.add(c); return true; }
    }
    (void)tu; (void)fu;
    static const bool trace = getenv("SYMIR_FORKS") != nullptr;
    if (trace) { fprintf(stderr, "FORK %s\n", where().c_str()); fflush(stderr); }
    if (forkPath()) { pc.add(c); return true; }
    pc.add(!c);
    return false;
}
static uint64_t concretize(const Val& v, unsigned w)
{
    if (v.k == Val::I) return v.i;
    if (v.k == Val::U) hardError("uninitialised", "uninitialised value used as an address, size or selector");
    if (v.k != Val::S) unsupported("concretize of a floating-point value");
    z3::expr e = E(v.s);
    if (e.is_bool()) return decide(e) ? 1 : 0;
    for (;;) {
        std::unique_ptr<z3::model> m;
        uint64_t val = 0;
        Res r = pc.check(C().bool_val(true), branchMs, &m, false, &e);
        if (r == SAT) {
            z3::expr x = m->eval(e, true);
            if (!x.is_numeral_u64(val)) unsupported("concretize: no value");
        } else if (r == UNSAT) endPath("infeasible");
        else unsupported("concretize: solver gave no answer");
        z3::expr eq = eqc(e, val);
        if (decide(eq)) return val;
    }
}

// ---------------------------------------------------------------- memory
static uint64_t alloc(uint64_t size, const std::string& what, bool init0 = false)
{
    if (size > (1ull << 31)) {
        hardError("memory", "allocation of an absurd size (" + std::to_string(size) + " bytes)");
    }
    Obj* o = new Obj();
    o->base = nextAddr;
    o->size = size;
    o->data.assign(size, 0);
    o->flag.assign(size, init0 ? 1 : 0);
    o->what = what;
    objs[o->base] = o;
    nextAddr += ((size + 15) / 16) * 16 + 64;
    return o->base;
}
static Obj* findObj(uint64_t a)
{
    static Obj* last = nullptr;
    if (last && a >= last->base && a - last->base < last->size) return last;
    auto it = objs.upper_bound(a);
    if (it == objs.begin()) return nullptr;
    --it;
    Obj* o = it->second;
    if (a - o->base > o->size + 32) return nullptr;
    if (a - o->base < o->size) last = o;
    return o;
}
static Obj* access(uint64_t a, uint64_t n, const char* op)
{
    Obj* o = findObj(a);
    if (!o) hardError("memory", std::string(op) + " at an address outside every object");
    if (a - o->base + n > o->size)
        hardError("memory", std::string("out-of-bounds ") + op + " (" + o->what + ")");
    if (!o->alive) hardError("memory", std::string(op) + " after free (" + o->what + ")");
    return o;
}
static void splitOverlay(Obj* o, uint32_t off, uint64_t n)
{
    // remove overlay cells overlapping [off, off+n); partially overlapped BV cells are split in bytes
    auto it = o->ov.lower_bound(off);
    if (it != o->ov.begin()) {
        auto p = std::prev(it);
        if (p->first + p->second.size > off) it = p;
    }
    std::vector<std::pair<uint32_t, Obj::Cell>> cut;
    while (it != o->ov.end() && it->first < off + n) {
        if (it->first < off || it->first + it->second.size > off + n) cut.push_back(*it);
        it = o->ov.erase(it);
    }
    for (auto& c : cut) {
        if (c.second.v.k != Val::S) unsupported("partial overwrite of a symbolic real");
        z3::expr e = bvOf(c.second.v, c.second.size * 8);
        for (uint32_t k = 0; k < c.second.size; ++k) {
            uint32_t b = c.first + k;
            if (b >= off && b < off + n) continue;
            o->ov[b] = {fromExpr(e.extract(8 * k + 7, 8 * k)), 1};
            o->flag[b] = 2;
        }
    }
}
static void storeObj(Obj* o, uint32_t off, const Val& v, uint32_t n)
{
    bool anysym = false;
    for (uint32_t k = 0; k < n; ++k) anysym |= o->flag[off + k] == 2;
    if (anysym) splitOverlay(o, off, n);
    switch (v.k) {
    case Val::U: memset(&o->flag[off], 0, n); break;
    case Val::I:
        memcpy(&o->data[off], &v.i, n);
        memset(&o->flag[off], 1, n);
        break;
    case Val::D:
        if (n != 8) unsupported("store of a float");
        memcpy(&o->data[off], &v.d, 8);
        memset(&o->flag[off], 1, 8);
        break;
    case Val::S: {
        Val x = v;
        z3::expr e = E(v.s);
        if (e.is_bool()) x = Val::Sym(keep(z3::ite(e, bvval(1, n * 8), bvval(0, n * 8))));
        else if (e.get_sort().bv_size() < n * 8) x = Val::Sym(keep(z3::zext(e, n * 8 - e.get_sort().bv_size())));
        o->ov[off] = {x, n};
        memset(&o->flag[off], 2, n);
        break;
    }
    case Val::R:
        if (n != 8) unsupported("store of a real in <8 bytes");
        o->ov[off] = {v, n};
        memset(&o->flag[off], 2, n);
        break;
    default: unsupported("store of an aggregate");
    }
}
static Val loadObj(Obj* o, uint32_t off, uint32_t n)
{
    bool sym = false, un = false, conc = false;
    for (uint32_t k = 0; k < n; ++k) {
        uint8_t f = o->flag[off + k];
        sym |= f == 2;
        un |= f == 0;
        conc |= f == 1;
    }
    if (!sym) {
        if (un && !conc) return Val();
        if (!un) {
            Val v = Val::Int(0);
            memcpy(&v.i, &o->data[off], n);
            return v;
        }
    }
    auto it = o->ov.find(off);
    if (it != o->ov.end() && it->second.size == n) return it->second.v;
    // assemble bytewise
    z3::expr e(C());
    bool first = true;
    for (uint32_t k = n; k-- > 0;) {
        z3::expr b(C());
        uint8_t f = o->flag[off + k];
        if (f == 1) b = bvval(o->data[off + k], 8);
        else if (f == 0) b = E(freshInt(8).s);
        else {
            auto j = o->ov.upper_bound(off + k);
            --j;
            if (j->second.v.k == Val::I) b = bvval((j->second.v.i >> (8 * (off + k - j->first))) & 255, 8);
            else {
                if (j->second.v.k != Val::S) unsupported("partial read of a symbolic real");
                uint32_t r = off + k - j->first;
                b = bvOf(j->second.v, j->second.size * 8).extract(8 * r + 7, 8 * r);
            }
        }
        e = first ? b : z3::concat(e, b);
        first = false;
    }
    return fromExpr(e);
}
// resolve a symbolic address to one object (forking if needed)
static Obj* resolve(const z3::expr& a, uint64_t n, const char* op)
{
    for (;;) {
        Rng rg = irange(a);
        if (Obj* o = findObj(rg.lo))
            if (o->alive && rg.lo >= o->base && rg.hi - o->base + n <= o->size && rg.hi >= rg.lo) return o;
        uint64_t v = 0;
        if (!pc.cachedValue(a, v)) {
            std::unique_ptr<z3::model> m;
            Res r = pc.check(C().bool_val(true), branchMs, &m, false, &a);
            if (r == UNSAT) endPath("infeasible");
            if (r != SAT) unsupported("address: solver gave no answer");
            m->eval(a, true).is_numeral_u64(v);
        }
        Obj* o = findObj(v);
        auto bad = [&](const std::string& s) {
            flushAsserts();
            reportUnder("memory", s, eqc(a, v));
            endPath("error");
        };
        if (!o || v - o->base + n > o->size) bad(std::string("out-of-bounds ") + op + (o ? " (" + o->what + ")" : ""));
        if (!o->alive) bad(std::string(op) + " after free (" + o->what + ")");
        z3::expr in = !ltc(a, o->base) && ltc(a, o->base + o->size - n + 1);
        if (decide(in)) return o;
    }
}
static Val iteVal(const z3::expr& c, const Val& x, const Val& y, unsigned w, bool dbl)
{
    if (x.k == Val::I && y.k == Val::I && x.i == y.i && !dbl) return x;
    if (x.k == Val::AGG || y.k == Val::AGG) unsupported("select on aggregate");
    if (x.k == Val::U && y.k == Val::U) return x;
    bool real = dbl || x.k == Val::R || y.k == Val::R || x.k == Val::D || y.k == Val::D;
    if (real) return fromReal(T.ite(c, realOf(asDouble(x)), realOf(asDouble(y))));
    if (w == 1) return fromExpr(z3::ite(c, boolOf(x), boolOf(y)));
    return fromExpr(z3::ite(c, bvOf(x, w), bvOf(y, w)));
}
static bool cellDouble(Obj* o, uint32_t off)
{
    auto it = o->ov.find(off);
    return o->flag[off] == 2 && it != o->ov.end() && it->second.v.k == Val::R;
}
static Val loadMem(const Val& addr, uint32_t n, bool dbl)
{
    if (addr.k == Val::I) {
        Obj* o = access(addr.i, n, "read");
        Val v = loadObj(o, addr.i - o->base, n);
        return dbl ? asDouble(v) : v;
    }
    if (addr.k == Val::U) hardError("uninitialised", "read through an uninitialised pointer");
    if (addr.k != Val::S) unsupported("address is a real");
    z3::expr a = E(addr.s);
    Obj* o = resolve(a, n, "read");
    Val res;
    bool first = true;
    for (uint64_t off = 0; off + n <= o->size; off += n) {
        z3::expr c = eqc(a, o->base + off);
        if (c.is_false()) continue;
        Val v = loadObj(o, off, n);
        if (dbl) v = asDouble(v);
        if (first) { res = v; first = false; continue; }
        if (v.k == Val::U && pc.check(c, branchMs) == UNSAT) continue;
        bool wasU = res.k == Val::U;
        if (wasU && off > 0) {
            // earlier cell uninitialised: drop it if it cannot be addressed
            if (pc.check(ltc(a, o->base + off), branchMs) == UNSAT) { res = v; continue; }
        }
        if (!dbl && ((v.k == Val::R) != (res.k == Val::R))) {
            if (pc.check(c, branchMs) == UNSAT) continue;
        }
        res = iteVal(c, v, res, n * 8, dbl);
    }
    return res;
}
static void storeMem(const Val& addr, const Val& v, uint32_t n, bool dbl)
{
    if (addr.k == Val::I) {
        Obj* o = access(addr.i, n, "write");
        storeObj(o, addr.i - o->base, v, n);
        return;
    }
    if (addr.k == Val::U) hardError("uninitialised", "write through an uninitialised pointer");
    if (addr.k != Val::S) unsupported("address is a real");
    z3::expr a = E(addr.s);
    Obj* o = resolve(a, n, "write");
    bool real = dbl || v.k == Val::R || v.k == Val::D;
    for (uint64_t off = 0; off + n <= o->size; off += n) {
        z3::expr c = eqc(a, o->base + off);
        if (c.is_false()) continue;
        Val old = loadObj(o, off, n);
        if (real) old = asDouble(old);
        bool mism = !real && old.k == Val::R;
        if (mism || old.k == Val::U || (real && old.k == Val::S)) {
            Res r = pc.check(c, branchMs);
            if (r == UNSAT) continue;
            if (mism || (real && old.k == Val::S)) unsupported("symbolic store in mixed cells");
        }
        storeObj(o, off, iteVal(c, v, old, n * 8, real), n);
    }
}
static void copyMem(uint64_t d, uint64_t s, uint64_t n)
{
    if (n == 0) return;
    Obj* so = access(s, n, "read (memcpy)");
    Obj* dO = access(d, n, "write (memcpy)");
    uint32_t so0 = s - so->base, do0 = d - dO->base;
    // snapshot
    std::vector<uint8_t> data(so->data.begin() + so0, so->data.begin() + so0 + n);
    std::vector<uint8_t> flag(so->flag.begin() + so0, so->flag.begin() + so0 + n);
    std::vector<std::pair<uint32_t, Obj::Cell>> cells;
    auto it = so->ov.lower_bound(so0);
    if (it != so->ov.begin()) {
        auto p = std::prev(it);
        if (p->first + p->second.size > so0) it = p;
    }
    bool cut = false;
    for (; it != so->ov.end() && it->first < so0 + n; ++it) {
        if (it->first < so0 || it->first + it->second.size > so0 + n) {
            cut = true;
            if (it->second.v.k != Val::S) unsupported("memcpy of part of a symbolic real");
            z3::expr e = bvOf(it->second.v, it->second.size * 8);
            for (uint32_t k = 0; k < it->second.size; ++k) {
                uint32_t b = it->first + k;
                if (b < so0 || b >= so0 + n) continue;
                cells.push_back({b - so0, {fromExpr(e.extract(8 * k + 7, 8 * k)), 1}});
            }
        } else cells.push_back({it->first - so0, it->second});
    }
    (void)cut;
    bool anysym = false;
    for (uint64_t k = 0; k < n; ++k) anysym |= dO->flag[do0 + k] == 2;
    if (anysym) splitOverlay(dO, do0, n);
    memcpy(&dO->data[do0], data.data(), n);
    memcpy(&dO->flag[do0], flag.data(), n);
    for (auto& c : cells) dO->ov[do0 + c.first] = c.second;
}

// ---------------------------------------------------------------- floating point
static bool ieee = false;  // round the results of operations on constants (instead of exact arithmetic)
static Val fbin(unsigned opc, const Val& a0, const Val& b0)
{
    Val a = asDouble(a0), b = asDouble(b0);
    if (a.k == Val::D && b.k == Val::D) {
        double x = a.d, y = b.d;
        switch (opc) {
        case Instruction::FAdd: case Instruction::FSub: {
            if (opc == Instruction::FSub) y = -y;
            double s = x + y;
            if (!std::isfinite(s)) return Val::Dbl(s);
            double bb = s - x, err = (x - (s - bb)) + (y - bb);
            if (err == 0 || ieee) return Val::Dbl(s);
            break;
        }
        case Instruction::FMul: {
            double p = x * y;
            if (!std::isfinite(p)) return Val::Dbl(p);
            if (x == 0 || y == 0) return Val::Dbl(0.0);
            if (ieee) return Val::Dbl(p);
            if (std::fabs(p) > 1e-200 && std::fma(x, y, -p) == 0) return Val::Dbl(p);
            break;
        }
        case Instruction::FDiv: {
            double q = x / y;
            if (!std::isfinite(q) || y == 0) return Val::Dbl(q);
            if (!std::isfinite(y)) return Val::Dbl(q);
            if (x == 0) return Val::Dbl(0.0);
            if (ieee) return Val::Dbl(q);
            if (std::fabs(q) > 1e-200 && std::fma(q, y, -x) == 0) return Val::Dbl(q);
            break;
        }
        case Instruction::FRem: return Val::Dbl(std::fmod(x, y));
        }
    }
    if (special(a) || special(b)) {
        if ((a.k == Val::D && std::isnan(a.d)) || (b.k == Val::D && std::isnan(b.d))) return Val::Dbl(NAN);
        unsupported("arithmetic on an infinite value");
    }
    RNode *x = realOf(a), *y = realOf(b);
    switch (opc) {
    case Instruction::FAdd: return fromReal(T.add(x, y));
    case Instruction::FSub: return fromReal(T.sub(x, y));
    case Instruction::FMul: return fromReal(T.mul(x, y));
    case Instruction::FDiv: {
        if (y->op == RNode::CONST) return fromReal(T.div(x, y));
        // division by zero: a separate path with result NaN
        static std::set<uint32_t> known;
        if (!known.count(y->id)) {
            z3::expr z = T.eq(y, T.constant(0.0)).simplify();
            if (!z.is_false()) {
                Res r = pc.cachedSat(z) ? SAT : pc.check(z, 4000);
                if (r == SAT) {
                    SH->divzero++;
                    if (forkPath()) { pc.add(z); return Val::Dbl(NAN); }
                    pc.add(!z);
                } else if (r == UNKNOWN) {
                    SH->divzero++;
                    pc.add(!z);
                }
            }
            known.insert(y->id);
        }
        return fromReal(T.div(x, y));
    }
    default: unsupported("frem on symbolic values");
    }
}
static Val fcmp(CmpInst::Predicate p, const Val& a0, const Val& b0)
{
    Val a = asDouble(a0), b = asDouble(b0);
    bool nan = (a.k == Val::D && std::isnan(a.d)) || (b.k == Val::D && std::isnan(b.d));
    bool un = p >= CmpInst::FCMP_UNO && p <= CmpInst::FCMP_TRUE;
    if (p == CmpInst::FCMP_TRUE) return Val::Int(1);
    if (p == CmpInst::FCMP_FALSE) return Val::Int(0);
    if (nan) return Val::Int(un);
    if (p == CmpInst::FCMP_UNO) return Val::Int(0);
    if (p == CmpInst::FCMP_ORD) return Val::Int(1);
    if (a.k == Val::D && b.k == Val::D) {
        switch (p) {
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return Val::Int(a.d == b.d);
        case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return Val::Int(a.d != b.d);
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return Val::Int(a.d < b.d);
        case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return Val::Int(a.d <= b.d);
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return Val::Int(a.d > b.d);
        case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return Val::Int(a.d >= b.d);
        default: unsupported("fcmp");
        }
    }
    if (special(a) || special(b)) {
        // infinite against finite: compare with 0 standing for any finite value
        double x = special(a) ? a.d : 0, y = special(b) ? b.d : 0;
        return fcmp(p, Val::Dbl(x), Val::Dbl(y));
    }
    RNode *x = realOf(a), *y = realOf(b);
    switch (p) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return fromExpr(T.eq(x, y));
    case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return fromExpr(!T.eq(x, y));
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return fromExpr(T.lt(x, y));
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return fromExpr(T.le(x, y));
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return fromExpr(T.lt(y, x));
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return fromExpr(T.le(y, x));
    default: unsupported("fcmp");
    }
}
static Val fabsV(const Val& a0)
{
    Val a = asDouble(a0);
    if (a.k == Val::D) return Val::Dbl(std::fabs(a.d));
    RNode* x = realOf(a);
    if (x->op == RNode::CONST) return fromReal(T.constant(mpq_class(abs(x->q))));
    z3::expr c = T.lt(x, T.constant(0.0)).simplify();
    return fromReal(T.ite(c, T.neg(x), x));
}
static Val sqrtV(const Val& a0)
{
    Val a = asDouble(a0);
    if (a.k == Val::D) return Val::Dbl(std::sqrt(a.d));
    RNode* x = realOf(a);
    if (x->op == RNode::CONST) {
        mpz_class n = sqrt(x->q.get_num()), d = sqrt(x->q.get_den());
        if (x->q >= 0 && n * n == x->q.get_num() && d * d == x->q.get_den()) return fromReal(T.constant(mpq_class(n, d)));
        return Val::Dbl(std::sqrt(x->q.get_d()));
    }
    static std::map<uint32_t, RNode*> memo;
    auto it = memo.find(x->id);
    if (it != memo.end()) return Val::Real(it->second);
    RNode* s = T.var("sqrt!" + std::to_string(x->id));
    pc.add(T.le(T.constant(0.0), s));
    pc.add(T.eq(T.mul(s, s), x));
    memo[x->id] = s;
    return Val::Real(s);
}
static Val toInt(const Val& a0, unsigned w, bool sg)
{
    Val a = asDouble(a0);
    if (a.k == Val::D) {
        double t = std::trunc(a.d);
        if (sg ? !(t >= -9.3e18 && t <= 9.3e18) : !(t > -1 && t < 1.85e19))
            hardError("conversion", "float to integer conversion out of range");
        return Val::Int(maskw(sg ? (uint64_t)(int64_t)t : (uint64_t)t, w));
    }
    RNode* x = realOf(a);
    if (x->op == RNode::CONST) {
        mpz_class z = x->q.get_num() / x->q.get_den();
        return Val::Int(maskw((uint64_t)z.get_si(), w));
    }
    for (;;) {
        std::unique_ptr<z3::model> m;
        RNode* probe = T.var("probe!int");
        Res r = pc.check(T.eq(probe, x), branchMs, &m);
        if (r != SAT) unsupported("float to integer: solver gave no answer");
        z3::expr v = m->eval(T.lowerA(probe), true);
        double d = std::stod(ratToDec(v));
        mpq_class k = std::trunc(d);
        z3::expr c(C());
        if (k > 0) c = T.le(T.constant(k), x) && T.lt(x, T.constant(mpq_class(k + 1)));
        else if (k < 0) c = T.lt(T.constant(mpq_class(k - 1)), x) && T.le(x, T.constant(k));
        else c = T.lt(T.constant(-1.0), x) && T.lt(x, T.constant(1.0));
        if (decide(c)) return Val::Int(maskw((uint64_t)(int64_t)k.get_d(), w));
    }
}

// ---------------------------------------------------------------- assertions
static double exprToDouble(const z3::expr& v)
{
    double u = 0;
    try { u = std::stod(ratToDec(v)); } catch (...) {}
    return u;
}
struct NumModel {  // numeric evaluation of terms in a model
    const z3::model& m;
    std::unordered_map<uint32_t, double> cache;
    std::function<double(uint32_t)> at;
    NumModel(const z3::model& m) : m(m)
    {
        at = [this](uint32_t a) {
            auto it = cache.find(a);
            if (it != cache.end()) return it->second;
            double d = exprToDouble(this->m.eval(E(T.atoms[a]), true));
            cache[a] = d;
            return d;
        };
    }
    double frac(const Terms::Poly& num, const std::map<uint32_t, int>& den)
    {
        double v = T.evalP(num, at);
        for (auto& [id, p] : den) v /= std::pow(T.evalP(T.factor(id), at), p);
        return v;
    }
    std::unordered_map<uint32_t, double> vals;
    double value(RNode* top)
    {
        std::vector<RNode*> st{top};
        while (!st.empty()) {
            RNode* n = st.back();
            if (vals.count(n->id)) { st.pop_back(); continue; }
            bool ready = true;
            if (n->a && !vals.count(n->a->id)) { st.push_back(n->a); ready = false; }
            if (n->b && !vals.count(n->b->id)) { st.push_back(n->b); ready = false; }
            if (!ready) continue;
            st.pop_back();
            double a = n->a ? vals[n->a->id] : 0, b = n->b ? vals[n->b->id] : 0, r = 0;
            switch (n->op) {
            case RNode::CONST: r = n->q.get_d(); break;
            case RNode::VAR: r = exprToDouble(m.eval(C().real_const(n->name.c_str()), true)); break;
            case RNode::ADD: r = a + b; break;
            case RNode::SUB: r = a - b; break;
            case RNode::MUL: r = a * b; break;
            case RNode::DIV: r = a / b; break;
            case RNode::NEG: r = -a; break;
            case RNode::ITE: r = m.eval(E(n->cond), true).is_true() ? a : b; break;
            }
            vals[n->id] = r;
        }
        return vals[top->id];
    }
};
static std::string modelPair(RNode* a, RNode* b, const z3::model& m)
{
    NumModel nm(m);
    char buf[128];
    snprintf(buf, sizeof buf, "%.12g vs %.12g", nm.value(a), nm.value(b));
    return buf;
}
// an equality to decide: num/den of the difference; coefficients that are pure rounding noise are split off
struct EqGoal {
    Pending p;
    Terms::Diff d;
    Terms::Poly main;
    bool pruned = false;  // num == main + noise, with |noise/den| < tol shown
};
static std::map<uint32_t, double> denLower;  // divisor -> shown lower bound of its absolute value (path condition only grows)
static double divisorLower(uint32_t id)
{
    auto it = denLower.find(id);
    if (it != denLower.end()) return it->second;
    z3::expr f = T.toZ3(T.factor(id));
    double r = 0;
    for (double b : {1e-2, 1e-5}) {
        z3::expr small = f < z3q(fromDouble(b)) && f > z3q(fromDouble(-b));
        if (pc.check(small, 4000) == UNSAT) { r = b; break; }
    }
    denLower[id] = r;
    return r;
}
static EqGoal mkGoal(const Pending& p)
{
    EqGoal g{p, T.diff(p.a, p.b), {}, false};
    mpq_class cut = fromDouble(1e-11);
    Terms::Poly noise;
    for (auto& [m, q] : g.d.num) {
        if (abs(q) < cut) noise[m] = q;
        else g.main[m] = q;
    }
    if (noise.empty()) return g;
    double eps = T.bound(noise), lower = 1;
    if (!std::isfinite(eps)) { g.main = g.d.num; return g; }
    for (auto& [id, k] : g.d.den) lower *= std::pow(divisorLower(id), k);
    if (eps < p.tol * lower * 0.999) g.pruned = true;
    else g.main = g.d.num;
    return g;
}
// candidate counterexamples first: cached models of the path, models for both sides of the conditions in the
// terms, and variations of their reals; a candidate counts only after every path constraint was evaluated in it
struct Candidates {
    struct One {
        z3::model m;
        std::unique_ptr<NumModel> nm;
        int ok = -1;  // path constraints hold: unknown, no, yes
        One(const z3::model& x) : m(x) {}
    };
    std::vector<std::unique_ptr<One>> all;
    static void conds(RNode* top, std::vector<Z3_ast>& out, std::set<uint32_t>& seen)
    {
        std::vector<RNode*> st{top};
        while (!st.empty() && out.size() < 6) {
            RNode* n = st.back();
            st.pop_back();
            if (!n || !seen.insert(n->id).second) continue;
            if (n->op == RNode::ITE) {
                bool have = false;
                for (auto c : out) have |= c == n->cond;
                if (!have) out.push_back(n->cond);
            }
            st.push_back(n->a);
            st.push_back(n->b);
        }
    }
    void vary(const z3::model& base)
    {
        unsigned seed = 777;
        auto rnd = [&]() { seed = seed * 1103515245 + 12345; return seed >> 16; };
        for (int attempt = 0; attempt < 10; ++attempt) {
            z3::model m(C(), Z3_mk_model(C()));
            for (auto& in : inputs) {
                z3::expr e = E(in.e);
                if (e.num_args() == 2) e = e.arg(1);  // zero-extended narrow symbol
                if (!e.is_const()) continue;
                z3::expr v = base.eval(e, true);
                z3::func_decl fd = e.decl();
                if (in.type == 'r' && attempt > 0 && v.is_numeral()) {
                    double lo = atof(in.lo.c_str()), hi = atof(in.hi.c_str());
                    double y = exprToDouble(v);
                    if (attempt < 4) {
                        double noise = ((int)(rnd() % 33) - 16) / 16.0 * (attempt == 1 ? 0.125 : attempt == 2 ? 0.25 : 0.5);
                        y += noise * std::min(1.0, hi - lo);
                    } else if (attempt < 8) {
                        bool move = attempt >= 6 || rnd() % 2;
                        if (move) y = std::round((lo + (hi - lo) * (rnd() % 97) / 96.0) * 64) / 64;
                    } else y = attempt == 8 ? lo + (hi - lo) / 64 : hi - (hi - lo) / 64;
                    if (y >= lo && y <= hi) v = z3q(fromDouble(y));
                }
                m.add_const_interp(fd, v);
            }
            all.emplace_back(new One(m));
        }
    }
    Candidates(const std::vector<Pending>& ps)
    {
        for (size_t b = 0; b < pc.cex.size() && b < 2; ++b) vary(pc.cex[b]);
        std::vector<Z3_ast> cs;
        std::set<uint32_t> seen;
        for (auto& p : ps) { conds(p.a, cs, seen); conds(p.b, cs, seen); }
        for (auto c : cs)
            for (int side = 0; side < 2; ++side) {
                z3::expr e = side ? E(c) : !E(c);
                if (!pc.cex.empty() && pc.cex[0].eval(e, true).is_true()) continue;
                std::unique_ptr<z3::model> m;
                if (pc.check(e, 500, &m, true) == SAT) vary(*m);
            }
        for (auto& o : all) o->nm.reset(new NumModel(o->m));
    }
    // from models of the path, along random directions up to the edge of the path condition
    struct Push {};
    Candidates(Push)
    {
        std::vector<z3::model> base;
        for (size_t b = 0; b < pc.cex.size() && b < 2; ++b) base.push_back(pc.cex[b]);
        if (base.empty()) {
            std::unique_ptr<z3::model> m;
            if (pc.check(C().bool_val(true), 3000, &m, true) == SAT) base.push_back(*m);
        }
        unsigned seed = 4242;
        auto rnd = [&]() { seed = seed * 1103515245 + 12345; return seed >> 16; };
        auto start = std::chrono::steady_clock::now();
        for (auto& b : base) {
            for (int dir = 0; dir < 12; ++dir) {
                if (std::chrono::steady_clock::now() - start > std::chrono::seconds(10)) break;
                std::vector<double> d;
                for (auto& in : inputs) {
                    (void)in;
                    double x = ((int)(rnd() % 33) - 16) / 16.0;
                    d.push_back(dir % 3 && rnd() % (dir % 3 == 1 ? 2 : 6) ? 0 : x);
                }
                double t = 1;
                for (int k = 0; k < 40; ++k, t /= 2) {
                    z3::model m(C(), Z3_mk_model(C()));
                    bool moved = false, inside = true;
                    for (size_t i = 0; i < inputs.size() && inside; ++i) {
                        auto& in = inputs[i];
                        z3::expr e = E(in.e);
                        if (e.num_args() == 2) e = e.arg(1);
                        if (!e.is_const()) continue;
                        z3::expr v = b.eval(e, true);
                        z3::func_decl fd = e.decl();
                        if (in.type == 'r' && d[i] != 0 && v.is_numeral()) {
                            double lo = atof(in.lo.c_str()), hi = atof(in.hi.c_str());
                            double y = exprToDouble(v) + t * d[i] * (hi - lo);
                            if (!(y >= lo && y <= hi)) inside = false;
                            v = z3q(fromDouble(y));
                            moved = true;
                        }
                        m.add_const_interp(fd, v);
                    }
                    if (!moved) break;
                    if (!inside) continue;
                    bool ok = true;
                    for (auto& c : pc.cs)
                        if (!m.eval(c.e, true).is_true()) { ok = false; break; }
                    if (!ok) continue;
                    all.emplace_back(new One(m));
                    all.back()->ok = 1;
                    break;
                }
            }
        }
        for (auto& o : all) o->nm.reset(new NumModel(o->m));
    }
    bool refutes(const Pending& p)
    {
        double big = std::max(1e-6, p.tol * 100);
        for (auto& o : all) {
            if (!o->ok) continue;
            double df = o->nm->value(p.a) - o->nm->value(p.b);
            if (!(std::fabs(df) > big)) continue;
            if (o->ok < 0) {
                o->ok = 1;
                for (auto& c : pc.cs)
                    if (!o->m.eval(c.e, true).is_true()) { o->ok = 0; break; }
                if (!o->ok) continue;
            }
            SH->q_sat++;
            reportViolation("assert", p.msg + " (" + modelPair(p.a, p.b, o->m) + ")", modelInputs(o->m));
            return true;
        }
        return false;
    }
};
static z3::expr goalNe(const EqGoal& g) { return T.toZ3(g.main) != 0; }
// decides one equality within the tolerance
static void decideEq(const EqGoal& g)
{
    const Pending& p = g.p;
    std::unique_ptr<z3::model> m;
    Res r = pc.check(goalNe(g), assertMs, nullptr);
    if (r == UNSAT) { SH->discharged++; if (g.pruned) SH->byTolerance++; return; }
    // difference beyond the tolerance
    double margins[2] = {std::max(1e-3, p.tol * 10), p.tol};
    for (double mg : margins) {
        z3::expr big = T.beyond(g.d, fromDouble(mg));
        r = pc.check(big, assertMs, &m, true);
        if (r == SAT) {
            reportViolation("assert", p.msg + " (" + modelPair(p.a, p.b, *m) + ")", modelInputs(*m));
            return;
        }
        if (r == UNSAT) {
            if (mg == p.tol) { SH->discharged++; SH->byTolerance++; return; }
            continue;
        }
        // the solver gave no answer: let it decide instances with most inputs fixed
        unsigned seed = 12345;
        for (int attempt = 0; attempt < 6; ++attempt) {
            z3::expr fix = big;
            int nreal = 0;
            for (auto& in : inputs) nreal += in.type == 'r';
            for (auto& in : inputs) {
                if (in.type != 'r') continue;
                seed = seed * 1103515245 + 12345;
                if (attempt < 3 && (int)((seed >> 16) % nreal) < 2) continue;
                double lo = atof(in.lo.c_str()), hi = atof(in.hi.c_str());
                seed = seed * 1103515245 + 12345;
                double f = ((seed >> 16) % 97) / 97.0;
                double val = std::round((lo + (hi - lo) * f) * 16) / 16;
                fix = fix && E(in.e) == z3q(fromDouble(val));
            }
            r = pc.check(fix, 10000, &m, true);
            if (r == SAT) {
                reportViolation("assert", p.msg + " (" + modelPair(p.a, p.b, *m) + ")", modelInputs(*m));
                return;
            }
        }
        if (mg != p.tol) break;
    }
    SH->assertUnknown++;
    emit("{\"type\":\"unknown\",\"entry\":\"" + entryName + "\",\"msg\":\"" + jesc(p.msg) + "\"}");
}
static std::set<std::string> failedMsgs;
// ---- equalities of guarded sums: monomial -> coefficients that apply under a condition
typedef std::vector<std::pair<mpq_class, Z3_ast>> Coefs;
typedef std::map<Terms::Mono, Coefs, Terms::MonoLess> GPoly;
static std::unordered_map<uint32_t, char> hasIteMemo;
static bool hasIte(RNode* n)
{
    if (n->op == RNode::ITE) return true;
    if (n->op == RNode::CONST || n->op == RNode::VAR) return false;
    auto it = hasIteMemo.find(n->id);
    if (it != hasIteMemo.end()) return it->second;
    bool r = (n->a && hasIte(n->a)) || (n->b && hasIte(n->b));
    hasIteMemo[n->id] = r;
    return r;
}
struct TooBig {};
static std::unordered_map<uint32_t, GPoly*> gMemo;
static Z3_ast gAnd(Z3_ast a, Z3_ast b) { return keep((E(a) && E(b)).simplify()); }
static const GPoly& gpoly(RNode* n)
{
    auto it = gMemo.find(n->id);
    if (it != gMemo.end()) return *it->second;
    GPoly* r = new GPoly();
    auto put = [&](const Terms::Mono& m, const mpq_class& c, Z3_ast g) {
        if (c == 0 || E(g).is_false()) return;
        auto& v = (*r)[m];
        v.push_back({c, g});
        if (v.size() > 64) throw TooBig();
    };
    static Z3_ast tt = keep(C().bool_val(true));
    if (!hasIte(n)) {
        for (auto& t : T.poly(n)) put(t.first, t.second, tt);
    } else switch (n->op) {
    case RNode::ADD: case RNode::SUB: {
        const GPoly &a = gpoly(n->a), &b = gpoly(n->b);
        *r = a;
        for (auto& t : b)
            for (auto& e : t.second) {
                mpq_class c = n->op == RNode::SUB ? mpq_class(-e.first) : e.first;
                // the same condition: add up
                auto& v = (*r)[t.first];
                bool done = false;
                for (size_t k = 0; k < v.size(); ++k)
                    if (v[k].second == e.second) {
                        v[k].first += c;
                        if (v[k].first == 0) v.erase(v.begin() + k);
                        done = true;
                        break;
                    }
                if (!done) put(t.first, c, e.second);
            }
        for (auto i = r->begin(); i != r->end();) i = i->second.empty() ? r->erase(i) : std::next(i);
        break;
    }
    case RNode::NEG:
        for (auto& t : gpoly(n->a))
            for (auto& e : t.second) put(t.first, -e.first, e.second);
        break;
    case RNode::MUL: {
        const GPoly &a = gpoly(n->a), &b = gpoly(n->b);
        if (a.size() * b.size() > 4096) throw TooBig();
        for (auto& t : a)
            for (auto& u : b) {
                Terms::Mono m = t.first + u.first;
                std::sort(m.begin(), m.end());
                for (auto& e : t.second)
                    for (auto& f : u.second) put(m, e.first * f.first, e.second == tt ? f.second : f.second == tt ? e.second : gAnd(e.second, f.second));
            }
        break;
    }
    case RNode::ITE: {
        const GPoly &a = gpoly(n->a), &b = gpoly(n->b);
        z3::expr c = E(n->cond);
        auto i = a.begin();
        auto j = b.begin();
        Terms::MonoLess less;
        static const Coefs none;
        while (i != a.end() || j != b.end()) {
            bool ua = i != a.end() && (j == b.end() || !less(j->first, i->first));
            bool ub = j != b.end() && (i == a.end() || !less(i->first, j->first));
            const Terms::Mono& m = ua ? i->first : j->first;
            const Coefs &x = ua ? i->second : none, &y = ub ? j->second : none;
            std::vector<char> used(y.size(), 0);
            for (auto& e : x) {
                int pick = -1;
                for (size_t k = 0; k < y.size() && pick < 0; ++k)
                    if (!used[k] && y[k].first == e.first && y[k].second == e.second) pick = k;
                for (size_t k = 0; k < y.size() && pick < 0; ++k)
                    if (!used[k] && y[k].first == e.first) pick = k;
                if (pick >= 0) {
                    used[pick] = 1;
                    put(m, e.first, y[pick].second == e.second ? e.second : keep(z3::ite(c, E(e.second), E(y[pick].second)).simplify()));
                } else put(m, e.first, gAnd(n->cond, e.second));
            }
            for (size_t k = 0; k < y.size(); ++k)
                if (!used[k]) put(m, y[k].first, keep((!c && E(y[k].second)).simplify()));
            if (ua) ++i;
            if (ub) ++j;
        }
        break;
    }
    default:
        for (auto& t : T.poly(n)) put(t.first, t.second, tt);
    }
    if (r->size() > 5000) throw TooBig();
    gMemo[n->id] = r;
    return *r;
}
// condition under which some coefficient differs (false: equal, monomial by monomial)
static z3::expr guardedNe(RNode* a, RNode* b)
{
    GPoly d = gpoly(a);
    for (auto& t : gpoly(b))
        for (auto& e : t.second) d[t.first].push_back({-e.first, e.second});
    z3::expr_vector ors(C());
    for (auto& t : d) {
        // cancel equal conditions
        Coefs v;
        for (auto& e : t.second) {
            bool done = false;
            for (auto& x : v)
                if (x.second == e.second) { x.first += e.first; done = true; break; }
            if (!done) v.push_back(e);
        }
        Coefs w;
        for (auto& e : v)
            if (e.first != 0) w.push_back(e);
        if (w.empty()) continue;
        if (w.size() == 1) ors.push_back(E(w[0].second));
        else if (w.size() == 2 && w[0].first == -w[1].first) ors.push_back(E(w[0].second) != E(w[1].second));
        else {
            // count in multiples of the first coefficient, as bit-vectors where they are small integers
            mpq_class g = abs(w[0].first);
            for (auto& e : w) if (abs(e.first) < g) g = abs(e.first);
            bool small = true;
            long tot = 0;
            for (auto& e : w) {
                mpq_class q = e.first / g;
                small = small && q.get_den() == 1 && abs(q) < 100;
                if (small) tot += std::labs(q.get_num().get_si());
            }
            if (!small || tot > 500) {
                z3::expr sum = z3q(0);
                for (auto& e : w) sum = sum + z3::ite(E(e.second), z3q(e.first), z3q(0));
                ors.push_back(sum != z3q(0));
            } else {
                z3::expr sum = bvval(0, 11);
                for (auto& e : w) {
                    long q = mpq_class(e.first / g).get_num().get_si();
                    sum = sum + z3::ite(E(e.second), bvval((uint64_t)(q & 2047), 11), bvval(0, 11));
                }
                ors.push_back(sum != bvval(0, 11));
            }
        }
    }
    return z3::mk_or(ors);
}
static void flushAsserts()
{
    if (pending.empty()) return;
    std::vector<Pending> ps;
    ps.swap(pending);
    // reachability of this point
    std::vector<Pending> eqs, bools;
    for (auto& p : ps) (p.isEq ? eqs : bools).push_back(p);
    // (1) equalities that are identities (quotients opaque, no path condition), in batches
    std::vector<Pending> rest0;
    for (size_t i = 0; i < eqs.size(); i += 64) {
        size_t j = std::min(eqs.size(), i + 64), n = 0;
        z3::expr_vector ds(C());
        std::vector<Pending> cand;
        for (size_t k = i; k < j; ++k) {
            Terms::Poly d = T.polyO(eqs[k].a);
            Terms::addTo(d, T.polyO(eqs[k].b), -1);
            if (!d.empty() && !eqs[k].a->hasDiv && !eqs[k].b->hasDiv) { rest0.push_back(eqs[k]); continue; }
            if (!d.empty()) {
                d = T.poly(eqs[k].a);
                Terms::addTo(d, T.poly(eqs[k].b), -1);
            }
            if (!d.empty()) { rest0.push_back(eqs[k]); continue; }
            ds.push_back(T.toZ3(d) != 0);
            cand.push_back(eqs[k]);
            ++n;
        }
        if (!n) continue;
        z3::solver s(C());
        s.add(z3::mk_or(ds));
        if (timedCheck(s, 3000) == UNSAT) {
            SH->discharged += n;
            SH->byIdentity += n;
        } else rest0.insert(rest0.end(), cand.begin(), cand.end());
    }
    // (1a) refuted by a candidate
    if (!rest0.empty()) {
        Candidates cs(rest0);
        std::vector<Pending> left;
        for (auto& p : rest0) {
            if (failedMsgs.count(p.msg)) continue;
            if (cs.refutes(p)) {
                failedMsgs.insert(p.msg);
                if (SH->stop) finishProcess();
            } else left.push_back(p);
        }
        rest0.swap(left);
    }
    // (1b) sums that depend on conditions: coefficient by coefficient
    {
        std::vector<Pending> rest1;
        std::vector<std::pair<Pending, z3::expr>> cand;
        for (auto& p : rest0) {
            if (!hasIte(p.a) && !hasIte(p.b)) { rest1.push_back(p); continue; }
            try {
                cand.push_back({p, guardedNe(p.a, p.b)});
            }
            catch (TooBig&) {
                rest1.push_back(p);
            }
        }
        std::function<void(size_t, size_t)> go = [&](size_t i, size_t j) {
            if (i >= j) return;
            z3::expr_vector ds(C());
            for (size_t k = i; k < j; ++k) ds.push_back(cand[k].second);
            Res r = pc.check(z3::mk_or(ds), j - i > 1 ? 4000 : 8000);
            if (r == UNSAT) {
                SH->discharged += j - i;
                SH->byGuards += j - i;
            } else if (j - i == 1) rest1.push_back(cand[i].first);
            else {
                size_t m = (i + j) / 2;
                go(i, m);
                go(m, j);
            }
        };
        for (size_t i = 0; i < cand.size(); i += 64) go(i, std::min(cand.size(), i + 64));
        rest0.swap(rest1);
    }
    // (2) remaining equalities, quotients eliminated, under the path condition: batches, then one by one
    std::unique_ptr<Candidates> pushed;
    for (size_t i = 0; i < rest0.size(); i += 32) {
        size_t j = std::min(rest0.size(), i + 32);
        std::vector<EqGoal> rest;
        bool done = false;
        for (size_t k = i; k < j; ++k) {
            rest.push_back(mkGoal(rest0[k]));
        }
        if (!rest.empty()) {
            z3::expr_vector ds(C());
            size_t tol = 0;
            for (auto& g : rest) { ds.push_back(goalNe(g)); tol += g.pruned; }
            if (pc.check(z3::mk_or(ds), 8000) == UNSAT) {
                SH->discharged += rest.size();
                SH->byTolerance += tol;
                done = true;
            }
        }
        if (!done) {
            for (auto& g : rest) {
                if (failedMsgs.count(g.p.msg)) continue;
                if (!pushed) pushed.reset(new Candidates(Candidates::Push()));
                uint64_t v0 = SH->violations;
                if (!pushed->refutes(g.p)) decideEq(g);
                if (SH->violations > v0) failedMsgs.insert(g.p.msg);
                if (SH->stop) finishProcess();
            }
        }
    }
    // (3) boolean assertions
    for (size_t i = 0; i < bools.size(); i += 64) {
        size_t j = std::min(bools.size(), i + 64);
        z3::expr_vector ds(C());
        for (size_t k = i; k < j; ++k) ds.push_back(!E(bools[k].c));
        Res r = pc.check(z3::mk_or(ds), assertMs);
        if (r == UNSAT) { SH->discharged += j - i; continue; }
        for (size_t k = i; k < j; ++k) {
            if (failedMsgs.count(bools[k].msg)) continue;
            uint64_t v0 = SH->violations, u0 = SH->assertUnknown;
            if (reportUnder("assert", bools[k].msg, !E(bools[k].c))) {
                if (SH->violations > v0) failedMsgs.insert(bools[k].msg);
                (void)u0;
            } else SH->discharged++;
            if (SH->stop) finishProcess();
        }
    }
}
static void samplePath()
{
    if (SH->models++ >= sampleLimit) return;
    std::unique_ptr<z3::model> m;
    Res r = SAT;
    if (!pc.cex.empty()) m.reset(new z3::model(pc.cex[0]));
    else r = pc.check(C().bool_val(true), 20000, &m, true);
    if (r != SAT) {
        if (r == UNSAT) emit("{\"type\":\"note\",\"entry\":\"" + entryName + "\",\"msg\":\"path condition unsatisfiable\"}");
        SH->models--;
        return;
    }
    SH->covers++;
    std::string vals;
    NumModel nm(*m);
    int n = 0;
    for (auto& sv : sampleVals) {
        if (++n > 60) break;
        auto ev = [&](RNode* x) {
            double v = nm.value(x);
            char buf[64];
            snprintf(buf, sizeof buf, "%.15g", std::isfinite(v) ? v : 0.0);
            return std::string(buf);
        };
        vals += (vals.empty() ? "" : ",") + ("[\"" + jesc(sv.first) + "\"," + ev(sv.second.first) + "," + ev(sv.second.second) + "]");
    }
    emit("{\"type\":\"sample\",\"entry\":\"" + entryName + "\",\"inputs\":" + modelInputs(*m) + ",\"values\":[" + vals + "]}");
}

// ---------------------------------------------------------------- constants, globals, compilation
static Val evalConst(const Constant* c);
static uint64_t globalAddr(const GlobalValue* g)
{
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    if (auto* f = dyn_cast<Function>(g)) {
        static uint64_t next = 0x1000;
        uint64_t a = next;
        next += 16;
        gaddr[g] = a;
        faddr[a] = const_cast<Function*>(f);
        return a;
    }
    if (auto* al = dyn_cast<GlobalAlias>(g)) {
        uint64_t a = globalAddr(cast<GlobalValue>(al->getAliasee()->stripPointerCasts()));
        gaddr[g] = a;
        return a;
    }
    auto* gv = cast<GlobalVariable>(g);
    uint64_t sz = gv->getValueType()->isSized() ? DL->getTypeAllocSize(gv->getValueType()).getFixedValue() : 8;
    bool ext = gv->isDeclaration();
    if (ext && sz < 512) sz = 512;
    uint64_t a = alloc(sz, "global " + gv->getName().str(), true);
    findObj(a)->external = ext;
    gaddr[g] = a;
    if (gv->getName().starts_with("_ZTI")) typeName[a] = gv->getName().str();
    return a;
}
static void writeConst(Obj* o, uint64_t off, const Constant* c)
{
    Type* t = c->getType();
    uint64_t sz = DL->getTypeStoreSize(t).getFixedValue();
    if (isa<ConstantAggregateZero>(c) || c->isNullValue()) {
        memset(&o->data[off], 0, sz);
        memset(&o->flag[off], 1, sz);
        return;
    }
    if (isa<UndefValue>(c)) { memset(&o->flag[off], 1, sz); return; }
    if (auto* s = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = DL->getTypeAllocSize(s->getElementType()).getFixedValue();
        for (unsigned k = 0; k < s->getNumElements(); ++k) writeConst(o, off + k * es, s->getElementAsConstant(k));
        return;
    }
    if (auto* a = dyn_cast<ConstantArray>(c)) {
        uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType()).getFixedValue();
        for (unsigned k = 0; k < a->getNumOperands(); ++k) writeConst(o, off + k * es, a->getOperand(k));
        return;
    }
    if (auto* s = dyn_cast<ConstantStruct>(c)) {
        auto* sl = DL->getStructLayout(s->getType());
        for (unsigned k = 0; k < s->getNumOperands(); ++k) writeConst(o, off + sl->getElementOffset(k).getFixedValue(), s->getOperand(k));
        return;
    }
    storeObj(o, off, evalConst(c), sz);
}
static Val evalConst(const Constant* c)
{
    if (auto* i = dyn_cast<ConstantInt>(c)) {
        if (i->getBitWidth() > 64) {
            if (i->getValue().getActiveBits() <= 64) return Val::Int(i->getValue().getZExtValue());
            return Val();
        }
        return Val::Int(i->getZExtValue());
    }
    if (auto* f = dyn_cast<ConstantFP>(c)) {
        if (f->getType()->isDoubleTy()) return Val::Dbl(f->getValueAPF().convertToDouble());
        if (f->getType()->isFloatTy()) return Val::Dbl((double)f->getValueAPF().convertToFloat());
        return Val();
    }
    if (isa<ConstantPointerNull>(c)) return Val::Int(0);
    if (isa<UndefValue>(c)) {
        if (auto* st = dyn_cast<StructType>(c->getType())) return Val::Agg(new std::vector<Val>(st->getNumElements()));
        return Val();
    }
    if (auto* g = dyn_cast<GlobalValue>(c)) return Val::Int(globalAddr(g));
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
        switch (e->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            if (cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) {
                Val b = evalConst(e->getOperand(0));
                return Val::Int(b.i + off.getSExtValue());
            }
            break;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast:
            return evalConst(e->getOperand(0));
        case Instruction::Sub: return Val::Int(evalConst(e->getOperand(0)).i - evalConst(e->getOperand(1)).i);
        case Instruction::Add: return Val::Int(evalConst(e->getOperand(0)).i + evalConst(e->getOperand(1)).i);
        case Instruction::Trunc: return Val::Int(maskw(evalConst(e->getOperand(0)).i, e->getType()->getIntegerBitWidth()));
        }
        return Val();
    }
    if (isa<ConstantAggregateZero>(c)) {
        if (auto* st = dyn_cast<StructType>(c->getType())) {
            auto* v = new std::vector<Val>();
            for (unsigned k = 0; k < st->getNumElements(); ++k) v->push_back(evalConst(Constant::getNullValue(st->getElementType(k))));
            return Val::Agg(v);
        }
        return Val();
    }
    if (auto* s = dyn_cast<ConstantStruct>(c)) {
        auto* v = new std::vector<Val>();
        for (unsigned k = 0; k < s->getNumOperands(); ++k) v->push_back(evalConst(s->getOperand(k)));
        return Val::Agg(v);
    }
    return Val();
}

static int handlerFor(const std::string& n);
static FuncInfo* getFI(Function* F)
{
    auto it = finfo.find(F);
    if (it != finfo.end()) return it->second;
    FuncInfo* fi = new FuncInfo();
    fi->F = F;
    fi->name = F->getName().str();
    fi->index = fis.size();
    fis.push_back(fi);
    finfo[F] = fi;
    return fi;
}
static void compile(FuncInfo* fi)
{
    fi->compiled = true;
    std::unordered_map<const Value*, int> slot;
    int n = 0;
    for (auto& a : fi->F->args()) slot[&a] = n++;
    fi->nargs = n;
    for (auto& b : *fi->F)
        for (auto& I : b)
            if (!I.getType()->isVoidTy()) slot[&I] = n++;
    fi->nregs = n;
    int bi = 0;
    for (auto& b : *fi->F) fi->bidx[&b] = bi++;
    std::unordered_map<const Value*, int> cslot;
    auto opIdx = [&](const Value* v) -> int {
        auto s = slot.find(v);
        if (s != slot.end()) return s->second;
        auto c = cslot.find(v);
        if (c != cslot.end()) return c->second;
        int k = -(int)fi->consts.size() - 1;
        if (auto* cc = dyn_cast<Constant>(v)) fi->consts.push_back(evalConst(cc));
        else fi->consts.push_back(Val());
        cslot[v] = k;
        return k;
    };
    for (auto& b : *fi->F) {
        Blk bl;
        bl.first = fi->code.size();
        bl.firstNonPhi = -1;
        for (auto& I : b) {
            Ins x;
            x.I = &I;
            x.opc = I.getOpcode();
            x.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
            Type* t = I.getType();
            auto setTy = [&](Type* ty) {
                if (ty->isIntegerTy()) { x.ty = 0; x.bits = ty->getIntegerBitWidth(); x.size = (x.bits + 7) / 8; }
                else if (ty->isPointerTy()) { x.ty = 0; x.bits = 64; x.size = 8; }
                else if (ty->isDoubleTy()) { x.ty = 1; x.bits = 64; x.size = 8; }
                else if (ty->isFloatTy()) { x.ty = 3; x.bits = 32; x.size = 4; }
                else if (ty->isStructTy() || ty->isArrayTy()) { x.ty = 2; x.size = DL->getTypeStoreSize(ty).getFixedValue(); }
                else { x.ty = 3; }
            };
            setTy(t);
            if (auto* p = dyn_cast<PHINode>(&I)) {
                (void)p;
                bl.phiIns.push_back(fi->code.size());
                // operands by predecessor: stored flat [pred, op]
                for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) {
                    x.ops.push_back(fi->bidx[p->getIncomingBlock(k)]);
                    x.ops.push_back(opIdx(p->getIncomingValue(k)));
                }
                fi->code.push_back(x);
                continue;
            }
            if (bl.firstNonPhi < 0) bl.firstNonPhi = fi->code.size();
            switch (x.opc) {
            case Instruction::Br: {
                auto* br = cast<BranchInst>(&I);
                x.t0 = fi->bidx[br->getSuccessor(0)];
                if (br->isConditional()) {
                    x.t1 = fi->bidx[br->getSuccessor(1)];
                    x.ops.push_back(opIdx(br->getCondition()));
                }
                break;
            }
            case Instruction::Switch: x.ops.push_back(opIdx(cast<SwitchInst>(&I)->getCondition())); x.bits = cast<SwitchInst>(&I)->getCondition()->getType()->getIntegerBitWidth(); break;
            case Instruction::GetElementPtr: {
                auto* g = cast<GetElementPtrInst>(&I);
                x.ops.push_back(opIdx(g->getPointerOperand()));
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                    Value* v = it.getOperand();
                    if (StructType* st = it.getStructTypeOrNull()) {
                        x.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()).getFixedValue();
                    } else {
                        uint64_t sc = DL->getTypeAllocSize(it.getIndexedType()).getFixedValue();
                        if (auto* ci = dyn_cast<ConstantInt>(v)) x.goff += ci->getSExtValue() * (int64_t)sc;
                        else { x.gidx.push_back({opIdx(v), sc}); x.gbits.push_back(v->getType()->getIntegerBitWidth()); }
                    }
                }
                break;
            }
            case Instruction::Call: case Instruction::Invoke: {
                auto* cb = cast<CallBase>(&I);
                for (auto& a : cb->args()) x.ops.push_back(isa<MetadataAsValue>(a.get()) ? opIdx(UndefValue::get(Type::getInt32Ty(M->getContext()))) : opIdx(a.get()));
                Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
                if (auto* f = dyn_cast<Function>(cv)) {
                    x.callee = f;
                    x.handler = handlerFor(f->getName().str());
                    if (x.handler < 0 && !f->isDeclaration()) x.cfi = getFI(f);
                } else x.ops.push_back(opIdx(cv));
                if (auto* iv = dyn_cast<InvokeInst>(&I)) {
                    x.t0 = fi->bidx[iv->getNormalDest()];
                    x.t1 = fi->bidx[iv->getUnwindDest()];
                }
                break;
            }
            case Instruction::Store: {
                auto* s = cast<StoreInst>(&I);
                setTy(s->getValueOperand()->getType());
                x.ops = {opIdx(s->getValueOperand()), opIdx(s->getPointerOperand())};
                break;
            }
            case Instruction::ICmp: {
                Type* ot = I.getOperand(0)->getType();
                x.bits = ot->isPointerTy() ? 64 : (ot->isIntegerTy() ? ot->getIntegerBitWidth() : 0);
                x.ops = {opIdx(I.getOperand(0)), opIdx(I.getOperand(1))};
                break;
            }
            case Instruction::Alloca: {
                auto* a = cast<AllocaInst>(&I);
                x.size = DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue();
                x.ops.push_back(opIdx(a->getArraySize()));
                break;
            }
            case Instruction::LandingPad: break;
            default:
                for (auto& o : I.operands()) x.ops.push_back(opIdx(o.get()));
                if (auto* ci = dyn_cast<CastInst>(&I)) {
                    Type* st = ci->getSrcTy();
                    x.goff = st->isIntegerTy() ? st->getIntegerBitWidth() : 64;
                    x.t0 = st->isDoubleTy();
                }
            }
            fi->code.push_back(x);
        }
        if (bl.firstNonPhi < 0) bl.firstNonPhi = fi->code.size();
        fi->blocks.push_back(bl);
    }
}

// ---------------------------------------------------------------- running
static inline const Val& op(Frame& f, const Ins& x, int k)
{
    int i = x.ops[k];
    return i >= 0 ? f.regs[i] : f.fi->consts[-i - 1];
}
static void pushFrame(FuncInfo* fi, std::vector<Val>&& args)
{
    if (!fi->compiled) compile(fi);
    SH->funcSeen[fi->index / 64 % 512] |= 1ull << (fi->index % 64);
    if (stk.size() > 2000) unsupported("call depth");
    stk.emplace_back();
    Frame& f = stk.back();
    f.fi = fi;
    f.regs.resize(fi->nregs);
    for (size_t k = 0; k < args.size() && (int)k < fi->nargs; ++k) f.regs[k] = args[k];
    f.blk = 0;
    f.prevBlk = -1;
    f.pc = fi->blocks[0].firstNonPhi;
}
static void jump(Frame& f, int blk)
{
    Blk& b = f.fi->blocks[blk];
    f.prevBlk = f.blk;
    f.blk = blk;
    if (!b.phiIns.empty()) {
        Val tmp[64];
        std::vector<Val> big;
        Val* t = tmp;
        if (b.phiIns.size() > 64) { big.resize(b.phiIns.size()); t = big.data(); }
        int n = 0;
        for (int pi : b.phiIns) {
            Ins& x = f.fi->code[pi];
            bool ok = false;
            for (size_t k = 0; k < x.ops.size(); k += 2)
                if (x.ops[k] == f.prevBlk) {
                    int i = x.ops[k + 1];
                    t[n] = i >= 0 ? f.regs[i] : f.fi->consts[-i - 1];
                    ok = true;
                    break;
                }
            if (!ok) unsupported("phi without matching predecessor");
            ++n;
        }
        n = 0;
        for (int pi : b.phiIns) f.regs[f.fi->code[pi].dst] = t[n++];
    }
    f.pc = b.firstNonPhi;
}
static void freeFrame(Frame& f)
{
    for (uint64_t a : f.allocas) {
        auto it = objs.find(a);
        if (it != objs.end()) {
            it->second->alive = false;
            it->second->data.clear();
            it->second->flag.clear();
            it->second->ov.clear();
            it->second->data.shrink_to_fit();
            it->second->flag.shrink_to_fit();
        }
    }
}
// deliver a result to the pending call instruction of the top frame
static void deliver(const Val& v)
{
    Frame& f = stk.back();
    Ins& x = f.fi->code[f.pc];
    if (x.dst >= 0) f.regs[x.dst] = v;
    if (x.opc == Instruction::Invoke) jump(f, x.t0);
    else ++f.pc;
}
static bool typeMatches(const std::string& thrown, const std::string& clause)
{
    if (thrown == clause) return true;
    if (clause == "_ZTISt9exception") return thrown.rfind("_ZTISt", 0) == 0;
    if (clause == "_ZTISt13runtime_error") return thrown == "_ZTISt11range_error" || thrown == "_ZTISt14overflow_error" || thrown == "_ZTISt15underflow_error";
    if (clause == "_ZTISt11logic_error") return thrown == "_ZTISt12out_of_range" || thrown == "_ZTISt12length_error" || thrown == "_ZTISt16invalid_argument" || thrown == "_ZTISt12domain_error";
    if (clause == "_ZTISt9bad_alloc") return thrown == "_ZTISt20bad_array_new_length";
    return false;
}
static int typeId(const std::string& n)
{
    static std::map<std::string, int> ids;
    auto it = ids.find(n);
    if (it != ids.end()) return it->second;
    int k = ids.size() + 1;
    ids[n] = k;
    return k;
}
static uint64_t excObj = 0;
static std::string excType;
static bool outermostReached = false;
static void unwind(size_t floor)
{
    // the top frame's current instruction raised excObj/excType
    while (stk.size() > floor) {
        Frame& f = stk.back();
        Ins& x = f.fi->code[f.pc];
        if (x.opc == Instruction::Invoke) {
            const BasicBlock* bb = cast<InvokeInst>(x.I)->getUnwindDest();
            auto* lp = bb->getLandingPadInst();
            int sel = 0;
            bool enter = lp->isCleanup();
            for (unsigned k = 0; k < lp->getNumClauses(); ++k) {
                if (!lp->isCatch(k)) { enter = true; continue; }
                Constant* c = lp->getClause(k);
                if (c->isNullValue()) { enter = true; sel = 999; break; }
                std::string cn = cast<GlobalValue>(c->stripPointerCasts())->getName().str();
                if (typeMatches(excType, cn)) { enter = true; sel = typeId(cn); break; }
            }
            if (enter) {
                f.excPtr = Val::Int(excObj);
                f.excSel = sel;
                jump(f, x.t1);
                return;
            }
        }
        freeFrame(f);
        stk.pop_back();
    }
    outermostReached = true;
}
static void throwStd(const std::string& ty, const std::string& what)
{
    excObj = alloc(64, "exception", true);
    excType = ty;
    lastWhat = what;
    unwind(0);
}
static std::string readStr(const Val& p)
{
    std::string r;
    if (p.k != Val::I) return "?";
    uint64_t a = p.i;
    for (int k = 0; k < 400; ++k) {
        Obj* o = findObj(a + k);
        if (!o || !o->alive || a + k - o->base >= o->size) break;
        if (o->flag[a + k - o->base] != 1) break;
        char c = o->data[a + k - o->base];
        if (!c) break;
        r += c;
    }
    return r;
}

enum H : int {
    H_NEW = 1, H_NEWALIGN, H_DELETE, H_MALLOC, H_CALLOC, H_REALLOC, H_FREE, H_POSIX_MEMALIGN, H_ALIGNED_ALLOC,
    H_MEMCPY, H_MEMSET, H_MEMCMP, H_STRLEN, H_MEMCHR,
    H_CXA_ALLOC, H_CXA_FREE, H_CXA_THROW, H_CXA_BEGIN, H_CXA_END, H_CXA_RETHROW, H_STD_THROW, H_ABORT, H_RTERR, H_NOP, H_RET_ARG0,
    H_GUARD_ACQ, H_SQRT, H_FABS, H_FLOOR, H_CEIL, H_TRUNC, H_ROUND, H_POW, H_MATH1, H_FMA, H_FMIN, H_FMAX, H_COPYSIGN,
    H_UMULO, H_UADDO, H_USUBO, H_SMULO, H_SADDO, H_SSUBO, H_UMIN, H_UMAX, H_SMIN, H_SMAX, H_ABS, H_CTPOP, H_CTLZ, H_CTTZ, H_BSWAP, H_FSHL, H_FSHR, H_USUBSAT, H_UADDSAT, H_ISCONST, H_EXPECT,
    H_OBJSIZE, H_TYPEID, H_TRAP, H_VSNPRINTF, H_SCMP, H_LROUND, H_POWI, H_STACKSAVE,
    H_SYM_U64, H_SYM_REAL, H_SYM_BOOL, H_SYM_CONC, H_SYM_ASSUME, H_SYM_ASSERT, H_SYM_EQ, H_SYM_EQTOL, H_SYM_EQU, H_SYM_ISSYM, H_ISFPCLASS, H_SYM_NOTE, H_SYM_ITE, H_SYM_ITEU,
    H_OMP_FORK, H_OMP_INIT, H_OMP_FINI, H_OMP_BARRIER, H_OMP_GTID, H_SYM_THREADS, H_SYM_IEEE, H_OMP_LOCK, H_OMP_UNLOCK, H_OMP_REDUCE, H_OMP_SIZE, H_OMP_PAR, H_OMP_SKIP, H_OMP_SINGLE, H_OMP_DINIT, H_OMP_DNEXT
};
static int handlerFor(const std::string& n)
{
    static const std::unordered_map<std::string, int> t = {
        {"_Znwm", H_NEW}, {"_Znam", H_NEW}, {"_ZnwmRKSt9nothrow_t", H_NEW}, {"_ZnamRKSt9nothrow_t", H_NEW},
        {"_ZnwmSt11align_val_t", H_NEWALIGN}, {"_ZnamSt11align_val_t", H_NEWALIGN},
        {"_ZdlPv", H_DELETE}, {"_ZdlPvm", H_DELETE}, {"_ZdaPv", H_DELETE}, {"_ZdaPvm", H_DELETE},
        {"_ZdlPvSt11align_val_t", H_DELETE}, {"_ZdlPvmSt11align_val_t", H_DELETE}, {"_ZdaPvSt11align_val_t", H_DELETE},
        {"malloc", H_MALLOC}, {"calloc", H_CALLOC}, {"realloc", H_REALLOC}, {"free", H_FREE},
        {"posix_memalign", H_POSIX_MEMALIGN}, {"aligned_alloc", H_ALIGNED_ALLOC},
        {"memcpy", H_MEMCPY}, {"memmove", H_MEMCPY}, {"memset", H_MEMSET}, {"memcmp", H_MEMCMP}, {"bcmp", H_MEMCMP},
        {"strlen", H_STRLEN}, {"memchr", H_MEMCHR},
        {"__cxa_allocate_exception", H_CXA_ALLOC}, {"__cxa_free_exception", H_CXA_FREE}, {"__cxa_throw", H_CXA_THROW},
        {"__cxa_begin_catch", H_CXA_BEGIN}, {"__cxa_end_catch", H_CXA_END}, {"__cxa_rethrow", H_CXA_RETHROW},
        {"_ZSt9terminatev", H_ABORT}, {"abort", H_ABORT}, {"__assert_fail", H_ABORT}, {"__clang_call_terminate", H_ABORT},
        {"__cxa_atexit", H_NOP}, {"__cxa_guard_acquire", H_GUARD_ACQ}, {"__cxa_guard_release", H_NOP}, {"__cxa_guard_abort", H_NOP},
        {"sqrt", H_SQRT}, {"fabs", H_FABS}, {"floor", H_FLOOR}, {"ceil", H_CEIL}, {"trunc", H_TRUNC}, {"round", H_ROUND}, {"pow", H_POW},
        {"lround", H_LROUND}, {"llround", H_LROUND}, {"lrint", H_LROUND},
        {"sin", H_MATH1}, {"cos", H_MATH1}, {"tan", H_MATH1}, {"exp", H_MATH1}, {"log", H_MATH1}, {"log10", H_MATH1}, {"log2", H_MATH1}, {"asin", H_MATH1}, {"acos", H_MATH1}, {"atan", H_MATH1}, {"cbrt", H_MATH1},
        {"fmin", H_FMIN}, {"fmax", H_FMAX}, {"fma", H_FMA}, {"copysign", H_COPYSIGN},
        {"vsnprintf", H_VSNPRINTF}, {"snprintf", H_VSNPRINTF},
        {"sym_u64", H_SYM_U64}, {"sym_real", H_SYM_REAL}, {"sym_realh", H_SYM_REAL}, {"sym_bool", H_SYM_BOOL}, {"sym_concretize", H_SYM_CONC},
        {"sym_assume", H_SYM_ASSUME}, {"sym_assert", H_SYM_ASSERT}, {"sym_eq", H_SYM_EQ}, {"sym_eqtol", H_SYM_EQTOL}, {"sym_equ", H_SYM_EQU}, {"sym_symbolic", H_SYM_ISSYM}, {"sym_note", H_SYM_NOTE}, {"sym_ite", H_SYM_ITE}, {"sym_iteu", H_SYM_ITEU},
        {"__kmpc_fork_call", H_OMP_FORK}, {"__kmpc_for_static_init_8u", H_OMP_INIT}, {"__kmpc_for_static_init_8", H_OMP_INIT}, {"__kmpc_for_static_init_4", H_OMP_INIT}, {"__kmpc_for_static_init_4u", H_OMP_INIT},
        {"__kmpc_for_static_fini", H_OMP_FINI}, {"__kmpc_barrier", H_OMP_BARRIER}, {"__kmpc_global_thread_num", H_OMP_GTID}, {"omp_get_thread_num", H_OMP_GTID},
        {"omp_get_num_threads", H_OMP_SIZE}, {"omp_get_max_threads", H_OMP_SIZE}, {"omp_get_num_procs", H_OMP_SIZE}, {"omp_in_parallel", H_OMP_PAR},
        {"omp_set_num_threads", H_OMP_SKIP}, {"__kmpc_push_num_threads", H_OMP_SKIP}, {"__kmpc_flush", H_OMP_SKIP},
        {"__kmpc_single", H_OMP_SINGLE}, {"__kmpc_end_single", H_OMP_SKIP}, {"__kmpc_master", H_OMP_SINGLE}, {"__kmpc_end_master", H_OMP_SKIP}, {"__kmpc_masked", H_OMP_SINGLE}, {"__kmpc_end_masked", H_OMP_SKIP},
        {"__kmpc_dispatch_init_8u", H_OMP_DINIT}, {"__kmpc_dispatch_init_8", H_OMP_DINIT}, {"__kmpc_dispatch_init_4", H_OMP_DINIT}, {"__kmpc_dispatch_init_4u", H_OMP_DINIT},
        {"__kmpc_dispatch_next_8u", H_OMP_DNEXT}, {"__kmpc_dispatch_next_8", H_OMP_DNEXT}, {"__kmpc_dispatch_next_4", H_OMP_DNEXT}, {"__kmpc_dispatch_next_4u", H_OMP_DNEXT},
        {"__kmpc_critical", H_OMP_LOCK}, {"__kmpc_critical_with_hint", H_OMP_LOCK}, {"__kmpc_end_critical", H_OMP_UNLOCK},
        {"__kmpc_reduce", H_OMP_REDUCE}, {"__kmpc_reduce_nowait", H_OMP_REDUCE}, {"__kmpc_end_reduce", H_OMP_UNLOCK}, {"__kmpc_end_reduce_nowait", H_OMP_UNLOCK},
        {"sym_threads", H_SYM_THREADS}, {"sym_ieee", H_SYM_IEEE},
    };
    auto it = t.find(n);
    if (it != t.end()) return it->second;
    auto pre = [&](const char* p) { return n.rfind(p, 0) == 0; };
    if (pre("llvm.")) {
        auto p2 = [&](const char* p) { return pre((std::string("llvm.") + p).c_str()); };
        if (p2("lifetime") || p2("dbg") || p2("experimental.noalias") || p2("invariant") || p2("assume") || p2("prefetch") || p2("donothing") || p2("stackrestore") || p2("var.annotation")) return H_NOP;
        if (p2("stacksave")) return H_STACKSAVE;
        if (p2("memcpy") || p2("memmove")) return H_MEMCPY;
        if (p2("memset")) return H_MEMSET;
        if (p2("umul.with")) return H_UMULO;
        if (p2("uadd.with")) return H_UADDO;
        if (p2("usub.with")) return H_USUBO;
        if (p2("smul.with")) return H_SMULO;
        if (p2("sadd.with")) return H_SADDO;
        if (p2("ssub.with")) return H_SSUBO;
        if (p2("umin")) return H_UMIN;
        if (p2("umax")) return H_UMAX;
        if (p2("smin")) return H_SMIN;
        if (p2("smax")) return H_SMAX;
        if (p2("abs.")) return H_ABS;
        if (p2("fabs")) return H_FABS;
        if (p2("sqrt")) return H_SQRT;
        if (p2("floor")) return H_FLOOR;
        if (p2("ceil")) return H_CEIL;
        if (p2("trunc")) return H_TRUNC;
        if (p2("round.")) return H_ROUND;
        if (p2("powi")) return H_POWI;
        if (p2("pow.")) return H_POW;
        if (p2("fmuladd") || p2("fma")) return H_FMA;
        if (p2("minnum")) return H_FMIN;
        if (p2("maxnum")) return H_FMAX;
        if (p2("copysign")) return H_COPYSIGN;
        if (p2("ctpop")) return H_CTPOP;
        if (p2("ctlz")) return H_CTLZ;
        if (p2("cttz")) return H_CTTZ;
        if (p2("bswap")) return H_BSWAP;
        if (p2("fshl")) return H_FSHL;
        if (p2("fshr")) return H_FSHR;
        if (p2("usub.sat")) return H_USUBSAT;
        if (p2("uadd.sat")) return H_UADDSAT;
        if (p2("is.constant")) return H_ISCONST;
        if (p2("is.fpclass")) return H_ISFPCLASS;
        if (p2("expect")) return H_EXPECT;
        if (p2("objectsize")) return H_OBJSIZE;
        if (p2("eh.typeid.for")) return H_TYPEID;
        if (p2("trap")) return H_TRAP;
        if (p2("launder") || p2("strip.invariant") || p2("threadlocal.address") || p2("ptr.annotation")) return H_RET_ARG0;
        return -1;
    }
    Function* F = M->getFunction(n);
    if (pre("_ZN2xt") && (n.find("throw_broadcast_error") != std::string::npos || n.find("throw_concatenate_error") != std::string::npos)) return H_STD_THROW;  // (without formatting the message)
    if (F && F->isDeclaration()) {
        if (pre("_ZSt") && n.find("__throw_") != std::string::npos) return H_STD_THROW;
        if (n.find("runtime_errorC") != std::string::npos || n.find("logic_errorC") != std::string::npos ||
            n.find("out_of_rangeC") != std::string::npos || n.find("invalid_argumentC") != std::string::npos ||
            n.find("length_errorC") != std::string::npos || n.find("domain_errorC") != std::string::npos || n.find("range_errorC") != std::string::npos) return H_RTERR;
        if (pre("_ZNSt8ios_base4Init")) return H_NOP;
        if (pre("_ZNSo") || pre("_ZStls") || pre("_ZSt16__ostream_insert") || pre("_ZSt4endl")) return H_RET_ARG0;
        if (pre("_ZNSt") && (n.find("errorD") != std::string::npos || n.find("exceptionD") != std::string::npos || n.find("argumentD") != std::string::npos || n.find("rangeD") != std::string::npos || n.find("bad_allocD") != std::string::npos)) return H_NOP;
        if (n == "_ZNKSt13runtime_error4whatEv" || n == "_ZNKSt9exception4whatEv" || n == "_ZNKSt11logic_error4whatEv") return H_RET_ARG0;
    }
    return -1;
}

static Val shiftRes(unsigned opc, const Val& a, const Val& b, unsigned w)
{
    if (a.k == Val::I && b.k == Val::I) {
        uint64_t x = maskw(a.i, w), s = maskw(b.i, w);
        if (s >= w) return Val();
        if (opc == Instruction::Shl) return Val::Int(maskw(x << s, w));
        if (opc == Instruction::LShr) return Val::Int(x >> s);
        return Val::Int(maskw((uint64_t)(sext(x, w) >> s), w));
    }
    z3::expr x = bvOf(a, w), y = bvOf(b, w);
    if (opc == Instruction::Shl) return fromExpr(z3::shl(x, y));
    if (opc == Instruction::LShr) return fromExpr(z3::lshr(x, y));
    return fromExpr(z3::ashr(x, y));
}
static Val ibin(unsigned opc, const Val& a, const Val& b, unsigned w)
{
    if (opc == Instruction::Shl || opc == Instruction::LShr || opc == Instruction::AShr) return shiftRes(opc, a, b, w);
    if (a.k == Val::I && b.k == Val::I && w <= 64) {
        uint64_t x = maskw(a.i, w), y = maskw(b.i, w);
        switch (opc) {
        case Instruction::Add: return Val::Int(maskw(x + y, w));
        case Instruction::Sub: return Val::Int(maskw(x - y, w));
        case Instruction::Mul: return Val::Int(maskw(x * y, w));
        case Instruction::And: return Val::Int(x & y);
        case Instruction::Or: return Val::Int(x | y);
        case Instruction::Xor: return Val::Int(x ^ y);
        default: break;
        }
        if (y == 0) hardError("arithmetic", "integer division by zero");
        switch (opc) {
        case Instruction::UDiv: return Val::Int(x / y);
        case Instruction::URem: return Val::Int(x % y);
        case Instruction::SDiv: return Val::Int(maskw((uint64_t)(sext(x, w) / sext(y, w)), w));
        case Instruction::SRem: return Val::Int(maskw((uint64_t)(sext(x, w) % sext(y, w)), w));
        }
        unsupported("integer op");
    }
    if (w > 64) unsupported("wide integer");
    // fp bit tricks: xor with the sign bit = negation, and with the complement = fabs
    if (a.k == Val::R || b.k == Val::R) {
        const Val& r = a.k == Val::R ? a : b;
        const Val& c = a.k == Val::R ? b : a;
        if (c.k == Val::I && opc == Instruction::Xor && c.i == 1ull << 63) return fromReal(T.neg(r.r));
        if (c.k == Val::I && opc == Instruction::And && c.i == ~(1ull << 63)) return fabsV(r);
    }
    if (w == 1) {
        z3::expr x = boolOf(a), y = boolOf(b);
        switch (opc) {
        case Instruction::And: return fromExpr(x && y);
        case Instruction::Or: return fromExpr(x || y);
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return fromExpr(x != y);
        case Instruction::Mul: return fromExpr(x && y);
        default: unsupported("i1 op");
        }
    }
    if (a.k == Val::U && b.k == Val::U) return Val();
    z3::expr x = bvOf(a, w), y = bvOf(b, w);
    switch (opc) {
    case Instruction::Add: return fromExpr(x + y);
    case Instruction::Sub: return fromExpr(x - y);
    case Instruction::Mul: return fromExpr(x * y);
    case Instruction::And: return fromExpr(x & y);
    case Instruction::Or: return fromExpr(x | y);
    case Instruction::Xor: return fromExpr(x ^ y);
    }
    if (decide(y == bvval(0, w))) hardError("arithmetic", "integer division by zero");
    switch (opc) {
    case Instruction::UDiv: return fromExpr(z3::udiv(x, y));
    case Instruction::URem: return fromExpr(z3::urem(x, y));
    case Instruction::SDiv: return fromExpr(x / y);
    case Instruction::SRem: return fromExpr(z3::srem(x, y));
    }
    unsupported("integer op");
}
static Val icmp(CmpInst::Predicate p, const Val& a, const Val& b, unsigned w)
{
    if (w == 0) unsupported("icmp on vectors");
    if (a.k == Val::I && b.k == Val::I) {
        uint64_t x = maskw(a.i, w), y = maskw(b.i, w);
        int64_t sx = sext(x, w), sy = sext(y, w);
        switch (p) {
        case CmpInst::ICMP_EQ: return Val::Int(x == y);
        case CmpInst::ICMP_NE: return Val::Int(x != y);
        case CmpInst::ICMP_UGT: return Val::Int(x > y);
        case CmpInst::ICMP_UGE: return Val::Int(x >= y);
        case CmpInst::ICMP_ULT: return Val::Int(x < y);
        case CmpInst::ICMP_ULE: return Val::Int(x <= y);
        case CmpInst::ICMP_SGT: return Val::Int(sx > sy);
        case CmpInst::ICMP_SGE: return Val::Int(sx >= sy);
        case CmpInst::ICMP_SLT: return Val::Int(sx < sy);
        case CmpInst::ICMP_SLE: return Val::Int(sx <= sy);
        default: unsupported("icmp");
        }
    }
    if (a.k == Val::R || b.k == Val::R || a.k == Val::D || b.k == Val::D) {
        // comparison of bit patterns of reals: only (in)equality is meaningful
        if (p == CmpInst::ICMP_EQ) return fcmp(CmpInst::FCMP_OEQ, a, b);
        if (p == CmpInst::ICMP_NE) return fcmp(CmpInst::FCMP_UNE, a, b);
        // sign bit (there is no negative zero among the reals)
        if (p == CmpInst::ICMP_SLT && b.k == Val::I && b.i == 0) return fcmp(CmpInst::FCMP_OLT, a, Val::Dbl(0.0));
        if (p == CmpInst::ICMP_SGT && b.k == Val::I && maskw(b.i, w) == maskw(~0ull, w)) return fcmp(CmpInst::FCMP_OGE, a, Val::Dbl(0.0));
        unsupported("ordering of floating-point bit patterns");
    }
    if (w == 1) {
        z3::expr x = boolOf(a), y = boolOf(b);
        if (p == CmpInst::ICMP_EQ) return fromExpr(x == y);
        if (p == CmpInst::ICMP_NE) return fromExpr(x != y);
        x = bvOf(a, 1);
        y = bvOf(b, 1);
    }
    z3::expr x = bvOf(a, w), y = bvOf(b, w);
    if (w <= 64) {
        Rng rx = irange(x), ry = irange(y);
        if (CmpInst::isSigned(p) && rx.hi <= maxw(w) >> 1 && ry.hi <= maxw(w) >> 1) p = CmpInst::getUnsignedPredicate(p);
        uint64_t k;
        uint64_t k2;
        if (numeral(x, k) && !numeral(y, k2)) {
            std::swap(x, y);
            std::swap(rx, ry);
            p = CmpInst::getSwappedPredicate(p);
        }
        if (numeral(y, k)) {
            switch (p) {
            case CmpInst::ICMP_EQ: return fromExpr(eqc(x, k));
            case CmpInst::ICMP_NE: return fromExpr(!eqc(x, k));
            case CmpInst::ICMP_ULT: return fromExpr(ltc(x, k));
            case CmpInst::ICMP_UGE: return fromExpr(!ltc(x, k));
            case CmpInst::ICMP_ULE: if (k != maxw(w)) return fromExpr(ltc(x, k + 1)); else return Val::Int(1);
            case CmpInst::ICMP_UGT: if (k != maxw(w)) return fromExpr(!ltc(x, k + 1)); else return Val::Int(0);
            default: break;
            }
        }
        switch (p) {
        case CmpInst::ICMP_EQ: if (rx.hi < ry.lo || ry.hi < rx.lo) return Val::Int(0); break;
        case CmpInst::ICMP_NE: if (rx.hi < ry.lo || ry.hi < rx.lo) return Val::Int(1); break;
        case CmpInst::ICMP_ULT: if (rx.hi < ry.lo) return Val::Int(1); if (rx.lo >= ry.hi) return Val::Int(0); break;
        case CmpInst::ICMP_ULE: if (rx.hi <= ry.lo) return Val::Int(1); if (rx.lo > ry.hi) return Val::Int(0); break;
        case CmpInst::ICMP_UGT: if (rx.lo > ry.hi) return Val::Int(1); if (rx.hi <= ry.lo) return Val::Int(0); break;
        case CmpInst::ICMP_UGE: if (rx.lo >= ry.hi) return Val::Int(1); if (rx.hi < ry.lo) return Val::Int(0); break;
        default: break;
        }
    }
    switch (p) {
    case CmpInst::ICMP_EQ: return fromExpr(x == y);
    case CmpInst::ICMP_NE: return fromExpr(x != y);
    case CmpInst::ICMP_UGT: return fromExpr(z3::ugt(x, y));
    case CmpInst::ICMP_UGE: return fromExpr(z3::uge(x, y));
    case CmpInst::ICMP_ULT: return fromExpr(z3::ult(x, y));
    case CmpInst::ICMP_ULE: return fromExpr(z3::ule(x, y));
    case CmpInst::ICMP_SGT: return fromExpr(x > y);
    case CmpInst::ICMP_SGE: return fromExpr(x >= y);
    case CmpInst::ICMP_SLT: return fromExpr(x < y);
    case CmpInst::ICMP_SLE: return fromExpr(x <= y);
    default: unsupported("icmp");
    }
}

// ---------------------------------------------------------------- OpenMP regions
static int ompThreads = 0, ompThread = -1, ompPhase = 0, ompLoop = 0;
static std::map<std::pair<int, int>, std::vector<uint64_t>> ompSplits;
struct Acc { uint64_t lo, hi; bool w, at; };
static std::map<int, std::vector<Acc>> ompAcc[8];  // thread -> phase -> accesses
static uint64_t ompBase = 0;                       // objects below existed before the region
static int ompLocked = 0;                          // inside a critical section or a reduction
static void ompRecord(uint64_t a, uint64_t n, bool w, bool at = false)
{
    if (a >= ompBase) return;
    at = at || ompLocked;
    auto& v = ompAcc[ompThread][ompPhase];
    if (!v.empty() && v.back().lo == a && v.back().hi == a + n && v.back().w == w && v.back().at == at) return;
    v.push_back({a, a + n, w, at});
}
static void ompCheck()
{
    for (int t = 0; t < ompThreads; ++t)
        for (auto& [ph, v] : ompAcc[t])
            for (int u = t + 1; u < ompThreads; ++u) {
                auto it = ompAcc[u].find(ph);
                if (it == ompAcc[u].end()) continue;
                using Set = std::map<uint64_t, uint64_t>;
                Set s[4];  // plain read, plain write, synchronised read, synchronised write
                for (auto& a : v) { auto& e = s[a.w + 2 * a.at][a.lo]; e = std::max(e, a.hi); }
                auto overlaps = [](Set& m, const Acc& a) {
                    auto j = m.upper_bound(a.hi - 1);
                    if (j == m.begin()) return false;
                    --j;
                    return j->second > a.lo;
                };
                for (auto& a : it->second) {
                    if (overlaps(s[1], a) || (a.w && overlaps(s[0], a)) || (!a.at && overlaps(s[3], a)) || (!a.at && a.w && overlaps(s[2], a))) {
                        Obj* o = findObj(a.lo);
                        flushAsserts();
                        reportUnder("race", "two threads access the same memory of " + (o ? o->what : std::string("?")) + ", at least one writing", C().bool_val(true));
                        endPath("error");
                    }
                }
            }
    for (auto& m : ompAcc) m.clear();
}
// the iterations of the current loop that the current thread does: any division in consecutive blocks
static uint64_t concretizeNamed(const std::string& name, uint64_t lo, uint64_t hi);
static std::tuple<int64_t, int64_t, int64_t> ompDyn;
static void ompBlock(int64_t slo, int64_t sup, int64_t& a, int64_t& b)
{
    auto key = std::make_pair(0, ompLoop++);
    if (!ompSplits.count(key)) {
        std::vector<uint64_t> s;
        int64_t cur = slo;
        s.push_back(cur);
        for (int t = 1; t < ompThreads; ++t) {
            cur = sup >= slo ? (int64_t)concretizeNamed("omp_split", cur, sup + 1) : cur;
            s.push_back(cur);
        }
        s.push_back(std::max(sup + 1, cur));
        ompSplits[key] = s;
    }
    auto& s = ompSplits[key];
    int t = ompThread < 0 ? 0 : ompThread;
    a = ompThread < 0 ? slo : (int64_t)s[t];
    b = ompThread < 0 ? sup : (int64_t)s[t + 1] - 1;
    if (a > b) { a = sup + 1; b = sup; }  // (as the runtime does: bounds are compared unsigned)
}
// a cached model stays total: values for new symbols
static z3::expr narrowSym(const std::string& nm, uint64_t lo, uint64_t hi)
{
    unsigned w = 1;
    while (w < 64 && (hi >> w)) ++w;
    z3::expr x = C().bv_const(nm.c_str(), w);
    symRange[hold(x)] = {lo, hi};
    if (!pc.hintInit && pc.cex.empty()) {
        pc.hintInit = true;
        if (pc.cs.empty()) pc.cex.push_back(z3::model(C(), Z3_mk_model(C())));
    }
    for (auto& m : pc.cex) {
        z3::func_decl fd = x.decl();
        z3::expr v = bvval(lo, w);
        m.add_const_interp(fd, v);
    }
    if (lo) pc.add(z3::uge(x, bvval(lo, w)));
    if (hi != maxw(w)) pc.add(z3::ule(x, bvval(hi, w)));
    return w < 64 ? z3::zext(x, 64 - w).simplify() : x;
}
static uint64_t concretizeNamed(const std::string& name, uint64_t lo, uint64_t hi)
{
    if (lo == hi) return lo;
    int n = inputCount[name]++;
    std::string nm = n ? name + "#" + std::to_string(n) : name;
    z3::expr e = narrowSym(nm, lo, hi);
    inputs.push_back({nm, 'u', keep(e), std::to_string(lo), std::to_string(hi)});
    return concretize(Val::Sym(keep(e)), 64);
}

static void run(size_t floor);

static bool callHandler(Frame& f, Ins& x)
{
    // returns true when control flow was already transferred
    auto A = [&](int k) -> const Val& { return op(f, x, k); };
    auto ret = [&](const Val& v) { deliver(v); return true; };
    auto conc = [&](int k) { return concretize(A(k), 64); };
    Type* rt = x.I->getType();
    unsigned w = rt->isIntegerTy() ? rt->getIntegerBitWidth() : 64;
    switch (x.handler) {
    case H_NOP: return ret(rt->isIntegerTy() ? Val::Int(0) : Val());
    case H_RET_ARG0: return ret(A(0));
    case H_NEW: case H_MALLOC: case H_NEWALIGN: {
        Val a0 = A(0);
        uint64_t n = concretize(a0, 64);
        if (n > (1ull << 40) && x.handler == H_NEW) { throwStd("_ZTISt9bad_alloc", "bad_alloc"); return true; }
        return ret(Val::Int(alloc(n, "heap block of " + std::to_string(n) + " bytes allocated in " + where().substr(0, 200))));
    }
    case H_CALLOC: { uint64_t n = conc(0) * conc(1); return ret(Val::Int(alloc(n, "calloc block", true))); }
    case H_ALIGNED_ALLOC: return ret(Val::Int(alloc(conc(1), "aligned block")));
    case H_POSIX_MEMALIGN: {
        uint64_t n = conc(2);
        storeMem(A(0), Val::Int(alloc(n, "aligned block")), 8, false);
        return ret(Val::Int(0));
    }
    case H_REALLOC: {
        uint64_t p = conc(0), n = conc(1);
        uint64_t q = alloc(n, "realloc block");
        if (p) {
            Obj* o = findObj(p);
            if (!o || !o->alive || o->base != p) hardError("memory", "realloc of an invalid pointer");
            copyMem(q, p, std::min<uint64_t>(n, o->size));
            o->alive = false;
        }
        return ret(Val::Int(q));
    }
    case H_DELETE: case H_FREE: {
        uint64_t p = conc(0);
        if (p) {
            auto it = objs.find(p);
            if (it == objs.end()) hardError("memory", "free of an invalid pointer");
            Obj* o = it->second;
            if (!o->alive) hardError("memory", "double free");
            o->alive = false;
            o->data = {};
            o->flag = {};
            o->ov.clear();
        }
        return ret(Val());
    }
    case H_MEMCPY: {
        uint64_t n = conc(2);
        if (n) {
            uint64_t d = conc(0), s = conc(1);
            if (ompThread >= 0) { ompRecord(s, n, false); ompRecord(d, n, true); }
            copyMem(d, s, n);
        }
        return ret(A(0));
    }
    case H_MEMSET: {
        uint64_t n = conc(2);
        if (n) {
            uint64_t d = conc(0);
            Val v = A(1);
            if (ompThread >= 0) ompRecord(d, n, true);
            Obj* o = access(d, n, "write (memset)");
            uint32_t off = d - o->base;
            if (v.k == Val::I) {
                bool anysym = false;
                for (uint64_t k = 0; k < n; ++k) anysym |= o->flag[off + k] == 2;
                if (anysym) splitOverlay(o, off, n);
                memset(&o->data[off], (int)v.i, n);
                memset(&o->flag[off], 1, n);
            } else for (uint64_t k = 0; k < n; ++k) storeObj(o, off + k, v, 1);
        }
        return ret(A(0));
    }
    case H_MEMCMP: {
        uint64_t n = conc(2), p = n ? conc(0) : 0, q = n ? conc(1) : 0;
        if (!n) return ret(Val::Int(0));
        Obj *o1 = access(p, n, "read (memcmp)"), *o2 = access(q, n, "read (memcmp)");
        bool sym = false;
        for (uint64_t k = 0; k < n; ++k) sym |= o1->flag[p - o1->base + k] != 1 || o2->flag[q - o2->base + k] != 1;
        if (!sym) return ret(Val::Int(maskw((uint64_t)(int64_t)memcmp(&o1->data[p - o1->base], &o2->data[q - o2->base], n), 32)));
        z3::expr all = C().bool_val(true);
        uint64_t step = n % 8 == 0 ? 8 : 1;
        for (uint64_t k = 0; k < n; k += step) {
            Val a = loadObj(o1, p - o1->base + k, step), b = loadObj(o2, q - o2->base + k, step);
            Val c = icmp(CmpInst::ICMP_EQ, a, b, step * 8);
            all = all && boolOf(c);
        }
        return ret(fromExpr(z3::ite(all, bvval(0, 32), bvval(1, 32))));  // sign is not modelled for symbolic data
    }
    case H_STRLEN: return ret(Val::Int(readStr(A(0)).size()));
    case H_MEMCHR: {
        uint64_t p = conc(0), n = conc(2);
        int c = (int)conc(1);
        for (uint64_t k = 0; k < n; ++k) {
            Obj* o = access(p + k, 1, "read (memchr)");
            if (o->data[p + k - o->base] == (uint8_t)c) return ret(Val::Int(p + k));
        }
        return ret(Val::Int(0));
    }
    case H_CXA_ALLOC: return ret(Val::Int(alloc(std::max<uint64_t>(64, conc(0)), "exception", true)));
    case H_CXA_FREE: return ret(Val());
    case H_RTERR: {
        // std::runtime_error(const std::string&) or (const char*)
        if (x.callee->arg_size() > 1) {
            bool str = x.callee->getName().contains("basic_string");
            Val s = A(1);
            if (str && s.k == Val::I) s = loadMem(s, 8, false);
            lastWhat = readStr(s);
        }
        return ret(Val());
    }
    case H_CXA_THROW: {
        excObj = conc(0);
        uint64_t ti = conc(1);
        excType = typeName.count(ti) ? typeName[ti] : "?";
        unwind(0);
        return true;
    }
    case H_CXA_RETHROW: unwind(0); return true;
    case H_CXA_BEGIN: return ret(A(0));
    case H_CXA_END: return ret(Val());
    case H_STD_THROW: {
        std::string n = x.callee->getName().str();
        std::string ty = "_ZTISt13runtime_error";
        if (n.find("bad_alloc") != std::string::npos || n.find("bad_array_new") != std::string::npos) ty = "_ZTISt9bad_alloc";
        else if (n.find("out_of_range") != std::string::npos) ty = "_ZTISt12out_of_range";
        else if (n.find("length_error") != std::string::npos) ty = "_ZTISt12length_error";
        else if (n.find("logic_error") != std::string::npos) ty = "_ZTISt11logic_error";
        throwStd(ty, n);
        return true;
    }
    case H_ABORT: case H_TRAP: hardError("abort", "the program aborts (" + x.callee->getName().str() + ")");
    case H_GUARD_ACQ: {
        Val v = loadMem(A(0), 1, false);
        if (v.k == Val::I && v.i) return ret(Val::Int(0));
        storeMem(A(0), Val::Int(1), 1, false);
        return ret(Val::Int(1));
    }
    case H_SQRT: return ret(sqrtV(A(0)));
    case H_FABS: return ret(fabsV(A(0)));
    case H_FLOOR: case H_CEIL: case H_TRUNC: case H_ROUND: {
        Val a = asDouble(A(0));
        if (a.k == Val::D)
            return ret(Val::Dbl(x.handler == H_FLOOR ? std::floor(a.d) : x.handler == H_CEIL ? std::ceil(a.d) : x.handler == H_TRUNC ? std::trunc(a.d) : std::round(a.d)));
        RNode* r = realOf(a);
        RNode* sh = r;
        if (x.handler == H_ROUND) {
            bool neg = decide(T.lt(r, T.constant(0.0)));
            sh = T.add(r, T.constant(neg ? -0.5 : 0.5));
        }
        Val iv = toInt(fromReal(sh), 64, true);
        double k = (double)(int64_t)iv.i;
        if (x.handler == H_FLOOR) { if (decide(T.lt(r, T.constant(k)))) k -= 1; }
        if (x.handler == H_CEIL) { if (decide(T.lt(T.constant(k), r))) k += 1; }
        return ret(Val::Dbl(k));
    }
    case H_LROUND: {
        Val a = asDouble(A(0));
        if (a.k == Val::D) return ret(Val::Int((uint64_t)std::llround(a.d)));
        RNode* r = realOf(a);
        bool neg = decide(T.lt(r, T.constant(0.0)));
        return ret(toInt(fromReal(T.add(r, T.constant(neg ? -0.5 : 0.5))), 64, true));
    }
    case H_POW: case H_POWI: {
        Val a = asDouble(A(0)), b = x.handler == H_POWI ? Val::Dbl((double)(int)concretize(A(1), 32)) : asDouble(A(1));
        if (a.k == Val::D && b.k == Val::D) return ret(Val::Dbl(std::pow(a.d, b.d)));
        if (b.k == Val::D && b.d == std::trunc(b.d) && std::fabs(b.d) <= 16) {
            RNode *r = T.constant(1.0), *base = realOf(a);
            for (int k = 0; k < std::fabs(b.d); ++k) r = T.mul(r, base);
            if (b.d < 0) return ret(fbin(Instruction::FDiv, Val::Dbl(1.0), fromReal(r)));
            return ret(fromReal(r));
        }
        if (b.k == Val::D && b.d == 0.5) return ret(sqrtV(a));
        unsupported("pow with a symbolic exponent");
    }
    case H_MATH1: {
        Val a = asDouble(A(0));
        if (a.k == Val::R && a.r->op == RNode::CONST) a = Val::Dbl(a.r->q.get_d());
        if (a.k != Val::D) unsupported("transcendental function of a symbolic value");
        std::string n = x.callee->getName().str();
        double d = a.d;
        double r = n == "sin" ? sin(d) : n == "cos" ? cos(d) : n == "tan" ? tan(d) : n == "exp" ? exp(d) : n == "log" ? log(d) : n == "log10" ? log10(d) : n == "log2" ? log2(d) : n == "asin" ? asin(d) : n == "acos" ? acos(d) : n == "atan" ? atan(d) : cbrt(d);
        return ret(Val::Dbl(r));
    }
    case H_FMA: return ret(fbin(Instruction::FAdd, fbin(Instruction::FMul, A(0), A(1)), A(2)));
    case H_FMIN: case H_FMAX: {
        Val a = asDouble(A(0)), b = asDouble(A(1));
        Val c = fcmp(CmpInst::FCMP_OLT, a, b);
        bool mn = x.handler == H_FMIN;
        if (c.k == Val::I) return ret((c.i != 0) == mn ? a : b);
        return ret(iteVal(boolOf(c), mn ? a : b, mn ? b : a, 64, true));
    }
    case H_COPYSIGN: {
        Val a = asDouble(A(0)), b = asDouble(A(1));
        if (a.k == Val::D && b.k == Val::D) return ret(Val::Dbl(std::copysign(a.d, b.d)));
        Val m = fabsV(a);
        Val neg = fcmp(CmpInst::FCMP_OLT, b, Val::Dbl(0.0));
        if (neg.k == Val::I) return ret(neg.i ? fbin(Instruction::FSub, Val::Dbl(0.0), m) : m);
        return ret(iteVal(boolOf(neg), fbin(Instruction::FSub, Val::Dbl(0.0), m), m, 64, true));
    }
    case H_UMULO: case H_UADDO: case H_USUBO: case H_SMULO: case H_SADDO: case H_SSUBO: {
        unsigned ww = cast<StructType>(rt)->getElementType(0)->getIntegerBitWidth();
        const Val &a = A(0), &b = A(1);
        auto* v = new std::vector<Val>(2);
        bool mul = x.handler == H_UMULO || x.handler == H_SMULO, add = x.handler == H_UADDO || x.handler == H_SADDO;
        bool sg = x.handler == H_SMULO || x.handler == H_SADDO || x.handler == H_SSUBO;
        (*v)[0] = ibin(mul ? Instruction::Mul : add ? Instruction::Add : Instruction::Sub, a, b, ww);
        if (a.k == Val::I && b.k == Val::I) {
            bool o;
            if (sg) {
                __int128 p = mul ? (__int128)sext(a.i, ww) * sext(b.i, ww) : add ? (__int128)sext(a.i, ww) + sext(b.i, ww) : (__int128)sext(a.i, ww) - sext(b.i, ww);
                o = p != (__int128)sext((uint64_t)p, ww);
            } else {
                __int128 p = mul ? (__int128)((unsigned __int128)maskw(a.i, ww) * maskw(b.i, ww)) : add ? (__int128)maskw(a.i, ww) + maskw(b.i, ww) : (__int128)maskw(a.i, ww) - maskw(b.i, ww);
                o = (unsigned __int128)p >> ww != 0;
            }
            (*v)[1] = Val::Int(o);
        } else {
            z3::expr p = bvOf(a, ww), q = bvOf(b, ww);
            z3::expr ok(C());
            if (mul) ok = sg ? (z3::bvmul_no_overflow(p, q, true) && z3::bvmul_no_underflow(p, q)) : z3::bvmul_no_overflow(p, q, false);
            else if (add) ok = sg ? (z3::bvadd_no_overflow(p, q, true) && z3::bvadd_no_underflow(p, q)) : z3::bvadd_no_overflow(p, q, false);
            else ok = sg ? (z3::bvsub_no_overflow(p, q) && z3::bvsub_no_underflow(p, q, true)) : z3::bvsub_no_underflow(p, q, false);
            (*v)[1] = fromExpr(!ok);
        }
        return ret(Val::Agg(v));
    }
    case H_UMIN: case H_UMAX: case H_SMIN: case H_SMAX: {
        CmpInst::Predicate p = x.handler == H_UMIN ? CmpInst::ICMP_ULT : x.handler == H_UMAX ? CmpInst::ICMP_UGT : x.handler == H_SMIN ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
        Val a = A(0), b = A(1), c = icmp(p, a, b, w);
        if (c.k == Val::I) return ret(c.i ? a : b);
        return ret(iteVal(boolOf(c), a, b, w, false));
    }
    case H_ABS: {
        Val a = A(0), c = icmp(CmpInst::ICMP_SLT, a, Val::Int(0), w), n = ibin(Instruction::Sub, Val::Int(0), a, w);
        if (c.k == Val::I) return ret(c.i ? n : a);
        return ret(iteVal(boolOf(c), n, a, w, false));
    }
    case H_CTPOP: case H_CTLZ: case H_CTTZ: case H_BSWAP: {
        uint64_t v = maskw(concretize(A(0), w), w);
        if (x.handler == H_CTPOP) return ret(Val::Int(__builtin_popcountll(v)));
        if (x.handler == H_CTLZ) return ret(Val::Int(v ? __builtin_clzll(v) - (64 - w) : w));
        if (x.handler == H_CTTZ) return ret(Val::Int(v ? __builtin_ctzll(v) : w));
        return ret(Val::Int(__builtin_bswap64(v) >> (64 - w)));
    }
    case H_FSHL: case H_FSHR: {
        uint64_t s = concretize(A(2), w) % w;
        if (s == 0) return ret(x.handler == H_FSHL ? A(0) : A(1));
        uint64_t l = x.handler == H_FSHL ? s : w - s;
        return ret(ibin(Instruction::Or, shiftRes(Instruction::Shl, A(0), Val::Int(l), w), shiftRes(Instruction::LShr, A(1), Val::Int(w - l), w), w));
    }
    case H_USUBSAT: {
        Val a = A(0), b = A(1), c = icmp(CmpInst::ICMP_ULT, a, b, w), d = ibin(Instruction::Sub, a, b, w);
        if (c.k == Val::I) return ret(c.i ? Val::Int(0) : d);
        return ret(iteVal(boolOf(c), Val::Int(0), d, w, false));
    }
    case H_UADDSAT: {
        Val a = A(0), b = A(1), d = ibin(Instruction::Add, a, b, w), c = icmp(CmpInst::ICMP_ULT, d, a, w);
        if (c.k == Val::I) return ret(c.i ? Val::Int(maskw(~0ull, w)) : d);
        return ret(iteVal(boolOf(c), Val::Int(maskw(~0ull, w)), d, w, false));
    }
    case H_ISCONST: return ret(Val::Int(0));
    case H_EXPECT: return ret(A(0));
    case H_OBJSIZE: return ret(Val::Int(~0ull));
    case H_ISFPCLASS: {
        Val a = asDouble(A(0));
        uint64_t m = concretize(A(1), 32);
        if (a.k != Val::D) {
            // symbolic reals are finite
            return ret(Val::Int((m & 0x3) == 0 && (m & 0x204) == 0 ? 1 : 0));
        }
        bool r = ((m & 3) && std::isnan(a.d)) || ((m & 4) && a.d == -INFINITY) || ((m & 0x200) && a.d == INFINITY) || ((m & 0x1f8) == 0x1f8 && std::isfinite(a.d));
        return ret(Val::Int(r));
    }
    case H_TYPEID: {
        auto* g = dyn_cast<GlobalValue>(cast<CallBase>(x.I)->getArgOperand(0)->stripPointerCasts());
        return ret(Val::Int(g ? typeId(g->getName().str()) : 0));
    }
    case H_STACKSAVE: return ret(Val::Int(0));
    case H_VSNPRINTF: {
        // only used for messages: write an empty string
        bool vs = x.callee->getName() == "vsnprintf";
        (void)vs;
        uint64_t p = conc(0), n = conc(1);
        if (p && n > 1) { storeMem(Val::Int(p), Val::Int('?'), 1, false); storeMem(Val::Int(p + 1), Val::Int(0), 1, false); }
        return ret(Val::Int(1));
    }
    // ---------------------------------------------------------- harness interface
    case H_SYM_U64: case H_SYM_REAL: case H_SYM_BOOL: {
        std::string nm = readStr(A(0));
        int n = inputCount[nm]++;
        if (n) nm += "#" + std::to_string(n);
        if (x.handler == H_SYM_U64) {
            uint64_t lo = conc(1), hi = conc(2);
            if (lo == hi) return ret(Val::Int(lo));
            z3::expr e = narrowSym(nm, lo, hi);
            inputs.push_back({nm, 'u', keep(e), std::to_string(lo), std::to_string(hi)});
            return ret(Val::Sym(keep(e)));
        }
        if (x.handler == H_SYM_BOOL) {
            z3::expr e = C().bool_const(nm.c_str());
            inputs.push_back({nm, 'b', keep(e), "0", "1"});
            return ret(Val::Sym(keep(e)));
        }
        double lo = asDouble(A(1)).d, hi = asDouble(A(2)).d;
        T.varBound[nm] = std::max(std::fabs(lo), std::fabs(hi));
        RNode* v = T.var(nm);
        z3::expr e = T.lowerA(v);
        char l[64], h[64];
        snprintf(l, 64, "%.17g", lo);
        snprintf(h, 64, "%.17g", hi);
        inputs.push_back({nm, 'r', keep(e), l, h});
        // a first candidate model for satisfiability questions: the hint, or a pseudo-random value
        double hint;
        if (x.callee->getName() == "sym_realh") hint = asDouble(A(3)).d;
        else {
            hintSeed = hintSeed * 6364136223846793005ull + 1442695040888963407ull;
            hint = std::round((lo + (hi - lo) * ((hintSeed >> 33) % 1000) / 1000.0) * 32) / 32;
            if (hint < lo || hint > hi) hint = lo;
        }
        z3::func_decl fd = e.decl();
        z3::expr hv = z3q(fromDouble(hint));
        if (!pc.hintInit) {
            pc.hintInit = true;
            if (pc.cex.empty()) {
                std::unique_ptr<z3::model> m;
                if (pc.cs.empty()) pc.cex.push_back(z3::model(C(), Z3_mk_model(C())));
                else if (pc.check(C().bool_val(true), 3000, &m, true) == SAT) pc.cex.push_back(*m);
            }
        }
        if (!pc.cex.empty()) pc.cex[0].add_const_interp(fd, hv);
        pc.add(e >= z3q(fromDouble(lo)));
        pc.add(e <= z3q(fromDouble(hi)));
        return ret(Val::Real(v));
    }
    case H_SYM_CONC: { Val v = A(0); return ret(Val::Int(concretize(v, 64))); }
    case H_SYM_ISSYM: return ret(Val::Int(1));
    case H_SYM_NOTE: return ret(Val());
    case H_SYM_ITE: case H_SYM_ITEU: {
        Val c = A(0);
        if (c.k == Val::I) return ret((c.i & 1) ? A(1) : A(2));
        return ret(iteVal(boolOf(c), A(1), A(2), 64, x.handler == H_SYM_ITE));
    }
    case H_SYM_IEEE: ieee = conc(0) != 0; return ret(Val());
    case H_SYM_THREADS: ompThreads = (int)conc(0); return ret(Val());
    case H_SYM_ASSUME: {
        z3::expr c = boolOf(A(0)).simplify();
        if (c.is_true()) return ret(Val());
        flushAsserts();
        if (c.is_false()) endPath("infeasible");
        if (!pc.cachedSat(c)) {
            Res r = pc.check(c, branchMs);
            if (r == UNSAT) endPath("infeasible");
        }
        pc.add(c);
        return ret(Val());
    }
    case H_SYM_ASSERT: {
        SH->asserts++;
        Val v = A(0);
        std::string msg = readStr(A(1));
        if (v.k == Val::I) {
            if (v.i & 1) { SH->trivially++; return ret(Val()); }
            flushAsserts();
            reportUnder("assert", msg, C().bool_val(true));
            endPath("error");
        }
        pending.push_back({false, nullptr, nullptr, keep(boolOf(v)), msg, 0});
        return ret(Val());
    }
    case H_SYM_EQ: case H_SYM_EQTOL: {
        SH->asserts++;
        Val a = asDouble(A(0)), b = asDouble(A(1));
        double tol = 1e-9;
        if (x.handler == H_SYM_EQTOL) tol = asDouble(A(2)).d;
        std::string msg = readStr(A(x.handler == H_SYM_EQTOL ? 3 : 2));
        if (a.k == Val::U || b.k == Val::U) msg += " [uninitialised value]";
        if (special(a) || special(b)) {
            if (a.k == Val::D && b.k == Val::D && (a.d == b.d)) { SH->trivially++; return ret(Val()); }
            flushAsserts();
            reportUnder("assert", msg + " (not finite)", C().bool_val(true));
            endPath("error");
        }
        RNode *p = realOf(a), *q = realOf(b);
        if (sampleVals.size() < 60) sampleVals.push_back({msg, {p, q}});
        if (p == q) { SH->trivially++; return ret(Val()); }
        if (p->op == RNode::CONST && q->op == RNode::CONST) {
            mpq_class d = abs(p->q - q->q);
            if (d <= fromDouble(tol)) { SH->trivially++; return ret(Val()); }
            flushAsserts();
            char b2[100];
            snprintf(b2, 100, " (%.12g vs %.12g)", p->q.get_d(), q->q.get_d());
            reportUnder("assert", msg + b2, C().bool_val(true));
            if (SH->stop) finishProcess();
            return ret(Val());
        }
        pending.push_back({true, p, q, nullptr, msg, tol});
        return ret(Val());
    }
    case H_SYM_EQU: {
        SH->asserts++;
        Val a = A(0), b = A(1);
        std::string msg = readStr(A(2));
        if (a.k == Val::U || b.k == Val::U) msg += " [uninitialised value]";
        Val c = icmp(CmpInst::ICMP_EQ, a, b, 64);
        if (c.k == Val::I) {
            if (c.i) { SH->trivially++; return ret(Val()); }
            flushAsserts();
            reportUnder("assert", msg + " (" + (a.k == Val::I ? std::to_string(a.i) : "?") + " vs " + (b.k == Val::I ? std::to_string(b.i) : "?") + ")", C().bool_val(true));
            endPath("error");
        }
        pending.push_back({false, nullptr, nullptr, keep(boolOf(c)), msg, 0});
        return ret(Val());
    }
    // ---------------------------------------------------------- OpenMP
    case H_OMP_GTID: return ret(Val::Int(ompThread < 0 ? 0 : ompThread));
    // inside a region: the team; outside: for omp_get_max_threads the size of the next team, else one
    case H_OMP_SIZE: return ret(Val::Int(ompThread < 0 && x.callee->getName() == "omp_get_num_threads" ? 1 : std::max(1, ompThreads)));
    case H_OMP_PAR: return ret(Val::Int(ompThread >= 0 && ompThreads > 1));
    case H_OMP_SKIP: return ret(Val());
    case H_OMP_SINGLE: return ret(Val::Int(ompThread <= 0));
    case H_OMP_FINI: return ret(Val());
    case H_OMP_LOCK: ++ompLocked; return ret(Val());
    case H_OMP_UNLOCK: --ompLocked; return ret(Val());
    case H_OMP_REDUCE: ++ompLocked; return ret(Val::Int(1));
    case H_OMP_BARRIER: ++ompPhase; return ret(Val());
    case H_OMP_FORK: {
        uint64_t fa = conc(2);
        Function* fn = faddr.count(fa) ? faddr[fa] : nullptr;
        if (!fn) unsupported("omp: unknown region");
        FuncInfo* fi = getFI(fn);
        int nt = std::max(1, ompThreads);
        std::vector<Val> rest;
        for (size_t k = 3; k < cast<CallBase>(x.I)->arg_size(); ++k) rest.push_back(A(k));
        uint64_t tids = alloc(4 * nt, "omp thread ids", true);
        ompBase = tids;
        ompSplits.clear();
        int saveThreads = ompThreads;
        ompThreads = nt;
        for (int t = 0; t < nt; ++t) {
            storeMem(Val::Int(tids + 4 * t), Val::Int(t), 4, false);
            ompThread = t;
            ompPhase = 0;
            ompLoop = 0;
            std::vector<Val> args{Val::Int(tids + 4 * t), Val::Int(tids + 4 * t)};
            args.insert(args.end(), rest.begin(), rest.end());
            size_t base = stk.size();
            pushFrame(fi, std::move(args));
            run(base);
            if (outermostReached) hardError("throw", "exception escapes a parallel region: " + lastWhat);
        }
        ompThread = -1;
        ompCheck();
        ompThreads = saveThreads;
        deliver(Val());
        return true;
    }
    case H_OMP_INIT: {
        // (loc, gtid, schedule, plast, plower, pupper, pstride, incr, chunk); one block per thread, whatever the schedule
        bool w8 = x.callee->getName().contains("_8");
        unsigned n = w8 ? 8 : 4;
        uint64_t sched = conc(2);
        if (sched != 34 && sched != 33) unsupported("omp schedule");
        uint64_t pl = conc(4), pu = conc(5), pla = conc(3), ps = conc(6);
        uint64_t lo = concretize(loadMem(Val::Int(pl), n, false), 8 * n), up = concretize(loadMem(Val::Int(pu), n, false), 8 * n);
        int64_t slo = sext(lo, 8 * n), sup = sext(up, 8 * n), a, b;
        ompBlock(slo, sup, a, b);
        storeMem(Val::Int(pl), Val::Int(maskw(a, 8 * n)), n, false);
        storeMem(Val::Int(pu), Val::Int(maskw(b, 8 * n)), n, false);
        storeMem(Val::Int(ps), Val::Int(maskw(std::max<int64_t>(sup - slo + 1, 1), 8 * n)), n, false);
        storeMem(Val::Int(pla), Val::Int(b == sup), 4, false);
        return ret(Val());
    }
    case H_OMP_DINIT: {
        // (loc, gtid, schedule, lower, upper, stride, chunk)
        bool w8 = x.callee->getName().contains("_8");
        int64_t slo = sext(conc(3), w8 ? 64 : 32), sup = sext(conc(4), w8 ? 64 : 32), a, b;
        ompBlock(slo, sup, a, b);
        ompDyn = {a, b, sup};
        return ret(Val());
    }
    case H_OMP_DNEXT: {
        // (loc, gtid, plast, plower, pupper, pstride)
        bool w8 = x.callee->getName().contains("_8");
        unsigned n = w8 ? 8 : 4;
        auto [a, b, sup] = ompDyn;
        ompDyn = {1, 0, 0};
        if (a > b) return ret(Val::Int(0));
        storeMem(Val::Int(conc(2)), Val::Int(b == sup), 4, false);
        storeMem(Val::Int(conc(3)), Val::Int(maskw(a, 8 * n)), n, false);
        storeMem(Val::Int(conc(4)), Val::Int(maskw(b, 8 * n)), n, false);
        storeMem(Val::Int(conc(5)), Val::Int(1), n, false);
        return ret(Val::Int(1));
    }
    }
    unsupported("handler missing for " + x.callee->getName().str());
}

static void run(size_t floor)
{
    while (stk.size() > floor) {
        Frame& f = stk.back();
        Ins& x = f.fi->code[f.pc];
        if (++instrs > maxInstrs) unsupported("instruction budget exhausted");
        switch (x.opc) {
        case Instruction::Br:
            if (x.t1 < 0) { jump(f, x.t0); break; }
            {
                const Val& c = op(f, x, 0);
                bool b;
                if (c.k == Val::I) b = c.i & 1;
                else if (c.k == Val::U) hardError("uninitialised", "branch on an uninitialised value");
                else b = decide(boolOf(c));
                jump(f, b ? x.t0 : x.t1);
            }
            break;
        case Instruction::Switch: {
            auto* s = cast<SwitchInst>(x.I);
            uint64_t v = maskw(concretize(op(f, x, 0), x.bits), x.bits);
            const BasicBlock* d = s->getDefaultDest();
            for (auto& c : s->cases())
                if (c.getCaseValue()->getZExtValue() == v) d = c.getCaseSuccessor();
            jump(f, f.fi->bidx[d]);
            break;
        }
        case Instruction::Ret: {
            Val v;
            if (!x.ops.empty()) v = op(f, x, 0);
            freeFrame(f);
            stk.pop_back();
            if (stk.size() > floor) deliver(v);
            break;
        }
        case Instruction::Unreachable: hardError("undefined", "unreachable code reached");
        case Instruction::Load: {
            if (x.ty == 3 && x.I->getType()->isFloatTy()) {  // constants only (load factors of hash tables)
                Val p = op(f, x, 0);
                uint32_t b = (uint32_t)concretize(loadMem(p, 4, false), 32);
                float fl;
                memcpy(&fl, &b, 4);
                stk.back().regs[x.dst] = Val::Dbl((double)fl);
                ++stk.back().pc;
                break;
            }
            if (x.ty >= 2) {
                if (auto* st = dyn_cast<StructType>(x.I->getType())) {
                    auto* sl = DL->getStructLayout(st);
                    auto* v = new std::vector<Val>();
                    Val p = op(f, x, 0);
                    if (p.k != Val::I) unsupported("aggregate load at symbolic address");
                    for (unsigned k = 0; k < st->getNumElements(); ++k) {
                        Type* et = st->getElementType(k);
                        v->push_back(loadMem(Val::Int(p.i + sl->getElementOffset(k).getFixedValue()), DL->getTypeStoreSize(et).getFixedValue(), et->isDoubleTy()));
                    }
                    f.regs[x.dst] = Val::Agg(v);
                    ++f.pc;
                    break;
                }
                unsupported("load of an unsupported type");
            }
            Val p = op(f, x, 0);
            if (ompThread >= 0) { p = Val::Int(concretize(p, 64)); ompRecord(p.i, x.size, false, cast<LoadInst>(x.I)->isAtomic()); }
            Val v = loadMem(p, x.size, x.ty == 1);
            if (x.bits == 1 && x.ty == 0) {
                if (v.k == Val::I) v.i &= 1;
                else if (v.k == Val::S) v = fromExpr(boolOf(v));
            }
            stk.back().regs[x.dst] = v;
            ++stk.back().pc;
            break;
        }
        case Instruction::Store: {
            Val v = op(f, x, 0), p = op(f, x, 1);
            if (x.ty == 3) {
                if (!x.I->getOperand(0)->getType()->isFloatTy()) unsupported("store of an unsupported type");
                if (v.k != Val::D) unsupported("store of a symbolic float");
                float fl = (float)v.d;
                uint32_t b;
                memcpy(&b, &fl, 4);
                storeMem(p, Val::Int(b), 4, false);
                ++stk.back().pc;
                break;
            }
            if (x.ty == 2) {
                auto* st = dyn_cast<StructType>(x.I->getOperand(0)->getType());
                if (!st || v.k != Val::AGG || p.k != Val::I) unsupported("aggregate store");
                auto* sl = DL->getStructLayout(st);
                for (unsigned k = 0; k < st->getNumElements(); ++k)
                    storeMem(Val::Int(p.i + sl->getElementOffset(k).getFixedValue()), (*v.agg)[k], DL->getTypeStoreSize(st->getElementType(k)).getFixedValue(), st->getElementType(k)->isDoubleTy());
                ++f.pc;
                break;
            }
            if (x.ty == 0 && v.k == Val::I) v.i = maskw(v.i, x.bits);
            if (ompThread >= 0) { p = Val::Int(concretize(p, 64)); ompRecord(p.i, x.size, true, cast<StoreInst>(x.I)->isAtomic()); }
            storeMem(p, v, x.size, x.ty == 1);
            ++stk.back().pc;
            break;
        }
        case Instruction::Alloca: {
            uint64_t n = concretize(op(f, x, 0), 64) * x.size;
            uint64_t a = alloc(n, "local variable in " + demangle(f.fi->name).substr(0, 80));
            stk.back().allocas.push_back(a);
            stk.back().regs[x.dst] = Val::Int(a);
            ++stk.back().pc;
            break;
        }
        case Instruction::GetElementPtr: {
            Val b = op(f, x, 0);
            bool conc = b.k == Val::I;
            for (auto& g : x.gidx) {
                const Val& v = g.first >= 0 ? f.regs[g.first] : f.fi->consts[-g.first - 1];
                conc = conc && v.k == Val::I;
            }
            if (conc) {
                uint64_t a = b.i + x.goff;
                for (size_t k = 0; k < x.gidx.size(); ++k) {
                    auto& g = x.gidx[k];
                    const Val& v = g.first >= 0 ? f.regs[g.first] : f.fi->consts[-g.first - 1];
                    a += (uint64_t)sext(v.i, x.gbits[k]) * g.second;
                }
                f.regs[x.dst] = Val::Int(a);
            } else {
                z3::expr a = bvOf(b, 64) + bvval((uint64_t)x.goff, 64);
                for (size_t k = 0; k < x.gidx.size(); ++k) {
                    auto& g = x.gidx[k];
                    const Val& v = g.first >= 0 ? f.regs[g.first] : f.fi->consts[-g.first - 1];
                    z3::expr i = bvOf(v, x.gbits[k]);
                    if (x.gbits[k] < 64) i = z3::sext(i, 64 - x.gbits[k]);
                    a = a + i * bvval(g.second, 64);
                }
                f.regs[x.dst] = fromExpr(a);
            }
            ++f.pc;
            break;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
        case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            if (x.ty != 0) unsupported("vector integer op");
            Val r = ibin(x.opc, op(f, x, 0), op(f, x, 1), x.bits);
            stk.back().regs[x.dst] = r;
            ++stk.back().pc;
            break;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            if (x.ty != 1) unsupported("non-double floating point");
            Val r = fbin(x.opc, op(f, x, 0), op(f, x, 1));
            stk.back().regs[x.dst] = r;
            ++stk.back().pc;
            break;
        }
        case Instruction::FNeg: {
            Val a = asDouble(op(f, x, 0));
            f.regs[x.dst] = a.k == Val::D ? Val::Dbl(-a.d) : a.k == Val::U ? a : fromReal(T.neg(realOf(a)));
            ++f.pc;
            break;
        }
        case Instruction::ICmp: {
            Val a = op(f, x, 0), b = op(f, x, 1);
            if (a.k == Val::AGG || b.k == Val::AGG) unsupported("icmp aggregate");
            f.regs[x.dst] = icmp(cast<CmpInst>(x.I)->getPredicate(), a, b, x.bits);
            ++f.pc;
            break;
        }
        case Instruction::FCmp:
            f.regs[x.dst] = fcmp(cast<CmpInst>(x.I)->getPredicate(), op(f, x, 0), op(f, x, 1));
            ++f.pc;
            break;
        case Instruction::Select: {
            Val c = op(f, x, 0), a = op(f, x, 1), b = op(f, x, 2);
            if (c.k == Val::I) f.regs[x.dst] = (c.i & 1) ? a : b;
            else if (c.k == Val::U) f.regs[x.dst] = Val();
            else if (x.ty == 2 || special(asDouble(a)) || special(asDouble(b))) {
                bool t = decide(boolOf(c));
                stk.back().regs[x.dst] = t ? a : b;
            } else f.regs[x.dst] = iteVal(boolOf(c), a, b, x.bits, x.ty == 1);
            ++stk.back().pc;
            break;
        }
        case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
            if (x.ty != 0 || x.bits > 64 || x.goff > 64) unsupported("wide integer cast");
            const Val& a = op(f, x, 0);
            unsigned sw = x.goff;
            Val r;
            if (a.k == Val::I) {
                r = x.opc == Instruction::SExt ? Val::Int(maskw((uint64_t)sext(a.i, sw), x.bits)) : Val::Int(maskw(maskw(a.i, sw), x.bits));
            } else if (a.k == Val::U) r = a;
            else if (a.k == Val::S) {
                z3::expr e = E(a.s);
                if (x.opc == Instruction::Trunc) {
                    e = bvOf(a, sw);
                    e = x.bits == 1 ? (e.extract(0, 0) == bvval(1, 1)) : e.extract(x.bits - 1, 0);
                } else if (e.is_bool()) {
                    e = z3::ite(e, bvval(x.opc == Instruction::SExt ? maskw(~0ull, x.bits) : 1, x.bits), bvval(0, x.bits));
                } else e = x.opc == Instruction::ZExt ? z3::zext(e, x.bits - sw) : z3::sext(e, x.bits - sw);
                r = fromExpr(e);
            } else unsupported("cast of a floating-point bit pattern");
            f.regs[x.dst] = r;
            ++f.pc;
            break;
        }
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze:
            f.regs[x.dst] = op(f, x, 0);
            ++f.pc;
            break;
        case Instruction::BitCast: {
            Val a = op(f, x, 0);
            if (x.ty == 1) a = asDouble(a);
            else if (x.ty == 0 && a.k == Val::D) { uint64_t u; memcpy(&u, &a.d, 8); a = Val::Int(u); }
            else if (x.ty >= 2) unsupported("bitcast");
            f.regs[x.dst] = a;
            ++f.pc;
            break;
        }
        case Instruction::UIToFP: case Instruction::SIToFP: {
            if (x.ty != 1) unsupported("int to float");
            Val v = op(f, x, 0);
            if (v.k == Val::U) {  // (a copy of uninitialised memory: only a use of it matters)
                stk.back().regs[x.dst] = v;
                ++stk.back().pc;
                break;
            }
            uint64_t i = concretize(v, x.goff);
            double d = x.opc == Instruction::UIToFP ? (double)maskw(i, x.goff) : (double)sext(i, x.goff);
            stk.back().regs[x.dst] = Val::Dbl(d);
            ++stk.back().pc;
            break;
        }
        case Instruction::FPToUI: case Instruction::FPToSI: {
            Val r = toInt(op(f, x, 0), x.bits, x.opc == Instruction::FPToSI);
            stk.back().regs[x.dst] = r;
            ++stk.back().pc;
            break;
        }
        case Instruction::ExtractValue: {
            auto* e = cast<ExtractValueInst>(x.I);
            Val a = op(f, x, 0);
            for (unsigned i : e->indices()) {
                if (a.k == Val::U) break;
                if (a.k != Val::AGG) unsupported("extractvalue");
                Val t = (*a.agg)[i];
                a = t;
            }
            f.regs[x.dst] = a;
            ++f.pc;
            break;
        }
        case Instruction::InsertValue: {
            auto* e = cast<InsertValueInst>(x.I);
            Val a = op(f, x, 0), v = op(f, x, 1);
            if (e->getNumIndices() != 1) unsupported("nested insertvalue");
            auto* nv = a.k == Val::AGG ? new std::vector<Val>(*a.agg) : new std::vector<Val>(cast<StructType>(x.I->getType())->getNumElements());
            (*nv)[*e->idx_begin()] = v;
            f.regs[x.dst] = Val::Agg(nv);
            ++f.pc;
            break;
        }
        case Instruction::LandingPad: {
            auto* v = new std::vector<Val>{f.excPtr, Val::Int((uint64_t)f.excSel)};
            f.regs[x.dst] = Val::Agg(v);
            ++f.pc;
            break;
        }
        case Instruction::Resume: {
            // continue unwinding in the caller
            freeFrame(f);
            stk.pop_back();
            if (stk.empty()) outermostReached = true;
            else unwind(0);
            break;
        }
        case Instruction::Call: case Instruction::Invoke: {
            if (x.handler >= 0) { callHandler(f, x); break; }
            FuncInfo* cf = x.cfi;
            size_t na = cast<CallBase>(x.I)->arg_size();
            if (!cf) {
                if (x.callee) unsupported("external function " + x.callee->getName().str());
                uint64_t a = concretize(op(f, x, na), 64);
                auto it = faddr.find(a);
                if (it == faddr.end()) hardError("memory", "call through an invalid function pointer");
                int h = handlerFor(it->second->getName().str());
                if (h >= 0 || it->second->isDeclaration()) unsupported("indirect call to external " + it->second->getName().str());
                cf = getFI(it->second);
            }
            std::vector<Val> args(na);
            for (size_t k = 0; k < na; ++k) args[k] = op(f, x, k);
            // byval arguments are copied
            auto* cb = cast<CallBase>(x.I);
            std::vector<uint64_t> copies;
            for (size_t k = 0; k < na; ++k)
                if (cb->isByValArgument(k)) {
                    uint64_t n = DL->getTypeAllocSize(cb->getParamByValType(k)).getFixedValue();
                    uint64_t c = alloc(n, "by-value argument");
                    copyMem(c, args[k].i, n);
                    args[k] = Val::Int(c);
                    copies.push_back(c);
                }
            pushFrame(cf, std::move(args));
            for (auto c : copies) stk.back().allocas.push_back(c);
            break;
        }
        case Instruction::Fence: ++f.pc; break;
        case Instruction::AtomicRMW: {  // executed as one step
            auto* r = cast<AtomicRMWInst>(x.I);
            bool real = r->getType()->isDoubleTy();
            Val p = op(f, x, 0), v = op(f, x, 1);
            if (ompThread >= 0) { p = Val::Int(concretize(p, 64)); ompRecord(p.i, x.size, true, true); }
            Val o = loadMem(p, x.size, real), n;
            switch (r->getOperation()) {
            case AtomicRMWInst::FAdd: n = fbin(Instruction::FAdd, o, v); break;
            case AtomicRMWInst::FSub: n = fbin(Instruction::FSub, o, v); break;
            case AtomicRMWInst::Xchg: n = v; break;
            case AtomicRMWInst::Add: n = ibin(Instruction::Add, o, v, x.bits); break;
            case AtomicRMWInst::Sub: n = ibin(Instruction::Sub, o, v, x.bits); break;
            case AtomicRMWInst::And: n = ibin(Instruction::And, o, v, x.bits); break;
            case AtomicRMWInst::Or: n = ibin(Instruction::Or, o, v, x.bits); break;
            case AtomicRMWInst::Xor: n = ibin(Instruction::Xor, o, v, x.bits); break;
            default: unsupported("atomic operation");
            }
            storeMem(p, n, x.size, real);
            stk.back().regs[x.dst] = o;
            ++stk.back().pc;
            break;
        }
        default: unsupported(std::string("instruction ") + x.I->getOpcodeName());
        }
        if (outermostReached) return;
    }
}

int main(int argc, char** argv)
{
    if (argc < 4) {
        fprintf(stderr, "usage: symir file.bc entry out.jsonl [--deadline s] [--jobs n] [--max-viol n]\n");
        return 2;
    }
    entryName = argv[2];
    int jobs = 8, deadline = 600;
    for (int k = 4; k + 1 < argc; k += 2) {
        std::string o = argv[k];
        if (o == "--deadline") deadline = atoi(argv[k + 1]);
        else if (o == "--jobs") jobs = atoi(argv[k + 1]);
        else if (o == "--max-viol") maxViol = atoi(argv[k + 1]);
        else if (o == "--assert-ms") assertMs = atoi(argv[k + 1]);
        else if (o == "--samples") sampleLimit = atoi(argv[k + 1]);
    }
    outFd = open(argv[3], O_WRONLY | O_CREAT | O_APPEND, 0644);
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sem_init(&SH->tokens, 1, jobs - 1);
    auto tstart = std::chrono::steady_clock::now();
    LLVMContext ctx;
    SMDiagnostic err;
    auto mod = parseIRFile(argv[1], err, ctx);
    if (!mod) { err.print("symir", errs()); return 2; }
    M = mod.get();
    DL = &M->getDataLayout();
    // enumerate defined functions so that all path processes agree on indices
    for (auto& F : *M)
        if (!F.isDeclaration()) getFI(&F);
    pid_t root = fork();
    if (root == 0) {
        setpgid(0, 0);
        for (auto& g : M->globals()) globalAddr(&g);
        for (auto& g : M->globals())
            if (g.hasInitializer()) writeConst(findObj(gaddr[&g]), 0, g.getInitializer());
        // static constructors
        if (auto* gc = M->getGlobalVariable("llvm.global_ctors"))
            if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
                for (unsigned k = 0; k < arr->getNumOperands(); ++k) {
                    auto* f = dyn_cast<Function>(arr->getOperand(k)->getOperand(1)->stripPointerCasts());
                    if (!f) continue;
                    pushFrame(getFI(f), {});
                    run(0);
                }
            }
        Function* F = M->getFunction(entryName);
        if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entryName.c_str()); _exit(3); }
        instrs = 0;
        pushFrame(getFI(F), {});
        run(0);
        if (outermostReached) {
            flushAsserts();
            SH->paths_throw++;
            reportUnder("throw", "unexpected exception: " + (lastWhat.size() > 200 ? lastWhat.substr(0, 200) : lastWhat), C().bool_val(true));
            finishProcess();
        }
        flushAsserts();
        samplePath();
        SH->paths_ok++;
        finishProcess();
    }
    setpgid(root, root);
    int st = 0;
    bool timeout = false;
    for (;;) {
        pid_t r = waitpid(root, &st, WNOHANG);
        if (r == root) break;
        if (std::chrono::duration<double>(std::chrono::steady_clock::now() - tstart).count() > deadline) {
            timeout = true;
            kill(-root, SIGKILL);
            waitpid(root, &st, 0);
            break;
        }
        usleep(5000);
    }
    kill(-root, SIGKILL);
    bool crashed = !timeout && !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    std::string fl;
    for (auto* fi : fis) {
        if (fi->index < 512 * 64 && (SH->funcSeen[fi->index / 64 % 512] >> (fi->index % 64)) & 1) {
            std::string d = demangle(fi->name);
            if (d.find("GooseFEM::") == std::string::npos) continue;
            // only functions of the library itself (not instantiations mentioning it)
            size_t par = d.find('(');
            std::string head = d.substr(0, par == std::string::npos ? d.size() : par);
            size_t sp = head.rfind(' ');
            (void)sp;
            if (d.rfind("GooseFEM::", 0) != 0 && head.find(" GooseFEM::") == std::string::npos) continue;
            if (head.size() > 160) head = head.substr(0, 160);
            fl += (fl.empty() ? "" : ",") + ("\"" + jesc(head) + "\"");
        }
    }
    double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - tstart).count();
    char buf[2000];
    snprintf(
        buf, sizeof buf,
        "\"paths_ok\":%lu,\"paths_throw\":%lu,\"paths_infeasible\":%lu,\"paths_err\":%lu,\"instructions\":%lu,\"forks\":%lu,"
        "\"q_sat\":%lu,\"q_unsat\":%lu,\"q_unknown\":%lu,\"solver_s\":%.3f,\"asserts\":%lu,\"asserts_concrete\":%lu,\"discharged\":%lu,"
        "\"by_identity\":%lu,\"by_guards\":%lu,\"by_tolerance\":%lu,\"assert_unknown\":%lu,\"violations\":%lu,\"unsupported\":%lu,\"divzero_paths\":%lu,\"uninit\":%lu,"
        "\"feasible_path_models\":%lu,\"timeout\":%s,\"crashed\":%s,\"wall_s\":%.2f",
        SH->paths_ok.load(), SH->paths_throw.load(), SH->paths_infeasible.load(), SH->paths_err.load(), SH->instrs.load(), SH->forks.load(), SH->q_sat.load(),
        SH->q_unsat.load(), SH->q_unknown.load(), SH->solver_us.load() / 1e6, SH->asserts.load(), SH->trivially.load(), SH->discharged.load(),
        SH->byIdentity.load(), SH->byGuards.load(), SH->byTolerance.load(), SH->assertUnknown.load(), SH->violations.load(), SH->unsupported.load(), SH->divzero.load(),
        SH->uninit.load(), SH->covers.load(), timeout ? "true" : "false", crashed ? "true" : "false", wall);
    emit("{\"type\":\"summary\",\"entry\":\"" + entryName + "\"," + buf + ",\"functions\":[" + fl + "]}");
    return 0;
}
