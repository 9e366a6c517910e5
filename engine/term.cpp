#include "term.h"
#include <algorithm>
#include <cassert>
#include <iterator>
#include <unistd.h>

static z3::context* g_ctx = nullptr;
z3::context& C()
{
    if (!g_ctx) {
        g_ctx = new z3::context();
    }
    return *g_ctx;
}
Z3_ast keep(const z3::expr& e)
{
    Z3_inc_ref(C(), e);
    return e;
}
Terms T;

z3::expr z3q(const mpq_class& q) { return C().real_val(q.get_str().c_str()); }

mpq_class fromDouble(double d)
{
    mpq_class q;
    mpq_set_d(q.get_mpq_t(), d);
    return q;
}

RNode* Terms::mk(RNode::Op op, RNode* a, RNode* b, Z3_ast cond)
{
    char key[64];
    int n = snprintf(
        key, sizeof key, "%d:%x:%x:%lx", op, a ? a->id : ~0u, b ? b->id : ~0u,
        cond ? (unsigned long)Z3_get_ast_id(C(), cond) : 0ul);
    std::string k(key, n);
    auto it = tab.find(k);
    if (it != tab.end()) return it->second;
    RNode* r = new RNode();
    r->op = op;
    r->id = all.size();
    r->a = a;
    r->b = b;
    r->cond = cond;
    if (cond) Z3_inc_ref(C(), cond);
    r->hasDiv = op == RNode::DIV || (a && a->hasDiv) || (b && b->hasDiv);
    if (a) a->uses++;
    if (b) b->uses++;
    all.push_back(r);
    tab[k] = r;
    return r;
}
RNode* Terms::constant(const mpq_class& q)
{
    std::string k = "c" + q.get_str(62);
    auto it = tab.find(k);
    if (it != tab.end()) return it->second;
    RNode* r = new RNode();
    r->op = RNode::CONST;
    r->id = all.size();
    r->q = q;
    all.push_back(r);
    tab[k] = r;
    return r;
}
RNode* Terms::constant(double d) { return constant(fromDouble(d)); }
RNode* Terms::var(const std::string& name)
{
    std::string k = "v" + name;
    auto it = tab.find(k);
    if (it != tab.end()) return it->second;
    RNode* r = new RNode();
    r->op = RNode::VAR;
    r->id = all.size();
    r->name = name;
    all.push_back(r);
    tab[k] = r;
    return r;
}
static bool isC(RNode* n) { return n->op == RNode::CONST; }
RNode* Terms::add(RNode* a, RNode* b)
{
    if (isC(a) && isC(b)) return constant(mpq_class(a->q + b->q));
    if (isC(a) && a->q == 0) return b;
    if (isC(b) && b->q == 0) return a;
    if (b->op == RNode::NEG) return sub(a, b->a);
    if (a->id > b->id) std::swap(a, b);
    return mk(RNode::ADD, a, b);
}
RNode* Terms::sub(RNode* a, RNode* b)
{
    if (a == b) return constant(mpq_class(0));
    if (isC(a) && isC(b)) return constant(mpq_class(a->q - b->q));
    if (isC(b) && b->q == 0) return a;
    if (isC(a) && a->q == 0) return neg(b);
    if (b->op == RNode::NEG) return add(a, b->a);
    return mk(RNode::SUB, a, b);
}
RNode* Terms::neg(RNode* a)
{
    if (isC(a)) return constant(mpq_class(-a->q));
    if (a->op == RNode::NEG) return a->a;
    if (a->op == RNode::SUB) return sub(a->b, a->a);
    return mk(RNode::NEG, a, nullptr);
}
RNode* Terms::mul(RNode* a, RNode* b)
{
    if (isC(a) && isC(b)) return constant(mpq_class(a->q * b->q));
    if (isC(b)) std::swap(a, b);
    if (isC(a)) {
        if (a->q == 0) return a;
        if (a->q == 1) return b;
        if (a->q == -1) return neg(b);
        if (b->op == RNode::MUL && isC(b->a)) return mul(constant(mpq_class(a->q * b->a->q)), b->b);
        if (b->op == RNode::NEG) return mul(constant(mpq_class(-a->q)), b->a);
        return mk(RNode::MUL, a, b);
    }
    if (a->id > b->id) std::swap(a, b);
    return mk(RNode::MUL, a, b);
}
RNode* Terms::div(RNode* a, RNode* b)
{
    if (isC(b) && b->q != 0) return mul(constant(mpq_class(1 / b->q)), a);
    if (isC(a) && a->q == 0) return a;
    return mk(RNode::DIV, a, b);
}
RNode* Terms::ite(const z3::expr& c, RNode* a, RNode* b)
{
    if (a == b) return a;
    if (c.is_true()) return a;
    if (c.is_false()) return b;
    return mk(RNode::ITE, a, b, c);
}

// iterative post-order helper: evaluates f on all nodes below n that are not cached yet
template <class Cached, class F>
static void postorder(RNode* n, Cached cached, F f)
{
    std::vector<std::pair<RNode*, int>> st;
    st.push_back({n, 0});
    while (!st.empty()) {
        auto [x, s] = st.back();
        if (cached(x)) {
            st.pop_back();
            continue;
        }
        if (s == 0) {
            st.back().second = 1;
            if (x->a && !cached(x->a)) st.push_back({x->a, 0});
            if (x->b && !cached(x->b)) st.push_back({x->b, 0});
            continue;
        }
        st.pop_back();
        f(x);
    }
}

uint32_t Terms::atomFor(uint32_t key, const z3::expr& e)
{
    auto it = atomOfNode.find(key);
    if (it != atomOfNode.end()) return it->second;
    uint32_t k = atoms.size();
    if (k > 65000) {
        fprintf(stderr, "symir: too many atoms\n");
        _exit(4);
    }
    atoms.push_back(keep(e));
    atomOfNode[key] = k;
    return k;
}
void Terms::addTo(Poly& acc, const Poly& p, const mpq_class& c)
{
    for (auto& [m, q] : p) {
        auto r = acc.emplace(m, 0);
        r.first->second += q * c;
        if (r.first->second == 0) acc.erase(r.first);
    }
}
Terms::Poly Terms::mulP(const Poly& a, const Poly& b)
{
    Poly r;
    for (auto& [m, q] : a)
        for (auto& [n, p] : b) {
            Mono k(m.size() + n.size(), 0);
            std::merge(m.begin(), m.end(), n.begin(), n.end(), k.begin());
            auto x = r.emplace(std::move(k), 0);
            x.first->second += q * p;
            if (x.first->second == 0) r.erase(x.first);
        }
    return r;
}
bool Terms::divide(Poly p, const Poly& f, Poly& quot)
{
    quot.clear();
    if (f.empty() || f.size() > p.size()) return p.empty() && !f.empty();
    auto& lf = *f.rbegin();
    Mono k;
    while (!p.empty()) {
        auto lp = std::prev(p.end());
        if (lp->first.size() < lf.first.size()) return false;
        k.clear();
        // monomial quotient
        size_t i = 0, j = 0;
        for (; i < lp->first.size(); ++i) {
            if (j < lf.first.size() && lp->first[i] == lf.first[j]) ++j;
            else k.push_back(lp->first[i]);
        }
        if (j < lf.first.size()) return false;
        mpq_class c = lp->second / lf.second;
        quot[k] = c;
        for (auto& [m, q] : f) {
            Mono r(m.size() + k.size(), 0);
            std::merge(m.begin(), m.end(), k.begin(), k.end(), r.begin());
            auto x = p.emplace(std::move(r), 0);
            x.first->second -= q * c;
            if (x.first->second == 0) p.erase(x.first);
        }
    }
    return true;
}
// adds c * n to acc; shared nodes and operands of products are cached
void Terms::expand(RNode* n, const mpq_class& c, Poly& acc, int depth)
{
    auto& cc = (opaque ? cO : cA).cache;
    auto it = cc.find(n->id);
    if (it != cc.end()) {
        addTo(acc, *it->second, c);
        return;
    }
    auto mono1 = [&](uint32_t atom) {
        auto r = acc.emplace(Mono(1, (char16_t)atom), 0);
        r.first->second += c;
        if (r.first->second == 0) acc.erase(r.first);
    };
    switch (n->op) {
    case RNode::CONST: {
        if (n->q == 0) return;
        auto r = acc.emplace(Mono{}, 0);
        r.first->second += c * n->q;
        if (r.first->second == 0) acc.erase(r.first);
        return;
    }
    case RNode::VAR: {
        uint32_t at = atomFor(n->id, C().real_const(n->name.c_str()));
        auto vb = varBound.find(n->name);
        if (vb != varBound.end()) atomBound[at] = vb->second;
        mono1(at);
        return;
    }
    case RNode::DIV: mono1(atomFor(n->id, C().real_const(("quot!" + std::to_string(n->id)).c_str()))); return;
    case RNode::ITE: {
        z3::expr e = z3::ite(E(n->cond), toZ3(poly(n->a)), toZ3(poly(n->b)));
        uint32_t at = atomFor(opaque ? n->id | 0x20000000u : n->id, e);
        double bd = std::max(bound(poly(n->a)), bound(poly(n->b)));
        if (std::isfinite(bd)) atomBound[at] = bd;
        mono1(at);
        return;
    }
    default: break;
    }
    if (n->op == RNode::MUL && isC(n->a)) {
        expand(n->b, mpq_class(c * n->a->q), acc, depth + 1);
        return;
    }
    if (n->op == RNode::MUL || (n->uses > 1 && depth > 0) || depth > 3000) {
        addTo(acc, poly(n), c);
        return;
    }
    if (n->op == RNode::NEG) { expand(n->a, mpq_class(-c), acc, depth + 1); return; }
    expand(n->a, c, acc, depth + 1);
    expand(n->b, n->op == RNode::SUB ? mpq_class(-c) : c, acc, depth + 1);
}
const Terms::Poly& Terms::poly(RNode* n)
{
    auto& cc = (opaque ? cO : cA).cache;
    auto it = cc.find(n->id);
    if (it != cc.end()) return *it->second;
    Poly* p = new Poly();
    if (n->op == RNode::MUL && !isC(n->a)) {
        const Poly& x = poly(n->a);
        const Poly& y = poly(n->b);
        if (!(opaque && n->uses >= 4 && x.size() * y.size() > 64)) *p = mulP(x, y);
        else p->clear();
    } else expand(n, 1, *p, 0);
    if (opaque && n->uses >= 4 && (p->size() > 8 || (p->empty() && n->op == RNode::MUL))) {
        p->clear();
        (*p)[Mono(1, (char16_t)atomFor(n->id | 0x40000000u, C().real_const(("shared!" + std::to_string(n->id)).c_str())))] = 1;
    }
    (opaque ? cO : cA).cache[n->id] = p;
    return *p;
}
const Terms::Poly& Terms::polyO(RNode* n)
{
    opaque = true;
    const Poly& p = poly(n);
    opaque = false;
    return p;
}
z3::expr Terms::toZ3(const Poly& p)
{
    if (p.empty()) return C().real_val(0);
    z3::expr_vector terms(C());
    for (auto& [m, q] : p) {
        z3::expr_vector fs(C());
        if (q != 1 || m.empty()) fs.push_back(z3q(q));
        for (char16_t a : m) fs.push_back(E(atoms[a]));
        if (fs.size() == 1) terms.push_back(fs[0]);
        else {
            std::vector<Z3_ast> v;
            for (unsigned k = 0; k < fs.size(); ++k) v.push_back(fs[k]);
            terms.push_back(z3::expr(C(), Z3_mk_mul(C(), v.size(), v.data())));
        }
    }
    if (terms.size() == 1) return terms[0];
    std::vector<Z3_ast> v;
    for (unsigned k = 0; k < terms.size(); ++k) v.push_back(terms[k]);
    return z3::expr(C(), Z3_mk_add(C(), v.size(), v.data()));
}
z3::expr Terms::lowerA(RNode* n) { return toZ3(poly(n)); }
z3::expr Terms::diffA(RNode* a, RNode* b)
{
    Poly d = poly(a);
    addTo(d, poly(b), -1);
    return toZ3(d);
}
Terms::Poly Terms::powMul(Poly p, uint32_t id, int k)
{
    for (int i = 0; i < k; ++i) p = mulP(p, factorNum.at(id));
    return p;
}
Terms::Poly Terms::denPoly(const std::map<uint32_t, int>& d)
{
    Poly r;
    r[Mono{}] = 1;
    for (auto& [id, k] : d) r = powMul(r, id, k);
    return r;
}
void Terms::common(const Frac& x, const Frac& y, Poly& nx, Poly& ny, std::map<uint32_t, int>& den)
{
    nx = x.num;
    ny = y.num;
    den = x.den;
    for (auto& [id, p] : y.den) {
        int& q = den[id];
        q = std::max(q, p);
    }
    for (auto& [id, p] : den) {
        auto ix = x.den.find(id), iy = y.den.find(id);
        int px = ix == x.den.end() ? 0 : ix->second;
        int py = iy == y.den.end() ? 0 : iy->second;
        if (p > px) nx = powMul(nx, id, p - px);
        if (p > py) ny = powMul(ny, id, p - py);
    }
}
const Terms::Frac& Terms::lowerB(RNode* top)
{
    postorder(
        top, [](RNode* x) { return x->fr >= 0; },
        [&](RNode* x) {
            Frac* f = new Frac();
            if (!x->hasDiv) {
                f->num = poly(x);
            } else switch (x->op) {
            case RNode::CONST:
            case RNode::VAR: break;
            case RNode::NEG:
                f->den = frs[x->a->fr]->den;
                addTo(f->num, frs[x->a->fr]->num, -1);
                break;
            case RNode::ADD:
            case RNode::SUB:
            case RNode::ITE: {
                const Frac &fa = *frs[x->a->fr], &fb = *frs[x->b->fr];
                Poly na, nb;
                common(fa, fb, na, nb, f->den);
                if (x->op == RNode::ITE) {
                    z3::expr e = z3::ite(E(x->cond), toZ3(na), toZ3(nb));
                    uint32_t at = atomFor(x->id | 0x80000000u, e);
                    double bd = std::max(bound(na), bound(nb));
                    if (std::isfinite(bd)) atomBound[at] = bd;
                    f->num[Mono(1, (char16_t)at)] = 1;
                } else {
                    f->num = std::move(na);
                    addTo(f->num, nb, x->op == RNode::ADD ? 1 : -1);
                }
                break;
            }
            case RNode::MUL: {
                Frac fa = *frs[x->a->fr], fb = *frs[x->b->fr];
                // cancel: operand that is syntactically (a multiple of) a divisor of the other
                auto cancel = [&](RNode* m, Frac& self, Frac& other) {
                    RNode* core = m;
                    mpq_class coef = 1;
                    if (core->op == RNode::MUL && isC(core->a)) {
                        coef = core->a->q;
                        core = core->b;
                    }
                    auto it = other.den.find(core->id);
                    if (it == other.den.end() || core->hasDiv) return false;
                    if (--it->second == 0) other.den.erase(it);
                    self.num.clear();
                    self.num[Mono{}] = coef;
                    return true;
                };
                if (!cancel(x->a, fa, fb)) cancel(x->b, fb, fa);
                auto cancel2 = [&](Frac& self, Frac& other) {
                    for (auto it = other.den.begin(); it != other.den.end();) {
                        Poly quot;
                        while (it->second > 0 && divide(self.num, factorNum.at(it->first), quot)) {
                            self.num.swap(quot);
                            --it->second;
                        }
                        it = it->second ? std::next(it) : other.den.erase(it);
                    }
                };
                cancel2(fa, fb);
                cancel2(fb, fa);
                f->den = fa.den;
                for (auto& [id, p] : fb.den) f->den[id] += p;
                f->num = mulP(fa.num, fb.num);
                break;
            }
            case RNode::DIV: {
                Frac fa = *frs[x->a->fr], fb = *frs[x->b->fr];
                if (!factorNum.count(x->b->id)) factorNum[x->b->id] = fb.num;
                Poly na = fa.num;
                f->den = fa.den;
                // multiply by the divisor's own denominator
                for (auto& [id, p] : fb.den) {
                    int q = p;
                    auto it = f->den.find(id);
                    if (it != f->den.end()) {
                        int r = std::min(q, it->second);
                        q -= r;
                        if ((it->second -= r) == 0) f->den.erase(it);
                    }
                    if (q > 0) na = powMul(na, id, q);
                }
                f->num = std::move(na);
                f->den[x->b->id] += 1;
                break;
            }
            }
            x->fr = frs.size();
            frs.push_back(f);
        });
    return *frs[top->fr];
}
z3::expr Terms::eq(RNode* a, RNode* b)
{
    if (a == b) return C().bool_val(true);
    if (isC(a) && isC(b)) return C().bool_val(a->q == b->q);
    Poly na, nb;
    std::map<uint32_t, int> d;
    common(lowerB(a), lowerB(b), na, nb, d);
    addTo(na, nb, -1);
    return toZ3(na) == C().real_val(0);
}
Terms::Diff Terms::diff(RNode* a, RNode* b)
{
    Diff r;
    Poly nb;
    common(lowerB(a), lowerB(b), r.num, nb, r.den);
    addTo(r.num, nb, -1);
    return r;
}
z3::expr Terms::sign(const Diff& d, bool strict)
{
    z3::expr n = toZ3(d.num), zero = C().real_val(0);
    z3::expr neg = n < zero, pos = n > zero;
    for (auto& [id, p] : d.den) {
        if (p % 2 == 0) continue;
        z3::expr f = toZ3(factorNum.at(id)) < zero;
        z3::expr t = z3::ite(f, pos, neg);
        pos = z3::ite(f, neg, pos);
        neg = t;
    }
    return strict ? neg : !pos;
}
z3::expr Terms::beyond(const Diff& d, const mpq_class& m)
{
    // |num| > m * |den|
    z3::expr n = toZ3(d.num), zero = C().real_val(0);
    z3::expr an = z3::ite(n < zero, -n, n);
    z3::expr den = z3q(m);
    for (auto& [id, p] : d.den) {
        z3::expr f = toZ3(factorNum.at(id));
        z3::expr af = p % 2 ? z3::ite(f < zero, -f, f) : f;
        for (int k = 0; k < p; ++k) den = den * af;
    }
    return an > den;
}
double Terms::bound(const Poly& p)
{
    double s = 0;
    for (auto& [m, q] : p) {
        double t = std::fabs(q.get_d()) * 1.0000001;
        for (char16_t a : m) {
            auto it = atomBound.find(a);
            if (it == atomBound.end()) return INFINITY;
            t *= it->second;
        }
        s += t;
    }
    return s;
}
double Terms::evalP(const Poly& p, const std::function<double(uint32_t)>& at)
{
    double s = 0;
    for (auto& [m, q] : p) {
        double t = q.get_d();
        for (char16_t a : m) t *= at(a);
        s += t;
    }
    return s;
}
z3::expr Terms::lt(RNode* a, RNode* b)
{
    if (a == b) return C().bool_val(false);
    if (isC(a) && isC(b)) return C().bool_val(a->q < b->q);
    return sign(diff(a, b), true);
}
z3::expr Terms::le(RNode* a, RNode* b)
{
    if (a == b) return C().bool_val(true);
    if (isC(a) && isC(b)) return C().bool_val(a->q <= b->q);
    return sign(diff(a, b), false);
}
