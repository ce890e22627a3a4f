// SX runtime: shadow memory, expressions, path constraint, solver, search.
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>
#include "sxheap.h"
#include "sx.h"
#include "sxrt.h"

typedef __int128 i128;
typedef unsigned __int128 u128;

extern "C" {
uint8_t __sx_filter[65536];
void* __sx_args[64];
void* __sx_argtag;
void* __sx_ret[16];
void* __sx_rettag;
uint8_t __sx_cov[16384];
}

static const i128 LIM = ((i128)1) << 100;

// ------------------------------------------------------------------ exprs
enum BK { B_CONST, B_LE, B_EQ, B_NOT, B_AND, B_OR };
struct Expr;
typedef std::vector<std::pair<int, i128>> Terms;
struct Lin {
    Terms t;
    i128 c = 0;
};
enum AK { A_VAR, A_ITE, A_DIV, A_MOD };
struct Atom {
    AK k;
    i128 lo, hi, conc;
    int var = -1;
    Expr* b = nullptr;      // ITE condition
    Expr *x = nullptr, *y = nullptr;  // ITE arms / DIV,MOD operand
    i128 d = 0;             // divisor
    bool visited = false;
};
struct Expr {
    bool isBool;
    i128 conc;  // concrete math value (bool: 0/1)
    Lin l;      // int
    BK bk;      // bool
    Expr *p = nullptr, *q = nullptr;
    uint32_t id;
};
struct Var {
    std::string name;
    i128 lo, hi, conc;
    size_t pathPos;
};

static std::deque<Atom> atoms;
static std::deque<Expr> exprs;
static std::vector<Var> vars;
static std::map<Terms, std::pair<i128, i128>> formBounds;
static std::map<std::pair<std::pair<uint32_t, int>, i128>, int> divAtoms;
static std::unordered_map<uint64_t, std::vector<Expr*>> boolCons;
static std::map<std::vector<uintptr_t>, int> iteAtoms;

static std::vector<i128> g_input;  // job input
static bool g_forkSelects = false;
static uint64_t g_stale = 0, g_concretized = 0, g_externptr = 0;
static bool g_running = false;
static std::set<std::string> g_externNames;

static void engineAbort(const char* fmt, ...);

static Expr* newExpr() {
    exprs.emplace_back();
    exprs.back().id = exprs.size();
    return &exprs.back();
}
static Expr* mkBoolConst(bool v) {
    static Expr *T = nullptr, *F = nullptr;
    Expr*& r = v ? T : F;
    if (!r) {
        r = newExpr();
        r->isBool = true;
        r->bk = B_CONST;
        r->conc = v;
    }
    return r;
}
static bool isConstB(Expr* e, bool v) { return e->bk == B_CONST && (bool)e->conc == v; }

static i128 gcd(i128 a, i128 b) {
    if (a < 0) a = -a;
    if (b < 0) b = -b;
    while (b) { i128 r = a % b; a = b; b = r; }
    return a;
}
static i128 fdiv(i128 a, i128 b) {  // floor, b>0
    i128 q = a / b;
    if (a % b < 0) --q;
    return q;
}
static i128 fmod_(i128 a, i128 b) { return a - fdiv(a, b) * b; }

static i128 linConc(const Lin& l) {
    i128 r = l.c;
    for (auto& [a, k] : l.t) r += k * atoms[a].conc;
    return r;
}
static void normForm(const Terms& t, Terms& out, i128& g, int& sign) {
    g = 0;
    for (auto& [a, k] : t) g = gcd(g, k);
    sign = t[0].second < 0 ? -1 : 1;
    out = t;
    for (auto& [a, k] : out) k = k / g * sign;
}
static void linRange(const Lin& l, i128& lo, i128& hi) {
    lo = hi = 0;
    for (auto& [a, k] : l.t) {
        if (k > 0) { lo += k * atoms[a].lo; hi += k * atoms[a].hi; }
        else { lo += k * atoms[a].hi; hi += k * atoms[a].lo; }
    }
    if (l.t.size() > 1 && !formBounds.empty()) {
        Terms n; i128 g; int s;
        normForm(l.t, n, g, s);
        auto it = formBounds.find(n);
        if (it != formBounds.end()) {
            i128 a = it->second.first * g, b = it->second.second * g;
            if (s < 0) { i128 x = -b; b = -a; a = x; }
            lo = std::max(lo, a);
            hi = std::min(hi, b);
        }
    }
    lo += l.c;
    hi += l.c;
}
static Lin linConst(i128 c) { Lin l; l.c = c; return l; }
static Lin linAdd(const Lin& a, const Lin& b, i128 kb = 1) {
    Lin r;
    r.c = a.c + kb * b.c;
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
        else if (i == a.t.size() || b.t[j].first < a.t[i].first) { r.t.push_back({b.t[j].first, kb * b.t[j].second}); ++j; }
        else {
            i128 k = a.t[i].second + kb * b.t[j].second;
            if (k) r.t.push_back({a.t[i].first, k});
            ++i; ++j;
        }
    }
    return r;
}
static Lin linScale(const Lin& a, i128 k) {
    Lin r;
    if (k == 0) return r;
    r.c = a.c * k;
    r.t = a.t;
    for (auto& [x, y] : r.t) y *= k;
    return r;
}
static bool linBig(const Lin& l) {
    if (l.c > LIM || l.c < -LIM) return true;
    i128 lo, hi;
    for (auto& [a, k] : l.t) if (k > LIM || k < -LIM) return true;
    linRange(l, lo, hi);
    return lo < -LIM || hi > LIM;
}
static Expr* mkInt(const Lin& l) {
    if (l.t.empty()) return nullptr;  // caller knows the constant
    Expr* e = newExpr();
    e->isBool = false;
    e->l = l;
    e->conc = linConc(l);
    return e;
}

// ----------------------------------------------------------------- booleans
static Expr* simplify(Expr* b);
static Expr* consBool(BK k, const Lin* l, Expr* p, Expr* q, bool conc) {
    uint64_t h = k * 1000003ull;
    auto mix = [&](uint64_t x) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; };
    if (l) { mix((uint64_t)l->c); for (auto& [a, c] : l->t) { mix(a); mix((uint64_t)c); } }
    mix((uintptr_t)p); mix((uintptr_t)q);
    auto& v = boolCons[h];
    for (Expr* e : v)
        if (e->bk == k && e->p == p && e->q == q && (!l || (e->l.c == l->c && e->l.t == l->t))) return e;
    Expr* e = newExpr();
    e->isBool = true;
    e->bk = k;
    if (l) e->l = *l;
    e->p = p;
    e->q = q;
    e->conc = conc;
    v.push_back(e);
    return e;
}
static Expr* mkNot(Expr* a);
static Expr* mkAnd(Expr* a, Expr* b) {
    if (isConstB(a, false) || isConstB(b, false)) return mkBoolConst(false);
    if (isConstB(a, true)) return b;
    if (isConstB(b, true)) return a;
    if (a == b) return a;
    if (mkNot(a) == b) return mkBoolConst(false);
    if (a->id > b->id) std::swap(a, b);
    return consBool(B_AND, nullptr, a, b, a->conc && b->conc);
}
static Expr* mkOr(Expr* a, Expr* b) {
    if (isConstB(a, true) || isConstB(b, true)) return mkBoolConst(true);
    if (isConstB(a, false)) return b;
    if (isConstB(b, false)) return a;
    if (a == b) return a;
    if (mkNot(a) == b) return mkBoolConst(true);
    if (a->id > b->id) std::swap(a, b);
    return consBool(B_OR, nullptr, a, b, a->conc || b->conc);
}
static Expr* mkLE(Lin l, int depth = 0);
static Expr* mkEQ(Lin l, int depth = 0);
static Expr* mkNot(Expr* a) {
    if (a->bk == B_CONST) return mkBoolConst(!a->conc);
    if (a->bk == B_NOT) return a->p;
    if (a->bk == B_LE) {  // !(l<=0)  ==  -l+1 <= 0
        Lin n = linScale(a->l, -1);
        n.c += 1;
        return mkLE(n, 8);
    }
    return consBool(B_NOT, nullptr, a, nullptr, !a->conc);
}
// try to eliminate a lone ITE atom with constant outcomes
static Expr* pushIte(const Lin& l, bool eq, int depth) {
    if (depth > 6) return nullptr;
    for (auto& [a, k] : l.t) {
        if (atoms[a].k != A_ITE) continue;
        Atom& at = atoms[a];
        Expr* c = simplify(at.b);
        Lin rest = l;
        for (size_t i = 0; i < rest.t.size(); ++i)
            if (rest.t[i].first == a) { rest.t.erase(rest.t.begin() + i); break; }
        auto arm = [&](Expr* x) {
            Lin r = linAdd(rest, x->l, k);
            return eq ? mkEQ(r, depth + 1) : mkLE(r, depth + 1);
        };
        if (c->bk == B_CONST) return arm(c->conc ? at.x : at.y);
        if (l.t.size() == 1 || depth == 0) {
            Expr* ca = arm(at.x);
            Expr* cb = arm(at.y);
            if (ca == cb) return ca;
            if (ca->bk == B_CONST || cb->bk == B_CONST)
                return mkOr(mkAnd(c, ca), mkAnd(mkNot(c), cb));
        }
    }
    return nullptr;
}
static Expr* mkLE(Lin l, int depth) {
    i128 lo, hi;
    if (l.t.empty()) return mkBoolConst(l.c <= 0);
    linRange(l, lo, hi);
    if (hi <= 0) return mkBoolConst(true);
    if (lo > 0) return mkBoolConst(false);
    if (Expr* r = pushIte(l, false, depth)) return r;
    i128 g = 0;
    for (auto& [a, k] : l.t) g = gcd(g, k);
    if (g > 1) {  // sum*g + c <= 0  ->  sum + ceil(c/g) <= 0
        for (auto& [a, k] : l.t) k /= g;
        l.c = -fdiv(-l.c, g);
    }
    return consBool(B_LE, &l, nullptr, nullptr, linConc(l) <= 0);
}
static Expr* mkEQ(Lin l, int depth) {
    i128 lo, hi;
    if (l.t.empty()) return mkBoolConst(l.c == 0);
    linRange(l, lo, hi);
    if (lo > 0 || hi < 0) return mkBoolConst(false);
    if (lo == 0 && hi == 0) return mkBoolConst(true);
    i128 g = 0;
    for (auto& [a, k] : l.t) g = gcd(g, k);
    if (l.c % g) return mkBoolConst(false);
    if (Expr* r = pushIte(l, true, depth)) return r;
    i128 s = l.t[0].second < 0 ? -1 : 1;
    for (auto& [a, k] : l.t) k = k / g * s;
    l.c = l.c / g * s;
    // at an interval end the equation is an inequality
    linRange(l, lo, hi);
    if (lo == 0) return mkLE(l, 8);
    if (hi == 0) return mkLE(linScale(l, -1), 8);
    return consBool(B_EQ, &l, nullptr, nullptr, linConc(l) == 0);
}
static uint64_t g_epoch = 0;
static Expr* simplify(Expr* b) {
    switch (b->bk) {
    case B_CONST: return b;
    case B_LE: return mkLE(b->l, 8);
    case B_EQ: return mkEQ(b->l, 8);
    case B_NOT: return mkNot(simplify(b->p));
    case B_AND: {
        Expr* x = simplify(b->p);
        if (isConstB(x, false)) return x;
        return mkAnd(x, simplify(b->q));
    }
    case B_OR: {
        Expr* x = simplify(b->p);
        if (isConstB(x, true)) return x;
        return mkOr(x, simplify(b->q));
    }
    }
    return b;
}
static void learnRange(const Lin& l, bool haveLo, i128 lo, bool haveHi, i128 hi) {
    // lo <= sum(l.t) <= hi   (constant excluded)
    if (l.t.size() == 1) {
        Atom& a = atoms[l.t[0].first];
        i128 k = l.t[0].second;
        i128 nlo = a.lo, nhi = a.hi;
        if (k > 0) {
            if (haveLo) nlo = std::max(nlo, -fdiv(-lo, k));
            if (haveHi) nhi = std::min(nhi, fdiv(hi, k));
        } else {
            if (haveLo) nhi = std::min(nhi, fdiv(-lo, -k));
            if (haveHi) nlo = std::max(nlo, -fdiv(hi, -k));
        }
        a.lo = nlo;
        a.hi = nhi;
        return;
    }
    Terms n; i128 g; int s;
    normForm(l.t, n, g, s);
    if (s < 0) { std::swap(haveLo, haveHi); i128 x = -lo; lo = -hi; hi = x; }
    Lin f; f.t = n;
    i128 cl, ch;
    linRange(f, cl, ch);
    if (haveLo) cl = std::max(cl, -fdiv(-lo, g));
    if (haveHi) ch = std::min(ch, fdiv(hi, g));
    formBounds[n] = {cl, ch};
}
static void learn(Expr* b) {  // b holds on this path
    switch (b->bk) {
    case B_LE: learnRange(b->l, false, 0, true, -b->l.c); break;
    case B_EQ: learnRange(b->l, true, -b->l.c, true, -b->l.c); break;
    case B_AND: learn(b->p); learn(b->q); break;
    case B_NOT:
        if (b->p->bk == B_OR) { learn(mkNot(b->p->p)); learn(mkNot(b->p->q)); }
        if (b->p->bk == B_EQ) {
            i128 lo, hi;
            Lin f = b->p->l;
            linRange(f, lo, hi);
            if (lo == 0) learnRange(f, true, 1 - f.c, false, 0);
            if (hi == 0) learnRange(f, false, 0, true, -1 - f.c);
        }
        break;
    default: break;
    }
}

// --------------------------------------------------------------- path log
enum PK { P_BRANCH, P_ASSUME, P_ASSERT, P_VAR };
struct PathEntry {
    PK k;
    Expr* e;  // literal that holds (BRANCH/ASSUME) or condition (ASSERT)
    int var;
    const char* msg;
    uint32_t site;
    size_t nvars;
    bool multi = false;      // one of several choices (value, case, wrap count)
    i128 choice = 0;
    Expr* excl = nullptr;    // choices already explored by ancestors are excluded
};
static std::vector<PathEntry> path;
static size_t g_jobBound = 0;
static std::vector<i128> g_jobTried;
static size_t g_branches = 0, g_maxBranches = 20000;
static uint64_t g_pathHash = 1469598103934665603ull;
static std::vector<uint64_t> g_hashAt;  // hash after each path entry
static std::set<std::string> g_covers;
static std::string g_status = "ok";
static std::string g_failMsg;
static std::vector<std::pair<std::string, uint64_t>> g_notes;
static bool g_truncated = false;
static sigjmp_buf g_jmp;
static bool g_jmpSet = false;

static void pushPath(PathEntry p) {
    path.push_back(p);
    g_pathHash = (g_pathHash ^ (p.k * 131 + p.site)) * 1099511628211ull;
    if (p.k == P_BRANCH) g_pathHash = (g_pathHash ^ (p.e->l.t.size() * 7 + p.e->bk)) * 1099511628211ull;
    g_hashAt.push_back(g_pathHash);
}
[[noreturn]] static void endRun(const char* st, const std::string& msg) {
    g_status = st;
    g_failMsg = msg;
    g_running = false;
    if (g_jmpSet) siglongjmp(g_jmp, 1);
    _exit(99);
}
static void engineAbort(const char* fmt, ...) {
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    endRun("engine", buf);
}
static void branchOn(Expr* b, bool conc, uint32_t site) {
    b = simplify(b);
    if (b->bk == B_CONST) {
        if ((bool)b->conc != conc) engineAbort("constant condition mismatch at site %u", site);
        return;
    }
    if ((bool)b->conc != conc) engineAbort("condition value mismatch at site %u", site);
    Expr* lit = conc ? b : mkNot(b);
    if (++g_branches > g_maxBranches) {
        g_truncated = true;
        endRun("truncated", "branch limit");
    }
    pushPath({P_BRANCH, lit, -1, nullptr, site, vars.size()});
    learn(lit);
}

// decision with more than two outcomes: `choice` is the current one, lit(c) the
// condition under which outcome c is taken
template <class F>
static void branchMulti(i128 choice, F lit, uint32_t site) {
    Expr* b = simplify(lit(choice));
    if (b->bk == B_CONST) {
        if (!b->conc) engineAbort("constant choice mismatch at site %u", site);
        return;
    }
    if (!b->conc) engineAbort("choice value mismatch at site %u", site);
    if (++g_branches > g_maxBranches) {
        g_truncated = true;
        endRun("truncated", "branch limit");
    }
    PathEntry pe{P_BRANCH, b, -1, nullptr, site, vars.size()};
    pe.multi = true;
    pe.choice = choice;
    if (path.size() == g_jobBound && !g_jobTried.empty()) {
        pe.excl = mkBoolConst(true);
        for (i128 t : g_jobTried) pe.excl = mkAnd(pe.excl, mkNot(simplify(lit(t))));
    }
    pushPath(pe);
    learn(b);
}

// ------------------------------------------------------------- int helpers
static i128 pow2(unsigned w) { return ((i128)1) << w; }
static Lin boolToLin(Expr* b);
static Lin getLin(Expr* s, uint64_t c, unsigned w, bool sgn = false) {
    if (!s) {
        if (w < 64) c &= (1ull << w) - 1;
        i128 v = c;
        if (sgn && w && (c >> (w - 1)) & 1) v -= pow2(w);
        return linConst(v);
    }
    if (s->isBool) return boolToLin(s);
    return s->l;
}
static int mkIteAtom(Expr* c, Expr* x, Expr* y) {
    Atom a;
    a.k = A_ITE;
    a.b = c; a.x = x; a.y = y;
    i128 l1, h1, l2, h2;
    linRange(x->l, l1, h1);
    linRange(y->l, l2, h2);
    a.lo = std::min(l1, l2);
    a.hi = std::max(h1, h2);
    a.conc = c->conc ? x->conc : y->conc;
    atoms.push_back(a);
    return atoms.size() - 1;
}
static Expr* constLinExpr(i128 c) {
    static std::map<i128, Expr*> cache;
    Expr*& e = cache[c];
    if (!e) {
        e = newExpr();
        e->isBool = false;
        e->l = linConst(c);
        e->conc = c;
    }
    return e;
}
static Expr* linExpr(const Lin& l) {
    if (l.t.empty()) return constLinExpr(l.c);
    return mkInt(l);
}
static std::unordered_map<uint32_t, int> boolAtoms;
static Lin atomLin(int a) { Lin l; l.t.push_back({a, 1}); return l; }
static Lin boolToLin(Expr* b) {
    if (b->bk == B_CONST) return linConst(b->conc);
    // x>=1 with x a 0/1 variable is x itself
    auto it = boolAtoms.find(b->id);
    if (it != boolAtoms.end()) return atomLin(it->second);
    if (b->bk == B_LE && b->l.t.size() == 1) {
        auto [a, k] = b->l.t[0];
        if (atoms[a].k == A_VAR && atoms[a].lo == 0 && atoms[a].hi == 1) {
            if (k == -1 && b->l.c == 1) return atomLin(a);
            if (k == 1 && b->l.c == 0) { Lin l = linScale(atomLin(a), -1); l.c = 1; return l; }
        }
    }
    int a = mkIteAtom(b, constLinExpr(1), constLinExpr(0));
    boolAtoms[b->id] = a;
    return atomLin(a);
}
// integer known to be 0/1 -> bool
static Expr* linToBool(const Lin& l) {  // l != 0
    Lin m = linScale(l, -1);
    m.c += 1;
    return mkLE(m);  // l >= 1
}
static bool is01(const Lin& l) {
    i128 lo, hi;
    linRange(l, lo, hi);
    return lo >= 0 && hi <= 1;
}
static Lin mkDivMod(AK k, const Lin& l, i128 d) {
    // canonical: share via map on the linear form
    static std::map<std::pair<Terms, std::pair<i128, i128>>, std::pair<int, int>> cache;
    auto key = std::make_pair(l.t, std::make_pair(l.c, d));
    auto& slot = cache.try_emplace(key, std::make_pair(-1, -1)).first->second;
    int& id = k == A_DIV ? slot.first : slot.second;
    if (id < 0) {
        Atom a;
        a.k = k;
        a.x = linExpr(l);
        a.d = d;
        i128 lo, hi;
        linRange(l, lo, hi);
        i128 c = a.x->conc;
        if (k == A_DIV) { a.lo = fdiv(lo, d); a.hi = fdiv(hi, d); a.conc = fdiv(c, d); }
        else { a.lo = 0; a.hi = d - 1; a.conc = fmod_(c, d);
               if (lo >= 0 && hi < d) { a.lo = lo; a.hi = hi; } }
        atoms.push_back(a);
        id = atoms.size() - 1;
    }
    return atomLin(id);
}
// l = d*q + r with 0<=r<d
static void splitDiv(const Lin& l, i128 d, Lin& q, Lin& r) {
    Lin rem, quo;
    for (auto& [a, k] : l.t) {
        i128 kq = fdiv(k, d), kr = k - kq * d;
        if (kr == 0) { quo.t.push_back({a, kq}); }
        else {
            // prefer keeping small coefficients in the remainder
            rem.t.push_back({a, k});
        }
    }
    quo.c = fdiv(l.c, d);
    rem.c = l.c - quo.c * d;
    i128 lo, hi;
    linRange(rem, lo, hi);
    if (rem.t.empty() || (lo >= 0 && hi < d)) { q = quo; r = rem; return; }
    if (fdiv(lo, d) == fdiv(hi, d)) {
        i128 k = fdiv(lo, d);
        quo.c += k; rem.c -= k * d;
        q = quo; r = rem;
        return;
    }
    q = linAdd(quo, mkDivMod(A_DIV, rem, d));
    r = mkDivMod(A_MOD, rem, d);
}
static void concretizeLin(const Lin& l, uint32_t site) {
    if (l.t.empty()) return;
    ++g_concretized;
    branchMulti(linConc(l), [&](i128 c) { Lin d = l; d.c -= c; return mkEQ(d); }, site);
}
// value as an unsigned w-bit number
static Lin normU(const Lin& l, unsigned w, int depth = 0) {
    i128 lo, hi, m = pow2(w);
    linRange(l, lo, hi);
    if (lo >= 0 && hi < m) return l;
    if (l.t.empty()) return linConst(fmod_(l.c, m));
    if (fdiv(lo, m) == fdiv(hi, m)) { Lin r = l; r.c -= fdiv(lo, m) * m; return r; }
    {   // drop multiples of 2^w
        Lin r;
        r.c = fmod_(l.c, m);
        bool ch = false;
        for (auto& [a, k] : l.t) {
            if (k % m == 0) { ch = true; continue; }
            r.t.push_back({a, k});
        }
        if (ch || r.c != l.c) {
            linRange(r, lo, hi);
            if (r.t.empty() || (lo >= 0 && hi < m)) return r;
            i128 lo2 = lo - m, hi2 = hi - m;
            if (lo2 >= 0 && hi2 < m) { r.c -= m; return r; }
        }
    }
    if (l.t.size() == 1 && l.c == 0 && l.t[0].second == 1 && atoms[l.t[0].first].k == A_ITE && depth < 4) {
        Atom at = atoms[l.t[0].first];
        i128 xl, xh, yl, yh;
        linRange(at.x->l, xl, xh);
        linRange(at.y->l, yl, yh);
        if (fdiv(xl, m) == fdiv(xh, m) && fdiv(yl, m) == fdiv(yh, m)) {
            Lin a = normU(at.x->l, w, depth + 1), b = normU(at.y->l, w, depth + 1);
            return atomLin(mkIteAtom(at.b, linExpr(a), linExpr(b)));
        }
    }
    // split the path on the wrap count
    i128 k = fdiv(linConc(l), m);
    branchMulti(k, [&](i128 q) {
        Lin ge = linScale(l, -1);
        ge.c += q * m;  // q*m - l <= 0
        Lin lt = l;
        lt.c -= (q + 1) * m - 1;  // l - (q+1)m + 1 <= 0
        return mkAnd(mkLE(ge), mkLE(lt));
    }, 900001);
    Lin r = l;
    r.c -= k * m;
    return r;
}
static Lin normS(const Lin& l, unsigned w) {
    i128 h = pow2(w - 1);
    i128 lo, hi;
    linRange(l, lo, hi);
    if (lo >= -h && hi < h) return l;
    Lin s = l;
    s.c += h;
    Lin u = normU(s, w);
    u.c -= h;
    return u;
}
static void checkRes(const Lin& l, unsigned w, uint64_t res, const char* what) {
    i128 m = fmod_(linConc(l), pow2(w));
    uint64_t r = w < 64 ? (res & ((1ull << w) - 1)) : res;
    if ((uint64_t)m != r) engineAbort("value mismatch in %s w=%u: %llu vs %llu", what, w, (unsigned long long)m, (unsigned long long)r);
}
static Expr* finish(const Lin& l, unsigned w, uint64_t res, const char* what) {
    if (l.t.empty()) { checkRes(l, w, res, what); return nullptr; }
    checkRes(l, w, res, what);
    if (linBig(l)) { concretizeLin(l, 900003); return nullptr; }
    return mkInt(l);
}
static Expr* retBool(Expr* b) { return b->bk == B_CONST ? nullptr : b; }

static Expr* shBool(Expr* s, uint64_t c) { return s ? (s->isBool ? s : linToBool(s->l)) : mkBoolConst(c & 1); }

// constant-armed ITE: apply f to the arms
template <class F>
static bool mapConstIte(const Lin& l, F f, Lin& out, int depth = 0) {
    if (l.t.empty()) { out = linConst(f(l.c)); return true; }
    if (l.t.size() != 1 || depth > 4) return false;
    auto [a, k] = l.t[0];
    if (atoms[a].k == A_VAR && atoms[a].hi - atoms[a].lo == 1) {
        i128 v0 = l.c + k * atoms[a].lo, v1 = l.c + k * atoms[a].hi;
        i128 r0 = f(v0), r1 = f(v1);
        // r0 + (x-lo)*(r1-r0)
        Lin x = linScale(atomLin(a), r1 - r0);
        x.c = r0 - atoms[a].lo * (r1 - r0);
        out = x;
        return true;
    }
    if (atoms[a].k != A_ITE) return false;
    Atom at = atoms[a];
    auto arm = [&](Expr* x, Lin& o) {
        Lin v = linScale(x->l, k);
        v.c += l.c;
        return mapConstIte(v, f, o, depth + 1);
    };
    Lin x, y;
    if (!arm(at.x, x) || !arm(at.y, y)) return false;
    if (x.t.empty() && y.t.empty() && x.c == y.c) { out = x; return true; }
    if (x.t.empty() && y.t.empty()) {
        // (x-y)*b + y
        Lin b = boolToLin(at.b);
        out = linScale(b, x.c - y.c);
        out.c += y.c;
        return true;
    }
    out = atomLin(mkIteAtom(at.b, linExpr(x), linExpr(y)));
    return true;
}

// ------------------------------------------------------------ instr hooks
extern "C" {

void* __sx_bin(uint32_t op, uint32_t w, void* psa, uint64_t ca, void* psb, uint64_t cb, uint64_t res) {
    Expr *sa = (Expr*)psa, *sb = (Expr*)psb;
    if (w == 1) {
        Expr *a = shBool(sa, ca), *b = shBool(sb, cb);
        switch (op) {
        case 10: case 2: return retBool(mkAnd(a, b));
        case 11: return retBool(mkOr(a, b));
        case 0: case 1: case 12:
            return retBool(mkOr(mkAnd(a, mkNot(b)), mkAnd(mkNot(a), b)));
        default:
            if (sa) branchOn(a, ca & 1, 900010);
            if (sb) branchOn(b, cb & 1, 900011);
            return nullptr;
        }
    }
    i128 m = pow2(w);
    auto fallback = [&]() -> void* {
        if (sa) concretizeLin(getLin(sa, ca, w), 900100 + op);
        if (sb) concretizeLin(getLin(sb, cb, w), 900200 + op);
        return nullptr;
    };
    switch (op) {
    case 0: return finish(linAdd(getLin(sa, ca, w, true), getLin(sb, cb, w, true)), w, res, "add");
    case 1: return finish(linAdd(getLin(sa, ca, w, true), getLin(sb, cb, w, true), -1), w, res, "sub");
    case 2: {
        Lin a = getLin(sa, ca, w, true), b = getLin(sb, cb, w, true);
        if (!a.t.empty() && !b.t.empty()) {
            // bool * x
            if (is01(b)) std::swap(a, b);
            if (is01(a)) {
                Expr* c = linToBool(a);
                if (c->bk == B_CONST) return finish(c->conc ? b : linConst(0), w, res, "mul");
                return finish(atomLin(mkIteAtom(c, linExpr(b), constLinExpr(0))), w, res, "mul");
            }
            i128 al, ah, bl, bh;
            linRange(a, al, ah);
            linRange(b, bl, bh);
            if (bh - bl < ah - al) std::swap(a, b);
            concretizeLin(a, 900012);
            a = linConst(linConc(a));
        }
        if (!b.t.empty()) std::swap(a, b);
        return finish(linScale(a, b.c), w, res, "mul");
    }
    case 3: case 5: {  // udiv urem
        if (sb) { concretizeLin(getLin(sb, cb, w), 900013); }
        if (!sa) return nullptr;
        i128 d = w < 64 ? (cb & ((1ull << w) - 1)) : cb;
        if (d == 0) return nullptr;
        Lin u = normU(getLin(sa, ca, w), w), q, r;
        splitDiv(u, d, q, r);
        return finish(op == 3 ? q : r, w, res, "udiv");
    }
    case 4: case 6: {
        if (sb) concretizeLin(getLin(sb, cb, w), 900014);
        if (!sa) return nullptr;
        Lin d = getLin(nullptr, cb, w, true);
        Lin a = normS(getLin(sa, ca, w), w);
        i128 lo, hi;
        linRange(a, lo, hi);
        if (d.c <= 0) return fallback();
        if (lo < 0) {
            if (hi <= 0) {
                Lin q, r;
                splitDiv(linScale(a, -1), d.c, q, r);
                return finish(linScale(op == 4 ? q : r, -1), w, res, "sdiv");
            }
            // split on sign
            Expr* nn = mkLE(linScale(a, -1));
            branchOn(nn, linConc(a) >= 0, 900015);
            linRange(a, lo, hi);
            bool neg = linConc(a) < 0;
            Lin q, r;
            splitDiv(neg ? linScale(a, -1) : a, d.c, q, r);
            Lin o = op == 4 ? q : r;
            return finish(neg ? linScale(o, -1) : o, w, res, "sdiv");
        }
        Lin q, r;
        splitDiv(a, d.c, q, r);
        return finish(op == 4 ? q : r, w, res, "sdiv");
    }
    case 7:  // shl
        if (sb) concretizeLin(getLin(sb, cb, w), 900016);
        if (!sa) return nullptr;
        if (cb >= w) return nullptr;
        {
            Lin u = linScale(getLin(sa, ca, w), pow2(cb));
            // shifted-out multiples may exceed the limit: normalise first
            if (linBig(u)) u = linScale(normU(getLin(sa, ca, w), w), pow2(cb));
            if (linBig(u)) return fallback();
            return finish(u, w, res, "shl");
        }
    case 8: case 9: {
        if (sb) concretizeLin(getLin(sb, cb, w), 900017);
        if (!sa) return nullptr;
        if (cb >= w) return nullptr;
        Lin u = op == 8 ? normU(getLin(sa, ca, w), w) : normS(getLin(sa, ca, w), w);
        Lin q, r;
        splitDiv(u, pow2(cb), q, r);
        return finish(q, w, res, "shr");
    }
    case 10: case 11: case 12: {
        if (!sa) { std::swap(sa, sb); std::swap(ca, cb); }
        Lin a = getLin(sa, ca, w);
        if (!sb) {
            uint64_t k = w < 64 ? (cb & ((1ull << w) - 1)) : cb;
            uint64_t full = w < 64 ? ((1ull << w) - 1) : ~0ull;
            if (op == 12 && k == full) {  // not
                Lin r = linScale(a, -1);
                r.c -= 1;
                return finish(r, w, res, "not");
            }
            if (op == 10 && k == 0) return nullptr;
            if (op != 10 && k == 0) return finish(a, w, res, "id");
            a = normU(a, w);
            if (op == 10) {
                if (((k + 1) & k) == 0) {  // low mask
                    i128 lo, hi;
                    linRange(a, lo, hi);
                    if (lo >= 0 && hi <= (i128)k) return finish(a, w, res, "and");
                    if (k == full) return finish(a, w, res, "and");
                    Lin q, r;
                    splitDiv(a, (i128)k + 1, q, r);
                    return finish(r, w, res, "and");
                }
                uint64_t nk = full & ~k;
                if (((nk + 1) & nk) == 0) {  // high mask
                    Lin q, r;
                    splitDiv(a, (i128)nk + 1, q, r);
                    return finish(linAdd(a, r, -1), w, res, "and");
                }
            }
            i128 lo, hi;
            linRange(a, lo, hi);
            if (op == 12 && is01(a) && k == 1) {
                Lin r = linScale(a, -1);
                r.c += 1;
                return finish(r, w, res, "xor1");
            }
            if (op == 11 && lo >= 0 && (k & 1) == 0) {
                // disjoint low bits?
                uint64_t low = k & (~k + 1);
                if (hi < (i128)low) { Lin r = a; r.c += k; return finish(r, w, res, "or"); }
            }
            Lin o;
            auto f = [&](i128 v) -> i128 {
                uint64_t x = (uint64_t)fmod_(v, m);
                return (i128)(op == 10 ? (x & k) : op == 11 ? (x | k) : (x ^ k));
            };
            if (mapConstIte(a, f, o)) return finish(o, w, res, "logic");
            // a single power-of-two mask: bit extraction
            if (op == 10 && (k & (k - 1)) == 0) {
                Lin q, r, q2, r2;
                splitDiv(a, (i128)k, q, r);
                splitDiv(q, 2, q2, r2);
                return finish(linScale(r2, (i128)k), w, res, "bit");
            }
            return fallback();
        }
        Lin b = getLin(sb, cb, w);
        if (is01(a) && is01(b)) {
            Expr *x = linToBool(a), *y = linToBool(b);
            Expr* r = op == 10 ? mkAnd(x, y) : op == 11 ? mkOr(x, y)
                      : mkOr(mkAnd(x, mkNot(y)), mkAnd(mkNot(x), y));
            return finish(boolToLin(r), w, res, "blogic");
        }
        a = normU(a, w);
        b = normU(b, w);
        if (op != 10) {
            for (int sw = 0; sw < 2; ++sw) {
                // a multiple of 2^k, b < 2^k
                i128 lo, hi;
                linRange(b, lo, hi);
                i128 p = 1;
                while (p <= hi) p *= 2;
                bool mult = a.c % p == 0;
                for (auto& [x, k] : a.t) if (k % p) mult = false;
                if (mult && lo >= 0) return finish(linAdd(a, b), w, res, "ordisj");
                std::swap(a, b);
            }
        }
        if (is01(b)) std::swap(a, b);
        if (op == 10 && is01(a)) {
            Lin q, r;
            splitDiv(b, 2, q, r);
            if (is01(r))
                return finish(boolToLin(mkAnd(linToBool(a), linToBool(r))), w, res, "and01");
        }
        return fallback();
    }
    }
    return fallback();
}

void* __sx_cmp(uint32_t pred, uint32_t w, void* psa, uint64_t ca, void* psb, uint64_t cb, uint64_t res) {
    Expr *sa = (Expr*)psa, *sb = (Expr*)psb;
    Expr* r;
    if (w == 1) {
        Expr *a = shBool(sa, ca), *b = shBool(sb, cb);
        Expr* x = mkOr(mkAnd(a, mkNot(b)), mkAnd(mkNot(a), b));
        switch (pred) {
        case 32: r = mkNot(x); break;           // eq
        case 33: r = x; break;                  // ne
        case 34: case 40: r = pred == 34 ? mkAnd(a, mkNot(b)) : mkAnd(b, mkNot(a)); break;  // ugt / slt
        case 35: case 41: r = pred == 35 ? mkOr(a, mkNot(b)) : mkOr(b, mkNot(a)); break;    // uge / sle... see below
        default: r = nullptr;
        }
        // remaining predicates through concretisation
        if (pred == 36) r = mkAnd(b, mkNot(a));
        else if (pred == 37) r = mkOr(b, mkNot(a));
        else if (pred == 38) r = mkAnd(b, mkNot(a));
        else if (pred == 39) r = mkOr(b, mkNot(a));
        else if (pred == 40) r = mkAnd(a, mkNot(b));
        else if (pred == 41) r = mkOr(a, mkNot(b));
        if ((bool)r->conc != (bool)(res & 1)) engineAbort("i1 cmp mismatch pred %u", pred);
        return retBool(r);
    }
    if (pred == 32 || pred == 33) {
        Lin a = getLin(sa, ca, w), b = getLin(sb, cb, w);
        Lin d = linAdd(a, b, -1);
        i128 lo, hi, m = pow2(w);
        linRange(d, lo, hi);
        if (!(lo > -m && hi < m)) {
            d = linAdd(normU(a, w), normU(b, w), -1);
        }
        r = mkEQ(d);
        if (pred == 33) r = mkNot(r);
    } else {
        bool sg = pred >= 38;
        Lin a = sg ? normS(getLin(sa, ca, w, true), w) : normU(getLin(sa, ca, w), w);
        Lin b = sg ? normS(getLin(sb, cb, w, true), w) : normU(getLin(sb, cb, w), w);
        Lin d;
        switch (pred) {
        case 34: case 38: d = linAdd(b, a, -1); d.c += 1; break;  // a>b: b-a+1<=0
        case 35: case 39: d = linAdd(b, a, -1); break;            // a>=b
        case 36: case 40: d = linAdd(a, b, -1); d.c += 1; break;  // a<b
        default: d = linAdd(a, b, -1);                            // a<=b
        }
        r = mkLE(d);
    }
    if ((bool)r->conc != (bool)(res & 1)) engineAbort("cmp mismatch pred %u w %u", pred, w);
    return retBool(r);
}

void* __sx_cast(uint32_t op, uint32_t fw, uint32_t tw, void* ps, uint64_t c, uint64_t res) {
    Expr* s = (Expr*)ps;
    if (op == 0) {  // trunc
        Lin l = getLin(s, c, fw);
        if (tw == 1) {
            i128 lo, hi;
            l = normU(l, fw);
            linRange(l, lo, hi);
            if (!(lo >= 0 && hi <= 1)) {
                Lin q, r;
                splitDiv(l, 2, q, r);
                l = r;
            }
            Expr* b = linToBool(l);
            if ((bool)b->conc != (bool)(res & 1)) engineAbort("trunc1 mismatch");
            return retBool(b);
        }
        i128 lo, hi;
        linRange(l, lo, hi);
        if (lo < 0 || hi >= pow2(tw)) {
            // drop whole multiples eagerly
            Lin r;
            r.c = l.c;
            for (auto& [a, k] : l.t) if (k % pow2(tw)) r.t.push_back({a, k});
            l = r;
        }
        return finish(l, tw, res, "trunc");
    }
    if (s->isBool) {
        Lin l = boolToLin(s);
        if (op == 2) l = linScale(l, -1);
        return finish(l, tw, res, "ext1");
    }
    Lin l = op == 1 ? normU(getLin(s, c, fw), fw) : normS(getLin(s, c, fw), fw);
    return finish(l, tw, res, "ext");
}

void __sx_branch(void* s, uint64_t c, uint32_t site) { branchOn(shBool((Expr*)s, c), c & 1, site); }

void* __sx_select(uint32_t w, void* psc, uint64_t c, void* psa, uint64_t a, void* psb, uint64_t b) {
    Expr *sc = (Expr*)psc, *sa = (Expr*)psa, *sb = (Expr*)psb;
    if (!sc) return (c & 1) ? sa : sb;
    Expr* cond = simplify(shBool(sc, c));
    if (cond->bk == B_CONST) return (c & 1) ? sa : sb;
    if (w == 1) {
        Expr *x = shBool(sa, a), *y = shBool(sb, b);
        if (x == y) return retBool(x);
        return retBool(mkOr(mkAnd(cond, x), mkAnd(mkNot(cond), y)));
    }
    if (g_forkSelects) { branchOn(cond, c & 1, 900020); return (c & 1) ? sa : sb; }
    Lin x = getLin(sa, a, w), y = getLin(sb, b, w);
    if (x.t == y.t && x.c == y.c) return mkInt(x);
    uint64_t res = (c & 1) ? a : b;
    if (x.t == y.t) {
        Lin r = linScale(boolToLin(cond), x.c - y.c);
        r = linAdd(r, y);
        return finish(r, w, res, "sel");
    }
    return finish(atomLin(mkIteAtom(cond, linExpr(x), linExpr(y))), w, res, "select");
}

void __sx_switch(void* ps, uint32_t w, uint64_t c, const uint64_t* vals, uint32_t n, uint32_t site) {
    Expr* s = (Expr*)ps;
    Lin l = normU(getLin(s, c, w), w);
    uint64_t cm = w < 64 ? c & ((1ull << w) - 1) : c;
    i128 pick = n;
    for (uint32_t i = 0; i < n; ++i)
        if (vals[i] == cm) pick = i;
    branchMulti(pick, [&](i128 q) {
        auto eq = [&](uint32_t i) { Lin d = l; d.c -= (i128)vals[i]; return mkEQ(d); };
        if (q < (i128)n) return eq((uint32_t)q);
        Expr* none = mkBoolConst(true);
        for (uint32_t i = 0; i < n; ++i) none = mkAnd(none, mkNot(eq(i)));
        return none;
    }, site);
}

void __sx_concretize(void* ps, uint32_t w, uint64_t c) {
    Expr* s = (Expr*)ps;
    if (s->isBool) branchOn(s, c & 1, 900030);
    else concretizeLin(s->l, 900031);
}
void __sx_concretize_self(void* ps) {
    Expr* s = (Expr*)ps;
    if (s->isBool) branchOn(s, s->conc, 900032);
    else concretizeLin(s->l, 900033);
}

// ------------------------------------------------------------ shadow memory
struct Page { uint64_t b[4096]; };  // (expr pointer << 8 | index) ; 0 = none
static std::unordered_map<uint64_t, Page*> g_pages;
static uint64_t g_lastPn = ~0ull;
static Page* g_lastPg = nullptr;
static Page* findPage(uint64_t pn) {
    if (pn == g_lastPn) return g_lastPg;
    auto it = g_pages.find(pn);
    g_lastPn = pn;
    return g_lastPg = (it == g_pages.end() ? nullptr : it->second);
}
static Page* getPage(uint64_t pn) {
    Page* p = findPage(pn);
    if (p) return p;
    p = (Page*)calloc(1, sizeof(Page));
    g_pages[pn] = p;
    g_lastPn = pn;
    g_lastPg = p;
    __sx_filter[pn & 0xffff] = 1;
    return p;
}
static inline uint64_t getB(uint64_t a) {
    Page* p = findPage(a >> 12);
    return p ? p->b[a & 4095] : 0;
}
static inline void setB(uint64_t a, uint64_t v) {
    if (v) getPage(a >> 12)->b[a & 4095] = v;
    else if (Page* p = findPage(a >> 12)) p->b[a & 4095] = 0;
}
static inline Expr* bExpr(uint64_t v) { return (Expr*)(v >> 8); }
static inline unsigned bIdx(uint64_t v) { return v & 0xff; }

static Expr* loadRange(const uint8_t* p, unsigned size, uint64_t conc) {
    uint64_t a = (uint64_t)p;
    uint64_t v[8];
    bool any = false;
    for (unsigned i = 0; i < size; ++i) { v[i] = getB(a + i); any |= v[i] != 0; }
    if (!any) return nullptr;
    // stale bytes: the memory was overwritten behind our back
    for (unsigned i = 0; i < size; ++i)
        if (v[i]) {
            uint8_t eb = (uint8_t)fmod_(fdiv(bExpr(v[i])->conc, pow2(8 * bIdx(v[i]))), 256);
            if (eb != (uint8_t)(conc >> (8 * i))) { v[i] = 0; setB(a + i, 0); ++g_stale; }
        }
    Lin acc;
    unsigned i = 0;
    while (i < size) {
        if (!v[i]) { acc.c += (i128)(uint8_t)(conc >> (8 * i)) << (8 * i); ++i; continue; }
        unsigned j = i + 1;
        while (j < size && v[j] && bExpr(v[j]) == bExpr(v[i]) && bIdx(v[j]) == bIdx(v[i]) + (j - i)) ++j;
        Expr* e = bExpr(v[i]);
        Lin l = e->isBool ? boolToLin(e) : e->l;
        unsigned lo = bIdx(v[i]), n = j - i;
        if (i == 0 && n == size && lo == 0) return e;  // value mod 2^(8n)
        Lin q, r;
        splitDiv(l, pow2(8 * lo), q, r);
        Lin part = normU(q, 8 * n);
        acc = linAdd(acc, linScale(part, pow2(8 * i)));
        i = j;
    }
    if (acc.t.empty()) return nullptr;
    return mkInt(acc);
}

void* __sx_load(void* p, uint32_t size, uint32_t w, uint64_t conc) {
    // `conc` was read from memory before this call
    Expr* e = loadRange((uint8_t*)p, size, conc);
    if (!e) return nullptr;
    uint64_t m = (uint64_t)fmod_(e->conc, pow2(w));
    if (m != (w < 64 ? conc & ((1ull << w) - 1) : conc)) {
        ++g_stale;
        return nullptr;
    }
    if (w == 1) return retBool(shBool(e, conc));
    if (e->isBool) return mkInt(boolToLin(e));
    return e->l.t.empty() ? nullptr : e;
}
void __sx_load_opaque(void* p, uint64_t size) {
    uint64_t a = (uint64_t)p;
    for (uint64_t i = 0; i < size; ++i) {
        uint64_t v = getB(a + i);
        if (!v) continue;
        Expr* e = bExpr(v);
        uint8_t eb = (uint8_t)fmod_(fdiv(e->conc, pow2(8 * bIdx(v))), 256);
        if (eb != ((uint8_t*)p)[i]) { setB(a + i, 0); ++g_stale; continue; }
        __sx_concretize_self(e);
        setB(a + i, 0);
    }
}
void __sx_store(void* p, uint64_t size, uint32_t w, void* s, uint64_t conc) {
    uint64_t a = (uint64_t)p;
    if (s) {
        for (uint64_t i = 0; i < size; ++i) setB(a + i, ((uint64_t)s << 8) | i);
    } else
        for (uint64_t i = 0; i < size; ++i) setB(a + i, 0);
}
static bool anyPage(uint64_t a, uint64_t n) {
    if (!n || g_pages.empty()) return false;
    if (((a + n - 1) >> 12) - (a >> 12) > g_pages.size() * 4 + 64) return true;
    for (uint64_t p = a >> 12; p <= (a + n - 1) >> 12; ++p)
        if (__sx_filter[p & 0xffff] && findPage(p)) return true;
    return false;
}
void __sx_clear(void* p, uint64_t n) {
    if (g_pages.empty() || !n) return;
    uint64_t a = (uint64_t)p, end = a + n;
    while (a < end) {
        uint64_t pe = std::min(end, (a | 4095) + 1);
        if (__sx_filter[(a >> 12) & 0xffff])
            if (Page* pg = findPage(a >> 12)) memset(&pg->b[a & 4095], 0, (pe - a) * 8);
        a = pe;
    }
}
void __sx_memcpy(void* d, void* s, uint64_t n) {
    if (g_pages.empty() || !n || d == s) return;
    if (!anyPage((uint64_t)s, n)) { __sx_clear(d, n); return; }
    std::vector<uint64_t> tmp(n);
    for (uint64_t i = 0; i < n; ++i) tmp[i] = getB((uint64_t)s + i);
    for (uint64_t i = 0; i < n; ++i) setB((uint64_t)d + i, tmp[i]);
}
void __sx_memset(void* d, void* s, uint64_t v, uint64_t n) {
    if (!s) { __sx_clear(d, n); return; }
    for (uint64_t i = 0; i < n; ++i) setB((uint64_t)d + i, ((uint64_t)s << 8));
}
void __sx_byval(void* d, void* s, uint64_t n) {
    if (s) __sx_memcpy(d, s, n);
    else __sx_clear(d, n);
}
void __sx_extern_ptr(void* p, const char* name) {
    if (g_pages.empty()) return;
    // an unmodelled external function may read what it is pointed to
    uint64_t a = (uint64_t)p;
    if (!__sx_filter[(a >> 12) & 0xffff]) return;
    bool hit = false;
    for (int i = 0; i < 32; ++i)
        if (getB(a + i)) { hit = true; break; }
    if (!hit) return;
    ++g_externptr;
    g_externNames.insert(name);
    __sx_load_opaque(p, 32);
}
// pages of the pass' registration
static const char* g_covTable = "";
void __sx_register(const char* t) { g_covTable = t; }

}  // extern C

// -------------------------------------------------------------- harness API
static void retShadow(void* tag, void* s) {
    __sx_ret[0] = s;
    __sx_rettag = tag;
}
static Expr* argShadow(void* tag, int i) {
    return __sx_argtag == tag ? (Expr*)__sx_args[i] : nullptr;
}
static bool g_replay = false;
static int g_rndLeft = 0;
static uint64_t g_rndSpan = 0;
static int g_timeout = 20;

static uint64_t freshVar(const char* name, i128 lo, i128 hi, i128 dflt, Expr** out) {
    size_t i = vars.size();
    i128 v = i < g_input.size() ? g_input[i] : dflt;
    if (v < lo) v = lo;
    if (v > hi) v = hi;
    Var var{name, lo, hi, v, path.size()};
    vars.push_back(var);
    Atom a;
    a.k = A_VAR;
    a.lo = lo; a.hi = hi; a.conc = v;
    a.var = i;
    atoms.push_back(a);
    pushPath({P_VAR, nullptr, (int)i, nullptr, (uint32_t)i, vars.size()});
    *out = lo == hi ? nullptr : mkInt(atomLin(atoms.size() - 1));
    return (uint64_t)v;
}

struct Harness { const char* name; sx_harness_fn f; };
static std::vector<Harness>& harnesses() { static std::vector<Harness> h; return h; }
sx_reg::sx_reg(const char* name, sx_harness_fn f) { harnesses().push_back({name, f}); }

extern "C" {
uint64_t sx_int(const char* name, int64_t lo, int64_t hi) {
    Expr* e;
    __sx_argtag = nullptr;
    uint64_t v = freshVar(name, lo, hi, lo, &e);
    retShadow((void*)sx_int, e);
    return v;
}
bool sx_bool(const char* name) {
    Expr* e;
    uint64_t v = freshVar(name, 0, 1, 0, &e);
    retShadow((void*)sx_bool, linToBool(e->l));
    return v;
}
uint64_t sx_ite(bool c, uint64_t a, uint64_t b) {
    Expr *sc = argShadow((void*)sx_ite, 0), *sa = argShadow((void*)sx_ite, 1), *sb = argShadow((void*)sx_ite, 2);
    bool f = g_forkSelects;
    g_forkSelects = false;
    void* r = (sc || sa || sb) ? __sx_select(64, sc, c, sa, a, sb, b) : nullptr;
    g_forkSelects = f;
    retShadow((void*)sx_ite, r);
    return c ? a : b;
}
uint64_t sx_concrete(uint64_t v) {
    Expr* s = argShadow((void*)sx_concrete, 0);
    if (s) __sx_concretize(s, 64, v);
    retShadow((void*)sx_concrete, nullptr);
    return v;
}
void sx_assume(bool c) {
    Expr* s = argShadow((void*)sx_assume, 0);
    if (!s) {
        if (!c) endRun("assume", "");
        return;
    }
    Expr* b = simplify(shBool(s, c));
    if (b->bk == B_CONST) {
        if (!c) endRun("assume", "");
        return;
    }
    if (!c) {
        pushPath({P_BRANCH, mkNot(b), -1, nullptr, 900040, vars.size()});
        endRun("assume", "");
    }
    pushPath({P_ASSUME, b, -1, nullptr, 900040, vars.size()});
    learn(b);
}
static uint64_t g_assertsTrivial = 0;
void sx_assert(bool c, const char* msg) {
    Expr* s = argShadow((void*)sx_assert, 0);
    Expr* b = s ? simplify(shBool(s, c)) : mkBoolConst(c);
    if (b->bk == B_CONST && !b->conc) {
        // fails for every input on this path
        pushPath({P_ASSERT, b, -1, msg, 900041, vars.size()});
        endRun("assertfail", msg);
    }
    if (b->bk == B_CONST) { ++g_assertsTrivial; return; }
    pushPath({P_ASSERT, b, -1, msg, 900041, vars.size()});
    if (!c) endRun("assertfail", msg);
}
void sx_cover(const char* label) { g_covers.insert(label); }
void sx_note(const char* s, uint64_t v) { g_notes.push_back({s, v}); if (g_replay) fprintf(stderr, "  note %s = %llu\n", s, (unsigned long long)v); }
void sx_symbolic_random(int n, uint64_t span) { g_rndLeft = n; g_rndSpan = span; }
uint64_t sx_model_random(uint64_t conc) {
    if (g_rndLeft == 0 || !g_running) {
        retShadow((void*)sx_model_random, nullptr);
        return conc;
    }
    if (g_rndLeft > 0) --g_rndLeft;
    Expr* e;
    i128 hi = g_rndSpan ? (i128)g_rndSpan - 1 : (i128)0xffffffffu;
    uint64_t v = freshVar("rnd", 0, hi, 0, &e);
    retShadow((void*)sx_model_random, e);
    return v;
}
void sx_fork_selects(bool on) { g_forkSelects = on; }
void sx_timeout(int s) { g_timeout = s; if (!g_replay) alarm(s); }
bool sx_replaying() { return g_replay; }

// ------- files with symbolic contents
struct SymFile { std::string path; std::vector<Expr*> sh; std::vector<uint8_t> data; size_t pos; };
static std::vector<SymFile> g_files;
void sx_file_bytes(const char* path, const unsigned char* data, size_t n) {
    FILE* f = fopen(path, "wb");
    if (!f) engineAbort("cannot write %s", path);
    fwrite(data, 1, n, f);
    fclose(f);
    SymFile sf;
    sf.path = path;
    sf.pos = 0;
    for (size_t i = 0; i < n; ++i) {
        uint64_t v = getB((uint64_t)data + i);
        Expr* e = nullptr;
        if (v) {
            Lin q, r;
            Expr* b = bExpr(v);
            splitDiv(b->isBool ? boolToLin(b) : b->l, pow2(8 * bIdx(v)), q, r);
            e = mkInt(normU(q, 8));
        }
        sf.sh.push_back(e);
        sf.data.push_back(data[i]);
    }
    g_files.clear();
    g_files.push_back(sf);
}
// model of std::getline(istream&, string&) on the (single) symbolic file: the
// real call has produced the line; attach the byte shadows and constrain the
// line boundary
void __sx_after_getline(void* stream, void* strp) {
    if (g_files.empty()) return;
    SymFile& f = g_files.back();
    struct S { char* p; size_t n; };
    S* s = (S*)strp;
    __sx_clear(strp, 32);
    // find the line at the current position
    if (f.pos >= f.data.size()) return;
    size_t i = 0;
    for (; f.pos + i < f.data.size(); ++i) {
        Expr* e = f.sh[f.pos + i];
        bool nl = f.data[f.pos + i] == '\n';
        if (e) {
            Lin d = e->l;
            d.c -= '\n';
            branchOn(mkEQ(d), nl, 900050);
        }
        if (nl) break;
    }
    if (i != s->n) return;  // another stream (stringstream)
    if (memcmp(s->p, &f.data[f.pos], i) != 0) return;
    __sx_clear(s->p, s->n + 1);
    for (size_t k = 0; k < i; ++k)
        if (Expr* e = f.sh[f.pos + k]) setB((uint64_t)s->p + k, ((uint64_t)e << 8));
    f.pos += i + 1;
}
}

extern "C" {
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) {
    __sx_on_exit(c);
    __real_exit(c);
}
}
static uint64_t sched_choose(const char* name, int n) {
    Expr* e;
    uint64_t v = freshVar(name, 0, n - 1, 0, &e);
    if (e) concretizeLin(e->l, 900060);
    return v;
}
[[noreturn]] static void sched_fail(const char* st, const char* msg) { endRun(st, msg); }
#include "sxsched.h"

// ---------------------------------------------------------------- z3 layer
static Z3_context Z;
static std::vector<Z3_ast> zvars;
static std::unordered_map<int, Z3_ast> zatoms;
static std::unordered_map<uint32_t, Z3_ast> zbools;
static Z3_sort zInt;
static Z3_solver zs;
static void zerr(Z3_context c, Z3_error_code e) {
    fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
    _exit(98);
}
static std::string i128s(i128 v) {
    bool n = v < 0;
    u128 u = n ? -(u128)v : (u128)v;
    std::string s;
    do { s.insert(s.begin(), '0' + (int)(u % 10)); u /= 10; } while (u);
    return n ? "-" + s : s;
}
static Z3_ast zNum(i128 v) { return Z3_mk_numeral(Z, i128s(v).c_str(), zInt); }
static Z3_ast zBool(Expr* e);
static Z3_ast zLin(const Lin& l);
static Z3_ast zAtom(int a) {
    auto it = zatoms.find(a);
    if (it != zatoms.end()) return it->second;
    Atom& at = atoms[a];
    Z3_ast r;
    switch (at.k) {
    case A_VAR: r = zvars[at.var]; break;
    case A_ITE: r = Z3_mk_ite(Z, zBool(at.b), zLin(at.x->l), zLin(at.y->l)); break;
    case A_DIV: r = Z3_mk_div(Z, zLin(at.x->l), zNum(at.d)); break;
    default: r = Z3_mk_mod(Z, zLin(at.x->l), zNum(at.d));
    }
    zatoms[a] = r;
    return r;
}
static Z3_ast zLin(const Lin& l) {
    std::vector<Z3_ast> v;
    for (auto& [a, k] : l.t) {
        if (k == 1) v.push_back(zAtom(a));
        else { Z3_ast m[2] = {zNum(k), zAtom(a)}; v.push_back(Z3_mk_mul(Z, 2, m)); }
    }
    if (l.c != 0 || v.empty()) v.push_back(zNum(l.c));
    if (v.size() == 1) return v[0];
    return Z3_mk_add(Z, v.size(), v.data());
}
static Z3_ast zBool(Expr* e) {
    auto it = zbools.find(e->id);
    if (it != zbools.end()) return it->second;
    Z3_ast r;
    switch (e->bk) {
    case B_CONST: r = e->conc ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
    case B_LE: { Lin s = e->l; i128 c = s.c; s.c = 0; r = Z3_mk_le(Z, zLin(s), zNum(-c)); break; }
    case B_EQ: { Lin s = e->l; i128 c = s.c; s.c = 0; r = Z3_mk_eq(Z, zLin(s), zNum(-c)); break; }
    case B_NOT: r = Z3_mk_not(Z, zBool(e->p)); break;
    case B_AND: { Z3_ast m[2] = {zBool(e->p), zBool(e->q)}; r = Z3_mk_and(Z, 2, m); break; }
    default: { Z3_ast m[2] = {zBool(e->p), zBool(e->q)}; r = Z3_mk_or(Z, 2, m); break; }
    }
    zbools[e->id] = r;
    return r;
}

// ------------------------------------------------------------- child -> pipe
static int g_out = -1;
struct Msg {
    std::string b;
    void u8(uint8_t v) { b.push_back(v); }
    void u64(uint64_t v) { b.append((char*)&v, 8); }
    void i(i128 v) { b.append((char*)&v, 16); }
    void s(const std::string& x) { u64(x.size()); b += x; }
};
static void writeAll(int fd, const char* p, size_t n) {
    while (n) {
        ssize_t k = write(fd, p, n);
        if (k < 0) { if (errno == EINTR) continue; _exit(97); }
        p += k; n -= k;
    }
}
static void sendMsg(int fd, const Msg& m) {
    uint64_t n = m.b.size();
    std::string all((char*)&n, 8);
    all += m.b;
    writeAll(fd, all.data(), all.size());
}
struct Job {
    std::vector<i128> in;
    uint64_t bound = 0;  // path entries < bound are already decided
    uint64_t hash = 0;   // expected hash of the decided prefix
    uint64_t hashLen = 0;
    std::vector<i128> tried;  // outcomes of entry `bound` explored by ancestors
};
static void putJob(Msg& m, const Job& j) {
    m.u64(j.bound); m.u64(j.hash); m.u64(j.hashLen); m.u64(j.in.size());
    for (auto v : j.in) m.i(v);
    m.u64(j.tried.size());
    for (auto v : j.tried) m.i(v);
}
struct Rd {
    const char* p; const char* e;
    uint8_t u8() { return *p++; }
    uint64_t u64() { uint64_t v; memcpy(&v, p, 8); p += 8; return v; }
    i128 i() { i128 v; memcpy(&v, p, 16); p += 16; return v; }
    std::string s() { uint64_t n = u64(); std::string r(p, n); p += n; return r; }
};
static Job getJob(Rd& r) {
    Job j;
    j.bound = r.u64(); j.hash = r.u64(); j.hashLen = r.u64();
    uint64_t n = r.u64();
    for (uint64_t k = 0; k < n; ++k) j.in.push_back(r.i());
    n = r.u64();
    for (uint64_t k = 0; k < n; ++k) j.tried.push_back(r.i());
    return j;
}

static double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static void onSignal(int sig, siginfo_t*, void*) {
    if (!g_running) {
        if (sig == SIGALRM) {  // solver ran out of time
            Msg m; m.u8('T'); sendMsg(g_out, m);
        } else {
            Msg m; m.u8('X'); m.u64(sig); sendMsg(g_out, m);
        }
        _exit(96);
    }
    g_running = false;
    const char* st = sig == SIGALRM ? "hang" : "crash";
    g_status = st;
    g_failMsg = sig == SIGALRM ? "execution did not terminate in time" : strsignal(sig);
    siglongjmp(g_jmp, 2);
}
static char g_altstack[1 << 16];
static void installSignals() {
    stack_t ss;
    memset(&ss, 0, sizeof ss);
    ss.ss_sp = g_altstack;
    ss.ss_size = sizeof g_altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = onSignal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
}

// exit() inside the code under test ends the run
static bool g_catchExit = false;
static int g_exitCode = 0;
extern "C" void __sx_on_exit(int code) {
    if (g_running && g_catchExit) {
        g_exitCode = code;
        endRun("exit", "code under test called exit(" + std::to_string(code) + ")");
    }
}

static void runHarness(sx_harness_fn f) {
    g_jmpSet = true;
    sxheap::on = true;
    if (sigsetjmp(g_jmp, 1) == 0) {
        g_running = true;
        g_catchExit = true;
        try {
            f();
            g_running = false;
        } catch (std::exception& e) {
            g_running = false;
            g_status = "throw";
            g_failMsg = std::string("uncaught exception: ") + e.what();
        } catch (...) {
            g_running = false;
            g_status = "throw";
            g_failMsg = "uncaught exception";
        }
    }
    g_running = false;
    g_catchExit = false;
    sxheap::on = false;
}

static uint64_t g_queries = 0, g_unknown = 0, g_assertQueries = 0;
static double g_solverTime = 0;
static std::string g_dumpDir;
static int zcheck(Z3_ast assumption) {
    ++g_queries;
    double t = now();
    Z3_lbool r;
    Z3_solver_push(Z, zs);
    if (assumption) Z3_solver_assert(Z, zs, assumption);
    if (!g_dumpDir.empty() && (g_queries % 37) == 1) {
        std::string fn = g_dumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(g_queries) + ".smt2";
        if (FILE* f = fopen(fn.c_str(), "w")) {
            fprintf(f, "%s(check-sat)\n", Z3_solver_to_string(Z, zs));
            fclose(f);
        }
    }
    r = Z3_solver_check(Z, zs);
    if (!g_dumpDir.empty() && (g_queries % 37) == 1) {
        std::string fn = g_dumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(g_queries) + ".res";
        if (FILE* f = fopen(fn.c_str(), "w")) { fprintf(f, "%d\n", (int)r); fclose(f); }
    }
    g_solverTime += now() - t;
    if (r == Z3_L_UNDEF) ++g_unknown;
    return r;
}
static std::vector<i128> modelInput(size_t nv) {
    Z3_model m = Z3_solver_get_model(Z, zs);
    Z3_model_inc_ref(Z, m);
    std::vector<i128> in;
    for (size_t i = 0; i < nv; ++i) {
        Z3_ast v;
        i128 val = vars[i].conc;
        if (Z3_model_eval(Z, m, zvars[i], false, &v) && Z3_get_ast_kind(Z, v) == Z3_NUMERAL_AST) {
            std::string s = Z3_get_numeral_string(Z, v);
            bool neg = s[0] == '-';
            i128 x = 0;
            for (char c : s) if (c >= '0' && c <= '9') x = x * 10 + (c - '0');
            val = neg ? -x : x;
        }
        in.push_back(val);
    }
    Z3_model_dec_ref(Z, m);
    return in;
}
static std::vector<i128> currentInput(size_t nv) {
    std::vector<i128> in;
    for (size_t i = 0; i < nv && i < vars.size(); ++i) in.push_back(vars[i].conc);
    return in;
}

static bool g_crashOk = false;

static void reportViolation(const std::vector<i128>& in, const std::string& msg) {
    Msg m;
    m.u8('V');
    m.s(msg);
    m.u64(in.size());
    for (size_t i = 0; i < in.size(); ++i) { m.s(vars[i].name); m.i(in[i]); }
    sendMsg(g_out, m);
}

// one path: run, then decide all later branches and assertions
static void childMain(const Job& job, sx_harness_fn f) {
    g_input = job.in;
    g_jobBound = job.bound;
    g_jobTried = job.tried;
    installSignals();
    signal(SIGPIPE, SIG_DFL);
    alarm(g_timeout);
    runHarness(f);
    alarm(120);
    double t0 = now();
    if (job.hashLen > 0) {
        if (path.size() < job.hashLen || g_hashAt[job.hashLen - 1] != job.hash) {
            Msg m; m.u8('D');
            m.s(path.size() < job.hashLen ? "short" : "hash");
            sendMsg(g_out, m);
        }
    }
    Z3_set_error_handler(Z, zerr);
    for (size_t i = 0; i < vars.size(); ++i)
        zvars.push_back(Z3_mk_const(Z, Z3_mk_string_symbol(Z, ("v" + std::to_string(i)).c_str()), zInt));
    bool failed = g_status == "crash" || g_status == "hang" || g_status == "exit" || g_status == "throw" || g_status == "deadlock";
    uint64_t asserts = 0;
    for (size_t i = 0; i < path.size(); ++i) {
        PathEntry& pe = path[i];
        switch (pe.k) {
        case P_VAR:
            Z3_solver_assert(Z, zs, Z3_mk_ge(Z, zvars[pe.var], zNum(vars[pe.var].lo)));
            Z3_solver_assert(Z, zs, Z3_mk_le(Z, zvars[pe.var], zNum(vars[pe.var].hi)));
            break;
        case P_BRANCH: {
            Z3_ast lit = zBool(pe.e);
            if (i >= job.bound) {
                Z3_ast neg = Z3_mk_not(Z, lit);
                if (pe.excl) {
                    Z3_ast two[2] = {neg, zBool(pe.excl)};
                    neg = Z3_mk_and(Z, 2, two);
                }
                int r = zcheck(neg);
                if (r == Z3_L_TRUE) {
                    Job nj;
                    nj.in = modelInput(pe.nvars);
                    nj.bound = i + 1;
                    // the flipped literal may have another shape in the child:
                    // only the prefix before it is compared
                    nj.hashLen = i;
                    nj.hash = i ? g_hashAt[i - 1] : 0;
                    if (pe.multi) {
                        nj.bound = i;
                        if (i == job.bound) nj.tried = job.tried;
                        nj.tried.push_back(pe.choice);
                    }
                    Msg m; m.u8('J');
                    putJob(m, nj);
                    sendMsg(g_out, m);
                }
                Z3_solver_pop(Z, zs, 1);
            }
            Z3_solver_assert(Z, zs, lit);
            break;
        }
        case P_ASSUME:
            Z3_solver_assert(Z, zs, zBool(pe.e));
            break;
        case P_ASSERT: {
            Z3_ast c = zBool(pe.e);
            if (i >= job.bound) {
                ++asserts;
                ++g_assertQueries;
                int r = zcheck(Z3_mk_not(Z, c));
                if (r == Z3_L_TRUE) reportViolation(modelInput(pe.nvars), pe.msg);
                Z3_solver_pop(Z, zs, 1);
            }
            Z3_solver_assert(Z, zs, c);
            break;
        }
        }
    }
    if (failed && !g_crashOk) reportViolation(currentInput(vars.size()), g_status + ": " + g_failMsg);
    if (g_status == "engine") {
        Msg m; m.u8('E'); m.s(g_failMsg);
        sendMsg(g_out, m);
    }
    // path summary
    Msg m;
    m.u8('P');
    m.s(g_status);
    m.u64(path.size());
    m.u64(g_branches);
    m.u64(g_queries);
    m.u64(g_unknown);
    m.u64(g_assertQueries);
    m.u64(g_assertsTrivial);
    m.u64((uint64_t)(g_solverTime * 1e6));
    m.u64(g_stale);
    m.u64(g_concretized);
    m.u64(g_externptr);
    m.u64(vars.size());
    m.u64(g_covers.size());
    for (auto& c : g_covers) m.s(c);
    m.u64(g_externNames.size());
    for (auto& c : g_externNames) m.s(c);
    std::string cov;
    for (int i = 0; i < 16384; ++i) if (__sx_cov[i]) cov.append((char*)&i, 4);
    m.s(cov);
    // sample input
    auto in = currentInput(vars.size());
    m.u64(in.size());
    for (auto v : in) m.i(v);
    sendMsg(g_out, m);
    (void)t0;
    _exit(0);
}

// ---------------------------------------------------------------- main
static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

int sx_main(int argc, char** argv) {
    std::string name, json, replay;
    double budget = 60;
    int workers = 8, maxViol = 5;
    uint64_t maxPaths = ~0ull;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--harness") name = nx();
        else if (a == "--budget") budget = atof(nx().c_str());
        else if (a == "--workers") workers = atoi(nx().c_str());
        else if (a == "--json") json = nx();
        else if (a == "--max-branches") g_maxBranches = atoll(nx().c_str());
        else if (a == "--max-paths") maxPaths = atoll(nx().c_str());
        else if (a == "--max-viol") maxViol = atoi(nx().c_str());
        else if (a == "--dump") g_dumpDir = nx();
        else if (a == "--timeout") g_timeout = atoi(nx().c_str());
        else if (a == "--replay") replay = nx();
        else if (a == "--list") { for (auto& h : harnesses()) printf("%s\n", h.name); return 0; }
    }
    sx_harness_fn f = nullptr;
    for (auto& h : harnesses()) if (name == h.name) f = h.f;
    if (!f) { fprintf(stderr, "no harness %s\n", name.c_str()); return 2; }

    if (!replay.empty()) {  // same binary, concrete values, no solver
        g_replay = true;
        FILE* fp = fopen(replay.c_str(), "r");
        char nm[256]; long long v;
        while (fp && fscanf(fp, "%255s %lld", nm, &v) == 2) g_input.push_back(v);
        installSignals();
        alarm(60);
        runHarness(f);
        bool bad = g_status == "assertfail" || g_status == "crash" || g_status == "hang" || g_status == "exit" || g_status == "throw" || g_status == "deadlock";
        printf("REPLAY %s %s\n", g_status.c_str(), g_failMsg.c_str());
        return bad ? 1 : 0;
    }

    Z3_config cfg = Z3_mk_config();
    Z = Z3_mk_context(cfg);
    Z3_set_error_handler(Z, zerr);
    zInt = Z3_mk_int_sort(Z);
    zs = Z3_mk_simple_solver(Z);
    Z3_solver_inc_ref(Z, zs);
    {   // warm up
        Z3_solver_push(Z, zs);
        Z3_solver_check(Z, zs);
        Z3_solver_pop(Z, zs, 1);
    }
    double start = now();
    struct W { pid_t pid; int to, from; bool busy; std::string buf; };
    std::vector<W> ws;
    for (int i = 0; i < workers; ++i) {
        int a[2], b[2];
        if (pipe(a) || pipe(b)) return 3;
        pid_t p = fork();
        if (p == 0) {
            close(a[1]); close(b[0]);
            for (auto& w : ws) { close(w.to); close(w.from); }
            // worker loop
            while (true) {
                uint64_t n;
                size_t got = 0;
                while (got < 8) {
                    ssize_t k = read(a[0], (char*)&n + got, 8 - got);
                    if (k <= 0) _exit(0);
                    got += k;
                }
                std::string buf(n, 0);
                got = 0;
                while (got < n) {
                    ssize_t k = read(a[0], &buf[got], n - got);
                    if (k <= 0) _exit(0);
                    got += k;
                }
                Rd r{buf.data(), buf.data() + n};
                Job j = getJob(r);
                pid_t c = fork();
                if (c == 0) {
                    g_out = b[1];
                    prlimit(0, RLIMIT_CORE, nullptr, nullptr);
                    struct rlimit rl = {0, 0};
                    setrlimit(RLIMIT_CORE, &rl);
                    childMain(j, f);
                }
                int st;
                waitpid(c, &st, 0);
                Msg m;
                m.u8('.');
                m.u64(st);
                sendMsg(b[1], m);
            }
        }
        close(a[0]); close(b[1]);
        ws.push_back({p, a[1], b[0], false, ""});
    }
    std::vector<Job> queue;
    queue.emplace_back();
    uint64_t paths = 0, queries = 0, unknown = 0, aq = 0, at = 0, stale = 0, conc = 0, extp = 0,
             usec = 0, branches = 0, maxBr = 0, maxVars = 0, diverged = 0, engineErr = 0, timeouts = 0, badexit = 0;
    std::map<std::string, uint64_t> statuses;
    std::set<std::string> covers, externs, engineMsgs;
    std::set<int> cov;
    struct Viol { std::string msg; std::vector<std::pair<std::string, i128>> in; };
    std::vector<Viol> viols;
    std::map<std::string, int> violPerMsg;
    std::vector<std::vector<i128>> samples;
    bool stop = false, exhausted = false;
    size_t peak = 0;
    while (true) {
        int busy = 0;
        for (auto& w : ws) busy += w.busy;
        if (queue.empty() && !busy) { exhausted = !stop; break; }
        if (now() - start > budget || paths >= maxPaths) { stop = true; }
        if (stop) break;
        for (auto& w : ws)
            if (!w.busy && !queue.empty()) {
                Msg m;
                putJob(m, queue.back());
                queue.pop_back();
                sendMsg(w.to, m);
                w.busy = true;
            }
        peak = std::max(peak, queue.size());
        std::vector<struct pollfd> pf;
        for (auto& w : ws) pf.push_back({w.from, POLLIN, 0});
        poll(pf.data(), pf.size(), 200);
        for (size_t i = 0; i < ws.size(); ++i) {
            if (!(pf[i].revents & (POLLIN | POLLHUP))) continue;
            static char tmp[1 << 16];
            ssize_t k = read(ws[i].from, tmp, sizeof tmp);
            if (k <= 0) { ws[i].busy = false; ++badexit; stop = true; continue; }
            ws[i].buf.append(tmp, k);
            while (ws[i].buf.size() >= 8) {
                uint64_t n;
                memcpy(&n, ws[i].buf.data(), 8);
                if (ws[i].buf.size() < 8 + n) break;
                std::string body = ws[i].buf.substr(8, n);
                ws[i].buf.erase(0, 8 + n);
                Rd r{body.data(), body.data() + n};
                switch (r.u8()) {
                case 'J': queue.push_back(getJob(r)); break;
                case 'V': {
                    Viol v;
                    v.msg = r.s();
                    uint64_t c = r.u64();
                    for (uint64_t q = 0; q < c; ++q) { std::string nm = r.s(); v.in.push_back({nm, r.i()}); }
                    if (violPerMsg[v.msg]++ < 3) viols.push_back(v);
                    if ((int)viols.size() >= maxViol) stop = true;
                    break;
                }
                case 'D': ++diverged; break;
                case 'T': ++timeouts; break;
                case 'X': ++badexit; break;
                case 'E': ++engineErr; if (engineMsgs.size() < 20) engineMsgs.insert(r.s()); break;
                case 'P': {
                    ++paths;
                    statuses[r.s()]++;
                    r.u64();
                    uint64_t br = r.u64();
                    branches += br;
                    maxBr = std::max(maxBr, br);
                    queries += r.u64(); unknown += r.u64(); aq += r.u64(); at += r.u64();
                    usec += r.u64(); stale += r.u64(); conc += r.u64(); extp += r.u64();
                    maxVars = std::max(maxVars, r.u64());
                    uint64_t c = r.u64();
                    while (c--) covers.insert(r.s());
                    c = r.u64();
                    while (c--) externs.insert(r.s());
                    std::string cs = r.s();
                    for (size_t q = 0; q + 4 <= cs.size(); q += 4) { int id; memcpy(&id, &cs[q], 4); cov.insert(id); }
                    c = r.u64();
                    std::vector<i128> in;
                    while (c--) in.push_back(r.i());
                    if (samples.size() < 5) samples.push_back(in);
                    break;
                }
                case '.': {
                    uint64_t st = r.u64();
                    if (st) ++badexit;
                    ws[i].busy = false;
                    break;
                }
                }
            }
        }
    }
    for (auto& w : ws) { kill(w.pid, SIGKILL); }
    // children of killed workers: they hold the pipe only; wait for workers
    for (auto& w : ws) { close(w.to); close(w.from); waitpid(w.pid, nullptr, 0); }
    double wall = now() - start;
    bool clean = exhausted && !unknown && !diverged && !engineErr && !timeouts && !badexit && !statuses.count("truncated");
    std::vector<std::string> names;
    {
        std::string t = g_covTable;
        size_t p = 0;
        while (p < t.size()) { size_t e = t.find('\n', p); names.push_back(t.substr(p, e - p)); p = e + 1; }
    }
    std::string o = "{";
    auto num = [&](const char* k, uint64_t v) { o += jstr(k) + ":" + std::to_string(v) + ","; };
    o += "\"harness\":" + jstr(name) + ",";
    o += std::string("\"exhausted\":") + (clean ? "true" : "false") + ",";
    num("paths", paths); num("queue_left", queue.size()); num("branches", branches);
    num("max_branches_on_path", maxBr); num("max_symbolic_inputs", maxVars);
    num("queries", queries); num("unknown", unknown); num("assert_queries", aq);
    num("asserts_trivial", at); num("stale", stale); num("concretized", conc); num("extern_ptr", extp);
    num("diverged", diverged); num("engine_errors", engineErr); num("solver_timeouts", timeouts); num("bad_exits", badexit);
    num("peak_queue", peak);
    char b[64];
    snprintf(b, 64, "\"solver_s\":%.3f,\"wall_s\":%.3f,", usec * 1e-6, wall);
    o += b;
    o += "\"status\":{";
    bool first = true;
    for (auto& [k, v] : statuses) { if (!first) o += ","; first = false; o += jstr(k) + ":" + std::to_string(v); }
    o += "},\"covers\":[";
    first = true;
    for (auto& c : covers) { if (!first) o += ","; first = false; o += jstr(c); }
    o += "],\"externs\":[";
    first = true;
    for (auto& c : externs) { if (!first) o += ","; first = false; o += jstr(c); }
    o += "],\"engine_msgs\":[";
    first = true;
    for (auto& c : engineMsgs) { if (!first) o += ","; first = false; o += jstr(c); }
    o += "],\"functions\":[";
    first = true;
    std::set<std::string> fns;
    for (int id : cov) if (id < (int)names.size()) fns.insert(names[id]);
    for (auto& c : fns) { if (!first) o += ","; first = false; o += jstr(c); }
    o += "],\"samples\":[";
    first = true;
    for (auto& s : samples) {
        if (!first) o += ",";
        first = false;
        o += "[";
        for (size_t i = 0; i < s.size(); ++i) o += (i ? "," : "") + i128s(s[i]);
        o += "]";
    }
    o += "],\"violations\":[";
    first = true;
    for (auto& v : viols) {
        if (!first) o += ",";
        first = false;
        o += "{\"msg\":" + jstr(v.msg) + ",\"input\":[";
        for (size_t i = 0; i < v.in.size(); ++i)
            o += (i ? std::string(",") : "") + "[" + jstr(v.in[i].first) + "," + i128s(v.in[i].second) + "]";
        o += "]}";
    }
    o += "]}";
    if (!json.empty()) {
        FILE* fp = fopen(json.c_str(), "w");
        fprintf(fp, "%s\n", o.c_str());
        fclose(fp);
    } else printf("%s\n", o.c_str());
    return viols.empty() ? 0 : 1;
}
