// P18: multiterminal cut against the definition
#include <sys/stat.h>
#include <functional>
#include <optional>
#include <variant>
#include <condition_variable>
#include <mutex>
#include <atomic>
#include <future>
#include <numeric>
#include <cmath>
#include <unistd.h>
#include "vc.h"
#ifndef THREADS
#include "thr.h"
#endif
#include "algorithms/multicut/multiterminal_cut.h"
static uint64_t pick(const char* n, int hi) { return hi ? sx_concrete(sx_int(n, 0, hi)) : 0; }
// the vertices' possible blocks: terminals (mapping != k) are fixed
struct Inst {
    SymGraph s;
    std::vector<int> term;   // block of a terminal vertex, -1 otherwise
    int k = 0;
    std::vector<std::vector<int>> assignments() const {
        std::vector<std::vector<int>> r(1);
        for (int v = 0; v < s.n; ++v) {
            std::vector<std::vector<int>> q;
            for (auto& a : r)
                for (int b = 0; b < k; ++b)
                    if (term[v] < 0 || term[v] == b) { q.push_back(a); q.back().push_back(b); }
            r = q;
        }
        return r;
    }
    uint64_t cost(const std::vector<int>& a) const {
        uint64_t c = 0;
        for (int i = 0; i < s.n; ++i) for (int j = i + 1; j < s.n; ++j) if (s.has[i][j] && a[i] != a[j]) c += s.w[i][j];
        return c;
    }
};
static void optimal(const Inst& I, uint64_t r, const char* msg) {
    bool lo = true, hi = false;
    for (auto& a : I.assignments()) {
        uint64_t c = I.cost(a);
        lo &= r <= c;
        hi |= c <= r;
    }
    lo &= hi;
    sx_assert(lo, msg);
}
static Inst inst(SymGraph s, int k, bool anyTerm, int more = 0) {
    Inst I;
    std::vector<int> num(s.n);
    for (int v = 0; v < s.n; ++v) num[v] = v;
    if (!anyTerm && s.n >= 5) num = numbering(s.n);
    I.s = renumber(s, num);
    I.k = k;
    I.term.assign(s.n, -1);
    for (int b = 0; b < k; ++b) {
        std::vector<int> free;
        for (int v = 0; v < s.n; ++v) if (I.term[v] < 0) free.push_back(v);
        I.term[anyTerm ? free[pick("term", free.size() - 1)] : num[b]] = b;
    }
    // further vertices fixed to a block
    for (int m = 0; m < more; ++m) {
        std::vector<int> free;
        for (int v = 0; v < s.n; ++v) if (I.term[v] < 0) free.push_back(v);
        if (!free.empty()) I.term[free[pick("fix", free.size() - 1)]] = pick("block", k - 1);
    }
    return I;
}
static const char* SEL[] = {"heavy_vertex", "heavy", "heavy_global", "connection", "distance", "random"};
static const char* QT[] = {"bound_sum", "small_graph", "few_terminals", "upper_bound", "lower_bound", "bigger_distance", "lower_distance", "most_deleted"};
enum { SINGLE = 1, SAVE = 4, QUEUE = 8, SELS = 16, LATE = 32, INEXACT = 64, NOFLOWS = 128 };
static int WORKERS = 1;
static void solve(const Inst& I, int fl = 0) {
    quiet();
    auto c = cfg();
    c->threads = WORKERS;
    c->disable_cpu_affinity = true;
    c->multibranch = !(fl & SINGLE);
    c->write_solution = fl & SAVE;
    c->inexact = fl & INEXACT;
    if (fl & NOFLOWS) c->random_flows = c->high_distance_flows = 0;
    c->timeoutSeconds = 1000000;
    if (fl & QUEUE) c->queue_type = QT[pick("queue", 7)];
    if (fl & SELS) c->edge_selection = SEL[pick("rule", 5)];
#ifdef THREADS
    sx_timeout(20);
    sx_preempt(THREADS);
#else
    sxthr::late() = (fl & LATE) ? pick("late", 1) : false;
#endif
    auto G = toMutable(I.s);
    std::vector<NodeID> tm;
    for (int t : I.term) tm.push_back(t < 0 ? UNDEFINED_NODE : (NodeID)t);
    char dir[] = "/tmp/sxmcXXXXXX";
    if (fl & SAVE) { if (!mkdtemp(dir) || chdir(dir)) return; }
    multiterminal_cut mc;
    uint64_t r = mc.multicut(G, tm, I.k);
    if (r > 0) sx_cover("positive");
    if (fl & INEXACT) {
        bool some = false, lo = true;
        for (auto& a : I.assignments()) { uint64_t x = I.cost(a); some |= x == r; lo &= r <= x; (void)lo; }
        sx_assert(some, "the heuristic returns the weight of a multiterminal cut");
    } else {
        optimal(I, r, "the multiterminal cut is optimal");
    }
    if (fl & SAVE) {
        FILE* f = fopen("solution", "r");
        std::vector<int> a;
        int x;
        while (f && fscanf(f, "%d", &x) == 1) a.push_back(x);
        if (f) fclose(f);
        unlink("solution");
        if (!chdir("/")) rmdir(dir);
        sx_assert((int)a.size() == I.s.n, "the solution names every vertex");
        bool ok = true;
        for (int v = 0; v < I.s.n; ++v) ok &= a[v] >= 0 && a[v] < I.k && (I.term[v] < 0 || I.term[v] == a[v]);
        sx_assert(ok, "terminals lie in their own blocks");
        sx_assert(I.cost(a) == r, "the solution has the reported weight");
    }
}
SX_HARNESS(any3_2) { solve(inst(anyGraph(3, 1, 1000), 2, true)); }
SX_HARNESS(any3_3) { solve(inst(anyGraph(3, 1, 30), 3, true)); }
SX_HARNESS(any3_more) { solve(inst(anyGraph(3, 1, 3), 2, true, 1), SAVE); }
SX_HARNESS(wide3) { solve(inst(anyGraph(3, 1, 6000000000ll), 3, false), NOFLOWS); }
SX_HARNESS(wide4) { solve(inst(topoGraph(4, "03 13 23 01", 1, 6000000000ll), 3, false), NOFLOWS); }
SX_HARNESS(wide5) { solve(inst(topoGraph(5, "03 13 24 34 04", 1, 6000000000ll), 3, false), NOFLOWS); }
SX_HARNESS(wide6) { solve(inst(topoGraph(6, "03 14 25 34 35 45", 4294967290ll, 4294967300ll), 3, false), SAVE | NOFLOWS); }
SX_HARNESS(any4_2) { solve(inst(anyGraph(4, 1, 100, true), 2, false)); }
SX_HARNESS(any4_2more) { solve(inst(anyGraph(4, 1, 3, true), 2, false, 1)); }
SX_HARNESS(any4_3) { solve(inst(anyGraph(4, 1, 3, true), 3, false)); }
SX_HARNESS(any4_3s) { solve(inst(anyGraph(4, 1, 3, true), 3, false), SINGLE); }
SX_HARNESS(k4_3) { solve(inst(topoGraph(4, "01 02 03 12 13 23", 1, 20), 3, false)); }
SX_HARNESS(any4_4) { solve(inst(anyGraph(4, 1, 3, true), 4, false)); }
SX_HARNESS(any4_save) { solve(inst(anyGraph(4, 1, 3, true), 3, false), SAVE); }
SX_HARNESS(disc4_save) { solve(inst(anyGraph(4, 1, 3), 2, true), SAVE); }
SX_HARNESS(disc4) { solve(inst(anyGraph(4, 1, 3), 3, false)); }
SX_HARNESS(inexact4) { solve(inst(anyGraph(4, 1, 3, true), 3, false), INEXACT | SAVE); }
SX_HARNESS(any5_unit) { solve(inst(anyGraph(5, 1, 1, true), 3, false)); }
SX_HARNESS(any5_unit_rules) { solve(inst(anyGraph(5, 1, 1, true), 3, false), SELS | LATE); }
SX_HARNESS(any5_unit_queue) { solve(inst(anyGraph(5, 1, 1, true), 3, false), QUEUE | SINGLE); }
SX_HARNESS(any5_unit_save) { solve(inst(anyGraph(5, 1, 1, true), 3, false), SAVE); }
SX_HARNESS(any5_unit_inexact) { solve(inst(anyGraph(5, 1, 1, true), 3, false), INEXACT | SAVE); }
SX_HARNESS(any5_unit_more) { solve(inst(anyGraph(5, 1, 1, true), 2, false, 2), NOFLOWS); }
SX_HARNESS(k33_3) { solve(inst(topoGraph(6, "03 04 05 13 14 15 23 24 25 34 45", 1, 2), 3, false)); }
SX_HARNESS(k33_3s) { solve(inst(topoGraph(6, "03 04 05 13 14 15 23 24 25 34 45", 1, 2), 3, false), SINGLE | SELS); }
SX_HARNESS(five_3) { solve(inst(topoGraph(5, "03 04 13 14 23 24 34", 1, 3), 3, false), SAVE); }
SX_HARNESS(five_3s) { solve(inst(topoGraph(5, "03 04 13 14 23 24 34", 1, 3), 3, false), SINGLE | SAVE); }
SX_HARNESS(ring8) { solve(inst(topoGraph(8, "03 34 41 15 56 62 27 70 46 57 35 37", 1, 2), 3, false), SAVE); }
SX_HARNESS(ring8_branch) { solve(inst(topoGraph(8, "03 34 41 15 56 62 27 70 46 57 35 37", 1, 2), 3, false), SAVE | SINGLE | NOFLOWS); }
SX_HARNESS(grid9_4) { solve(inst(topoGraph(9, "04 05 14 16 27 25 38 36 45 56 67 78 84 47 58", 1, 2), 4, false), SAVE); }
SX_HARNESS(k5_5) { solve(inst(topoGraph(7, "05 06 15 16 25 26 35 36 45 46 56", 1, 2), 5, false), SAVE | LATE); }
static const char* TRI6 = "03 14 25 34 35 45";
static const char* SIXF = "03 13 04 24 15 25 34 45 35";
static SymGraph part(const char* sym, int64_t hi, int n, const char* fix, uint64_t w) { SymGraph g = topoGraph(n, sym, 1, hi); addFixed(g, fix, w); return g; }
SX_HARNESS(tri6) { solve(inst(topoGraph(6, TRI6, 1, 40), 3, false)); }
SX_HARNESS(tri6_nols) { solve(inst(topoGraph(6, TRI6, 1, 40), 3, false), NOFLOWS); }
SX_HARNESS(six) { solve(inst(topoGraph(6, SIXF, 1, 40), 3, false)); }
SX_HARNESS(six_p) { solve(inst(part("03 13 34 35", 9, 6, "04 24 15 25 45", 5), 3, false)); }
SX_HARNESS(six_q) { solve(inst(part("03 13 34", 9, 6, "04 14 24 15 25 05 45 35 23", 4), 3, false), SAVE); }
SX_HARNESS(seven_p) { solve(inst(part("03 13 34 36", 9, 7, "04 24 15 25 45 06 16 56", 5), 3, false)); }
SX_HARNESS(four_p) { solve(inst(part("04 14 45", 9, 7, "25 35 06 16 26 36 56 46", 5), 4, false)); }
SX_HARNESS(fam6_3) { solve(inst(familyGraph(6, 64, 75, 6, 2, 8), 3, false)); }
SX_HARNESS(fam7_3) { solve(inst(familyGraph(7, 64, 65, 6, 2, 8), 3, false)); }
SX_HARNESS(fam8_4) { solve(inst(familyGraph(8, 64, 60, 6, 2, 8), 4, false)); }
SX_HARNESS(fam8_3s) { solve(inst(familyGraph(8, 64, 50, 4, 2, 8), 3, false), SINGLE | NOFLOWS); }
SX_HARNESS(fam8_3save) { solve(inst(familyGraph(8, 64, 40, 4, 2, 8), 3, false), SAVE); }
#ifdef THREADS
static void solveT(const Inst& I, int workers, int fl = 0) { WORKERS = workers; solve(I, fl); }
SX_HARNESS(t_five) { solveT(inst(topoGraph(5, "03 04 13 14 23 24 34", 1, 2), 3, false), 2); }
SX_HARNESS(t_five_s) { solveT(inst(topoGraph(5, "03 04 13 14 23 24 34", 1, 2), 3, false), 2, SINGLE); }
SX_HARNESS(t_five_u) { solveT(inst(topoGraph(5, "03 04 13 14 23 24 34", 1, 1), 3, false), 2, SINGLE | NOFLOWS); }
SX_HARNESS(t_fam6) { solveT(inst(familyGraph(6, 8, 75, 6, 1, 3), 3, false), 2, SINGLE | NOFLOWS); }
SX_HARNESS(t_fam8) { solveT(inst(familyGraph(8, 8, 60, 6, 1, 3), 4, false), 2, SINGLE | NOFLOWS); }
SX_HARNESS(t_fam8m) { solveT(inst(familyGraph(8, 8, 60, 6, 1, 3), 4, false), 2, NOFLOWS); }
#endif
