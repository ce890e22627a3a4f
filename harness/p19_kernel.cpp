// P19: bounds and reductions of multiterminal problems against the definition
#include <sys/stat.h>
#include <functional>
#include <optional>
#include <variant>
#include <condition_variable>
#include <mutex>
#include <atomic>
#include <future>
#include <numeric>
#include <cmath>
#include <map>
#include <queue>
#include <stack>
#include <tuple>
#include <unistd.h>
#include "vc.h"
#include "thr.h"
#define private public
#include "algorithms/multicut/kernelization_criteria.h"
#undef private
static uint64_t pick(const char* n, int hi) { return hi ? sx_concrete(sx_int(n, 0, hi)) : 0; }
struct Prob {
    SymGraph s;
    int k;
    std::vector<NodeID> terms;
    std::vector<int> num;   // vertex number in the real graph
    problemPointer p;
    // weights of all labellings of the current problem: blocks of vertices that
    // were merged are equal; terminals (the first k vertices) keep their block
    static std::vector<std::vector<int>> labellings(const SymGraph& s, int k, const std::vector<int>& cls) {
        std::vector<std::vector<int>> r;
        std::vector<int> a(s.n, -1);
        std::function<void(int)> rec = [&](int v) {
            if (v == s.n) { r.push_back(a); return; }
            int want = v < k ? v : -1, pre = -1;
            for (int u = 0; u < v; ++u) if (cls[u] == cls[v]) pre = a[u];
            for (int b = 0; b < k; ++b) {
                if (want >= 0 && b != want) continue;
                if (pre >= 0 && b != pre) continue;
                a[v] = b;
                rec(v + 1);
            }
        };
        rec(0);
        return r;
    }
    uint64_t cost(const std::vector<int>& a) const {
        uint64_t c = 0;
        for (int i = 0; i < s.n; ++i) for (int j = i + 1; j < s.n; ++j) if (s.has[i][j] && a[i] != a[j]) c += s.w[i][j];
        return c;
    }
    std::vector<int> classes() const {
        std::vector<int> c(s.n);
        for (int v = 0; v < s.n; ++v) c[v] = p->graph->getCurrentPosition(num[v]);
        return c;
    }
    void safe(const std::vector<int>& cls, const char* msg, bool bounded = false, uint64_t ub = 0) {
        std::vector<int> id(s.n);
        for (int v = 0; v < s.n; ++v) id[v] = v;
        bool moved = false;
        for (int v = 0; v < s.n; ++v) for (int u = 0; u < v; ++u) moved |= cls[u] == cls[v];
        if (!moved) return;
        sx_cover("merged");
        // every labelling is dominated by one that is constant on the classes
        std::vector<uint64_t> kept;
        for (auto& a : labellings(s, k, cls)) kept.push_back(cost(a));
        bool ok = true;
        for (auto& a : labellings(s, k, id)) {
            bool constant = true;
            for (int v = 0; v < s.n; ++v) for (int u = 0; u < v; ++u) if (cls[u] == cls[v]) constant &= a[u] == a[v];
            if (constant) continue;
            uint64_t c = cost(a);
            bool dom = bounded ? ub <= c : false;
            for (auto x : kept) dom |= x <= c;
            ok &= dom;
        }
        sx_assert(ok, msg);
    }
    // the contracted graph and the deleted weight describe the same costs
    void consistent() {
        auto cls = classes();
        auto G = p->graph;
        bool ok = true, any = false;
        for (auto& a : labellings(s, k, cls)) {
            any = true;
            uint64_t c = 0;
            std::vector<int> b(G->n());
            for (int v = 0; v < s.n; ++v) b[cls[v]] = a[v];
            for (NodeID n : G->nodes())
                for (EdgeID e : G->edges_of(n)) if (b[n] != b[G->getEdgeTarget(n, e)]) c += G->getEdgeWeight(n, e);
            ok &= c + 2 * p->deleted_weight == 2 * cost(a);
        }
        sx_assert(ok, "graph and deleted weight describe the weights of all remaining cuts");
        (void)any;
    }
    void bounds() {
        std::vector<int> id(s.n);
        for (int v = 0; v < s.n; ++v) id[v] = v;
        bool lo = true, hi = false;
        for (auto& a : labellings(s, k, id)) { uint64_t c = cost(a); lo &= p->lower_bound <= c || p->upper_bound <= c; hi |= c <= p->upper_bound; }
        hi &= lo;
        (void)lo;
        sx_assert(hi, "lower and upper bound enclose the optimum");
    }
    uint64_t optimum() const {
        std::vector<int> id(s.n);
        for (int v = 0; v < s.n; ++v) id[v] = v;
        uint64_t b = 0;
        bool first = true;
        for (auto& a : labellings(s, k, id)) { uint64_t c = cost(a); b = first ? c : sx_min(b, c); first = false; }
        return b;
    }
    // the marked partition has the weight given as upper bound
    void marking() {
        auto cls = classes();
        std::vector<int> a(s.n);
        bool ok = true;
        for (int v = 0; v < s.n; ++v) a[v] = p->graph->getPartitionIndex(cls[v]);
        for (int v = 0; v < s.n; ++v) ok &= a[v] >= 0 && a[v] < k && (v >= k || a[v] == v);
        sx_assert(ok, "terminals are marked with their own blocks");
        sx_assert(cost(a) <= p->upper_bound, "the marked partition is no heavier than the upper bound");
    }
};
static Prob prob(SymGraph s, int k) {
    quiet();
    auto c = cfg();
    c->threads = 1;
    c->disable_cpu_affinity = true;
    Prob P;
    P.s = s;
    P.k = k;
    std::vector<terminal> t;
    P.num = numbering(s.n);
    for (int i = 0; i < k; ++i) { P.terms.push_back(P.num[i]); t.emplace_back(P.num[i], i); }
    P.p = std::make_shared<multicut_problem>(toMutable(renumber(s, P.num)), t);
    P.p->deleted_weight = 0;
    return P;
}
static std::vector<int> ufClasses(Prob& P, union_find& uf) {
    std::vector<int> c(P.s.n), pos = P.classes();
    for (int v = 0; v < P.s.n; ++v) c[v] = uf.Find(pos[v]);
    return c;
}
enum { LOW, HIGH, TRI, EQN, APS, NOI, FLOW, RULES };
static void rule(Prob P, int r, bool del = false) {
    kernelization_criteria kc(P.terms);
    graph_contraction::setTerminals(P.p, P.terms);
    if (del) { graph_contraction::deleteTermEdges(P.p, P.terms); P.consistent(); }
    std::vector<bool> act(P.s.n, true);
    uint64_t ub = 0;
    std::optional<union_find> uf;
    switch (r) {
    case LOW: uf = kc.lowDegreeContraction(P.p); break;
    case HIGH: uf = kc.highDegreeContraction(P.p, act); break;
    case TRI: uf = kc.triangleDetection(P.p, act); break;
    case EQN: { equal_neighborhood en; uf = en.findEqualNeighborhoods(P.p, act); break; }
    case APS: {
        find_articulation_points f(P.p->graph);
        if (f.findAllArticulationPoints()) uf = f.terminalsOnBothSides(P.p->terminals);
        break;
    }
    case FLOW: uf = kc.mf.nonTerminalFlow(P.p, sx_bool("parallel"), act); break;
    }
    if (!uf.has_value()) return;
    auto cls = ufClasses(P, *uf);
    P.safe(cls, "an optimal solution survives the reduction", r == NOI, ub);
    kc.contractIfImproved(&*uf, P.p, "rule", &act);
    bool same = true;
    auto now = P.classes();
    for (int a = 0; a < P.s.n; ++a) for (int b = 0; b < a; ++b) same &= (cls[a] == cls[b]) == (now[a] == now[b]);
    sx_assert(same, "exactly the chosen vertices are merged");
    P.consistent();
}
static void isolating(Prob P, bool par) {
    maximum_flow mf(P.terms);
    graph_contraction::setTerminals(P.p, P.terms);
    mf.maximumIsolatingFlow(P.p, 0, par);
    P.safe(P.classes(), "an optimal solution survives the contraction of isolating blocks");
    P.consistent();
    P.bounds();
    P.marking();
}
// isolating cuts, reductions, isolating cuts, as the solver does
// tight: the best solution known is one heavier than the optimum
static void kernel(Prob P, int rounds = 1, bool tight = false) {
    kernelization_criteria kc(P.terms);
    maximum_flow mf(P.terms);
    graph_contraction::setTerminals(P.p, P.terms);
    graph_contraction::deleteTermEdges(P.p, P.terms);
    uint64_t ub = 0;
    for (int i = 0; i < rounds; ++i) {
        if (P.p->terminals.size() < 2) return;
        mf.maximumIsolatingFlow(P.p, 0, false);
        P.consistent();
        P.bounds();
        P.marking();
        ub = i ? sx_min(ub, P.p->upper_bound) : P.p->upper_bound;
        if (tight) ub = P.optimum() + 1;
        graph_contraction::deleteTermEdges(P.p, P.terms);
        kc.kernelization(P.p, ub, false);
        P.safe(P.classes(), "an optimal solution survives the reductions", true, ub);
        P.consistent();
    }
    if (P.p->terminals.size() < 2) return;
    mf.maximumIsolatingFlow(P.p, 0, false);
    P.consistent();
    P.bounds();
}
static SymGraph any(int n, int64_t hi) { return anyGraph(n, 1, hi, true); }
static const char* SIXT = "03 14 25 34 35 45";          // three terminals around a triangle
static const char* SIXF = "03 13 04 24 15 25 34 45 35"; // three terminals, three inner vertices
static const char* SEVEN = "03 14 25 36 46 56 34 45";   // path and hub
SX_HARNESS(low_any4) { rule(prob(any(4, 100), 2 + pick("k", 1)), LOW, true); }
SX_HARNESS(low_any5u) { rule(prob(any(5, 1), 2 + pick("k", 1)), LOW, true); }
SX_HARNESS(low_tri6) { rule(prob(topoGraph(6, SIXT, 1, 40), 3), LOW); }
SX_HARNESS(low_six) { rule(prob(topoGraph(6, SIXF, 1, 40), 3), LOW); }
SX_HARNESS(low_seven) { rule(prob(topoGraph(7, SEVEN, 1, 40), 3), LOW); }
SX_HARNESS(high_any4) { rule(prob(any(4, 100), 2 + pick("k", 1)), HIGH, true); }
SX_HARNESS(high_any5u) { rule(prob(any(5, 1), 2 + pick("k", 1)), HIGH, true); }
SX_HARNESS(high_tri6) { rule(prob(topoGraph(6, SIXT, 1, 40), 3), HIGH); }
SX_HARNESS(high_six) { rule(prob(topoGraph(6, SIXF, 1, 40), 3), HIGH); }
SX_HARNESS(high_seven) { rule(prob(topoGraph(7, SEVEN, 1, 40), 3), HIGH); }
SX_HARNESS(tri_any4) { rule(prob(any(4, 100), 2 + pick("k", 1)), TRI, true); }
SX_HARNESS(tri_any5u) { rule(prob(any(5, 1), 2 + pick("k", 1)), TRI, true); }
SX_HARNESS(tri_tri6) { rule(prob(topoGraph(6, SIXT, 1, 40), 3), TRI); }
SX_HARNESS(tri_six) { rule(prob(topoGraph(6, SIXF, 1, 40), 3), TRI); }
SX_HARNESS(tri_seven) { rule(prob(topoGraph(7, SEVEN, 1, 40), 3), TRI); }
SX_HARNESS(eqn_any4) { rule(prob(any(4, 100), 2 + pick("k", 1)), EQN, true); }
SX_HARNESS(eqn_any5u) { rule(prob(any(5, 1), 2 + pick("k", 1)), EQN, true); }
SX_HARNESS(eqn_tri6) { rule(prob(topoGraph(6, SIXT, 1, 40), 3), EQN); }
SX_HARNESS(eqn_six) { rule(prob(topoGraph(6, SIXF, 1, 40), 3), EQN); }
SX_HARNESS(eqn_seven) { rule(prob(topoGraph(7, SEVEN, 1, 40), 3), EQN); }
SX_HARNESS(aps_any4) { rule(prob(any(4, 100), 2 + pick("k", 1)), APS, true); }
SX_HARNESS(aps_any5u) { rule(prob(any(5, 1), 2 + pick("k", 1)), APS, true); }
SX_HARNESS(aps_tri6) { rule(prob(topoGraph(6, SIXT, 1, 40), 3), APS); }
SX_HARNESS(aps_six) { rule(prob(topoGraph(6, SIXF, 1, 40), 3), APS); }
SX_HARNESS(aps_seven) { rule(prob(topoGraph(7, SEVEN, 1, 40), 3), APS); }
SX_HARNESS(low_leaf) { rule(prob(topoGraph(6, "03 04 45 14 25 15", 1, 40), 3), LOW); }
SX_HARNESS(low_leaf2) { rule(prob(topoGraph(7, "03 13 34 35 56 26", 1, 40), 3), LOW); }
SX_HARNESS(eqn_7) { rule(prob(topoGraph(7, "03 13 04 14 05 15 26 56 36 46", 1, 3), 3), EQN); }
SX_HARNESS(tri_7) { rule(prob(topoGraph(7, "03 14 25 34 35 45 46 56 06", 1, 40), 3), TRI); }
SX_HARNESS(aps_8) { rule(prob(topoGraph(8, "02 23 30 34 45 53 56 67 75 14", 1, 9), 2), APS); }
SX_HARNESS(aps_9) { rule(prob(topoGraph(9, "02 13 23 34 45 56 64 27 78 82", 1, 9), 2), APS); }
SX_HARNESS(flow_any4) { sx_symbolic_random(2, 8); cfg()->random_flows = cfg()->high_distance_flows = 1; rule(prob(any(4, 9), 2), FLOW, true); }
SX_HARNESS(flow_any5u) { sx_symbolic_random(2, 16); cfg()->random_flows = 2; cfg()->high_distance_flows = 0; rule(prob(any(5, 1), 2), FLOW, true); }
SX_HARNESS(flow_path) { sx_symbolic_random(2, 1ull << 32); cfg()->random_flows = 2; cfg()->high_distance_flows = 0; rule(prob(topoGraph(5, "02 23 34 41", 1, 5), 2), FLOW); }
SX_HARNESS(flow_hdv) { sx_symbolic_random(2, 1ull << 32); cfg()->random_flows = 0; cfg()->high_distance_flows = 2; cfg()->high_distance_factor = 0; rule(prob(topoGraph(5, "02 23 34 41", 1, 5), 2), FLOW); }
SX_HARNESS(iso_any3) { isolating(prob(anyGraph(3, 1, 1000), 2 + pick("k", 1)), sx_bool("par")); }
SX_HARNESS(iso_any4) { isolating(prob(any(4, 100), 2 + pick("k", 1)), false); }
SX_HARNESS(iso_any5u) { isolating(prob(any(5, 1), 2 + pick("k", 1)), sx_bool("par")); }
SX_HARNESS(iso_six) { isolating(prob(topoGraph(6, SIXF, 1, 9), 3), false); }
SX_HARNESS(iso_seven) { isolating(prob(topoGraph(7, SEVEN, 1, 9), 3), false); }
SX_HARNESS(ker_any4) { kernel(prob(any(4, 9), 2 + pick("k", 1)), 1); }
SX_HARNESS(ker_any5u) { kernel(prob(any(5, 1), 2 + pick("k", 1)), 1); }
SX_HARNESS(ker_any6u) { kernel(prob(any(6, 1), 3), 1); }
SX_HARNESS(ker_six) { kernel(prob(topoGraph(6, SIXF, 1, 5), 3), 1); }
SX_HARNESS(ker_tri6) { kernel(prob(topoGraph(6, SIXT, 1, 40), 3), 1); }
SX_HARNESS(ker_seven) { kernel(prob(topoGraph(7, SEVEN, 1, 5), 3), 1); }
SX_HARNESS(ker_four) { kernel(prob(topoGraph(7, "04 14 25 35 06 16 26 36 45 46 56", 1, 5), 4), 1); }
static Prob fam(int n, int k, int pct, int nsym = 2) { return prob(familyGraph(n, 64, pct, 6, nsym, 8), k); }
SX_HARNESS(low_fam) { rule(fam(8, 3, 30, 3), LOW); }
SX_HARNESS(high_fam) { rule(fam(7, 4, 60, 3), HIGH); }
SX_HARNESS(tri_fam) { rule(fam(8, 3, 50, 3), TRI); }
SX_HARNESS(eqn_fam) { rule(fam(8, 3, 40, 3), EQN); }
SX_HARNESS(aps_fam) { rule(fam(8, 2, 25, 2), APS); }
SX_HARNESS(flow_fam) { sx_symbolic_random(3, 64); cfg()->high_distance_factor = 0; cfg()->random_flows = 1; cfg()->high_distance_flows = 2; rule(fam(8, 3, 45, 1), FLOW); }
SX_HARNESS(iso_fam) { isolating(fam(8, 3, 45, 3), false); }
SX_HARNESS(ker_fam6) { kernel(fam(6, 3, 75), 2); }
SX_HARNESS(ker_fam7) { kernel(fam(7, 3, 65), 2); }
SX_HARNESS(ker_fam8) { kernel(fam(8, 4, 50), 2); }
// bounds as tight as they can be
SX_HARNESS(kert_any5u) { kernel(prob(any(5, 1), 2 + pick("k", 1)), 1, true); }
SX_HARNESS(kert_six) { kernel(prob(topoGraph(6, SIXF, 1, 5), 3), 1, true); }
SX_HARNESS(kert_fam6) { kernel(fam(6, 3, 75), 1, true); }
SX_HARNESS(kert_fam7) { kernel(fam(7, 3, 65), 1, true); }
SX_HARNESS(kert_fam8) { kernel(fam(8, 4, 50), 1, true); }
SX_HARNESS(kert_clu8) { kernel(prob(familyGraph(8, 64, 80, 6, 2, 12, 3), 3), 1, true); }
SX_HARNESS(kert_dense7) { kernel(fam(7, 3, 95, 3), 1, true); }
