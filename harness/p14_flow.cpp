// P14: push_relabel against the definition of a minimum source-sink cut
#include "vc.h"
#include "algorithms/flow/push_relabel.h"
static uint64_t pick(const char* n, int hi) { return hi ? sx_concrete(sx_int(n, 0, hi)) : 0; }
struct T { std::vector<NodeID> term; unsigned cur; unsigned sinks = 0; NodeID src; };
static T terms(int n, int k) {
    T t;
    unsigned used = 0;
    for (int i = 0; i < k; ++i) {
        int c = pick("term", n - 1 - i);
        NodeID v = 0;
        for (;; ++v) if (!((used >> v) & 1) && c-- == 0) break;
        used |= 1u << v;
        t.term.push_back(v);
    }
    t.cur = pick("cur", k - 1);
    t.src = t.term[t.cur];
    t.sinks = used & ~(1u << t.src);
    return t;
}
static void cutFlow(const SymGraph& s, const T& t, FlowType f, bool& lo, bool& hi) {
    lo = true, hi = false;
    for (unsigned m = 1; m < s.full(); ++m)
        if (((m >> t.src) & 1) && !(m & t.sinks)) { lo &= (uint64_t)f <= s.cut(m); hi |= s.cut(m) <= (uint64_t)f; }
}
static void checkSet(const SymGraph& s, const T& t, FlowType f, const std::vector<NodeID>& set) {
    unsigned m = 0;
    for (NodeID v : set) { sx_assert(v < (NodeID)s.n && !((m >> v) & 1), "source side lists each vertex once"); m |= 1u << v; }
    sx_assert((m >> t.src) & 1, "source side contains the source");
    sx_assert((m & t.sinks) == 0, "source side contains no sink");
    sx_assert(s.cut(m) == (uint64_t)f, "source side is a minimum cut");
}
static void checkValue(const SymGraph& s, const T& t, FlowType f) {
    bool lo, hi;
    cutFlow(s, t, f, lo, hi);
    sx_assert(lo, "flow value is at most every cut");
    sx_assert(hi, "flow value reaches the minimum cut");
    if (f > 0) sx_cover("positive");
}
static void checkFlow(const SymGraph& s, const T& t, mutableGraphPtr G, FlowType f, size_t pid) {
    bool cap = true, anti = true, cons = true;
    for (NodeID v : G->nodes()) {
        int64_t out = 0;
        for (EdgeID e : G->edges_of(v)) {
            NodeID u = G->getEdgeTarget(v, e);
            FlowType x = G->getEdgeFlow(v, e, pid);
            cap &= x <= (FlowType)s.w[v][u] && -x <= (FlowType)s.w[v][u];
            anti &= x == -G->getEdgeFlow(u, G->getReverseEdge(v, e), pid);
            out += x;
        }
        if (v == t.src) cons &= out == f;
        else if (!((t.sinks >> v) & 1)) cons &= out == 0;
        else cons &= out <= 0;
    }
    sx_assert(cap, "flow respects capacities");
    sx_assert(anti, "flow is antisymmetric");
    sx_assert(cons, "flow is conserved");
}
static void seq(const SymGraph& s, int k) {
    quiet();
    T t = terms(s.n, k);
    auto G = toMutable(s);
    push_relabel<> pr;
    auto r = pr.solve_max_flow_min_cut(G, t.term, t.cur, true, 0, 7);
    checkValue(s, t, r.first);
    checkSet(s, t, r.first, r.second);
    checkFlow(s, t, G, r.first, 7);
}
// second problem on the same graph and solver object
static void twice(const SymGraph& s) {
    quiet();
    auto G = toMutable(s);
    push_relabel<> pr;
    T a = terms(s.n, 2), b = terms(s.n, 3);
    pr.solve_max_flow_min_cut(G, a.term, a.cur, true);
    auto r = pr.solve_max_flow_min_cut(G, b.term, b.cur, true);
    checkValue(s, b, r.first);
    checkSet(s, b, r.first, r.second);
}
static void par(const SymGraph& s, int k) {
    quiet();
    T t = terms(s.n, k);
    auto G = toMutable(s);
    push_relabel<false, true> pr;
    auto r = pr.solve_max_flow_min_cut(G, t.term, t.cur, true);
    checkValue(s, t, r.first);
    checkSet(s, t, r.first, r.second);
    push_relabel<false, true> pr2;
    checkSet(s, t, r.first, pr2.callable_max_flow(G, t.term, t.cur, true));
}
static void limited(const SymGraph& s, int64_t maxlim, int maxdepth = 2) {
    quiet();
    T t = terms(s.n, 2);
    configuration::getConfig()->depthOfPartialRelabeling = pick("depth", maxdepth);
    auto G = toMutable(s);
    FlowType lim = sx_int("limit", 1, maxlim);
    push_relabel<true, false> pr;
    auto r = pr.solve_max_flow_min_cut(G, t.term, t.cur, true, lim);
    bool lo, hi;
    if (r.first < lim) {
        sx_cover("below");
        checkValue(s, t, r.first);
        checkSet(s, t, r.first, r.second);
    } else {
        sx_cover("reached");
        cutFlow(s, t, r.first, lo, hi);
        sx_assert(lo, "no cut is lighter than the returned flow");
    }
}
SX_HARNESS(any3) { seq(anyGraph(3, 1, 1000000), 2 + pick("k", 1)); }
SX_HARNESS(any4) { seq(anyGraph(4, 1, 1000), 2); }
SX_HARNESS(any4_3) { seq(anyGraph(4, 1, 1000), 3); }
SX_HARNESS(k4) { seq(topoGraph(4, "01 02 03 12 13 23", 1, 1000), 2); }
SX_HARNESS(unit5) { seq(anyGraph(5, 1, 1), 2); }
SX_HARNESS(house5) { SymGraph s = topoGraph(5, "01 12 23 34 40 14", 1, 100); seq(s, 2); }
SX_HARNESS(path6) { seq(topoGraph(6, "01 12 23 34 45 50", 1, 100), 2); }
SX_HARNESS(ladder6) { seq(topoGraph(6, "01 23 45 02 24 13 35", 1, 20), 2); }
SX_HARNESS(wide3) { seq(topoGraph(3, "01 12 02", 1, 6000000000LL), 2); }
SX_HARNESS(twice3) { twice(anyGraph(3, 1, 1000)); }
SX_HARNESS(twice4) { twice(anyGraph(4, 1, 1)); }
SX_HARNESS(par3) { par(anyGraph(3, 1, 1000000), 2 + pick("k", 1)); }
SX_HARNESS(par4) { par(anyGraph(4, 1, 1000), 2); }
SX_HARNESS(limited2) { limited(anyGraph(2, 1, 1000), 2000, 1); }
SX_HARNESS(limited3) { limited(anyGraph(3, 1, 1000), 2000); }
SX_HARNESS(limited4) { limited(anyGraph(4, 1, 1000), 3000); }
SX_HARNESS(limited5_unit) { limited(anyGraph(5, 1, 1), 4); }
SX_HARNESS(limited6) { limited(topoGraph(6, "01 12 23 34 45 50", 1, 100), 300); }
SX_HARNESS(limited2_deep) { limited(anyGraph(2, 1, 1000), 2000, 6); }
#include "algorithms/flow/excess_scaling.h"
// unit flow: routes supplies through the network; what it reports has to be a flow
static void unit(const SymGraph& s, int64_t maxd) {
    quiet();
    flow_graph fg;
    fg.start_construction(s.n);
    for (int i = 0; i < s.n; ++i)
        for (int j = 0; j < s.n; ++j) if (s.has[i][j]) fg.new_edge(i, j, s.w[i][j]);
    std::vector<EdgeWeight> d(s.n);
    for (auto& x : d) x = sx_int("supply", 0, maxd);
    unit_flow uf;
    uf.init(fg, d, 1, s.n, 2);
    uf.run();
    bool cap = true, anti = true, cons = true, ex = true;
    for (NodeID v : fg.nodes()) {
        int64_t out = 0;
        for (EdgeID e : fg.edges_of(v)) {
            NodeID u = fg.getEdgeTarget(v, e);
            cap &= fg.getEdgeFlow(v, e) <= fg.getEdgeCapacity(v, e);
            anti &= fg.getEdgeFlow(v, e) == -fg.getEdgeFlow(u, fg.getReverseEdge(v, e));
            out += fg.getEdgeFlow(v, e);
        }
        cons &= uf.flow(v) == (FlowType)d[v] - out;
        cons &= uf.flow(v) >= 0;
        ex &= uf.excess(v) <= 0 || uf.height(v) >= (NodeID)s.n;
    }
    sx_assert(cap, "unit flow respects capacities");
    sx_assert(anti, "unit flow is antisymmetric");
    sx_assert(cons, "unit flow is conserved");
    sx_assert(ex, "unit flow leaves no active vertex below the height limit");
}
SX_HARNESS(unitflow2) { unit(topoGraph(2, "01", 1, 3), 8); }
SX_HARNESS(unitflow3) { unit(topoGraph(3, "01 12", 1, 2), 6); }
SX_HARNESS(unitflow3t) { unit(topoGraph(3, "01 12 02", 1, 1), 6); }
SX_HARNESS(unitflow3_any) { unit(anyGraph(3, 1, 2), 4); }
SX_HARNESS(fam7) { seq(familyGraph(7, 24, 50, 6, 2, 9), 2 + pick("k", 1)); }
SX_HARNESS(fam8_4) { seq(familyGraph(8, 24, 45, 6, 1, 9), 4); }
SX_HARNESS(limited_fam7) { limited(familyGraph(7, 32, 50, 6, 2, 9), 30); }
