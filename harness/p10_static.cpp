// P10 static graph construction and queries
#include "vc.h"
static void check(const SymGraph& s, graphAccessPtr G) {
    sx_assert(G->number_of_nodes() == (unsigned)s.n && G->n() == (unsigned)s.n, "number of vertices");
    sx_assert(G->number_of_edges() == (EdgeID)2 * s.edges() && G->m() == (EdgeID)2 * s.edges(), "number of edges");
    bool seen[2 * MAXN * MAXN] = {};
    EdgeID next = 0;
    bool wok = true, dok = true;
    int cnt = 0;
    for (NodeID v : G->nodes()) {
        unsigned nb = 0;
        sx_assert(G->get_first_edge(v) == next, "edge ranges follow each other");
        sx_assert(G->get_first_invalid_edge(v) >= next, "edge ranges are ordered");
        for (EdgeID e : G->edges_of(v)) {
            sx_assert(e < G->m() && !seen[e], "each edge is visited once");
            seen[e] = true;
            NodeID t = G->getEdgeTarget(e);
            sx_assert(t < (NodeID)s.n && s.has[v][t], "the edge was inserted");
            sx_assert(!((nb >> t) & 1), "no edge appears twice");
            nb |= 1u << t;
            wok &= G->getEdgeWeight(e) == s.w[v][t];
            wok &= G->getEdge(e).second == s.w[v][t] && G->getEdge(v, e).first == t && G->getEdgeTarget(v, e) == t && G->getEdgeWeight(v, e) == s.w[v][t];
            sx_assert(G->getEdgeSource(e) == v, "source of an edge");
            EdgeID r = G->find_reverse_edge(e);
            sx_assert(r < G->m() && G->getEdgeTarget(r) == v && G->getEdgeSource(r) == t, "reverse edge");
            ++cnt;
        }
        next = G->get_first_invalid_edge(v);
        int want = 0;
        for (int j = 0; j < s.n; ++j) want += s.has[v][j];
        sx_assert(want == __builtin_popcount(nb), "no edge is missing");
        sx_assert(G->getUnweightedNodeDegree(v) == (unsigned)want, "unweighted degree");
        dok &= G->getWeightedNodeDegree(v) == s.deg(v);
    }
    sx_assert(next == G->m(), "ranges cover all edges");
    sx_assert(wok, "edge weights");
    sx_assert(dok, "weighted degrees");
    int mu = 0;
    for (int i = 0; i < s.n; ++i) { int d = 0; for (int j = 0; j < s.n; ++j) d += s.has[i][j]; mu = std::max(mu, d); }
    sx_assert(G->getMaxUnweightedDegree() == (unsigned)mu, "largest unweighted degree");
}
static void extremes(const SymGraph& s, graphAccessPtr G) {
    uint64_t lo = s.deg(0), hi = lo, sum = lo;
    for (int i = 1; i < s.n; ++i) { lo = sx_min(lo, s.deg(i)); hi = sx_max(hi, s.deg(i)); sum += s.deg(i); }
    sx_assert(G->getMinDegree() == lo, "minimum degree");
    sx_assert(G->getMaxDegree() == hi, "maximum degree");
    sx_assert(G->sumOfEdgeWeights() == sum, "sum of degrees");
    bool dok = true;
    for (int i = 0; i < s.n; ++i) dok &= G->getWeightedNodeDegree(i) == s.deg(i);
    sx_assert(dok, "cached degrees");
}
static void percentile(const SymGraph& s, graphAccessPtr G) {
    static const double ps[] = {0.0, 0.25, 0.3, 0.5, 0.75, 0.99, 1.0};
    double p = ps[sx_concrete(sx_int("perc", 0, 6))];
    uint64_t r = G->getPercentile(p);
    size_t el = std::min<size_t>(s.n * p, s.n - 1);
    uint64_t less = 0, eq = 0;
    for (int i = 0; i < s.n; ++i) { less += sx_ite(s.deg(i) < r, 1, 0); eq += sx_ite(s.deg(i) == r, 1, 0); }
    sx_assert(less <= el, "not too many degrees below the percentile");
    sx_assert(less + eq > el, "enough degrees at or below the percentile");
}
static const int64_t W = 1000000000000ll;
SX_HARNESS(any4) { SymGraph s = anyGraph(4, 0, W); auto G = toAccess(s); check(s, G); }
SX_HARNESS(any5) { SymGraph s = anyGraph(5, 0, W); auto G = toAccess(s); check(s, G); }
SX_HARNESS(any6_unit) {
    SymGraph s; s.n = 6;
    const char* cand[] = {"01", "12", "23", "34", "45", "05", "14", "25"};
    for (auto c : cand) if (sx_bool("edge")) s.set(c[0] - '0', c[1] - '0', sx_int("w", 0, W));
    auto G = toAccess(s); check(s, G);
}
SX_HARNESS(any1) { SymGraph s = anyGraph(1, 1, 1); auto G = toAccess(s); check(s, G); extremes(s, G); }
SX_HARNESS(extremes4) { SymGraph s = anyGraph(4, 0, W); auto G = toAccess(s); extremes(s, G); }
SX_HARNESS(extremes4_eager) { SymGraph s = anyGraph(4, 0, W); auto G = toAccess(s); G->computeDegrees(); extremes(s, G); }
SX_HARNESS(percentile4) { SymGraph s = anyGraph(4, 1, W); auto G = toAccess(s); percentile(s, G); }
SX_HARNESS(percentile3) { SymGraph s = anyGraph(3, 1, W); auto G = toAccess(s); percentile(s, G); }
SX_HARNESS(selfloops4) {   // self loops are dropped
    SymGraph s = anyGraph(4, 0, W);
    auto G = std::make_shared<graph_access>();
    G->start_construction(4, 2 * s.edges() + 4);
    for (int i = 0; i < 4; ++i) {
        G->new_node();
        bool l = sx_bool("loop"), first = sx_bool("first");
        if (l && first) G->new_edge(i, i, 5);
        for (int j = 0; j < 4; ++j) if (s.has[i][j]) G->new_edge(i, j, s.w[i][j]);
        if (l && !first) G->new_edge(i, i, 5);
    }
    G->finish_construction();
    check(s, G);
}
SX_HARNESS(defaultw4) {   // unweighted construction
    SymGraph s = anyGraph(4, 1, 1);
    auto G = std::make_shared<graph_access>();
    G->start_construction(4, 2 * s.edges());
    for (int i = 0; i < 4; ++i) { G->new_node(); for (int j = 0; j < 4; ++j) if (s.has[i][j]) G->new_edge(i, j); }
    G->finish_construction();
    check(s, G);
}
SX_HARNESS(marks4) {   // per-vertex and per-edge attributes
    SymGraph s = anyGraph(4, 1, W);
    auto G = toAccess(s);
    uint64_t p[4]; bool c[4];
    for (int i = 0; i < 4; ++i) { p[i] = sx_int("p", 0, 1000); c[i] = sx_bool("c"); G->setPartitionIndex(i, p[i]); G->setNodeInCut(i, c[i]); }
    for (int i = 0; i < 4; ++i) for (EdgeID e : G->edges_of(i)) { int t = G->getEdgeTarget(e); if (i < t) { uint64_t w = sx_int("nw", 0, W); s.set(i, t, w); G->setEdgeWeight(e, w); G->setEdgeWeight(G->find_reverse_edge(e), w); } }
    check(s, G);
    bool ok = true;
    for (int i = 0; i < 4; ++i) ok &= G->getPartitionIndex(i) == p[i] && G->getNodeInCut(i) == c[i];
    sx_assert(ok, "attributes are kept");
}
SX_HARNESS(hacky4) {   // construction with known offsets
    SymGraph s = anyGraph(4, 1, W);
    auto G = std::make_shared<graph_access>();
    G->start_construction(4, 0);
    EdgeID m = 0, at[4];
    for (int i = 0; i < 4; ++i) { at[i] = m; for (int j = 0; j < 4; ++j) m += s.has[i][j]; G->new_node_hacky(m); }
    G->resize_m(m);
    for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) if (s.has[i][j]) { EdgeID a = at[i]++, b = at[j]++; G->new_edge_and_reverse(i, j, a, b, s.w[i][j]); }
    G->finish_construction();
    check(s, G);
}
