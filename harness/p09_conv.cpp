// P09 conversions, copies and serialisation preserve the graph
#include "vc.h"
struct Snap {      // everything a user can observe of a graph
    int n = 0;
    uint64_t w[MAXN][MAXN] = {};
    bool has[MAXN][MAXN] = {};
    uint64_t part[MAXN] = {};
    unsigned in[MAXN] = {};
    int pos[MAXN] = {};
    uint64_t pc = 0;
};
static Snap snap(mutableGraphPtr G, int orig) {
    Snap s;
    s.n = G->n();
    for (int v = 0; v < s.n; ++v) {
        for (EdgeID e : G->edges_of(v)) { auto [t, x] = G->getEdge(v, e); sx_assert(!s.has[v][t], "no duplicate edge"); s.has[v][t] = true; s.w[v][t] = x; }
        s.part[v] = G->getPartitionIndex(v);
        for (auto c : G->containedVertices(v)) { sx_assert(c < MAXN, "contained vertex in range"); s.in[v] |= 1u << c; }
    }
    for (int o = 0; o < orig; ++o) s.pos[o] = G->getCurrentPosition(o);
    s.pc = G->get_partition_count();
    return s;
}
static void sameEdges(const Snap& a, const Snap& b) {
    sx_assert(a.n == b.n, "same number of vertices");
    bool ok = true;
    for (int i = 0; i < a.n; ++i)
        for (int j = 0; j < a.n; ++j) {
            sx_assert(a.has[i][j] == b.has[i][j], "same edges");
            ok &= a.w[i][j] == b.w[i][j];
        }
    sx_assert(ok, "same edge weights");
}
static void samePart(const Snap& a, const Snap& b) {
    bool ok = true;
    for (int i = 0; i < a.n; ++i) ok &= a.part[i] == b.part[i];
    sx_assert(ok, "same partition indices");
}
static void sameContents(const Snap& a, const Snap& b, int orig) {
    for (int i = 0; i < a.n; ++i) sx_assert(a.in[i] == b.in[i], "same contained vertices");
    for (int o = 0; o < orig; ++o) sx_assert(a.pos[o] == b.pos[o], "same positions of original vertices");
}
static void consistent(mutableGraphPtr G) {   // internal links of the result
    int cnt = 0;
    bool ok = true;
    for (NodeID v : G->nodes()) {
        uint64_t d = 0;
        for (EdgeID e : G->edges_of(v)) {
            NodeID t = G->getEdgeTarget(v, e);
            EdgeID r = G->getReverseEdge(v, e);
            sx_assert(r < G->get_first_invalid_edge(t) && G->getEdgeTarget(t, r) == v && G->getReverseEdge(t, r) == e, "reverse edge points back");
            ok &= G->getEdgeWeight(t, r) == G->getEdgeWeight(v, e);
            d += G->getEdgeWeight(v, e);
            ++cnt;
        }
        ok &= G->getWeightedNodeDegree(v) == d;
    }
    sx_assert(ok, "both directions and degrees agree");
    sx_assert(G->m() == (EdgeID)cnt, "edge count");
}
static int pick(const char* n, int hi) { return (int)sx_concrete(sx_int(n, 0, hi)); }
// a graph with a history: some edge deleted or contracted, partition indices set
static mutableGraphPtr lived(const SymGraph& s, int steps) {
    auto G = toMutable(s);
    for (int i = 0; i < steps; ++i) {
        int k = pick("history", 2);
        if (k == 0 || G->m() == 0) continue;
        std::vector<std::pair<NodeID, EdgeID>> es;
        for (NodeID v : G->nodes()) for (EdgeID e : G->edges_of(v)) if (v < G->getEdgeTarget(v, e)) es.push_back({v, e});
        auto [v, e] = es[pick("edge", es.size() - 1)];
        if (k == 1) G->deleteEdge(v, e); else { G->contractEdge(v, e); sx_cover("contracted"); }
    }
    for (NodeID v : G->nodes()) G->setPartitionIndex(v, sx_int("part", 0, 1000));
    G->set_partition_count(sx_int("pc", 0, 1000));
    return G;
}
static void serial(const SymGraph& s, int steps) {
    auto G = lived(s, steps);
    Snap a = snap(G, s.n);
    auto H = mutable_graph::deserialize(G->serialize());
    Snap b = snap(H, s.n);
    sameEdges(a, b); samePart(a, b); sameContents(a, b, s.n);
    sx_assert(a.pc == b.pc, "same partition count");
    sx_assert(H->getOriginalNodes() == G->getOriginalNodes(), "same number of original vertices");
    consistent(H);
    auto K = mutable_graph::deserialize(H->serialize());
    Snap c = snap(K, s.n);
    sameEdges(a, c); sameContents(a, c, s.n);
    if (G->m() < G->n()) sx_cover("few_edges");
}
static void copies(const SymGraph& s, int steps) {
    auto G = lived(s, steps);
    Snap a = snap(G, s.n);
    auto H = std::make_shared<mutable_graph>(*G);
    Snap b = snap(H, s.n);
    sameEdges(a, b); samePart(a, b); sameContents(a, b, s.n);
    sx_assert(a.pc == b.pc && H->getOriginalNodes() == G->getOriginalNodes(), "same counters");
    consistent(H);
    if (H->m()) {   // the copy is independent
        for (NodeID v : H->nodes()) if (H->get_first_invalid_edge(v)) { H->setEdgeWeight(v, 0, 77777777); H->contractEdge(v, 0); break; }
        Snap c = snap(G, s.n);
        sameEdges(a, c); samePart(a, c); sameContents(a, c, s.n);
        consistent(G);
    }
    auto S = G->simplify();
    Snap d = snap(S, 0);
    sameEdges(a, d); samePart(a, d);
    consistent(S);
}
static void toStatic(const SymGraph& s, int steps) {
    auto G = lived(s, steps);
    Snap a = snap(G, s.n);
    auto A = G->to_graph_access();
    Snap b;
    b.n = A->n();
    sx_assert(A->m() == G->m(), "edge count");
    for (int v = 0; v < b.n; ++v)
        for (EdgeID e : A->edges_of(v)) { NodeID t = A->getEdgeTarget(e); sx_assert(!b.has[v][t], "no duplicate edge"); b.has[v][t] = true; b.w[v][t] = A->getEdgeWeight(e); }
    sameEdges(a, b);
    auto H = mutable_graph::from_graph_access(A);
    Snap c = snap(H, a.n);
    sameEdges(a, c);
    consistent(H);
    for (int v = 0; v < a.n; ++v) sx_assert(c.in[v] == (1u << v) && c.pos[v] == v, "vertices keep their numbers");
}
static void parallelEdges(int n, int extra) {
    SymGraph s = anyGraph(n, 1, 1000000);
    auto A = std::make_shared<graph_access>();
    std::vector<std::vector<std::pair<int, uint64_t>>> adj(n);
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (s.has[i][j]) { adj[i].push_back({j, s.w[i][j]}); adj[j].push_back({i, s.w[i][j]}); }
    for (int k = 0; k < extra; ++k) {
        int i = pick("i", n - 1), j = pick("j", n - 1);
        sx_assume(i < j);
        uint64_t w = sx_int("w", 1, 1000000);
        adj[i].push_back({j, w}); adj[j].push_back({i, w});
        s.set(i, j, s.w[i][j] + w);
    }
    size_t m = 0;
    for (auto& l : adj) m += l.size();
    A->start_construction(n, m);
    for (int i = 0; i < n; ++i) { A->new_node(); for (auto& [j, w] : adj[i]) A->new_edge(i, j, w); }
    A->finish_construction();
    auto H = mutable_graph::from_graph_access(A);
    Snap c = snap(H, n), a;
    a.n = n;
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { a.has[i][j] = s.has[i][j]; a.w[i][j] = s.w[i][j]; }
    sameEdges(a, c);
    consistent(H);
}
static const int64_t W = 1000000000000ll;
SX_HARNESS(serial4) { serial(anyGraph(4, 1, W), 0); }
SX_HARNESS(serial4_h1) { serial(anyGraph(4, 1, W), 1); }
SX_HARNESS(serial4_h2) { serial(anyGraph(4, 1, W), 2); }
SX_HARNESS(serial5_h2) { serial(topoGraph(5, "34 01 24 12 03 02", 1, W), 2); }
SX_HARNESS(serial6_h1) { serial(topoGraph(6, "04 15", 1, W), 1); }
SX_HARNESS(serial5) { serial(anyGraph(5, 1, W), 0); }
SX_HARNESS(copies4_h1) { copies(anyGraph(4, 1, W), 1); }
SX_HARNESS(copies5_h2) { copies(topoGraph(5, "34 01 24 12 03 02", 1, W), 2); }
SX_HARNESS(static4_h1) { toStatic(anyGraph(4, 1, W), 1); }
SX_HARNESS(static5) { toStatic(anyGraph(5, 1, W), 0); }
SX_HARNESS(multi3_1) { parallelEdges(3, 1); }
SX_HARNESS(multi3_2) { parallelEdges(3, 2); }
SX_HARNESS(multi4_1) { parallelEdges(4, 1); }
