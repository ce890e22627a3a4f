// P08 mutable_graph equals the abstract weighted graph after any sequence of operations
#include "vc.h"
struct Model {            // blocks of original vertices, weights between them
    int k = 0;
    unsigned in[MAXN] = {};
    uint64_t w[MAXN][MAXN] = {};
    bool has[MAXN][MAXN] = {};
    void link(int a, int b, uint64_t x) { w[a][b] = w[b][a] = x; has[a][b] = has[b][a] = true; }
    void unlink(int a, int b) { w[a][b] = w[b][a] = 0; has[a][b] = has[b][a] = false; }
    void drop(int a) {
        --k;
        for (int j = 0; j <= k; ++j) { w[a][j] = w[k][j]; has[a][j] = has[k][j]; }
        for (int j = 0; j <= k; ++j) { w[j][a] = w[j][k]; has[j][a] = has[j][k]; }
        w[a][a] = 0; has[a][a] = false;
        in[a] = in[k];
        for (int j = 0; j <= k; ++j) { w[k][j] = w[j][k] = 0; has[k][j] = has[j][k] = false; }
        in[k] = 0;
    }
    void merge(int a, int b) {   // b into a
        for (int j = 0; j < k; ++j)
            if (j != a && j != b && has[b][j]) {
                if (has[a][j]) link(a, j, w[a][j] + w[b][j]); else link(a, j, w[b][j]);
            }
        in[a] |= in[b];
        drop(b);
    }
};
static unsigned mask(mutableGraphPtr G, NodeID v) {
    unsigned m = 0;
    for (auto c : G->containedVertices(v)) { sx_assert(c < MAXN && !((m >> c) & 1), "an original vertex is contained once"); m |= 1u << c; }
    return m;
}
// model block of graph vertex v (blocks have distinct contents, at most one is empty)
static int blockOf(const Model& m, mutableGraphPtr G, NodeID v) {
    unsigned c = mask(G, v);
    for (int i = 0; i < m.k; ++i) if (m.in[i] == c) return i;
    return -1;
}
static void check(const Model& m, mutableGraphPtr G, int orig, bool extremes = false) {
    sx_assert(G->n() == (unsigned)m.k && G->number_of_nodes() == (unsigned)m.k, "number of vertices");
    int id[MAXN];
    unsigned seen = 0;
    for (int v = 0; v < m.k; ++v) {
        id[v] = blockOf(m, G, v);
        sx_assert(id[v] >= 0 && !((seen >> id[v]) & 1), "each vertex contains exactly the vertices merged into it");
        seen |= 1u << id[v];
        for (int o = 0; o < orig; ++o)
            if ((m.in[id[v]] >> o) & 1) sx_assert(G->getCurrentPosition(o) == (NodeID)v, "current position of an original vertex");
        sx_assert(G->isEmpty(v) == (m.in[id[v]] == 0) && (int)G->numContainedVertices(v) == __builtin_popcount(m.in[id[v]]), "containment counts");
    }
    unsigned edges = 0;
    uint64_t lo = 0, hi = 0, sum = 0;
    bool wok = true, dok = true;
    for (int v = 0; v < m.k; ++v) {
        unsigned nb = 0;
        uint64_t d = 0;
        for (EdgeID e : G->edges_of(v)) {
            NodeID t = G->getEdgeTarget(v, e);
            sx_assert(t < (NodeID)m.k && t != (NodeID)v, "target in range, no self loop");
            sx_assert(!((nb >> t) & 1), "no duplicate edge");
            nb |= 1u << t;
            EdgeID r = G->getReverseEdge(v, e);
            sx_assert(r < G->get_first_invalid_edge(t) && G->getEdgeTarget(t, r) == (NodeID)v && G->getReverseEdge(t, r) == e, "reverse edge points back");
            sx_assert(G->getEdgeSource(v, e) == (NodeID)v, "edge source");
            sx_assert(m.has[id[v]][id[t]], "edge exists in the model");
            wok &= G->getEdgeWeight(v, e) == m.w[id[v]][id[t]];
            d += m.w[id[v]][id[t]];
            ++edges;
        }
        int want = 0;
        for (int j = 0; j < m.k; ++j) want += m.has[id[v]][j];
        sx_assert(want == __builtin_popcount(nb), "no edge is missing");
        sx_assert(G->getUnweightedNodeDegree(v) == (unsigned)want, "unweighted degree");
        dok &= G->getWeightedNodeDegree(v) == d;
        lo = v ? sx_min(lo, d) : d;
        hi = v ? sx_max(hi, d) : d;
        sum += d;
    }
    sx_assert(wok, "edge weights");
    sx_assert(dok, "weighted degrees");
    sx_assert(G->m() == edges, "number of edges");
    if (m.k && extremes) {
        sx_assert(G->getMinDegree() == lo, "minimum degree");
        sx_assert(G->getMaxDegree() == hi, "maximum degree");
        sx_assert(G->sumOfEdgeWeights() == sum, "sum of degrees");
    }
}
static EdgeID edgeId(mutableGraphPtr G, NodeID u, NodeID v) {
    for (EdgeID e : G->edges_of(u)) if (G->getEdgeTarget(u, e) == v) return e;
    return UNDEFINED_EDGE;
}
static const char* NAME[] = {"new_edge", "deleteEdge", "setEdgeWeight", "contractEdge", "contractEdgeSparseTarget",
                             "contractVertexSet", "contractSparseTargetNoEdge", "deleteVertex", "new_empty_node"};
static int pick(const char* n, int hi) { return (int)sx_concrete(sx_int(n, 0, hi)); }
static void step(Model& m, mutableGraphPtr G, unsigned kinds) {
    std::vector<int> can;      // operations possible now
    std::vector<std::pair<int, int>> adj, non;
    for (int u = 0; u < m.k; ++u)
        for (int v = 0; v < m.k; ++v)
            if (u != v) (edgeId(G, u, v) == UNDEFINED_EDGE ? non : adj).push_back({u, v});
    for (int o = 0; o < 9; ++o) {
        if (!((kinds >> o) & 1)) continue;
        if ((o == 0 || o == 6) && non.empty()) continue;
        if (o >= 1 && o <= 4 && adj.empty()) continue;
        if ((o == 5 || o == 7) && m.k < 2) continue;
        bool full = true;
        for (int i = 0; i < m.k; ++i) full &= m.in[i] != 0;
        if (o == 8 && !full) continue;
        can.push_back(o);
    }
    if (can.empty()) return;
    int op = can[pick("op", can.size() - 1)];
    if (op == 8) {
        NodeID v = G->new_empty_node();
        sx_assert(v == (NodeID)m.k, "new node has the next number");
        m.in[m.k++] = 0;
    } else if (op == 7) {
        int u = pick("u", m.k - 1);
        m.drop(blockOf(m, G, u));
        G->deleteVertex(u);
    } else if (op == 5) {
        unsigned s = 0, all = 0;
        { std::vector<unsigned> c; for (unsigned x = 0; x < (1u << m.k); ++x) if (__builtin_popcount(x) >= 2) c.push_back(x); s = c[pick("set", c.size() - 1)]; }
        std::unordered_set<NodeID> vs;
        std::vector<unsigned> ms;
        for (int i = 0; i < m.k; ++i) if ((s >> i) & 1) { vs.insert(i); ms.push_back(mask(G, i)); }
        G->contractVertexSet(vs);
        all = ms[0];
        for (size_t i = 1; i < ms.size(); ++i) {
            int a = -1, b = -1;
            for (int j = 0; j < m.k; ++j) { if (m.in[j] == all) a = j; else if (m.in[j] == ms[i]) b = j; }
            all |= ms[i];
            m.merge(a, b);
        }
    } else {
        auto& l = op == 0 || op == 6 ? non : adj;
        auto [u, v] = l[pick("pair", l.size() - 1)];
        int a = blockOf(m, G, u), b = blockOf(m, G, v);
        EdgeID e = edgeId(G, u, v);
        if (op == 0) {
            uint64_t w = sx_int("w", 1, 1000000);
            G->new_edge_order(u, v, w);
            m.link(a, b, w);
        } else if (op == 6) {
            G->contractSparseTargetNoEdge(u, v);
            m.merge(a, b);
        } else {
            if (op == 1) { G->deleteEdge(u, e); m.unlink(a, b); }
            if (op == 2) { uint64_t w = sx_int("w", 0, 1000000); G->setEdgeWeight(u, e, w); m.link(a, b, w); }
            if (op == 3) { G->contractEdge(u, e); m.merge(a, b); }
            if (op == 4) { G->contractEdgeSparseTarget(u, e); m.merge(a, b); }
        }
    }
    sx_cover(NAME[op]);
}
static void run(const SymGraph& s, int ops, unsigned kinds, bool extremes = false) {
    sx_timeout(10);
    auto G = toMutable(s);
    Model m;
    m.k = s.n;
    for (int i = 0; i < s.n; ++i) {
        m.in[i] = 1u << i;
        for (int j = 0; j < s.n; ++j) { m.w[i][j] = s.w[i][j]; m.has[i][j] = s.has[i][j]; }
    }
    check(m, G, s.n);
    for (int i = 0; i < ops; ++i) {
        step(m, G, kinds);
        check(m, G, s.n, extremes && i + 1 == ops);
    }
}
static const unsigned ALL = 511, EDIT = 1 | 2 | 4, CONTR = 8 | 16 | 32 | 64, VTX = 128 | 256;
SX_HARNESS(any4_1) { run(anyGraph(4, 1, 1000000), 1, ALL); }
SX_HARNESS(deg3_1) { run(anyGraph(3, 1, 1000000), 1, ALL, true); }
SX_HARNESS(any3_2) { run(anyGraph(3, 1, 1000000), 2, ALL); }
SX_HARNESS(any4_2) { run(anyGraph(4, 1, 1000000), 2, ALL); }
SX_HARNESS(any3_3) { run(anyGraph(3, 1, 1000000), 3, ALL); }
SX_HARNESS(k4_2) { run(topoGraph(4, "01 02 03 12 13 23", 1, 1000000), 2, ALL); }
SX_HARNESS(k4_3contr) { run(topoGraph(4, "01 02 03 12 13 23", 1, 1000000), 3, CONTR | 2); }
SX_HARNESS(house5_2) { run(topoGraph(5, "34 01 24 12 03 02 13", 1, 1000000), 2, ALL); }
SX_HARNESS(w5_3contr) { run(topoGraph(5, "40 01 24 12 03 34 13", 1, 1000000), 3, CONTR); }
SX_HARNESS(vtx4_3) { run(topoGraph(4, "01 12 23 03", 1, 1000000), 3, VTX | 1 | 8 | 32); }
SX_HARNESS(prism6_2) { run(topoGraph(6, "01 12 20 03 14 25 34 45 53", 1, 1000000), 2, CONTR); }
SX_HARNESS(edit5_3) { run(topoGraph(5, "34 01 24 12 03 02 13", 1, 1000000), 3, EDIT); }
