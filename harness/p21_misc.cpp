// P21 k-cores, P22 components, P29 extraction, P32 utility queries, P35 metrics
#include <algorithm>
#include <queue>
#include <stack>
#include <unordered_map>
#include "vc.h"
#include "algorithms/misc/core_decomposition.h"
#include "algorithms/misc/graph_algorithms.h"
#include "algorithms/misc/strongly_connected_components.h"
#include "tools/graph_extractor.h"
#include "tools/quality_metrics.h"

// ---- small helpers on concrete topology
static unsigned nb(const SymGraph& s, int v) { unsigned m = 0; for (int j = 0; j < s.n; ++j) if (s.has[v][j]) m |= 1u << j; return m; }
static unsigned comp(const SymGraph& s, int v, unsigned in) {
    unsigned r = 1u << v, o = 0;
    while (r != o) { o = r; for (int i = 0; i < s.n; ++i) if ((r >> i) & 1) r |= nb(s, i) & in; }
    return r;
}
// G is the subgraph of s induced by the vertices of set, in increasing order
static bool induced(const SymGraph& s, unsigned set, graphAccessPtr G) {
    std::vector<int> v;
    for (int i = 0; i < s.n; ++i) if ((set >> i) & 1) v.push_back(i);
    if (G->number_of_nodes() != v.size()) return false;
    bool ok = true;
    size_t m = 0;
    for (size_t a = 0; a < v.size(); ++a) {
        unsigned seen = 0;
        for (EdgeID e : G->edges_of(a)) {
            NodeID t = G->getEdgeTarget(e);
            if (t >= v.size() || ((seen >> t) & 1) || !s.has[v[a]][v[t]]) return false;
            seen |= 1u << t;
            ok &= G->getEdgeWeight(e) == s.w[v[a]][v[t]];
            ++m;
        }
        if (__builtin_popcount(seen) != __builtin_popcount(nb(s, v[a]) & set)) return false;
        uint64_t d = 0;
        for (int j : v) if (s.has[v[a]][j]) d += s.w[v[a]][j];
        ok &= G->getWeightedNodeDegree(a) == d;
    }
    return ok & (m == G->number_of_edges());
}
static bool induced(const SymGraph& s, unsigned set, mutableGraphPtr G) {
    std::vector<int> v;
    for (int i = 0; i < s.n; ++i) if ((set >> i) & 1) v.push_back(i);
    if (G->number_of_nodes() != v.size()) return false;
    bool ok = true;
    for (size_t a = 0; a < v.size(); ++a) {
        unsigned seen = 0;
        for (EdgeID e : G->edges_of(a)) {
            NodeID t = G->getEdgeTarget(a, e);
            if (t >= v.size() || ((seen >> t) & 1) || !s.has[v[a]][v[t]]) return false;
            seen |= 1u << t;
            ok &= G->getEdgeWeight(a, e) == s.w[v[a]][v[t]];
            EdgeID r = G->getReverseEdge(a, e);
            if (r >= G->get_first_invalid_edge(t) || G->getEdgeTarget(t, r) != a || G->getReverseEdge(t, r) != e) return false;
        }
        if (__builtin_popcount(seen) != __builtin_popcount(nb(s, v[a]) & set)) return false;
        uint64_t d = 0;
        for (int j : v) if (s.has[v[a]][j]) d += s.w[v[a]][j];
        ok &= G->getWeightedNodeDegree(a) == d;
    }
    return ok;
}

// ---- P21
static void cores(const SymGraph& s) {
    quiet();
    graphAccessPtr G = toAccess(s);
    k_cores kc = core_decomposition::batagelj_zaversnik(G);
    std::vector<int> core(s.n, 0);
    for (unsigned m = 1; m < (1u << s.n); ++m) {
        int d = s.n;
        for (int v = 0; v < s.n; ++v) if ((m >> v) & 1) d = std::min(d, __builtin_popcount(nb(s, v) & m));
        for (int v = 0; v < s.n; ++v) if ((m >> v) & 1) core[v] = std::max(core[v], d);
    }
    bool ok = true, perm = true;
    unsigned seen = 0;
    int top = 0;
    for (int v = 0; v < s.n; ++v) {
        ok &= kc.degrees[v] == (NodeID)core[v];
        perm &= kc.position[v] < (NodeID)s.n && kc.vertices[kc.position[v]] == (NodeID)v;
        seen |= 1u << kc.vertices[v];
        top = std::max(top, core[v]);
        if (v) perm &= kc.degrees[kc.vertices[v - 1]] <= kc.degrees[kc.vertices[v]];
    }
    sx_assert(ok, "core numbers");
    sx_assert(perm && seen == s.full(), "order by core numbers");
    sx_assert((int)kc.degrees[kc.vertices[s.n - 1]] == top, "largest core number");
    bool bk = true;
    for (int k = 0; k <= top; ++k) {
        unsigned below = 0;
        for (int v = 0; v < s.n; ++v) below += core[v] < k;
        bk &= k < (int)kc.buckets.size() && kc.buckets[k] == below;
    }
    sx_assert(bk, "bucket starts");
    int k = sx_concrete(sx_int("k", 0, top));
    if (k > 1) sx_cover("core2");
    graphAccessPtr C = core_decomposition::createCoreGraph(kc, k, G);
    unsigned in = 0, best = 0;
    for (int v = 0; v < s.n; ++v) if (core[v] >= k) in |= 1u << v;
    bool any = false;
    for (int v = 0; v < s.n; ++v) if ((in >> v) & 1) best = std::max(best, (unsigned)__builtin_popcount(comp(s, v, in)));
    for (int v = 0; v < s.n; ++v)
        if ((in >> v) & 1) {
            unsigned c = comp(s, v, in);
            if (__builtin_ctz(c) == v && (unsigned)__builtin_popcount(c) == best && C->number_of_nodes() == best) any |= induced(s, c, C);
        }
    sx_assert(any, "the core graph is a largest component of the subgraph induced by the core");
}
SX_HARNESS(core_any3) { cores(anyGraph(3, 1, 1000)); }
SX_HARNESS(core_any4) { cores(anyGraph(4, 1, 1000)); }
SX_HARNESS(core_any4u) { cores(anyGraph(4, 1, 1)); }
SX_HARNESS(core_any5u) { cores(anyGraph(5, 1, 1)); }
SX_HARNESS(core_fam8) { cores(familyGraph(8, 60, 45, 1, 0, 1)); }
SX_HARNESS(core_fam9) { cores(familyGraph(9, 60, 40, 1, 0, 1)); }
SX_HARNESS(core_clu10) { cores(familyGraph(10, 60, 80, 1, 0, 1, 3)); }
SX_HARNESS(core_famw) { cores(familyGraph(7, 60, 45, 4, 2, 50)); }

// ---- P22
static void components(const SymGraph& s) {
    quiet();
    graphAccessPtr G = toAccess(s);
    strongly_connected_components scc;
    std::vector<int> cn(s.n);
    size_t c = scc.strong_components(G, &cn);
    unsigned used = 0;
    bool ok = true;
    for (int i = 0; i < s.n; ++i) {
        ok &= cn[i] >= 0 && cn[i] < (int)c;
        used |= 1u << cn[i];
        for (int j = 0; j < s.n; ++j) ok &= (cn[i] == cn[j]) == (((comp(s, i, s.full()) >> j) & 1) != 0);
    }
    sx_assert(ok, "components are the sets of mutually reachable vertices");
    sx_assert(used == (1u << c) - 1, "components are numbered without gaps");
    strongly_connected_components scc2;
    graphAccessPtr L = scc2.largest_scc(G);
    unsigned best = 0;
    for (int v = 0; v < s.n; ++v) best = std::max(best, (unsigned)__builtin_popcount(comp(s, v, s.full())));
    bool any = false;
    for (int v = 0; v < s.n; ++v) {
        unsigned m = comp(s, v, s.full());
        if (__builtin_ctz(m) == v && (unsigned)__builtin_popcount(m) == best && L->number_of_nodes() == best) any |= induced(s, m, L);
    }
    sx_assert(any, "the extracted component is the largest one");
    if (c > 1) sx_cover("several");
}
SX_HARNESS(cc_any4) { components(anyGraph(4, 1, 1000)); }
SX_HARNESS(cc_any5) { components(anyGraph(5, 1, 1)); }
SX_HARNESS(cc_sparse8) {
    // any subset of 9 edges on 8 nodes
    SymGraph s;
    s.n = 8;
    const char* e = "07 61 25 34 12 56 70 73 04";
    for (const char* p = e; *p; ++p) { if (*p == ' ') continue; if (sx_bool("edge")) s.set(p[0] - '0', p[1] - '0', 3); ++p; }
    components(s);
}
// residual graph: arcs with flow equal to the weight do not exist
static void residual(const SymGraph& s, bool table, int rounds, int64_t fmax) {
    quiet();
    mutableGraphPtr G = toMutable(s);
    strongly_connected_components scc;
    for (int r = 0; r < rounds; ++r) {
        bool arc[MAXN][MAXN] = {};
        for (NodeID v : G->nodes())
            for (EdgeID e : G->edges_of(v)) {
                NodeID t = G->getEdgeTarget(v, e);
                int64_t f = sx_int("flow", -fmax, fmax);
                sx_assume(f <= (int64_t)s.w[v][t]);
                bool other = table && sx_bool("other");   // a flow of another problem counts as none
                G->setEdgeFlow(v, e, f, other ? 1 : 2);
                arc[v][t] = other || sx_concrete(f != (int64_t)s.w[v][t]);
            }
        for (int k = 0; k < s.n; ++k) for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) if (arc[i][k] && arc[k][j]) arc[i][j] = true;
        auto [cn, c, sizes] = table ? scc.strong_components(G, 2) : scc.strong_components(G);
        bool ok = true;
        std::vector<size_t> cnt(s.n + 1);
        for (int i = 0; i < s.n; ++i) {
            ok &= cn[i] >= 0 && cn[i] < (int)c;
            if (!ok) break;
            ++cnt[cn[i]];
            for (int j = 0; j < s.n; ++j) if (i != j) ok &= (cn[i] == cn[j]) == (arc[i][j] && arc[j][i]);
        }
        sx_assert(ok, "components of the residual graph");
        bool sz = sizes.size() == c;
        for (size_t i = 0; sz && i < c; ++i) sz &= sizes[i] == cnt[i] && cnt[i] > 0;
        sx_assert(sz, "sizes of the components");
        if (c > 1 && c < (size_t)s.n) sx_cover("mixed");
    }
}
SX_HARNESS(res_any3) { residual(anyGraph(3, 1, 9), false, 1, 9); }
SX_HARNESS(res_k4) { residual(topoGraph(4, "01 12 23 30", 2, 9), false, 1, 9); }
SX_HARNESS(res_cyc5) { residual(topoGraph(5, "01 12 23 34 40", 2, 2), false, 1, 2); }
SX_HARNESS(res_problem) { residual(topoGraph(4, "01 12 20 23", 1, 3), true, 1, 3); }
SX_HARNESS(res_again) { residual(topoGraph(3, "01 12", 1, 2), false, 2, 2); }

// ---- P29
static void extractStatic(const SymGraph& s, int blocks) {
    graphAccessPtr G = toAccess(s);
    std::vector<int> b(s.n);
    unsigned set = 0;
    int want = sx_concrete(sx_int("block", 0, blocks - 1));
    for (int v = 0; v < s.n; ++v) { b[v] = sx_concrete(sx_int("part", 0, blocks - 1)); G->setPartitionIndex(v, b[v]); if (b[v] == want) set |= 1u << v; }
    graph_extractor ge;
    auto [E, map] = ge.extract_block(G, want);
    sx_assert(induced(s, set, E), "the extracted graph is the induced subgraph");
    bool ok = map.size() == (size_t)s.n;
    NodeID k = 0;
    for (int v = 0; ok && v < s.n; ++v) ok &= b[v] == want ? map[v] == k++ : map[v] >= (NodeID)s.n;
    sx_assert(ok, "mapping to the extracted graph");
    if (k && k < (NodeID)s.n) sx_cover("part");
}
static void extractMutable(const SymGraph& s, int blocks) {
    mutableGraphPtr G = toMutable(s);
    std::vector<int> b(s.n);
    unsigned set = 0;
    int want = sx_concrete(sx_int("block", 0, blocks - 1));
    for (int v = 0; v < s.n; ++v) { b[v] = sx_concrete(sx_int("part", 0, blocks - 1)); if (b[v] == want) set |= 1u << v; }
    graph_extractor ge;
    auto [E, map, rev] = ge.extract_block(G, want, b);
    sx_assert(induced(s, set, E), "the extracted graph is the induced subgraph");
    bool ok = rev.size() == (size_t)s.n && map.size() == (size_t)__builtin_popcount(set);
    NodeID k = 0;
    for (int v = 0; ok && v < s.n; ++v)
        if (b[v] == want) { ok &= rev[v] == k && map[k] == (NodeID)v; ++k; } else ok &= rev[v] >= (NodeID)s.n;
    sx_assert(ok, "mappings between the graphs");
    bool own = true;
    for (NodeID v = 0; v < k; ++v) own &= E->getCurrentPosition(v) == v && E->containedVertices(v).size() == 1 && E->containedVertices(v)[0] == v;
    sx_assert(own, "every vertex of the extracted graph contains itself");
    if (k && k < (NodeID)s.n) sx_cover("part");
}
SX_HARNESS(ex_any4) { extractStatic(anyGraph(4, 1, 1000), 2); }
SX_HARNESS(ex_any4_mut) { extractMutable(anyGraph(4, 1, 1000), 2); }
SX_HARNESS(ex_house) { extractStatic(topoGraph(5, "01 12 23 30 04 14", 1, 1000), 3); }
SX_HARNESS(ex_house_mut) { extractMutable(topoGraph(5, "01 12 23 30 04 14", 1, 1000), 3); }
SX_HARNESS(ex_fam8) { extractStatic(familyGraph(8, 8, 45, 4, 2, 50), 2); }
SX_HARNESS(ex_fam8_mut) { extractMutable(familyGraph(8, 8, 45, 4, 2, 50), 2); }
SX_HARNESS(ex_wide) { extractStatic(topoGraph(3, "01 12 20", 1, 6000000000ll), 2); }
SX_HARNESS(ex_wide_mut) { extractMutable(topoGraph(3, "01 12 20", 1, 6000000000ll), 2); }

// ---- P32
static void topk(const SymGraph& s, int kind) {
    quiet();
    int k = sx_concrete(sx_int("k", 0, s.n));
    std::vector<NodeID> r;
    if (kind == 0) r = graph_algorithms::top_k_degrees(toAccess(s), k);
    if (kind == 1) r = graph_algorithms::top_k_degrees(toMutable(s), k);
    if (kind == 2) r = graph_algorithms::weighted_top_k_degrees(toAccess(s), k);
    auto key = [&](int v) { return kind == 0 ? (uint64_t)__builtin_popcount(nb(s, v)) : s.deg(v); };
    unsigned in = 0;
    bool ok = r.size() == (size_t)k;
    for (NodeID v : r) { ok &= v < (NodeID)s.n && !((in >> v) & 1); in |= 1u << v; }
    sx_assert(ok, "as many distinct vertices as requested");
    bool dom = true;
    for (int a = 0; a < s.n; ++a) for (int b = 0; b < s.n; ++b) if (((in >> a) & 1) && !((in >> b) & 1)) dom &= key(a) >= key(b);
    sx_assert(dom, "no vertex left out has a larger degree");
    if (k > 0 && k < s.n) sx_cover("some");
}
SX_HARNESS(top_any4) { topk(anyGraph(4, 1, 1), 0); }
SX_HARNESS(top_any5) { topk(anyGraph(5, 1, 1), 0); }
SX_HARNESS(top_mut4) { topk(anyGraph(4, 1, 1000), 1); }
SX_HARNESS(top_w4) { topk(anyGraph(4, 1, 1000), 2); }
SX_HARNESS(top_wide) { topk(topoGraph(4, "01 12 23", 1, 6000000000ll), 2); }
SX_HARNESS(top_wide_mut) { topk(topoGraph(4, "01 12 23", 1, 6000000000ll), 1); }
SX_HARNESS(top_fam8) { topk(familyGraph(8, 20, 45, 4, 3, 20), 1); }
static void bfs(const SymGraph& s) {
    quiet();
    mutableGraphPtr G = toMutable(s);
    int st = sx_concrete(sx_int("start", 0, s.n - 1));
    auto [par, dist, last] = graph_algorithms::bfsDistances(G, st);
    std::vector<int> d(s.n, -1);
    d[st] = 0;
    int far = 0;
    for (int r = 0; r < s.n; ++r) for (int v = 0; v < s.n; ++v) if (d[v] == r) for (int u = 0; u < s.n; ++u) if (s.has[v][u] && d[u] < 0) { d[u] = r + 1; far = r + 1; }
    bool ok = par.size() == (size_t)s.n && dist.size() == (size_t)s.n;
    for (int v = 0; ok && v < s.n; ++v) {
        if (v == st || d[v] < 0) ok &= dist[v] == 0 && par[v] == UNDEFINED_NODE;
        else ok &= (int)dist[v] == d[v] && par[v] < (NodeID)s.n && s.has[v][par[v]] && d[par[v]] + 1 == d[v];
    }
    sx_assert(ok, "distances and parents are those of a shortest path tree");
    sx_assert(last < (NodeID)s.n && d[last] == far, "the returned vertex is farthest away");
    if (far > 1) sx_cover("far");
}
SX_HARNESS(bfs_any4) { bfs(anyGraph(4, 1, 1)); }
SX_HARNESS(bfs_any5) { bfs(anyGraph(5, 1, 1)); }
SX_HARNESS(bfs_one) { SymGraph s; s.n = 1; bfs(s); }
SX_HARNESS(bfs_fam9) { bfs(familyGraph(9, 60, 20, 1, 0, 1)); }
// consistent graphs are accepted: an exit here counts as a violation
SX_HARNESS(valid_any4) { quiet(); SymGraph s = anyGraph(4, 1, 1000); graph_algorithms::checkGraphValidity(toAccess(s)); graph_algorithms::checkGraphValidity(toMutable(s)); sx_assert(true, "accepted"); }
SX_HARNESS(valid_wide) { quiet(); SymGraph s = topoGraph(4, "01 12 23 30 02", 1, 6000000000ll); graph_algorithms::checkGraphValidity(toAccess(s)); graph_algorithms::checkGraphValidity(toMutable(s)); sx_assert(true, "accepted"); }
SX_HARNESS(valid_ops) {
    quiet();
    SymGraph s = topoGraph(5, "01 12 23 30 04 14", 1, 1000);
    mutableGraphPtr G = toMutable(s);
    int v = sx_concrete(sx_int("vertex", 0, 4)), e = sx_concrete(sx_int("edge", 0, 2));
    sx_assume(e < (int)G->get_first_invalid_edge(v));
    if (sx_bool("delete")) G->deleteEdge(v, e); else G->contractEdge(v, e);
    graph_algorithms::checkGraphValidity(G);
    sx_assert(true, "accepted");
}

// ---- P35
static void metrics(const SymGraph& s, int blocks) {
    graphAccessPtr G = toAccess(s);
    std::vector<int> b(s.n);
    for (int v = 0; v < s.n; ++v) { b[v] = sx_concrete(sx_int("part", 0, blocks - 1)); G->setPartitionIndex(v, b[v]); }
    uint64_t want = 0;
    for (int i = 0; i < s.n; ++i) for (int j = i + 1; j < s.n; ++j) if (s.has[i][j] && b[i] != b[j]) want += s.w[i][j];
    quality_metrics qm;
    uint64_t got = qm.edge_cut(*G);
    sx_assert(got == want, "edge cut");
    if (blocks > 2) sx_cover("blocks");
}
SX_HARNESS(cut_any4) { metrics(anyGraph(4, 1, 1000), 3); }
SX_HARNESS(cut_any4_wide) { metrics(topoGraph(4, "01 12 23 30 02", 1, 6000000000ll), 4); }
SX_HARNESS(cut_fam9) { metrics(familyGraph(9, 4, 45, 4, 3, 50), 2); }
