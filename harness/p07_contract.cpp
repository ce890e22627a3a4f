// P07 contraction builds the quotient graph
#include "vc.h"
#ifdef PARALLEL
#include "parallel/coarsening/contract_graph.h"
#else
#include "coarsening/contract_graph.h"
#endif
struct Blocks { int k = 0; int of[MAXN]; };
// every partition, blocks numbered by first occurrence (perm: any numbering that rotates/reverses it)
static Blocks anyBlocks(int n, bool renumber) {
    Blocks b;
    for (int i = 0; i < n; ++i) {
        int c = (int)sx_concrete(sx_int("block", 0, b.k));
        b.of[i] = c;
        if (c == b.k) ++b.k;
    }
    if (renumber && sx_bool("reverse")) for (int i = 0; i < n; ++i) b.of[i] = b.k - 1 - b.of[i];
    return b;
}
// pos[i] = vertex of H that stands for original vertex i
template <class P> static void quotient(const SymGraph& s, const Blocks& b, P H, const int* pos) {
    sx_assert(H->number_of_nodes() == (unsigned)b.k && H->n() == (unsigned)b.k, "one vertex per block");
    int blk[MAXN];
    for (int i = 0; i < b.k; ++i) blk[i] = -1;
    for (int i = 0; i < s.n; ++i) {
        sx_assert(pos[i] >= 0 && pos[i] < b.k, "the recorded block is a vertex of the contracted graph");
        sx_assert(blk[pos[i]] == -1 || blk[pos[i]] == b.of[i], "vertices of different blocks are not merged");
        blk[pos[i]] = b.of[i];
    }
    for (int i = 0; i < s.n; ++i)
        for (int j = 0; j < i; ++j)
            sx_assert((pos[i] == pos[j]) == (b.of[i] == b.of[j]), "vertices of one block are merged");
    uint64_t w[MAXN][MAXN] = {};
    bool has[MAXN][MAXN] = {};
    int edges = 0;
    for (int i = 0; i < s.n; ++i)
        for (int j = 0; j < s.n; ++j)
            if (s.has[i][j] && pos[i] != pos[j]) { w[pos[i]][pos[j]] += s.w[i][j]; if (!has[pos[i]][pos[j]]) ++edges; has[pos[i]][pos[j]] = true; }
    bool ok = true;
    int cnt = 0;
    for (NodeID v : H->nodes()) {
        unsigned nb = 0;
        uint64_t d = 0;
        for (EdgeID e : H->edges_of(v)) {
            auto [t, x] = H->getEdge(v, e);
            sx_assert(t < (NodeID)b.k && t != v, "no self loop, target in range");
            sx_assert(!((nb >> t) & 1), "no duplicate edge");
            nb |= 1u << t;
            sx_assert(has[v][t], "an edge exists between the blocks");
            ok &= x == w[v][t];
            d += w[v][t];
            ++cnt;
        }
        ok &= H->getWeightedNodeDegree(v) == d;
    }
    sx_assert(ok, "edge weight is the sum of the weights between the blocks");
    sx_assert(cnt == edges, "no edge is missing");
    sx_assert(H->number_of_edges() == (EdgeID)edges, "edge count");
    if (b.k < s.n) sx_cover("merged");
    if (b.k == 1) sx_cover("one");
}
static union_find ufOf(const SymGraph& s, const Blocks& b) {
    union_find uf(s.n);
    for (int i = 0; i < s.n; ++i)
        for (int j = 0; j < i; ++j)
            if (b.of[i] == b.of[j]) { uf.Union(j, i); break; }
    return uf;
}
template <class P> static void viaUF(const SymGraph& s, bool copy) {
    cfg()->save_cut = true;
    Blocks b = anyBlocks(s.n, false);
    auto G = Mk<P>::make(s);
    union_find uf = ufOf(s, b);
    auto H = contraction::fromUnionFind(G, &uf, copy);
    int pos[MAXN];
    if (std::is_same<P, mutableGraphPtr>::value && !copy)
        for (int i = 0; i < s.n; ++i) pos[i] = H->getCurrentPosition(i);
    else
        for (int i = 0; i < s.n; ++i) pos[i] = G->getPartitionIndex(i);
    quotient(s, b, H, pos);
    if constexpr (std::is_same<P, mutableGraphPtr>::value) {
        if (copy) {   // the input is unchanged
            int id[MAXN];
            Blocks each;
            each.k = s.n;
            for (int i = 0; i < s.n; ++i) each.of[i] = id[i] = i;
            quotient(s, each, G, id);
            for (int v = 0; v < b.k; ++v) sx_assert(H->containedVertices(v).size() == 1 && H->containedVertices(v)[0] == (NodeID)v, "a contracted copy starts a new vertex numbering");
        } else {
            for (int v = 0; v < b.k; ++v) {
                unsigned m = 0, want = 0;
                for (auto c : H->containedVertices(v)) m |= 1u << c;
                for (int i = 0; i < s.n; ++i) if (pos[i] == v) want |= 1u << i;
                sx_assert(m == want, "contained vertices are those of the block");
            }
        }
    }
}
static void maps(const SymGraph& s, const Blocks& b, std::vector<NodeID>& m, std::vector<std::vector<NodeID>>& rm) {
    m.resize(s.n);
    rm.resize(b.k);
    for (int i = 0; i < s.n; ++i) { m[i] = b.of[i]; rm[b.of[i]].push_back(i); }
}
enum { GRAPH, SPARSE, MESH, NOHASH };
static void direct(const SymGraph& s, int kind) {
    Blocks b = anyBlocks(s.n, true);
    auto G = toAccess(s);
    std::vector<NodeID> m;
    std::vector<std::vector<NodeID>> rm;
    maps(s, b, m, rm);
    graphAccessPtr H;
#ifdef PARALLEL
    if (kind == GRAPH) H = contraction::contractGraph(G, m, rm);
    if (kind == SPARSE) H = contraction::contractGraphSparse(G, m, b.k);
    if (kind == MESH) H = contraction::contractGraphFullMesh(G, m, b.k);
    if (kind == NOHASH) H = contraction::contractGraphSparseNoHash(G, m, b.k);
#else
    if (kind == GRAPH) H = contraction::contractGraph(G, m, rm);
    else H = contraction::contractGraphSparse(G, m, rm);
#endif
    quotient(s, b, H, b.of);
}
static void directMut(const SymGraph& s, int kind) {
    Blocks b = anyBlocks(s.n, true);
    auto G = toMutable(s);
    std::vector<NodeID> m;
    std::vector<std::vector<NodeID>> rm;
    maps(s, b, m, rm);
#ifdef PARALLEL
    if (kind == SPARSE) { auto H = contraction::contractGraphSparse(G, m, b.k); quotient(s, b, H, b.of); return; }
    auto H = contraction::contractGraphVtxset(G, m, rm, true);
#else
    if (kind == SPARSE) { auto H = contraction::contractGraphSparse(G, m, rm); quotient(s, b, H, b.of); return; }
    auto H = contraction::contractGraphVertexset(G, m, rm, true);
#endif
    int pos[MAXN];
    for (int i = 0; i < s.n; ++i) pos[i] = G->getPartitionIndex(i);
    quotient(s, b, H, pos);
}
static const char* E5 = "01 02 12 13 23 34 24 04";
static const char* E6 = "01 12 20 03 14 25 34 45 53";
static const int64_t W = 6000000000ll;
#ifndef PARALLEL
SX_HARNESS(uf4) { viaUF<graphAccessPtr>(anyGraph(4, 1, W), false); }
SX_HARNESS(uf4_mut) { viaUF<mutableGraphPtr>(anyGraph(4, 1, W), true); }
SX_HARNESS(uf4_inplace) { viaUF<mutableGraphPtr>(anyGraph(4, 1, W), false); }
SX_HARNESS(uf5) { viaUF<graphAccessPtr>(anyGraph(5, 1, W), false); }
SX_HARNESS(uf5_mut) { viaUF<mutableGraphPtr>(anyGraph(5, 1, W), true); }
SX_HARNESS(uf5_inplace) { viaUF<mutableGraphPtr>(anyGraph(5, 1, W), false); }
SX_HARNESS(uf6) { viaUF<graphAccessPtr>(topoGraph(6, E6, 1, W), false); }
SX_HARNESS(uf6_mut) { viaUF<mutableGraphPtr>(topoGraph(6, E6, 1, W), true); }
SX_HARNESS(uf6_inplace) { viaUF<mutableGraphPtr>(topoGraph(6, E6, 1, W), false); }
SX_HARNESS(graph4) { direct(anyGraph(4, 1, W), GRAPH); }
SX_HARNESS(sparse4_mut) { directMut(anyGraph(4, 1, W), SPARSE); }
SX_HARNESS(vset4_mut) { directMut(anyGraph(4, 1, W), GRAPH); }
SX_HARNESS(vset6_mut) { directMut(topoGraph(6, E6, 1, W), GRAPH); }
SX_HARNESS(sparse6_mut) { directMut(topoGraph(6, E6, 1, W), SPARSE); }
SX_HARNESS(delete_edge) {
    SymGraph s = anyGraph(4, 1, W);
    sx_assume(s.edges() > 0);
    auto G = toAccess(s);
    EdgeID e = sx_concrete(sx_int("e", 0, 2 * s.edges() - 1));
    int u = G->getEdgeSource(e), v = G->getEdgeTarget(e);
    auto H = contraction::deleteEdge(G, e);
    SymGraph t = s;
    t.has[u][v] = t.has[v][u] = false; t.w[u][v] = t.w[v][u] = 0;
    Blocks each; each.k = 4;
    int id[4] = {0, 1, 2, 3};
    for (int i = 0; i < 4; ++i) each.of[i] = i;
    quotient(t, each, H, id);
}
SX_HARNESS(contract_edge) {
    cfg()->save_cut = true;
    SymGraph s = anyGraph(4, 1, W);
    sx_assume(s.edges() > 0);
    auto G = toAccess(s);
    EdgeID e = sx_concrete(sx_int("e", 0, 2 * s.edges() - 1));
    int u = G->getEdgeSource(e), v = G->getEdgeTarget(e);
    std::vector<NodeID> t = {0, 1, 2, 3};
    auto [H, out] = contraction::contractEdge(G, t, e);
    Blocks b; b.k = 3;
    int c = 0, pos[4];
    for (int i = 0; i < 4; ++i) { b.of[i] = i == std::max(u, v) ? b.of[std::min(u, v)] : c++; pos[i] = out[i]; }
    quotient(s, b, H, pos);
}
#else
template <class F> static void par(int t, int p, F f) { sx_timeout(10); sx_omp(t, p); f(); }
SX_HARNESS(uf4) { par(1, 0, [] { viaUF<graphAccessPtr>(anyGraph(4, 1, W), false); }); }
SX_HARNESS(uf4_mut) { par(1, 0, [] { viaUF<mutableGraphPtr>(anyGraph(4, 1, W), true); }); }
SX_HARNESS(uf4_inplace) { par(1, 0, [] { viaUF<mutableGraphPtr>(anyGraph(4, 1, W), false); }); }
SX_HARNESS(mesh4) { par(1, 0, [] { direct(anyGraph(4, 1, W), MESH); }); }
SX_HARNESS(sparse4) { par(1, 0, [] { direct(anyGraph(4, 1, W), SPARSE); }); }
SX_HARNESS(nohash4) { par(1, 0, [] { direct(anyGraph(4, 1, W), NOHASH); }); }
SX_HARNESS(sparse4_mut) { par(1, 0, [] { directMut(anyGraph(4, 1, W), SPARSE); }); }
SX_HARNESS(vset4_mut) { par(1, 0, [] { directMut(anyGraph(4, 1, W), GRAPH); }); }
SX_HARNESS(graph5) { par(1, 0, [] { direct(topoGraph(5, E5, 1, W), GRAPH); }); }
SX_HARNESS(t2_mesh) { par(2, 1, [] { direct(topoGraph(4, "01 12 23 03 02", 1, W), MESH); }); }
SX_HARNESS(t2_sparse) { par(2, 1, [] { direct(topoGraph(4, "01 12 23 03 02", 1, W), SPARSE); }); }
SX_HARNESS(t2_sparse2) { par(2, 2, [] { direct(topoGraph(4, "01 12 23 03", 1, W), SPARSE); }); }
SX_HARNESS(t2_sparse5) { par(2, 1, [] { direct(topoGraph(5, E5, 1, W), SPARSE); }); }
SX_HARNESS(t2_nohash) { par(2, 1, [] { direct(topoGraph(4, "01 12 23 03 02", 1, W), NOHASH); }); }
SX_HARNESS(t2_sparse_mut) { par(2, 1, [] { directMut(topoGraph(4, "01 12 23 03 02", 1, W), SPARSE); }); }
SX_HARNESS(t3_sparse_mut) { par(3, 1, [] { directMut(topoGraph(4, "01 12 23 03", 1, W), SPARSE); }); }
SX_HARNESS(t2_uf) { par(2, 1, [] { viaUF<mutableGraphPtr>(topoGraph(5, E5, 1, W), true); }); }
#endif
