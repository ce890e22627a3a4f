// P15 / P16: all minimum cuts and the most balanced one
#include "vc.h"
#ifdef PARALLEL
#include "parallel/algorithm/parallel_cactus.h"
#define CACTUS parallel_cactus
#else
#include "algorithms/global_mincut/cactus/cactus_mincut.h"
#define CACTUS cactus_mincut
#endif
static uint64_t pick(const char* n, int hi) { return hi ? sx_concrete(sx_int(n, 0, hi)) : 0; }
// the cuts of the cactus, from its definition: enumerate its bipartitions
static std::vector<bool> cactusCuts(const SymGraph& s, mutableGraphPtr C, uint64_t mincut) {
    int N = C->n();
    sx_assert(N >= 1 && N <= 4 * s.n, "the cactus has linear size");
    std::vector<unsigned> in(N, 0);
    unsigned all = 0;
    for (int v = 0; v < N; ++v)
        for (NodeID c : C->containedVertices(v)) {
            sx_assert(c < (NodeID)s.n && !((all >> c) & 1), "each vertex lies in one cactus node");
            all |= 1u << c;
            in[v] |= 1u << c;
            sx_assert(C->getCurrentPosition(c) == (NodeID)v, "position of a vertex in the cactus");
        }
    sx_assert(all == s.full(), "every vertex lies in a cactus node");
    std::vector<std::vector<int>> u(N, std::vector<int>(N, 0));
    for (int v = 0; v < N; ++v)
        for (EdgeID e : C->edges_of(v)) {
            int t = C->getEdgeTarget(v, e);
            sx_assert(t < N && t != v, "cactus edge ends");
            uint64_t w = C->getEdgeWeight(v, e);
            int k = 0;
            if (w == mincut) k = 2;
            else if (2 * w == mincut) k = 1;
            sx_assert(k, "cactus edges weigh the minimum cut or half of it");
            u[v][t] += k;
        }
    for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) sx_assert(u[i][j] == u[j][i], "cactus is symmetric");
    std::vector<bool> is(1u << s.n, false);
    // Gray code over bipartitions with node 0 on a fixed side
    std::vector<int> side(N, 0);
    int cut = 0;
    unsigned m = 0;
    for (uint64_t i = 1; i < (1ull << (N - 1)); ++i) {
        int v = 1 + __builtin_ctzll(i);
        side[v] ^= 1;
        m ^= in[v];
        for (int t = 0; t < N; ++t) if (u[v][t]) cut += (side[v] != side[t]) ? u[v][t] : -u[v][t];
        sx_assert(cut >= 2, "no cut of the cactus is lighter than the minimum cut");
        if (cut == 2) {
            sx_assert(m != 0 && m != s.full(), "a minimum cut of the cactus separates vertices");
            is[m] = is[s.full() ^ m] = true;
        }
    }
    return is;
}
static void checkAll(const SymGraph& s, uint64_t r, mutableGraphPtr C) {
    assertMinCut(s, r, "the cactus algorithm reports the minimum cut");
    auto is = cactusCuts(s, C, r);
    bool miss = true, extra = true;
    int cnt = 0;
    for (unsigned m = 1; m < (1u << (s.n - 1)); ++m) {
        if (is[m]) { extra &= s.cut(m) == r; ++cnt; }
        else miss &= s.cut(m) != r;
    }
    if (cnt > 2) sx_cover("several");
    sx_assert(extra, "every cut of the cactus is a minimum cut");
    sx_assert(miss, "every minimum cut is a cut of the cactus");
}
template <class P> static void checkBalanced(const SymGraph& s, uint64_t r, P G, const std::vector<std::pair<NodeID, EdgeID>>& ed) {
    unsigned m = cutMask(G, s.n);
    sx_assert(m != 0 && m != s.full(), "the balanced cut has two sides");
    sx_assert(s.cut(m) == r, "the balanced cut is a minimum cut");
    int k = __builtin_popcount(m);
    k = std::min(k, s.n - k);
    bool best = true;
    for (unsigned q = 1; q < (1u << (s.n - 1)); ++q) {
        int c = __builtin_popcount(q);
        if (std::min(c, s.n - c) > k) best &= s.cut(q) != r;
    }
    sx_assert(best, "no minimum cut is more balanced");
    int want = 0, got = 0;
    for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) want += s.has[i][j] && (((m >> i) ^ (m >> j)) & 1);
    for (auto [n, e] : ed) { ++got; sx_assert(((m >> n) ^ (m >> G->getEdgeTarget(n, e))) & 1, "listed edges cross the balanced cut"); }
    sx_assert(got == want, "all edges of the balanced cut are listed");
}
static const char* RULE[] = {"heavy_weighted", "heavy", "central", "random"};
template <class P> static void cactus(const SymGraph& s, int rules = 0, bool known = false) {
    quiet();
    auto c = cfg();
    c->save_cut = true;
    c->edge_selection = RULE[pick("rule", rules)];
#ifdef BALANCED
    c->find_most_balanced_cut = true;
    c->set_node_in_cut = true;
#endif
    P G = Mk<P>::make(s);
    CACTUS<P> mc;
    auto [r, C, ed] = known ? mc.findAllMincuts(G, s.mincut()) : mc.findAllMincuts(G);
#ifdef BALANCED
    assertMinCut(s, r, "the cactus algorithm reports the minimum cut");
    checkBalanced(s, r, G, ed);
#else
    (void)ed;
    checkAll(s, r, C);
#endif
}
typedef mutableGraphPtr M;
typedef graphAccessPtr A;
SX_HARNESS(any2) { cactus<M>(anyGraph(2, 1, 20, true)); }
SX_HARNESS(any3) { cactus<M>(anyGraph(3, 1, 4, true), 3); }
SX_HARNESS(any3_acc) { cactus<A>(anyGraph(3, 1, 4, true)); }
SX_HARNESS(any4_unit) { cactus<M>(anyGraph(4, 1, 1, true), 3); }
SX_HARNESS(any4) { cactus<M>(anyGraph(4, 1, 3, true)); }
SX_HARNESS(any4_acc) { cactus<A>(anyGraph(4, 1, 2, true)); }
SX_HARNESS(any5_unit) { cactus<M>(anyGraph(5, 1, 1, true)); }
SX_HARNESS(any5_unit_acc) { cactus<A>(anyGraph(5, 1, 1, true)); }
SX_HARNESS(any5_unit_rules) { cactus<M>(anyGraph(5, 1, 1, true), 3); }
SX_HARNESS(any5) { cactus<M>(anyGraph(5, 1, 2, true)); }
SX_HARNESS(cyc5) { cactus<M>(topoGraph(5, "01 12 23 34 40", 1, 3), 3); }
SX_HARNESS(cyc6) { cactus<M>(topoGraph(6, "01 12 23 34 45 50", 1, 2), 3); }
SX_HARNESS(bow5) { cactus<M>(topoGraph(5, "01 12 02 23 34 24", 1, 3)); }
SX_HARNESS(prism6) { cactus<M>(topoGraph(6, "01 12 02 34 45 35 03 14 25", 1, 2)); }
SX_HARNESS(tree6) { cactus<M>(topoGraph(6, "01 12 13 34 35", 1, 2)); }
SX_HARNESS(tri6) { cactus<M>(topoGraph(6, "01 12 20 03 34 40 15 52", 1, 2)); }
SX_HARNESS(cyc7) { SymGraph s = topoGraph(7, "01 12 20", 1, 2); addFixed(s, "03 34 40 15 56 61", 1); cactus<M>(s, 3); }
SX_HARNESS(any6_unit) { cactus<M>(anyGraph(6, 1, 1, true), 3); }
SX_HARNESS(ring8) { SymGraph s = topoGraph(8, "04 15 26 37", 1, 2); addFixed(s, "01 12 23 30", 2); cactus<M>(s, 3); }
SX_HARNESS(known4) { cactus<M>(anyGraph(4, 1, 2, true), 0, true); }
SX_HARNESS(known5_unit) { cactus<A>(anyGraph(5, 1, 1, true), 0, true); }
#ifndef PARALLEL
SX_HARNESS(wide2) { cactus<M>(topoGraph(2, "01", 4000000000LL, 5000000000LL)); }
SX_HARNESS(wide3) { cactus<M>(topoGraph(3, "01 12", 4000000000LL, 5000000000LL)); }
SX_HARNESS(big3) { cactus<M>(topoGraph(3, "01 12 02", 10001, 10020)); }
#endif
SX_HARNESS(fam6) { cactus<M>(familyGraph(6, 120, 60, 2, 3, 3), 3); }
SX_HARNESS(fam7) { cactus<M>(familyGraph(7, 120, 45, 2, 3, 3), 3); }
SX_HARNESS(clu8) { cactus<M>(familyGraph(8, 120, 90, 1, 3, 3, 3), 3); }
SX_HARNESS(clu9) { cactus<A>(familyGraph(9, 120, 90, 1, 3, 3, 3)); }
SX_HARNESS(spa8) { cactus<M>(familyGraph(8, 120, 25, 2, 3, 3), 3); }
