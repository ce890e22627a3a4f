// P03 heuristics report real cuts; P04 approximation guarantee; P02 (SAVED): their saved partitions
#include "vc.h"
#include "algorithms/global_mincut/viecut.h"
#include "algorithms/global_mincut/padberg_rinaldi.h"
#include "algorithms/global_mincut/matula_approx.h"
#ifndef PARALLEL
#include "algorithms/global_mincut/ks_minimum_cut.h"
#endif
#ifdef SAVED
static const bool SV = true;
#else
static const bool SV = false;
#endif
template <class A, class P> static uint64_t run(const SymGraph& s, P G) {
    cfg()->save_cut = SV;
    A a;
    return a.perform_minimum_cut(G);
}
template <class P> static void cutOk(const SymGraph& s, P G, uint64_t r, bool degBound) {
#ifdef SAVED
    assertSavedCut(s, G, r, "saved partition has the reported weight");
#else
    sx_assert(isSomeCut(s, r), "reported value is the weight of a cut");
    if (degBound) {
        bool ok = true;
        for (int i = 0; i < s.n; ++i) ok &= r <= s.deg(i);
        sx_assert(ok, "reported value is at most the minimum degree");
    }
#endif
    if (r == 0) sx_cover("zero"); else sx_cover("positive");
}
template <class P> static void doPR(const SymGraph& s) {
    auto G = Mk<P>::make(s);
    cutOk(s, G, run<padberg_rinaldi<P>>(s, G), true);
}
template <class P> static void doVC(const SymGraph& s) {
    auto G = Mk<P>::make(s);
    cutOk(s, G, run<viecut<P>>(s, G), true);
}
template <class P> static void doMatula(const SymGraph& s) {
    auto G = Mk<P>::make(s);
    uint64_t r = run<matula_approx<P>>(s, G);
    cutOk(s, G, r, true);
#ifndef SAVED
    bool ok = true;
    for (unsigned m = 1; m < (1u << (s.n - 1)); ++m) ok &= 2 * r <= 5 * s.cut(m);
    sx_assert(ok, "reported value is at most 2.5 times the minimum cut");
#endif
}
#ifndef PARALLEL
static void doKS(const SymGraph& s) {
    auto G = toAccess(s);
    cutOk(s, G, run<ks_minimum_cut>(s, G), false);
}
SX_HARNESS(ks4) { cfg()->pq = "heap"; doKS(anyGraph(4, 1, 1000, true)); }
SX_HARNESS(ks4_any) { cfg()->pq = "heap"; sx_timeout(10); doKS(anyGraph(4, 1, 1000)); }
SX_HARNESS(ks3_any) { cfg()->pq = "heap"; sx_timeout(10); doKS(anyGraph(3, 1, 1000)); }
SX_HARNESS(ks2) { cfg()->pq = "heap"; sx_timeout(10); doKS(anyGraph(2, 1, 1000)); }
SX_HARNESS(ks6) { cfg()->pq = "heap"; doKS(topoGraph(6, "01 12 20 03 14 25 34 45 53", 1, 100)); }
SX_HARNESS(ks5_unit) { cfg()->pq = "heap"; doKS(anyGraph(5, 1, 1, true)); }
#endif
SX_HARNESS(pr3) { doPR<graphAccessPtr>(anyGraph(3, 1, 1000000)); }
SX_HARNESS(pr4) { doPR<graphAccessPtr>(anyGraph(4, 1, 1000000)); }
SX_HARNESS(pr4_mut) { doPR<mutableGraphPtr>(anyGraph(4, 1, 1000000)); }
SX_HARNESS(pr5_unit) { doPR<graphAccessPtr>(anyGraph(5, 1, 1)); }
SX_HARNESS(pr5_unit_mut) { doPR<mutableGraphPtr>(anyGraph(5, 1, 1)); }
SX_HARNESS(pr6) { doPR<graphAccessPtr>(topoGraph(6, "01 12 20 03 14 25 34 45 53", 1, 100)); }
SX_HARNESS(vc4) { cfg()->pq = "heap"; doVC<graphAccessPtr>(anyGraph(4, 1, 1000)); }
SX_HARNESS(vc4_mut) { cfg()->pq = "heap"; doVC<mutableGraphPtr>(anyGraph(4, 1, 1000)); }
SX_HARNESS(vc5_unit) { cfg()->pq = "bstack"; sx_symbolic_random(3, 0); doVC<graphAccessPtr>(anyGraph(5, 1, 1, true)); }
SX_HARNESS(vc5_unit_mut) { cfg()->pq = "bqueue"; doVC<mutableGraphPtr>(anyGraph(5, 1, 1)); }
SX_HARNESS(vc6) { cfg()->pq = "heap"; doVC<graphAccessPtr>(topoGraph(6, "01 12 20 03 14 25 34 45 53", 1, 100)); }
SX_HARNESS(vc6_mut) { cfg()->pq = "heap"; doVC<mutableGraphPtr>(topoGraph(6, "01 12 20 03 14 25 34 45 53", 1, 100)); }
SX_HARNESS(matula4) { cfg()->pq = "heap"; doMatula<graphAccessPtr>(anyGraph(4, 1, 1000000)); }
SX_HARNESS(matula4_mut) { cfg()->pq = "heap"; doMatula<mutableGraphPtr>(anyGraph(4, 1, 1000000)); }
SX_HARNESS(matula4_bq) { cfg()->pq = "bqueue"; doMatula<graphAccessPtr>(anyGraph(4, 1, 3)); }
SX_HARNESS(matula5_unit) { cfg()->pq = "bstack"; doMatula<graphAccessPtr>(anyGraph(5, 1, 1)); }
SX_HARNESS(matula5_unit_mut) { cfg()->pq = "bstack"; doMatula<mutableGraphPtr>(anyGraph(5, 1, 1)); }
SX_HARNESS(matula6) { cfg()->pq = "heap"; doMatula<graphAccessPtr>(topoGraph(6, "01 12 20 03 14 25 34 45 53", 1, 100)); }
// larger families with few symbolic weights, checked against the listed sides only
struct Big {
    int n;
    std::vector<std::vector<uint64_t>> w;
    explicit Big(int n) : n(n), w(n, std::vector<uint64_t>(n, 0)) { }
    void set(int a, int b, uint64_t x) { w[a][b] = w[b][a] = x; }
    uint64_t cut(const std::vector<bool>& in) const {
        uint64_t x = 0;
        for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (w[i][j] && in[i] != in[j]) x += w[i][j];
        return x;
    }
    uint64_t cut(std::vector<int> side) const {
        std::vector<bool> in(n);
        for (int v : side) in[v] = true;
        return cut(in);
    }
    template <class P> P make() const {
        auto G = std::make_shared<typename P::element_type>();
        constexpr bool acc = std::is_same<P, graphAccessPtr>::value;
        if constexpr (acc) G->start_construction(n, n * n); else G->start_construction(n);
        for (int i = 0; i < n; ++i) {
            G->new_node();
            if constexpr (acc) for (int j = 0; j < n; ++j) if (w[i][j]) G->new_edge(i, j, w[i][j]);
        }
        if constexpr (!acc) for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (w[i][j]) G->new_edge(i, j, w[i][j]);
        G->finish_construction();
        return G;
    }
};
template <class P> static uint64_t bigVC(const Big& b, std::vector<std::vector<int>> sides) {
    cfg()->save_cut = SV;
    auto G = b.make<P>();
    viecut<P> a;
    uint64_t r = a.perform_minimum_cut(G);
    for (int i = 0; i < b.n; ++i) sides.push_back({ i });
#ifdef SAVED
    std::vector<bool> in(b.n);
    bool some = false, all = true;
    for (int i = 0; i < b.n; ++i) { in[i] = G->getNodeInCut(i); some |= in[i]; all &= in[i]; }
    sx_assert(some && !all, "saved partition has two non-empty sides");
    sx_assert(b.cut(in) == r, "saved partition has the reported weight");
#else
    bool ok = false;
    for (auto& s : sides) ok |= b.cut(s) == r;
    sx_assert(ok, "reported value is the weight of one of the light cuts");
#endif
    return r;
}
// two complete graphs on five pairs each: the cheapest cut is only visible
// after contracting the pairs, and is no single vertex of any level
template <class P> static void doPairs() {
    cfg()->pq = "heap";
    Big b(20);
    uint64_t t = sx_int("t", 3, 20), c = sx_int("c", 1, 20);
    sx_assume(c <= t);
    for (int i = 0; i < 10; ++i) b.set(2 * i, 2 * i + 1, 10000);
    for (int s = 0; s < 2; ++s)
        for (int i = 0; i < 5; ++i)
            for (int j = i + 1; j < 5; ++j) b.set(10 * s + 2 * i, 10 * s + 2 * j + 1, t);
    for (int i = 0; i < 5; ++i) b.set(2 * i, 10 + 2 * i, c);
    uint64_t r = bigVC<P>(b, { { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9 }, { 0, 1 }, { 2, 3 }, { 4, 5 }, { 6, 7 }, { 8, 9 } });
    if (r == 5 * c) sx_cover("nontrivial");
}
SX_HARNESS(vcpairs) { doPairs<graphAccessPtr>(); }
SX_HARNESS(vcpairs_mut) { doPairs<mutableGraphPtr>(); }
// a pair {0,1} with a third vertex 2 that belongs to its cluster but makes the
// cluster's cut heavier than the pair's: found by moving 2 out again
template <class P> static void doMove() {
    cfg()->pq = "heap";
    Big b(12);
    uint64_t x = sx_int("x", 41, 60), y = sx_int("y", 1, 40), z = sx_int("z", 1, 40), o = sx_int("o", 1, 5);
    b.set(0, 1, 10000);
    b.set(0, 2, x);
    b.set(2, 3, y);
    b.set(2, 6, z);
    b.set(0, 9, o);
    for (int c = 0; c < 3; ++c) { b.set(3 + 3 * c, 4 + 3 * c, 5000); b.set(4 + 3 * c, 5 + 3 * c, 5000); b.set(3 + 3 * c, 5 + 3 * c, 5000); }
    b.set(3, 6, 200); b.set(6, 9, 200); b.set(3, 9, 200);
    uint64_t r = bigVC<P>(b, { { 0, 1 }, { 0, 1, 2 } });
    if (r == x + o) sx_cover("moved");
}
SX_HARNESS(vcmove) { doMove<graphAccessPtr>(); }
SX_HARNESS(vcmove_mut) { doMove<mutableGraphPtr>(); }
SX_HARNESS(pr_fam8) { cfg()->pq = "heap"; doPR<graphAccessPtr>(familyGraph(8, 100, 55, 4, 3, 6)); }
SX_HARNESS(pr_clu9) { cfg()->pq = "bstack"; doPR<mutableGraphPtr>(familyGraph(9, 80, 80, 4, 3, 5, 3)); }
SX_HARNESS(pr_clu10) { cfg()->pq = "bqueue"; doPR<graphAccessPtr>(familyGraph(10, 60, 75, 4, 3, 5, 2)); }
SX_HARNESS(vc_fam8) { cfg()->pq = "heap"; doVC<graphAccessPtr>(familyGraph(8, 100, 55, 4, 3, 6)); }
SX_HARNESS(vc_clu9) { cfg()->pq = "bstack"; doVC<mutableGraphPtr>(familyGraph(9, 80, 80, 4, 3, 5, 3)); }
SX_HARNESS(vc_clu10) { cfg()->pq = "bqueue"; doVC<graphAccessPtr>(familyGraph(10, 60, 75, 4, 3, 5, 2)); }
SX_HARNESS(matula_fam8) { cfg()->pq = "heap"; doMatula<graphAccessPtr>(familyGraph(8, 100, 55, 4, 3, 6)); }
SX_HARNESS(matula_clu9) { cfg()->pq = "bstack"; doMatula<mutableGraphPtr>(familyGraph(9, 80, 80, 4, 3, 5, 3)); }
SX_HARNESS(matula_clu10) { cfg()->pq = "bqueue"; doMatula<graphAccessPtr>(familyGraph(10, 60, 75, 4, 3, 5, 2)); }
#ifndef PARALLEL
SX_HARNESS(ks_fam8) { cfg()->pq = "heap"; doKS(familyGraph(8, 100, 55, 4, 3, 6)); }
SX_HARNESS(ks_clu9) { cfg()->pq = "heap"; doKS(familyGraph(9, 80, 80, 4, 3, 5, 3)); }
#endif
