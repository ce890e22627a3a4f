// P05 local contraction tests are safe
#include "vc.h"
#ifdef PARALLEL
#include "parallel/coarsening/contraction_tests.h"
#else
#include "coarsening/contraction_tests.h"
#endif
// nodes of a mask that is a union of sets of uf
static bool respects(union_find& uf, int n, unsigned m) {
    for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j)
            if (uf.Find(i) == uf.Find(j) && (((m >> i) ^ (m >> j)) & 1)) return false;
    return true;
}
// one-cut mode: a minimum cut lighter than the limit survives
static void oneCut(const SymGraph& s, union_find& uf, uint64_t limit) {
    bool survives = false;
    for (unsigned m = 1; m < (1u << (s.n - 1)); ++m)
        if (respects(uf, s.n, m)) survives |= s.lowerBound(s.cut(m));
    sx_assert(survives | s.lowerBound(limit), "a minimum cut lighter than the limit survives the merges");
    if (uf.n() < s.n) sx_cover("merged");
}
// all-cuts mode: no minimum cut lighter than the limit is split
static void allCuts(const SymGraph& s, union_find& uf, uint64_t limit) {
    bool ok = true;
    for (unsigned m = 1; m < (1u << (s.n - 1)); ++m)
        if (!respects(uf, s.n, m)) ok &= !(s.lowerBound(s.cut(m)) & (s.cut(m) < limit));
    sx_assert(ok, "no minimum cut lighter than the limit is lost");
    if (uf.n() < s.n) sx_cover("merged");
}
static uint64_t anyLimit(const SymGraph& s, int64_t hi, int plus) {
    uint64_t limit = sx_int("limit", 1, hi);
    bool ok = true;
    for (int i = 0; i < s.n; ++i) ok &= limit <= s.deg(i) + plus;
    sx_assume(ok);
    return limit;
}
template <class P> static void t12(const SymGraph& s, bool all, int64_t hi) {
    uint64_t limit = anyLimit(s, hi, all);
    auto G = Mk<P>::make(s);
    auto uf = tests::prTests12(G, limit, all);
    all ? allCuts(s, uf, limit) : oneCut(s, uf, limit);
}
template <class P> static void t34(const SymGraph& s, bool all, int64_t hi) {
    uint64_t limit = anyLimit(s, hi, all);
    auto G = Mk<P>::make(s);
    auto uf = tests::prTests34(G, limit, all);
    all ? allCuts(s, uf, limit) : oneCut(s, uf, limit);
}
static const char* K4 = "01 02 03 12 13 23";
static const char* K5 = "01 02 03 04 12 13 14 23 24 34";
SX_HARNESS(pr12_4) { t12<graphAccessPtr>(anyGraph(4, 1, 1000, true), false, 3000); }
SX_HARNESS(pr12_4_mut) { t12<mutableGraphPtr>(anyGraph(4, 1, 1000, true), false, 3000); }
SX_HARNESS(pr12_4_all) { t12<graphAccessPtr>(anyGraph(4, 1, 1000, true), true, 3000); }
SX_HARNESS(pr12_4_all_mut) { t12<mutableGraphPtr>(anyGraph(4, 1, 1000, true), true, 3000); }
SX_HARNESS(pr34_4) { t34<graphAccessPtr>(anyGraph(4, 1, 1000, true), false, 3000); }
SX_HARNESS(pr34_4_mut) { t34<mutableGraphPtr>(anyGraph(4, 1, 1000, true), false, 3000); }
SX_HARNESS(pr34_4_all) { t34<graphAccessPtr>(anyGraph(4, 1, 1000, true), true, 3000); }
SX_HARNESS(pr34_4_all_mut) { t34<mutableGraphPtr>(anyGraph(4, 1, 1000, true), true, 3000); }
SX_HARNESS(pr34_5) { t34<graphAccessPtr>(topoGraph(5, "01 02 12 13 23 34 24 04", 1, 20), false, 60); }
SX_HARNESS(pr34_5_all) { t34<graphAccessPtr>(topoGraph(5, "01 02 12 13 23 34 24 04", 1, 20), true, 60); }
SX_HARNESS(pr34_5unit) { t34<graphAccessPtr>(anyGraph(5, 1, 1, true), false, 4); }
SX_HARNESS(pr34_5unit_all) { t34<graphAccessPtr>(anyGraph(5, 1, 1, true), true, 5); }
SX_HARNESS(pr12_5unit) { t12<graphAccessPtr>(anyGraph(5, 1, 1, true), false, 4); }
SX_HARNESS(pr12_5unit_all) { t12<graphAccessPtr>(anyGraph(5, 1, 1, true), true, 5); }



SX_HARNESS(heavy_edges) {
    SymGraph s = anyGraph(4, 1, 1000, true);
    uint64_t limit = sx_int("limit", 1, 3000);
    auto G = toAccess(s);
    union_find uf(4);
    tests::findHeavyEdges(G, &uf, limit);
    bool ok = true;
    for (unsigned m = 1; m < 8; ++m)
        if (!respects(uf, 4, m)) ok &= s.cut(m) > limit;
    sx_assert(ok, "no cut of at most the limit is lost by heavy edges");
    if (uf.n() < 4) sx_cover("merged");
}
SX_HARNESS(heavy_triangles) {
    SymGraph s = anyGraph(4, 1, 1000, true);
    uint64_t limit = sx_int("limit", 1, 3000);
    auto G = toAccess(s);
    union_find uf(4);
    tests::findHeavyTriangles(G, &uf, limit);
    bool ok = true;
    for (unsigned m = 1; m < 8; ++m)
        if (!respects(uf, 4, m)) ok &= s.cut(m) > limit;
    sx_assert(ok, "no cut of at most the limit is lost by heavy triangles");
    if (uf.n() < 4) sx_cover("merged");
}
SX_HARNESS(pr12_wide) { t12<graphAccessPtr>(topoGraph(4, "01 12 23 03", 1, 6000000000ll), false, 12000000000ll); }
SX_HARNESS(pr34_wide) { t34<graphAccessPtr>(topoGraph(4, "01 12 02 23 13", 1, 6000000000ll), false, 18000000000ll); }
SX_HARNESS(pr12_wide_all) { t12<graphAccessPtr>(topoGraph(4, "01 12 23 03", 1, 6000000000ll), true, 12000000000ll); }
SX_HARNESS(pr34_wide_all) { t34<graphAccessPtr>(topoGraph(4, "01 12 02 23 13", 1, 6000000000ll), true, 18000000000ll); }
SX_HARNESS(pr12_fam7) { t12<graphAccessPtr>(familyGraph(7, 48, 55, 5, 2, 8), false, 30); }
SX_HARNESS(pr12_clu8) { t12<mutableGraphPtr>(familyGraph(8, 48, 80, 4, 2, 6, 2), false, 30); }
SX_HARNESS(pr12_fam7_all) { t12<graphAccessPtr>(familyGraph(7, 48, 55, 5, 2, 8), true, 30); }
SX_HARNESS(pr12_clu8_all) { t12<mutableGraphPtr>(familyGraph(8, 48, 80, 4, 2, 6, 2), true, 30); }
SX_HARNESS(pr34_fam7) { t34<graphAccessPtr>(familyGraph(7, 48, 55, 5, 2, 8), false, 30); }
SX_HARNESS(pr34_clu8) { t34<mutableGraphPtr>(familyGraph(8, 48, 80, 4, 2, 6, 2), false, 30); }
SX_HARNESS(pr34_fam7_all) { t34<graphAccessPtr>(familyGraph(7, 48, 55, 5, 2, 8), true, 30); }
SX_HARNESS(pr34_clu8_all) { t34<mutableGraphPtr>(familyGraph(8, 48, 80, 4, 2, 6, 2), true, 30); }
