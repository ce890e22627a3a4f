// P26 parallel exact minimum cut; the concurrent scans; saved partition
#include "vc.h"
#include "parallel/algorithm/exact_parallel_minimum_cut.h"
template <class P> static void exact(const SymGraph& s, int threads, int preempt, int rnd = 0) {
    quiet();
    sx_timeout(10);
    sx_omp(threads, preempt);
    sx_omp_bounds(1);
    if (rnd) sx_symbolic_random(rnd, 0);
    cfg()->threads = threads;
    cfg()->save_cut = true;
    auto G = Mk<P>::make(s);
    exact_parallel_minimum_cut<P> a;
    uint64_t r = a.perform_minimum_cut(G);
    assertMinCut(s, r, "the parallel algorithm returns the minimum cut");
    assertSavedCut(s, G, r, "the saved partition has the minimum weight");
    if (r) sx_cover("positive"); else sx_cover("zero");
}
// merges of the concurrent scans never lose a cut lighter than the bound
static void scan(const SymGraph& s, uint64_t bound, int threads, int preempt, int rnd, bool noBlack = false) {
    quiet();
    sx_timeout(10);
    sx_omp(threads, preempt);
    sx_omp_bounds(1);
    if (rnd) sx_symbolic_random(rnd, 0);
    auto G = toAccess(s);
    exact_parallel_minimum_cut<graphAccessPtr> a;
    auto uf = a.parallel_modified_capforest(G, bound, noBlack);
    unsigned blk[MAXN];
    for (int i = 0; i < s.n; ++i) blk[i] = uf.Find(i);
    bool ok = true;
    for (unsigned m = 1; m < (1u << (s.n - 1)); ++m) {
        bool splits = false;
        for (int i = 0; i < s.n; ++i)
            for (int j = 0; j < i; ++j) splits |= blk[i] == blk[j] && (((m >> i) ^ (m >> j)) & 1);
        if (splits) { ok &= s.cut(m) >= bound; sx_cover("merged"); }
    }
    sx_assert(ok, "merged vertices are not separated by a cut lighter than the bound");
}
#define CUBE "01 12 23 30 45 56 67 74 04 15 26 37"
#define PRISM "01 12 20 03 14 25 34 45 53"
SX_HARNESS(any3) { exact<graphAccessPtr>(anyGraph(3, 1, 20), 1, 0); }
SX_HARNESS(any4) { exact<graphAccessPtr>(anyGraph(4, 1, 3), 1, 0); }
SX_HARNESS(any4_mut) { exact<mutableGraphPtr>(anyGraph(4, 1, 3), 1, 0); }
SX_HARNESS(any5_unit) { exact<graphAccessPtr>(anyGraph(5, 1, 1), 1, 0); }
SX_HARNESS(any5_unit_mut) { exact<mutableGraphPtr>(anyGraph(5, 1, 1, true), 1, 0); }
SX_HARNESS(prism) { exact<graphAccessPtr>(topoGraph(6, PRISM, 1, 3), 1, 0); }
SX_HARNESS(t2_any3) { exact<graphAccessPtr>(anyGraph(3, 1, 2), 2, 1); }
SX_HARNESS(t2_path4) { exact<graphAccessPtr>(topoGraph(4, "01 12 23 30 02", 1, 2), 2, 1, 2); }
SX_HARNESS(t2_path4_mut) { exact<mutableGraphPtr>(topoGraph(4, "01 12 23 30 02", 1, 2), 2, 1, 2); }
SX_HARNESS(t3_prism) { exact<graphAccessPtr>(topoGraph(6, PRISM, 1, 1), 3, 1, 3); }
static uint64_t bnd(int hi) { return sx_concrete(sx_int("bound", 1, hi)); }
SX_HARNESS(scan1_any4) { auto s = anyGraph(4, 1, 3); scan(s, bnd(6), 1, 0, 1); }
SX_HARNESS(scan1_any5u) { auto s = anyGraph(5, 1, 1); scan(s, bnd(4), 1, 0, 0); }
SX_HARNESS(scan2_any3) { auto s = anyGraph(3, 1, 2, true); scan(s, bnd(3), 2, 2, 2); }
SX_HARNESS(scan2_any4u) { auto s = anyGraph(4, 1, 1, true); scan(s, bnd(3), 2, 2, 2); }
SX_HARNESS(scan2_k4) { auto s = topoGraph(4, "01 12 23 30 02 13", 1, 2); scan(s, bnd(4), 2, 1, 2); }
SX_HARNESS(scan2_prism) { auto s = topoGraph(6, PRISM, 1, 1); scan(s, 3, 2, 2, 2); }
SX_HARNESS(scan2_cyc5) { auto s = topoGraph(5, "01 12 23 34 40", 1, 2); scan(s, bnd(3), 2, 2, 2); }
SX_HARNESS(scan2_noblack) { auto s = topoGraph(4, "01 12 23 30 02", 1, 2); scan(s, bnd(4), 2, 1, 2, true); }
SX_HARNESS(scan3_any3) { auto s = anyGraph(3, 1, 1, true); scan(s, bnd(2), 3, 2, 3); }
SX_HARNESS(scan3_cyc4) { auto s = topoGraph(4, "01 12 23 30", 1, 2); scan(s, bnd(3), 3, 1, 3); }
SX_HARNESS(fam8) { exact<graphAccessPtr>(familyGraph(8, 48, 55, 4, 2, 6), 1, 0); }
SX_HARNESS(clu9) { exact<graphAccessPtr>(familyGraph(9, 48, 80, 4, 2, 5, 3), 1, 0); }
SX_HARNESS(clu9_mut) { exact<mutableGraphPtr>(familyGraph(9, 48, 80, 4, 2, 5, 3), 1, 0); }
SX_HARNESS(scan1_fam7) { auto s = familyGraph(7, 24, 55, 4, 1, 6); scan(s, bnd(10), 1, 0, 1); }
