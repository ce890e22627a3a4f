// P06 the scan never merges vertices separated by a cut lighter than its bound
#include "vc.h"
#include "algorithms/global_mincut/noi_minimum_cut.h"
template <class P> static void scan(const SymGraph& s, int64_t hi) {
    uint64_t b = sx_int("bound", 1, hi);
    auto G = Mk<P>::make(s);
    noi_minimum_cut<P> noi;
    auto uf = noi.modified_capforest(G, b);
    bool ok = true;
    unsigned sets = 0;
    for (int i = 0; i < s.n; ++i) if (uf.Find(i) == i) ++sets;
    for (unsigned m = 1; m < (1u << (s.n - 1)); ++m) {
        bool split = false;
        for (int i = 0; i < s.n; ++i)
            for (int j = 0; j < s.n; ++j)
                if (((m >> i) & 1) && !((m >> j) & 1) && uf.Find(i) == uf.Find(j)) split = true;
        if (split) ok &= s.cut(m) >= b;
    }
    sx_assert(ok, "no merged pair is separated by a cut lighter than the bound");
    sx_assert(uf.n() == sets, "set count matches");
    if (sets < (unsigned)s.n) sx_cover("merged");
}
// progress: with a bound of at most the minimum degree at least one edge is merged
template <class P> static void progress(const SymGraph& s, int64_t hi) {
    uint64_t b = sx_int("bound", 1, hi);
    bool ok = true;
    for (int i = 0; i < s.n; ++i) ok &= b <= s.deg(i);
    sx_assume(ok);
    auto G = Mk<P>::make(s);
    noi_minimum_cut<P> noi;
    auto uf = noi.modified_capforest(G, b);
    sx_assert(uf.n() < (unsigned)s.n, "a scan with a bound of at most the minimum degree makes progress");
}
#define CFG(p, lim) do { cfg()->pq = p; cfg()->disable_limiting = lim; } while (0)
SX_HARNESS(heap4) { CFG("heap", false); scan<graphAccessPtr>(anyGraph(4, 1, 1000), 4000); }
SX_HARNESS(heap4_mut) { CFG("heap", false); scan<mutableGraphPtr>(anyGraph(4, 1, 1000), 4000); }
SX_HARNESS(heap4_nolimit) { CFG("heap", true); scan<graphAccessPtr>(anyGraph(4, 1, 1000), 4000); }
SX_HARNESS(bqueue4) { CFG("bqueue", false); scan<graphAccessPtr>(anyGraph(4, 1, 3, true), 9); }
SX_HARNESS(bqueue4_nolimit) { CFG("bqueue", true); scan<graphAccessPtr>(anyGraph(4, 1, 2, true), 6); }
SX_HARNESS(bstack4) { CFG("bstack", false); scan<graphAccessPtr>(anyGraph(4, 1, 3, true), 9); }
SX_HARNESS(bstack4_nolimit) { CFG("bstack", true); scan<graphAccessPtr>(anyGraph(4, 1, 2, true), 6); }
SX_HARNESS(bqueue5) { CFG("bqueue", false); scan<mutableGraphPtr>(anyGraph(5, 1, 1, true), 4); }
SX_HARNESS(bstack5) { CFG("bstack", false); scan<mutableGraphPtr>(anyGraph(5, 1, 1, true), 4); }
SX_HARNESS(start4) { CFG("heap", false); SymGraph s = topoGraph(4, "01 12 23 30 02", 1, 1000); sx_symbolic_random(1, 4); scan<graphAccessPtr>(s, 4000); }
SX_HARNESS(wide3) { CFG("heap", false); scan<graphAccessPtr>(topoGraph(3, "01 12 02", 1, 6000000000ll), 12000000000ll); }
SX_HARNESS(wide4_nolimit) { CFG("heap", true); scan<graphAccessPtr>(topoGraph(4, "01 12 02 23 13", 1, 6000000000ll), 12000000000ll); }
SX_HARNESS(progress4) { CFG("heap", false); progress<graphAccessPtr>(anyGraph(4, 1, 1000), 4000); }
SX_HARNESS(progress4_bq) { CFG("bqueue", false); progress<graphAccessPtr>(anyGraph(4, 1, 2, true), 6); }
SX_HARNESS(progress4_bs) { CFG("bstack", false); progress<graphAccessPtr>(anyGraph(4, 1, 2, true), 6); }
SX_HARNESS(fam7) { CFG("heap", false); scan<graphAccessPtr>(familyGraph(7, 48, 55, 5, 2, 8), 30); }
SX_HARNESS(fam7_bs) { CFG("bstack", false); scan<mutableGraphPtr>(familyGraph(7, 48, 55, 5, 2, 8), 30); }
SX_HARNESS(clu8) { CFG("heap", true); scan<mutableGraphPtr>(familyGraph(8, 48, 80, 4, 2, 6, 2), 30); }
SX_HARNESS(clu8_bq) { CFG("bqueue", false); scan<graphAccessPtr>(familyGraph(8, 48, 80, 4, 2, 6, 2), 30); }
