// P01 exact minimum cut (NOI), P02 saved cut
#include "vc.h"
#include "algorithms/global_mincut/noi_minimum_cut.h"
template <class P> static void noi(const SymGraph& s, bool save) {
    auto G = Mk<P>::make(s);
    cfg()->save_cut = save;
    noi_minimum_cut<P> m;
    uint64_t r = m.perform_minimum_cut(G);
#ifndef SAVED
    assertMinCut(s, r);
#else
    assertSavedCut(s, G, r, "saved partition has the reported weight");
#endif
    if (r == 0) sx_cover("zero"); else sx_cover("positive");
}
#ifdef SAVED
static const bool SV = true;
#else
static const bool SV = false;
#endif
#define CFG(p, lim) do { cfg()->pq = p; cfg()->disable_limiting = lim; } while (0)
SX_HARNESS(heap4) { CFG("heap", false); noi<graphAccessPtr>(anyGraph(4, 1, 1000000), SV); }
SX_HARNESS(heap4_mut) { CFG("heap", false); noi<mutableGraphPtr>(anyGraph(4, 1, 1000000), SV); }
SX_HARNESS(heap4_nolimit) { CFG("heap", true); noi<graphAccessPtr>(anyGraph(4, 1, 1000000), SV); }
SX_HARNESS(bqueue4) { CFG("bqueue", false); noi<graphAccessPtr>(anyGraph(4, 1, 2), SV); }
SX_HARNESS(bqueue4_nolimit) { CFG("bqueue", true); noi<graphAccessPtr>(anyGraph(4, 1, 2), SV); }
SX_HARNESS(bstack4) { CFG("bstack", false); noi<graphAccessPtr>(anyGraph(4, 1, 2), SV); }
SX_HARNESS(default4_big) { CFG("default", false); noi<graphAccessPtr>(anyGraph(4, 9990, 10010, true), SV); }
SX_HARNESS(start4) {  // any starting vertex
    CFG("heap", false);
    SymGraph s = anyGraph(4, 1, 1000, true);
    sx_symbolic_random(1, 4);
    noi<graphAccessPtr>(s, SV);
}
SX_HARNESS(heap5) { CFG("heap", false); noi<graphAccessPtr>(anyGraph(5, 1, 1000, true), SV); }
SX_HARNESS(bstack5_unit) { CFG("bstack", false); noi<graphAccessPtr>(anyGraph(5, 1, 1, true), SV); }
SX_HARNESS(bqueue5_unit) { CFG("bqueue", false); noi<graphAccessPtr>(anyGraph(5, 1, 1, true), SV); }
SX_HARNESS(path6) { CFG("heap", false); noi<graphAccessPtr>(topoGraph(6, "01 12 23 34 45 50", 1, 1000), SV); }
SX_HARNESS(twotri6) {
    CFG("heap", false);
    SymGraph s = topoGraph(6, "03 14 25 01 34", 1, 1000);
    addFixed(s, "12 20 45 53", 50);
    noi<mutableGraphPtr>(s, SV);
}
SX_HARNESS(wide4) { CFG("heap", false); noi<graphAccessPtr>(topoGraph(4, "01 12 23 30 02 13", 1, 3000000000ll), SV); }
SX_HARNESS(fam8) { CFG("heap", false); noi<graphAccessPtr>(familyGraph(8, 100, 55, 4, 3, 6), SV); }
SX_HARNESS(fam8_bs) { CFG("bstack", false); noi<mutableGraphPtr>(familyGraph(8, 100, 55, 4, 3, 6), SV); }
SX_HARNESS(clu9) { CFG("heap", false); noi<graphAccessPtr>(familyGraph(9, 80, 80, 4, 3, 5, 3), SV); }
SX_HARNESS(clu9_bq) { CFG("bqueue", false); noi<mutableGraphPtr>(familyGraph(9, 80, 80, 4, 3, 5, 3), SV); }
SX_HARNESS(clu10_nolimit) { CFG("heap", true); noi<graphAccessPtr>(familyGraph(10, 60, 75, 4, 3, 5, 2), SV); }
