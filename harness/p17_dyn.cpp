// P17: dynamic minimum cut against recomputation by definition
#include "vc.h"
#include "algorithms/global_mincut/dynamic/dynamic_mincut.h"
static uint64_t pick(const char* n, int hi) { return hi ? sx_concrete(sx_int(n, 0, hi)) : 0; }
// adds: weights 1..maxw
// script: "+01" inserts, "-01" deletes that edge, "a" any insertion, "d" any deletion, "*" any operation
static bool dups = true;
static void hist(SymGraph s, int steps, int maxw, bool balanced = false, const char* script = nullptr) {
    quiet();
    auto c = cfg();
    c->save_cut = true;
    if (balanced) c->find_most_balanced_cut = c->set_node_in_cut = true;
    auto G = toMutable(s);
    dynamic_mincut d;
    auto val = [&](uint64_t r, const char* msg) {
        bool ok = s.lowerBound(r);
        ok &= s.upperBound(r);
        sx_assert(ok, msg);
        sx_assert(d.getCurrentCut() == r, "current cut is what was returned");
        if (r > 0) sx_cover("positive"); else sx_cover("zero");
    };
    val(d.initialize(G), "initial value is the minimum cut");
    std::vector<std::pair<int, int>> prs;
    for (int i = 0; i < s.n; ++i) for (int j = i + 1; j < s.n; ++j) prs.emplace_back(i, j);
    std::istringstream sc(script ? script : "");
    for (int k = 0; k < steps; ++k) {
        // any insertion, or the deletion of any present edge
        std::vector<std::pair<int, int>> ops;
        std::string tok = "*";
        if (script) sc >> tok;
        char what = tok[0];
        if (what == '+') ops.emplace_back(tok[1] - '0', tok[2] - '0');
        else if (what == '-') {
            if (s.has[tok[1] - '0'][tok[2] - '0']) ops.emplace_back(tok[2] - '0', tok[1] - '0');
        }
        else
        for (auto [i, j] : prs) {
            // parallel edges only between unit edges: which copy a deletion takes is not specified
            if (what != 'd' && ((maxw == 1 && dups) || !s.has[i][j])) ops.emplace_back(i, j);
            if (what != 'a' && s.has[i][j]) ops.emplace_back(j, i);
        }
        if (ops.empty()) return;
        auto [a, b] = ops[pick("op", ops.size() - 1)];
        if (a < b) {
            uint64_t w = sx_int("w", 1, maxw);
            uint64_t before = s.has[a][b] ? s.w[a][b] : 0;
            s.set(a, b, before + w);
            val(d.addEdge(a, b, w), "value after an insertion is the minimum cut");
        } else {
            if (maxw > 1 || s.w[a][b] == 1) {
                s.has[a][b] = s.has[b][a] = false;
                s.w[a][b] = s.w[b][a] = 0;
            } else {
                s.set(a, b, s.w[a][b] - 1);
            }
            val(d.removeEdge(a, b), "value after a deletion is the minimum cut");
        }
    }
}
SX_HARNESS(any3_2) { hist(anyGraph(3, 1, 2), 2, 2); }
SX_HARNESS(any3_3) { hist(anyGraph(3, 1, 1), 3, 1); }
SX_HARNESS(empty3_4) { hist(topoGraph(3, "", 1, 1), 4, 2); }
SX_HARNESS(empty3_5u) { hist(topoGraph(3, "", 1, 1), 5, 1); }
SX_HARNESS(empty4_4u) { hist(topoGraph(4, "", 1, 1), 4, 1); }
SX_HARNESS(any4_1) { hist(anyGraph(4, 1, 2), 1, 2); }
SX_HARNESS(any4_2u) { hist(anyGraph(4, 1, 1), 2, 1); }
SX_HARNESS(tri3_4) { hist(topoGraph(3, "01 12 02", 1, 2), 4, 2); }
SX_HARNESS(path4_3) { hist(topoGraph(4, "01 12 23", 1, 2), 3, 2); }
SX_HARNESS(cyc4_3) { hist(topoGraph(4, "01 12 23 30", 1, 1), 3, 1); }
SX_HARNESS(cyc4_4) { hist(topoGraph(4, "01 12 23 30", 1, 1), 4, 1); }
SX_HARNESS(cyc5_3) { hist(topoGraph(5, "01 12 23 34 40", 1, 1), 3, 1); }
SX_HARNESS(k4_4) { hist(topoGraph(4, "01 02 03 12 13 23", 1, 1), 4, 1); }
SX_HARNESS(k4_daa) { hist(topoGraph(4, "01 02 03 12 13 23", 1, 2), 4, 2, false, "d a a a"); }
SX_HARNESS(k4_ddaa) { hist(topoGraph(4, "01 02 03 12 13 23", 1, 1), 5, 1, false, "d d a a a"); }
SX_HARNESS(k4_dada) { hist(topoGraph(4, "01 02 03 12 13 23", 1, 1), 5, 1, false, "d a d a a"); }
SX_HARNESS(cyc4_daad) { hist(topoGraph(4, "01 12 23 30", 1, 2), 5, 2, false, "d a a d a"); }
SX_HARNESS(balanced4_2) { hist(topoGraph(4, "01 12 23 30", 1, 2), 2, 2, true); }
SX_HARNESS(house5_daa) { hist(topoGraph(5, "01 12 23 34 40 14", 1, 1), 3, 1, false, "d a a"); }
SX_HARNESS(path5_daa) { hist(topoGraph(5, "01 12 23 34", 1, 1), 3, 1, false, "d a a"); }
SX_HARNESS(path5_dadaa) { hist(topoGraph(5, "01 12 23 34", 1, 1), 5, 1, false, "-34 a * a a"); }
SX_HARNESS(tree6_daa) { hist(topoGraph(6, "01 12 23 34 25", 2, 2), 3, 2, false, "d a a"); }
SX_HARNESS(cyc5_cache) { hist(topoGraph(5, "01 12 23 34 40", 1, 1), 6, 1, false, "-01 a +02 +01 -01 +01"); }
SX_HARNESS(cyc5_cache2) { hist(topoGraph(5, "01 12 23 34 40", 1, 1), 6, 1, false, "-01 a a +01 d a"); }
SX_HARNESS(cyc5_twice) { hist(topoGraph(5, "01 12 23 34 40", 1, 1), 6, 1, false, "-01 d a a a a"); }
SX_HARNESS(cyc6_daa) { hist(topoGraph(6, "01 12 23 34 45 50", 1, 1), 4, 1, false, "-01 a a a"); }
SX_HARNESS(cyc6_dda) { hist(topoGraph(6, "01 12 23 34 45 50", 2, 2), 5, 2, false, "-01 d +01 a a"); }
SX_HARNESS(recache5) { hist(topoGraph(5, "01 12 02 23 34", 1, 1), 5, 1, false, "-34 +34 d -34 a"); }
SX_HARNESS(recache5_d) { hist(topoGraph(5, "01 12 02 23 34", 1, 1), 7, 1, false, "-34 -01 +34 -34 +01 +02 +34"); }
SX_HARNESS(fam6_2) { hist(familyGraph(6, 24, 40, 1, 0, 1), 2, 1); }
SX_HARNESS(fam6_dad) { hist(familyGraph(6, 12, 55, 2, 0, 1), 3, 2, false, "d a d"); }
SX_HARNESS(spa7_daa) { hist(familyGraph(7, 24, 25, 2, 0, 1), 3, 2, false, "d a a"); }
SX_HARNESS(clu8_da) { hist(familyGraph(8, 24, 80, 2, 0, 1, 2), 2, 3, false, "d a"); }
// two caches, the inner one is used first
#define CYC8 topoGraph(8, "01 12 23 34 45 56 67 70", 1, 1)
SX_HARNESS(nest8_1) { hist(CYC8, 5, 1, false, "-01 -45 a +01 a"); }
SX_HARNESS(nest8_2) { hist(CYC8, 5, 1, false, "-01 -45 +36 a a"); }
SX_HARNESS(nest8_3) { hist(CYC8, 6, 1, false, "-01 -45 +45 a +01 a"); }
SX_HARNESS(nest8_4) { hist(CYC8, 6, 1, false, "-01 +24 -45 a +01 a"); }
#define CYC7 topoGraph(7, "01 12 23 34 45 56 60", 1, 1)
SX_HARNESS(nest7_1) { hist(CYC7, 9, 1, false, "-45 -56 a +14 +15 +45 +26 a +56"); }
SX_HARNESS(nest7_2) { hist(CYC7, 9, 1, false, "-45 -56 +05 a +15 +45 a +13 +56"); }
SX_HARNESS(nest7_3) { hist(CYC7, 8, 1, false, "-45 -56 a +14 +45 +26 a +13"); }
SX_HARNESS(nest7_4) { hist(CYC7, 7, 1, false, "-01 -12 a +03 +01 a a"); }
SX_HARNESS(nest7_5) { hist(CYC7, 8, 1, false, "-01 -12 a +02 +01 a +46 a"); }
