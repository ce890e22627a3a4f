// P20: local search on multiterminal solutions against the definition of the cut weight
#include <sys/stat.h>
#include <functional>
#include <optional>
#include <variant>
#include <condition_variable>
#include <mutex>
#include <atomic>
#include <future>
#include <numeric>
#include <cmath>
#include <map>
#include <queue>
#include <stack>
#include <tuple>
#include <unistd.h>
#include "vc.h"
#include "thr.h"
#include "algorithms/flow/push_relabel.h"
#include "tlx/logger.hpp"
#include "tools/timer.h"
#define private public
#include "algorithms/multicut/local_search.h"
#undef private
enum { GAIN = 1, FLOW = 2, ALL = 3, PAIR = 4 };
// terminals are the first k vertices; extra further fixed vertices
static void search(const SymGraph& s0, int k, int what, int fixed = 0, int draws = 0, bool inexact = false, int given = 0) {
    quiet();
    auto c = cfg();
    c->num_terminals = k;
    c->timeoutSeconds = 1000000;
    c->inexact = inexact;
    if (draws) sx_symbolic_random(draws, 0);
    std::vector<int> num = numbering(s0.n);
    SymGraph s = renumber(s0, num);
    mutableGraphPtr G = toMutable(s);
    std::vector<NodeID> terms, sol(s.n);
    std::vector<bool> fx(s.n, false);
    for (int v = 0; v < s.n; ++v) {
        int x = num[v];
        if (v < k) { terms.push_back(x); sol[x] = v; fx[x] = true; continue; }
        sol[x] = v < k + given ? v % k : sx_concrete(sx_int("block", 0, k - 1));
        if (v >= s.n - fixed && sx_bool("fixed")) fx[x] = true;
    }
    auto cost = [&](const std::vector<NodeID>& a) {
        uint64_t r = 0;
        for (int i = 0; i < s.n; ++i) for (int j = i + 1; j < s.n; ++j) if (s.has[i][j] && a[i] != a[j]) r += s.w[i][j];
        return r;
    };
    std::vector<NodeID> before = sol;
    uint64_t old = cost(sol);
    local_search ls(*G, terms, fx, &sol);
    uint64_t impr = 0;
    timer t;
    if (what == GAIN) impr = ls.gainLocalSearch();
    else if (what == FLOW) impr = ls.flowLocalSearch(t);
    else if (what == PAIR) {
        int a = sx_concrete(sx_int("first", 0, k - 1)), b = sx_concrete(sx_int("second", 0, k - 1));
        sx_assume(a < b);
        auto [i, f] = ls.flowBetweenBlocks(a, b);
        impr = i;
        // the flow is the weight of the free edges between the two blocks, and minimal
        uint64_t now = 0;
        for (int x = 0; x < s.n; ++x) for (int y = x + 1; y < s.n; ++y)
            if (s.has[x][y] && !(fx[x] && fx[y]) && ((sol[x] == (NodeID)a && sol[y] == (NodeID)b) || (sol[x] == (NodeID)b && sol[y] == (NodeID)a))) now += s.w[x][y];
        bool others = true;
        for (int v = 0; v < s.n; ++v) {
            bool in = before[v] == (NodeID)a || before[v] == (NodeID)b;
            others &= in ? (sol[v] == (NodeID)a || sol[v] == (NodeID)b) : sol[v] == before[v];
        }
        sx_assert(others, "only the two blocks change");
        sx_assert((uint64_t)f == now, "the flow is the weight between the two blocks afterwards");
        // no assignment of the free vertices is lighter
        std::vector<int> fr;
        for (int v = 0; v < s.n; ++v) if (!fx[v] && (before[v] == (NodeID)a || before[v] == (NodeID)b)) fr.push_back(v);
        bool best = true;
        uint64_t fin = cost(sol);
        for (unsigned m = 0; m < (1u << fr.size()); ++m) {
            std::vector<NodeID> x = sol;
            for (size_t i2 = 0; i2 < fr.size(); ++i2) x[fr[i2]] = (m >> i2) & 1 ? a : b;
            best &= fin <= cost(x);
        }
        sx_assert(best, "the two blocks are divided optimally");
    }
    else impr = ls.improveSolution(t);
    bool keep = true, valid = true;
    for (int v = 0; v < s.n; ++v) {
        if (fx[v]) keep &= sol[v] == before[v];
        valid &= sol[v] < (NodeID)k;
    }
    sx_assert(valid, "every vertex stays in one of the blocks");
    sx_assert(keep, "fixed vertices keep their blocks");
    sx_assert(cost(sol) + impr == old, "the reported improvement is the change of the cut weight");
    bool moved = false;
    for (int v = 0; v < s.n; ++v) moved |= sol[v] != before[v];
    if (moved) sx_cover("moved");
}
SX_HARNESS(gain_any4) { search(anyGraph(4, 1, 100), 2, GAIN); }
SX_HARNESS(gain_any5u) { search(anyGraph(5, 1, 1), 2, GAIN); }
SX_HARNESS(gain_any5_3) { search(topoGraph(6, "03 04 13 25 34 45 35 14", 1, 20), 3, GAIN); }
SX_HARNESS(gain_path6) { search(topoGraph(6, "02 23 34 45 51 24", 1, 30), 2, GAIN); }
SX_HARNESS(gain_perm) { search(topoGraph(5, "02 23 34 41 24", 1, 9), 2, GAIN, 0, 2); }
SX_HARNESS(gain_fam7) { search(familyGraph(7, 16, 50, 4, 2, 8), 3, GAIN, 1); }
SX_HARNESS(gain_fam8) { search(familyGraph(8, 16, 45, 4, 2, 8), 3, GAIN, 0, 0, false, 2); }
SX_HARNESS(gain_clu8) { search(familyGraph(8, 16, 80, 3, 2, 8, 3), 2, GAIN, 1, 0, true, 2); }
SX_HARNESS(gain_two6) { search(familyGraph(6, 64, 70, 9, 1, 9), 2, GAIN); }
SX_HARNESS(gain_two7) { search(familyGraph(7, 64, 70, 9, 1, 9), 2, GAIN); }
SX_HARNESS(gain_two8) { search(familyGraph(8, 64, 60, 9, 1, 9), 2, GAIN); }
SX_HARNESS(gain_two9) { search(familyGraph(9, 64, 60, 9, 0, 9), 2, GAIN); }
SX_HARNESS(pair_any4) { search(anyGraph(4, 1, 9), 2, PAIR); }
SX_HARNESS(pair_any5u) { search(anyGraph(5, 1, 1), 2, PAIR, 2); }
SX_HARNESS(pair_house) { search(topoGraph(5, "01 12 23 30 04 14", 1, 9), 2, PAIR, 1); }
SX_HARNESS(pair_six) { search(topoGraph(6, "03 04 13 25 34 45 35 14", 1, 4), 3, PAIR); }
SX_HARNESS(pair_fam7) { search(familyGraph(7, 16, 50, 4, 1, 8), 3, PAIR, 2); }
SX_HARNESS(pair_fam8) { search(familyGraph(8, 16, 45, 4, 1, 8), 3, PAIR, 1, 0, false, 1); }
SX_HARNESS(flow_any4) { search(anyGraph(4, 1, 9), 2, FLOW); }
SX_HARNESS(flow_six) { search(topoGraph(6, "03 04 13 25 34 45 35 14", 1, 3), 3, FLOW); }
SX_HARNESS(flow_fam7) { search(familyGraph(7, 16, 50, 4, 1, 8), 3, FLOW, 2); }
SX_HARNESS(flow_fam8) { search(familyGraph(8, 16, 45, 4, 1, 8), 4, FLOW, 1); }
SX_HARNESS(all_any4) { search(anyGraph(4, 1, 9), 2, ALL); }
SX_HARNESS(all_any5u) { search(anyGraph(5, 1, 1), 3, ALL, 1); }
SX_HARNESS(all_six) { search(topoGraph(6, "03 04 13 25 34 45 35 14", 1, 4), 3, ALL); }
SX_HARNESS(all_fam7) { search(familyGraph(7, 16, 50, 4, 1, 8), 3, ALL, 1); }
SX_HARNESS(all_fam8) { search(familyGraph(8, 16, 45, 4, 1, 8), 4, ALL, 0, 0, true); }
SX_HARNESS(all_wide) { search(topoGraph(5, "02 23 34 41 24", 1, 6000000000ll), 2, ALL); }
