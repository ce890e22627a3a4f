// P25 coarsening: label propagation, remapping, trivial cuts, sampling, matching, heavy vertices
#include "vc.h"
#include "algorithms/global_mincut/ks_minimum_cut.h"
#include "algorithms/global_mincut/minimum_cut_helpers.h"
#ifdef PARALLEL
#include "parallel/coarsening/contract_graph.h"
#include "parallel/coarsening/label_propagation.h"
#include "parallel/coarsening/sparsify.h"
#else
#include "coarsening/contract_graph.h"
#include "coarsening/label_propagation.h"
#include "coarsening/sparsify.h"
#endif
static int TH = 1;
static void par(int threads, int preempt) {
    quiet();
    sx_timeout(15);
    TH = threads;
    cfg()->threads = threads;
#ifdef PARALLEL
    sx_omp(threads, preempt);
#endif
}
static unsigned component(const SymGraph& s, int v) {
    unsigned r = 1u << v, o = 0;
    while (r != o) {
        o = r;
        for (int i = 0; i < s.n; ++i)
            if ((r >> i) & 1)
                for (int j = 0; j < s.n; ++j) if (s.has[i][j]) r |= 1u << j;
    }
    return r;
}
// mapping / reverse mapping describe one partition into gap-free blocks
static void valid(int n, const std::vector<NodeID>& m, const std::vector<std::vector<NodeID>>& rm) {
    sx_assert(m.size() == (size_t)n, "every vertex has a block");
    unsigned seen = 0;
    for (size_t b = 0; b < rm.size(); ++b) {
        sx_assert(!rm[b].empty(), "no block is empty");
        for (auto v : rm[b]) {
            sx_assert(v < (NodeID)n && !((seen >> v) & 1), "the reverse mapping lists every vertex once");
            seen |= 1u << v;
            sx_assert(m[v] == b, "the reverse mapping lists a vertex under its block");
        }
    }
    sx_assert(seen == (1u << n) - 1, "the reverse mapping lists every vertex");
}
// is H the quotient of s by blocks pos[] (k blocks)?
template <class P> static bool isQuotient(const SymGraph& s, P H, const int* pos, int k, const bool* drop = nullptr) {
    if (H->number_of_nodes() != (NodeID)k) return false;
    uint64_t w[MAXN][MAXN] = {};
    bool has[MAXN][MAXN] = {};
    size_t cnt = 0, got = 0;
    for (int i = 0; i < s.n; ++i)
        for (int j = 0; j < s.n; ++j)
            if (s.has[i][j] && !(drop && (drop[i] || drop[j])) && pos[i] != pos[j]) {
                if (!has[pos[i]][pos[j]]) ++cnt;
                has[pos[i]][pos[j]] = true;
                w[pos[i]][pos[j]] += s.w[i][j];
            }
    bool ok = true;
    for (int v = 0; v < k; ++v) {
        unsigned nb = 0;
        for (EdgeID e : H->edges_of(v)) {
            auto [t, x] = H->getEdge(v, e);
            if (t >= (NodeID)k || !has[v][t] || ((nb >> t) & 1)) return false;
            nb |= 1u << t;
            ++got;
            ok &= x == w[v][t];
        }
    }
    return got == cnt && ok;
}
// ---- label propagation and what follows it
template <class P> static void lp(const SymGraph& s, int draws, uint64_t span, bool trivial, bool save) {
    cfg()->save_cut = save;
    auto G = Mk<P>::make(s);
    if (draws) sx_symbolic_random(draws, span);
    label_propagation<P> l;
    std::vector<NodeID> id = l.propagate_labels(G);
    sx_symbolic_random(0, 0);
    sx_assert(id.size() == (size_t)s.n, "every vertex gets a label");
    for (int i = 0; i < s.n; ++i) {
        id[i] = sx_concrete(id[i]);
        sx_assert(id[i] < (NodeID)s.n && ((component(s, i) >> id[i]) & 1), "a label travels along edges only");
        if (id[i] != (NodeID)i) sx_cover("joined");
    }
    auto [m, rm] = minimum_cut_helpers<P>::remap_cluster(G, id);
    valid(s.n, m, rm);
    for (int i = 0; i < s.n; ++i)
        for (int j = 0; j < i; ++j)
            sx_assert((m[i] == m[j]) == (id[i] == id[j]), "vertices share a block exactly when they share a label");
    if (save) for (int i = 0; i < s.n; ++i) sx_assert(G->getPartitionIndex(i) == m[i], "the block of each vertex is recorded");
    if (!trivial) return;
    size_t before = rm.size();
    contraction::findTrivialCuts(G, &m, &rm, G->getMinDegree());
    valid(s.n, m, rm);
    if (rm.size() > before) sx_cover("moved");
}
// ---- trivial cuts for any partition: the blocks stay a partition; a block that
// loses a vertex ends up lighter than the target
template <class P> static void trivial(const SymGraph& s, int target, bool symb = true) {
    auto G = Mk<P>::make(s);
    std::vector<NodeID> m(s.n);
    std::vector<std::vector<NodeID>> rm;
    unsigned k = 0;
    for (int i = 0; i < s.n; ++i) {
        unsigned c = symb ? sx_concrete(sx_int("block", 0, k)) : i / 3;
        if (c == k) { rm.emplace_back(); ++k; }
        m[i] = c;
        rm[c].push_back(i);
    }
    auto rm0 = rm;
    contraction::findTrivialCuts(G, &m, &rm, target);
    valid(s.n, m, rm);
    sx_assert(rm.size() >= k, "blocks are only split");
    bool ok = true;
    for (unsigned b = 0; b < rm.size(); ++b)
        for (auto v : rm[b]) {
            if (b >= k) continue;
            bool in = false;
            for (auto x : rm0[b]) in |= x == v;
            sx_assert(in, "blocks are only split");
        }
    for (unsigned b = k; b < rm.size(); ++b) sx_assert(rm[b].size() == 1, "a new block is a single vertex");
    for (unsigned b = 0; b < k; ++b)
        if (rm[b].size() < rm0[b].size()) {
            unsigned mask = 0;
            for (auto v : rm[b]) mask |= 1u << v;
            ok &= s.cut(mask) < (uint64_t)target;
            sx_cover("moved");
        }
    sx_assert(ok, "a vertex is moved only if the rest of its block becomes a cut lighter than the target");
}
// ---- sampling: the result is the quotient by the union-find's sets
static void sample(const SymGraph& s, double factor, const char* type, int draws, uint64_t span) {
    cfg()->save_cut = true;
    cfg()->contraction_factor = factor;
    cfg()->sampling_type = type;
    auto G = toAccess(s);
    if (draws) sx_symbolic_random(draws, span);
    sparsify sf;
#ifdef PARALLEL
    union_find uf(s.n);
    std::string t = type;
    NodeID r = t == "random" ? sf.sample_contractible(G, &uf) : t == "separate" ? sf.sample_contractible_separate(G, &uf)
        : t == "weighted" ? sf.sample_contractible_weighted(G, &uf) : sf.sample_geometric(G, &uf);
    sx_symbolic_random(0, 0);
    int pos[MAXN], k = 0, root[MAXN];
    for (int i = 0; i < s.n; ++i) {
        NodeID f = uf.Find(i);
        pos[i] = -1;
        for (int j = 0; j < k; ++j) if (root[j] == (int)f) pos[i] = j;
        if (pos[i] < 0) { root[k] = f; pos[i] = k++; }
    }
    sx_assert(uf.n() == (NodeID)k, "the sampled sets are counted");
    sx_assert(r == (NodeID)k, "the reported number of vertices is that of the sampled sets");
    for (int i = 0; i < s.n; ++i)
        for (int j = 0; j < i; ++j)
            if (pos[i] == pos[j]) { sx_assert((component(s, i) >> j) & 1, "sampling joins along edges only"); sx_cover("joined"); }
#else
    auto H = sf.one_ks(G);
    sx_symbolic_random(0, 0);
    int pos[MAXN];
    int k = H->number_of_nodes();
    for (int i = 0; i < s.n; ++i) {
        pos[i] = sx_concrete(G->getPartitionIndex(i));
        sx_assert(pos[i] >= 0 && pos[i] < k, "every vertex is mapped to a vertex of the sample");
    }
    for (int i = 0; i < s.n; ++i)
        for (int j = 0; j < i; ++j)
            if (pos[i] == pos[j]) { sx_assert((component(s, i) >> j) & 1, "sampling joins along edges only"); sx_cover("joined"); }
    sx_assert(k >= 2 || s.n < 2, "the sample keeps two vertices");
    sx_assert(isQuotient(s, H, pos, k), "the sample is the quotient graph");
#endif
}
// the whole sampling step including the contraction
static void sampleContract(const SymGraph& s, double factor, const char* type) {
    cfg()->save_cut = true;
    cfg()->contraction_factor = factor;
    cfg()->sampling_type = type;
    auto G = toAccess(s);
    sparsify sf;
    auto H = sf.one_ks(G);
    // some partition into connected blocks, numbered by first vertex, has H as quotient
    int pos[MAXN];
    bool any = false;
    auto rec = [&](auto&& self, int i, int k) -> void {
        if (i == s.n) {
            if (k == (int)H->number_of_nodes()) any |= isQuotient(s, H, pos, k);
            return;
        }
        for (int b = 0; b <= k; ++b) { pos[i] = b; self(self, i + 1, std::max(k, b + 1)); }
    };
    rec(rec, 0, 0);
    sx_assert(any, "the sample is a quotient graph");
}
// ---- matching: the result is the quotient by some matching, numbered by first vertex
static void matching(const SymGraph& s, int draws, uint64_t span) {
    auto G = toAccess(s);
    if (draws) sx_symbolic_random(draws, span);
    sparsify sf;
    auto H = sf.random_matching(G);
    sx_symbolic_random(0, 0);
    int k = H->number_of_nodes();
    if (k < s.n) sx_cover("matched");
    int mate[MAXN], pos[MAXN];
    bool any = false;
    auto rec = [&](auto&& self, int i) -> void {
        while (i < s.n && mate[i] >= 0) ++i;
        if (i == s.n) {
            int c = 0;
            for (int v = 0; v < s.n; ++v) pos[v] = mate[v] < v ? pos[mate[v]] : c++;
            if (c == k) any |= isQuotient(s, H, pos, k);
            return;
        }
        mate[i] = i;
        self(self, i + 1);
        for (int j = i + 1; j < s.n; ++j)
            if (mate[j] < 0 && s.has[i][j]) { mate[i] = j; mate[j] = i; self(self, i + 1); mate[j] = -1; }
        mate[i] = -1;
    };
    for (int i = 0; i < s.n; ++i) mate[i] = -1;
    rec(rec, 0);
    sx_assert(any, "the coarse graph merges the pairs of a matching and sums their edges");
}
// ---- heavy vertices removed
static void heavy(const SymGraph& s, double perc) {
    auto G = toAccess(s);
    sparsify sf;
    std::vector<NodeID> idx;
    auto H = sf.remove_heavy_vertices(G, perc, &idx);
    sx_assert(idx.size() == (size_t)s.n, "every vertex has an index");
    bool drop[MAXN], ok = true;
    int pos[MAXN], k = 0, dropped = 0;
    for (int i = 0; i < s.n; ++i) {
        drop[i] = sx_concrete(idx[i]) >= (NodeID)s.n;
        pos[i] = drop[i] ? -1 : k++;
        dropped += drop[i];
        if (!drop[i]) sx_assert(idx[i] == (NodeID)pos[i], "the remaining vertices are numbered in order");
    }
    sx_assert(dropped > 0, "the heaviest vertices are removed");
    for (int i = 0; i < s.n; ++i)
        for (int j = 0; j < s.n; ++j)
            if (drop[i] && !drop[j]) { ok &= s.deg(i) > s.deg(j); sx_cover("part"); }
    int below = (int)(s.n * perc);
    sx_assert(k <= below, "at most the requested share remains");
    sx_assert(ok, "removed vertices are heavier than the remaining ones");
    sx_assert(isQuotient(s, H, pos, k, drop), "the result is the subgraph induced by the remaining vertices");
}
#define PRISM "01 12 20 03 14 25 34 45 53"
typedef graphAccessPtr GA;
typedef mutableGraphPtr GM;
SX_HARNESS(lp_any4) { par(1, 0); lp<GA>(anyGraph(4, 1, 3), 0, 0, true, true); }
SX_HARNESS(lp_any4_rnd) { par(1, 0); lp<GA>(anyGraph(4, 1, 1), 12, 0, false, true); }
SX_HARNESS(lp_any4_mut) { par(1, 0); lp<GM>(anyGraph(4, 1, 3), 0, 0, true, true); }
SX_HARNESS(lp_any5u) { par(1, 0); lp<GA>(anyGraph(5, 1, 1), 0, 0, true, false); }
SX_HARNESS(lp_fam9) { par(1, 0); lp<GA>(familyGraph(9, 40, 40, 4, 2, 9), 0, 0, true, false); }
SX_HARNESS(lp_clu9_mut) { par(1, 0); lp<GM>(familyGraph(9, 40, 80, 4, 2, 9, 3), 0, 0, true, true); }
SX_HARNESS(triv_any4) { par(1, 0); trivial<GA>(anyGraph(4, 1, 3), 4); }
SX_HARNESS(triv_any5u) { par(1, 0); trivial<GA>(anyGraph(5, 1, 1), 2); }
SX_HARNESS(triv_prism) { par(1, 0); trivial<GA>(topoGraph(6, PRISM, 1, 4), 5); }
SX_HARNESS(triv_prism_mut) { par(1, 0); trivial<GM>(topoGraph(6, PRISM, 1, 4), 5); }
SX_HARNESS(triv_fam9) { par(1, 0); trivial<GA>(familyGraph(9, 40, 40, 4, 3, 40), 12, false); }
SX_HARNESS(triv_clu9_mut) { par(1, 0); trivial<GM>(familyGraph(9, 40, 80, 4, 3, 40, 3), 9, false); }
SX_HARNESS(match_any3) { par(1, 0); matching(anyGraph(3, 1, 3), 0, 0); }
SX_HARNESS(match_any4) { par(1, 0); matching(anyGraph(4, 1, 3), 3, 6); }
SX_HARNESS(match_path) { par(1, 0); matching(topoGraph(4, "01 12 23", 1, 5), 54, 2); }
SX_HARNESS(match_any5u) { par(1, 0); matching(anyGraph(5, 1, 1), 4, 12); }
SX_HARNESS(match_prism) { par(1, 0); matching(topoGraph(6, PRISM, 1, 3), 5, 3); }
SX_HARNESS(heavy_any3) { par(1, 0); heavy(anyGraph(3, 1, 100), 0.7); }
SX_HARNESS(heavy_any4) { par(1, 0); heavy(anyGraph(4, 1, 3), 0.5); }
SX_HARNESS(heavy_k4) { par(1, 0); heavy(topoGraph(4, "01 02 03 12 13 23", 1, 20), 0.8); }
SX_HARNESS(heavy_fam8) { par(1, 0); heavy(familyGraph(8, 40, 40, 5, 3, 30), 0.6); }
#ifndef PARALLEL
SX_HARNESS(smp_any3) { par(1, 0); sample(anyGraph(3, 1, 5), 0.5, "weighted", 0, 0); }
SX_HARNESS(smp_any4) { par(1, 0); sample(anyGraph(4, 1, 3), 0.6, "weighted", 0, 0); }
SX_HARNESS(smp_any4_rnd) { par(1, 0); sample(anyGraph(4, 1, 1), 0.6, "weighted", 4, 12); }
SX_HARNESS(smp_k4) { par(1, 0); sample(topoGraph(4, "01 02 03 12 13 23", 1, 9), 0.9, "weighted", 3, 0); }
SX_HARNESS(smp_any5u) { par(1, 0); sample(anyGraph(5, 1, 1), 0.5, "weighted", 2, 12); }
SX_HARNESS(smp_fam8) { par(1, 0); sample(familyGraph(8, 40, 40, 5, 3, 30), 0.6, "weighted", 2, 40); }
#else
SX_HARNESS(lp_par_any3) { par(2, 2); lp<GA>(anyGraph(3, 1, 2), 0, 0, false, true); }
SX_HARNESS(lp_par_any4) { par(2, 1); lp<GA>(anyGraph(4, 1, 1), 0, 0, false, true); }
SX_HARNESS(lp_par_mut) { par(2, 1); lp<GM>(topoGraph(4, "01 12 23 30", 1, 2), 0, 0, false, true); }
SX_HARNESS(smp_random) { par(1, 0); sample(topoGraph(4, "01 12 23 30 02", 1, 2), 0.6, "random", 3, 10); }
SX_HARNESS(smp_random2) { par(2, 1); sample(topoGraph(4, "01 12 23 30 02", 1, 2), 0.6, "random", 3, 10); }
SX_HARNESS(smp_separate) { par(1, 0); sample(topoGraph(4, "01 12 23 30 02", 1, 2), 0.6, "separate", 3, 10); }
SX_HARNESS(smp_separate2) { par(2, 1); sample(topoGraph(4, "01 12 23 30 02", 1, 2), 0.6, "separate", 3, 10); }
SX_HARNESS(smp_weighted) { par(1, 0); sample(topoGraph(4, "01 12 23 30 02", 1, 3), 0.6, "weighted", 3, 0); }
SX_HARNESS(smp_weighted2) { par(2, 1); sample(topoGraph(4, "01 12 23 30 02", 1, 3), 0.6, "weighted", 3, 10); }
SX_HARNESS(smp_geometric) { par(1, 0); sample(topoGraph(4, "01 12 23 30 02", 1, 3), 0.6, "geometric", 0, 0); }
SX_HARNESS(smpc_random) { par(1, 0); sampleContract(anyGraph(4, 1, 2, true), 0.6, "random"); }
SX_HARNESS(smpc_separate) { par(1, 0); sampleContract(anyGraph(4, 1, 2, true), 0.6, "separate"); }
SX_HARNESS(smpc_weighted) { par(1, 0); sampleContract(anyGraph(4, 1, 2, true), 0.6, "weighted"); }
SX_HARNESS(smpc_geometric) { par(1, 0); sampleContract(anyGraph(4, 1, 2, true), 0.6, "geometric"); }
#endif
