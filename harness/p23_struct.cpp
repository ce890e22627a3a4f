// P23 bridges and articulation points, P31 equal neighbourhoods and cliques, P30 random helpers
#include <algorithm>
#include <array>
#include <condition_variable>
#include <mutex>
#include <optional>
#include <queue>
#include <stack>
#include <unordered_map>
#include <variant>
#include "vc.h"
#include "tlx/logger.hpp"
#define private public
#include "algorithms/misc/find_articulation_points.h"
#include "algorithms/misc/find_bridges.h"
#undef private
#include "algorithms/misc/equal_neighborhood.h"
#include "algorithms/misc/maximal_clique.h"

static unsigned nb(const SymGraph& s, int v) { unsigned m = 0; for (int j = 0; j < s.n; ++j) if (s.has[v][j]) m |= 1u << j; return m; }
static unsigned comp(const SymGraph& s, int v, unsigned in) {
    unsigned r = 1u << v, o = 0;
    while (r != o) { o = r; for (int i = 0; i < s.n; ++i) if ((r >> i) & 1) r |= nb(s, i) & in; }
    return r;
}
static std::vector<terminal> terms(const SymGraph& s, int k, unsigned& mask) {
    std::vector<terminal> t;
    mask = 0;
    for (int i = 0; i < k; ++i) {
        int p = sx_concrete(sx_int("term", 0, s.n - 1));
        sx_assume(!((mask >> p) & 1));
        mask |= 1u << p;
        t.emplace_back(p, i);
    }
    return t;
}
// every merged class hangs off one of its vertices and holds no other terminal
static void hanging(const SymGraph& s, union_find& uf, unsigned term) {
    bool ok = true;
    for (int v = 0; v < s.n; ++v) {
        unsigned c = 0;
        for (int u = 0; u < s.n; ++u) if (uf.Find(u) == uf.Find(v)) c |= 1u << u;
        if (__builtin_ctz(c) != v || !(c & (c - 1))) continue;
        sx_cover("merged");
        bool some = false;
        for (int a = 0; a < s.n; ++a)
            if ((c >> a) & 1) {
                unsigned reach = 0;
                for (int u = 0; u < s.n; ++u) if (u != a && ((c >> u) & 1)) reach |= comp(s, u, s.full() & ~(1u << a));
                some |= !(reach & term);
            }
        ok &= some;
    }
    sx_assert(ok, "contracted vertices are separated from all terminals by one vertex");
}
static void aps(const SymGraph& s, int k) {
    quiet();
    mutableGraphPtr G = toMutable(s);
    find_articulation_points f(G);
    bool r = f.findAllArticulationPoints();
    unsigned got = 0, want = 0, may = 0;
    for (NodeID v : f.articulation_points) got |= 1u << v;
    for (int v = 0; v < s.n; ++v) {
        unsigned cc = comp(s, v, s.full()), rest = cc & ~(1u << v);
        if (!rest) continue;
        bool cut = comp(s, __builtin_ctz(rest), s.full() & ~(1u << v)) != rest;
        if (cut && __builtin_ctz(cc) != v) want |= 1u << v;
        if (cut) may |= 1u << v;
    }
    sx_assert((got & ~may) == 0, "reported vertices are articulation points");
    sx_assert((want & ~got) == 0, "every articulation point other than a starting vertex is reported");
    sx_assert(r == (got != 0), "result tells whether there is one");
    unsigned tm;
    auto t = terms(s, k, tm);
    auto uf = f.terminalsOnBothSides(t);
    if (uf) hanging(s, *uf, tm);
}
static void bridges(const SymGraph& s, int k) {
    quiet();
    mutableGraphPtr G = toMutable(s);
    find_bridges f(G);
    bool r = f.findAllBridges();
    bool want[MAXN][MAXN] = {}, got[MAXN][MAXN] = {}, any = false, ok = true;
    SymGraph d = s;
    for (int i = 0; i < s.n; ++i)
        for (int j = i + 1; j < s.n; ++j)
            if (s.has[i][j]) {
                d.has[i][j] = d.has[j][i] = false;
                if (!((comp(d, i, d.full()) >> j) & 1)) any = want[i][j] = want[j][i] = true;
                d.has[i][j] = d.has[j][i] = true;
            }
    for (auto [n, e] : f.bridges) { NodeID t = G->getEdgeTarget(n, e); got[n][t] = got[t][n] = true; }
    for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) ok &= got[i][j] == want[i][j];
    sx_assert(ok, "reported edges are exactly the bridges");
    sx_assert(r == any, "result tells whether there is one");
    if (!any) return;
    unsigned tm;
    auto t = terms(s, k, tm);
    auto v = f.terminalsOnBothSides(t);
    if (std::holds_alternative<union_find>(v)) {
        hanging(s, std::get<union_find>(v), tm);
    } else {
        auto [n, e] = std::get<1>(v);
        NodeID g = G->getEdgeTarget(n, e);
        sx_assert(want[n][g], "the returned edge is a bridge");
        d = s;
        d.has[n][g] = d.has[g][n] = false;
        unsigned side = comp(d, g, d.full()), other = comp(d, n, d.full());
        sx_assert((side & tm) && (tm & ~side), "the returned bridge has terminals on both sides");
        (void)other;
        sx_cover("edge");
    }
}
SX_HARNESS(aps_any4) { aps(anyGraph(4, 1, 1), 2); }
SX_HARNESS(aps_any5) { aps(anyGraph(5, 1, 1), 2); }
SX_HARNESS(aps_fam8) { aps(familyGraph(8, 60, 25, 1, 0, 1), 2); }
SX_HARNESS(aps_clu9) { aps(familyGraph(9, 60, 60, 1, 0, 1, 3), 3); }
SX_HARNESS(aps_tree7) { SymGraph s = topoGraph(7, "01 12 13 34 35 56", 1, 1); if (sx_bool("close")) s.set(4, 5, 1); if (sx_bool("close")) s.set(0, 2, 1); aps(s, 2); }
SX_HARNESS(bri_any4) { bridges(anyGraph(4, 1, 1), 2); }
SX_HARNESS(bri_any5) { bridges(anyGraph(5, 1, 1), 2); }
SX_HARNESS(bri_fam8) { bridges(familyGraph(8, 60, 25, 1, 0, 1), 2); }
SX_HARNESS(bri_clu9) { bridges(familyGraph(9, 60, 60, 1, 0, 1, 3), 3); }
SX_HARNESS(bri_tree7) { SymGraph s = topoGraph(7, "01 12 13 34 35 56", 1, 1); if (sx_bool("close")) s.set(4, 5, 1); if (sx_bool("close")) s.set(0, 2, 1); bridges(s, 2); }

// ---- P31
static problemPointer problem(const SymGraph& s, const std::vector<terminal>& t) { return std::make_shared<multicut_problem>(toMutable(s), t); }
static bool twins(const SymGraph& s, int a, int b) {
    bool ok = true;
    for (int x = 0; x < s.n; ++x)
        if (x != a && x != b) { if (s.has[a][x] != s.has[b][x]) return false; if (s.has[a][x]) ok &= s.w[a][x] == s.w[b][x]; }
    return ok;
}
static void equal(const SymGraph& s, int k, int limit) {
    quiet();
    cfg()->neighborhood_degrees = limit;
    unsigned tm = (1u << k) - 1;
    std::vector<terminal> t;
    for (int i = 0; i < k; ++i) t.emplace_back(i, i);
    auto p = problem(s, t);
    std::vector<bool> active(s.n);
    bool all = sx_bool("all_active");
    for (int v = 0; v < s.n; ++v) active[v] = all || sx_bool("active");
    equal_neighborhood en;
    union_find uf = en.findEqualNeighborhoods(p, active);
    bool ok = true, noterm = true, found = true;
    for (int a = 0; a < s.n; ++a)
        for (int b = a + 1; b < s.n; ++b) {
            bool same = uf.Find(a) == uf.Find(b);
            if (same) {
                sx_cover("merged");
                noterm &= !((tm >> a) & 1) && !((tm >> b) & 1);
                ok &= twins(s, a, b);
            } else if (all && s.has[a][b] && !((tm >> a) & 1) && !((tm >> b) & 1) && __builtin_popcount(nb(s, a)) <= limit) {
                found &= !twins(s, a, b);
            }
        }
    sx_assert(ok, "vertices reported as equal have equal neighbourhoods");
    sx_assert(noterm, "terminals are not merged");
    sx_assert(found, "adjacent vertices with equal neighbourhoods are found");
}
SX_HARNESS(eq_any4) { equal(anyGraph(4, 1, 50), 2, 5); }
SX_HARNESS(eq_any4_0) { equal(anyGraph(4, 1, 50), 0, 5); }
SX_HARNESS(eq_any5u) { equal(anyGraph(5, 1, 1), 2, 3); }
SX_HARNESS(eq_any5u_0) { equal(anyGraph(5, 1, 1, true), 0, 5); }
SX_HARNESS(eq_k23) { equal(topoGraph(5, "02 03 04 12 13 14", 1, 50), 2, 5); }
SX_HARNESS(eq_k5) { equal(topoGraph(5, "02 03 04 12 13 14 23 34 24", 1, 9), 2, 5); }
SX_HARNESS(eq_fam8) { equal(familyGraph(8, 60, 60, 1, 2, 3), 2, 6); }
static void cliques(const SymGraph& s, int k) {
    quiet();
    std::vector<terminal> t;
    for (int i = 0; i < k; ++i) t.emplace_back(i, i);
    auto p = problem(s, t);
    maximal_clique mc;
    auto cs = mc.findCliques(p->graph);
    bool ok = true, maxi = true, dup = true;
    std::vector<unsigned> ms;
    for (auto& c : cs) {
        unsigned m = 0, common = s.full();
        for (NodeID v : c) { ok &= v < (NodeID)s.n && !((m >> v) & 1); m |= 1u << v; }
        for (NodeID v : c) { ok &= ((nb(s, v) | 1u << v) & m) == m; common &= nb(s, v); }
        maxi &= (common & ~m) == 0;
        for (auto o : ms) dup &= o != m;
        ms.push_back(m);
        if (c.size() > 2) sx_cover("triangle");
    }
    sx_assert(ok, "every reported clique is a clique");
    sx_assert(maxi, "every reported clique is maximal");
    sx_assert(dup, "no clique is reported twice");
    union_find uf = mc.contractSemiIsolatedCliques(p);
    bool in = true;
    for (int a = 0; a < s.n; ++a)
        for (int b = 0; b < s.n; ++b)
            if (a != b && uf.Find(a) == uf.Find(b)) {
                in &= a >= k && b >= k;
                sx_cover("merged");
                bool ch = false;   // connected through reported cliques without terminals
                unsigned r = 1u << a;
                for (int i = 0; i < s.n; ++i) for (auto m : ms) if ((m & r) && !(m & ((1u << k) - 1))) r |= m;
                ch = (r >> b) & 1;
                in &= ch;
            }
    sx_assert(in, "only cliques without terminals are merged");
}
SX_HARNESS(cl_any4) { cliques(anyGraph(4, 1, 20), 1); }
SX_HARNESS(cl_any4_0) { cliques(anyGraph(4, 1, 1), 0); }
SX_HARNESS(cl_any5u) { cliques(anyGraph(5, 1, 1), 1); }
SX_HARNESS(cl_k5) { cliques(topoGraph(5, "01 02 03 04 12 13 14 23 24 34", 1, 9), 1); }
SX_HARNESS(cl_fam8) { cliques(familyGraph(8, 60, 60, 1, 2, 3), 2); }

// ---- P30
template <class T> static bool isPerm(std::vector<T>& v, bool values, size_t n) {
    // values: v holds 0..n-1; checked with concrete values
    if (v.size() != n) return false;
    std::vector<int> seen(n);
    for (size_t i = 0; i < n; ++i) {
        uint64_t x = sx_concrete((uint64_t)v[i]);
        if (!values) x -= 100;
        if (x >= n || seen[x]++) return false;
    }
    return true;
}
static void perm(int kind, size_t n, int draws, uint64_t span) {
    sx_symbolic_random(draws, span);
    std::vector<NodeID> v(n);
    bool init = kind == 0 || kind == 1 || kind == 3 || kind == 5;
    for (size_t i = 0; i < n; ++i) v[i] = init ? 7 : 100 + i;
    switch (kind) {
    case 0: random_functions::circular_permutation(&v); break;
    case 1: random_functions::permutate_vector_fast(&v, true); break;
    case 2: random_functions::permutate_vector_fast(&v, false); break;
    case 3: random_functions::permutate_vector_local(&v, true); break;
    case 4: random_functions::permutate_vector_local(&v, false); break;
    case 5: random_functions::permutate_vector_good(&v, true); break;
    case 6: random_functions::permutate_vector_good(&v, false); break;
    case 7: random_functions::permutate_vector_good(&v); break;
    case 8: random_functions::permutate_vector_good_small(&v); break;
    }
    sx_assert(isPerm(v, init, n), "the helper yields a permutation");
}
SX_HARNESS(perm_circ) { perm(0, 3, 4, 0); }
SX_HARNESS(perm_circ5) { perm(0, 5, 3, 0); }
SX_HARNESS(perm_circ1) { perm(0, 2, 4, 0); }
SX_HARNESS(perm_fast) { perm(1, 11, 2, 0); }
SX_HARNESS(perm_fast_in) { perm(2, 10, 2, 0); }
SX_HARNESS(perm_local) { perm(3, 4, 3, 0); }
SX_HARNESS(perm_local_in) { perm(4, 130, 2, 0); }
SX_HARNESS(perm_good) { perm(5, 10, 3, 0); }
SX_HARNESS(perm_good_in) { perm(6, 12, 3, 0); }
SX_HARNESS(perm_good_small) { perm(6, 3, 6, 0); }
SX_HARNESS(perm_good9) { perm(5, 9, 3, 0); }
SX_HARNESS(perm_good4) { perm(7, 4, 8, 0); }
SX_HARNESS(perm_good5) { perm(7, 5, 5, 0); }
SX_HARNESS(perm_good3) { perm(7, 3, 4, 0); }
SX_HARNESS(perm_small) { perm(8, 4, 4, 0); }
SX_HARNESS(perm_small2) { perm(8, 2, 4, 0); }
static void range(unsigned lb, unsigned rb) {
    sx_symbolic_random(2, 0);
    unsigned r = random_functions::nextInt(lb, rb);
    sx_assert((r >= lb) & (r <= rb), "random integers lie in the closed interval");
}
SX_HARNESS(range) {
    unsigned lb = sx_concrete(sx_int("lb", 0, 3)), rb = lb + sx_concrete(sx_int("span", 0, 6));
    range(lb, rb);
}
SX_HARNESS(range_wide) { range(4294967285u, 4294967295u); }
SX_HARNESS(range_full) { range(0, 4294967295u); }
SX_HARNESS(range_odd) { range(2147483640u, 2147483653u); }
