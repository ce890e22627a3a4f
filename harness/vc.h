// Common harness code: symbolic graphs, oracles, partitions.
#pragma once
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include "sx.h"
#include "common/configuration.h"
#include "common/definitions.h"
#include "data_structure/graph_access.h"
#include "data_structure/mutable_graph.h"
#include "tools/random_functions.h"

static inline configuration* cfg() { return &*configuration::getConfig(); }

static const int MAXN = 12;
struct SymGraph {
    int n = 0;
    uint64_t w[MAXN][MAXN] = {};   // symmetric, 0 = no edge
    bool has[MAXN][MAXN] = {};     // concrete topology
    void set(int i, int j, uint64_t x) { w[i][j] = w[j][i] = x; has[i][j] = has[j][i] = true; }
    int edges() const { int m = 0; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) m += has[i][j]; return m; }
    uint64_t deg(int i) const { uint64_t d = 0; for (int j = 0; j < n; ++j) if (has[i][j]) d += w[i][j]; return d; }
    // weight of the cut separating the nodes in mask (concrete mask)
    uint64_t cut(unsigned mask) const {
        uint64_t c = 0;
        for (int i = 0; i < n; ++i)
            for (int j = i + 1; j < n; ++j)
                if (has[i][j] && (((mask >> i) ^ (mask >> j)) & 1)) c += w[i][j];
        return c;
    }
    unsigned full() const { return (1u << n) - 1; }
    // minimum over all cuts, one symbolic expression
    uint64_t mincut() const {
        uint64_t b = 0;
        bool first = true;
        for (unsigned m = 1; m < (1u << (n - 1)); ++m) {
            uint64_t c = cut(m);
            b = first ? c : sx_min(b, c);
            first = false;
        }
        return b;
    }
    // r is the minimum cut value: a lower bound of all cuts, and attained
    bool lowerBound(uint64_t r) const {
        bool ok = true;
        for (unsigned m = 1; m < (1u << (n - 1)); ++m) ok &= r <= cut(m);
        return ok;
    }
    bool upperBound(uint64_t r) const {
        bool ok = false;
        for (unsigned m = 1; m < (1u << (n - 1)); ++m) ok |= cut(m) <= r;
        return ok;
    }
    uint64_t minCutST(int s, int t) const {
        uint64_t b = 0;
        bool first = true;
        for (unsigned m = 0; m < (1u << n); ++m)
            if (((m >> s) & 1) && !((m >> t) & 1)) {
                uint64_t c = cut(m);
                b = first ? c : sx_min(b, c);
                first = false;
            }
        return b;
    }
    bool connected() const {
        unsigned r = 1, o = 0;
        while (r != o) {
            o = r;
            for (int i = 0; i < n; ++i)
                if ((r >> i) & 1)
                    for (int j = 0; j < n; ++j) if (has[i][j]) r |= 1u << j;
        }
        return r == full();
    }
    uint64_t total() const { uint64_t c = 0; for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (has[i][j]) c += w[i][j]; return c; }
};

// every graph on n nodes: each edge present or not, each weight in [lo,hi]
static inline SymGraph anyGraph(int n, int64_t lo, int64_t hi, bool conn = false) {
    SymGraph g;
    g.n = n;
    for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j)
            if (sx_bool("edge")) g.has[i][j] = g.has[j][i] = true;
    if (conn) sx_assume(g.connected());
    for (int i = 0; i < n; ++i)
        for (int j = i + 1; j < n; ++j)
            if (g.has[i][j]) g.set(i, j, sx_int("w", lo, hi));
    return g;
}
// fixed topology "01 12 20", every weight symbolic in [lo,hi]
static inline SymGraph topoGraph(int n, const char* e, int64_t lo, int64_t hi) {
    SymGraph g;
    g.n = n;
    for (const char* p = e; *p; ++p) {
        if (*p == ' ') continue;
        int a = p[0] <= '9' ? p[0] - '0' : p[0] - 'a' + 10, b = p[1] <= '9' ? p[1] - '0' : p[1] - 'a' + 10;
        g.set(a, b, lo == hi ? (uint64_t)lo : sx_int("w", lo, hi));
        ++p;
    }
    return g;
}
// adds edges with a fixed weight
static inline void addFixed(SymGraph& g, const char* e, uint64_t wgt) {
    for (const char* p = e; *p; ++p) {
        if (*p == ' ') continue;
        int a = p[0] <= '9' ? p[0] - '0' : p[0] - 'a' + 10, b = p[1] <= '9' ? p[1] - '0' : p[1] - 'a' + 10;
        g.set(a, b, wgt);
        ++p;
    }
}

// one of count base graphs on n nodes (connected, about pct percent of the edges,
// weights 1..wmax fixed), nsym of whose weights are symbolic in [1, hi];
// clusters > 1: fewer and lighter edges between clusters, the symbolic ones first
static int lastFamily = -1;
static inline SymGraph familyGraph(int n, int count, int pct, int wmax, int nsym, int64_t hi, int clusters = 1) {
    lastFamily = sx_concrete(sx_int("graph", 0, count - 1));
    uint64_t x = (uint64_t)lastFamily * 1000 + n * 17 + pct;
    auto rnd = [&](uint64_t m) { x = x * 6364136223846793005ull + 1442695040888963407ull; return (x >> 33) % m; };
    for (int i = 0; i < 4; ++i) rnd(2);
    SymGraph g;
    g.n = n;
    int cl[MAXN];
    do {
        for (int i = 0; i < n; ++i) cl[i] = clusters > 1 ? rnd(clusters) : 0;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { g.has[i][j] = false; g.w[i][j] = 0; }
        for (int i = 0; i < n; ++i)
            for (int j = i + 1; j < n; ++j) {
                bool in = cl[i] == cl[j];
                bool edge = rnd(100) < (uint64_t)(in ? pct : pct / 3);
                uint64_t w = clusters == 1 ? 1 + rnd(wmax) : in ? 2 + rnd(wmax) : 1 + rnd(2);
                if (edge) g.set(i, j, w);
            }
    } while (!g.connected());
    int m = g.edges(), inter = 0;
    for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) inter += g.has[i][j] && cl[i] != cl[j];
    for (int k = 0; k < nsym; ++k) {
        bool between = k < inter;
        int e = rnd(between ? inter : m);
        for (int i = 0; i < n; ++i)
            for (int j = i + 1; j < n; ++j)
                if (g.has[i][j] && (!between || cl[i] != cl[j]) && e-- == 0) g.set(i, j, sx_int("w", 1, hi));
    }
    return g;
}

// numbering of the vertices: as they are, backwards, or odd ones first; base
// graphs of a family come with one of them, other graphs with all
static inline std::vector<int> numbering(int n) {
    int o = lastFamily >= 0 ? lastFamily % 3 : n >= 4 ? (int)sx_concrete(sx_int("order", 0, 2)) : 0;
    std::vector<int> p(n);
    int odd = n / 2;
    for (int v = 0; v < n; ++v) p[v] = o == 0 ? v : o == 1 ? n - 1 - v : v % 2 ? v / 2 : odd + v / 2;
    return p;
}
static inline SymGraph renumber(const SymGraph& s, const std::vector<int>& p) {
    SymGraph r;
    r.n = s.n;
    for (int i = 0; i < s.n; ++i) for (int j = i + 1; j < s.n; ++j) if (s.has[i][j]) r.set(p[i], p[j], s.w[i][j]);
    return r;
}

static inline graphAccessPtr toAccess(const SymGraph& s) {
    auto g = std::make_shared<graph_access>();
    g->start_construction(s.n, 2 * s.edges());
    for (int i = 0; i < s.n; ++i) {
        g->new_node();
        for (int j = 0; j < s.n; ++j)
            if (s.has[i][j]) g->new_edge(i, j, s.w[i][j]);
    }
    g->finish_construction();
    return g;
}
static inline mutableGraphPtr toMutable(const SymGraph& s) {
    auto g = std::make_shared<mutable_graph>();
    g->start_construction(s.n);
    for (int i = 0; i < s.n; ++i) g->new_node();
    for (int i = 0; i < s.n; ++i)
        for (int j = i + 1; j < s.n; ++j)
            if (s.has[i][j]) g->new_edge(i, j, s.w[i][j]);
    g->finish_construction();
    return g;
}
template <class P> struct Mk;
template <> struct Mk<graphAccessPtr> { static graphAccessPtr make(const SymGraph& s) { return toAccess(s); } };
template <> struct Mk<mutableGraphPtr> { static mutableGraphPtr make(const SymGraph& s) { return toMutable(s); } };

// mask of the nodes marked as inside the cut
template <class P> static unsigned cutMask(P g, int n) {
    unsigned m = 0;
    for (int i = 0; i < n; ++i)
        if (g->getNodeInCut(i)) m |= 1u << i;
    return m;
}
template <class P> static void assertSavedCut(const SymGraph& s, P g, uint64_t value, const char* msg) {
    unsigned m = cutMask(g, s.n);
    sx_assert(m != 0 && m != s.full(), "saved partition has two non-empty sides");
    sx_assert(s.cut(m) == value, msg);
}
static inline void assertMinCut(const SymGraph& s, uint64_t r, const char* what = "reported value is the minimum cut") {
    sx_assert(s.lowerBound(r), what);
    sx_assert(s.upperBound(r), what);
}
// value of some cut?
static inline bool isSomeCut(const SymGraph& s, uint64_t v) {
    uint64_t any = 0;
    for (unsigned m = 1; m < (1u << (s.n - 1)); ++m) any |= sx_ite(s.cut(m) == v, 1, 0);
    return any != 0;
}
static inline void quiet() { std::cout.setstate(std::ios_base::badbit); }
