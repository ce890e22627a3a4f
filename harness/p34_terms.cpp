// P34: choice of the terminals of a multiterminal problem
#include <atomic>
#include <cmath>
#include <condition_variable>
#include <functional>
#include <future>
#include <mutex>
#include <numeric>
#include <optional>
#include <unistd.h>
#include <variant>
#include "vc.h"
#include "thr.h"
#include "algorithms/multicut/multiterminal_cut.h"
static int pick(const char* n, int hi) { return hi > 0 ? sx_concrete(sx_int(n, 0, hi)) : 0; }
enum { IDS, TOPK, RANDOM, DISTANT };
static std::vector<std::vector<int>> distances(const SymGraph& s) {
    std::vector<std::vector<int>> d(s.n, std::vector<int>(s.n, 1000));
    for (int i = 0; i < s.n; ++i) d[i][i] = 0;
    for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) if (s.has[i][j]) d[i][j] = 1;
    for (int k = 0; k < s.n; ++k) for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) d[i][j] = std::min(d[i][j], d[i][k] + d[k][j]);
    return d;
}
static void choose(const SymGraph& s, int kind, int k, bool area, bool percent = false) {
    quiet();
    auto c = cfg();
    c->threads = 1;
    size_t size = 1;
    std::vector<int> ids;
    if (kind == IDS) {
        for (int i = 0; i < k; ++i) {
            int v = pick("id", s.n - 1);
            for (int x : ids) sx_assume(x != v);
            ids.push_back(v);
            c->term_strings.push_back(std::to_string(v));
        }
    }
    if (kind == TOPK) c->top_k = k;
    if (kind == RANDOM) c->random_k = k;
    if (kind == DISTANT) c->distant_terminals = k;
    if (area && percent) {
        int p = 1 + pick("percent", 3);
        c->preset_percentage = p * 25;
        size = std::max<size_t>(1, (s.n / k) * p * 25 / 100);
    } else if (area) {
        size = c->bfs_size = pick("size", s.n);
        size = std::max<size_t>(1, size);
    }
    mutableGraphPtr G = toMutable(s);
    multiterminal_cut mc;
    std::vector<NodeID> m = mc.setOriginalTerminals(G);
    sx_assert((int)m.size() == s.n, "every vertex has an entry");
    sx_assert((int)c->num_terminals == k, "as many terminals as requested");
    std::vector<int> count(k, 0);
    bool valid = true, fit = true, reached = true, full = true, free = false;
    for (int v = 0; v < s.n; ++v) {
        if (m[v] == UNDEFINED_NODE) { free = true; continue; }
        if (m[v] >= (NodeID)k) { valid = false; continue; }
        count[m[v]]++;
    }
    sx_assert(valid, "no other blocks");
    for (int b = 0; b < k; ++b) { valid &= count[b] >= 1; fit &= count[b] <= (int)size; }
    sx_assert(valid, "every terminal has its own block");
    sx_assert(fit, "no block exceeds the requested size");
    for (int b = 0; b < k; ++b) {
        unsigned all = 0, r = 0, o = 0;
        for (int v = 0; v < s.n; ++v) if (m[v] == (NodeID)b) { all |= 1u << v; if (!r) r = 1u << v; }
        while (r != o) {
            o = r;
            for (int i = 0; i < s.n; ++i) if ((r >> i) & 1) for (int j = 0; j < s.n; ++j) if (s.has[i][j] && ((all >> j) & 1)) r |= 1u << j;
        }
        reached &= r == all;
        for (int i = 0; i < s.n; ++i) if ((all >> i) & 1)
            for (int j = 0; j < s.n; ++j) if (s.has[i][j] && m[j] == UNDEFINED_NODE) full &= count[b] >= (int)size;
    }
    sx_assert(reached, "a block is connected");
    sx_assert(full, "a block that is smaller than requested can not grow");
    if (size > 1 && free) sx_cover("area");
    if (kind == IDS) {
        bool own = true;
        for (int i = 0; i < k; ++i) own &= m[ids[i]] == (NodeID)i;
        sx_assert(own, "the given vertices are the terminals, in the order given");
    }
    if (size > 1) return;
    std::vector<int> t(k);
    for (int v = 0; v < s.n; ++v) if (m[v] != UNDEFINED_NODE) t[m[v]] = v;
    if (kind == TOPK) {
        bool top = true;
        for (int v = 0; v < s.n; ++v) if (m[v] == UNDEFINED_NODE) for (int x : t) top &= s.deg(x) >= s.deg(v);
        sx_assert(top, "terminals have the largest degrees");
    }
    if (kind == DISTANT) {
        auto d = distances(s);
        bool any = false;
        for (int r = 0; r < s.n; ++r) {
            bool ok = true;
            std::vector<int> src = {r};
            for (int x : t) {
                int best = 0, mine = 1000;
                for (int v = 0; v < s.n; ++v) {
                    int q = 1000;
                    for (int y : src) q = std::min(q, d[y][v]);
                    if (q < 1000) best = std::max(best, q);
                    if (v == x) mine = q;
                }
                // unless everything in reach is a terminal already
                ok &= mine == best || mine >= 1000;
                src.push_back(x);
            }
            any |= ok;
        }
        sx_assert(any, "each terminal is as far as possible from the start and the earlier ones");
        sx_cover("far");
    }
    if (kind == RANDOM) sx_cover("random");
}
static SymGraph any(int n, int64_t hi = 1, bool conn = false) { return anyGraph(n, 1, hi, conn); }
SX_HARNESS(ids_any4) { choose(any(4), IDS, 1 + pick("k", 3), false); }
SX_HARNESS(ids_area4) { choose(any(4), IDS, 1 + pick("k", 2), true); }
SX_HARNESS(ids_area5) { choose(any(5, 1, true), IDS, 2, true); }
SX_HARNESS(ids_fam9) { choose(familyGraph(9, 24, 30, 1, 0, 1), IDS, 2, true); }
SX_HARNESS(ids_pct9) { choose(familyGraph(9, 24, 35, 1, 0, 1), IDS, 2, true, true); }
SX_HARNESS(top_any4) { choose(any(4, 1000), TOPK, 1 + pick("k", 3), false); }
SX_HARNESS(top_area5) { choose(any(5, 1, true), TOPK, 2, true); }
SX_HARNESS(rnd_any3) { sx_symbolic_random(6, 0); choose(any(3), RANDOM, 1 + pick("k", 2), false); }
SX_HARNESS(rnd_any4) { sx_symbolic_random(4, 0); choose(topoGraph(4, "01 12 23", 1, 1), RANDOM, 1 + pick("k", 3), false); }
SX_HARNESS(rnd_area5) { sx_symbolic_random(3, 0); choose(topoGraph(5, "01 12 23 34 13", 1, 1), RANDOM, 2, true); }
SX_HARNESS(dist_any4) { sx_symbolic_random(1, 0); choose(any(4), DISTANT, 1 + pick("k", 3), false); }
SX_HARNESS(dist_any5) { sx_symbolic_random(1, 0); choose(any(5, 1, true), DISTANT, 1 + pick("k", 2), false); }
SX_HARNESS(dist_fam9) { sx_symbolic_random(1, 0); choose(familyGraph(9, 32, 25, 1, 0, 1), DISTANT, 2 + pick("k", 2), false); }
SX_HARNESS(dist_area) { sx_symbolic_random(1, 0); choose(familyGraph(8, 32, 30, 1, 0, 1), DISTANT, 2, true); }
// files
static void file(const std::string& name, const std::vector<int>& v) {
    static char b[4][200];
    static int used = 0;
    char* p = b[used++ % 4];
    size_t n = 0;
    for (int x : v) n += snprintf(p + n, 200 - n, "%d\n", x);
    sx_file_bytes(name.c_str(), (const unsigned char*)p, n);
}
static void files(bool pre, int n, int k, bool percent) {
    quiet();
    auto c = cfg();
    std::string name = "part" + std::to_string(getpid()) + "." + std::to_string(k) + (pre ? ".pre" : "");
    c->partition_file = name;
    std::vector<int> v, o;
    for (int i = 0; i < n; ++i) { v.push_back(pick("block", pre ? k : k - 1)); o.push_back(pre ? 0 : 1 + pick("pos", 2)); }
    file(name, v);
    if (!pre) file(name + ".pos", o);
    size_t size = 1;
    if (percent) { c->preset_percentage = 100; size = std::max(1, n / k); }
    SymGraph s = topoGraph(n, "01 12 23", 1, 1);
    multiterminal_cut mc;
    auto m = mc.setOriginalTerminals(toMutable(s));
    unlink(name.c_str());
    unlink((name + ".pos").c_str());
    sx_assert((int)m.size() == n && (int)c->num_terminals == k, "every vertex has an entry, number of terminals as named");
    bool ok = true;
    for (int i = 0; i < n; ++i) {
        NodeID want = pre ? (v[i] == k ? UNDEFINED_NODE : (NodeID)v[i]) : o[i] <= (int)size ? (NodeID)v[i] : UNDEFINED_NODE;
        ok &= m[i] == want;
    }
    sx_assert(ok, "the vertices named in the file are fixed to their blocks");
}
SX_HARNESS(file_pre) { files(true, 4, 2 + pick("k", 1), false); }
SX_HARNESS(file_pos) { files(false, 4, 2, sx_bool("percent")); }
