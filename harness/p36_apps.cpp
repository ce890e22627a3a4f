// P36: the command line programs, run on files
#include <unistd.h>
#include <algorithm>
#include <atomic>
#include <cmath>
#include <condition_variable>
#include <cstring>
#include <fstream>
#include <functional>
#include <future>
#include <array>
#include <iostream>
#include <map>
#include <mutex>
#include <numeric>
#include <optional>
#include <set>
#include <sstream>
#include <variant>
#include "vc.h"
#ifndef PARALLEL
#include "thr.h"
#endif
#include "io/graph_io.h"
#include "algorithms/global_mincut/algorithms.h"
#ifndef PARALLEL
#include "algorithms/global_mincut/dynamic/dynamic_mincut.h"
#include "algorithms/misc/core_decomposition.h"
#include "algorithms/misc/strongly_connected_components.h"
#include "algorithms/multicut/multiterminal_cut.h"
#endif
// what the programs themselves print with LOG1 is captured
namespace sxapp {
static std::ostringstream& log() { static std::ostringstream o; return o; }
struct Line {
    template <class T> Line& operator<<(const T& x) { log() << x; return *this; }
    ~Line() { log() << "\n"; }
};
}
#undef LOG1
#define LOG1 sxapp::Line()
#define main mincut_main
#include "app/mincut.cpp"
#undef main
#ifndef PARALLEL
#define main dynamic_main
#include "app/dynamic_mincut.cpp"
#undef main
#define main multiterminal_main
#include "app/multiterminal_cut.cpp"
#undef main
#define main kcore_main
#include "app/kcore.cpp"
#undef main
#define main largest_main
#include "app/largest_cc.cpp"
#undef main
#define main temporal_main
#include "app/temporal_largest_cc.cpp"
#undef main
#endif

static int pick(const char* n, int hi) { return hi > 0 ? sx_concrete(sx_int(n, 0, hi)) : 0; }
static std::string base() { return "ap" + std::to_string((int)getpid()); }
// the graph as a file; one digit per weight
static void file(const SymGraph& s, bool weighted = true) {
    static unsigned char b[2000];
    size_t len = 0;
    auto text = [&](const std::string& t) { for (char c : t) b[len++] = c; };
    text(std::to_string(s.n) + " " + std::to_string(s.edges()) + (weighted ? " 1\n" : "\n"));
    for (int i = 0; i < s.n; ++i) {
        bool first = true;
        for (int j = 0; j < s.n; ++j)
            if (s.has[i][j]) {
                if (!first) b[len++] = ' ';
                first = false;
                text(std::to_string(j + 1));
                if (weighted) { b[len++] = ' '; b[len++] = (unsigned char)('0' + s.w[i][j]); }
            }
        b[len++] = '\n';
    }
    sx_file_bytes(base().c_str(), b, len);
}
// runs a program and returns what it prints
static std::string run(int (*prog)(int, char**), std::vector<std::string> args) {
    std::vector<char*> av;
    args.insert(args.begin(), "prog");
    for (auto& a : args) av.push_back(&a[0]);
    av.push_back(nullptr);
    std::ostringstream out, err;
    auto o = std::cout.rdbuf(out.rdbuf());
    auto e = std::cerr.rdbuf(err.rdbuf());
    prog((int)args.size(), av.data());
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
    return out.str() + sxapp::log().str();
}
static std::vector<std::string> results(const std::string& out) {
    std::vector<std::string> r;
    std::istringstream in(out);
    for (std::string l; std::getline(in, l);) if (l.compare(0, 7, "RESULT ") == 0) r.push_back(l + " ");
    return r;
}
static std::string field(const std::string& line, const std::string& name) {
    size_t p = line.find(" " + name + "=");
    if (p == std::string::npos) return "missing";
    p += name.size() + 2;
    return line.substr(p, line.find(' ', p) - p);
}
static uint64_t number(const std::string& t) {
    if (t.empty() || t.find_first_not_of("0123456789") != std::string::npos) return ~0ull;
    return std::stoull(t);
}
static std::vector<int> numbers(const std::string& path) {
    std::vector<int> a;
    std::ifstream f(path);
    for (int x; f >> x;) a.push_back(x);
    f.close();
    unlink(path.c_str());
    return a;
}
enum { SAVE = 1, ITER = 2, UNLIM = 4, PQ = 8, SEED = 16, BALANCED = 32, CACTUS = 64 };
enum { EXACT, FACTOR, SOME };
static const char* QUEUES[] = {"bqueue", "heap", "bstack"};
static void mincut(SymGraph s, const char* algo, int kind, int fl = 0, bool weighted = true) {
    file(s, weighted);
    std::vector<std::string> a;
    std::string out = base() + ".out", cactus = base() + ".cactus", pq = "default";
    int rounds = fl & ITER ? 2 : 1;
    bool save = (fl & SAVE) || (fl & BALANCED);
    if (save) { a.push_back("-s"); a.push_back("-o"); a.push_back(out); }
    if (fl & BALANCED) a.push_back("-b");
    if (fl & ITER) { a.push_back("-i"); a.push_back("2"); }
    if ((fl & UNLIM) && sx_bool("unlimited")) a.push_back("-l");
    if (fl & PQ) { pq = QUEUES[pick("queue", 2)]; a.push_back("-q"); a.push_back(pq); }
    if (fl & SEED) { a.push_back("-r"); a.push_back(std::to_string(pick("seed", 2))); }
    if (fl & CACTUS) { a.push_back("-t"); a.push_back(cactus); }
#ifdef PARALLEL
    a.push_back("-p");
    a.push_back("1");
#endif
    a.push_back(base());
    a.push_back(algo);
    auto r = results(run(mincut_main, a));
    sx_assert((int)r.size() == rounds, "one result for each repetition");
    uint64_t last = 0;
    for (auto& l : r) {
        uint64_t v = number(field(l, "cut"));
        last = v;
        if (kind == EXACT) assertMinCut(s, v, "the program prints the weight of a minimum cut");
        else {
            sx_assert(isSomeCut(s, v), "the program prints the weight of a cut");
            if (kind == FACTOR) {
                bool ok = false;
                for (unsigned m = 1; m < (1u << (s.n - 1)); ++m) ok |= 2 * v <= 5 * s.cut(m);
                ok |= v == 0;
                sx_assert(s.upperBound(v * 5) && ok, "the program keeps the approximation factor");
            }
        }
        sx_assert(number(field(l, "n")) == (uint64_t)s.n && number(field(l, "m")) == (uint64_t)s.edges(), "size of the graph");
        if (fl & PQ) sx_assert(field(l, "algo").find(pq) != std::string::npos, "the chosen priority queue is used");
    }
    if (save) {
        auto side = numbers(out);
        sx_assert((int)side.size() == s.n, "the cut file names every vertex");
        unsigned m = 0;
        bool bits = true;
        for (int v = 0; v < s.n; ++v) { bits &= side[v] == 0 || side[v] == 1; if (side[v]) m |= 1u << v; }
        sx_assert(bits && m != 0 && m != s.full(), "the cut file has two sides");
        sx_assert(s.cut(m) == last, "the cut file has the printed weight");
        if (fl & BALANCED) {
            int k = std::min(__builtin_popcount(m), s.n - __builtin_popcount(m));
            bool ok = true;
            for (unsigned x = 1; x < (1u << (s.n - 1)); ++x)
                if (std::min(__builtin_popcount(x), s.n - __builtin_popcount(x)) > k) ok &= s.cut(x) > last;
            sx_assert(ok, "the cut file is a most balanced minimum cut");
        }
    }
    if (fl & CACTUS) {   // the cuts of the written cactus are the minimum cuts
        std::ifstream f(cactus);
        sx_assert(f.good(), "the cactus is written");
        std::map<int, int> id;
        std::vector<unsigned> in;
        std::vector<std::array<int, 3>> edges;
        bool cont = false;
        for (std::string l; std::getline(f, l);) {
            auto val = [&](const char* key) { size_t p = l.find(std::string(key) + "=\""); return p == std::string::npos ? -1 : atoi(l.c_str() + p + strlen(key) + 2); };
            if (l.find("<node ") != std::string::npos) { int x = val("id"); id[x] = in.size(); in.push_back(0); cont = true; }
            else if (l.find("<edge ") != std::string::npos) { edges.push_back({val("source"), val("target"), 0}); cont = false; }
            else if (l.find("<data ") != std::string::npos) {
                std::string d = l.substr(l.find('>') + 1);
                if (!cont) edges.back()[2] = atoi(d.c_str());
                else {
                    std::istringstream v(d.substr(0, d.find('<')));
                    for (std::string t; std::getline(v, t, ',');) { int x = atoi(t.c_str()); sx_assert(x >= 0 && x < s.n, "vertices of the cactus"); in.back() |= 1u << x; }
                }
            }
        }
        f.close();
        unlink(cactus.c_str());
        std::vector<bool> found(1u << s.n, false);
        for (size_t m = 0; m < (1ull << in.size()); ++m) {
            unsigned side = 0;
            uint64_t w = 0;
            for (size_t i = 0; i < in.size(); ++i) if ((m >> i) & 1) side |= in[i];
            for (auto& e : edges) if (((m >> id[e[0]]) ^ (m >> id[e[1]])) & 1) w += e[2];
            if (w == last) found[side] = true;
        }
        bool ok = true;
        for (unsigned m = 1; m < s.full(); ++m) ok &= (s.cut(m) == last) == (bool)found[m];
        sx_assert(ok, "the written cactus holds exactly the minimum cuts");
    }
    if (last > 0) sx_cover("positive");
}
static SymGraph any4(int hi) { return anyGraph(4, 1, hi); }
static const char* K4 = "01 02 03 12 13 23";
static const char* HOUSE = "01 12 23 30 04 14";
#ifndef PARALLEL
SX_HARNESS(noi_any4) { mincut(any4(2), "noi", EXACT, SAVE); }
SX_HARNESS(noi_k4) { mincut(topoGraph(4, K4, 1, 9), "noi", EXACT, UNLIM); }
SX_HARNESS(noi_iter) { mincut(topoGraph(5, HOUSE, 1, 3), "noi", EXACT, SAVE | ITER | SEED); }
SX_HARNESS(noi_pq) { mincut(topoGraph(5, HOUSE, 1, 3), "noi", EXACT, PQ); }
SX_HARNESS(noi_unw) { mincut(anyGraph(5, 1, 1), "noi", EXACT, 0, false); }
SX_HARNESS(noi_fam) { mincut(familyGraph(8, 48, 50, 5, 2, 9), "noi", EXACT, SAVE | UNLIM | ITER); }
SX_HARNESS(cac_any4) { mincut(anyGraph(4, 1, 2, true), "cactus", EXACT, SAVE | CACTUS); }
SX_HARNESS(cac_file) { mincut(topoGraph(5, HOUSE, 1, 2), "cactus", EXACT, SAVE | CACTUS); }
SX_HARNESS(cac_file5) { mincut(anyGraph(5, 1, 1, true), "cactus", EXACT, SAVE | CACTUS, false); }
SX_HARNESS(cac_disc) { mincut(any4(2), "cactus", EXACT, SAVE); }
SX_HARNESS(cac_fams) { mincut(familyGraph(8, 48, 40, 2, 1, 3), "cactus", EXACT, SAVE | ITER); }
SX_HARNESS(cac_bal) { mincut(anyGraph(5, 1, 1, true), "cactus", EXACT, BALANCED, false); }
SX_HARNESS(cac_fam) { mincut(familyGraph(8, 48, 40, 2, 1, 3), "cactus", EXACT, BALANCED | ITER); }
SX_HARNESS(vc_any4) { mincut(any4(2), "vc", SOME, SAVE); }
SX_HARNESS(vc_fam) { mincut(familyGraph(9, 48, 40, 4, 1, 9), "vc", SOME, SAVE | ITER | SEED); }
SX_HARNESS(pr_any4) { mincut(any4(2), "pr", SOME, SAVE | ITER); }
SX_HARNESS(pr_fam) { mincut(familyGraph(9, 48, 40, 4, 1, 9), "pr", SOME, SAVE | ITER); }
SX_HARNESS(mat_any4) { mincut(any4(2), "matula", FACTOR, SAVE); }
SX_HARNESS(mat_fam) { mincut(familyGraph(9, 48, 40, 4, 1, 9), "matula", FACTOR, SAVE | ITER | UNLIM); }
SX_HARNESS(ks_any4) { mincut(anyGraph(4, 1, 2, true), "ks", SOME, ITER | SAVE); }
SX_HARNESS(ks_fam) { mincut(familyGraph(7, 48, 50, 3, 1, 5), "ks", SOME, SAVE | SEED); }

// ---- updates from a file
static void dynamic(int n, int updates, int mode, bool initial) {
    SymGraph s;
    s.n = n;
    if (initial) {   // only one file may have symbolic contents
        s = anyGraph(n, 1, 2);
        std::ofstream f(base());
        f << n << " " << s.edges() << " 1\n";
        for (int i = 0; i < n; ++i) {
            for (int j = 0; j < n; ++j) if (s.has[i][j]) { if (j > i) s.w[i][j] = s.w[j][i] = sx_concrete(s.w[i][j]); f << j + 1 << " " << s.w[i][j] << " "; }
            f << "\n";
        }
    }
    std::string upd = base() + ".upd";
    static unsigned char b[600];
    size_t len = 0;
    auto text = [&](const std::string& t) { for (char c : t) b[len++] = c; };
    uint64_t value = s.mincut();
    int changes = 0, ins = 0, del = 0;
    bool named = false;
    for (int i = 0; i < updates; ++i) {
        int e = pick("pair", n * (n - 1) / 2 - 1), x = 0, y = 0;
        for (int a = 0, c = 0; a < n; ++a) for (int d = a + 1; d < n; ++d, ++c) if (c == e) { x = a; y = d; }
        named |= y == n - 1;
        if (s.has[x][y]) {
            s.has[x][y] = s.has[y][x] = false;
            s.w[x][y] = s.w[y][x] = 0;
            ++del;
            text(std::to_string(x + 1) + " " + std::to_string(y + 1) + " -1 " + std::to_string(i + 1) + "\n");
        } else {
            uint64_t w = sx_int("new", 1, 2);
            s.set(x, y, w);
            ++ins;
            text(std::to_string(x + 1) + " " + std::to_string(y + 1) + " +");
            b[len++] = (unsigned char)('0' + w);
            text(" " + std::to_string(i + 1) + "\n");
        }
        uint64_t now = s.mincut();
        changes += now != value;
        value = now;
    }
    sx_assume(named || initial);   // the file names the last vertex
    sx_file_bytes(upd.c_str(), b, len);
    std::vector<std::string> a = {"-d", upd};
    if (initial) { a.push_back("-i"); a.push_back(base()); }
    if (mode >= 1) a.push_back("-s");
    if (mode == 2) a.push_back("-b");
    auto r = results(run(dynamic_main, a));
    unlink(base().c_str());
    sx_assert(r.size() == 1, "one result");
    sx_assert(number(field(r[0], "cutchange")) == (uint64_t)changes, "number of changes of the minimum cut");
    sx_assert(number(field(r[0], "insert")) == (uint64_t)ins && number(field(r[0], "delete")) == (uint64_t)del, "number of updates");
    sx_assert(number(field(r[0], "n")) == (uint64_t)n, "number of vertices");
    if (changes > 1) sx_cover("changes");
}
SX_HARNESS(dyn_any3) { dynamic(3, 4, 0, false); }
SX_HARNESS(dyn_init4) { dynamic(4, 2, 0, true); }
SX_HARNESS(dyn_static3) { dynamic(3, 4, 1, false); }
SX_HARNESS(dyn_static4) { dynamic(4, 2, 2, true); }

// ---- multiterminal cut
static void multiterminal(const SymGraph& s, std::vector<int> t) {
    file(s);
    std::vector<std::string> a = {"-d", "-T", "1000000"};
    for (int x : t) { a.push_back("-t"); a.push_back(std::to_string(x)); }
    a.push_back(base());
    auto r = results(run(multiterminal_main, a));
    sx_assert(r.size() == 1, "one result");
    uint64_t v = number(field(r[0], "cut"));
    int k = t.size();
    bool lo = true, hi = false;
    std::vector<int> b(s.n, 0);
    size_t all = 1;
    for (int i = 0; i < s.n; ++i) all *= k;
    for (size_t x = 0; x < all; ++x) {
        size_t y = x;
        for (int i = 0; i < s.n; ++i) { b[i] = y % k; y /= k; }
        bool fits = true;
        for (int i = 0; i < k; ++i) fits &= b[t[i]] == i;
        if (!fits) continue;
        uint64_t c = 0;
        for (int i = 0; i < s.n; ++i) for (int j = i + 1; j < s.n; ++j) if (s.has[i][j] && b[i] != b[j]) c += s.w[i][j];
        lo &= v <= c;
        hi |= c <= v;
    }
    sx_assert(lo && hi, "the program prints the weight of a minimum multiterminal cut");
    sx_assert(number(field(r[0], "terminals")) == (uint64_t)k, "number of terminals");
    if (v > 0) sx_cover("positive");
}
static std::vector<int> terms(int n, int k) {
    std::vector<int> t, free(n);
    std::iota(free.begin(), free.end(), 0);
    for (int i = 0; i < k; ++i) { int x = pick("terminal", free.size() - 1); t.push_back(free[x]); free.erase(free.begin() + x); }
    return t;
}
SX_HARNESS(mt_any4) { auto s = anyGraph(4, 1, 2, true); multiterminal(s, terms(4, 2 + pick("k", 1))); }
SX_HARNESS(mt_five) { multiterminal(topoGraph(5, "03 04 13 14 23 24 34", 1, 2), {0, 1, 2}); }
SX_HARNESS(mt_fam) { auto s = familyGraph(7, 48, 60, 5, 1, 8); multiterminal(s, terms(7, 3)); }

// ---- cores and components
static void kcore(const SymGraph& s) {
    file(s, false);
    int k = 1 + pick("core", 2);
    unsigned in = 0, rest;
    do {   // the core: repeatedly drop vertices of smaller degree
        rest = in ? in : s.full();
        in = 0;
        for (int v = 0; v < s.n; ++v) {
            int d = 0;
            for (int u = 0; u < s.n; ++u) d += s.has[v][u] && ((rest >> u) & 1);
            if (((rest >> v) & 1) && d >= k) in |= 1u << v;
        }
    } while (in != rest && in);
    run(kcore_main, {"-k", std::to_string(k), base()});
    std::string path = base() + "_core_" + std::to_string(k);
    bool there = access(path.c_str(), F_OK) == 0;
    if (!in) { sx_assert(!there, "no core, no file"); return; }
    // largest components of the core
    std::vector<unsigned> comp;
    for (int v = 0; v < s.n; ++v) {
        if (!((in >> v) & 1)) continue;
        unsigned c = 1u << v, o = 0;
        while (c != o) { o = c; for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) if (((o >> i) & 1) && ((in >> j) & 1) && s.has[i][j]) c |= 1u << j; }
        if (!comp.empty() && __builtin_popcount(c) < __builtin_popcount(comp[0])) continue;
        if (!comp.empty() && __builtin_popcount(c) > __builtin_popcount(comp[0])) comp.clear();
        if (std::find(comp.begin(), comp.end(), c) == comp.end()) comp.push_back(c);
    }
    bool fits = false;
    graphAccessPtr G;
    if (there) G = graph_io::readGraphWeighted(path);
    for (unsigned c : comp) {
        SymGraph q;
        std::vector<int> name;
        for (int v = 0; v < s.n; ++v) if ((c >> v) & 1) name.push_back(v);
        q.n = name.size();
        for (int i = 0; i < q.n; ++i) for (int j = i + 1; j < q.n; ++j) if (s.has[name[i]][name[j]]) q.set(i, j, 1);
        uint64_t mind = 1000;
        for (int i = 0; i < q.n; ++i) mind = std::min<uint64_t>(mind, q.deg(i));
        bool small = q.n > 1 && q.mincut() < mind;
        if (small != there) continue;
        if (!there) { fits = true; continue; }
        bool same = G->number_of_nodes() == (NodeID)q.n && G->number_of_edges() == (EdgeID)2 * q.edges();
        if (!same) continue;
        // the same graph up to the numbers of its vertices
        std::vector<int> p(q.n);
        std::iota(p.begin(), p.end(), 0);
        bool iso = false;
        do {
            bool ok = true;
            for (NodeID v : G->nodes()) for (EdgeID e : G->edges_of(v)) ok = ok && q.has[p[v]][p[G->getEdgeTarget(e)]];
            iso = iso || ok;
        } while (!iso && std::next_permutation(p.begin(), p.end()));
        fits = fits || iso;
    }
    unlink(path.c_str());
    sx_assert(fits, "the core is written exactly if its minimum cut is below its minimum degree");
    if (there) sx_cover("written");
}
static SymGraph twin(int n, const char* e) { SymGraph g; g.n = n; addFixed(g, e, 1); for (int i = 0; i < n; ++i) for (int j = i + 1; j < n; ++j) if (!g.has[i][j] && (i + j) % 3 == 1 && sx_bool("edge")) g.set(i, j, 1); return g; }
SX_HARNESS(core_any5) { kcore(anyGraph(5, 1, 1)); }
SX_HARNESS(core_twin) { kcore(twin(7, "01 02 12 34 35 45 23")); }
static std::vector<unsigned> components(const SymGraph& s) {
    std::vector<unsigned> comp;
    for (int v = 0; v < s.n; ++v) {
        unsigned c = 1u << v, o = 0;
        while (c != o) { o = c; for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) if (((o >> i) & 1) && s.has[i][j]) c |= 1u << j; }
        if (!comp.empty() && __builtin_popcount(c) < __builtin_popcount(comp[0])) continue;
        if (!comp.empty() && __builtin_popcount(c) > __builtin_popcount(comp[0])) comp.clear();
        if (std::find(comp.begin(), comp.end(), c) == comp.end()) comp.push_back(c);
    }
    return comp;
}
static void largest(const SymGraph& s, bool weighted) {
    file(s);
    std::vector<std::string> a = {base()};
    if (weighted) a.insert(a.begin(), "-w");
    run(largest_main, a);
    std::string path = base() + ".cc";
    sx_assert(access(path.c_str(), F_OK) == 0, "the component is written");
    bool fits = false;
    auto comp = components(s);
    if (__builtin_popcount(comp[0]) == 1) { unlink(path.c_str()); return; }
    auto G = graph_io::readGraphWeighted(path);
    unlink(path.c_str());
    for (unsigned c : comp) {
        std::vector<int> name;
        for (int v = 0; v < s.n; ++v) if ((c >> v) & 1) name.push_back(v);
        if (G->number_of_nodes() != name.size()) continue;
        // vertices keep their order
        bool ok = true;
        size_t m = 0;
        for (size_t i = 0; i < name.size(); ++i) for (int j : name) m += s.has[name[i]][j];
        ok &= G->number_of_edges() == m;
        for (NodeID v : G->nodes())
            for (EdgeID e : G->edges_of(v)) {
                int x = name[v], y = name[sx_concrete(G->getEdgeTarget(e))];
                ok &= s.has[x][y] && G->getEdgeWeight(e) == (weighted ? s.w[x][y] : 1);
            }
        fits |= ok;
    }
    sx_assert(fits, "the written graph is a largest component");
    if (comp.size() == 1 && comp[0] != s.full()) sx_cover("part");
}
SX_HARNESS(cc_any4) { largest(anyGraph(4, 1, 2), true); }
SX_HARNESS(cc_any5) { largest(anyGraph(5, 1, 1), false); }
static void temporalLargest(int n, int updates) {
    SymGraph s;
    s.n = n;
    static unsigned char b[600];
    size_t len = 0;
    auto text = [&](const std::string& t) { for (char c : t) b[len++] = c; };
    std::vector<std::vector<int>> up;
    bool named = false;
    for (int i = 0; i < updates; ++i) {
        int e = pick("pair", n * (n - 1) / 2 - 1), x = 0, y = 0;
        for (int a = 0, c = 0; a < n; ++a) for (int d = a + 1; d < n; ++d, ++c) if (c == e) { x = a; y = d; }
        named |= y == n - 1;
        s.set(x, y, 1);
        up.push_back({x, y});
        text(std::to_string(x + 1) + " " + std::to_string(y + 1) + " +1 " + std::to_string(i + 1) + "\n");
    }
    sx_assume(named);
    sx_file_bytes(base().c_str(), b, len);
    run(temporal_main, {base()});
    auto r = numbers(base() + ".cc");
    bool fits = false;
    for (unsigned c : components(s)) {
        std::vector<int> want, id(n, 0);
        int k = 0;
        for (int v = 0; v < n; ++v) if ((c >> v) & 1) id[v] = ++k;
        for (int i = 0; i < updates; ++i)
            if (id[up[i][0]] && id[up[i][1]]) { want.push_back(id[up[i][0]]); want.push_back(id[up[i][1]]); want.push_back(1); want.push_back(i + 1); }
        fits |= want == r;
    }
    sx_assert(fits, "the updates within a largest component are written in order");
    sx_cover("written");
}
SX_HARNESS(tcc_4) { temporalLargest(4, 3); }
SX_HARNESS(tcc_6) { temporalLargest(6, 3); }
#else
SX_HARNESS(par_any4) { mincut(any4(2), "exact", EXACT, SAVE | ITER); }
SX_HARNESS(par_fam) { mincut(familyGraph(8, 32, 50, 5, 1, 9), "exact", EXACT, SAVE | ITER); }
SX_HARNESS(inex_any4) { mincut(any4(2), "inexact", SOME, SAVE); }
SX_HARNESS(inex_fam) { mincut(familyGraph(9, 32, 40, 4, 1, 9), "inexact", SOME, SAVE | ITER); }
SX_HARNESS(pcac_any4) { mincut(anyGraph(4, 1, 2, true), "cactus", EXACT, SAVE); }
SX_HARNESS(pcac_disc) { mincut(any4(2), "cactus", EXACT, SAVE); }
SX_HARNESS(pcac_fams) { mincut(familyGraph(8, 32, 40, 2, 1, 3), "cactus", EXACT, SAVE); }
SX_HARNESS(pcac_fam) { mincut(familyGraph(8, 32, 40, 2, 1, 3), "cactus", EXACT, BALANCED); }
#endif
