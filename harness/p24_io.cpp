// P24 graph, partition and cut files; P33 temporal graph files
#include <unistd.h>
#include <fstream>
#include <algorithm>
#include <iostream>
#include "vc.h"
#include "io/graph_io.h"

// a file under construction: bytes may be symbolic
struct File {
    unsigned char b[1200];
    size_t len = 0;
    int blanks = 1;        // most blanks between numbers
    bool tabs = false;
    void put(unsigned char c) { b[len++] = c; }
    void text(const char* s) { while (*s) put(*s++); }
    void num(uint64_t v) { text(std::to_string(v).c_str()); }
    uint64_t symNum(int digits) {
        uint64_t v = 0;
        for (int i = 0; i < digits; ++i) {
            uint64_t d = sx_int("digit", i || digits > 3 ? (i == 0) : 1, 9);
            v = v * 10 + d;
            put('0' + d);
        }
        return v;
    }
    void sep() {
        int k = blanks > 1 ? sx_concrete(sx_int("blanks", 1, blanks)) : 1;
        bool t = tabs && sx_bool("tab");
        for (int i = 0; i < k; ++i) put(t ? '\t' : ' ');
    }
    void write(const char* path) { sx_file_bytes(path, b, len); }
};
// one file per process: the engine runs several workers in one directory
static const char* fileName() {
    static char b[40];
    snprintf(b, sizeof b, "io.%d.graph", (int)getpid());
    return b;
}
#define FN fileName()

static bool same(const SymGraph& s, graphAccessPtr G) {
    if (G->number_of_nodes() != (NodeID)s.n || G->number_of_edges() != (EdgeID)2 * s.edges()) return false;
    bool ok = true;
    for (NodeID v : G->nodes()) {
        unsigned seen = 0;
        uint64_t d = 0;
        for (EdgeID e : G->edges_of(v)) {
            NodeID t = sx_concrete(G->getEdgeTarget(e));
            if (t >= (NodeID)s.n || !s.has[v][t] || ((seen >> t) & 1)) return false;
            seen |= 1u << t;
            ok &= G->getEdgeWeight(e) == s.w[v][t];
            d += s.w[v][t];
        }
        for (int j = 0; j < s.n; ++j) if (s.has[v][j] != (bool)((seen >> j) & 1)) return false;
        ok &= G->getWeightedNodeDegree(v) == d;
    }
    return ok;
}
static bool same(const SymGraph& s, mutableGraphPtr G) {
    if (G->number_of_nodes() != (NodeID)s.n || G->number_of_edges() != (EdgeID)2 * s.edges()) return false;
    bool ok = true;
    for (NodeID v : G->nodes()) {
        unsigned seen = 0;
        for (EdgeID e : G->edges_of(v)) {
            NodeID t = sx_concrete(G->getEdgeTarget(v, e));
            if (t >= (NodeID)s.n || !s.has[v][t] || ((seen >> t) & 1)) return false;
            seen |= 1u << t;
            ok &= G->getEdgeWeight(v, e) == s.w[v][t];
            EdgeID r = G->getReverseEdge(v, e);
            ok &= G->getEdgeTarget(t, r) == v && G->getReverseEdge(t, r) == e;
        }
        for (int j = 0; j < s.n; ++j) if (s.has[v][j] != (bool)((seen >> j) & 1)) return false;
        ok &= G->getWeightedNodeDegree(v) == s.deg(v);
        ok &= G->containedVertices(v).size() == 1 && G->containedVertices(v)[0] == v && G->getCurrentPosition(v) == v;
    }
    return ok;
}
enum { LEAD = 1, TRAIL = 2, COMMENT = 4, NONL = 8, FMT0 = 16, LOOP = 32, NODEW = 64, TABS = 128, WIDE = 256, REV = 512 };
template <class G> static void metis(SymGraph s, bool weighted, int spell, int blanks, int digits) {
    quiet();
    std::cerr.setstate(std::ios_base::badbit);
    static File f;
    f.len = 0;
    f.blanks = blanks;
    f.tabs = spell & TABS;
    // weights are written once and copied for the other direction
    unsigned char txt[MAXN][MAXN][16];
    int len[MAXN][MAXN] = {};
    if (weighted)
        for (int i = 0; i < s.n; ++i)
            for (int j = i + 1; j < s.n; ++j)
                if (s.has[i][j]) {
                    size_t at = f.len;
                    int k = digits > 3 ? digits : digits > 1 ? sx_concrete(sx_int("digits", 1, digits)) : 1;
                    uint64_t v = f.symNum(k);
                    if (digits > 3) sx_assume(v > 0);
                    for (size_t x = at; x < f.len; ++x) txt[i][j][x - at] = txt[j][i][x - at] = f.b[x];
                    len[i][j] = len[j][i] = f.len - at;
                    s.set(i, j, v);
                    f.len = at;
                }
    int loops = spell & LOOP ? sx_concrete(sx_int("loop", 0, s.n)) : 0;   // vertex loops - 1 has one
    if ((spell & COMMENT) && sx_bool("comment")) f.text("% any 1 2 3\n");
    if ((spell & LEAD) && sx_bool("lead")) f.put(' ');
    f.num(s.n);
    f.sep();
    f.num(s.edges() + (loops ? 1 : 0));
    if (spell & NODEW) { f.sep(); f.text(weighted ? "11" : "10"); }
    else if (weighted) { f.sep(); f.text(sx_bool("long") ? "001" : "1"); }
    else if ((spell & FMT0) && sx_bool("fmt")) { f.sep(); f.text("0"); }
    f.put('\n');
    for (int i = 0; i < s.n; ++i) {
        if ((spell & COMMENT) && sx_bool("comment")) f.text("%\n");
        bool first = true;
        if ((spell & LEAD) && sx_bool("lead")) f.put(' ');
        if (spell & NODEW) { f.symNum(1); first = false; }
        for (int jj = 0; jj < s.n; ++jj) {
            int j = spell & REV ? s.n - 1 - jj : jj;
            if (j == i && loops == i + 1) {
                if (!first) f.sep();
                first = false;
                f.num(i + 1);
                if (weighted) { f.sep(); f.symNum(1); }
            }
            if (!s.has[i][j]) continue;
            if (!first) f.sep();
            first = false;
            f.num(j + 1);
            if (weighted) { f.sep(); for (int x = 0; x < len[i][j]; ++x) f.put(txt[i][j][x]); }
        }
        if ((spell & TRAIL) && !first) { int t = sx_concrete(sx_int("trail", 0, 2)); for (int x = 0; x < t; ++x) f.put(' '); }
        // without edges the last line may not be empty: nothing would tell it from the end of the file
        if (i + 1 < s.n || !(spell & NONL) || first || !sx_bool("no_newline")) f.put('\n');
    }
    f.write(FN);
    auto g = graph_io::readGraphWeighted<G>(FN);
    unlink(FN);
    sx_assert(same(s, g), "the graph read is the one described by the file");
}
static SymGraph topo(int n, const char* e) { return topoGraph(n, e, 1, 1); }
SX_HARNESS(un_any3) { metis<graph_access>(anyGraph(3, 1, 1), false, FMT0 | COMMENT | NONL, 1, 1); }
SX_HARNESS(un_any4) { metis<graph_access>(anyGraph(4, 1, 1), false, NONL, 1, 1); }
SX_HARNESS(un_any4_mut) { metis<mutable_graph>(anyGraph(4, 1, 1), false, NONL, 1, 1); }
SX_HARNESS(un_blanks) { metis<graph_access>(topo(4, "01 12 13"), false, 0, 2, 1); }
SX_HARNESS(un_lead) { metis<graph_access>(topo(4, "01 12 13"), false, LEAD, 1, 1); }
SX_HARNESS(un_trail) { metis<graph_access>(topo(4, "01 12 13"), false, TRAIL | NONL, 1, 1); }
SX_HARNESS(un_tabs) { metis<graph_access>(topo(4, "01 12 13"), false, TABS, 1, 1); }
SX_HARNESS(un_comment) { metis<graph_access>(topo(5, "01 13 24"), false, COMMENT, 1, 1); }
SX_HARNESS(un_loop) { metis<graph_access>(anyGraph(3, 1, 1), false, LOOP, 1, 1); }
SX_HARNESS(un_ten) { metis<graph_access>(topo(11, "01 19 9a 0a 5a"), false, REV, 1, 1); }
SX_HARNESS(w_any3) { metis<graph_access>(anyGraph(3, 1, 1), true, NONL | COMMENT, 1, 2); }
SX_HARNESS(w_any3_mut) { metis<mutable_graph>(anyGraph(3, 1, 1), true, NONL | COMMENT, 1, 2); }
SX_HARNESS(w_any4) { metis<graph_access>(anyGraph(4, 1, 1), true, 0, 1, 1); }
SX_HARNESS(w_any4_mut) { metis<mutable_graph>(anyGraph(4, 1, 1), true, REV, 1, 1); }
SX_HARNESS(w_blanks) { metis<graph_access>(topo(3, "01 12"), true, TABS, 2, 1); }
SX_HARNESS(w_lead) { metis<graph_access>(topo(4, "01 12 13"), true, LEAD, 1, 2); }
SX_HARNESS(w_trail) { metis<graph_access>(topo(4, "01 12 13"), true, TRAIL, 1, 2); }
SX_HARNESS(w_loop) { metis<graph_access>(anyGraph(3, 1, 1), true, LOOP, 1, 1); }
SX_HARNESS(w_loop_mut) { metis<mutable_graph>(topo(4, "01 12 13"), true, LOOP, 1, 1); }
SX_HARNESS(w_wide) { metis<graph_access>(topo(3, "01 12"), true, 0, 1, 11); }
SX_HARNESS(w_wide_mut) { metis<mutable_graph>(topo(3, "01 12"), true, 0, 1, 11); }
SX_HARNESS(nw_any3) { metis<graph_access>(anyGraph(3, 1, 1), false, NODEW, 1, 1); }
SX_HARNESS(nw_w_any3) { metis<graph_access>(anyGraph(3, 1, 1), true, NODEW, 1, 1); }

// ---- what is written can be read again
static void roundtrip(SymGraph s, int kind) {
    quiet();
    std::cerr.setstate(std::ios_base::badbit);
    if (kind == 0) { graph_io::writeGraphWeighted(toAccess(s), FN); sx_assert(same(s, graph_io::readGraphWeighted(FN)), "weighted graph unchanged"); }
    if (kind == 1) { graph_io::writeGraphWeighted(toMutable(s), FN); sx_assert(same(s, graph_io::readGraphWeighted<mutable_graph>(FN)), "weighted graph unchanged"); }
    if (kind == 2) { graph_io::writeGraph(toAccess(s), FN); sx_assert(same(s, graph_io::readGraphWeighted(FN)), "unweighted graph unchanged"); }
    unlink(FN);
}
SX_HARNESS(rt_any4) { roundtrip(anyGraph(4, 1, 2), 0); }
SX_HARNESS(rt_any4_mut) { roundtrip(anyGraph(4, 1, 2), 1); }
SX_HARNESS(rt_any4_un) { roundtrip(anyGraph(4, 1, 1), 2); }
SX_HARNESS(rt_wide) { SymGraph s = topo(3, "01 12"); s.set(0, 1, 4294967290ull + sx_int("w", 0, 10)); s.set(1, 2, 18446744073709551610ull); roundtrip(s, 0); }
SX_HARNESS(rt_fam9) { roundtrip(familyGraph(9, 20, 40, 5, 1, 12), 0); }
template <class P> static void cutFile(P g, int n) {
    quiet();
    std::vector<size_t> in(n);
    for (int i = 0; i < n; ++i) { in[i] = sx_concrete(sx_int("side", 0, 1)); g->setNodeInCut(i, in[i]); }
    graph_io::writeCut(g, FN);
    auto v = graph_io::readVector<size_t>(FN);
    unlink(FN);
    sx_assert(v == in, "the cut file holds the side of every vertex");
}
SX_HARNESS(cut5) { cutFile(toAccess(topo(5, "01 12 23 34")), 5); }
SX_HARNESS(cut5_mut) { cutFile(toMutable(topo(5, "01 12 23 34")), 5); }
SX_HARNESS(vec_rt) {
    std::vector<NodeID> v;
    int n = sx_concrete(sx_int("n", 0, 3));
    for (int i = 0; i < n; ++i) v.push_back(sx_concrete(sx_int("v", 0, 2)) == 2 ? 4294967295u : (NodeID)i);
    graph_io gio;
    gio.writeVector(v, FN);
    auto r = graph_io::readVector<NodeID>(FN);
    unlink(FN);
    sx_assert(r == v, "the vector read is the one written");
}
SX_HARNESS(vec_file) {
    // hand-made file: comments, last line with or without a newline
    sx_timeout(5);
    static File f;
    f.len = 0;
    int n = sx_concrete(sx_int("n", 1, 3));
    std::vector<size_t> v;
    for (int i = 0; i < n; ++i) {
        if (sx_bool("comment")) f.text("% 7\n");
        v.push_back(sx_concrete(sx_int("v", 0, 12)));
        f.num(v.back());
        if (i + 1 < n || sx_bool("newline")) f.put('\n');
    }
    f.write(FN);
    auto r = graph_io::readVector<size_t>(FN);
    unlink(FN);
    sx_assert(r == v, "the vector read is the one in the file");
}
SX_HARNESS(flow_any4) {
    SymGraph s = anyGraph(4, 1, 1000);
    auto fg = graph_io::createFlowGraph(toAccess(s));
    bool ok = fg->number_of_nodes() == (NodeID)s.n;
    uint64_t cap[MAXN][MAXN] = {};
    int cnt[MAXN][MAXN] = {};
    for (NodeID v : fg->nodes()) {
        ok &= (uint64_t)fg->getCapacity(v) == s.deg(v);
        for (EdgeID e : fg->edges_of(v)) {
            NodeID t = fg->getEdgeTarget(v, e);
            cap[v][t] += fg->getEdgeCapacity(v, e);
            ++cnt[v][t];
            EdgeID r = fg->getReverseEdge(v, e);
            ok &= fg->getEdgeTarget(t, r) == v && fg->getReverseEdge(t, r) == e && fg->getEdgeFlow(v, e) == 0;
        }
    }
    for (int i = 0; i < s.n; ++i) for (int j = 0; j < s.n; ++j) ok &= cap[i][j] == (s.has[i][j] ? s.w[i][j] : 0) && cnt[i][j] == (s.has[i][j] ? 2 : 0);
    sx_assert(ok, "the flow graph has the capacities of the graph");
}

// ---- P33
struct Up { NodeID s, t; int64_t w; uint64_t ts; };
enum { T_COMMENT = 1, T_BLANKS = 2, T_SIGN = 4, T_PLAIN = 8, T_WGT = 16, T_TRAIL = 32, T_NONL = 64, T_LEAD = 128, T_TABS = 256, T_EQUAL = 512 };
static void temporal(int lines, int n, int spell, int tsdigits) {
    quiet();
    static File f;
    f.len = 0;
    f.blanks = spell & T_BLANKS ? 2 : 1;
    f.tabs = spell & T_TABS;
    std::vector<Up> up;
    NodeID most = 0;
    if (spell & T_COMMENT) f.text("% sym weighted\n");
    for (int i = 0; i < lines; ++i) {
        if ((spell & T_COMMENT) && sx_bool("comment")) f.text("% 1 2\n");
        if ((spell & T_LEAD) && sx_bool("lead")) f.put(' ');
        Up u;
        u.s = sx_concrete(sx_int("source", 1, n));
        u.t = sx_concrete(sx_int("target", 1, n));
        sx_assume(u.s != u.t);
        most = std::max(most, std::max(u.s, u.t));
        f.num(u.s);
        f.sep();
        f.num(u.t);
        f.sep();
        int form = 0, forms[3], k = 0;
        if (spell & T_PLAIN) forms[k++] = 0;
        if (spell & T_SIGN) forms[k++] = 1;
        if (spell & T_WGT) forms[k++] = 2;
        form = forms[k > 1 ? sx_concrete(sx_int("form", 0, k - 1)) : 0];
        u.w = 1;
        if (form == 1) { bool neg = sx_bool("minus"); f.put(neg ? '-' : '+'); u.w = f.symNum(1); if (neg) u.w = -u.w; f.sep(); }
        if (form == 2) { u.w = f.symNum(2); f.sep(); }
        if (spell & T_EQUAL) { u.ts = 1 + sx_concrete(sx_int("later", 0, 1)); f.num(u.ts); }
        else u.ts = f.symNum(tsdigits);
        if (spell & T_TRAIL) { int t = sx_concrete(sx_int("trail", 0, 2)); for (int x = 0; x < t; ++x) f.put(' '); }
        if (i + 1 < lines || !(spell & T_NONL) || !sx_bool("no_newline")) f.put('\n');
        up.push_back(u);
    }
    f.write(FN);
    auto [nv, ed] = graph_io::readTemporalGraph(FN);
    unlink(FN);
    sx_assert(nv == most, "number of vertices");
    sx_assert(ed.size() == up.size(), "one update per line");
    // order by time, then by position in the file
    std::vector<int> ord;
    for (int i = 0; i < lines; ++i) ord.push_back(i);
    for (int i = 1; i < lines; ++i)
        for (int j = i; j > 0 && up[ord[j]].ts < up[ord[j - 1]].ts; --j) std::swap(ord[j], ord[j - 1]);
    bool ok = true;
    for (int i = 0; i < lines; ++i) {
        auto [s, t, w, ts] = ed[i];
        Up& u = up[ord[i]];
        ok &= (s == u.s - 1) & (t == u.t - 1) & (w == u.w) & (ts == u.ts);
    }
    sx_assert(ok, "the updates come in order of time with their ends and weights");
}
SX_HARNESS(t_plain) { temporal(2, 3, T_PLAIN | T_COMMENT | T_NONL, 2); }
SX_HARNESS(t_sign) { temporal(2, 3, T_SIGN | T_NONL, 1); }
SX_HARNESS(t_wgt) { temporal(2, 3, T_WGT, 1); }
SX_HARNESS(t_mixed) { temporal(2, 2, T_WGT | T_SIGN | T_PLAIN, 2); }
SX_HARNESS(t_three) { temporal(3, 2, T_SIGN, 1); }
SX_HARNESS(t_blanks) { temporal(1, 2, T_SIGN | T_PLAIN | T_WGT | T_BLANKS | T_TABS, 1); }
SX_HARNESS(t_lead) { temporal(1, 3, T_SIGN | T_WGT | T_LEAD, 1); }
SX_HARNESS(t_trail) { temporal(1, 3, T_SIGN | T_PLAIN | T_WGT | T_TRAIL, 2); }
SX_HARNESS(t_wide) { temporal(1, 2, T_SIGN, 12); }
SX_HARNESS(t_many) {
    // more updates than an insertion sort handles, most at the same time
    quiet();
    static File f;
    f.len = 0;
    std::vector<uint64_t> ts;
    const int L = 18;
    for (int i = 0; i < L; ++i) {
        uint64_t t = 5;
        if (i == 3 || i == 12) t = sx_concrete(sx_int("time", 4, 6));
        ts.push_back(t);
        f.num(1); f.put(' '); f.num(2 + i); f.text(i % 2 ? " -1 " : " +1 "); f.num(t); f.put('\n');
    }
    f.write(FN);
    auto [nv, ed] = graph_io::readTemporalGraph(FN);
    unlink(FN);
    std::vector<int> ord;
    for (uint64_t t = 4; t <= 6; ++t) for (int i = 0; i < L; ++i) if (ts[i] == t) ord.push_back(i);
    bool ok = nv == (NodeID)L + 1 && ed.size() == (size_t)L;
    for (int i = 0; ok && i < L; ++i) ok &= std::get<1>(ed[i]) == (NodeID)(1 + ord[i]) && std::get<2>(ed[i]) == (ord[i] % 2 ? -1 : 1) && std::get<3>(ed[i]) == ts[ord[i]];
    sx_assert(ok, "updates of the same time keep the order of the file");
}
