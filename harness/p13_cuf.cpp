// P13 concurrent union-find under every interleaving
#include "vc.h"
#include "parallel/data_structure/union_find.h"
struct Part {
    int n, id[8];
    explicit Part(int k) : n(k) { for (int i = 0; i < k; ++i) id[i] = i; }
    void join(int a, int b) { int x = id[a], o = id[b]; for (int i = 0; i < n; ++i) if (id[i] == o) id[i] = x; }
    int sets() const { int c = 0; for (int i = 0; i < n; ++i) { bool f = true; for (int j = 0; j < i; ++j) f &= id[j] != id[i]; c += f; } return c; }
};
struct Op { int kind, a, b; };   // 0 union, 1 find, 2 same set
struct Job {
    union_find* uf;
    std::vector<std::vector<Op>> ops;
    std::vector<std::vector<int>> res;
    static void go(void* p, int t) {
        Job* j = (Job*)p;
        for (auto& o : j->ops[t]) {
            int r = 0;
            if (o.kind == 0) r = j->uf->Union(o.a, o.b);
            else if (o.kind == 1) r = j->uf->Find(o.a);
            else r = j->uf->SameSet(o.a, o.b);
            j->res[t].push_back(r);
        }
    }
};
static Op anyOp(int n, bool q) {
    Op o;
    o.kind = q ? (int)sx_concrete(sx_int("kind", 0, 2)) : 0;
    o.a = sx_concrete(sx_int("a", 0, n - 1));
    o.b = o.kind == 1 ? o.a : (int)sx_concrete(sx_int("b", 0, n - 1));
    if (o.kind != 1) sx_assume(o.a != o.b);
    return o;
}
static void run(int n, std::vector<int> lens, int preempt, bool queries, int pre) {
    sx_timeout(10);
    union_find uf(n);
    Part start(n);
    for (int i = 0; i < pre; ++i) { Op o = anyOp(n, false); uf.Union(o.a, o.b); start.join(o.a, o.b); }
    Job j;
    j.uf = &uf;
    Part end = start;
    for (int l : lens) {
        j.ops.emplace_back();
        j.res.emplace_back();
        for (int i = 0; i < l; ++i) {
            Op o = anyOp(n, queries);
            j.ops.back().push_back(o);
            if (o.kind == 0) end.join(o.a, o.b);
        }
    }
    sx_threads(lens.size(), preempt, &Job::go, &j);
    int ok = 0;
    for (size_t t = 0; t < lens.size(); ++t) {
        Part own = start;                      // what this thread alone guarantees
        for (size_t i = 0; i < j.ops[t].size(); ++i) {
            Op o = j.ops[t][i];
            int r = j.res[t][i];
            if (o.kind == 0) { own.join(o.a, o.b); ok += r; if (!r) sx_assert(end.id[o.a] == end.id[o.b], "a refused union was already connected"); }
            else if (o.kind == 1) sx_assert(r >= 0 && r < n && end.id[r] == end.id[o.a], "Find stays inside the set");
            else {
                if (r) sx_assert(end.id[o.a] == end.id[o.b], "SameSet true only for elements some union connects");
                else sx_assert(own.id[o.a] != own.id[o.b], "SameSet false only when the caller has not itself connected them");
            }
        }
    }
    sx_assert(start.sets() - ok == end.sets(), "exactly the effective unions report success");
    sx_assert(uf.n() == (unsigned)end.sets(), "number of sets is that of the closure");
    for (int a = 0; a < n; ++a)
        for (int b = 0; b < a; ++b)
            sx_assert((uf.Find(a) == uf.Find(b)) == (end.id[a] == end.id[b]), "final partition is the closure of all unions");
    if (end.sets() < n) sx_cover("merged");
}
SX_HARNESS(t2_n3_11) { run(3, {1, 1}, 3, false, 0); }
SX_HARNESS(t2_n3_12) { run(3, {1, 2}, 2, false, 0); }
SX_HARNESS(t2_n3_22) { run(3, {2, 2}, 1, false, 0); }
SX_HARNESS(t2_n3_22p2) { run(3, {2, 2}, 2, false, 0); }
SX_HARNESS(t2_n4_12) { run(4, {1, 2}, 1, false, 0); }
SX_HARNESS(t3_n3_111) { run(3, {1, 1, 1}, 2, false, 0); }
SX_HARNESS(t2_pre_q) { run(3, {1, 1}, 2, true, 1); }
SX_HARNESS(t2_pre2) { run(4, {1, 1}, 2, false, 2); }
SX_HARNESS(t2_q12) { run(3, {1, 2}, 1, true, 0); }
