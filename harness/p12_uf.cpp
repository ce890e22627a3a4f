// P12 union-find (sequential, and the concurrent one used by one thread)
#include "vc.h"
#ifdef PARALLEL
#include "parallel/data_structure/union_find.h"
#else
#include "data_structure/union_find.h"
#endif
struct Part {
    int n, id[8];
    explicit Part(int k) : n(k) { for (int i = 0; i < k; ++i) id[i] = i; }
    bool join(int a, int b) {
        if (id[a] == id[b]) return false;
        int o = id[b];
        for (int i = 0; i < n; ++i) if (id[i] == o) id[i] = id[a];
        return true;
    }
    unsigned sets() const { unsigned c = 0; for (int i = 0; i < n; ++i) { bool f = true; for (int j = 0; j < i; ++j) f &= id[j] != id[i]; c += f; } return c; }
};
static void check(union_find& uf, const Part& p) {
    sx_assert(uf.n() == p.sets(), "number of sets");
    for (int i = 0; i < p.n; ++i) {
        sx_assert(uf.Find(i) < (unsigned)p.n && uf.Find(uf.Find(i)) == uf.Find(i), "representative is its own representative");
        for (int j = 0; j < i; ++j) {
            sx_assert((uf.Find(i) == uf.Find(j)) == (p.id[i] == p.id[j]), "same representative exactly when connected");
#ifdef PARALLEL
            sx_assert(uf.SameSet(i, j) == (p.id[i] == p.id[j]), "SameSet exactly when connected");
#endif
        }
    }
}
static void run(int n, int ops, bool checkEach) {
    union_find uf(n);
    Part p(n);
    check(uf, p);
    for (int k = 0; k < ops; ++k) {
        unsigned a = sx_int("a", 0, n - 1), b = sx_int("b", 0, n - 1);
        bool r = uf.Union(a, b);
        bool e = p.join(sx_concrete(a), sx_concrete(b));
        sx_assert(r == e, "Union reports whether it merged two sets");
        if (e) sx_cover("merged"); else sx_cover("noop");
        if (checkEach) check(uf, p);
    }
    check(uf, p);
}
SX_HARNESS(uf4_3) { run(4, 3, true); }
SX_HARNESS(uf4_4) { run(4, 4, false); }
SX_HARNESS(uf5_3) { run(5, 3, false); }
SX_HARNESS(uf3_5) { run(3, 5, true); }
SX_HARNESS(uf6_4) { run(6, 4, false); }
