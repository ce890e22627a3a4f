// P28 work queues of subproblems; P27 subproblems shipped to another worker
#include <functional>
#include <optional>
#include <variant>
#include <condition_variable>
#include <mutex>
#include <atomic>
#include <numeric>
#include <cmath>
#include <future>
#include "vc.h"
#include "algorithms/multicut/multiterminal_cut.h"
static uint64_t pick(const char* n, int hi) { return hi ? sx_concrete(sx_int(n, 0, hi)) : 0; }
static const char* QT[] = {"bound_sum", "small_graph", "few_terminals", "upper_bound", "lower_bound", "bigger_distance", "lower_distance", "most_deleted"};
struct PKey { FlowType lo, up; unsigned n, t; EdgeWeight del; };
// does a come strictly before b?
static bool before(int q, const PKey& a, const PKey& b) {
    bool lb = (a.lo < b.lo) | ((a.lo == b.lo) & (a.up < b.up));
    switch (q) {
        case 0: return a.lo + a.up < b.lo + b.up;
        case 1: return a.n < b.n;
        case 2: return (a.t < b.t) | ((a.t == b.t) & lb);
        case 3: return (a.up < b.up) | ((a.up == b.up) & (a.lo < b.lo));
        case 5: return a.up - a.lo > b.up - b.lo;
        case 6: return a.up - a.lo < b.up - b.lo;
        case 7: return a.del > b.del;
        default: return lb;
    }
}
static problemPointer make(PKey& k, int hi, bool vary) {
    auto p = std::make_shared<multicut_problem>();
    k.n = vary ? 2 + pick("n", 1) : 2;
    k.t = vary ? 2 + pick("t", 1) : 2;
    p->graph = std::make_shared<mutable_graph>();
    p->graph->start_construction(k.n);
    for (unsigned i = 0; i < k.n; ++i) p->graph->new_node();
    p->graph->finish_construction();
    for (unsigned i = 0; i < k.t; ++i) p->terminals.emplace_back(i, i);
    k.lo = sx_int("lower", 0, hi);
    k.up = k.lo + sx_int("gap", 0, hi);
    k.del = vary ? sx_int("deleted", 0, hi) : 0;
    p->lower_bound = k.lo;
    p->upper_bound = k.up;
    p->deleted_weight = k.del;
    return p;
}
// any history of adding and taking by `threads` workers, one call at a time
static void history(int threads, int q, int ops, bool vary, bool prep) {
    quiet();
    per_thread_problem_queue pq(threads, QT[q]);
    std::vector<problemPointer> all;
    std::vector<PKey> key;
    std::vector<bool> held;
    std::vector<int> where;  // sub-queue reported when it was added
    size_t cnt = 0;
    int64_t pruneBelow = INT64_MAX;
    for (int i = 0; i < ops; ++i) {
        uint64_t op = pick("op", prep ? 2 : 1);
        size_t me = pick("me", threads - 1);
        if (op == 0) {
            PKey k;
            auto p = make(k, 20, vary);
            bool local = sx_bool("local");
            size_t at = pq.addProblem(p, me, local);
            sx_assert(at < (size_t)threads, "the receiving queue exists");
            all.push_back(p);
            key.push_back(k);
            held.push_back(true);
            where.push_back(at);
            ++cnt;
        } else if (op == 1) {
            bool sending = sx_bool("sending");
            bool none = pq.empty(me) && !pq.haveASendProblem();
            bool own = !pq.empty(me) && !(sending && pq.haveASendProblem());
            auto r = pq.pullProblem(me, sending);
            sx_assert(r.has_value() == !none, "a problem is handed out when there is one");
            if (!r.has_value()) continue;
            int got = -1;
            for (size_t j = 0; j < all.size(); ++j) if (all[j] == r.value()) got = j;
            sx_assert(got >= 0 && held[got], "a problem is handed out once");
            held[got] = false;
            --cnt;
            if (own && threads == 1) {  // all but the problem set aside for sending are in this queue
                uint64_t better = 0;
                for (size_t j = 0; j < all.size(); ++j)
                    if (held[j]) better += sx_ite(before(q, key[j], key[got]), 1, 0);
                sx_assert(better <= (pq.haveASendProblem() ? 1u : 0u), "the best problem of the queue is handed out first");
                sx_cover("ordered");
            }
        } else {
            FlowType b = sx_int("bound", 0, 20);
            size_t before = pq.subqueue_size(me), tot = pq.size();
            pq.prepareQueue(me, b);
            size_t gone = before - pq.subqueue_size(me);
            sx_assert(tot - gone == pq.size(), "only the own queue is pruned");
            // pruned problems cannot beat the bound: find them by emptying later
            pruneBelow = b;
            uint64_t hopeless = 0;
            for (size_t j = 0; j < all.size(); ++j) if (held[j]) hopeless += sx_ite(key[j].lo >= b, 1, 0);
            sx_assert(gone <= hopeless, "only problems that cannot improve the bound are dropped");
            // what is left must contain every problem below the bound
            std::vector<bool> left(all.size());
            size_t n = 0;
            for (int t = 0; t < threads; ++t)
                while (true) {
                    auto r = pq.pullProblem(t, false);
                    if (!r.has_value()) break;
                    for (size_t j = 0; j < all.size(); ++j) if (all[j] == r.value()) { sx_assert(held[j] && !left[j], "a problem is handed out once"); left[j] = true; ++n; }
                }
            bool ok = true;
            for (size_t j = 0; j < all.size(); ++j) if (held[j] && !left[j]) ok &= key[j].lo >= b;
            sx_assert(ok, "a problem that can improve the bound is not dropped");
            sx_assert(pq.size() == 0 && pq.all_empty(), "the queue is empty at last");
            if (gone) sx_cover("pruned");
            return;
        }
        sx_assert(pq.size() == cnt && pq.all_empty() == (cnt == 0), "the number of waiting problems is right");
    }
    for (int t = 0; t < threads; ++t)
        while (true) {
            auto r = pq.pullProblem(t, sx_concrete(sx_bool("sending")));
            if (!r.has_value()) break;
            int got = -1;
            for (size_t j = 0; j < all.size(); ++j) if (all[j] == r.value()) got = j;
            sx_assert(got >= 0 && held[got], "a problem is handed out once");
            held[got] = false;
            --cnt;
        }
    for (size_t j = 0; j < all.size(); ++j) sx_assert(!held[j], "no problem is lost");
    sx_assert(pq.size() == 0, "the queue is empty at last");
    sx_cover("drained");
}
// workers that add and take at the same time
struct Conc {
    per_thread_problem_queue* q;
    std::vector<std::vector<int>> todo;          // 1 add, 2 add locally, 3 take, 4 take for sending
    std::vector<std::vector<problemPointer>> in, out;
    static void go(void* a, int t) {
        Conc& c = *(Conc*)a;
        size_t next = 0;
        for (int o : c.todo[t]) {
            if (o <= 2) { c.q->addProblem(c.in[t][next++], t, o == 2); }
            else {
                auto r = c.q->pullProblem(t, o == 4);
                if (r.has_value()) c.out[t].push_back(r.value());
            }
        }
    }
};
// a: add anywhere, l: add locally, t: take, s: take for sending; one word per worker
static void concurrent(std::vector<const char*> progs, int preempt, int first) {
    quiet();
    sx_timeout(15);
    int threads = progs.size();
    per_thread_problem_queue pq(threads, "lower_bound");
    Conc c;
    c.q = &pq;
    std::vector<problemPointer> all;
    auto mk = [&] {
        auto p = std::make_shared<multicut_problem>();
        p->lower_bound = sx_int("lower", 1, 3);
        p->upper_bound = 9;
        all.push_back(p);
        return p;
    };
    for (int i = 0; i < first; ++i) pq.addProblem(mk(), i % threads, false);
    c.todo.resize(threads);
    c.in.resize(threads);
    c.out.resize(threads);
    for (int t = 0; t < threads; ++t)
        for (const char* o = progs[t]; *o; ++o) {
            int k = *o == 'a' ? 1 : *o == 'l' ? 2 : *o == 't' ? 3 : 4;
            c.todo[t].push_back(k);
            if (k <= 2) c.in[t].push_back(mk());
        }
    sx_threads(threads, preempt, &Conc::go, &c);
    std::vector<problemPointer> got;
    for (auto& v : c.out) for (auto& p : v) got.push_back(p);
    sx_assert(pq.size() == all.size() - got.size(), "the number of waiting problems is right after concurrent use");
    for (int t = 0; t < threads; ++t)
        while (true) {
            auto r = pq.pullProblem(t, false);
            if (!r.has_value()) break;
            got.push_back(r.value());
        }
    for (auto& p : all) {
        int k = 0;
        for (auto& g : got) k += g == p;
        sx_assert(k <= 1, "a problem is handed out once");
        sx_assert(k == 1, "no problem is lost");
    }
    sx_assert(got.size() == all.size(), "only added problems are handed out");
    sx_cover("concurrent");
}
SX_HARNESS(hist1_lower) { history(1, 4, 5, false, false); }
SX_HARNESS(hist1_any) { history(1, pick("queue", 7), 4, true, false); }
SX_HARNESS(hist2_lower) { history(2, 4, 4, false, false); }
SX_HARNESS(hist2_any) { history(2, pick("queue", 7), 3, true, false); }
SX_HARNESS(hist3_lower) { history(3, 4, 4, false, false); }
SX_HARNESS(prune1) { history(1, 4, 4, false, true); }
SX_HARNESS(prune2) { history(2, 4, 4, false, true); }
SX_HARNESS(conc_add) { concurrent({"l", "l"}, 3, 0); }
SX_HARNESS(conc_add2) { concurrent({"ll", "a"}, 3, 0); }
SX_HARNESS(conc_add3) { concurrent({"l", "l"}, 3, 2); }
SX_HARNESS(conc_addtake) { concurrent({"lt", "lt"}, 2, 0); }
SX_HARNESS(conc_addtake1) { concurrent({"lt", "at"}, 2, 1); }
SX_HARNESS(conc_take) { concurrent({"t", "t"}, 3, 1); }
SX_HARNESS(conc_take3) { concurrent({"tt", "st"}, 3, 3); }
SX_HARNESS(conc_send) { concurrent({"sl", "ts"}, 2, 2); }
SX_HARNESS(conc_swap) { concurrent({"l", "t"}, 4, 2); }
SX_HARNESS(conc_swap2) { concurrent({"a", "s"}, 4, 2); }
SX_HARNESS(conc3) { concurrent({"l", "l", "t"}, 2, 1); }
SX_HARNESS(conc3_mix) { concurrent({"l", "a", "s"}, 2, 2); }
// ---- P27
static bool sameGraph(mutableGraphPtr A, mutableGraphPtr B, int orig) {
    if (A->n() != B->n() || A->m() != B->m()) return false;
    bool ok = true;
    for (NodeID v = 0; v < A->n(); ++v) {
        if (A->get_first_invalid_edge(v) != B->get_first_invalid_edge(v)) return false;
        for (EdgeID e : A->edges_of(v)) {
            // the order of the edges may differ; look the target up
            NodeID t = A->getEdgeTarget(v, e);
            uint64_t a = 0, b = 0;
            for (EdgeID f : A->edges_of(v)) if (A->getEdgeTarget(v, f) == t) a += A->getEdgeWeight(v, f);
            for (EdgeID f : B->edges_of(v)) if (B->getEdgeTarget(v, f) == t) b += B->getEdgeWeight(v, f);
            ok &= a == b;
        }
        ok &= A->getWeightedNodeDegree(v) == B->getWeightedNodeDegree(v);
        unsigned x = 0, y = 0;
        for (auto c : A->containedVertices(v)) x |= 1u << c;
        for (auto c : B->containedVertices(v)) y |= 1u << c;
        if (x != y) return false;
    }
    for (int i = 0; i < orig; ++i) if (A->getCurrentPosition(i) != B->getCurrentPosition(i)) return false;
    return ok;
}
static void ship(const SymGraph& s, int contractions, int deletions, int maps, int terms) {
    quiet();
    auto p = std::make_shared<multicut_problem>();
    p->graph = toMutable(s);
    int n0 = s.n;
    for (int i = 0; i < contractions; ++i) {
        if (p->graph->m() == 0) break;
        std::vector<std::pair<NodeID, EdgeID>> es;
        for (NodeID v : p->graph->nodes()) for (EdgeID e : p->graph->edges_of(v)) es.push_back({v, e});
        auto [v, e] = es[pick("contract", es.size() - 1)];
        p->graph->contractEdge(v, e);
    }
    for (int i = 0; i < deletions; ++i) {
        if (p->graph->m() == 0) break;
        std::vector<std::pair<NodeID, EdgeID>> es;
        for (NodeID v : p->graph->nodes()) for (EdgeID e : p->graph->edges_of(v)) es.push_back({v, e});
        auto [v, e] = es[pick("delete", es.size() - 1)];
        p->graph->deleteEdge(v, e);
    }
    for (int t = 0; t < terms; ++t)
        p->terminals.emplace_back(pick("position", p->graph->n() - 1), pick("original", 3), sx_concrete(sx_bool("invalid")));
    p->lower_bound = sx_int("lower", 0, 1000000000000ll);
    p->upper_bound = sx_int("upper", 0, INT64_MAX);
    p->deleted_weight = sx_int("deleted", 0, 1000000000000ll);
    p->priority_edge = {UNDEFINED_NODE, UNDEFINED_EDGE};
    unsigned from = n0 + 2;
    for (int i = 0; i < maps; ++i) {
        auto m = std::make_shared<std::vector<NodeID>>();
        for (unsigned v = 0; v < from; ++v) m->push_back(sx_int("map", 0, i + 1 == maps ? n0 - 1 : from - 2));
        p->mappings.push_back(m);
        --from;
    }
    sxmpi::size() = 3;
    sxmpi::rank() = 0;
    mpi_communication a;
    sxmpi::rank() = 2;
    mpi_communication b;
    sxmpi::rank() = 0;
    int tgt = 2;
    if (sx_bool("ask")) {  // the receiver asks first
        sxmpi::rank() = 2;
        MessageStatus need = needProblem;
        MPI_Send(&need, 1, MPI_INT, 0, 3000, MPI_COMM_WORLD);
        sxmpi::rank() = 0;
        auto r = a.checkForReceiver();
        sx_assert(r.has_value() && r.value() == 2, "the worker that asked is found");
        sxmpi::rank() = 2;
        int ms = -1;
        MPI_Recv(&ms, 1, MPI_INT, 0, 3000, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
        sx_assert(ms == haveProblem, "the worker that asked gets an answer");
        sxmpi::rank() = 0;
    } else {
        sx_assert(!a.checkForReceiver().has_value(), "nobody is found if nobody asked");
    }
    a.sendProblem(p, tgt);
    sxmpi::rank() = 2;
    auto q = b.recvProblem(0);
    sx_assert(sxmpi::box().empty(), "all messages are received");
    sx_assert(q->lower_bound == p->lower_bound && q->upper_bound == p->upper_bound, "the bounds arrive");
    sx_assert(q->deleted_weight == p->deleted_weight, "the deleted weight arrives");
    sx_assert(q->terminals.size() == p->terminals.size(), "the terminals arrive");
    for (size_t i = 0; i < p->terminals.size(); ++i) {
        sx_assert(q->terminals[i].position == p->terminals[i].position && q->terminals[i].original_id == p->terminals[i].original_id, "the terminals arrive");
        sx_assert(q->terminals[i].invalid_flow || !p->terminals[i].invalid_flow, "a flow is not taken as valid by mistake");
    }
    sx_assert(q->priority_edge == p->priority_edge, "the edge to branch on arrives");
    sx_assert(q->mappings.size() == p->mappings.size(), "the vertex mappings arrive");
    bool ok = true;
    for (size_t i = 0; i < p->mappings.size(); ++i) {
        sx_assert(q->mappings[i]->size() == p->mappings[i]->size(), "the vertex mappings arrive");
        for (size_t j = 0; j < p->mappings[i]->size(); ++j) ok &= (*q->mappings[i])[j] == (*p->mappings[i])[j];
    }
    sx_assert(ok, "the vertex mappings arrive");
    sx_assert(sameGraph(p->graph, q->graph, n0), "the graph arrives");
    sx_assert(sameGraph(q->graph, p->graph, n0), "the graph arrives");
    if (p->graph->n() < (NodeID)n0) sx_cover("contracted");
    if (!p->mappings.empty()) sx_cover("mapped");
}
// bounds found by one worker reach the others, and only improvements count
static void bounds(int k) {
    quiet();
    sxmpi::size() = 3;
    std::vector<mpi_communication> w;
    for (int r = 0; r < 3; ++r) { sxmpi::rank() = r; w.emplace_back(); }
    std::vector<FlowType> best(3, UNDEFINED_NODE), mine(3, UNDEFINED_NODE);
    FlowType all = UNDEFINED_NODE;
    for (int i = 0; i < k; ++i) {
        int r = pick("worker", 2);
        sxmpi::rank() = r;
        FlowType f = sx_int("solution", 0, 1000000);
        w[r].broadcastImprovedSolution(f);
        all = f < all ? f : all;
        if (sx_bool("poll")) { sxmpi::rank() = r = pick("worker", 2); w[r].getGlobalBestSolution(); }
    }
    bool ok = true;
    int local = 0;
    for (int r = 0; r < 3; ++r) {
        sxmpi::rank() = r;
        ok &= w[r].getGlobalBestSolution() == all;
        local += w[r].bestSolutionIsLocal();
    }
    sx_assert(ok, "every worker knows the best bound after polling");
    sx_assert(local >= 1, "some worker holds the best solution");
    sx_cover("bound");
}
SX_HARNESS(ship_any3) { ship(anyGraph(3, 1, 1000), 1, 0, 0, 2); }
SX_HARNESS(ship_any4) { ship(anyGraph(4, 1, 100), 1, 0, 0, 2); }
SX_HARNESS(ship_any4_maps) { ship(anyGraph(4, 1, 3, true), 1, 0, 2, 2); }
SX_HARNESS(ship_ops5) { ship(topoGraph(5, "01 12 23 34 40 02 13", 1, 9), 2, 1, 1, 3); }
SX_HARNESS(ship_wide) { ship(topoGraph(4, "01 12 23 30 02", 1, 4000000000ll), 1, 0, 1, 2); }
SX_HARNESS(ship_fam8) { ship(familyGraph(8, 30, 40, 5, 3, 30), 2, 1, 1, 3); }
SX_HARNESS(bounds3) { bounds(3); }
SX_HARNESS(bounds4) { bounds(4); }
