// P11 priority queues
#include <map>
#include "vc.h"
#include "data_structure/priority_queues/bucket_pq.h"
#include "data_structure/priority_queues/fifo_node_bucket_pq.h"
#include "data_structure/priority_queues/maxNodeHeap.h"
#include "data_structure/priority_queues/node_bucket_pq.h"
#include "data_structure/priority_queues/vecMaxNodeHeap.h"

struct Model {
    int n;
    bool in[8] = {};
    uint64_t key[8] = {};
    unsigned size() const { unsigned c = 0; for (int i = 0; i < n; ++i) c += in[i]; return c; }
    bool isMax(uint64_t k) const {   // k is at least every key in the queue
        bool ok = true;
        for (int i = 0; i < n; ++i) if (in[i]) ok &= key[i] <= k;
        return ok;
    }
};
static void check(priority_queue_interface& q, const Model& m) {
    sx_assert(q.size() == m.size(), "size");
    sx_assert(q.empty() == (m.size() == 0), "empty");
    bool ok = true;
    for (int i = 0; i < m.n; ++i) {
        sx_assert(q.contains(i) == m.in[i], "contains");
        if (m.in[i]) ok &= q.getKey(i) == m.key[i];
    }
    sx_assert(ok, "keys are the current keys");
    if (m.size()) {
        NodeID x = q.maxElement();
        sx_assert(x < (unsigned)m.n && m.in[x], "maximum element is in the queue");
        sx_assert(m.isMax(m.key[x]), "maximum element has a maximum key");
        sx_assert(q.maxValue() == m.key[x], "maximum value is the key of the maximum element");
    }
}
static uint64_t anyKey(uint64_t hi) { return sx_int("key", 0, hi); }
static int pick(const char* name, int n) { return (int)sx_concrete(sx_int(name, 0, n - 1)); }
static void extract(priority_queue_interface& q, Model& m) {
    NodeID x = q.deleteMax();
    sx_assert(x < (unsigned)m.n && m.in[x], "extracted element was in the queue");
    sx_assert(m.isMax(m.key[x]), "extracted element has a maximum key");
    m.in[x] = false;
    sx_cover("extract");
}
static void step(priority_queue_interface& q, Model& m, uint64_t hi, bool peek) {
    int node = pick("node", m.n);
    if (!m.in[node]) {
        uint64_t k = anyKey(hi);
        q.insert(node, k);
        m.in[node] = true;
        m.key[node] = k;
        sx_cover("insert");
    } else {
        switch (pick("op", 5)) {
        case 0: { uint64_t k = anyKey(hi); q.changeKey(node, k); m.key[node] = k; sx_cover("change"); break; }
        case 1: { uint64_t k = anyKey(hi); sx_assume(k >= m.key[node]); q.increaseKey(node, k); m.key[node] = k; break; }
        case 2: { uint64_t k = anyKey(hi); sx_assume(k <= m.key[node]); q.decreaseKey(node, k); m.key[node] = k; break; }
        case 3: q.deleteNode(node); m.in[node] = false; sx_cover("delete"); break;
        default: extract(q, m);
        }
    }
    check(q, m);
}
static void drain(priority_queue_interface& q, Model& m) {
    while (m.size()) extract(q, m);
    sx_assert(q.empty() && q.size() == 0, "drained queue is empty");
}
static void seq(priority_queue_interface& q, int n, int steps, uint64_t hi) {
    Model m;
    m.n = n;
    check(q, m);
    for (int i = 0; i < steps; ++i) step(q, m, hi, true);
    drain(q, m);
}
// n inserts, then k arbitrary steps on the full queue, then drain
static void full(priority_queue_interface& q, int n, int steps, uint64_t hi) {
    Model m;
    m.n = n;
    for (int i = 0; i < n; ++i) { uint64_t k = anyKey(hi); q.insert(i, k); m.in[i] = true; m.key[i] = k; }
    check(q, m);
    for (int i = 0; i < steps; ++i) step(q, m, hi, false);
    drain(q, m);
}
// n elements whose keys are in heap order by insertion (no moves while building), one arbitrary step, drained
template <class Q> static void tree(Q& q, int n, uint64_t hi, int drainTo = 0) {
    Model m;
    m.n = n;
    for (int i = 0; i < n; ++i) {
        uint64_t k = anyKey(hi);
        if (i) sx_assume(k < m.key[(i - 1) / 2]);
        q.insert(i, k);
        m.in[i] = true;
        m.key[i] = k;
    }
    int node = pick("node", n);
    uint64_t k = anyKey(hi);
    switch (pick("op", 4)) {
    case 0: q.changeKey(node, k); m.key[node] = k; break;
    case 1: sx_assume(k >= m.key[node]); q.increaseKey(node, k); m.key[node] = k; break;
    case 2: sx_assume(k <= m.key[node]); q.decreaseKey(node, k); m.key[node] = k; break;
    default: q.deleteNode(node); m.in[node] = false;
    }
    check(q, m);
    while (m.size() > (unsigned)drainTo) extract(q, m);
    check(q, m);
}
static const uint64_t BIG = 20000000000ull;
SX_HARNESS(heap_seq) { maxNodeHeap q; seq(q, 3, 4, BIG); }
SX_HARNESS(heap_full) { maxNodeHeap q; full(q, 5, 1, BIG); }
SX_HARNESS(heap_full2) { maxNodeHeap q; full(q, 4, 2, BIG); }
SX_HARNESS(vecheap_seq) { vecMaxNodeHeap q(3); seq(q, 3, 4, BIG); }
SX_HARNESS(vecheap_full) { vecMaxNodeHeap q(5); full(q, 5, 1, BIG); }
SX_HARNESS(vecheap_full2) { vecMaxNodeHeap q(4); full(q, 4, 2, BIG); }
SX_HARNESS(fifo_seq) { fifo_node_bucket_pq q(3, 2); seq(q, 3, 4, 2); }
SX_HARNESS(fifo_full) { fifo_node_bucket_pq q(4, 1); full(q, 4, 2, 1); }
SX_HARNESS(fifo_full3) { fifo_node_bucket_pq q(3, 1); full(q, 3, 3, 1); }
SX_HARNESS(stack_seq) { node_bucket_pq q(3, 2); seq(q, 3, 4, 2); }
SX_HARNESS(stack_full) { node_bucket_pq q(4, 1); full(q, 4, 2, 1); }
SX_HARNESS(stack_full3) { node_bucket_pq q(3, 1); full(q, 3, 3, 1); }
SX_HARNESS(bucket_seq) { bucket_pq q(2); seq(q, 3, 4, 2); }
SX_HARNESS(bucket_full) { bucket_pq q(1); full(q, 4, 2, 1); }
SX_HARNESS(bucket_full3) { bucket_pq q(1); full(q, 3, 3, 1); }
SX_HARNESS(heap_tree6) { maxNodeHeap q; tree(q, 6, BIG, 1); }
SX_HARNESS(vecheap_tree6) { vecMaxNodeHeap q(6); tree(q, 6, BIG, 1); }
SX_HARNESS(heap_tree7) { maxNodeHeap q; tree(q, 7, BIG, 3); }
SX_HARNESS(vecheap_tree7) { vecMaxNodeHeap q(7); tree(q, 7, BIG, 3); }
SX_HARNESS(heap_tree8) { maxNodeHeap q; tree(q, 8, BIG, 4); }
SX_HARNESS(vecheap_tree8) { vecMaxNodeHeap q(8); tree(q, 8, BIG, 4); }
SX_HARNESS(fifo_five) { fifo_node_bucket_pq q(5, 1); full(q, 5, 2, 1); }
SX_HARNESS(stack_five) { node_bucket_pq q(5, 1); full(q, 5, 2, 1); }
SX_HARNESS(bucket_five) { bucket_pq q(1); full(q, 5, 2, 1); }
