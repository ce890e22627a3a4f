// Cooperative threads under a scheduler whose decisions are symbolic inputs.
// Shared by the symbolic runtime and the native replay runtime.  The includer
// provides  uint64_t sched_choose(const char* name, int n)  (value in [0,n))
// and       [[noreturn]] void sched_fail(const char* status, const char* msg).
#pragma once
#include <cxxabi.h>
#include <errno.h>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <pthread.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <vector>

namespace sxs {
struct Team;
struct Fiber {
    ucontext_t ctx;
    void* stack = nullptr;
    std::function<void()> fn;
    std::function<bool()> blocked;  // set: waits until it returns false
    bool done = false;
    bool started = false;
    Team* team = nullptr;
    int tid = 0;
    int loopSeq = 0;
    int singleSeq = 0;
};
struct Loop { int64_t lo, hi, st, chunk, next; bool init = false; };
struct Team {
    int n = 1;
    int arrived = 0;
    int generation = 0;
    std::map<int, Loop> loops;
    std::map<int, bool> singles;
};
static std::vector<Fiber*> fibers;  // 0 = main
static int cur = 0;
static int preemptLeft = 0;
static int ompThreads = 1;
static bool ompBounds = false;
static int ompPreempt = 0;
static int nextNum = 0;
static int atomicDepth = 0;  // > 0: no preemption
static bool active = false;  // scheduling points switch
static uint64_t sinceSwitch = 0;
static uint64_t nSwitch = 0, nPoints = 0;
static std::map<void*, int> owner;  // mutex -> fiber
static std::map<void*, int> cvGen;

static void ensureMain() {
    if (fibers.empty()) { fibers.push_back(new Fiber()); cur = 0; }
}
static void switchTo(int t) {
    if (t == cur) return;
    int me = cur;
    cur = t;
    ++nSwitch;
    sinceSwitch = 0;
    // what is per thread in the C++ library: the callable of call_once, exceptions in flight
    void* oc = std::__once_callable;
    void (*of)() = std::__once_call;
    uint64_t* eh = (uint64_t*)abi::__cxa_get_globals();
    uint64_t e0 = eh[0], e1 = eh[1];
    if (!fibers[t]->started) { fibers[t]->started = true; eh[0] = eh[1] = 0; }
    swapcontext(&fibers[me]->ctx, &fibers[t]->ctx);
    std::__once_callable = oc;
    std::__once_call = of;
    eh[0] = e0;
    eh[1] = e1;
}
static bool ready(int i) {
    Fiber* f = fibers[i];
    if (f->done) return false;
    if (f->blocked && f->blocked()) return false;
    return true;
}
// current fiber cannot go on: run somebody else
static void pickOther() {
    std::vector<int> r;
    for (size_t i = 0; i < fibers.size(); ++i)
        if (ready(i)) r.push_back(i);
    if (r.empty()) sched_fail("deadlock", "no thread can make progress");
    int k = r.size() == 1 ? 0 : (int)sched_choose("next", r.size());
    switchTo(r[k]);
}
static void blockUntil(std::function<bool()> isBlocked) {
    ensureMain();
    while (isBlocked()) {
        fibers[cur]->blocked = isBlocked;
        pickOther();
    }
    fibers[cur]->blocked = nullptr;
}
static void entry() {
    Fiber* f = fibers[cur];
    f->fn();
    f->done = true;
    pickOther();
}
static int spawn(std::function<void()> fn) {
    ensureMain();
    __libc_single_threaded = 0;  // reference counts are updated atomically
    Fiber* f = new Fiber();
    f->fn = std::move(fn);
    size_t sz = 1 << 20;
    f->stack = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    getcontext(&f->ctx);
    f->ctx.uc_stack.ss_sp = f->stack;
    f->ctx.uc_stack.ss_size = sz;
    f->ctx.uc_link = nullptr;
    makecontext(&f->ctx, (void (*)())entry, 0);
    fibers.push_back(f);
    return fibers.size() - 1;
}
static void voluntary();
// scheduling point with the possibility of a preemption
static void point() {
    if (!active || atomicDepth || fibers.size() < 2) return;
    ++nPoints;
    if (++sinceSwitch > 20000) {  // fairness: nobody spins forever while others could go on
        voluntary();
        sinceSwitch = 0;
        return;
    }
    if (preemptLeft <= 0) return;
    std::vector<int> r;
    r.push_back(cur);
    for (size_t i = 0; i < fibers.size(); ++i)
        if ((int)i != cur && ready(i)) r.push_back(i);
    if (r.size() < 2) return;
    int k = (int)sched_choose("sched", r.size());
    if (k == 0) return;
    --preemptLeft;
    switchTo(r[k]);
}
// voluntary yield (sleep, sched_yield): anybody ready may continue
static void voluntary() {
    if (fibers.size() < 2) return;
    std::vector<int> r;
    for (size_t i = 0; i < fibers.size(); ++i)
        if ((int)i != cur && ready(i)) r.push_back(i);
    if (r.empty()) return;
    switchTo(r[r.size() == 1 ? 0 : (int)sched_choose("next", r.size())]);
}
static void runTeam(int n, int preempt, std::function<void(int)> fn) {
    ensureMain();
    Team* t = new Team();
    t->n = n;
    bool oa = active;
    int op = preemptLeft;
    Fiber* me = fibers[cur];
    Team* ot = me->team;
    int otid = me->tid, ols = me->loopSeq, oss = me->singleSeq;
    std::vector<int> ids;
    for (int i = 1; i < n; ++i) {
        int id = spawn([fn, i]() { fn(i); });
        fibers[id]->team = t;
        fibers[id]->tid = i;
        ids.push_back(id);
    }
    me->team = t; me->tid = 0; me->loopSeq = 0; me->singleSeq = 0;
    active = true;
    preemptLeft = preempt;
    if (n > 1 && preempt > 0) {  // any thread may start
        int k = (int)sched_choose("start", n);
        if (k) switchTo(ids[k - 1]);
    }
    fn(0);
    blockUntil([&]() { for (int id : ids) if (!fibers[id]->done) return true; return false; });
    active = oa;
    preemptLeft = op;
    me->team = ot; me->tid = otid; me->loopSeq = ols; me->singleSeq = oss;
    while (fibers.size() > 1 && fibers.back()->done && (int)fibers.size() - 1 != cur) {
        munmap(fibers.back()->stack, 1 << 20);
        delete fibers.back();
        fibers.pop_back();
    }
}
static void lock(void* m) {
    ensureMain();
    point();
    blockUntil([m]() { auto it = owner.find(m); return it != owner.end() && it->second >= 0; });
    owner[m] = cur;
}
static void unlock(void* m) { owner[m] = -1; point(); }
}  // namespace sxs

extern "C" {
void __sx_yield(void*, uint32_t) { sxs::point(); }
void sx_sched() { sxs::point(); }
void sx_atomic(int on) { if (on) { sxs::point(); ++sxs::atomicDepth; } else --sxs::atomicDepth; }
void sx_threads(int n, int preempt, void (*fn)(void*, int), void* arg) {
    sxs::runTeam(n, preempt, [fn, arg](int i) { fn(arg, i); });
}
void sx_preempt(int n) { sxs::preemptLeft = n; }
void sx_omp_bounds(int on) { sxs::ompBounds = on; }
void sx_omp(int threads, int preempt) { sxs::ompThreads = threads; sxs::ompPreempt = preempt; }

// ---- std::thread / mutex / condition variable (calls renamed by the pass)
struct SxState { virtual ~SxState(); virtual void run() = 0; };
void sx_thread_start(uint64_t* self, SxState** st, void (*)()) {
    SxState* s = *st;
    *st = nullptr;
    // std::thread::_State: vtable = {~D1, ~D0, _M_run}
    int id = sxs::spawn([s]() { s->run(); });
    sxs::active = true;
    *self = (uint64_t)id + 1;
}
__attribute__((aligned(16))) void sx_thread_join(uint64_t* self) {  // its address is used in member pointers
    int id = (int)*self - 1;
    sxs::blockUntil([id]() { return !sxs::fibers[id]->done; });
    *self = 0;
}
// 0: never called, 1: running, 2: done
int sx_once(int* o, void (*f)()) {
    sxs::blockUntil([o]() { return *o == 1; });
    if (*o == 2) return 0;
    *o = 1;
    try { f(); } catch (...) { *o = 0; throw; }
    *o = 2;
    return 0;
}
int sx_mutex_lock(void* m) { sxs::lock(m); return 0; }
int sx_mutex_trylock(void* m) {
    auto it = sxs::owner.find(m);
    if (it != sxs::owner.end() && it->second >= 0) return 16;
    sxs::ensureMain();
    sxs::owner[m] = sxs::cur;
    return 0;
}
int sx_mutex_unlock(void* m) { sxs::unlock(m); return 0; }
void sx_cv_wait(void* cv, void** ul) {
    void* m = ul[0];
    int g = sxs::cvGen[cv];
    sxs::owner[m] = -1;
    sxs::blockUntil([cv, g]() { return sxs::cvGen[cv] == g; });
    sxs::lock(m);
}
void sx_cv_notify_one(void* cv) { ++sxs::cvGen[cv]; }
void sx_cv_notify_all(void* cv) { ++sxs::cvGen[cv]; }
void sx_cv_nop(void*) {}
int sx_sched_yield() { sxs::voluntary(); return 0; }
int sx_usleep(unsigned) { sxs::voluntary(); return 0; }
int sx_nanosleep(const void*, void*) { sxs::voluntary(); return 0; }
int sx_clock_nanosleep(int, int, const void*, void*) { sxs::voluntary(); return 0; }
int sx_getcpu() { return 0; }
int sx_affinity(unsigned long, size_t, const void*) { return 0; }
int sx_gettimeofday(struct timeval* tv, void*) { tv->tv_sec = 1000000; tv->tv_usec = 0; return 0; }
long sx_time(long* t) { if (t) *t = 1000000; return 1000000; }
static int64_t sx_now = 1000000000000000ll;
int64_t sx_clock_now() { return sx_now; }
// timed wait: the others may run, then the time is over (the clock moves there)
int sx_cond_clockwait(void*, void* m, int, const struct timespec* ts) {
    sxs::owner[m] = -1;
    sxs::voluntary();
    int64_t t = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
    if (sx_now < t) sx_now = t;
    sxs::lock(m);
    return ETIMEDOUT;
}
int sx_cond_timedwait(void* c, void* m, const struct timespec* ts) { return sx_cond_clockwait(c, m, 0, ts); }

// ---- OpenMP entry points emitted by clang
int omp_get_thread_num() { return sxs::fibers.empty() ? 0 : sxs::fibers[sxs::cur]->tid; }
int omp_get_num_threads() {
    return sxs::fibers.empty() || !sxs::fibers[sxs::cur]->team ? (sxs::ompBounds ? sxs::ompThreads : 1) : sxs::fibers[sxs::cur]->team->n;
}
int omp_get_max_threads() { return sxs::ompThreads; }
int omp_get_num_procs() { return sxs::ompThreads; }
int omp_in_parallel() { return omp_get_num_threads() > 1; }
void omp_set_num_threads(int n) { sxs::ompThreads = n; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
double omp_get_wtime() { return 1000000.0; }

typedef void (*sx_micro)(int*, int*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*,
                         void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*);
void __kmpc_fork_call(void*, int n, void* fn, ...) {
    void* a[22] = {0};
    va_list ap;
    va_start(ap, fn);
    for (int i = 0; i < n && i < 22; ++i) a[i] = va_arg(ap, void*);
    va_end(ap);
    int T = sxs::nextNum > 0 ? sxs::nextNum : sxs::ompThreads;
    sxs::nextNum = 0;
    sxs::ensureMain();
    if (sxs::fibers[sxs::cur]->team && sxs::fibers[sxs::cur]->team->n > 1) T = 1;
    std::vector<void*> args(a, a + 22);
    sxs::runTeam(T, sxs::ompPreempt, [fn, args](int tid) {
        int g = tid, b = tid;
        void* const* x = args.data();
        ((sx_micro)fn)(&g, &b, x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12],
                       x[13], x[14], x[15], x[16], x[17], x[18], x[19], x[20], x[21]);
    });
}
int __kmpc_global_thread_num(void*) { return omp_get_thread_num(); }
void __kmpc_push_num_threads(void*, int, int n) { sxs::nextNum = n; }
void __kmpc_serialized_parallel(void*, int) {}
void __kmpc_end_serialized_parallel(void*, int) {}
void __kmpc_barrier(void*, int) {
    if (sxs::fibers.empty()) return;
    sxs::Team* t = sxs::fibers[sxs::cur]->team;
    if (!t || t->n == 1) return;
    if (++t->arrived == t->n) { t->arrived = 0; ++t->generation; sxs::point(); return; }
    int g = t->generation;
    sxs::blockUntil([t, g]() { return t->generation == g; });
}
void __kmpc_critical(void*, int, void* c) { sxs::lock(c); }
void __kmpc_end_critical(void*, int, void* c) { sxs::unlock(c); }
int __kmpc_master(void*, int) { return omp_get_thread_num() == 0; }
void __kmpc_end_master(void*, int) {}
int __kmpc_masked(void*, int, int) { return omp_get_thread_num() == 0; }
void __kmpc_end_masked(void*, int) {}
void __kmpc_flush(void*) {}
int __kmpc_single(void*, int) {
    if (sxs::fibers.empty()) return 1;
    sxs::Fiber* f = sxs::fibers[sxs::cur];
    if (!f->team) return 1;
    bool& d = f->team->singles[f->singleSeq++];
    if (d) return 0;
    d = true;
    return 1;
}
void __kmpc_end_single(void*, int) {}
static int sx_redlock;
int __kmpc_reduce_nowait(void*, int, int, size_t, void*, void*, void*) { sxs::lock(&sx_redlock); return 1; }
void __kmpc_end_reduce_nowait(void*, int, void*) { sxs::unlock(&sx_redlock); }
int __kmpc_reduce(void*, int, int, size_t, void*, void*, void*) { sxs::lock(&sx_redlock); return 1; }
void __kmpc_end_reduce(void* l, int g, void*) { sxs::unlock(&sx_redlock); __kmpc_barrier(l, g); }
}
template <class T>
static void sxStaticInit(int sched, int* plast, T* pl, T* pu, T* pst, T inc, T chunk) {
    int n = omp_get_num_threads(), tid = omp_get_thread_num();
    T lo = *pl, hi = *pu;
    bool empty = inc > 0 ? lo > hi : lo < hi;
    if (plast) *plast = 0;
    if (empty) { return; }
    uint64_t trip = (uint64_t)((hi - lo) / inc) + 1;
    if (sched == 33) {  // static chunked
        if (chunk < 1) chunk = 1;
        *pst = (T)(chunk * inc * n);
        *pl = (T)(lo + chunk * inc * tid);
        *pu = (T)(*pl + chunk * inc - inc);
        if (plast) *plast = (int)(((trip - 1) / (uint64_t)chunk) % n == (uint64_t)tid);
        return;
    }
    uint64_t base = trip / n, rem = trip % n;
    uint64_t s = tid * base + std::min<uint64_t>(tid, rem), c = base + ((uint64_t)tid < rem);
    *pst = (T)trip;
    if (c == 0) { *pl = (T)(hi + inc); *pu = hi; return; }
    *pl = (T)(lo + (T)s * inc);
    *pu = (T)(lo + (T)(s + c - 1) * inc);
    if (plast) *plast = s + c == trip;
}
static sxs::Team sxSolo;
template <class T>
static void sxDispInit(T lo, T hi, T st, T chunk) {
    sxs::ensureMain();
    sxs::Fiber* f = sxs::fibers[sxs::cur];
    sxs::Team* t = f->team ? f->team : &sxSolo;
    sxs::Loop& l = t->loops[f->loopSeq];
    if (!l.init) { l.init = true; l.lo = (int64_t)lo; l.hi = (int64_t)hi; l.st = (int64_t)st; l.chunk = 1;  /* as on a graph larger than any chunk size */ l.next = (int64_t)lo; }
}
template <class T>
static int sxDispNext(int* plast, T* pl, T* pu, T* pst) {
    sxs::point();
    sxs::Fiber* f = sxs::fibers[sxs::cur];
    sxs::Team* t = f->team ? f->team : &sxSolo;
    sxs::Loop& l = t->loops[f->loopSeq];
    if (l.st > 0 ? l.next > l.hi : l.next < l.hi) { ++f->loopSeq; if (t == &sxSolo) sxSolo.loops.clear(); return 0; }
    int64_t e = l.next + l.st * (l.chunk - 1);
    if (l.st > 0 ? e > l.hi : e < l.hi) e = l.hi;
    *pl = (T)l.next;
    *pu = (T)e;
    *pst = (T)l.st;
    l.next = e + l.st;
    if (plast) *plast = l.st > 0 ? l.next > l.hi : l.next < l.hi;
    return 1;
}
extern "C" {
#define SXK(SUF, T)                                                                                           \
    void __kmpc_for_static_init_##SUF(void*, int, int s, int* pl_, T* l, T* u, T* st, T inc, T ch) {          \
        sxStaticInit<T>(s, pl_, l, u, st, inc, ch);                                                           \
    }                                                                                                         \
    void __kmpc_dispatch_init_##SUF(void*, int, int, T lo, T hi, T st, T ch) { sxDispInit<T>(lo, hi, st, ch); } \
    int __kmpc_dispatch_next_##SUF(void*, int, int* pl_, T* l, T* u, T* st) { return sxDispNext<T>(pl_, l, u, st); } \
    void __kmpc_dispatch_fini_##SUF(void*, int) {}
SXK(4, int32_t)
SXK(4u, uint32_t)
SXK(8, int64_t)
SXK(8u, uint64_t)
void __kmpc_for_static_fini(void*, int) {}
void __kmpc_dispatch_deinit(void*, int) {}
}
