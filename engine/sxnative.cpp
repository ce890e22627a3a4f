// Native replay runtime: the same harness, compiled from the real code without
// symbolic instrumentation, runs on the concrete inputs of a counterexample.
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <algorithm>
#include <exception>
#include <string>
#include <vector>
#include "sxheap.h"
#include "sx.h"
static std::vector<long long> in;
static size_t pos = 0;
static int rndLeft = 0;
static uint64_t rndSpan = 0;
static bool running = false;
static long long nextInput(const char* name, long long lo, long long hi) {
    long long v = pos < in.size() ? in[pos] : lo;
    ++pos;
    if (v < lo) v = lo;
    if (v > hi) v = hi;
    printf("  input %s = %lld\n", name, v);
    return v;
}
[[noreturn]] static void verdict(const char* st, const char* msg, int rc) {
    printf("REPLAY %s %s\n", st, msg);
    fflush(stdout);
    _exit(rc);
}
static uint64_t sched_choose(const char* name, int n) { return (uint64_t)nextInput(name, 0, n - 1); }
[[noreturn]] static void sched_fail(const char* st, const char* msg) { verdict(st, msg, 1); }
#include "sxsched.h"
struct H { const char* n; sx_harness_fn f; };
static std::vector<H>& hs() { static std::vector<H> v; return v; }
sx_reg::sx_reg(const char* n, sx_harness_fn f) { hs().push_back({n, f}); }
extern "C" {
uint64_t sx_int(const char* n, int64_t lo, int64_t hi) { return (uint64_t)nextInput(n, lo, hi); }
bool sx_bool(const char* n) { return nextInput(n, 0, 1); }
void sx_assume(bool c) { if (!c) verdict("assume", "", 0); }
void sx_assert(bool c, const char* m) { if (!c) verdict("assertfail", m, 1); }
void sx_cover(const char*) {}
uint64_t sx_concrete(uint64_t v) { return v; }
uint64_t sx_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
void sx_symbolic_random(int n, uint64_t s) { rndLeft = n; rndSpan = s; }
uint64_t sx_model_random(uint64_t c) {
    if (!running || rndLeft == 0) return c;
    if (rndLeft > 0) --rndLeft;
    return (uint64_t)nextInput("rnd", 0, rndSpan ? (long long)rndSpan - 1 : 0xffffffffll);
}
void sx_fork_selects(bool) {}
void sx_timeout(int) {}
void sx_note(const char* s, uint64_t v) { printf("  note %s = %llu\n", s, (unsigned long long)v); }
bool sx_replaying() { return true; }
void sx_file_bytes(const char* path, const unsigned char* d, size_t n) {
    FILE* f = fopen(path, "wb");
    fwrite(d, 1, n, f);
    fclose(f);
}
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) {
    if (running) verdict("exit", ("code under test called exit(" + std::to_string(c) + ")").c_str(), 1);
    __real_exit(c);
}
}
static void onsig(int s) { verdict(s == SIGALRM ? "hang" : "crash", strsignal(s), 1); }
static void run(sx_harness_fn f) {
    running = true;
    sxheap::on = true;
    f();
    sxheap::on = false;
    running = false;
}
int main(int argc, char** argv) {
    std::string h, file;
    for (int i = 1; i + 1 < argc; ++i) {
        if (!strcmp(argv[i], "--harness")) h = argv[i + 1];
        if (!strcmp(argv[i], "--replay")) file = argv[i + 1];
    }
    FILE* fp = fopen(file.c_str(), "r");
    char nm[256];
    long long v;
    while (fp && fscanf(fp, "%255s %lld", nm, &v) == 2) in.push_back(v);
    static char alt[1 << 16];
    stack_t ss{alt, 0, sizeof alt};
    sigaltstack(&ss, nullptr);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = onsig;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) sigaction(s, &sa, nullptr);
    alarm(30);
    for (auto& x : hs())
        if (h == x.n) {
            try { run(x.f); } catch (std::exception& e) { verdict("throw", e.what(), 1); }
            catch (...) { verdict("throw", "exception", 1); }
            verdict("ok", "", 0);
        }
    fprintf(stderr, "no harness\n");
    return 2;
}
