// Heap used by instrumented and by replayed runs: fresh memory is filled with a
// pattern, freed memory is overwritten and held back for a while, and the bytes
// behind every block are checked when it is freed. Reads of freed or
// uninitialised memory thus give absurd values in both runs, and writes past
// the end of a block end the run.
#pragma once
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <new>
namespace sxheap {
static bool on = false;       // only while the code under test runs
struct Head { uint64_t n, magic; };
static const uint64_t LIVE = 0x5afe5afe11115afeull, DEAD = 0xdeadbeefdeadbeefull;
static const int TAIL = 16, RING = 512;
static const uint64_t RINGBYTES = 4u << 20;
static Head* ring[RING];
static int rpos = 0;
static uint64_t rbytes = 0;
[[noreturn]] static inline void bad(const char* what) {
    fprintf(stderr, "heap check: %s\n", what);
    abort();
}
static inline void* get(size_t n) {
    if (n > (1ull << 40)) throw std::bad_alloc();
    Head* h = (Head*)malloc(n + sizeof(Head) + TAIL);
    if (!h) throw std::bad_alloc();
    h->n = n;
    h->magic = LIVE;
    char* p = (char*)(h + 1);
    if (on && n < (1u << 20)) memset(p, 0xB6, n);
    memset(p + n, 0xC7, TAIL);
    return p;
}
static inline void put(void* q) {
    if (!q) return;
    Head* h = (Head*)q - 1;
    if (h->magic != LIVE) bad(h->magic == DEAD ? "block freed twice" : "freed pointer is no block, or was overwritten in front");
    char* p = (char*)q;
    for (int i = 0; i < TAIL; ++i)
        if ((unsigned char)p[h->n + i] != 0xC7) bad("write past the end of a block");
    h->magic = DEAD;
    if (!on || h->n > RINGBYTES / 4) { free(h); return; }
    memset(p, 0xD9, h->n);
    while (ring[rpos] || rbytes > RINGBYTES) {
        if (ring[rpos]) {
            rbytes -= ring[rpos]->n;
            free(ring[rpos]);
            ring[rpos] = nullptr;
        }
        if (rbytes <= RINGBYTES) break;
        rpos = (rpos + 1) % RING;
    }
    rbytes += h->n;
    ring[rpos] = h;
    rpos = (rpos + 1) % RING;
}
}  // namespace sxheap
void* operator new(size_t n) { return sxheap::get(n); }
void* operator new[](size_t n) { return sxheap::get(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return sxheap::get(n); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return sxheap::get(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { sxheap::put(p); }
void operator delete[](void* p) noexcept { sxheap::put(p); }
void operator delete(void* p, size_t) noexcept { sxheap::put(p); }
void operator delete[](void* p, size_t) noexcept { sxheap::put(p); }
