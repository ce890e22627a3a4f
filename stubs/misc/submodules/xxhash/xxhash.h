// stand-in for xxhash: any deterministic 64-bit hash serves the contract
#pragma once
#include <stddef.h>
#include <stdint.h>
static inline uint64_t XXH64(const void* p, size_t n, uint64_t seed) {
    const unsigned char* b = (const unsigned char*)p;
    uint64_t h = 1469598103934665603ull ^ seed;
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
    return h;
}
