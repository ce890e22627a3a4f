// stand-in for growt's growing concurrent table (not in the tree): the contract
// used is get_handle / insert_or_update(key, value, f, arg) / iteration / find.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <map>
#include <utility>
extern "C" void sx_atomic(int);
namespace growt {
// each table operation is one atomic step, as in the real table
struct Atomic { Atomic() { sx_atomic(1); } ~Atomic() { sx_atomic(0); } };
namespace example {
struct Increment {
    typedef size_t mapped_type;
    mapped_type operator()(mapped_type& lhs, const mapped_type& rhs) const { return lhs += rhs; }
    mapped_type atomic(mapped_type& lhs, const mapped_type& rhs) const { return lhs += rhs; }
};
}
template <class H>
struct uaGrow {
    std::map<uint64_t, uint64_t> m;
    explicit uaGrow(size_t) {}
    struct Handle {
        std::map<uint64_t, uint64_t>* m;
        template <class F, class... T>
        std::pair<std::map<uint64_t, uint64_t>::iterator, bool> insert_or_update(uint64_t k, uint64_t v, F f, T&&... args) {
            Atomic a;
            auto it = m->find(k);
            if (it == m->end()) return m->emplace(k, v);
            f(it->second, args...);
            return {it, false};
        }
        auto find(uint64_t k) { Atomic a; return m->find(k); }
        auto begin() { return m->begin(); }
        auto end() { return m->end(); }
    };
    Handle get_handle() { return Handle{&m}; }
};
}
