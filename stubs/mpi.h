// single-process stand-in for MPI: messages go to an in-memory mailbox
#pragma once
#include <stddef.h>
#include <string.h>
#include <deque>
#include <vector>
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; };
#define MPI_COMM_WORLD 0
#define MPI_INT 4
#define MPI_LONG 8
#define MPI_MIN 1
#define MPI_ANY_SOURCE (-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)nullptr)
#define MPI_SUCCESS 0
namespace sxmpi {
struct M { int src, dst, tag; std::vector<char> d; };
inline std::deque<M>& box() { static std::deque<M> b; return b; }
inline int& rank() { static int r = 0; return r; }
inline int& size() { static int s = 1; return s; }
inline int find(int src, int tag) {
    for (size_t i = 0; i < box().size(); ++i)
        if (box()[i].dst == rank() && box()[i].tag == tag && (src == MPI_ANY_SOURCE || src == box()[i].src)) return (int)i;
    return -1;
}
}
static inline int MPI_Comm_rank(MPI_Comm, int* r) { *r = sxmpi::rank(); return 0; }
static inline int MPI_Comm_size(MPI_Comm, int* s) { *s = sxmpi::size(); return 0; }
static inline int MPI_Send(const void* p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm) {
    sxmpi::M m{sxmpi::rank(), dst, tag, {}};
    m.d.resize((size_t)n * t);
    memcpy(m.d.data(), p, (size_t)n * t);
    sxmpi::box().push_back(m);
    return 0;
}
static inline int MPI_Isend(const void* p, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request*) {
    return MPI_Send(p, n, t, dst, tag, c);
}
static inline int MPI_Iprobe(int src, int tag, MPI_Comm, int* flag, MPI_Status* st) {
    int i = sxmpi::find(src, tag);
    *flag = i >= 0;
    if (i >= 0 && st) st->MPI_SOURCE = sxmpi::box()[i].src;
    return 0;
}
static inline int MPI_Recv(void* p, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Status* st) {
    int i = sxmpi::find(src, tag);
    if (i < 0) return 1;
    auto& m = sxmpi::box()[i];
    size_t k = m.d.size() < (size_t)n * t ? m.d.size() : (size_t)n * t;
    memcpy(p, m.d.data(), k);
    if (st) st->MPI_SOURCE = m.src;
    sxmpi::box().erase(sxmpi::box().begin() + i);
    return 0;
}
static inline int MPI_Ibarrier(MPI_Comm, MPI_Request*) { return 0; }
static inline int MPI_Test(MPI_Request*, int* f, MPI_Status*) { *f = 1; return 0; }
static inline int MPI_Allreduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op, MPI_Comm) { memcpy(b, a, (size_t)n * t); return 0; }
static inline int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm) { return 0; }
static inline int MPI_Barrier(MPI_Comm) { return 0; }
static inline int MPI_Init(int*, char***) { return 0; }
static inline int MPI_Finalize() { return 0; }
