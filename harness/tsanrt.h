// Run-time part of the access-instrumented build (variant tsan): a happens-before race detector whose only
// use is to find the instructions that race, so that they become scheduling points (sim.h PK_MEM).  A race as
// such is never reported.  No-ops in the other variants.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
namespace tsanrt {
#ifdef MC_TSANRT
void on_alloc(void *p, size_t n); void on_free(void *p);
void acquire(int tid, void *o); void release(int tid, void *o);
void fork_edge(int a, int b); void join_edge(int a, int b); void fiber_done(int);
void read_range(const void *p, size_t n); void write_range(const void *p, size_t n);
#else
inline void on_alloc(void *, size_t) {} inline void on_free(void *) {}
inline void acquire(int, void *) {} inline void release(int, void *) {}
inline void fork_edge(int, int) {} inline void join_edge(int, int) {} inline void fiber_done(int) {}
inline void read_range(const void *, size_t) {} inline void write_range(const void *, size_t) {}
#endif
}
namespace tsanctl { // present in every variant
extern bool available;
void begin();                 // start watching: everything before happens before everything after
void end();
void init_worker();           // a set of its own for this process and its children
size_t racy();                // number of racing instructions discovered (shared with forked children)
void activate(size_t n);      // the first n of them are scheduling points
void truncate(size_t n);      // forget all but the first n
std::vector<uintptr_t> list();
}
