#include "tsanrt.h"
#include "sim.h"
#include <sys/mman.h>
#include <cstring>
#include <map>
#include <set>
#include <algorithm>
#include <unordered_map>
namespace sim { void mem_point(const void *); }
#ifndef MC_TSANRT
namespace tsanctl { bool available = false; void begin() {} void end() {} void init_worker() {} size_t racy() { return 0; } void activate(size_t) {} void truncate(size_t) {} std::vector<uintptr_t> list() { return {}; } }
#else
namespace {
const int MAXF = 64;
typedef uint32_t Clk;
struct VC { Clk c[MAXF]; };
struct Acc { uintptr_t pc; Clk clk; uint8_t tid, mask, wr, used; };
struct Cell { uintptr_t a; uint32_t gen; uint8_t n; Acc acc[6]; };
const size_t NC = 1 << 16;
Cell *cells; bool on = false; uint32_t gen = 0; VC vc[MAXF]; std::unordered_map<uintptr_t, VC> sync; int busy = 0;
struct Shared { size_t n; uintptr_t pc[4096]; } *sh;
uint8_t *bits; // pc filter
size_t active = 0;
bool known(uintptr_t pc, bool act = false) { if (!(bits[(pc >> 3) & 65535] & (1 << (pc & 7)))) return false; size_t n = act ? active : sh->n; for (size_t i = 0; i < n; i++) if (sh->pc[i] == pc) return true; return false; }
void add(uintptr_t pc) { if (!pc || known(pc) || sh->n >= 4096) return; sh->pc[sh->n] = pc; bits[(pc >> 3) & 65535] |= 1 << (pc & 7); sh->n++; }
void maps() { sh = (Shared *)mmap(nullptr, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); bits = (uint8_t *)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
struct Init { Init() { maps(); cells = (Cell *)mmap(nullptr, NC * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); } } init_;
Cell *cell(uintptr_t g) { size_t h = (g * 0x9e3779b97f4a7c15ull) >> 48; for (size_t i = 0; i < 64; i++) { Cell *c = &cells[(h + i) & (NC - 1)]; if (c->gen != gen) { c->gen = gen; c->a = g; c->n = 0; return c; } if (c->a == g) return c; } return nullptr; }
void access1(uintptr_t g, uint8_t mask, bool wr, uintptr_t pc, int t) {
    Cell *c = cell(g); if (!c) return; Acc *mine = nullptr;
    for (int i = 0; i < c->n; i++) { Acc &a = c->acc[i]; if (a.tid == t) { if (a.wr == wr && a.mask == mask) mine = &a; continue; }
        if ((a.mask & mask) && (a.wr || wr) && a.clk > vc[t].c[a.tid]) { add(a.pc); add(pc); } }
    if (!mine) { if (c->n < 6) mine = &c->acc[c->n++]; else { mine = &c->acc[0]; for (int i = 1; i < 6; i++) if (c->acc[i].clk <= vc[t].c[c->acc[i].tid]) mine = &c->acc[i]; } }
    *mine = Acc{pc, vc[t].c[t], (uint8_t)t, mask, (uint8_t)wr, 1};
}
void access(const void *p, size_t n, bool wr, uintptr_t pc) {
    if (!on || busy) return; int t = sim::cur_fiber(); if (t <= 0 || t >= MAXF) return;
    if (pc && known(pc, true)) sim::mem_point(p);
    busy++; uintptr_t a = (uintptr_t)p, e = a + n; if (n > 4096) e = a + 4096;
    while (a < e) { uintptr_t g = a >> 3; unsigned o = a & 7, k = std::min<uintptr_t>(8 - o, e - a); access1(g, (uint8_t)(((1u << k) - 1) << o), wr, pc, t); a += k; }
    busy--;
}
void join(VC &a, const VC &b) { for (int i = 0; i < MAXF; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
}
namespace tsanctl {
bool available = true;
void begin() { gen++; sync.clear(); for (int i = 0; i < MAXF; i++) { for (int j = 0; j < MAXF; j++) vc[i].c[j] = 1; vc[i].c[i] = 2; } on = true; }
void end() { on = false; }
size_t racy() { return sh->n; }
void init_worker() { maps(); active = 0; }
void activate(size_t n) { active = n; }
void truncate(size_t n) { sh->n = std::min(sh->n, n); active = std::min(active, n); memset(bits, 0, 65536); for (size_t i = 0; i < sh->n; i++) bits[(sh->pc[i] >> 3) & 65535] |= 1 << (sh->pc[i] & 7); }
std::vector<uintptr_t> list() { return std::vector<uintptr_t>(sh->pc, sh->pc + sh->n); }
}
namespace tsanrt {
void on_alloc(void *p, size_t n) { if (!on) return; uintptr_t a = (uintptr_t)p & ~7ull, e = (uintptr_t)p + std::min<size_t>(n, 65536); busy++; for (; a < e; a += 8) { Cell *c = cell(a >> 3); if (c) c->n = 0; } busy--; }
void on_free(void *) {}
void acquire(int t, void *o) { if (!on || t <= 0 || t >= MAXF) return; auto it = sync.find((uintptr_t)o); if (it != sync.end()) join(vc[t], it->second); }
void release(int t, void *o) { if (!on || t <= 0 || t >= MAXF) return; auto it = sync.find((uintptr_t)o); if (it == sync.end()) sync[(uintptr_t)o] = vc[t]; else join(it->second, vc[t]); vc[t].c[t]++; }
void fork_edge(int a, int b) { if (!on || b >= MAXF || a >= MAXF) return; if (a > 0) { Clk own = vc[b].c[b]; join(vc[b], vc[a]); vc[b].c[b] = own; vc[a].c[a]++; } }
void join_edge(int a, int b) { if (!on || b >= MAXF || a >= MAXF) return; join(vc[a], vc[b]); }
void fiber_done(int) {}
void read_range(const void *p, size_t n) { access(p, n, false, 0); }
void write_range(const void *p, size_t n) { access(p, n, true, 0); }
}
#define PC ((uintptr_t)__builtin_return_address(0))
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void *) {} void __tsan_func_exit() {}
#define RW(N) void __tsan_read##N(void *p) { access(p, N, false, PC); } void __tsan_write##N(void *p) { access(p, N, true, PC); } \
    void __tsan_unaligned_read##N(void *p) { access(p, N, false, PC); } void __tsan_unaligned_write##N(void *p) { access(p, N, true, PC); } \
    void __tsan_volatile_read##N(void *p) { access(p, N, false, PC); } void __tsan_volatile_write##N(void *p) { access(p, N, true, PC); } \
    void __tsan_unaligned_volatile_read##N(void *p) { access(p, N, false, PC); } void __tsan_unaligned_volatile_write##N(void *p) { access(p, N, true, PC); } \
    void __tsan_read##N##_pc(void *p, void *) { access(p, N, false, PC); } void __tsan_write##N##_pc(void *p, void *) { access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, PC); }
void *mct_memcpy(void *d, const void *s, size_t n) { access(s, n, false, PC); access(d, n, true, PC + 1); return memcpy(d, s, n); }
void *mct_memmove(void *d, const void *s, size_t n) { access(s, n, false, PC); access(d, n, true, PC + 1); return memmove(d, s, n); }
void *mct_memset(void *d, int c, size_t n) { access(d, n, true, PC); return memset(d, c, n); }
int mct_memcmp(const void *a, const void *b, size_t n) { access(a, n, false, PC); access(b, n, false, PC + 1); return memcmp(a, b, n); }
#define AT(B, T) \
T __tsan_atomic##B##_load(const volatile T *p, int) { access((void *)p, B / 8, false, PC); return *p; } \
void __tsan_atomic##B##_store(volatile T *p, T v, int) { access((void *)p, B / 8, true, PC); *p = v; } \
T __tsan_atomic##B##_exchange(volatile T *p, T v, int) { access((void *)p, B / 8, true, PC); T o = *p; *p = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T *p, T v, int) { access((void *)p, B / 8, true, PC); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T *p, T v, int) { access((void *)p, B / 8, true, PC); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T *p, T v, int) { access((void *)p, B / 8, true, PC); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T *p, T v, int) { access((void *)p, B / 8, true, PC); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T *p, T v, int) { access((void *)p, B / 8, true, PC); T o = *p; *p = o ^ v; return o; } \
T __tsan_atomic##B##_fetch_nand(volatile T *p, T v, int) { access((void *)p, B / 8, true, PC); T o = *p; *p = ~(o & v); return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { access((void *)p, B / 8, true, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T *p, T *e, T v, int a, int b) { access((void *)p, B / 8, true, PC); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T *p, T e, T v, int, int) { access((void *)p, B / 8, true, PC); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
#endif
