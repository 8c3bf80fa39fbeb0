#include "sim.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cassert>
#include <deque>
#include <set>
#include <algorithm>
#include <unordered_map>
#include <pthread.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <malloc.h>
#include <dirent.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/resource.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <event.h>
#include <event2/event_struct.h>
#if defined(__SANITIZE_ADDRESS__)
#define HAVE_ASAN 1
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif
#include "vfs.h"
#include "tsanrt.h"

extern "C" int mc_server_main(int, char **);
extern "C" int mc_engine_create_instance(uint64_t, void *(*)(void), void **);
extern "C" int mc_scrub_ext_init(void *, void *(*)(void)) __attribute__((weak));

namespace sim {

Policy *policy = nullptr;
bool points_enabled = false;
uint64_t early_wake_us = 0; int early_timeouts = 0;
uint64_t step_limit = 0, steps = 0;
int64_t malloc_fail_at = 0; bool malloc_failed = false; int malloc_fail_mode = 1;
int64_t slab_fail_at = 0; bool slab_failed = false; int slab_fail_mode = 1;
bool slab_guard = false; size_t slab_quarantine = 0;
uint32_t rand_seed = 12345;
std::vector<std::string> sim_errors;
static std::function<void(const std::string &)> fatal_handler;
static uint64_t vclock = 1700000000ull * 1000000ull;

const char *pk_name(int k) {
    static const char *n[] = {"none","start","lock","unlock","condwait","signal","read","send","accept","create","join","sleep","evloop","fs","mem","yield","pipe"};
    return k >= 0 && k <= PK_PIPE ? n[k] : "?";
}

enum State { RUN, BLK_MUTEX, BLK_COND, BLK_JOIN, BLK_SLEEP, BLK_EV, DONE };

struct EvBase;
struct Fiber {
    int id; void *sp = nullptr; char *stack = nullptr; size_t ssize = 0;
    State st = RUN;
    void *(*fn)(void *) = nullptr; void *arg = nullptr; void *ret = nullptr;
    void *wobj = nullptr;      // mutex / cond / base
    int wjoin = 0;
    uint64_t wake = 0;         // 0: none
    bool timed_out = false;
    void *wmutex = nullptr;    // mutex to reacquire after cond wait
    int saved_errno = 0;
    bool detached = false;
    void *fake = nullptr;
    std::string name;
    std::string tls;           // thread-local variables while not running
    int lastkind = PK_START;
};

static std::vector<Fiber *> fibers;   // index = id (0 unused)
static Fiber *cur = nullptr;
static void *driver_sp = nullptr;
#ifdef HAVE_ASAN
static void *driver_fake = nullptr; static const void *driver_bottom = nullptr; static size_t driver_size = 0;
#endif
static bool exited_ = false; static int exit_code_ = 0;

extern "C" void mc_switch(void **save, void *to);
asm(R"(
.text
.globl mc_switch
.type mc_switch,@function
mc_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size mc_switch,.-mc_switch
.globl mc_fiber_entry_asm
mc_fiber_entry_asm:
    xorq %rbp, %rbp
    call mc_fiber_entry
    ud2
)");
extern "C" void mc_fiber_entry_asm();

void fatal(const std::string &msg) {
    if (fatal_handler) fatal_handler(msg);
    fprintf(stderr, "sim fatal: %s\n", msg.c_str());
    _exit(97);
}
void on_fatal(std::function<void(const std::string &)> f) { fatal_handler = f; }

static int sig_pend = 0; static bool sig_pts = false; static void run_handler();
void interrupt(int sig) { sig_pend = sig; }
void interrupt_points(bool on) { sig_pts = on; }
static void to_driver() {
    Fiber *f = cur;
    f->saved_errno = errno;
#ifdef HAVE_ASAN
    __sanitizer_start_switch_fiber(f->st == DONE ? nullptr : &f->fake, driver_bottom, driver_size);
#endif
    mc_switch(&f->sp, driver_sp);
#ifdef HAVE_ASAN
    __sanitizer_finish_switch_fiber(f->fake, &driver_bottom, &driver_size);
#endif
    errno = f->saved_errno;
    if (sig_pend && f->id == 1 && f->st == RUN) run_handler();
}
extern "C" char __start_fiber_tls[] __attribute__((weak)), __stop_fiber_tls[] __attribute__((weak));
__attribute__((no_sanitize("address", "thread"))) static void tls_copy(volatile char *d, const volatile char *s, size_t n) { for (size_t i = 0; i < n; i++) d[i] = s[i]; }
static void tls_in(Fiber *f) {
    size_t n = __stop_fiber_tls - __start_fiber_tls; if (!n) return;
    static std::string first; if (first.empty()) { first.resize(n); tls_copy(&first[0], __start_fiber_tls, n); }
    if (f->tls.empty()) f->tls = first;
    tls_copy(__start_fiber_tls, &f->tls[0], n);
}
static void tls_out(Fiber *f) { size_t n = __stop_fiber_tls - __start_fiber_tls; if (n) tls_copy(&f->tls[0], __start_fiber_tls, n); }
static void to_fiber(Fiber *f) {
    cur = f; tls_in(f);
#ifdef HAVE_ASAN
    __sanitizer_start_switch_fiber(&driver_fake, f->stack, f->ssize);
#endif
    mc_switch(&driver_sp, f->sp);
#ifdef HAVE_ASAN
    __sanitizer_finish_switch_fiber(driver_fake, nullptr, nullptr);
#endif
    tls_out(f); cur = nullptr;
}

extern "C" void mc_fiber_entry() {
    Fiber *f = cur;
#ifdef HAVE_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &driver_bottom, &driver_size);
#endif
    f->ret = f->fn(f->arg);
    f->st = DONE;
    tsanrt::fiber_done(f->id);
    to_driver();
    abort();
}

static Fiber *new_fiber(void *(*fn)(void *), void *arg, size_t ssize) {
    if (fibers.empty()) fibers.push_back(nullptr);
    Fiber *f = nullptr; int id = (int)fibers.size(); char *stack = nullptr;
    for (size_t i = 1; i < fibers.size(); i++) if (fibers[i]->st == DONE && fibers[i]->detached && fibers[i]->ssize == ssize) { // a finished detached thread: its number and stack are used again
        id = (int)i; stack = fibers[i]->stack; delete fibers[i]; break; }
    f = new Fiber; f->id = id;
    f->fn = fn; f->arg = arg; f->ssize = ssize;
#ifdef HAVE_ASAN
    if (stack) __asan_unpoison_memory_region(stack, ssize);
#endif
    f->stack = stack ? stack : (char *)mmap(nullptr, ssize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    void **sp = (void **)(f->stack + ssize - 64);
    sp = (void **)((uintptr_t)sp & ~15ull);
    *--sp = (void *)mc_fiber_entry_asm;
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    f->sp = sp;
    if (id < (int)fibers.size()) fibers[id] = f; else fibers.push_back(f);
    return f;
}

// ------------------------------------------------------------ mutexes
struct MState { int owner; int ord; int init; };   // overlay on pthread_mutex_t
static inline MState *ms(void *m) { return (MState *)m; }

struct Base { // EvBase
    std::vector<struct event *> evs; bool brk = false; std::deque<struct event *> active;
};
static bool ev_ready(struct event *ev);
static bool base_ready(Base *b);

static bool enabled(Fiber *f) {
    if (sig_pend && f->id == 1 && (f->st == BLK_SLEEP || f->st == BLK_EV)) return true;
    switch (f->st) {
    case RUN: return true;
    case BLK_MUTEX: return ms(f->wobj)->owner == 0;
    case BLK_COND: return f->wake && (f->wake <= vclock || (early_timeouts > 0 && policy && points_enabled));
    case BLK_JOIN: return fibers[f->wjoin]->st == DONE;
    case BLK_SLEEP: return f->wake <= vclock || (early_wake_us && f->wake - vclock <= early_wake_us);
    case BLK_EV: return base_ready((Base *)f->wobj);
    case DONE: return false;
    }
    return false;
}

static void sched_point(int kind, const void *obj);

// Called in driver: pick & run.
static int last_run = 0;
static bool consult = false; static int consult_kind; static const void *consult_obj;

bool run() {
    uint64_t start = steps;
    std::vector<int> en;
    for (;;) {
        Fiber *c = last_run > 0 ? fibers[last_run] : nullptr;
        int pick = -1;
        if (policy && points_enabled) {
            en.clear();
            for (size_t i = 1; i < fibers.size(); i++) if (enabled(fibers[i])) en.push_back((int)i);
            if (en.empty()) return true;
            int curid = (c && enabled(c)) ? c->id : -1;
            pick = policy->choose(en, curid, c ? c->lastkind : PK_START, consult_obj);
        } else {
            if (c && enabled(c)) pick = c->id;
            else for (size_t i = 1; i < fibers.size(); i++) if (enabled(fibers[i])) { pick = (int)i; break; }
            if (pick < 0) return true;
        }
        steps++;
        if (step_limit && steps - start > step_limit) return false;
        Fiber *f = fibers[pick];
        if (f->st == BLK_SLEEP && f->wake > vclock && !(sig_pend && f->id == 1)) { bool only = true; for (size_t i = 1; only && i < fibers.size(); i++) if (fibers[i] != f && enabled(fibers[i])) only = false; if (only) vclock = f->wake; }
        if (f->st == BLK_MUTEX || f->st == BLK_JOIN || f->st == BLK_EV) f->st = RUN;
        else if (f->st == BLK_SLEEP) { f->st = RUN; f->wake = 0; }
        else if (f->st == BLK_COND) { // timeout
            if (f->wake > vclock) early_timeouts--;
            f->timed_out = true; f->wake = 0; f->wobj = nullptr; f->st = RUN;
        }
        last_run = pick;
        to_fiber(f);
        if (exited_) return true;
    }
}

static void sched_point(int kind, const void *obj) {
    if (!cur) return;
    cur->lastkind = kind; consult_obj = obj;
    if (policy && points_enabled) to_driver();
}
void mem_point(const void *addr) { sched_point(PK_MEM, addr); }
void fs_point() { sched_point(PK_FS, nullptr); }

static void block(State st, void *obj, int kind) {
    cur->st = st; cur->wobj = obj; cur->lastkind = kind;
    to_driver();
}

int cur_fiber() { return cur ? cur->id : 0; }
const char *fiber_name(int id) { return fibers[id]->name.c_str(); }
uint64_t now_us() { return vclock; }
uint64_t now_s() { return vclock / 1000000; }
bool server_exited() { return exited_ || (fibers.size() > 1 && fibers[1]->st == DONE); }
int server_exit_code() { return exited_ ? exit_code_ : (int)(intptr_t)fibers[1]->ret; }

std::vector<std::string> blocked_report() {
    std::vector<std::string> r;
    static const char *sn[] = {"RUN","MUTEX","COND","JOIN","SLEEP","EV","DONE"};
    for (size_t i = 1; i < fibers.size(); i++) {
        Fiber *f = fibers[i];
        if (f->st == DONE) continue;
        char b[160]; snprintf(b, sizeof b, "fiber %d %s wait=%s obj=%p owner=%d", f->id, f->name.c_str(), sn[f->st], f->wobj,
                              f->st == BLK_MUTEX ? ms(f->wobj)->owner : 0);
        r.push_back(b);
    }
    return r;
}
// a fiber stuck on a mutex when nothing is enabled
bool mutex_stuck() {
    for (size_t i = 1; i < fibers.size(); i++) if (fibers[i]->st == BLK_MUTEX) return true;
    return false;
}
std::vector<int> blocked_kinds() {
    std::vector<int> r;
    for (size_t i = 1; i < fibers.size(); i++) r.push_back((int)fibers[i]->st);
    return r;
}
int fiber_count() { return (int)fibers.size() - 1; }
int fiber_state(int id) { return (int)fibers[id]->st; }

// ------------------------------------------------------------ time
static uint64_t next_wake() {
    uint64_t best = 0;
    for (size_t i = 1; i < fibers.size(); i++) {
        Fiber *f = fibers[i];
        uint64_t w = 0;
        if ((f->st == BLK_SLEEP || f->st == BLK_COND) && f->wake) w = f->wake;
        else if (f->st == BLK_EV) {
            Base *b = (Base *)f->wobj;
            for (auto *ev : b->evs) if (ev->ev_fd < 0) {
                uint64_t d = (uint64_t)ev->ev_timeout.tv_sec * 1000000ull + ev->ev_timeout.tv_usec;
                if (!w || d < w) w = d;
            }
        }
        if (w && (!best || w < best)) best = w;
    }
    return best;
}
bool has_timers_before(uint64_t us) { uint64_t w = next_wake(); return w && w <= us; }
void advance_us(uint64_t us) {
    uint64_t target = vclock + us;
    run();
    for (;;) {
        uint64_t w = next_wake();
        if (!w || w > target) break;
        if (w > vclock) vclock = w;
        run();
        if (server_exited()) return;
    }
    vclock = target;
    run();
}
void set_clock_no_run(uint64_t us) { vclock = us; }
void settle() {
    run();
    // let sleepers with short sleeps finish, without crossing a second boundary where possible
    for (int i = 0; i < 2000; i++) {
        uint64_t w = 0;
        for (size_t k = 1; k < fibers.size(); k++) {
            Fiber *f = fibers[k];
            if (f->st == BLK_SLEEP && (!w || f->wake < w)) w = f->wake;
        }
        if (!w || w > vclock + 100000) break;
        if (w > vclock) vclock = w;
        run();
    }
}

// ------------------------------------------------------------ connections
struct VConn {
    bool open = true;            // server side open
    bool accepted = false;
    bool cl_shut = false, cl_reset = false;
    std::deque<std::string> in;  // segments to server
    size_t inoff = 0;
    std::string out;
    std::deque<int> sscript, rscript;
    bool wblocked = false; bool rgap = false;
    int nsend = 0;
    std::string ip;
    int fd = -1;
    std::function<void(int)> on_reply, on_read;
};
struct VFd { enum T { NONE, LISTEN, CONN, PIPER, PIPEW } t = NONE; int idx = -1; };
struct VPipe { size_t n = 0; uint64_t tag = 0; };
static std::deque<VConn> conns; static std::vector<VPipe> pipes;
static const int FD0 = 500000;
static std::vector<VFd> vfds; static std::deque<int> accept_q; static int nlisten = 0;
static uint64_t accepted_total = 0;
static std::vector<int> freefds; bool reuse_fds = true;

static int alloc_vfd(VFd::T t, int idx) {
    int i;
    if (reuse_fds && !freefds.empty()) { auto it = std::min_element(freefds.begin(), freefds.end()); i = *it; freefds.erase(it); }
    else { i = (int)vfds.size(); vfds.emplace_back(); }
    vfds[i].t = t; vfds[i].idx = idx;
    return FD0 + i;
}
static VFd *vf(int fd) { if (fd < FD0 || fd - FD0 >= (int)vfds.size()) return nullptr; VFd *v = &vfds[fd - FD0]; return v->t == VFd::NONE ? nullptr : v; }

int connect(const char *ip) {
    int h = (int)conns.size(); conns.emplace_back(); conns[h].ip = ip; accept_q.push_back(h); return h;
}
void send(int c, const std::string &b) { if (!b.empty()) conns[c].in.push_back(b); }
std::string take(int c) { std::string r; r.swap(conns[c].out); return r; }
const std::string &peek(int c) { return conns[c].out; }
int accept_fail = 0, accept_errno = EMFILE;
bool closed(int c) { return conns[c].accepted && !conns[c].open; }
void shut(int c) { conns[c].cl_shut = true; }
void reset(int c) { conns[c].cl_reset = true; conns[c].wblocked = false; }
size_t unread(int c) { size_t n = 0; for (auto &s : conns[c].in) n += s.size(); return n - conns[c].inoff; }
void forget(int c) { conns[c].in.clear(); conns[c].inoff = 0; conns[c].out.clear(); conns[c].out.shrink_to_fit(); }
void send_script(int c, const std::vector<int> &s) { conns[c].sscript.assign(s.begin(), s.end()); }
void read_script(int c, const std::vector<int> &s) { conns[c].rscript.assign(s.begin(), s.end()); }
void unblock(int c) { conns[c].wblocked = false; }
bool blocked(int c) { return conns[c].wblocked; }
int send_calls(int c) { return conns[c].nsend; }
void set_on_reply(int c, std::function<void(int)> f) { conns[c].on_reply = f; }
void set_on_read(int c, std::function<void(int)> f) { conns[c].on_read = f; }
std::string rpc(int c, const std::string &req) { send(c, req); run(); return take(c); }
uint64_t outstanding_fds() { uint64_t n = 0; for (auto &v : vfds) if (v.t == VFd::CONN) n++; return n; }
uint64_t total_accepted() { return accepted_total; }
void drop_conns() {} 

// ------------------------------------------------------------ heap
static Heap heap_; static Slab slab_;
Heap heap() { return heap_; }
Slab slab() { return slab_; }
static bool should_fail(int64_t &at, int mode, bool &flag) {
    if (at <= 0) return false;
    if (at == 1) { flag = true; if (mode == 1) at = 0; return true; }
    at--; return false;
}
} // namespace sim
using namespace sim;

extern "C" {
// ---------------- memory
void *mc_malloc(size_t n) {
    if (should_fail(malloc_fail_at, malloc_fail_mode, malloc_failed)) { errno = ENOMEM; return nullptr; }
    void *p = malloc(n); if (p) { heap_.live_blocks++; heap_.live_bytes += malloc_usable_size(p); heap_.total_allocs++; tsanrt::on_alloc(p, n); }
    return p;
}
void *mc_calloc(size_t a, size_t b) {
    if (should_fail(malloc_fail_at, malloc_fail_mode, malloc_failed)) { errno = ENOMEM; return nullptr; }
    void *p = calloc(a, b); if (p) { heap_.live_blocks++; heap_.live_bytes += malloc_usable_size(p); heap_.total_allocs++; tsanrt::on_alloc(p, a * b); }
    return p;
}
void mc_free(void *p) {
    if (!p) return;
    heap_.live_blocks--; heap_.live_bytes -= malloc_usable_size(p);
    tsanrt::on_free(p);
    free(p);
}
void *mc_realloc(void *o, size_t n) {
    if (!o) return mc_malloc(n);
    if (n == 0) { mc_free(o); return nullptr; }
    if (should_fail(malloc_fail_at, malloc_fail_mode, malloc_failed)) { errno = ENOMEM; return nullptr; }
    size_t old = malloc_usable_size(o);
    void *p = realloc(o, n); if (p) { heap_.live_bytes += malloc_usable_size(p) - old; heap_.total_allocs++; tsanrt::on_alloc(p, n); }
    return p;
}
char *mc_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)mc_malloc(n); if (p) memcpy(p, s, n); return p; }

// ---------------- item memory wrapper (called by engine objects instead of slabs_alloc/slabs_free)
void *slabs_alloc(const size_t size, unsigned int id) __attribute__((weak));
void slabs_free(void *ptr, size_t size, unsigned int id) __attribute__((weak));
unsigned int slabs_space_size(const size_t size) __attribute__((weak));
static unsigned space_of(size_t n) { return slabs_space_size ? slabs_space_size(n) : 0; }
static std::map<void *, std::pair<size_t, unsigned>> slab_live;
static std::deque<std::pair<void *, std::pair<size_t, unsigned>>> slab_q;
#ifdef HAVE_ASAN
static void poison(void *p, size_t n) { ASAN_POISON_MEMORY_REGION(p, n); }
static void unpoison(void *p, size_t n) { ASAN_UNPOISON_MEMORY_REGION(p, n); }
#else
static void poison(void *, size_t) {}
static void unpoison(void *, size_t) {}
#endif
void *mcw_slabs_alloc(const size_t size, unsigned int id) {
    if (should_fail(slab_fail_at, slab_fail_mode, slab_failed)) return nullptr;
    void *p = slabs_alloc(size, id);
    if (p) {
        slab_.live_blocks++; slab_.live_bytes += size; slab_.live_space += space_of(size); slab_.total_allocs++;
        if (slab_guard) { slab_live[p] = {size, id}; unpoison(p, size); }
        tsanrt::on_alloc(p, size);
    }
    return p;
}
void mcw_slabs_free(void *p, size_t size, unsigned int id) {
    if (slab_guard) {
        auto it = slab_live.find(p);
        if (it == slab_live.end()) { fatal("item memory: free of a block that is not allocated (double free?)"); }
        else { if (it->second.first != size) fatal("item memory: block allocated with size " + std::to_string(it->second.first) + " released with size " + std::to_string(size)); slab_live.erase(it); }
    }
    slab_.live_blocks--; slab_.live_bytes -= size; slab_.live_space -= space_of(size);
    tsanrt::on_free(p);
    if (slab_guard && slab_quarantine) {
        *(uint32_t *)p = 0xffffffffu; poison(p, size); // still a used slot for the allocator (first word not zero)
        slab_q.push_back({p, {size, id}});
        while (slab_q.size() > slab_quarantine) {
            auto e = slab_q.front(); slab_q.pop_front();
            unpoison(e.first, e.second.first);
            slabs_free(e.first, e.second.first, e.second.second);
        }
        return;
    }
    slabs_free(p, size, id);
}
void mc_slab_guard_start() { slab_guard = true; }

// ---------------- threads
int mc_pthread_create(pthread_t *t, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
    if (should_fail(malloc_fail_at, 0, malloc_failed)) {}
    Fiber *f = new_fiber(fn, arg, 1 << 20);
    *t = (pthread_t)f->id; int ds = 0; if (attr && pthread_attr_getdetachstate(attr, &ds) == 0 && ds == PTHREAD_CREATE_DETACHED) f->detached = true;
    tsanrt::fork_edge(cur ? cur->id : 0, f->id);
    sched_point(PK_CREATE, f);
    return 0;
}
pthread_t mc_pthread_self() { return (pthread_t)(cur ? cur->id : 0); }
int mc_pthread_join(pthread_t t, void **ret) {
    int id = (int)t;
    if (id <= 0 || id >= (int)fibers.size()) return ESRCH;
    sched_point(PK_JOIN, nullptr);
    while (fibers[id]->st != DONE) { cur->wjoin = id; block(BLK_JOIN, nullptr, PK_JOIN); }
    tsanrt::join_edge(cur->id, id);
    if (ret) *ret = fibers[id]->ret;
    return 0;
}
int mc_pthread_detach(pthread_t t) { int id = (int)t; if (id > 0 && id < (int)fibers.size()) fibers[id]->detached = true; return 0; }
void mc_pthread_exit(void *r) { cur->ret = r; cur->st = DONE; to_driver(); abort(); }

static int mutex_count = 0;
} namespace sim { int mutex_ord(const void *m) { if (!ms((void *)m)->ord) ms((void *)m)->ord = ++mutex_count; return ms((void *)m)->ord; } } extern "C" {
int mc_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { memset((void *)m, 0, sizeof *m); ms(m)->ord = ++mutex_count; return 0; }
int mc_pthread_mutex_destroy(pthread_mutex_t *m) { if (ms(m)->owner) sim_errors.push_back("destroy of a locked mutex"); return 0; }
static void lock_now(void *m) {
    while (ms(m)->owner != 0) {
        if (ms(m)->owner == cur->id) { fatal("self-deadlock: thread locks a mutex it already holds"); }
        block(BLK_MUTEX, m, PK_LOCK);
    }
    ms(m)->owner = cur->id;
    tsanrt::acquire(cur->id, m);
}
int mc_pthread_mutex_lock(pthread_mutex_t *m) {
    if (!cur) return 0;
    sched_point(PK_LOCK, m);
    lock_now(m);
    return 0;
}
int mc_pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!cur) return 0;
    sched_point(PK_LOCK, m);
    if (ms(m)->owner) return EBUSY;
    ms(m)->owner = cur->id; tsanrt::acquire(cur->id, m);
    return 0;
}
int mc_pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!cur) return 0;
    if (ms(m)->owner != cur->id) fatal("unlock of a mutex the thread does not hold");
    if (sig_pts && cur->id == 1) sched_point(PK_UNLOCK, m); // a signal may arrive while the mutex is held
    tsanrt::release(cur->id, m);
    ms(m)->owner = 0;
    sched_point(PK_UNLOCK, m);
    return 0;
}
int mc_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset((void *)c, 0, sizeof *c); return 0; }
int mc_pthread_cond_destroy(pthread_cond_t *) { return 0; }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t wake) {
    if (ms(m)->owner != cur->id) fatal("cond wait without holding the mutex");
    tsanrt::release(cur->id, m);
    ms(m)->owner = 0;
    cur->timed_out = false; cur->wake = wake;
    block(BLK_COND, c, PK_CONDWAIT);
    cur->wake = 0;
    bool to = cur->timed_out;
    lock_now(m);
    return to ? ETIMEDOUT : 0;
}
int mc_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, 0); }
int mc_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    uint64_t w = (uint64_t)ts->tv_sec * 1000000ull + ts->tv_nsec / 1000;
    if (w <= vclock) w = vclock + 1;
    return cond_wait(c, m, w);
}
static void wake_cond(void *c, bool all) {
    for (size_t i = 1; i < fibers.size(); i++) {
        Fiber *f = fibers[i];
        if (f->st == BLK_COND && f->wobj == c) { f->st = RUN; f->wobj = nullptr; f->wake = 0; f->timed_out = false; if (!all) return; }
    }
}
int mc_pthread_cond_signal(pthread_cond_t *c) { if (!cur) return 0; wake_cond(c, false); sched_point(PK_SIGNAL, c); return 0; }
int mc_pthread_cond_broadcast(pthread_cond_t *c) { if (!cur) return 0; wake_cond(c, true); sched_point(PK_SIGNAL, c); return 0; }

// ---------------- time
int mc_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = vclock / 1000000; tv->tv_usec = vclock % 1000000; return 0; }
time_t mc_time(time_t *t) { time_t v = vclock / 1000000; if (t) *t = v; return v; }
int mc_clock_gettime(clockid_t, struct timespec *ts) { ts->tv_sec = vclock / 1000000; ts->tv_nsec = (vclock % 1000000) * 1000; return 0; }
static void do_sleep(uint64_t us) { if (!cur) return; cur->wake = vclock + (us ? us : 1); block(BLK_SLEEP, nullptr, PK_SLEEP); }
int mc_usleep(useconds_t us) { do_sleep(us); return 0; }
int mc_nanosleep(const struct timespec *ts, struct timespec *) { do_sleep((uint64_t)ts->tv_sec * 1000000ull + (ts->tv_nsec + 999) / 1000); return 0; }
unsigned mc_sleep(unsigned s) { do_sleep((uint64_t)s * 1000000ull); return 0; }
int mc_sched_yield() { if (cur) { cur->wake = vclock + 1; block(BLK_SLEEP, nullptr, PK_YIELD); } return 0; }
static uint32_t rs = 12345;
} namespace sim { void reseed() { ::rs = rand_seed; } } extern "C" {
int mc_rand() { rs = rs * 1103515245u + 12345u; return (rs >> 1) & 0x7fffffff; }
void mc_srand(unsigned) { rs = rand_seed; }
long mc_random() { return mc_rand(); }
void mc_srandom(unsigned) { rs = rand_seed; }

// ---------------- ids / process
uid_t mc_getuid() { return 1000; }
uid_t mc_geteuid() { return 1000; }
int mc_setuid(uid_t) { return 0; }
int mc_setgid(gid_t) { return 0; }
int mc_setrlimit(int, const struct rlimit *) { return 0; }
static struct sigaction sigacts[65]; static void (*sigh[65])(int);
void (*mc_signal(int s, void (*h)(int)))(int) { sigh[s] = h; return SIG_DFL; }
int mc_sigaction(int s, const struct sigaction *a, struct sigaction *) { if (a) { sigacts[s] = *a; sigh[s] = a->sa_handler; } return 0; }
int mc_raise(int s) { if (sigh[s] && sigh[s] != SIG_IGN) sigh[s](s); return 0; }
void mc_exit(int code) { exited_ = true; exit_code_ = code; if (!cur) fatal("exit() outside a thread"); cur->st = DONE; to_driver(); abort(); }
void mc__exit(int code) { mc_exit(code); }
void mc_abort() { fatal("abort() called by the server"); abort(); }
void mc___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    fatal(std::string("assertion failed: ") + e + " at " + f + ":" + std::to_string(l) + " " + fn); abort();
}
static char lib_engine, lib_scrub;
void *mc_dlopen(const char *n, int) { return n && strstr(n, "scrub") ? (void *)&lib_scrub : (void *)&lib_engine; }
void *mc_dlsym(void *h, const char *s) {
    if (h == &lib_scrub) return (void *)mc_scrub_ext_init;
    if (!strcmp(s, "create_instance")) return (void *)mc_engine_create_instance;
    return nullptr;
}
int mc_dlclose(void *) { return 0; }
char *mc_dlerror() { static char e[] = "no such symbol"; return e; }

// ---------------- libevent
static bool fd_readable(int fd) {
    VFd *v = vf(fd); if (!v) return false;
    if (v->t == VFd::LISTEN) return !accept_q.empty() && v->idx == 0;
    if (v->t == VFd::PIPER) return pipes[v->idx].n > 0;
    if (v->t == VFd::CONN) { VConn &c = conns[v->idx]; return !c.in.empty() || c.cl_shut || c.cl_reset; }
    return false;
}
static bool fd_writable(int fd) {
    VFd *v = vf(fd); if (!v) return false;
    if (v->t == VFd::CONN) { VConn &c = conns[v->idx]; return !c.wblocked || c.cl_reset; }
    return true;
}
} // extern C
namespace sim {
static bool ev_ready(struct event *ev) {
    if (ev->ev_fd < 0) { uint64_t d = (uint64_t)ev->ev_timeout.tv_sec * 1000000ull + ev->ev_timeout.tv_usec; return d <= vclock; }
    if ((ev->ev_events & EV_READ) && fd_readable(ev->ev_fd)) return true;
    if ((ev->ev_events & EV_WRITE) && fd_writable(ev->ev_fd)) return true;
    return false;
}
static bool base_ready(Base *b) {
    if (b->brk || b->evs.empty()) return true;
    for (auto *e : b->evs) if (ev_ready(e)) return true;
    return false;
}
}
extern "C" {
struct event_base *mc_event_base_new() { return (struct event_base *)new Base; }
void mc_event_base_free(struct event_base *b) { delete (Base *)b; }
const char *mc_event_get_version() { return "sim"; }
void mc_event_set(struct event *ev, evutil_socket_t fd, short what, void (*cb)(evutil_socket_t, short, void *), void *arg) {
    memset((void *)ev, 0, sizeof *ev);
    ev->ev_fd = fd; ev->ev_events = what; ev->ev_evcallback.evcb_cb_union.evcb_callback = cb; ev->ev_evcallback.evcb_arg = arg;
}
int mc_event_base_set(struct event_base *b, struct event *ev) { ev->ev_base = b; return 0; }
int mc_event_add(struct event *ev, const struct timeval *tv) {
    Base *b = (Base *)ev->ev_base;
    if (tv) { uint64_t d = vclock + (uint64_t)tv->tv_sec * 1000000ull + tv->tv_usec; ev->ev_timeout.tv_sec = d / 1000000; ev->ev_timeout.tv_usec = d % 1000000; }
    if (std::find(b->evs.begin(), b->evs.end(), ev) == b->evs.end()) b->evs.push_back(ev);
    return 0;
}
int mc_event_del(struct event *ev) {
    Base *b = (Base *)ev->ev_base; if (!b) return 0;
    b->evs.erase(std::remove(b->evs.begin(), b->evs.end(), ev), b->evs.end());
    b->active.erase(std::remove(b->active.begin(), b->active.end(), ev), b->active.end());
    return 0;
}
int mc_event_base_loopbreak(struct event_base *bb) { Base *b = (Base *)bb; b->brk = true; return 0; }
int mc_event_base_loop(struct event_base *bb, int) {
    Base *b = (Base *)bb;
    for (;;) {
        if (b->brk) { b->brk = false; return 0; }
        if (b->evs.empty()) return 1;
        b->active.clear();
        for (auto *e : b->evs) if (ev_ready(e)) b->active.push_back(e);
        if (b->active.empty()) { block(BLK_EV, b, PK_EVLOOP); continue; }
        while (!b->active.empty()) {
            struct event *e = b->active.front(); b->active.pop_front();
            short res = 0;
            if (e->ev_fd < 0) res = EV_TIMEOUT;
            else {
                if ((e->ev_events & EV_READ) && fd_readable(e->ev_fd)) res |= EV_READ;
                if ((e->ev_events & EV_WRITE) && fd_writable(e->ev_fd)) res |= EV_WRITE;
                if (!res) continue;
                VFd *v = vf(e->ev_fd);
                if (v && v->t == VFd::CONN) conns[v->idx].rgap = false;
            }
            if (!(e->ev_events & EV_PERSIST)) b->evs.erase(std::remove(b->evs.begin(), b->evs.end(), e), b->evs.end());
            e->ev_evcallback.evcb_cb_union.evcb_callback(e->ev_fd, res, e->ev_evcallback.evcb_arg);
            if (b->brk) break;
        }
        if (!b->brk && cur) sched_point(PK_EVLOOP, b);
    }
}

// ---------------- sockets & files
int mc_socket(int, int, int) { return alloc_vfd(VFd::LISTEN, nlisten++); }
int mc_bind(int, const struct sockaddr *, socklen_t) { return 0; }
int mc_listen(int, int) { return 0; }
int mc_setsockopt(int, int, int, const void *, socklen_t) { return 0; }
int mc_getsockopt(int, int, int, void *v, socklen_t *) { if (v) *(int *)v = 65536; return 0; }
int mc_getsockname(int, struct sockaddr *sa, socklen_t *l) { memset(sa, 0, *l); ((struct sockaddr_in *)sa)->sin_family = AF_INET; ((struct sockaddr_in *)sa)->sin_port = htons(11211); return 0; }
int mc_getpeername(int fd, struct sockaddr *sa, socklen_t *l) {
    VFd *v = vf(fd); if (!v || v->t != VFd::CONN) { errno = ENOTCONN; return -1; }
    struct sockaddr_in *in = (struct sockaddr_in *)sa; memset(sa, 0, *l); in->sin_family = AF_INET; inet_aton(conns[v->idx].ip.c_str(), &in->sin_addr); return 0;
}
int mc_fcntl(int fd, int cmd, ...) { if (vf(fd)) { (void)cmd; return 0; } return 0; }
int mc_pipe(int fds[2]) { pipes.emplace_back(); int i = (int)pipes.size() - 1; fds[0] = alloc_vfd(VFd::PIPER, i); fds[1] = alloc_vfd(VFd::PIPEW, i); return 0; }
static int do_accept(int fd, struct sockaddr *sa, socklen_t *l) {
    VFd *v = vf(fd); if (!v || v->t != VFd::LISTEN) { errno = EBADF; return -1; }
    sched_point(PK_ACCEPT, nullptr);
    if (accept_q.empty() || v->idx != 0) { errno = EAGAIN; return -1; }
    if (accept_fail > 0) { accept_fail--; errno = accept_errno; return -1; }
    int h = accept_q.front(); accept_q.pop_front(); accepted_total++;
    conns[h].accepted = true; conns[h].fd = alloc_vfd(VFd::CONN, h);
    if (sa && l) { struct sockaddr_in in; memset(&in, 0, sizeof in); in.sin_family = AF_INET; inet_aton(conns[h].ip.c_str(), &in.sin_addr); memcpy(sa, &in, std::min<size_t>(*l, sizeof in)); *l = sizeof in; }
    return conns[h].fd;
}
int mc_accept(int fd, struct sockaddr *sa, socklen_t *l) { return do_accept(fd, sa, l); }
int mc_accept4(int fd, struct sockaddr *sa, socklen_t *l, int) { return do_accept(fd, sa, l); }

static ssize_t vread(VConn &c, void *buf, size_t n) {
    sched_point(PK_READ, nullptr);
    if (c.cl_reset) { errno = ECONNRESET; return -1; }
    if (c.rgap) { errno = EAGAIN; return -1; }
    size_t lim = n;
    if (!c.rscript.empty()) {
        int s = c.rscript.front(); c.rscript.pop_front();
        if (s == -1) { c.rgap = true; errno = EAGAIN; return -1; }
        if (s == -2) { c.cl_reset = true; errno = ECONNRESET; return -1; }
        if ((size_t)s < lim) lim = s;
    }
    if (c.in.empty()) { if (c.cl_shut) return 0; errno = EAGAIN; return -1; }
    std::string &s = c.in.front();
    size_t k = std::min(lim, s.size() - c.inoff);
    memcpy(buf, s.data() + c.inoff, k); tsanrt::write_range(buf, k);
    c.inoff += k;
    if (c.inoff == s.size()) { c.in.pop_front(); c.inoff = 0; }
    if (c.on_read) { auto f = c.on_read; f((int)(&c - &conns[0])); }
    return (ssize_t)k;
}
ssize_t mc_read(int fd, void *buf, size_t n) {
    if (VFd *v = vf(fd)) {
        if (v->t == VFd::PIPER) {
            int pi = v->idx; sched_point(PK_PIPE, nullptr); VPipe &p = pipes[pi];
            if (!p.n) { errno = EAGAIN; return -1; }
            size_t k = std::min(n, p.n); p.n -= k; memset(buf, 0, k); tsanrt::acquire(cur->id, (void *)(uintptr_t)(0x1000 + pi * 8)); return k;
        }
        if (v->t == VFd::CONN) return vread(conns[v->idx], buf, n);
        errno = EINVAL; return -1;
    }
    if (vfs::is_fd(fd)) return vfs::read(fd, buf, n);
    return ::read(fd, buf, n);
}
ssize_t mc_recv(int fd, void *buf, size_t n, int) { return mc_read(fd, buf, n); }
ssize_t mc_recvfrom(int fd, void *buf, size_t n, int, struct sockaddr *, socklen_t *) { return mc_read(fd, buf, n); }
static ssize_t vsend(int h, const struct iovec *iov, size_t cnt) {
    sched_point(PK_SEND, nullptr);
    VConn &c = conns[h];
    if (c.cl_reset) { errno = ECONNRESET; return -1; }
    if (c.wblocked) { errno = EAGAIN; return -1; }
    size_t lim = (size_t)-1;
    if (!c.sscript.empty()) {
        int s = c.sscript.front(); c.sscript.pop_front();
        if (s == -1) { c.wblocked = true; errno = EAGAIN; return -1; }
        if (s == -2) { c.cl_reset = true; errno = ECONNRESET; return -1; }
        lim = s;
    }
    if (cnt > 1024) { errno = EMSGSIZE; return -1; }
    c.nsend++;
    size_t tot = 0;
    for (size_t i = 0; i < cnt && tot < lim; i++) {
        size_t k = std::min(iov[i].iov_len, lim - tot);
        tsanrt::read_range(iov[i].iov_base, k);
        c.out.append((const char *)iov[i].iov_base, k); tot += k;
    }
    if (c.on_reply) { auto f = c.on_reply; f(h); }
    return (ssize_t)tot;
}
ssize_t mc_sendmsg(int fd, const struct msghdr *m, int) {
    VFd *v = vf(fd); if (!v || v->t != VFd::CONN) { errno = EBADF; return -1; }
    return vsend(v->idx, m->msg_iov, m->msg_iovlen);
}
ssize_t mc_send(int fd, const void *b, size_t n, int) {
    VFd *v = vf(fd); if (!v || v->t != VFd::CONN) { errno = EBADF; return -1; }
    struct iovec iv; iv.iov_base = (void *)b; iv.iov_len = n; return vsend(v->idx, &iv, 1);
}
ssize_t mc_write(int fd, const void *buf, size_t n) {
    if (VFd *v = vf(fd)) {
        if (v->t == VFd::PIPEW) { tsanrt::release(cur ? cur->id : 0, (void *)(uintptr_t)(0x1000 + v->idx * 8)); pipes[v->idx].n += n; sched_point(PK_PIPE, nullptr); return n; }
        if (v->t == VFd::CONN) return mc_send(fd, buf, n, 0);
        errno = EINVAL; return -1;
    }
    if (vfs::is_fd(fd)) return vfs::write(fd, buf, n);
    return ::write(fd, buf, n);
}
int mc_close(int fd) {
    if (fd >= FD0) {
        VFd *v = vf(fd);
        if (!v) { sim_errors.push_back("close of a descriptor that is not open: " + std::to_string(fd - FD0)); errno = EBADF; return -1; }
        if (v->t == VFd::CONN) { conns[v->idx].open = false; conns[v->idx].wblocked = false; }
        v->t = VFd::NONE; freefds.push_back(fd - FD0);
        return 0;
    }
    if (vfs::is_fd(fd)) return vfs::close(fd);
    return ::close(fd);
}
int mc_open(const char *p, int flags, ...) {
    va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
    if (vfs::is_path(p)) return vfs::open(p, flags);
    return ::open(p, flags, mode);
}
int mc_fsync(int fd) { return vfs::is_fd(fd) ? vfs::fsync(fd) : ::fsync(fd); }
int mc_fdatasync(int fd) { return vfs::is_fd(fd) ? vfs::fsync(fd) : ::fdatasync(fd); }
off_t mc_lseek(int fd, off_t o, int w) { return vfs::is_fd(fd) ? vfs::lseek(fd, o, w) : ::lseek(fd, o, w); }
int mc_ftruncate(int fd, off_t o) { return vfs::is_fd(fd) ? vfs::ftruncate(fd, o) : ::ftruncate(fd, o); }
ssize_t mc_pread(int fd, void *b, size_t n, off_t o) { return vfs::is_fd(fd) ? vfs::pread(fd, b, n, o) : ::pread(fd, b, n, o); }
ssize_t mc_pwrite(int fd, const void *b, size_t n, off_t o) { return vfs::is_fd(fd) ? vfs::pwrite(fd, b, n, o) : ::pwrite(fd, b, n, o); }
int mc_unlink(const char *p) { return vfs::is_path(p) ? vfs::unlink(p) : ::unlink(p); }
int mc_remove(const char *p) { return vfs::is_path(p) ? vfs::unlink(p) : ::remove(p); }
int mc_rename(const char *a, const char *b) { return vfs::is_path(a) ? vfs::rename(a, b) : ::rename(a, b); }
int mc_mkdir(const char *p, mode_t m) { return vfs::is_path(p) ? 0 : ::mkdir(p, m); }
int mc_access(const char *p, int m) { return vfs::is_path(p) ? vfs::access(p) : ::access(p, m); }
int mc_stat(const char *p, struct stat *st) { return vfs::is_path(p) ? vfs::stat(p, st) : ::stat(p, st); }
int mc_lstat(const char *p, struct stat *st) { return mc_stat(p, st); }
int mc_fstat(int fd, struct stat *st) { return vfs::is_fd(fd) ? vfs::fstat(fd, st) : ::fstat(fd, st); }
DIR *mc_opendir(const char *p) { return vfs::is_path(p) ? (DIR *)vfs::opendir(p) : ::opendir(p); }
struct dirent *mc_readdir(DIR *d) { return vfs::is_dir(d) ? vfs::readdir(d) : ::readdir(d); }
int mc_closedir(DIR *d) { return vfs::is_dir(d) ? vfs::closedir(d) : ::closedir(d); }
int mc_scandir(const char *p, struct dirent ***namelist, int (*filter)(const struct dirent *), int (*compar)(const struct dirent **, const struct dirent **)) {
    return vfs::is_path(p) ? vfs::scandir(p, namelist, filter, compar) : ::scandir(p, namelist, filter, compar);
}
} // extern C

namespace sim {
std::vector<std::pair<void *, size_t>> slab_live_list() { std::vector<std::pair<void *, size_t>> r; for (auto &e : slab_live) r.push_back({e.first, e.second.first}); return r; }
bool slab_block_of(const void *p, void **base, size_t *size) {
    auto it = slab_live.upper_bound((void *)p); if (it == slab_live.begin()) return false; --it;
    if ((const char *)p < (const char *)it->first + it->second.first) { *base = it->first; *size = it->second.first; return true; }
    return false;
}
static std::vector<std::string> g_args; static std::vector<char *> g_argv;
static void *server_thread(void *) {
    g_argv.clear(); static char a0[] = "memcached"; g_argv.push_back(a0);
    for (auto &s : g_args) g_argv.push_back((char *)s.c_str());
    int n = (int)g_argv.size(); g_argv.push_back(nullptr);
    extern int opterr; (void)opterr;
    return (void *)(intptr_t)mc_server_main(n, g_argv.data());
}
void boot(const std::vector<std::string> &args) {
    g_args = args;
    Fiber *f = new_fiber(server_thread, nullptr, 8 << 20);
    f->name = "main";
    tsanrt::fork_edge(0, f->id);
    run();
}
void deliver_signal(int sig) { if (sigh[sig]) sigh[sig](sig); }
static void run_handler() { int s = sig_pend; sig_pend = 0; if (sigh[s]) sigh[s](s); }
void name_fiber(int id, const char *n) { fibers[id]->name = n; }
}
