// Closed-world simulation runtime: runs the real server in one OS thread with
// fibers for its threads, a virtual clock, virtual sockets and a controlled scheduler.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <functional>
#include <map>

namespace sim {

struct Fiber;

enum PointKind { PK_NONE, PK_START, PK_LOCK, PK_UNLOCK, PK_CONDWAIT, PK_SIGNAL, PK_READ, PK_SEND,
                 PK_ACCEPT, PK_CREATE, PK_JOIN, PK_SLEEP, PK_EVLOOP, PK_FS, PK_MEM, PK_YIELD, PK_PIPE };
const char *pk_name(int);

struct Policy {
    // enabled: ids of runnable fibers (ascending).  cur: id of running fiber if it is still enabled, else -1.
    virtual int choose(const std::vector<int> &enabled, int cur, int kind, const void *obj) = 0;
    virtual ~Policy() {}
};
extern Policy *policy;              // null: run current until it blocks, then lowest id
extern int early_timeouts;            // so many timed waits may end before their time during a window (their time has come)
extern uint64_t early_wake_us;      // sleeps of at most this length count as yields (time moves only when nothing else can run)
extern bool points_enabled;         // consult policy at scheduling points (else only when blocking)

struct Config {
    std::vector<std::string> args;  // server command line (without argv[0])
    bool quiet = true;
};

// ---- life cycle
void boot(const std::vector<std::string> &args);   // start the server, run until idle
bool run();                                        // run until no fiber is enabled. false: step limit reached
extern uint64_t step_limit;                        // 0: none (per run() call)
extern uint64_t steps;                             // total scheduling steps
bool server_exited();
int  server_exit_code();
void on_fatal(std::function<void(const std::string &)> f); // called for exit/abort/assert inside the server

// ---- time
uint64_t now_us();
uint64_t now_s();
void advance_us(uint64_t us);      // moves the clock, waking sleepers in order, running to idle after each
inline void advance_s(uint64_t s) { advance_us(s * 1000000ull); }
void settle();                     // run + small time steps (<50ms total) until background work is quiet
bool has_timers_before(uint64_t us);

// ---- client connections
int  connect(const char *ip = "10.1.2.3");  // returns connection handle; server accepts on next run()
void send(int c, const std::string &bytes); // append one segment
std::string take(int c);                    // bytes received so far (and clear)
const std::string &peek(int c);
bool closed(int c);                         // server closed it
void shut(int c);                           // client closes (server reads EOF)
void reset(int c);                          // connection reset
size_t unread(int c);                       // bytes the server has not read yet
void forget(int c);
// send script: each sendmsg consumes one entry: n>0 accept at most n bytes, -1 EAGAIN (blocked until unblock), -2 error
void send_script(int c, const std::vector<int> &script);
void unblock(int c);
bool blocked(int c);
int  send_calls(int c);
// read script: each read consumes one entry: n>0 at most n bytes, -1 EAGAIN, -2 error
void read_script(int c, const std::vector<int> &script);
void set_on_read(int c, std::function<void(int)> f);  // after each read of request bytes
void set_on_reply(int c, std::function<void(int)> f); // after each sendmsg

// simple round trip: send, run, return reply
std::string rpc(int c, const std::string &req);

// ---- heap bookkeeping (server allocations through malloc family)
struct Heap { uint64_t live_blocks, live_bytes, total_allocs; };
Heap heap();
extern int64_t malloc_fail_at;   // >0: counts down on each server heap allocation; fails the one reaching 0
extern bool malloc_failed;
extern int malloc_fail_mode;     // 1: only one; 2: all from then on
// ---- item memory (slabs) bookkeeping via wrapper
struct Slab { uint64_t live_blocks, live_bytes, total_allocs, live_space; }; // space: as rounded by slabs_space_size
Slab slab();
extern int64_t slab_fail_at;     // as above for item memory allocations
extern bool slab_failed;
extern int slab_fail_mode;
extern bool slab_guard;          // poison freed blocks / check (ASan builds)
extern size_t slab_quarantine;   // number of freed blocks withheld from reuse
std::vector<std::pair<void*,size_t>> slab_live_list();
bool slab_block_of(const void *p, void **base, size_t *size);

// ---- misc
int  cur_fiber();
const char *fiber_name(int id);
std::vector<std::string> blocked_report();
int mutex_ord(const void *m);      // number of a mutex in the order of initialisation or first inquiry: the same in every run of one history
bool mutex_stuck();              // a fiber waits for a mutex although nothing can run
int fiber_count(); int fiber_state(int id);
extern std::vector<std::string> sim_errors; // violations noticed by the runtime (bad unlock, ...)
extern uint32_t rand_seed;
void reseed();                   // restart the server's random numbers
void deliver_signal(int sig);    // runs the server's handler for sig
void interrupt(int sig);         // the main thread runs the handler as soon as it runs again, a sleep or wait for events is cut short
void interrupt_points(bool on);  // the main thread can also be interrupted just before it releases a mutex
uint64_t outstanding_fds();      // number of open virtual server-side connection fds
uint64_t total_accepted();
extern int accept_fail, accept_errno; // the next so many accept calls with a connection waiting fail

// VFS hooks (vfs.cc)
}
