// Exploration of thread schedules of the real server (delay / preemption bounded depth-first search) with a
// linearizability check against the reference model.
#pragma once
#include "explore.h"
#include "tsanrt.h"
namespace conc {
using ex::Strs; using std::string; using std::vector;
struct Op { int conn; string req, rep; uint64_t call = 0, ret = 0; bool done = false; };
struct Prog {
    string name;
    Strs init;                    // sent one after the other before the window
    vector<Strs> conns;           // commands of each connection; the next one is sent when the reply has arrived
    Strs final_;                  // observation afterwards
    Strs cleanup;
    bool split = true;            // command line and data block arrive as two segments
    vector<vector<int>> sscript;  // per connection: send script
    int fresh = 0;                // the last so many connections are opened within the window (and closed after it)
};
struct Dec { vector<int> en; int chosen, dflt; bool blocked; int kind; };
struct Run {
    vector<Dec> decs; vector<Op> ops; vector<Op> init, fin; vector<string> problems; string extra; bool diverged = false; bool limit = false;
    string pack() const; bool unpack(const string &s);
};
typedef vector<std::pair<int, int>> Sched; // decision index -> fiber
struct Options {
    int bound = 2;                // deviations from the default schedule
    int free_blocked = 1;         // choices when the running thread blocks cost nothing
    bool fork = false;            // every execution in a child process (programs that create threads)
    uint64_t max_runs = 200000;   // per program
    bool leak = true;             // item memory returns to the base after the cleanup
    bool serial_first = true;
    bool lf = false;              // replies may end in a line feed only
    std::function<void()> setup;                      // before the init commands (in the child)
    std::function<void(Run &)> finish;                // after the window, before the final commands
    std::function<string(const Run &)> judge;         // replaces the linearizability check: "" when fine
    std::function<string(const Run &)> also;          // additional check: "" when fine
    std::function<bool(const Prog &, const vector<Op> &, const vector<Op> &, string &)> lin;
};
struct Engine {
    mc::Ctx &ctx; Options o; vector<int> cs; int adm = -1; uint64_t runs = 0, diverged = 0, capped = 0, restarts = 0, outcomes = 0; int maxdec = 0;
    Engine(mc::Ctx &c) : ctx(c) {}
    void connect(int n);          // admin connection and n client connections, each on a worker thread of its own
    void warm(const vector<Prog> &ps);
    bool explore(const Prog &p);  // false: a failure was reported (known finding)
    Run exec(const Prog &p, const Sched &s);
    string report() const;
private:
    Run exec_here(const Prog &p, const Sched &s); std::map<uint64_t, string> memo; uint64_t base = 0;
    bool check(const Prog &p, const Run &r, const Sched &s);
};
// brute-force linearizability of ops (after the sequential init) followed by the sequential final commands
string linearize(const Prog &p, const vector<Op> &init, const vector<Op> &ops, const vector<Op> &fin);
}
