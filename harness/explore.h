// Sequence exploration of the real server against the reference model.
#pragma once
#include "mc.h"
#include "model.h"
namespace ex {
typedef std::vector<std::string> Strs;
// One connection's lock step with the model.
struct Lock {
    mc::Ctx *ctx; model::Model m; int c = -1; bool note; std::vector<std::pair<std::string, std::string>> hist;
    const char *pre = "mismatch";
    Lock(mc::Ctx &x);
    void connect();
    // runs one step: "+N" advances the clock N seconds, "~" lets background work finish, otherwise a request.
    // false: reply differs (only after a known finding)
    bool step(const std::string &cmd);
    std::string last_req, last_rep;
    void fail(const std::string &key, const std::string &msg);
    void begin();                 // new case: forget history
    void dump_hist();
};
struct Spec {
    Strs init, alpha, observe, cleanup;
    int depth = 3;
    bool leak = false;            // check the memory returns to the baseline after cleanup
    bool all_lengths = false;     // also run the shorter sequences with the final observation
    std::vector<int> start;       // alphabet indexes allowed at the first step (empty: all)
    std::function<bool(const std::vector<int> &)> keep; // prune (prefix filter)
    std::function<bool(Lock &, const std::string &)> skip; // steps left out in the current state (outcome not specified)
    std::function<void(Lock &)> check;                  // extra check after the observation
};
// every sequence of length depth over the alphabet, each from a clean store
void all_sequences(mc::Ctx &ctx, const Spec &s);
// breadth-first over model states (abstract state + last `memory` commands); every transition replayed on the server
void bfs(mc::Ctx &ctx, const Spec &s, size_t max_states, int memory = 0);
Strs cat(std::initializer_list<Strs> l);
std::string kset(const std::string &cmd, const std::string &key, const std::string &val, int flags = 0, long exp = 0, const std::string &extra = "");
}
