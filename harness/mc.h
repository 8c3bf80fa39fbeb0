// Exploration framework: suites enumerate cases deterministically; forked workers execute them on the real
// server (sim.h) and compare with the reference model; failures are re-executed alone before being reported.
#pragma once
#include "sim.h"
#include <string>
#include <vector>
#include <functional>
#include <cstdint>
#include <cstdarg>

namespace mc {
std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::string esc(const std::string &s, size_t lim = 2000);       // printable form
uint64_t hash(const std::string &s, uint64_t seed = 0);

struct Ctx {
    std::string prop, tier, suite; bool thorough = false;
    int worker = 0, nworkers = 1;
    // ---- sharding: call once per case in a deterministic order
    bool mine();
    // like mine() but groups: several cases per index
    int64_t case_index() const;
    bool out_of_time();
    bool out_of_time_fast();           // cheap form: only looks at the stop flag
    // ---- transcript of the current case (written into the replay file)
    void clear_note();
    void note(const std::string &s);
    // ---- verdicts.  fail() returns only when (prop,key) is listed in the known-findings file.
    void fail(const std::string &key, const std::string &msg);
    // ---- counters
    bool state(uint64_t h);            // records a model state; true if new (globally)
    bool distinct(uint64_t h) { return state(h ^ 0x9e3779b97f4a7c15ull); }
    void trans(uint64_t n = 1);
    void trace(uint64_t n = 1);
    void evals(uint64_t n = 1);
    void sample(const std::string &s);
    void note_bound(const std::string &s); // human description of the bounds (worker 0 only), goes to evidence
    // ---- run f in a forked child (fresh copy of the current process). Returns false if the child died
    // abnormally and that was a known finding; failures are propagated.
    bool isolated(const std::function<void()> &f, int timeout_s = 20);
};
typedef void (*SuiteFn)(Ctx &);
struct Suite { const char *prop, *name, *variant; int tiers; SuiteFn fn; int budget_q, budget_t; };
std::vector<Suite> &suites();
struct Reg { Reg(const Suite &s) { suites().push_back(s); } };
enum { QUICK = 1, THOROUGH = 2, BOTH = 3 };
// SUITE("C06", list_seq, "std", BOTH) { ... uses ctx ... }
#define SUITE_B(prop, name, variant, tiers, bq, bt) \
    static void suite_##name(mc::Ctx &ctx); \
    static mc::Reg reg_##name({prop, #name, variant, mc::tiers, suite_##name, bq, bt}); \
    static void suite_##name(mc::Ctx &ctx)
#define SUITE(prop, name, variant, tiers) SUITE_B(prop, name, variant, tiers, 100, 1500)
extern Ctx *cur_ctx;
std::vector<std::string> std_args(const std::vector<std::string> &extra = {});
void boot_std(const std::vector<std::string> &extra = {});
}
