// Persistence: running the real server (persistence build) on an in-memory file system, killing it at every file operation and recovering from every possible disk image.
#pragma once
#include "alpha.h"
#include "vfs.h"
namespace sim { void set_clock_no_run(uint64_t us); }
namespace pst {
using std::string; using std::vector; using ex::Strs; using vfs::Image;
static const uint64_t T0 = 1700000000ull * 1000000;
struct Opts { Strs engine; bool async = false; bool ckpt = false; int pct = 1; Strs args; string conf() const; };
struct Rec { string req, rep; int64_t at; };            // executed command and the server's second at its completion
struct Phase {                                           // one life of the server
    bool started = false, exited = false, complete = true; int code = 0; vector<Rec> recs; vector<vfs::Op> ops; Image img; uint64_t clock = 0; string err; vector<uint64_t> matched; string extra; uint64_t faults = 0, mark = 0, ends = 0, snaps = 0; bool failed = false;
};
// in a child: boot on the image, call body (may be empty), collect.  body gets the server running and an empty Phase to fill recs of
struct Life { int c = -1; Phase *ph; mc::Ctx *ctx; bool cmd(const string &req); void tick(uint64_t us); void stop(); void ckpt(); bool step(const string &s); };
bool life(mc::Ctx &ctx, const Image &in, uint64_t clock, const Opts &o, const std::function<void(Life &)> &body, Phase &out);
// model after each command: v[0] before, v[i] after the i-th
vector<model::Model> models(const model::Model &start, const vector<Rec> &recs, string &err);
model::Model restarted(const model::Model &m, int64_t now);
// whether the running server (through l) shows the store m; reason when not
struct Seen { Strs req, rep; };
Seen observe(Life &l, const Strs &keys);
string differs(const Seen &s, const model::Model &m);
// every possible disk contents: f(image, number of replies sent before the crash, description)
struct Crash { Image img; int acked; string what; };
void crashes(const Image &init, const vector<vfs::Op> &ops, int acked_at_end, bool every_byte, const std::function<void(const Crash &)> &f);
string show(const Image &);
string ser(const Image &);
Strs keys_of(const Strs &cmds);
}
