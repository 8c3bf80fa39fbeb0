// C19 a value being sent is never affected by concurrent changes
#include "alpha.h"
#include <algorithm>
using namespace ex; using namespace al; using std::string; using std::vector;
static string big(size_t n, int seed) { string v(n, 0); uint32_t x = seed * 2654435761u + 7; for (auto &c : v) { x = x * 1664525 + 1013904223; c = 'a' + (x >> 24) % 26; } return v; }
struct S19 { const char *name; Strs init, reads; };
static vector<S19> states19() {
    vector<S19> r; r.push_back({"kv", {kset("set", "K", "41", 2)}, {"get K\r\n", "gets K other\r\n", "mget 7 2\r\nK other\r\n"}});
    r.push_back({"kvbig", {kset("set", "K", big(3000, 1), 2)}, {"get K\r\n", "get other K other K\r\n"}});
    r.push_back({"list", {"lop create K 3 0 10 head_trim\r\n", "lop insert K -1 1\r\na\r\n", "lop insert K -1 200\r\n" + big(200, 2) + "\r\n", "lop insert K -1 1\r\nc\r\n"}, {"lop get K 0..-1\r\n", "lop get K 1\r\n", "lop get K 0..1 delete\r\n", "lop get K 0..-1 drop\r\n"}});
    r.push_back({"set", {"sop create K 4 500 10\r\n", "sop insert K 1\r\na\r\n", "sop insert K 200\r\n" + big(200, 3) + "\r\n", "sop insert K 1\r\nb\r\n", "sop insert K 1\r\nd\r\n"}, {"sop get K 0\r\n", "sop get K 0 delete\r\n", "sop get K 0 drop\r\n"}});
    r.push_back({"map", {"mop create K 4 0 0\r\n", "mop insert K f 1\r\na\r\n", "mop insert K g 200\r\n" + big(200, 4) + "\r\n", "mop insert K h 1\r\nc\r\n"}, {"mop get K 0 0\r\n", "mop get K 3 2\r\nh f\r\n", "mop get K 1 1 delete\r\ng\r\n", "mop get K 0 0 drop\r\n"}});
    r.push_back({"tree", {"bop create K 1 0 10\r\n", bopi("K", "5", "five", "0x01"), bopi("K", "9", big(200, 5)), bopi("K", "30", "31"), bopi("K", "40", "4"), bopi("K", "41", "5"), bopi("K", "42", "6")}, {"bop get K 0..100\r\n", "bop get K 5\r\n", "bop get K 100..0 delete\r\n", "bop get K 0..100 drop\r\n", "bop mget 4 2 0..100 5\r\nK K2\r\n", "bop smget 4 2 0..100 9 duplicate\r\nK K2\r\n", "bop gbp K asc 0..9\r\n", "bop pwg K 9 asc 2\r\n"}});
    r.push_back({"bintree", {"bop create K 1 0 10 largest_silent_trim\r\n", bopi("K", "0x0102", "five", "0x01"), bopi("K", "0x0110", "nine")}, {"bop get K 0x00..0xffff\r\n", "bop get K 0x0102 drop\r\n"}});
    return r; }
static Strs muts(const string &st, bool all) { Strs c; string ty = st.substr(0, 2) == "kv" ? "" : st == "list" ? "lop" : st == "set" ? "sop" : st == "map" ? "mop" : "bop";
    for (auto &x : al::all_cmds()) { string v = x.substr(0, 3); bool coll = v == "lop" || v == "sop" || v == "mop" || v == "bop"; if (coll && v != ty && !all) continue; c.push_back(x); }
    c.push_back("flush_all\r\n"); c.push_back("+2000"); c.push_back(kset("set", "K", big(3000, 9), 3)); c.push_back(kset("append", "K", big(500, 8))); c.push_back(kset("prepend", "K", big(500, 8))); c.push_back("decr K 40\r\n");
    if (ty == "mop") { c.push_back("mop update K g 200\r\n" + big(200, 11) + "\r\n"); c.push_back("mop upsert K h 300\r\n" + big(300, 11) + "\r\n"); c.push_back("mop delete K 3 2\r\nf g\r\n"); }
    if (ty == "bop") { c.push_back("bop update K 9 200\r\n" + big(200, 12) + "\r\n"); c.push_back("bop upsert K 9 300\r\n" + big(300, 12) + "\r\n"); c.push_back("bop update K 9 0xffff -1\r\n"); c.push_back("bop incr K 30 1\r\n"); c.push_back("bop delete K 9..41\r\n"); c.push_back("setattr K maxcount=6 overflowaction=smallest_trim\r\n"); }
    if (ty == "lop") { c.push_back("lop insert K 1 200\r\n" + big(200, 13) + "\r\n"); c.push_back("lop delete K 1\r\n"); }
    if (ty == "sop") c.push_back("sop delete K 200 drop\r\n" + big(200, 3) + "\r\n");
    return c; }
static const Strs OBS19 = {"getattr K\r\n", "gets K\r\n", "lop get K 0..-1\r\n", "sop get K 0\r\n", "mop get K 0 0\r\n", "bop get K 0..100000\r\n", "bop get K 0x00..0xffffff\r\n", "get other\r\n"};
// script: lengths after which the socket blocks; at each block the corresponding changes happen. last: 0 read on, 1 the reader goes away, 2 connection reset
static void one(mc::Ctx &ctx, Lock &l, const S19 &s, const string &read, const vector<int> &at, const vector<Strs> &ch, int last, uint64_t base) {
    l.begin(); for (auto &i : s.init) l.step(i); l.step(kset("set", "other", "keep", 7)); l.step("gets K\r\n"); int r = sim::connect(); sim::run();
    vector<int> sc; for (int n : at) { if (n) sc.push_back(n); sc.push_back(-1); } sim::send_script(r, sc); l.hist.push_back({"reader: " + read, "(socket takes " + [&] { string t; for (int n : at) t += S(n) + " "; return t; }() + "bytes)"});
    model::Model before = l.m; int64_t now0 = l.m.now; string err; sim::send(r, read); sim::run(); if (read.compare(0, 4, "gets")) l.m.exec(read, nullptr, err); err.clear(); bool gone = false;
    for (size_t k = 0; k < at.size(); k++) { if (!sim::blocked(r)) break; for (auto &c : ch[k]) l.step(c); if (k + 1 == at.size() && last) { if (last == 1) { sim::shut(r); sim::unblock(r); } else sim::reset(r); sim::run(); gone = true; } else { sim::unblock(r); sim::run(); } }
    string rep = sim::take(r); l.hist.push_back({"reader gets", rep}); ctx.trace();
    if (!gone || last == 1) { before.now = now0; before.exec(read, &rep, err); if (!err.empty() && !(gone && rep.size() < 2)) l.fail("changed", "the reply differs from the state when the request was executed: " + err); }
    if (!gone) { sim::shut(r); sim::run(); } if (!sim::closed(r)) l.fail("open", "the connection of the reader is still open"); sim::forget(r);
    for (auto &o : OBS19) l.step(o); l.step("delete K\r\n"); l.step("delete other\r\n"); sim::settle();
    if (sim::slab().live_bytes != base) l.fail("leak", mc::fmt("item memory in use after everything was removed: %llu bytes (before: %llu)", (unsigned long long)sim::slab().live_bytes, (unsigned long long)base));
    for (auto &e : sim::sim_errors) l.fail("runtime", e); model::Model n; n.now = sim::now_s(); l.m = n;
}
static bool quiet(const string &read, const string &m) { (void)read; return m.compare(0, 4, "mget") != 0; }
SUITE("C19", stable_one, "asmall", BOTH) { // state x reading command x place where the socket blocks x one change (then read on / close / reset)
    mc::boot_std({"-g", "10"}); Lock l(ctx); l.connect(); sim::settle(); sim::slab_guard = true; sim::slab_quarantine = 60; uint64_t base = sim::slab().live_bytes; uint64_t n = 0;
    ctx.note_bound("7 item states x 2-8 reading commands x sockets that block after 0, 1, 20, 60, 250 bytes and at both ends of the reply x every command of the alphabet plus flushes, expiry and size-changing updates; freed item memory is poisoned (ASan) and withheld from reuse; the reader then reads on, closes or resets");
    for (auto &s : states19()) for (auto &r : s.reads) for (auto &m : muts(s.name, true)) for (int at : {0, 1, 20, 60, 250, 3100}) for (int last = 0; last < 3; last++) { if (last && at != 0 && at != 60 && !ctx.thorough) continue; if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return; one(ctx, l, s, r, {at}, {{m}}, last, base); ctx.distinct(mc::hash(s.name + r + m, at * 3 + last)); if (n++ % 3001 == 0) ctx.sample(string(s.name) + ": " + mc::esc(r, 40) + " blocked after " + S(at) + " bytes, then " + mc::esc(m, 60)); }
}
SUITE("C19", stable_two, "asmall", BOTH) { // two changes: at one block, or at two different blocks
    mc::boot_std({"-g", "10"}); Lock l(ctx); l.connect(); sim::settle(); sim::slab_guard = true; sim::slab_quarantine = 60; uint64_t base = sim::slab().live_bytes;
    ctx.note_bound("ordered pairs of changes of the same type: both while the socket is blocked, or the second at a later block");
    for (auto &s : states19()) for (auto &r : s.reads) { auto ms = muts(s.name, false); for (auto &m1 : ms) for (auto &m2 : ms) { if (!ctx.thorough && mc::hash(s.name + r + m1 + m2) % 2) continue; for (int k = 0; k < 2; k++) { if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return; if (k == 0) one(ctx, l, s, r, {0}, {{m1, m2}}, 0, base); else one(ctx, l, s, r, {8, 17}, {{m1}, {m2}}, 0, base); ctx.distinct(mc::hash(s.name + r + m1 + "/" + m2, k)); } } }
}
