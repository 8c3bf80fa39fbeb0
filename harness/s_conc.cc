// C18 linearizability of concurrent commands
#include "alpha.h"
#include "conc.h"
using namespace ex; using namespace al; using std::string; using std::vector; using conc::Prog;
static const Strs OBS = {"getattr K\r\n", "gets K\r\n", "lop get K 0..-1\r\n", "sop get K 0\r\n", "mop get K 0 0\r\n", "bop get K 0..100000\r\n", "bop get K 0x00..0xffffff\r\n", "get other\r\n"};
static const Strs CLEAN = {"delete K\r\n", "delete other\r\n"};
// commands that do something in the state, reads that observe it, and whole-store commands
static Strs cmds_for(const string &st) {
    Strs common = {"delete K\r\n", kset("set", "K", "n", 1), "getattr K\r\n", "touch K 100\r\n", "flush_all\r\n"};
    if (st == "kv" || st == "num") return cat({common, {"gets K other\r\n", kset("add", "K", "a", 2), kset("replace", "K", "rr", 3), kset("append", "K", "5"), kset("prepend", "K", "6"), kset("cas", "K", "c", 4, 0, "@L(K)"), "incr K 7\r\n", "decr K 3\r\n", "setattr K expiretime=50\r\n", "flush_prefix K\r\n"}});
    if (st == "none") return cat({common, {"get K other\r\n", kset("add", "K", "a", 2), kset("replace", "K", "rr", 3), "incr K 7 1 0 5\r\n", "lop create K 0 0 5\r\n", "lop insert K 0 1 create 0 0 5\r\nz\r\n", "lop insert K 0 1\r\ny\r\n", "sop insert K 1 create 0 0 5\r\nz\r\n", "mop insert K n 1 create 0 0 5\r\nz\r\n", "mop upsert K n 1\r\nz\r\n", bopi("K", "6", "z", "0x02", "create 0 0 5"), "bop upsert K 5 1 create 0 0 5\r\nw\r\n", "bop incr K 5 1\r\n"}});
    if (st == "list" || st == "list0") return cat({common, {"lop insert K 0 1\r\nz\r\n", "lop insert K -1 1\r\ny\r\n", "lop insert K 1 1 create 0 0 5\r\nx\r\n", "lop delete K 0\r\n", "lop delete K 0..-1 drop\r\n", "lop get K 0..-1\r\n", "lop get K 0 delete\r\n", "lop get K 0..-1 drop\r\n", "setattr K maxcount=3 overflowaction=error\r\n", "lop create K 0 0 5\r\n"}});
    if (st == "set") return cat({common, {"sop insert K 1\r\nz\r\n", "sop insert K 1\r\na\r\n", "sop delete K 1\r\na\r\n", "sop delete K 1 drop\r\na\r\n", "sop exist K 1\r\na\r\n", "sop get K 0\r\n", "sop get K 0 drop\r\n", "sop get K 1 delete\r\n", "setattr K maxcount=2\r\n"}});
    if (st == "map") return cat({common, {"mop insert K f 1\r\nz\r\n", "mop insert K n 1\r\nz\r\n", "mop upsert K f 1\r\nz\r\n", "mop update K f 1\r\nu\r\n", "mop delete K 1 1\r\nf\r\n", "mop delete K 0 0 drop\r\n", "mop get K 0 0\r\n", "mop get K 1 1 delete\r\nf\r\n", "mop get K 0 0 drop\r\n"}});
    return cat({common, {bopi("K", "5", "z"), bopi("K", "6", "z", "0x02"), "bop upsert K 5 1\r\nw\r\n", "bop update K 5 0x03 1\r\nu\r\n", "bop delete K 5\r\n", "bop delete K 0..100 drop\r\n", "bop get K 0..100\r\n", "bop get K 0..100 delete\r\n", "bop get K 5 drop\r\n", "bop count K 0..100\r\n", "bop position K 9 asc\r\n", "bop gbp K asc 0..9\r\n", "bop smget 4 2 0..100 5 duplicate\r\nK K2\r\n", "bop mget 1 1 0..100 5\r\nK\r\n", "setattr K maxcount=3 overflowaction=smallest_trim\r\n"}});
}
static vector<TypeInit> states() { vector<TypeInit> r; for (auto &x : types16()) { string n = x.name; if (n == "num" || n == "list" || n == "set" || n == "map" || n == "tree" || n == "none" || n == "trimmed") r.push_back(x); } for (auto &x : types("K")) { string n = x.name; if (n == "tree1") r.push_back(x); } return r; }
SUITE("C18", lin_pairs, "tsan", BOTH) { // one command on each of two connections
    mc::boot_std({"-t", "4", "-g", "10"}); conc::Engine e(ctx); e.connect(2); e.o.bound = ctx.thorough ? 3 : 2; auto ts = ctx.thorough ? types16() : states();
    vector<Prog> ps; for (auto &t : ts) { auto cs = ctx.thorough ? al::all_cmds() : cmds_for(t.name == string("list0") ? "list" : t.name); for (size_t i = 0; i < cs.size(); i++) for (size_t j = i; j < cs.size(); j++) { Prog p; p.name = string("state ") + t.name; p.init = cat({t.init, {kset("set", "other", "keep", 7), "gets K\r\n"}}); p.conns = {{cs[i]}, {cs[j]}}; p.final_ = OBS; p.cleanup = CLEAN; ps.push_back(p); } }
    { vector<Prog> w; for (size_t i = 0; i < ps.size(); i += ps.size() / 400 + 1) w.push_back(ps[i]); e.warm(w); }
    ctx.note_bound(mc::fmt("%zu item states, %zu pairs of concurrent commands, all schedules with at most %d preemptions; every outcome compared with both sequential orders in the model, then the store read back", ts.size(), ps.size(), e.o.bound));
    for (auto &p : ps) { if (!ctx.mine()) continue; e.explore(p); if (ctx.case_index() % 331 == 1) ctx.sample(p.name + ": " + mc::esc(p.conns[0][0], 60) + " || " + mc::esc(p.conns[1][0], 60) + "; so far " + e.report()); if (ctx.out_of_time_fast()) break; }
    ctx.note_bound("worker 0: " + e.report());
}
static void go(mc::Ctx &ctx, conc::Engine &e, const vector<Prog> &ps, const char *what) {
    { vector<Prog> w; for (size_t i = 0; i < ps.size(); i += ps.size() / 200 + 1) w.push_back(ps[i]); e.warm(w); }
    ctx.note_bound(mc::fmt("%zu programs (%s), all schedules with at most %d preemptions", ps.size(), what, e.o.bound));
    for (auto &p : ps) { if (!ctx.mine()) continue; e.explore(p); if (ctx.case_index() % 331 == 1) ctx.sample(p.name + ": " + mc::esc(p.conns[0][0], 60) + " || " + mc::esc(p.conns[1][0], 60) + "; so far " + e.report()); if (ctx.out_of_time_fast()) break; }
    ctx.note_bound("worker 0: " + e.report());
}
struct Grp { const char *name; Strs init, cmds, three; };
static vector<Grp> groups() { // a few strongly interfering commands per group, for longer programs
    return { {"kv", {kset("set", "K", "4", 1), "gets K\r\n"}, {kset("set", "K", "9", 2), "gets K\r\n", kset("cas", "K", "7", 3, 0, "@L(K)"), "incr K 10\r\n", kset("append", "K", "5"), "delete K\r\n", kset("add", "K", "1", 4)}, {"decr K 1\r\n", kset("replace", "K", "88"), "touch K 20\r\n", "flush_all\r\n"}},
        {"list", {"lop create K 3 0 3 head_trim\r\n", "lop insert K 0 1\r\na\r\n", "lop insert K -1 1\r\nb\r\n"}, {"lop insert K 0 1\r\nx\r\n", "lop insert K -1 1 create 0 0 3\r\ny\r\n", "lop get K 0..-1\r\n", "lop get K 0 drop\r\n", "lop delete K 0..-1 drop\r\n", "delete K\r\n"}, {"lop delete K 1\r\n", "lop create K 0 0 2 error\r\n", "getattr K count maxcount\r\n"}},
        {"set", {"sop create K 4 500 3\r\n", "sop insert K 1\r\na\r\n"}, {"sop insert K 1\r\na\r\n", "sop insert K 1 create 0 0 3\r\nb\r\n", "sop delete K 1 drop\r\na\r\n", "sop get K 0\r\n", "sop get K 1 drop\r\n", "sop exist K 1\r\nb\r\n"}, {"delete K\r\n", "sop create K 0 0 2\r\n"}},
        {"map", {"mop create K 4 0 3\r\n", "mop insert K f 1\r\na\r\n"}, {"mop insert K f 1\r\nz\r\n", "mop insert K n 1 create 0 0 3\r\ny\r\n", "mop update K f 1\r\nu\r\n", "mop get K 0 0\r\n", "mop get K 1 1 drop\r\nf\r\n", "mop delete K 0 0 drop\r\n"}, {"delete K\r\n", "mop upsert K f 1\r\nw\r\n"}},
        {"btree", {"bop create K 1 0 3 smallest_trim\r\n", bopi("K", "5", "1", "0x01"), bopi("K", "7", "2")}, {bopi("K", "6", "z"), "bop upsert K 5 1 create 0 0 3\r\n4\r\n", "bop incr K 5 3\r\n", "bop get K 0..100\r\n", "bop get K 0..6 drop\r\n", "bop delete K 0..100 drop\r\n", "bop update K 7 0x05 -1\r\n"}, {"delete K\r\n", "bop count K 0..100\r\n", "setattr K maxcount=2\r\n"}},
        {"keys", {kset("set", "p:K", "1"), kset("set", "p:L", "2"), kset("set", "other", "3")}, {kset("set", "p:K", "11"), "delete p:L\r\n", "flush_prefix p\r\n", "get p:K p:L\r\n", kset("add", "p:M", "m"), "delete p:K\r\n"}, {kset("set", "p:q:K", "x"), "flush_all\r\n", "incr other 1\r\n"}} };
}
static Prog base(const Grp &g) { Prog p; p.name = g.name; p.init = g.init; p.final_ = string(g.name) == "keys" ? Strs{"gets p:K p:L p:M p:q:K other\r\n", kset("add", "p:z", "1")} : OBS; p.cleanup = string(g.name) == "keys" ? Strs{"delete p:K\r\n", "delete p:L\r\n", "delete p:M\r\n", "delete p:q:K\r\n", "delete other\r\n", "delete p:z\r\n"} : CLEAN; return p; }
SUITE("C18", lin_two_two, "tsan", BOTH) { // two commands on each of two connections
    mc::boot_std({"-t", "4"}); conc::Engine e(ctx); e.connect(2); e.o.bound = ctx.thorough ? 2 : 1; vector<Prog> ps;
    for (auto &g : groups()) { size_t n = g.cmds.size(); for (size_t i = 0; i < n * n; i++) for (size_t j = i; j < n * n; j++) { Prog p = base(g); p.conns = {{g.cmds[i / n], g.cmds[i % n]}, {g.cmds[j / n], g.cmds[j % n]}}; ps.push_back(p); } }
    go(ctx, e, ps, "two commands on each of two connections");
}
SUITE("C18", lin_three, "tsan", BOTH) { // one command on each of three connections
    mc::boot_std({"-t", "4"}); conc::Engine e(ctx); e.connect(3); e.o.bound = ctx.thorough ? 2 : 1; vector<Prog> ps;
    for (auto &g : groups()) { Strs c = cat({g.cmds, g.three}); size_t n = c.size(); for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++) for (size_t k = j; k < n; k++) { Prog p = base(g); p.conns = {{c[i]}, {c[j]}, {c[k]}}; ps.push_back(p); } }
    go(ctx, e, ps, "one command on each of three connections");
}
SUITE("C18", lin_misc, "tsan", BOTH) { // whole-store commands, missing prefixes, noreply, pipelines, items about to expire, connections that go away
    mc::boot_std({"-t", "4"}); conc::Engine e(ctx); e.connect(2); e.o.bound = ctx.thorough ? 3 : 2; vector<Prog> ps; auto gs = groups();
    auto add = [&](const string &n, const Strs &init, const Strs &a, const Strs &b, const Strs &fin, const Strs &cl) { Prog p; p.name = n; p.init = init; p.conns = {a, b}; p.final_ = fin; p.cleanup = cl; ps.push_back(p); };
    for (auto &g : gs) { Prog p0 = base(g); string a0 = string(g.name) == "keys" ? "p:K" : "K"; Strs all = cat({g.cmds, g.three});
        for (auto &c : all) { add(string(g.name) + " noreply", g.init, {kset("set", a0, "q", 0, 0, "noreply"), "get " + a0 + "\r\n"}, {c}, p0.final_, p0.cleanup); add(string(g.name) + " delete noreply", g.init, {"delete " + a0 + " noreply\r\n", "get " + a0 + "\r\n"}, {c}, p0.final_, p0.cleanup);
            add(string(g.name) + " expired", cat({g.init, {"touch " + a0 + " 1\r\n", "+2"}}), {c}, {"get " + a0 + "\r\n", kset("add", a0, "e")}, p0.final_, p0.cleanup);
            for (auto &d : all) add(string(g.name) + " expired pair", cat({g.init, {"touch " + a0 + " 1\r\n", "+2"}}), {c}, {d}, p0.final_, p0.cleanup); } }
    // keys of one chain and one prefix that come and go
    Strs ks = {"p:a", "p:b", "p:c", "q:a"}; Strs fin = {"gets p:a p:b p:c q:a\r\n"}, cl; for (auto &k : ks) cl.push_back("delete " + k + "\r\n");
    Strs al; for (auto &k : ks) { al.push_back(kset("set", k, k)); al.push_back("delete " + k + "\r\n"); } al.push_back("flush_prefix p\r\n"); al.push_back("get p:a p:b q:a\r\n"); al.push_back("lop insert p:b 0 1 create 0 0 3\r\nx\r\n");
    for (int m = 0; m < 4; m++) { Strs in; if (m & 1) in.push_back(kset("set", "p:a", "1")); if (m & 2) in.push_back(kset("set", "p:b", "2")); for (size_t i = 0; i < al.size(); i++) for (size_t j = i; j < al.size(); j++) add("prefix keys", in, {al[i]}, {al[j]}, fin, cl); }
    go(ctx, e, ps, "noreply, expired items, keys sharing chains and prefixes");
}
