// C20 accounting, C39 counters, C40 per-prefix statistics, C21 memory limit and sticky items
#include "alpha.h"
#include <algorithm>
#include <cstring>
using namespace ex; using namespace al; using std::string; using std::vector; using std::map;
typedef map<string, long long> Cnt;
static Cnt stats(int c, const string &what = "stats\r\n") { string r = sim::rpc(c, what); Cnt m; size_t p = 0; while (p < r.size()) { size_t e = r.find("\r\n", p); if (e == string::npos) break; auto t = model::split(r.substr(p, e - p)); if (t.size() >= 3 && t[0] == "STAT") m[t[1]] = atoll(t[2].c_str()); p = e + 2; } return m; }
// reported sizes against the real use of item memory (the allocator wrapper counts every block)
static void check_truth(Lock &l, const char *when, bool exact_items = true) {
    if (exact_items) for (auto k : {"K", "p:b"}) sim::rpc(l.c, string("getattr ") + k + " type\r\n"); // a dead item goes when it is touched
    l.m.expire_all(); auto s = stats(l.c); auto sl = sim::slab(); l.ctx->evals();
    long long n = 0, st = 0; for (auto &k : l.m.kv) { n++; if (k.second.exp == -1) st++; }
    if (exact_items && s["curr_items"] != n) l.fail("items", mc::fmt("%s: curr_items %lld but %lld items are stored", when, s["curr_items"], n));
    if (exact_items && s["sticky_items"] != st) l.fail("sticky", mc::fmt("%s: sticky_items %lld but %lld sticky items are stored", when, s["sticky_items"], st));
    if ((sl.live_space || !sl.live_blocks) && (uint64_t)s["bytes"] != sl.live_space) l.fail("bytes", mc::fmt("%s: bytes %lld but the item memory in use is %llu", when, s["bytes"], (unsigned long long)sl.live_space));
    if (!exact_items) return;
    if (st == 0 && s["sticky_bytes"] != 0) l.fail("sticky", mc::fmt("%s: sticky_bytes %lld without a sticky item", when, s["sticky_bytes"]));
    if (st == n && s["sticky_bytes"] != s["bytes"]) l.fail("sticky", mc::fmt("%s: sticky_bytes %lld of %lld bytes although every item is sticky", when, s["sticky_bytes"], s["bytes"]));
}
static void check_empty(Lock &l, uint64_t base) { sim::settle(); if (sim::slab().live_bytes != base) l.fail("leak", mc::fmt("item memory in use after everything was removed: %llu bytes (before: %llu)", (unsigned long long)sim::slab().live_bytes, (unsigned long long)base)); check_truth(l, "after everything was removed"); }
SUITE_B("C20", acct_matrix, "asmall", BOTH, 100, 1500) {
    mc::boot_std({"-g", "10"}); Lock l(ctx); l.connect(); auto ts = types("K"); auto cs = all_cmds(), bad = bad_cmds(); sim::settle(); uint64_t base = sim::slab().live_bytes; l.pre = "reply";
    ctx.note_bound(S(ts.size()) + " item states x every command" + (ctx.thorough ? " triple (third from a fifth)" : " pair") + " of " + S(cs.size()) + ", and every one followed by each of " + S(bad.size()) + " refused, oversized or badly terminated commands; item count, bytes, sticky figures compared with the allocator's own count, then everything removed");
    auto fin = [&] { check_truth(l, "after the commands"); sim::rpc(l.c, "delete K\r\n"); l.m.kv.clear(); check_empty(l, base); l.m = model::Model(); l.m.now = sim::now_s(); ctx.trace(); };
    for (auto &t : ts) for (auto &a : cs) for (auto &b : cs) { if (!ctx.mine()) continue; l.begin(); for (auto &c : t.init) l.step(c); l.step(a); l.step(b); fin(); ctx.distinct(mc::hash(t.name + a + b)); }
    for (auto &t : ts) for (auto &a : cs) for (auto &b : bad) { if (!ctx.mine()) continue; if (b.size() > 10000 && (mc::hash(a) % 8)) continue; l.begin(); for (auto &c : t.init) l.step(c); l.step(a);
        string req = b, rep = sim::rpc(l.c, req); l.hist.push_back({mc::esc(req, 200), rep}); // the outcome itself is C24's business: only what the server holds on to matters here
        string cnt = sim::rpc(l.c, "getattr K count type expiretime\r\n"), g = sim::rpc(l.c, "get K\r\n"); bool have = cnt.compare(0, 9, "NOT_FOUND") && cnt.compare(0, 12, "CLIENT_ERROR"); if (g.compare(0, 5, "VALUE") == 0) have = true;
        if (sim::rpc(l.c, "getattr K type\r\n").compare(0, 4, "ATTR") == 0) have = true; l.m.kv.clear(); check_truth(l, "after a refused command", false); auto s = stats(l.c); if (s["curr_items"] != (have ? 1 : 0)) l.fail("items", mc::fmt("curr_items %lld, item present: %d", s["curr_items"], have));
        sim::rpc(l.c, "delete K\r\n"); check_empty(l, base); l.m = model::Model(); l.m.now = sim::now_s(); ctx.trace(); }
    if (ctx.thorough) for (auto &t : ts) for (auto &a : cs) for (auto &b : cs) for (size_t i = 0; i < cs.size(); i += 5) { if (ctx.out_of_time_fast()) return; if (!ctx.mine()) continue; l.begin(); for (auto &c : t.init) l.step(c); l.step(a); l.step(b); l.step(cs[i]); fin(); }
}
static void seq20(mc::Ctx &ctx, Strs init, Strs alpha, int dq, int dt) { Spec s; s.init = init; s.alpha = alpha; s.depth = ctx.thorough ? dt : dq; s.cleanup = {"delete K\r\n", "delete p:b\r\n"}; s.leak = true; s.check = [](Lock &l) { check_truth(l, "after the commands"); }; all_sequences(ctx, s); }
#define SEQ20(name, dq, dt, INIT, ...) SUITE("C20", name, "small", BOTH) { mc::boot_std({"-g", "10"}); seq20(ctx, INIT, __VA_ARGS__, dq, dt); }
SEQ20(acct_kv, 4, 5, Strs{}, Strs{kset("set", "K", "v"), kset("set", "K", string(500, 'v'), 0, -1), kset("append", "K", string(200, 'a')), kset("prepend", "K", "x"), kset("add", "K", "1", 0, -1), kset("replace", "K", string(3000, 'q')), "incr K 1\r\n", "incr K 1 0 0 99\r\n", "touch K 0\r\n", "touch K -1\r\n", "touch K 50\r\n", "setattr K expiretime=-1\r\n", kset("set", "p:b", "v", 0, 1), "delete K\r\n", "get K p:b\r\n", "+2"})
SEQ20(acct_list, 4, 5, Strs{"lop create K 1 0 3\r\n"}, Strs{"lop insert K 0 1\r\na\r\n", "lop insert K -1 300\r\n" + string(300, 'b') + "\r\n", "lop insert K 1 3 create 0 -1 0\r\nccc\r\n", "lop delete K 0\r\n", "lop delete K 0..-1 drop\r\n", "lop get K 0 delete\r\n", "lop get K -1..0 drop\r\n", "setattr K maxcount=1\r\n", "setattr K overflowaction=head_trim\r\n", "setattr K overflowaction=error\r\n", "delete K\r\n", kset("set", "K", "v"), "setattr K expiretime=-1\r\n"})
SEQ20(acct_set, 5, 6, Strs{"sop create K 1 0 6\r\n"}, Strs{"sop insert K 2\r\nab\r\n", "sop insert K 2\r\nbA\r\n", "sop insert K 2\r\nac\r\n", "sop insert K 200\r\n" + string(200, 'b') + "\r\n", "sop insert K 1 create 0 -1 0\r\nd\r\n", "sop delete K 2\r\nab\r\n", "sop delete K 2 drop\r\nbA\r\n", "sop get K 1 delete\r\n", "sop get K 0 drop\r\n", "delete K\r\n"})
SEQ20(acct_map, 5, 6, Strs{"mop create K 1 0 6\r\n"}, Strs{"mop insert K ab 2\r\nab\r\n", "mop insert K bA 200\r\n" + string(200, 'b') + "\r\n", "mop insert K c 1 create 0 -1 0\r\nd\r\n", "mop upsert K ab 100\r\n" + string(100, 'u') + "\r\n", "mop update K bA 1\r\nx\r\n", "mop delete K 2 1\r\nab\r\n", "mop delete K 0 0 drop\r\n", "mop get K 5 2 delete\r\nab bA\r\n", "mop get K 0 0 drop\r\n", "delete K\r\n"})
SEQ20(acct_tree, 5, 6, (Strs{"bop create K 1 0 6 error\r\n", bopi("K", "10", "a"), bopi("K", "20", "b", "0x01"), bopi("K", "30", "c"), bopi("K", "40", "d")}), Strs{bopi("K", "5", "e"), bopi("K", "25", string(200, 'f'), "0x0102"), bopi("K", "50", "g", "", "create 0 -1 0"), bopi("K", "20", string(90, 'u'), "", "", "upsert"), "bop update K 30 0x01020304 -1\r\n", "bop update K 10 60\r\n" + string(60, 'y') + "\r\n", "bop delete K 15..35 drop\r\n", "bop delete K 0..100 3 drop\r\n", "bop get K 10 drop\r\n", "bop get K 100..0 delete\r\n", "setattr K maxcount=4 overflowaction=smallest_trim\r\n", "setattr K overflowaction=largest_silent_trim\r\n"})
SUITE("C20", acct_bulk, "small", BOTH) { // big collections: removal in the background in steps
    mc::boot_std({"-m", "200"}); Lock l(ctx); l.connect(); sim::settle(); uint64_t base = sim::slab().live_bytes; ctx.note_bound("collections of 0..1500 elements (around the background removal step) of each type removed by delete, replacing set, flush, expiry, range deletion, trimming");
    for (int ty = 0; ty < 4; ty++) for (int n : {0, 1, 29, 30, 31, 60, 61, 90, 99, 100, 101, 199, 200, 201, 999, 1000, 1001, 1500}) for (int how = 0; how < 6; how++) { if (!ctx.mine()) continue; l.begin(); const char *cr[] = {"lop", "sop", "mop", "bop"};
        l.step(string(cr[ty]) + " create K 0 " + (how == 3 ? "5" : "0") + " 0\r\n"); for (int i = 0; i < n; i++) { string v = S(i * 7919 % 100003); l.step(ty == 0 ? "lop insert K -1 " + S(v.size()) + "\r\n" + v + "\r\n" : ty == 1 ? "sop insert K " + S(v.size()) + "\r\n" + v + "\r\n" : ty == 2 ? "mop insert K " + v + " 1\r\nx\r\n" : bopi("K", v, "x")); if (l.hist.size() > 30) l.hist.erase(l.hist.begin(), l.hist.end() - 10); }
        if (how == 0) l.step("delete K\r\n"); else if (how == 1) { l.step("delete K\r\n"); l.step(kset("set", "K", "v")); l.step("delete K\r\n"); } else if (how == 2) { l.step("flush_all\r\n"); l.step("+2"); l.step("getattr K type\r\n"); } else if (how == 3) { l.step("+6"); l.step("getattr K type\r\n"); } 
        else { string all = ty == 0 ? "lop delete K 0..-1" : ty == 1 ? "" : ty == 2 ? "mop delete K 0 0" : "bop delete K 0..200000"; if (ty == 1) sim::rpc(l.c, string("sop get K 0 ") + (how == 4 ? "drop" : "delete") + "\r\n"); else l.step(all + (how == 4 ? " drop" : "") + "\r\n"); if (how == 5) sim::rpc(l.c, "delete K\r\n"); sim::rpc(l.c, "delete K\r\n"); l.m.kv.clear(); }
        check_empty(l, base); l.m = model::Model(); l.m.now = sim::now_s(); ctx.trace(); ctx.distinct(ty * 100000 + n * 10 + how); }
}
// ------------------------------------------------------------------ C39
static bool sw(const string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
// counters the completed command has to move, from the request and its reply
static bool expected(Lock &l, const string &req, const string &rep, Cnt &d) {
    auto t = model::split(req.substr(0, req.find("\r\n"))); string v = t[0]; bool coll = v == "lop" || v == "sop" || v == "mop" || v == "bop"; string op = coll ? v + "_" + t[1] : v;
    if (sw(rep, "CLIENT_ERROR bad command") || (sw(rep, "CLIENT_ERROR bad value") && v != "touch") || sw(rep, "ERROR")) return true; // not executed
    auto key = [&](const string &k) { auto *i = l.m.find(k); d["cmd_get"]++; if (i && i->type == model::KV) d["get_hits"]++; else d["get_misses"]++; };
    if (op == "get" || op == "gets") { for (size_t i = 1; i < t.size(); i++) key(t[i]); return true; }
    if (op == "mget" || op == "mgets") { size_t b = req.find("\r\n") + 2; for (auto &k : model::split(req.substr(b, atol(t[1].c_str())))) key(k); return true; }
    if (op == "cas") { d["cmd_cas"]++; if (rep == "STORED\r\n") d["cas_hits"]++; else if (rep == "EXISTS\r\n") d["cas_badval"]++; else if (rep == "NOT_FOUND\r\n" || rep == "TYPE_MISMATCH\r\n") d["cas_misses"]++; return true; }
    if (op == "set" || op == "add" || op == "replace" || op == "append" || op == "prepend") { d["cmd_set"]++; return true; }
    if (op == "flush_all") { d["cmd_flush"]++; return true; } if (op == "flush_prefix") { d["cmd_flush_prefix"]++; return true; }
    if (op == "touch") op = "setattr"; 
    if (coll && (t[1] == "upsert")) op = v + "_insert";
    bool miss = rep == "NOT_FOUND\r\n", none = rep == "NOT_FOUND_ELEMENT\r\n", oor = rep == "OUT_OF_RANGE\r\n", unread = rep == "UNREADABLE\r\n";
    bool err = rep == "TYPE_MISMATCH\r\n" || rep == "BKEY_MISMATCH\r\n" || sw(rep, "CLIENT_ERROR") || sw(rep, "SERVER_ERROR") || rep == "OVERFLOWED\r\n" || rep == "ELEMENT_EXISTS\r\n" || rep == "EXISTS\r\n" || sw(rep, "ATTR_ERROR") || rep == "EFLAG_MISMATCH\r\n" || rep == "NOTHING_TO_UPDATE\r\n";
    d["cmd_" + op]++;
    if (op == "bop_mget" && !err) for (size_t p = 0; (p = rep.find("VALUE ", p)) != string::npos; p++) { auto f = model::split(rep.substr(p, rep.find("\r\n", p) - p)); d["cmd_bop_get"]++; if (f.size() < 3) continue; // each key also counts as one get
        if (f[2] == "OK" || f[2] == "TRIMMED") d["bop_get_elem_hits"]++; else if (f[2] == "NOT_FOUND_ELEMENT") d["bop_get_none_hits"]++; else if (f[2] == "NOT_FOUND" || f[2] == "OUT_OF_RANGE" || f[2] == "UNREADABLE") d["bop_get_misses"]++; }
    if (op == "bop_mget" || op == "bop_smget") { if (!err) d[op + "_oks"]++; return true; }
    if (coll && t[1] == "create") { if (rep == "CREATED\r\n") d[op + "_oks"]++; return true; }
    bool elems = op == "lop_delete" || op == "lop_get" || op == "sop_delete" || op == "sop_get" || op == "mop_update" || op == "mop_delete" || op == "mop_get" || op == "bop_update" || op == "bop_delete" || op == "bop_get" || op == "bop_incr" || op == "bop_decr" || op == "bop_position" || op == "bop_pwg" || op == "bop_gbp";
    if (err) return true; if (miss || unread || (oor && op == "bop_get")) { d[op + "_misses"]++; return true; } if (oor) return true;
    if (none) { if (elems) d[op + "_none_hits"]++; return true; }
    d[op + (elems ? "_elem_hits" : "_hits")]++; return true;
}
static const char *IGN[] = {"pid", "uptime", "time", "rusage_user", "rusage_system", "bytes_read", "bytes_written", "curr_items", "total_items", "bytes", "sticky_items", "sticky_bytes", "conn_yields", "reclaimed", "libevent", "version", "stat_prefixes", "curr_prefixes", "engine_malloced", "engine_used"};
static void check_delta(Lock &l, Cnt before, Cnt after, const Cnt &d, const string &what) {
    for (auto x : IGN) { before.erase(x); after.erase(x); } for (auto &e : d) before[e.first] += e.second; l.ctx->evals();
    for (auto &e : after) if (before[e.first] != e.second) l.fail("counter:" + e.first, "after " + what + ": " + e.first + mc::fmt(" is %lld, expected %lld", e.second, before[e.first]));
    for (auto &e : before) if (e.second && !after.count(e.first)) l.fail("counter:" + e.first, "after " + what + ": " + e.first + " is not reported");
}
SUITE("C39", counters, "std", BOTH) {
    mc::boot_std({"-g", "10"}); Lock l(ctx); l.connect(); auto ts = types16(); auto cs = all_cmds(); for (auto &x : Strs{"flush_all\r\n", "get K K none\r\n", "mget 5 3\r\nK K x\r\n", "bop mget 3 2 0..9 5\r\nK x\r\n", kset("set", "K", "n", 0, 0, "noreply"), "delete K noreply\r\n", "get\r\n", "incr K x\r\n", "bogus\r\n"}) cs.push_back(x);
    ctx.note_bound(S(ts.size()) + " item states x every ordered pair of " + S(cs.size()) + " commands (all types, hit, miss, error); every counter of the general statistics before and after each command; also the per-command read/written byte counts, total items and stats reset");
    for (auto &t : ts) for (auto &a : cs) for (auto &b : cs) { if (!ctx.mine()) continue; l.begin(); sim::rpc(l.c, "flush_all\r\n"); sim::advance_s(1); l.m = model::Model(); l.m.now = sim::now_s();
        for (auto &c : t.init) l.step(c); auto s0 = stats(l.c); Cnt d; long long rd = 0, wr = 0; string w;
        for (auto *x : {&a, &b}) { string req = l.m.subst(*x), r2; model::Model pre = l.m; string rep; 
            if (req.find("noreply") != string::npos) { rep = sim::rpc(l.c, req); if (!rep.empty()) l.fail("noreply", "a reply to " + req); string e; string full = req; size_t p = full.find(" noreply"); full.erase(p, 8); r2 = l.m.exec(full, nullptr, e); Lock tmp(ctx); tmp.m = pre; expected(tmp, full, r2, d); }
            else { Lock tmp(ctx); tmp.m = pre; rep = sim::rpc(l.c, req); string e; if (req != "get\r\n" && req != "bogus\r\n" && req != "incr K x\r\n") l.m.exec(req, &rep, e); expected(tmp, req, sw(rep, "CLIENT_ERROR invalid numeric delta") ? "ERROR" : rep, d); l.hist.push_back({req, rep}); }
            rd += req.size(); wr += rep.size(); w += req.substr(0, req.find("\r\n")) + "; "; }
        auto s1 = stats(l.c); check_delta(l, s0, s1, d, w); 
        if (s1["bytes_read"] - s0["bytes_read"] != rd + 7) l.fail("bytes_read", mc::fmt("bytes_read moved by %lld for %lld bytes sent after %s", s1["bytes_read"] - s0["bytes_read"], rd + 7, w.c_str()));
        ctx.trace(); ctx.trans(2); ctx.distinct(mc::hash(t.name + a + b)); if (ctx.case_index() % 4001 == 0) { string e; for (auto &x : d) e += x.first + "+" + S(x.second) + " "; ctx.sample(string(t.name) + ": " + w + " => " + e); } (void)wr; }
}
SUITE("C39", counters_conns, "std", BOTH) { // several workers and connections, reset, totals
    mc::boot_std({"-g", "10"}); vector<int> cs; Lock l(ctx); for (int i = 0; i < 3; i++) { l.connect(); cs.push_back(l.c); }
    Strs ev = {"get a\r\n", kset("set", "a", "1"), "incr a 1\r\n", "delete a\r\n", "lop insert q 0 1 create 0 0 0\r\nx\r\n", "lop get q 0\r\n", "stats reset\r\n", "connect", "close", "quit"};
    int D = ctx.thorough ? 6 : 5; ctx.note_bound("every " + S(D) + "-step sequence over " + S(ev.size()) + " events on connections served by different workers (commands rotate over them); counters, connection figures and totals after each");
    vector<int> ix(D, 0); for (;;) { if (ctx.mine()) { l.begin(); l.c = cs[0]; for (auto &k : {"a", "q"}) sim::rpc(cs[0], string("delete ") + k + "\r\n"); sim::rpc(cs[0], "stats reset\r\n"); l.m = model::Model(); l.m.now = sim::now_s(); auto s0 = stats(cs[0]); Cnt d; long long items = 0, conns = s0["curr_connections"], tot = s0["total_connections"], quits = s0["quit_connections"]; vector<int> extra; int turn = 0;
        for (int i : ix) { const string &e = ev[i]; if (e == "connect") { extra.push_back(sim::connect()); sim::run(); conns++; tot++; l.hist.push_back({"connect", ""}); } else if (e == "close") { if (extra.size()) { sim::shut(extra.back()); sim::run(); extra.pop_back(); conns--; } l.hist.push_back({"close", ""}); } else if (e == "quit") { if (extra.size()) { sim::rpc(extra.back(), "quit\r\n"); extra.pop_back(); conns--; quits++; } l.hist.push_back({"quit", ""}); }
            else if (e == "stats reset\r\n") { string r = sim::rpc(cs[turn++ % 3], e); if (r != "RESET\r\n") l.fail("reset", "stats reset: " + r); d.clear(); s0 = stats(cs[0]); for (auto &x : s0) if ((x.first.compare(0, 4, "cmd_") == 0 || x.first.find("_hits") != string::npos || x.first.find("_misses") != string::npos || x.first.find("_oks") != string::npos) && x.second) l.fail("reset", x.first + " is not zero after stats reset"); items = 0; tot = 0; quits = 0; 
                if (s0["total_items"]) l.fail("reset", "total_items not zero after stats reset"); tot = s0["total_connections"]; if (tot > 1) l.fail("reset", "total_connections not reset"); quits = s0["quit_connections"]; if (quits) l.fail("reset", "quit_connections not reset"); l.hist.push_back({e, r}); }
            else { l.c = cs[turn++ % 3]; Lock tmp(ctx); tmp.m = l.m; l.step(e); expected(tmp, e, l.last_rep, d); if (l.last_rep == "STORED\r\n" && e[0] == 's') items++; if (l.last_rep == "CREATED_STORED\r\n") items++; if (e[0] == 'i' && l.last_rep != "NOT_FOUND\r\n" && l.last_rep[0] != 'C') items += 0; } }
        l.c = cs[0]; auto s1 = stats(cs[0]); Cnt b = s0; b["curr_connections"] = conns; b["total_connections"] = tot; b["quit_connections"] = quits; s1["connection_structures"] = b["connection_structures"]; check_delta(l, b, s1, d, "the sequence");
        auto ag = stats(cs[1], "stats aggregate\r\n"); for (auto &x : ag) if (s1.count(x.first) && x.first.compare(0, 4, "cmd_") == 0 && x.second != s1[x.first]) l.fail("aggregate", "stats aggregate differs from stats in " + x.first);
        long long n = l.m.kv.size(); if (s1["curr_items"] != n) l.fail("items", mc::fmt("curr_items %lld, stored %lld", s1["curr_items"], n));
        for (int x : extra) sim::shut(x); sim::run(); for (int x : cs) if (sim::closed(x)) l.fail("closed", "a connection was closed"); ctx.trace(); ctx.distinct(mc::hash(l.m.canon() + S(conns) + S(tot))); }
        int p = D - 1; while (p >= 0 && ++ix[p] == (int)ev.size()) ix[p--] = 0; if (p < 0) break; if (ctx.out_of_time_fast()) return; }
}
// ------------------------------------------------------------------ C40
struct PfxStat { long long v[12]; };
static bool pfx_items(const string &rep, map<string, PfxStat> &out, string &err) { size_t p = 0; bool end = false; while (p < rep.size()) { size_t e = rep.find("\r\n", p); if (e == string::npos) { err = "unterminated line"; return false; } string ln = rep.substr(p, e - p); p = e + 2; if (ln == "END") { end = p == rep.size(); break; } auto t = model::split(ln); if (t.size() != 28 || t[0] != "PREFIX") { err = "bad line " + ln; return false; } if (out.count(t[1])) { err = "prefix listed twice: " + t[1]; return false; } PfxStat s; for (int i = 0; i < 12; i++) s.v[i] = atoll(t[3 + 2 * i].c_str()); out[t[1]] = s; } if (!end) err = "no END"; return end; }
static string pfx_name(const string &k) { string p = model::prefix_of(k); return p.empty() ? "<null>" : p; }
SUITE("C40", prefix_items, "small", BOTH) {
    mc::boot_std({"-g", "10"}); Spec s; 
    s.alpha = {kset("set", "a", "1"), kset("set", "p:a", "1"), kset("set", "p:a", string(300, 'x'), 0, -1), kset("append", "p:a", string(100, 'y')), kset("set", "p:b:c", "5"), kset("set", "pp:a", "7"), "lop insert p:l 0 3 create 0 0 0\r\nxxx\r\n", "sop insert q:s 3 create 0 0 0\r\nabc\r\n", "sop insert q:s 3 create 0 0 0\r\nabd\r\n", "mop insert p:m f 2 create 0 0 0\r\nff\r\n", "bop insert q:b 5 2 create 0 0 2\r\nff\r\n", "bop insert q:b 7 3 create 0 0 2\r\nfff\r\n", "bop insert q:b 9 1\r\nf\r\n", "delete p:a\r\n", "delete p:l\r\n", "delete a\r\n", "flush_prefix p\r\n", "bop delete q:b 0..9 drop\r\n", "lop get p:l 0 drop\r\n", "touch p:b:c 1\r\n", "+2"};
    s.observe = {}; s.cleanup = {"delete a\r\n", "delete p:a\r\n", "delete p:b:c\r\n", "delete pp:a\r\n", "delete p:l\r\n", "delete q:s\r\n", "delete p:m\r\n", "delete q:b\r\n"}; s.depth = ctx.thorough ? 5 : 4; s.leak = true;
    ctx.note_bound("after every sequence: all stored keys are touched so that dead ones go, then item counts per type equal the model's, byte totals equal the sum of the types, the sum over prefixes equals the general statistics and the allocator's count, and the named form of the command agrees; every prefix present iff it has an item");
    s.check = [](Lock &l) { for (auto &k : {"a", "p:a", "p:b:c", "pp:a", "p:l", "q:s", "p:m", "q:b"}) sim::rpc(l.c, string("getattr ") + k + " type\r\n"); l.m.expire_all();
        map<string, PfxStat> got; string err, rep = sim::rpc(l.c, "stats prefixes\r\n"); l.hist.push_back({"stats prefixes\r\n", rep}); if (!pfx_items(rep, got, err)) l.fail("format", "stats prefixes: " + err);
        map<string, vector<long long>> want; for (auto &e : l.m.kv) { auto &w = want[pfx_name(e.first)]; w.resize(6); w[0]++; w[1 + e.second.type]++; }
        for (auto &e : got) { if (!want.count(e.first)) { l.fail("ghost", "prefix " + e.first + " is reported but has no item"); continue; } for (int i = 0; i < 6; i++) if (e.second.v[i] != want[e.first][i]) l.fail("count", mc::fmt("prefix %s: item count %d is %lld, expected %lld", e.first.c_str(), i, e.second.v[i], want[e.first][i])); }
        for (auto &e : want) if (!got.count(e.first)) l.fail("absent", "prefix " + e.first + " has items but is not reported");
        long long tot = 0; for (auto &e : got) { long long s = 0; for (int i = 7; i < 12; i++) { s += e.second.v[i]; if ((e.second.v[i] != 0) != (e.second.v[i - 6] != 0)) l.fail("bytes", "prefix " + e.first + ": bytes without items or items without bytes"); } if (s != e.second.v[6]) l.fail("bytes", "prefix " + e.first + ": total size is not the sum of the types"); tot += s; }
        auto st = stats(l.c); if (tot != st["bytes"] || (sim::slab().live_space && (uint64_t)tot != sim::slab().live_space)) l.fail("bytes", mc::fmt("prefix sizes add up to %lld, bytes %lld, allocator %llu", tot, st["bytes"], (unsigned long long)sim::slab().live_space));
        map<string, PfxStat> g2; rep = sim::rpc(l.c, "stats prefixlist item <null> q nope p\r\n"); if (!pfx_items(rep, g2, err)) l.fail("format", "stats prefixlist: " + err); for (auto &n : {"<null>", "q", "p"}) if (g2.count(n) != got.count(n) || (g2.count(n) && memcmp(g2[n].v, got[n].v, sizeof g2[n].v))) l.fail("list", string("stats prefixlist item differs from stats prefixes for ") + n); if (g2.count("nope")) l.fail("ghost", "unknown prefix reported"); };
    all_sequences(ctx, s);
}
static map<string, map<string, long long>> pfx_ops(const string &rep) { map<string, map<string, long long>> r; size_t p = 0; while (p < rep.size()) { size_t e = rep.find("\r\n", p); if (e == string::npos) break; auto t = model::split(rep.substr(p, e - p)); p = e + 2; if (t.size() > 2 && t[0] == "PREFIX") for (size_t i = 2; i + 1 < t.size(); i += 2) r[t[1]][t[i]] = atoll(t[i + 1].c_str()); } return r; }
SUITE("C40", prefix_ops, "std", BOTH) {
    mc::boot_std({"-g", "10"}); Lock l(ctx); l.connect(); auto ts = types("K"); Strs cs; // commands addressed to three keys
    static const map<string, std::pair<string, string>> nm = {{"get", {"get", "hit"}}, {"set", {"set", ""}}, {"delete", {"del", ""}}, {"incr", {"inc", ""}}, {"decr", {"dec", ""}}, {"lop_create", {"lcs", ""}}, {"lop_insert", {"lis", "lih"}}, {"lop_delete", {"lds", "ldh"}}, {"lop_get", {"lgs", "lgh"}}, {"sop_create", {"scs", ""}}, {"sop_insert", {"sis", "sih"}}, {"sop_delete", {"sds", "sdh"}}, {"sop_get", {"sgs", "sgh"}}, {"sop_exist", {"ses", "seh"}}, {"mop_create", {"mcs", ""}}, {"mop_insert", {"mis", "mih"}}, {"mop_update", {"mus", "muh"}}, {"mop_delete", {"mds", "mdh"}}, {"mop_get", {"mgs", "mgh"}}, {"bop_create", {"bcs", ""}}, {"bop_insert", {"bis", "bih"}}, {"bop_update", {"bus", "buh"}}, {"bop_delete", {"bds", "bdh"}}, {"bop_incr", {"bps", "bph"}}, {"bop_decr", {"bms", "bmh"}}, {"bop_get", {"bgs", "bgh"}}, {"bop_count", {"bns", "bnh"}}, {"bop_position", {"pfs", "pfh"}}, {"bop_pwg", {"pgs", "pgh"}}, {"bop_gbp", {"gps", "gph"}}, {"getattr", {"gas", ""}}, {"setattr", {"sas", ""}}};
    auto cmds = all_cmds(); auto re = [](string c, const string &k) { size_t p = c.find(" K"); if (p != string::npos && (p + 2 == c.size() || c[p + 2] == ' ' || c[p + 2] == '\r')) c.replace(p + 1, 1, k); p = c.find("(K)"); if (p != string::npos) c.replace(p + 1, 1, k); return c; };
    Strs keys = {"K", "p:K", "p:q:K"}; sim::rpc(l.c, "stats detail on\r\n");
    ctx.note_bound("detail statistics: " + S(ts.size()) + " item states x every ordered pair of " + S(cmds.size()) + " commands on keys without prefix, with one and with a nested prefix; the detail dump moves by exactly the executed commands of that prefix, with hits as replied, and all others stay");
    auto detail = [&](const string &what) { return pfx_ops(sim::rpc(l.c, what)); };
    for (auto &t : ts) for (auto &a : cmds) for (auto &b : cmds) { if (a.compare(0, 4, "mget") == 0 || b.compare(0, 4, "mget") == 0 || a.find("mget 1") != string::npos || b.find("mget 1") != string::npos || a.compare(0, 6, "flush_") == 0 || b.compare(0, 6, "flush_") == 0) continue; if (!ctx.mine()) continue; 
        l.begin(); string ka = keys[ctx.case_index() % 3], kb = keys[(ctx.case_index() / 3) % 3]; sim::rpc(l.c, "flush_all\r\n"); sim::advance_s(1); l.m = model::Model(); l.m.now = sim::now_s(); for (auto &c : t.init) l.step(re(c, ka));
        auto s0 = detail("stats detail dump\r\n"); map<string, map<string, long long>> d; string w;
        for (auto *x : {&a, &b}) { const string &k = x == &a ? ka : kb; string req = re(*x, k); Lock tmp(ctx); tmp.m = l.m; req = l.m.subst(req); l.step(req); Cnt c; expected(tmp, req, l.last_rep, c); string pn = pfx_name(k); w += req.substr(0, req.find("\r\n")) + "; ";
            for (auto &e : c) { string n = e.first; bool hit = false; string op; if (n.compare(0, 4, "cmd_") == 0) op = n.substr(4); else if (n.size() > 5 && n.substr(n.size() - 5) == "_hits") { hit = true; op = n.substr(0, n.size() - 5); for (auto sfx : {"_elem", "_none"}) if (op.size() > 5 && op.substr(op.size() - 5) == sfx) op = op.substr(0, op.size() - 5); } else continue;
                if (op == "cas") { op = "set"; if (hit) continue; } if (n == "mop_update_none_hits") continue; auto f = nm.find(op); if (f == nm.end()) continue; const string &nmx = hit ? f->second.second : f->second.first; if (!nmx.empty()) d[pn][nmx] += e.second; } }
        auto s1 = detail("stats detail dump\r\n"); l.ctx->evals(); for (auto &e : d) for (auto &f : e.second) s0[e.first][f.first] += f.second;
        for (auto &e : s1) for (auto &f : e.second) if (s0[e.first][f.first] != f.second) l.fail("op:" + f.first, "after " + w + ": " + e.first + " " + f.first + mc::fmt(" is %lld, expected %lld", f.second, s0[e.first][f.first]));
        for (auto &e : s0) for (auto &f : e.second) if (f.second && !s1[e.first].count(f.first)) l.fail("op:" + f.first, "after " + w + ": " + e.first + " " + f.first + " is not reported");
        auto s2 = detail("stats prefixlist operation\r\n"); if (s2 != s1) { for (auto &e : s1) { auto &x = s2[e.first]; (void)x; } if (s2 != s1) l.fail("list", "stats prefixlist operation differs from stats detail dump"); }
        ctx.trace(); ctx.distinct(mc::hash(w + t.name)); if (ctx.case_index() % 3001 == 0) { string e; for (auto &x : d) for (auto &y : x.second) e += x.first + "." + y.first + "+" + S(y.second) + " "; ctx.sample(w + " => " + e); } }
}
