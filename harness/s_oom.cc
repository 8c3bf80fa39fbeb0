// C17: every single allocation failure (item memory and heap), and exhaustion from every point on
#include "alpha.h"
#include <algorithm>
#include <sys/mman.h>
using namespace ex; using namespace al; using std::string; using std::vector;
static const Strs OBS = {"getattr K\r\n", "get K\r\n", "lop get K 0..-1\r\n", "sop get K 0\r\n", "mop get K 0 0\r\n", "bop get K 0..100000\r\n", "bop get K 0x00..0xffffff\r\n", "get other\r\n", "bop get otherb 0..100\r\n"};
static bool oom_reply(const string &r) { return r.compare(0, 12, "SERVER_ERROR") == 0 || r.compare(0, 31, "CLIENT_ERROR out of memory") == 0 || r == "NOT_STORED\r\n"; }
struct Case17 { string name; Strs init; string cmd; };
static void fault_cmd(mc::Ctx &ctx, Lock &l, const Case17 &cs, bool heap, int mode, int from = 1, int rounds = 3, int *any = nullptr) {
    // several rounds per fault point: from the second on nothing may be left behind
    for (int k = from;; k++) { if (k > 400) { ctx.note(cs.name); break; }
        bool hit = false; uint64_t h0 = 0, s0 = 0;
        for (int round = 0; round < rounds; round++) { l.begin(); if (l.c < 0 || sim::closed(l.c)) l.connect(); l.m = model::Model(); l.m.now = sim::now_s(); l.step(kset("set", "other", "keep", 7)); l.step("bop insert otherb 3 1 create 0 0 0\r\nq\r\n"); for (auto &c : cs.init) l.step(c); if (any) l.connect(); // a worker that has served nothing yet
            string req = l.m.subst(cs.cmd); model::Model pre = l.m, post = l.m, gone = l.m, e1; string err; post.exec(req, nullptr, err); gone.kv.erase("K");
            if (heap) { sim::malloc_fail_mode = mode; sim::malloc_failed = false; sim::malloc_fail_at = k; } else { sim::slab_fail_mode = mode; sim::slab_failed = false; sim::slab_fail_at = k; }
            string rep = sim::rpc(l.c, req); hit = heap ? sim::malloc_failed : sim::slab_failed; sim::malloc_fail_at = sim::slab_fail_at = 0; sim::run(); rep += sim::take(l.c); bool cl = sim::closed(l.c); l.hist.push_back({mc::esc(req, 200) + mc::fmt("   [%s allocation %d fails%s]", heap ? "heap" : "item", k, mode == 2 ? ", and all later ones" : ""), mc::esc(rep, 300) + (cl ? " <closed>" : "")}); l.ctx->evals();
            if (!hit) break;
            if (cl) { l.connect(); }
            vector<model::Model> cand; model::Model ok = pre; err.clear(); ok.exec(req, &rep, err); bool normal = !cl && err.empty();
            if (normal) cand.push_back(ok); 
            if (!normal) { if (!cl && !oom_reply(rep)) { if (rep.empty()) l.fail("noreply", "no reply at all"); else l.fail("reply", "neither the regular reply nor an out of memory error: " + mc::esc(rep, 300)); }
                if (!cl && rep.size() >= 2 && rep.compare(rep.size() - 2, 2, "\r\n")) l.fail("reply", "incomplete reply"); cand.push_back(pre); if (req.compare(0, 4, "set ") == 0 || req.compare(0, 4, "cas ") == 0) cand.push_back(gone); if (cl) { cand.push_back(post); cand.push_back(gone); } }
            vector<string> why(cand.size()); for (auto &o : OBS) { string r = sim::rpc(l.c, o); l.hist.push_back({o, r}); for (size_t i = 0; i < cand.size(); i++) if (why[i].empty()) { string e; cand[i].exec(o, &r, e); if (!e.empty()) why[i] = o + ": " + e; } }
            bool withdel = req.find(" delete\r\n") != string::npos || req.find(" drop\r\n") != string::npos; int lost = -1; if (!normal && !cl && withdel) { lost = cand.size(); vector<model::Model> ls = {post}; if (req.compare(0, 10, "sop get K ") == 0 && pre.kv.count("K") && pre.kv["K"].type == model::SET) for (auto &e : pre.kv["K"].set) { model::Model p2 = pre; p2.kv["K"].set.erase(e); ls.push_back(p2); } /* any one member */
                for (auto &cm : ls) { cand.push_back(cm); why.push_back(""); size_t n = cand.size() - 1; for (size_t h = l.hist.size() - OBS.size(); h < l.hist.size(); h++) if (why[n].empty()) { string e; cand[n].exec(l.hist[h].first, &l.hist[h].second, e); if (!e.empty()) why[n] = e; } } }
            int sel = -1; for (size_t i = 0; i < cand.size() && sel < 0; i++) if (why[i].empty()) sel = i; if (sel >= 0 && lost >= 0 && sel >= lost) { auto t = model::split(req); l.fail("lost:" + t[0] + " " + t[1], "the elements were removed although the reply with them could not be built: " + mc::esc(rep, 100)); }
            if (sel < 0) { l.fail("state", "after the failure the items are neither as before nor as after the command: " + why[0]); sel = 0; }
            l.m = cand[sel]; if (!normal) { l.pre = "retry"; bool found_pre = sel == 0; if (found_pre) l.step(cs.cmd); l.pre = "mismatch"; }
            for (auto &d : Strs{"delete K\r\n", "delete other\r\n", "delete otherb\r\n", "delete K2\r\n"}) sim::rpc(l.c, d); sim::settle(); 
            auto sl = sim::slab(); auto hp = sim::heap(); if (round == 0) s0 = sl.live_bytes; else if (sl.live_bytes != s0) { l.fail("leak", mc::fmt("item memory in use grows from %llu to %llu with every such failure", (unsigned long long)s0, (unsigned long long)sl.live_bytes)); }
            if (round == 1) h0 = hp.live_bytes; if (round == 2 && hp.live_bytes > h0) l.fail("heapleak", mc::fmt("heap memory in use grows by %lld bytes with every such failure", (long long)(hp.live_bytes - h0)));
            ctx.trace(); }
        if (any) { *any = hit; return; }
        ctx.distinct(mc::hash(cs.name + cs.cmd + S(k) + S(heap) + S(mode))); ctx.trans();
        if (!hit) { for (auto &d : Strs{"delete K\r\n", "delete other\r\n", "delete otherb\r\n"}) sim::rpc(l.c, d); sim::settle(); break; } }
}
static vector<Case17> extra17() { vector<Case17> r; auto T = types("K"); auto init = [&](const char *n) { for (auto &t : T) if (string(t.name) == n) return t.init; return Strs(); };
    string many; for (int i = 0; i < 260; i++) many += i % 3 ? " K" : " other"; r.push_back({"kv", init("kv"), "get" + many + "\r\n"}); r.push_back({"kv", init("kv"), "gets" + many + "\r\n"}); r.push_back({"kv", init("kv"), "mget " + S(many.size() - 1) + " 260\r\n" + many.substr(1) + "\r\n"});
    r.push_back({"none", {}, kset("set", "K", string(9000, 'v'))}); r.push_back({"kv", init("kv"), kset("set", "K", string(9000, 'v'))}); r.push_back({"kv", init("kv"), kset("append", "K", string(9000, 'v'))}); r.push_back({"none", {}, kset("set", string(3000, 'k'), "v")}); r.push_back({"kv", init("kv"), "get " + string(3000, 'k') + " K\r\n"});
    Strs bl = init("list"), bs = init("set"), bm = init("map"), bt = {"bop create K 1 0 0\r\n"}; bl[0] = "lop create K 3 0 0\r\n"; bs[0] = "sop create K 3 0 0\r\n"; for (int i = 0; i < 70; i++) { bl.push_back("lop insert K -1 3\r\n" + S(100 + i) + "\r\n"); bs.push_back("sop insert K 3\r\n" + S(100 + i) + "\r\n"); bm.push_back("mop insert K f" + S(i) + " 1\r\nx\r\n"); bt.push_back(bopi("K", S(i * 3), S(i))); }
    for (auto &c : {"lop get K 0..-1\r\n", "lop get K 0..-1 delete\r\n", "lop get K 0..-1 drop\r\n", "lop get K -1..0 delete\r\n"}) r.push_back({"biglist", bl, c}); for (auto &c : {"sop get K 0\r\n", "sop get K 0 delete\r\n", "sop get K 0 drop\r\n"}) r.push_back({"bigset", bs, c});
    for (auto &c : {"mop get K 0 0\r\n", "mop get K 0 0 delete\r\n", "mop get K 0 0 drop\r\n", "mop get K 8 3 delete\r\nf1 f2 f3\r\n"}) r.push_back({"bigmap", bm, c}); for (auto &c : {"bop get K 0..300\r\n", "bop get K 0..300 delete\r\n", "bop get K 300..0 drop\r\n", "bop gbp K asc 0..60\r\n", "bop pwg K 30 asc 50\r\n", "bop mget 8 2 0..300 50\r\nK otherb\r\n", "bop smget 8 2 0..300 50 duplicate\r\nK otherb\r\n", "bop smget 8 2 300..0 50 unique\r\nK otherb\r\n", "bop smget 8 2 0..300 50\r\nK otherb\r\n", "bop delete K 0..300\r\n"}) r.push_back({"bigtree", bt, c});
    r.push_back({"bigset", bs, "sop insert K 3\r\nzzz\r\n"}); r.push_back({"bigmap", bm, "mop insert K zz 3\r\nzzz\r\n"}); for (int i : {1, 31, 64, 100, 208}) r.push_back({"bigtree", bt, bopi("K", S(i), "new")}); r.push_back({"bigtree", bt, bopi("K", "3", "newvalue longer", "", "", "upsert")}); r.push_back({"bigtree", bt, "bop update K 3 0x0102030405 20\r\n" + string(20, 'w') + "\r\n"}); r.push_back({"bigmap", bm, "mop update K f3 50\r\n" + string(50, 'w') + "\r\n"});
    return r; }
static void run17(mc::Ctx &ctx, bool heap) {
    Strs args = {"-g", "10"}; if (!heap) args.push_back("-M"); mc::boot_std(args); Lock l(ctx); l.connect(); auto ts = types16(); auto cs = all_cmds(); auto ex = extra17(); vector<Case17> all; for (auto &t : ts) for (auto &c : cs) all.push_back({t.name, t.init, c}); for (auto &e : ex) all.push_back(e);
    ctx.note_bound(S(ts.size()) + " item states x " + S(cs.size()) + " commands and " + S(ex.size()) + " commands on large keys, values, replies and collections: every single " + (heap ? "heap" : "item memory") + " allocation fails alone, and all from each point on; reply, state, retry, memory (three rounds per fault point)");
    for (auto &c : all) for (int mode : {1, 2}) { if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return; fault_cmd(ctx, l, c, heap, mode); }
}
SUITE("C17", oom_item, "asmall", BOTH) { run17(ctx, false); }
SUITE("C17", oom_heap, "asan", BOTH) { run17(ctx, true); }
// every buffer of the worker and of the connection still unallocated: each fault point in a fork of the freshly started server
SUITE("C17", oom_cold, "std", BOTH) {
    mc::boot_std({"-g", "10"}); int *any = (int *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); auto ts = types16(); auto cs = all_cmds(); auto all = extra17(); size_t nx = all.size();
    for (auto &t : ts) for (auto &c : cs) { string v = c.substr(0, c.find(' ')); bool fit = (string(t.name) == "kv" && v != "lop" && v != "sop" && v != "mop" && v != "bop") || (string(t.name) == "list" && v == "lop") || (string(t.name) == "set" && v == "sop") || (string(t.name) == "map" && v == "mop") || (string(t.name) == "tree" && v == "bop") || string(t.name) == "none"; if (fit) all.push_back({t.name, t.init, c}); }
    ctx.note_bound(S(all.size()) + " command and state pairs (" + S(nx) + " of them with large keys, values, replies or collections) on a fresh server: every heap allocation fails alone, and all from each point on; the preparing commands come from another connection of another worker");
    for (auto &c : all) for (int mode : {1, 2}) { if (!ctx.mine()) continue; if (ctx.out_of_time_fast()) return; for (int k = 1; k < 300; k++) { *any = 0; ctx.isolated([&] { Lock l(ctx); fault_cmd(ctx, l, c, true, mode, k, 1, any); }, 30); ctx.distinct(mc::hash(c.name + c.cmd + S(k) + S(mode))); if (!*any) break; } }
}
// a connection is made while memory is short: refused or served, never half
SUITE("C17", oom_accept, "asan", BOTH) {
    mc::boot_std({}); int c0 = sim::connect(); sim::run(); ctx.note_bound("each heap allocation during accepting and dispatching 1..40 new connections fails, alone or with all later ones; later connections and the connection count are right");
    for (int n : {1, 2, 5, 40}) for (int mode : {1, 2}) for (int k = 1; k <= (n == 40 ? 300 : 60); k++) { if (!ctx.mine()) continue; ctx.isolated([&] { auto cc = [&] { string r = sim::rpc(c0, "stats\r\n"); size_t p = r.find("STAT curr_connections "); return p == string::npos ? -1l : atol(r.c_str() + p + 22); }; long before = cc(); uint64_t f0 = sim::outstanding_fds();
            sim::malloc_fail_mode = mode; sim::malloc_fail_at = k; vector<int> v; for (int i = 0; i < n; i++) v.push_back(sim::connect()); sim::run(); sim::malloc_fail_at = 0; sim::run(); int served = 0; for (int c : v) { string r = sim::rpc(c, "version\r\n"); if (r.compare(0, 8, "VERSION ") == 0) served++; else if (!r.empty()) ctx.fail("reply", "unexpected reply " + r); else if (!sim::closed(c)) ctx.fail("stuck", mc::fmt("a connection made while memory was short (allocation %d of %d connections, mode %d) is neither served nor closed", k, n, mode)); }
            long mid = cc(); if (mid - before != served) ctx.fail("count", mc::fmt("curr_connections went from %ld to %ld with %d connections served (allocation %d of %d connections failed, mode %d)", before, mid, served, k, n, mode)); for (int c : v) sim::shut(c); sim::run(); if (cc() != before || sim::outstanding_fds() != f0) ctx.fail("count", mc::fmt("curr_connections %ld after all were closed, before %ld; descriptors %d/%d", cc(), before, (int)sim::outstanding_fds(), (int)f0)); int c = sim::connect(); sim::run(); if (sim::rpc(c, "version\r\n").compare(0, 8, "VERSION ")) ctx.fail("stuck", "no service after memory is available again"); }, 30); ctx.trace(); ctx.distinct(n * 100000 + mode * 10000 + k); }
}
